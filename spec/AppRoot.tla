------------------------------ MODULE AppRoot ------------------------------
(* Which spans are marked as application root (packages/otel onStart and    *)
(* the claim carried in baggage by packages/tracing). A context is a place  *)
(* in a program where spans can be started: it has a service, an enclosing  *)
(* span (0: none) and the trace claimed for it (0: none), and the context   *)
(* it was entered from, which keeps apart histories that end alike; they are *)
(* immutable, so taking any of them at any time is every interleaving of    *)
(* concurrent asynchronous flows.                                           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxSpans, MaxHops, Services, Kinds, Hows, Ends
VARIABLES spans, ctxs, hops, act
vars == <<spans, ctxs, hops, act>>
Init == spans = <<>> /\ hops = 0 /\ act = [op |-> "init"]
        /\ ctxs = [i \in 1..Services |-> [svc |-> i, span |-> 0, claim |-> 0, from |-> 0]]
TraceOf(p) == IF p = 0 THEN Len(spans) + 1 ELSE spans[p].trace
(* the filter's verdict when the span starts, and when it has ended *)
AtStart(k) == k \in {"exp", "early"}
AtEnd(k) == k \in {"exp", "late"}
Root(svc, p, claim, k) ==
  /\ AtStart(k)
  /\ ~(p # 0 /\ spans[p].svc = svc /\ spans[p].open /\ AtStart(spans[p].kind))
  /\ ~(claim # 0 /\ claim = TraceOf(p))
New(c, p, k, how) ==
  LET x == ctxs[c] tr == TraceOf(p) IN
  /\ Len(spans) < MaxSpans
  /\ spans' = Append(spans, [svc |-> x.svc, parent |-> p, kind |-> k, open |-> TRUE, trace |-> tr, root |-> Root(x.svc, p, x.claim, k)])
  /\ ctxs' = Append(ctxs, [svc |-> x.svc, span |-> Len(spans) + 1, claim |-> IF how = "lf" THEN tr ELSE x.claim, from |-> c])
  /\ UNCHANGED hops
(* lf: startActiveObservation or observe; otel: a foreign tracer's active span *)
Start(c, k, how) == New(c, ctxs[c].span, k, how) /\ act' = [op |-> "start", c |-> c, k |-> k, how |-> how]
(* a child created from the handle of span p while executing in context c *)
Child(c, p, k) == p # ctxs[c].span /\ spans[p].svc = ctxs[c].svc /\ New(c, p, k, "handle") /\ act' = [op |-> "child", c |-> c, p |-> p, k |-> k]
End(p) == Ends /\ spans[p].open /\ spans' = [spans EXCEPT ![p].open = FALSE] /\ UNCHANGED <<ctxs, hops>> /\ act' = [op |-> "end", p |-> p]
Hop(c, s) == /\ hops < MaxHops /\ hops' = hops + 1 /\ ctxs[c].span # 0
             /\ ctxs' = Append(ctxs, [svc |-> s, span |-> ctxs[c].span, claim |-> ctxs[c].claim, from |-> c])
             /\ UNCHANGED spans /\ act' = [op |-> "hop", c |-> c, s |-> s]
(* leaving the current trace: the next span there begins another one *)
Detach(c) == /\ hops < MaxHops /\ hops' = hops + 1 /\ ctxs[c].span # 0
             /\ ctxs' = Append(ctxs, [ctxs[c] EXCEPT !.span = 0, !.from = c])
             /\ UNCHANGED spans /\ act' = [op |-> "detach", c |-> c]
Next == \/ \E c \in DOMAIN ctxs : Detach(c)
        \/ \E c \in DOMAIN ctxs, k \in Kinds, how \in Hows : Start(c, k, how)
        \/ \E c \in DOMAIN ctxs, p \in DOMAIN spans, k \in Kinds : "handle" \in Hows /\ Child(c, p, k)
        \/ \E p \in DOMAIN spans : End(p)
        \/ \E c \in DOMAIN ctxs, s \in 1..Services : Hop(c, s)
NextH == Next /\ (act'.op = "start" => act'.how # "handle")
Spec == Init /\ [][NextH]_vars
----------------------------------------------------------------------------
(* a span whose whole ancestry consists of open, expected local spans has a marked topmost one *)
RECURSIVE Anc(_)
Anc(i) == IF spans[i].parent = 0 THEN {} ELSE {spans[i].parent} \cup Anc(spans[i].parent)
C13_OnlyExpected == \A i \in DOMAIN spans : spans[i].root => AtStart(spans[i].kind)
C13_Topmost == \A i \in DOMAIN spans : (spans[i].parent = 0 /\ AtStart(spans[i].kind)) => spans[i].root
(* a claimed trace gets no further root in the contexts that carry the claim *)
C13_Claimed == [][Len(spans') > Len(spans) /\ act'.op = "start" /\ ctxs[act'.c].claim = TraceOf(ctxs[act'.c].span) => ~spans'[Len(spans')].root]_vars
C13_Stable == [][\A i \in DOMAIN spans : spans'[i].root = spans[i].root]_vars

Obs == [roots |-> [i \in DOMAIN spans' |-> spans'[i].root],
        exported |-> [i \in DOMAIN spans' |-> ~spans'[i].open /\ AtEnd(spans'[i].kind)], ok |-> "ok"]
St == <<spans, ctxs, hops>>
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == St
=============================================================================
