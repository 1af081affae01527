---------------------------- MODULE Propagation ----------------------------
(* Propagation scopes and the attributes of spans started inside them       *)
(* (packages/core/src/propagation.ts, packages/otel onStart), in one        *)
(* service and, through baggage, in downstream services. Contexts are       *)
(* immutable places in a program, so acting in any of them at any time is   *)
(* every interleaving of concurrent asynchronous flows.                     *)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt
CONSTANTS Params,      \* names of parameter sets of a scope
          Bags,        \* subset of BOOLEAN: as baggage or not
          MaxScopes, MaxSpans, MaxHops, MaxEnds, Explicit
VARIABLES ctxs, spans, n, act
vars == <<ctxs, spans, n, act>>
Empty == [x \in {} |-> "0"]
NoP == [s |-> Empty, tags |-> <<>>, md |-> Empty, prompt |-> "none"]
(* "bad": a value that must be dropped on its own *)
P(x) ==
  CASE x = "u1"  -> [NoP EXCEPT !.s = "user" :> "1"]
    [] x = "u2s" -> [NoP EXCEPT !.s = "user" :> "2" @@ "session" :> "1"]
    [] x = "bs"  -> [NoP EXCEPT !.s = "user" :> "bad" @@ "session" :> "2" @@ "version" :> "1"]
    [] x = "ne"  -> [NoP EXCEPT !.s = "name" :> "1" @@ "env" :> "1"]
    [] x = "be"  -> [NoP EXCEPT !.s = "env" :> "bad" @@ "name" :> "bad" @@ "version" :> "2"]
    [] x = "e2"  -> [NoP EXCEPT !.s = "env" :> "2" @@ "name" :> "2" @@ "session" :> "bad"]
    [] x = "ab"  -> [NoP EXCEPT !.tags = <<"a", "b">>]
    [] x = "bc"  -> [NoP EXCEPT !.tags = <<"b", "c">>]
    [] x = "xc"  -> [NoP EXCEPT !.tags = <<"bad", "c">>]
    [] x = "xx"  -> [NoP EXCEPT !.tags = <<"bad">>]
    [] x = "m1"  -> [NoP EXCEPT !.md = "k1" :> "1"]
    [] x = "m2"  -> [NoP EXCEPT !.md = "k1" :> "2" @@ "k2" :> "1"]
    [] x = "mb"  -> [NoP EXCEPT !.md = "k1" :> "bad" @@ "k2" :> "2"]
    [] x = "mx"  -> [NoP EXCEPT !.md = "k2" :> "bad"]
    [] x = "p1"  -> [NoP EXCEPT !.prompt = "p1"]
    [] x = "p2"  -> [NoP EXCEPT !.prompt = "p2", !.s = "version" :> "2"]
    [] x = "pf"  -> [NoP EXCEPT !.prompt = "fb", !.s = "user" :> "2"]
    [] x = "pb"  -> [NoP EXCEPT !.prompt = "bad", !.s = "session" :> "2"]
    [] x = "all" -> [s |-> "user" :> "1" @@ "session" :> "1" @@ "version" :> "1" @@ "name" :> "1" @@ "env" :> "1", tags |-> <<"a">>, md |-> "k1" :> "1", prompt |-> "p1"]
    [] x = "alb" -> [s |-> "user" :> "2" @@ "session" :> "bad" @@ "version" :> "2" @@ "name" :> "bad" @@ "env" :> "2", tags |-> <<"c", "bad", "a">>, md |-> "k1" :> "bad" @@ "k2" :> "1", prompt |-> "bad"]
    [] x = "exp" -> [NoP EXCEPT !.s = "exp" :> "1"]
    [] x = "exe" -> [NoP EXCEPT !.s = "exp" :> "2" @@ "env" :> "2"]

Good(f) == [k \in {k \in DOMAIN f : f[k] # "bad"} |-> f[k]]
GoodT(t) == SelectSeq(t, LAMBDA x : x # "bad")
GoodP(p) == IF p \in {"p1", "p2"} THEN p ELSE "none"
Merge(old, new) == old \o SelectSeq(new, LAMBDA x : \A i \in DOMAIN old : old[i] # x)
Over(p, q) == IF p # "none" THEN p ELSE q

(* values of a context and of its outgoing baggage after opening a scope *)
Tags0(c) == IF c.v.tags # <<>> THEN c.v.tags ELSE c.b.tags
Opened(c, x, bag) ==
  LET p == P(x) t == GoodT(p.tags)
      tags == IF t = <<>> THEN c.v.tags ELSE Merge(Tags0(c), t)
      v == [s |-> Good(p.s) @@ c.v.s, tags |-> tags, md |-> Good(p.md) @@ c.v.md, prompt |-> Over(GoodP(p.prompt), c.v.prompt)]
      b == IF ~bag THEN c.b ELSE
           [s |-> Good(p.s) @@ c.b.s, tags |-> IF t = <<>> THEN c.b.tags ELSE tags,
            md |-> IF DOMAIN Good(p.md) = {} THEN c.b.md ELSE v.md @@ c.b.md, prompt |-> Over(GoodP(p.prompt), c.b.prompt)]
  IN [c EXCEPT !.v = v, !.b = b]
(* what a span started in the context carries *)
Env(s) == IF "exp" \in DOMAIN s THEN "env" :> "experiment" @@ s ELSE s @@ "env" :> "default"
Carried(c, pr) == [s |-> Env(c.v.s @@ c.b.s), tags |-> Tags0(c), md |-> c.v.md @@ c.b.md,
                   prompt |-> Over(pr, Over(c.v.prompt, c.b.prompt)), open |-> TRUE, own |-> pr]

Init == /\ ctxs = << [svc |-> 1, span |-> 0, local |-> FALSE, v |-> NoP, b |-> NoP] >> /\ spans = <<>>
        /\ n = [scopes |-> 0, hops |-> 0, ends |-> 0] /\ act = [op |-> "init"]
Open(c, x, bag) ==
  LET p == P(x) o == Opened(ctxs[c], x, bag) sp == ctxs[c].span live == sp # 0 /\ spans[sp].open /\ ctxs[c].local IN
  /\ n.scopes < MaxScopes /\ n' = [n EXCEPT !.scopes = @ + 1]
  /\ (GoodP(p.prompt) # "none" /\ live) => spans[sp].own = "none"   \* left open by the documentation
  /\ ctxs' = Append(ctxs, o)
  /\ spans' = IF ~live THEN spans ELSE
       [spans EXCEPT ![sp] = [@ EXCEPT !.s = Good(p.s) @@ @, !.tags = IF GoodT(p.tags) = <<>> THEN @ ELSE o.v.tags,
                              !.md = IF DOMAIN Good(p.md) = {} THEN @ ELSE o.v.md @@ @, !.prompt = Over(GoodP(p.prompt), @)]]
  /\ act' = [op |-> "open", c |-> c, p |-> [P(x) EXCEPT !.s = {<<k, p.s[k]>> : k \in DOMAIN p.s}, !.md = {<<k, p.md[k]>> : k \in DOMAIN p.md}], bag |-> bag]
Start(c, pr) ==
  /\ Len(spans) < MaxSpans /\ spans' = Append(spans, Carried(ctxs[c], pr))
  /\ ctxs' = Append(ctxs, [ctxs[c] EXCEPT !.span = Len(spans) + 1, !.local = TRUE])
  /\ UNCHANGED n /\ act' = [op |-> "start", c |-> c, pr |-> pr]
End(i) == /\ n.ends < MaxEnds /\ spans[i].open /\ spans' = [spans EXCEPT ![i].open = FALSE]
          /\ n' = [n EXCEPT !.ends = @ + 1] /\ UNCHANGED ctxs /\ act' = [op |-> "end", i |-> i]
Hop(c) == /\ n.hops < MaxHops /\ n' = [n EXCEPT !.hops = @ + 1]
          /\ ctxs' = Append(ctxs, [ctxs[c] EXCEPT !.svc = @ + 1, !.v = NoP, !.local = FALSE])
          /\ UNCHANGED spans /\ act' = [op |-> "hop", c |-> c]
Next == \/ \E c \in DOMAIN ctxs, x \in Params, bag \in Bags : Open(c, x, bag)
        \/ \E c \in DOMAIN ctxs, pr \in IF Explicit THEN {"none", "px"} ELSE {"none"} : Start(c, pr)
        \/ \E i \in DOMAIN spans : End(i)
        \/ \E c \in DOMAIN ctxs : Hop(c)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
NoBad == \A i \in DOMAIN spans : (\A k \in DOMAIN spans[i].s : spans[i].s[k] # "bad") /\ (\A k \in DOMAIN spans[i].md : spans[i].md[k] # "bad")
         /\ (\A k \in DOMAIN spans[i].tags : spans[i].tags[k] # "bad") /\ spans[i].prompt \notin {"fb", "bad"}
C14_Dropped == NoBad
(* only the span in which a scope is opened can change after its start, and no ended span ever does *)
C14_Isolated == [][\A i \in DOMAIN spans : [spans'[i] EXCEPT !.open = TRUE] # [spans[i] EXCEPT !.open = TRUE] =>
                     (act'.op = "open" /\ ctxs[act'.c].span = i /\ spans[i].open)]_vars
(* tags only grow along a chain of scopes; nothing is duplicated *)
C14_Tags == \A i \in DOMAIN ctxs : \A j, k \in DOMAIN ctxs[i].v.tags : j # k => ctxs[i].v.tags[j] # ctxs[i].v.tags[k]
(* what is carried to other services was carried locally when it was requested, nothing is carried unless requested *)
C15_OptIn == (TRUE \notin Bags) => \A i \in DOMAIN ctxs : ctxs[i].b = NoP
C15_Same == (FALSE \notin Bags) => \A i \in DOMAIN ctxs : ctxs[i].svc = 1 => ctxs[i].v = ctxs[i].b

Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
Out(sp) == [s |-> Pairs(sp.s), tags |-> sp.tags, md |-> Pairs(sp.md), prompt |-> sp.prompt]
Carry(b) == {<<k, b.s[k]>> : k \in DOMAIN b.s} \cup {<<"tag", b.tags[i]>> : i \in DOMAIN b.tags} \cup {<<k, b.md[k]>> : k \in DOMAIN b.md} \cup (IF b.prompt = "none" THEN {} ELSE {<<"prompt", b.prompt>>})
Obs == [spans |-> [i \in DOMAIN spans' |-> Out(spans'[i])], headers |-> [i \in DOMAIN ctxs' |-> Carry(ctxs'[i].b)], ok |-> "ok"]
St == <<ctxs, spans, n>>
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == St
=============================================================================
