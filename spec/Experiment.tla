----------------------------- MODULE Experiment -----------------------------
(* Experiments (packages/client/src/experiment): a task is run on every item *)
(* with bounded concurrency, its output is evaluated and scored.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ns, Limits, NEs, NRs, Sources,      \* item counts, concurrency limits, evaluators, run evaluators, "local" or "dataset"
          ItemKinds,                          \* "ok", "noinput", "cyc" (not serialisable), "sthrow", "evthrow" (task or evaluators throw at once)
          TaskOuts, EvOuts, LinkOuts, ProjOuts, SendOuts

VARIABLES cfg, items, phase, revs, scores, act
vars == <<cfg, items, phase, revs, scores, act>>
Init == cfg = [n |-> 0, lim |-> 0, ne |-> 0, nr |-> 0, src |-> "none"] /\ items = <<>> /\ phase = "idle" /\ revs = <<>> /\ scores = <<>> /\ act = [op |-> "init"]

Fails == {"rej", "throw", "np", "undef"}
Names(o, tag) == CASE o \in {"one", "auto", "autonull"} -> <<tag>> [] o \in {"two", "falsy"} -> <<tag \o "a", tag \o "b">> [] o = "same" -> <<"same", "same">> [] OTHER -> <<>>
RECURSIVE Flat(_, _, _)
Flat(s, p, k) == IF k > Len(s) THEN <<>> ELSE Names(s[k], p \o ToString(k)) \o Flat(s, p, k + 1)
Own(o, ns) == [k \in DOMAIN ns |-> <<o, ns[k]>>]
Busy(its) == {i \in DOMAIN its : its[i].st \in {"link", "task", "eval"}}
Final(its) == \A i \in DOMAIN its : its[i].st \in {"done", "skip"}
Min(S) == CHOOSE x \in S : \A y \in S : x =< y

Call(it) == [it EXCEPT !.st = IF it.k = "sthrow" THEN "skip" ELSE "task", !.calls = 1]
(* free places are given to the waiting items in input order *)
RECURSIVE Fill(_, _)
Fill(its, c) == LET w == {i \in DOMAIN its : its[i].st = "wait"} IN
  IF w = {} \/ Cardinality(Busy(its)) >= c.lim THEN its
  ELSE LET i == Min(w) IN
    Fill([its EXCEPT ![i] = IF @.k = "noinput" THEN [@ EXCEPT !.st = "skip"]
                            ELSE IF c.src = "dataset" THEN [@ EXCEPT !.st = "link"] ELSE Call(@)], c)
Linked(its) == \E i \in DOMAIN its : its[i].st = "done" /\ its[i].link = "ok"
ToSend(sc) == IF sc = <<>> THEN "end" ELSE "send"
AfterProject(c, sc) == IF c.nr > 0 THEN "runeval" ELSE ToSend(sc)
AfterItems(its, c, sc) == IF ~Final(its) THEN "items" ELSE IF Linked(its) THEN "project" ELSE AfterProject(c, sc)

(* Sets the items, with the places that became free filled again. *)
Put(its, sc) == LET f == Fill(its, cfg) IN
  /\ items' = f /\ scores' = sc /\ phase' = AfterItems(f, cfg, sc) /\ UNCHANGED <<cfg, revs>>

Start(c, ks) ==
  /\ phase = "idle" /\ cfg' = c /\ act' = [op |-> "start", c |-> c, ks |-> ks]
  /\ LET f == Fill([i \in 1..c.n |-> [k |-> ks[i], st |-> "wait", calls |-> 0, link |-> "none", out |-> "none", ev |-> [e \in 1..c.ne |-> "wait"]]], c) IN
       /\ items' = f /\ scores' = <<>> /\ phase' = AfterItems(f, c, <<>>)
  /\ revs' = [j \in 1..c.nr |-> "wait"]
Link(i, o) == /\ phase = "items" /\ items[i].st = "link" /\ act' = [op |-> "link", i |-> i, o |-> o]
              /\ Put([items EXCEPT ![i] = [Call(@) EXCEPT !.link = o]], scores)
Task(i, o) == /\ phase = "items" /\ items[i].st = "task" /\ act' = [op |-> "task", i |-> i, o |-> o]
              /\ Put([items EXCEPT ![i].st = IF o \in Fails THEN "skip" ELSE IF cfg.ne = 0 \/ items[i].k = "evthrow" THEN "done" ELSE "eval", ![i].out = IF o \in Fails THEN "none" ELSE o], scores)
Eval(i, e, o) ==
  /\ phase = "items" /\ items[i].st = "eval" /\ items[i].ev[e] = "wait" /\ act' = [op |-> "eval", i |-> i, e |-> e, o |-> o]
  /\ LET ev == [items[i].ev EXCEPT ![e] = o] all == \A x \in DOMAIN ev : ev[x] # "wait" IN
       Put([items EXCEPT ![i].ev = ev, ![i].st = IF all THEN "done" ELSE "eval"], IF all THEN scores \o Own(i, Flat(ev, "e", 1)) ELSE scores)
Project(o) == /\ phase = "project" /\ phase' = AfterProject(cfg, scores) /\ UNCHANGED <<cfg, revs, scores, items>>
              /\ act' = [op |-> "project", o |-> o]
RunEval(j, o) ==
  /\ phase = "runeval" /\ revs[j] = "wait" /\ act' = [op |-> "runeval", j |-> j, o |-> o] /\ UNCHANGED <<cfg, items>>
  /\ LET r == [revs EXCEPT ![j] = o] all == \A x \in DOMAIN r : r[x] # "wait"
         sc == IF all /\ Linked(items) THEN scores \o Own(0, Flat(r, "r", 1)) ELSE scores IN
       revs' = r /\ scores' = sc /\ phase' = IF all THEN ToSend(sc) ELSE phase
Send(o) == /\ phase = "send" /\ phase' = "end" /\ UNCHANGED <<cfg, items, revs, scores>> /\ act' = [op |-> "send", o |-> o]

Cfgs == [n : Ns, lim : Limits, ne : NEs, nr : NRs, src : Sources]
Next == \/ \E c \in Cfgs : \E ks \in [1..c.n -> ItemKinds] : Start(c, ks)
        \/ \E i \in DOMAIN items : \/ \E o \in LinkOuts : Link(i, o)
                                   \/ \E o \in TaskOuts : Task(i, o)
                                   \/ \E e \in 1..cfg.ne, o \in EvOuts : Eval(i, e, o)
        \/ \E o \in ProjOuts : Project(o)
        \/ \E j \in DOMAIN revs, o \in EvOuts : RunEval(j, o)
        \/ \E o \in SendOuts : Send(o)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

C21_Limit == Cardinality(Busy(items)) =< cfg.lim \/ phase = "idle"
C21_Busy == (phase = "items") => Busy(items) # {}
C21_Once == \A i \in DOMAIN items : items[i].calls =< 1 /\ (items[i].st = "done" => items[i].calls = 1)
C21_Resolves == phase = "end" => Final(items) /\ \A j \in DOMAIN revs : revs[j] # "wait"
C21_OneScoreEach == phase \in {"send", "end"} => \A i \in DOMAIN items :
    SelectSeq(scores, LAMBDA s : s[1] = i) = IF items[i].st = "done" THEN Own(i, Flat(items[i].ev, "e", 1)) ELSE <<>>
(* an event of one item never changes another, except to start it *)
C21_Isolated == [][ "i" \in DOMAIN act' => \A j \in DOMAIN items : j # act'.i => items'[j] = items[j] \/ items[j].st = "wait" ]_vars
C21_Live == (phase = "items") ~> (phase = "end")

Done == SelectSeq([i \in 1..Len(items') |-> i], LAMBDA i : items'[i].st = "done")
St == [c |-> cfg, i |-> items, p |-> phase, r |-> revs, s |-> scores]
Obs == [items |-> [i \in DOMAIN items' |-> [calls |-> items'[i].calls, link |-> items'[i].st = "link", task |-> items'[i].st = "task",
                                           ev |-> [e \in 1..cfg'.ne |-> items'[i].st = "eval" /\ items'[i].ev[e] = "wait"]]],
        project |-> phase' = "project",
        revs |-> [j \in DOMAIN revs' |-> phase' = "runeval" /\ revs'[j] = "wait"],
        sent |-> IF phase' \in {"send", "end"} THEN scores' ELSE <<>>,
        res |-> IF phase' # "end" THEN <<>> ELSE [k \in DOMAIN Done |-> [i |-> Done[k], out |-> items'[Done[k]].out, ev |-> Flat(items'[Done[k]].ev, "e", 1), run |-> items'[Done[k]].link = "ok"]],
        rev |-> IF phase' # "end" THEN <<>> ELSE Flat(revs', "r", 1), done |-> phase' = "end", ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<cfg, items, phase, revs, scores>>
=============================================================================
