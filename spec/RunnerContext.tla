--------------------------- MODULE RunnerContext ---------------------------
(* Runner contexts (packages/client/src/experiment): defaults for the data,   *)
(* the dataset version and the metadata of experiment runs. A run uses its    *)
(* own values where it gives them; metadata is merged key by key.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Datas, Versions, Mds, MaxCtx, MaxRuns

(* metadata: which key has the value of whom *)
Keys(m) == CASE m = "ab" -> {"a", "b"} [] m = "bc" -> {"b", "c"} [] OTHER -> {}
VARIABLES ctxs, runs, act
vars == <<ctxs, runs, act>>
Init == ctxs = <<>> /\ runs = <<>> /\ act = [op |-> "init"]

Or(x, y) == IF x = "none" THEN y ELSE x
Absent == [k \in {"a", "b", "c"} |-> "none"]
Merged(c, r) == [k \in {"a", "b", "c"} |-> IF k \in Keys(r) THEN "call" ELSE IF k \in Keys(c) THEN "ctx" ELSE "none"]
MakeCtx(d, v, m) == /\ Len(ctxs) < MaxCtx /\ runs = <<>> /\ ctxs' = Append(ctxs, [d |-> d, v |-> v, m |-> m]) /\ UNCHANGED runs
                    /\ act' = [op |-> "make", d |-> d, v |-> v, m |-> m]
Run(i, d, v, m) ==
  /\ Len(runs) < MaxRuns /\ UNCHANGED ctxs
  /\ LET c == ctxs[i] IN
     runs' = Append(runs, IF Or(d, c.d) = "none" THEN [d |-> "none", v |-> "none", m |-> Absent, st |-> "rejected"]
                          ELSE [d |-> Or(d, c.d), v |-> Or(v, c.v), m |-> Merged(c.m, m), st |-> IF Or(d, c.d) = "empty" THEN "done" ELSE "running"])
  /\ act' = [op |-> "run", i |-> i, d |-> d, v |-> v, m |-> m]
Finish(j) == /\ runs[j].st = "running" /\ runs' = [runs EXCEPT ![j].st = "done"] /\ UNCHANGED ctxs /\ act' = [op |-> "finish", j |-> j]
Next == \/ \E d \in Datas, v \in Versions, m \in Mds : MakeCtx(d, v, m)
        \/ \E i \in DOMAIN ctxs, d \in Datas, v \in Versions, m \in Mds : Run(i, d, v, m)
        \/ \E j \in DOMAIN runs : Finish(j)
Spec == Init /\ [][Next]_vars

C35_Kept == [][ \A i \in DOMAIN ctxs : ctxs'[i] = ctxs[i] ]_vars
C35_Own == [][ \A j \in DOMAIN runs : runs'[j].d = runs[j].d /\ runs'[j].v = runs[j].v /\ runs'[j].m = runs[j].m ]_vars
C35_CallWins == [][ act'.op = "run" /\ act'.d # "none" => runs'[Len(runs')].d = act'.d ]_vars

St == [c |-> ctxs, r |-> runs]
Obs == [runs |-> [j \in DOMAIN runs' |-> [d |-> runs'[j].d, v |-> IF runs'[j].d = "empty" THEN "none" ELSE runs'[j].v, m |-> IF runs'[j].d = "empty" THEN Absent ELSE runs'[j].m, st |-> runs'[j].st]], ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<ctxs, runs>>
=============================================================================
