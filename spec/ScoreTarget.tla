---------------------------- MODULE ScoreTarget ----------------------------
(* Which trace and observation a score is recorded on                        *)
(* (packages/client/src/score together with packages/tracing's contexts).    *)
(* Flows are the live asynchronous bodies of active observations; flow 0 is  *)
(* the program outside of any.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,          \* how an observation comes about: "active", "observe", "manual", "otel", "remote", "event"
          Vias,           \* "activeObs", "activeTrace", "obs", "trace", "create", "session", "run"
          Bodies, Clients, MaxObs, MaxScores

VARIABLES obs, scores, act
vars == <<obs, scores, act>>
Init == obs = <<>> /\ scores = <<>> /\ act = [op |-> "init"]

Active(k) == k \notin {"manual", "event"}
Flows == {0} \cup {i \in DOMAIN obs : obs[i].open}
Open(c, k) ==
  /\ Len(obs) < MaxObs /\ UNCHANGED scores
  /\ LET me == Len(obs) + 1 IN
       obs' = Append(obs, [kind |-> k, root |-> IF c = 0 \/ k = "remote" THEN me ELSE obs[c].root, open |-> Active(k)])
  /\ act' = [op |-> "open", c |-> c, kind |-> k]
Close(i) == /\ obs[i].open /\ obs' = [obs EXCEPT ![i].open = FALSE] /\ UNCHANGED scores
            /\ act' = [op |-> "close", i |-> i]

Target(c, via, i) == CASE via \in {"activeObs", "activeTrace"} /\ c = 0 -> [tr |-> 0, ob |-> 0, other |-> "dropped"]
                       [] via = "activeObs" -> [tr |-> obs[c].root, ob |-> c, other |-> "none"]
                       [] via = "activeTrace" -> [tr |-> obs[c].root, ob |-> 0, other |-> "none"]
                       [] via \in {"obs", "create"} -> [tr |-> obs[i].root, ob |-> i, other |-> "none"]
                       [] via = "trace" -> [tr |-> obs[i].root, ob |-> 0, other |-> "none"]
                       [] OTHER -> [tr |-> 0, ob |-> 0, other |-> via]
Given(via) == via \in {"obs", "trace", "create"}
Score(c, via, i, b, k) ==
  /\ Len(scores) < MaxScores /\ UNCHANGED obs
  /\ Given(via) <=> i # 0
  /\ scores' = Append(scores, [t |-> Target(c, via, i), b |-> b, k |-> k])
  /\ act' = [op |-> "score", c |-> c, via |-> via, i |-> i, b |-> b, k |-> k]

Next == \/ \E c \in Flows, k \in Kinds : Open(c, k)
        \/ \E i \in DOMAIN obs : Close(i)
        \/ \E c \in Flows, via \in Vias, i \in 0..Len(obs), b \in Bodies, k \in Clients : Score(c, via, i, b, k)
Spec == Init /\ [][Next]_vars

(* A score on an observation is on that observation's own trace. *)
C33_OwnTrace == \A s \in DOMAIN scores : scores[s].t.ob # 0 => scores[s].t.tr = obs[scores[s].t.ob].root
C33_Somewhere == \A s \in DOMAIN scores : scores[s].t.tr # 0 \/ scores[s].t.other # "none"
C33_Roots == \A i \in DOMAIN obs : obs[obs[i].root].root = obs[i].root
(* Nothing that happens later moves a score. *)
C33_Fixed == [][ \A s \in DOMAIN scores : scores'[s] = scores[s] ]_vars

St == [o |-> obs, s |-> scores]
Kept == SelectSeq(scores', LAMBDA s : s.t.other # "dropped")
Obs == [sent |-> Kept, ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<obs, scores>>
=============================================================================
