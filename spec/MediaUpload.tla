---------------------------- MODULE MediaUpload ----------------------------
(* The upload of one media value (packages/core/src/mediaUpload.ts):        *)
(* ask for a target, send the bytes with retries, report the status.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Retries, Medias
VARIABLES ph,      \* idle, post, put, wait, patch, done
          max, n,  \* allowed retries; PUTs so far
          log,     \* requests: <<"post">>, <<"put">>, <<"patch", status>>
          res, act
vars == <<ph, max, n, log, res, act>>
Init == ph = "idle" /\ max = 0 /\ n = 0 /\ log = <<>> /\ res = "none" /\ act = [op |-> "init"]

Start(r, m) == /\ ph = "idle" /\ max' = r /\ n' = 0
               /\ IF m = "ok" THEN ph' = "post" /\ log' = << <<"post">> >> /\ res' = "pending"
                  ELSE ph' = "done" /\ log' = <<>> /\ res' = "rejected"
               /\ act' = [op |-> "start", retries |-> r, media |-> m]
Post(o) == /\ ph = "post" /\ act' = [op |-> "post", o |-> o] /\ UNCHANGED max
           /\ CASE o = "stored" -> ph' = "done" /\ res' = "resolved" /\ UNCHANGED <<log, n>>
                [] o = "target" -> ph' = "put" /\ log' = Append(log, <<"put">>) /\ n' = 1 /\ UNCHANGED res
                [] OTHER        -> ph' = "done" /\ res' = "rejected" /\ UNCHANGED <<log, n>>   \* mismatch, e400, net
Success == {"200", "201"}
Put(o) == /\ ph = "put" /\ act' = [op |-> "put", o |-> o] /\ UNCHANGED <<max, n>>
          /\ IF o \in Success THEN ph' = "patch" /\ log' = Append(log, <<"patch", o>>) /\ UNCHANGED res
             ELSE IF n <= max THEN ph' = "wait" /\ UNCHANGED <<log, res>>
             ELSE IF o = "net" THEN ph' = "done" /\ res' = "rejected" /\ UNCHANGED log
             ELSE ph' = "patch" /\ log' = Append(log, <<"patch", o>>) /\ UNCHANGED res
(* The delay after the k-th failure is between base*2^(k-1) and that plus one second. *)
Wait == /\ ph = "wait" /\ act' = [op |-> "wait", k |-> n] /\ ph' = "put" /\ n' = n + 1
        /\ log' = Append(log, <<"put">>) /\ UNCHANGED <<max, res>>
Patch(o) == /\ ph = "patch" /\ act' = [op |-> "patch", o |-> o] /\ ph' = "done"
            /\ res' = (IF o = "ok" /\ log[Len(log)][2] \in Success THEN "resolved" ELSE "rejected")
            /\ UNCHANGED <<max, n, log>>
Again == ph = "done" /\ act' = [op |-> "again"] /\ ph' = "idle" /\ max' = 0 /\ n' = 0 /\ log' = <<>> /\ res' = "none"

Next == \/ \E r \in Retries, m \in Medias : Start(r, m)
        \/ \E o \in {"stored", "target", "mismatch", "e400", "net"} : Post(o)
        \/ \E o \in {"200", "201", "500", "403", "net"} : Put(o)
        \/ Wait
        \/ \E o \in {"ok", "e400"} : Patch(o)
        \/ Again
Fairness == WF_vars(\E o \in {"stored", "target"} : Post(o)) /\ WF_vars(\E o \in {"200", "500"} : Put(o)) /\ WF_vars(Wait) /\ WF_vars(Patch("ok"))
Spec == Init /\ [][Next]_vars /\ Fairness
----------------------------------------------------------------------------
Puts == Len(SelectSeq(log, LAMBDA x : x[1] = "put"))
Patches == Len(SelectSeq(log, LAMBDA x : x[1] = "patch"))
C12_Order == Len(log) > 0 => log[1] = <<"post">> /\ \A i \in 2..Len(log) : log[i][1] # "post"
C12_Bounded == Puts <= max + 1
C12_Reported == Patches <= 1 /\ (Patches = 1 => log[Len(log)][1] = "patch")
C12_Success == (res = "resolved" /\ Puts > 0) => (Patches = 1 /\ log[Len(log)][2] \in Success)
C12_Settles == (ph = "post") ~> (ph = "done")

Obs == [log |-> log', res |-> res', content |-> "ok"]
St == <<ph, max, n, log, res>>
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == St
=============================================================================
