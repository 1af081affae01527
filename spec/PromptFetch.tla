---------------------------- MODULE PromptFetch ----------------------------
(* One lookup of a prompt with a retry limit and a timeout of its own: the    *)
(* attempts it makes and when it gives up (packages/client/src/prompt).       *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Kinds,       \* "miss": nothing is cached; "refresh": an expired prompt is
          Retries,     \* 99: not given
          Timeouts,    \* milliseconds
          Fbs, Answers

VARIABLES ph,          \* idle, out, wait, good (a success is cached), done
          cfg, tries, half, res, act
vars == <<ph, cfg, tries, half, res, act>>
Init == ph = "idle" /\ cfg = [kind |-> "none", r |-> 0, t |-> 0, fb |-> FALSE] /\ tries = 0 /\ half = FALSE /\ res = "none" /\ act = [op |-> "init"]

Limit == IF cfg.r = 99 THEN 2 ELSE cfg.r
Transient(o) == o \in {"408", "429", "500", "503"}
Failed == IF cfg.kind = "refresh" THEN "old" ELSE IF cfg.fb THEN "fallback" ELSE "rejected"

Get(k, r, t, f) ==
  /\ ph = "idle" /\ ph' = "out" /\ cfg' = [kind |-> k, r |-> r, t |-> t, fb |-> f] /\ tries' = 1 /\ half' = FALSE
  /\ res' = IF k = "refresh" THEN "old" ELSE "pending"
  /\ act' = [op |-> "get", kind |-> k, r |-> r, t |-> t, fb |-> f]
Answer(o) ==
  /\ ph = "out" /\ UNCHANGED <<cfg, tries, half>> /\ act' = [op |-> "answer", o |-> o]
  /\ IF o = "ok" THEN ph' = "good" /\ res' = IF cfg.kind = "miss" THEN "new" ELSE "old"
     ELSE IF Transient(o) /\ tries =< Limit THEN ph' = "wait" /\ UNCHANGED res
     ELSE ph' = "done" /\ res' = Failed
(* the next lookup is served from the cache *)
Probe == ph = "good" /\ ph' = "done" /\ res' = "new" /\ UNCHANGED <<cfg, tries, half>> /\ act' = [op |-> "probe"]
Again == ph = "wait" /\ ph' = "out" /\ tries' = tries + 1 /\ half' = FALSE /\ UNCHANGED <<cfg, res>> /\ act' = [op |-> "again"]
(* half of the timeout passes *)
Half == /\ ph = "out" /\ UNCHANGED <<cfg, tries>> /\ act' = [op |-> "half"]
        /\ IF half THEN ph' = "done" /\ res' = Failed /\ UNCHANGED half ELSE half' = TRUE /\ UNCHANGED <<ph, res>>
Next == \/ \E k \in Kinds, r \in Retries, t \in Timeouts, f \in Fbs : Get(k, r, t, f)
        \/ \E o \in Answers : Answer(o)
        \/ Again \/ Half \/ Probe
Spec == Init /\ [][Next]_vars /\ WF_vars(Again \/ Half \/ Probe)

C07_Tries == ph # "idle" => tries =< Limit + 1
C07_Fallback == res = "fallback" => ph = "done" /\ cfg.fb /\ cfg.kind = "miss"
C07_Settles == (ph = "out") ~> (ph \in {"good", "done"})

St == [ph |-> ph, c |-> cfg, n |-> tries, h |-> half, r |-> res]
Obs == [requests |-> tries', res |-> res', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<ph, cfg, tries, half, res>>
=============================================================================
