----------------------------- MODULE ApiRequest -----------------------------
(* One call of the API client (packages/core/src/api/core/fetcher): attempts,*)
(* waits between them, and the final result.  Times are in milliseconds.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Limits,     \* configured retry limits; 99 = not configured
          Statuses, Hdrs, Bodies, Ends, MaxCalls

VARIABLES ph, lim, tries, win, res, calls, act
vars == <<ph, lim, tries, win, res, calls, act>>
Init == ph = "idle" /\ lim = 0 /\ tries = 0 /\ win = <<0, 0>> /\ res = [k |-> "none"] /\ calls = 0 /\ act = [op |-> "init"]

Transient(s) == s \in {408, 429} \/ s >= 500
Limit(l) == IF l = 99 THEN 2 ELSE l
Min(a, b) == IF a < b THEN a ELSE b
Pow2(n) == IF n >= 6 THEN 64 ELSE LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE 2 * P(k - 1) IN P(n)
Backoff(i) == LET d == Min(1000 * Pow2(i), 60000) IN <<(d * 9) \div 10, (d * 11) \div 10>>
(* what a retry header asks for: Retry-After in seconds or as a date, else the rate-limit reset time, else backoff *)
Wait(h, i) == CASE h \in {"ra2", "ra2rl30"} -> <<2000, 2000>>
                [] h = "ra90" -> <<60000, 60000>>
                [] h = "date5" -> <<4000, 5000>>
                [] h \in {"rl30", "rapastrl30"} -> <<29000, 36000>>
                [] h = "rl200" -> <<60000, 72000>>
                [] OTHER -> Backoff(i)          \* none, ra0, rajunk, rapast, rlpast, rljunk

Call(l) == /\ ph = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ lim' = Limit(l) /\ tries' = 1 /\ ph' = "inflight" /\ res' = [k |-> "pending"] /\ win' = <<0, 0>> /\ act' = [op |-> "call", l |-> l]
Result(s, b) == IF s < 300 THEN (IF b \in {"text", "badjson"} \/ b = "unreadable" THEN [k |-> "error", s |-> IF b = "unreadable" THEN 0 ELSE s, b |-> b] ELSE [k |-> "value", s |-> s, b |-> b]) ELSE [k |-> "error", s |-> s, b |-> b]
Answer(s, h, b) ==
  /\ ph = "inflight" /\ act' = [op |-> "answer", s |-> s, h |-> h, b |-> b]
  /\ IF Transient(s) /\ tries =< lim THEN ph' = "waiting" /\ win' = Wait(h, tries - 1) /\ res' = res
     ELSE ph' = "idle" /\ win' = <<0, 0>> /\ res' = Result(s, b)
  /\ UNCHANGED <<lim, tries, calls>>
(* the wait is over *)
Wake == ph = "waiting" /\ ph' = "inflight" /\ tries' = tries + 1 /\ act' = [op |-> "wake", lo |-> win[1], hi |-> win[2]] /\ win' = <<0, 0>> /\ UNCHANGED <<lim, res, calls>>
(* ends without an answer: connection failure, timeout, cancellation by the caller *)
End(e) == /\ IF e = "abortwait" THEN ph = "waiting" ELSE ph = "inflight"
          /\ ph' = "idle" /\ act' = [op |-> "end", e |-> e, hi |-> win[2]] /\ win' = <<0, 0>> /\ res' = [k |-> IF e = "timeout" THEN "timeout" ELSE "error", s |-> 0, b |-> e] /\ UNCHANGED <<lim, tries, calls>>
Next == (\E l \in Limits : Call(l)) \/ (\E s \in Statuses, h \in Hdrs, b \in Bodies : Answer(s, h, b)) \/ Wake \/ (\E e \in Ends : End(e))
Spec == Init /\ [][Next]_vars

C25_Bounded == tries =< lim + 1
C25_TransientOnly == [][tries' > tries /\ calls' = calls => ph = "waiting"]_vars
C25_NoEarlyGiveUp == [][(act'.op = "answer" /\ Transient(act'.s) /\ ph' = "idle") => tries = lim + 1]_vars
C25_FinalStatus == [][(act'.op = "answer" /\ ph' = "idle" /\ act'.s >= 300) => res'.k = "error" /\ res'.s = act'.s]_vars
C25_Monotone == [][(act'.op = "answer" /\ ph' = "waiting") => win'[1] > 0 /\ win'[2] =< 72000]_vars

St == [p |-> ph, l |-> lim, t |-> tries, w |-> win, r |-> res, c |-> calls]
Obs == [inflight |-> ph' = "inflight", tries |-> tries', res |-> res', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<ph, lim, tries, win, res, calls>>
=============================================================================
