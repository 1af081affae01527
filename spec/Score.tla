------------------------------- MODULE Score -------------------------------
(* Buffered delivery of scores (packages/client/src/score).                 *)
(* Scores are numbered in acceptance order, so a queue or a batch is an     *)
(* interval; constants can therefore be the real ones (batch limit 100,     *)
(* queue limit 100000).                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS BatchMax,      \* events per ingestion request
          QueueMax,      \* scores kept while waiting
          FlushAts,      \* thresholds explored
          Bursts,        \* numbers of scores created synchronously in a row
          MaxCreates, MaxFlushes, MaxRetries,
          Outcomes,      \* answers to a batch: "ok", "perr", "http400", "net", "retry"
          ReplyMode      \* "one": answers arrive one by one; "all": together

VARIABLES flushAt,   \* configured threshold (0: not configured yet)
          next,      \* number of the next accepted score
          qlo,       \* first queued score; the queue is qlo..next-1
          timer,     \* interval timer: 0 off, else halves of the interval left
          flushing,  \* a delivery is in progress
          follow,    \* another delivery is due right after it
          sent,      \* log of batches [lo, hi, st], st in {"out","done"}, n retries
          callers,   \* flush calls: [mark, st]; st in {"cur","next","done"}
          creates, dropped,
          act

vars == <<flushAt, next, qlo, timer, flushing, follow, sent, callers, creates, dropped, act>>

Init == /\ flushAt = 0 /\ next = 1 /\ qlo = 1 /\ timer = 0 /\ flushing = FALSE
        /\ follow = FALSE /\ sent = <<>> /\ callers = <<>> /\ creates = 0 /\ dropped = 0
        /\ act = [op |-> "init"]

(* The mutable part as a record, so that synchronous bursts can be folded. *)
Core == [next |-> next, qlo |-> qlo, timer |-> timer, flushing |-> flushing,
         follow |-> follow, sent |-> sent, callers |-> callers, dropped |-> dropped]
SetCore(c) == /\ next' = c.next /\ qlo' = c.qlo /\ timer' = c.timer /\ flushing' = c.flushing
              /\ follow' = c.follow /\ sent' = c.sent /\ callers' = c.callers /\ dropped' = c.dropped

Split(lo, hi) == LET n == IF hi < lo THEN 0 ELSE (hi - lo) \div BatchMax + 1
                 IN [i \in 1..n |-> [lo |-> lo + (i - 1) * BatchMax,
                                     hi |-> IF i = n THEN hi ELSE lo + i * BatchMax - 1,
                                     st |-> "out", n |-> 0]]

Promote(cs) == [i \in DOMAIN cs |-> IF cs[i].st = "next" THEN [cs[i] EXCEPT !.st = "cur"] ELSE cs[i]]
Finish(cs)  == [i \in DOMAIN cs |-> IF cs[i].st = "cur" THEN [cs[i] EXCEPT !.st = "done"] ELSE cs[i]]

(* Start a delivery of everything queued; with nothing queued it is over at once. *)
StartFlush(c) ==
  LET bs == Split(c.qlo, c.next - 1)
      c1 == [c EXCEPT !.timer = 0, !.sent = @ \o bs, !.qlo = c.next]
  IN IF bs = <<>> THEN [c1 EXCEPT !.flushing = FALSE, !.callers = Finish(@)]
     ELSE [c1 EXCEPT !.flushing = TRUE]
(* Once a further delivery is due the timer is irrelevant. *)
RequestFlush(c) == IF c.flushing THEN [c EXCEPT !.follow = TRUE, !.timer = 0] ELSE StartFlush(c)

Create1(c) ==
  IF c.next - c.qlo >= QueueMax THEN [c EXCEPT !.dropped = @ + 1]
  ELSE LET c1 == [c EXCEPT !.next = @ + 1]
       IN IF c1.next - c1.qlo >= flushAt THEN RequestFlush(c1)
          ELSE IF c1.timer > 0 \/ c1.follow THEN c1 ELSE [c1 EXCEPT !.timer = 2]

RECURSIVE CreateN(_, _)
CreateN(c, k) == IF k = 0 THEN c
  (* closed form for long stretches that only fill the queue, to keep TLC fast *)
  ELSE LET len == c.next - c.qlo
           room == IF flushAt - 1 > len THEN flushAt - 1 - len ELSE 0
           room2 == IF QueueMax > len THEN QueueMax - len ELSE 0
           j == LET m == IF room < room2 THEN room ELSE room2 IN IF m < k THEN m ELSE k
       IN IF j > 1 THEN CreateN([c EXCEPT !.next = @ + j, !.timer = IF @ > 0 THEN @ ELSE IF c.follow THEN 0 ELSE 2], k - j)
          ELSE IF c.flushing /\ c.follow /\ len + 1 >= flushAt /\ room2 > 1
               THEN LET m == IF room2 < k THEN room2 ELSE k IN CreateN([c EXCEPT !.next = @ + m], k - m)
          ELSE IF room2 = 0 THEN [c EXCEPT !.dropped = @ + k]
          ELSE CreateN(Create1(c), k - 1)

Configure(f) == /\ flushAt = 0 /\ flushAt' = f /\ act' = [op |-> "configure", flushAt |-> f]
                /\ UNCHANGED <<next, qlo, timer, flushing, follow, sent, callers, creates, dropped>>

Create(k) == /\ flushAt > 0 /\ creates < MaxCreates /\ creates' = creates + 1
             /\ LET c == CreateN(Core, k)
                IN SetCore(c) /\ act' = [op |-> "create", k |-> k, accepted |-> c.next - next,
                                        armed |-> c.timer = 2 /\ (timer # 2 \/ c.sent # sent)]
             /\ UNCHANGED flushAt

Flush == /\ flushAt > 0 /\ Len(callers) < MaxFlushes
         /\ LET c == [Core EXCEPT !.callers = Append(@, [mark |-> next, st |-> IF flushing THEN "next" ELSE "cur"])]
            IN SetCore(RequestFlush(c))
         /\ act' = [op |-> "flush"] /\ UNCHANGED <<flushAt, creates>>

(* Half of the interval passes. *)
Wait == /\ timer = 2 /\ ReplyMode = "one" /\ SetCore([Core EXCEPT !.timer = 1])
        /\ act' = [op |-> "wait"] /\ UNCHANGED <<flushAt, creates>>

Tick == /\ timer > 0
        /\ SetCore(RequestFlush([Core EXCEPT !.timer = 0]))
        /\ act' = [op |-> "tick", halves |-> timer] /\ UNCHANGED <<flushAt, creates>>

(* All batches of the delivery answered: callers resume, a due delivery starts. *)
Complete(c) ==
  IF \E i \in DOMAIN c.sent : c.sent[i].st = "out" THEN c
  ELSE LET c1 == [c EXCEPT !.flushing = FALSE, !.callers = Finish(@)]
       IN IF c1.follow THEN StartFlush([c1 EXCEPT !.follow = FALSE, !.callers = Promote(@)]) ELSE c1

Reply(i, o) ==
  /\ ReplyMode = "one" /\ sent[i].st = "out"
  /\ IF o = "retry" THEN sent[i].n < MaxRetries /\ SetCore([Core EXCEPT !.sent[i].n = @ + 1])
     ELSE SetCore(Complete([Core EXCEPT !.sent[i].st = "done"]))
  /\ act' = [op |-> "reply", i |-> i, o |-> o] /\ UNCHANGED <<flushAt, creates>>

ReplyAll(o) ==
  /\ ReplyMode = "all" /\ flushing /\ o # "retry"
  /\ SetCore(Complete([Core EXCEPT !.sent = [i \in DOMAIN @ |-> [@[i] EXCEPT !.st = "done"]]]))
  /\ act' = [op |-> "replyAll", o |-> o] /\ UNCHANGED <<flushAt, creates>>

Next == \/ \E f \in FlushAts : Configure(f)
        \/ \E k \in Bursts : Create(k)
        \/ Flush
        \/ Wait
        \/ Tick
        \/ \E i \in DOMAIN sent : \E o \in Outcomes : Reply(i, o)
        \/ \E o \in Outcomes : ReplyAll(o)

Fairness == /\ WF_vars(Tick)
            /\ \A i \in 1..12 : WF_vars(i \in DOMAIN sent /\ Reply(i, "ok"))
            /\ WF_vars(ReplyAll("ok"))
Spec == Init /\ [][Next]_vars /\ Fairness

----------------------------------------------------------------------------
(* C01: the batches partition the accepted scores in order; bounded.        *)
Delivered == IF sent = <<>> THEN 0 ELSE sent[Len(sent)].hi
C01_Partition == /\ Delivered = qlo - 1
                 /\ \A i \in DOMAIN sent : sent[i].lo = (IF i = 1 THEN 1 ELSE sent[i-1].hi + 1)
                 /\ \A i \in DOMAIN sent : sent[i].hi >= sent[i].lo
C01_Bound == \A i \in DOMAIN sent : sent[i].hi - sent[i].lo + 1 <= BatchMax
C01_Drop == dropped > 0 => (next - 1) >= QueueMax
C01_Queue == next - qlo <= QueueMax
(* C02: a finished flush call implies everything before it is settled.      *)
C02_Complete == \A j \in DOMAIN callers : callers[j].st = "done" =>
                  /\ callers[j].mark <= qlo
                  /\ \A i \in DOMAIN sent : sent[i].lo < callers[j].mark => sent[i].st = "done"
C02_Live == \A j \in 1..MaxFlushes : (j \in DOMAIN callers) ~> (j \in DOMAIN callers /\ callers[j].st = "done")
(* C03: something will send the queue: an armed timer, or a delivery whose end triggers another. *)
C03_Armed == (next > qlo) => (timer > 0 \/ follow)
C03_Live == (next > qlo) ~> (next = qlo)
C03_Follow == follow => flushing

(* Long logs are exported as a summary. *)
Short(c) == IF Len(c.sent) > 50
            THEN [c EXCEPT !.sent = <<Len(@), Cardinality({i \in DOMAIN @ : @[i].st = "out"}), @[Len(@)].hi>>] ELSE c
St == [f |-> flushAt, c |-> Short(Core), k |-> creates]
Obs == [sent |-> IF Len(sent') > 50 THEN <<<<Len(sent'), sent'[Len(sent')].hi, 0>>>> ELSE [i \in DOMAIN sent' |-> <<sent'[i].lo, sent'[i].hi, sent'[i].n>>],
        flushes |-> [j \in DOMAIN callers' |-> IF callers'[j].st = "done" THEN "resolved" ELSE "pending"],
        content |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<flushAt, Core, creates>>
=============================================================================
