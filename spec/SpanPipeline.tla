--------------------------- MODULE SpanPipeline ----------------------------
(* From the end of a span to the exporter (packages/otel).                  *)
(* An ended span is filtered, masked (possibly asynchronously), scanned for *)
(* media (whose upload runs on its own) and given to an exporting queue     *)
(* ("batched") or exported at once ("immediate").                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Modes, BatchSizes, Kinds, MaxSpans, MaxFlushes, MaxTicks, MaxFails, Downs, Faulty

(* Kinds: p plain, m waits for the mask, u has media, mu both;              *)
(*        rej filtered, thr filter throws, uns not sampled                  *)
Accepted(k) == k \in {"p", "m", "u", "mu"}
Masks(k) == k \in {"m", "mu", "uns"}     \* processing waits for the mask
Media(k) == k \in {"u", "mu"}

VARIABLES mode, bsz,
          spans,    \* [k, st, up, late]  st: mask, queue, out, gone, drop   up: none, pend, done
          queue,    \* spans waiting in the batching queue
          batches,  \* handed to the exporter: [ids, st, own]  own 0: timer or immediate
          timer, exporting, down,
          flushes,  \* [kind, ph, w, st, mark]
          ticks, fails, act
vars == <<mode, bsz, spans, queue, batches, timer, exporting, down, flushes, ticks, fails, act>>

Init == /\ mode = "" /\ bsz = 0 /\ spans = <<>> /\ queue = <<>> /\ batches = <<>> /\ timer = FALSE
        /\ exporting = FALSE /\ down = FALSE /\ flushes = <<>> /\ ticks = 0 /\ fails = 0 /\ act = [op |-> "init"]

Core == [spans |-> spans, queue |-> queue, batches |-> batches, timer |-> timer, exporting |-> exporting,
         down |-> down, flushes |-> flushes, ticks |-> ticks, fails |-> fails]
SetCore(c) == /\ spans' = c.spans /\ queue' = c.queue /\ batches' = c.batches /\ timer' = c.timer
              /\ exporting' = c.exporting /\ down' = c.down /\ flushes' = c.flushes
              /\ ticks' = c.ticks /\ fails' = c.fails /\ UNCHANGED <<mode, bsz>>

Lesser(a, b) == IF a < b THEN a ELSE b
Mark(c, ids, s) == [c EXCEPT !.spans = [i \in DOMAIN @ |-> IF i \in ids THEN [@[i] EXCEPT !.st = s] ELSE @[i]]]
(* Hand the first n queued spans to the exporter. *)
Hand(c, n, own) == LET ids == SubSeq(c.queue, 1, n)
                   IN Mark([c EXCEPT !.queue = SubSeq(@, n + 1, Len(@)), !.timer = FALSE,
                                     !.batches = Append(@, [ids |-> ids, st |-> "out", own |-> own])],
                           {ids[i] : i \in DOMAIN ids}, "out")
MaybeStart(c) == IF c.exporting THEN c
                 ELSE IF Len(c.queue) >= bsz THEN [Hand(c, bsz, 0) EXCEPT !.exporting = TRUE]
                 ELSE [c EXCEPT !.timer = TRUE]
RECURSIVE HandAll(_, _)
HandAll(c, own) == IF c.queue = <<>> THEN c ELSE HandAll(Hand(c, Lesser(bsz, Len(c.queue)), own), own)

(* A span leaves masking: its media upload starts, and it is exported. *)
(* With a failed mask nothing of the payload is left to upload. *)
Processed(c, i, masked) ==
  LET k == c.spans[i].k
      c1 == IF Media(k) /\ masked THEN [c EXCEPT !.spans[i].up = "pend"] ELSE c
  IN IF c.down \/ ~Accepted(k) THEN [c1 EXCEPT !.spans[i].st = "drop"]
     ELSE IF mode = "immediate" THEN Mark([c1 EXCEPT !.batches = Append(@, [ids |-> <<i>>, st |-> "out", own |-> 0])], {i}, "out")
     ELSE MaybeStart([c1 EXCEPT !.queue = Append(@, i), !.spans[i].st = "queue"])

Out(c, own) == {j \in DOMAIN c.batches : c.batches[j].own = own /\ c.batches[j].st = "out"}
Failed(c, own) == \E j \in DOMAIN c.batches : c.batches[j].own = own /\ c.batches[j].st = "fail"
DownOwner(c) == CHOOSE f \in DOMAIN c.flushes : c.flushes[f].first

(* Progress of flush f as far as it goes. *)
RECURSIVE Go(_, _)
Go(c, f) ==
  LET x == c.flushes[f] IN
  IF x.st # "pending" THEN c
  ELSE CASE x.ph = 1 -> IF \E i \in x.w : c.spans[i].st = "mask" THEN c
                        ELSE Go([c EXCEPT !.flushes[f].ph = 2, !.flushes[f].w = {i \in DOMAIN c.spans : c.spans[i].up = "pend"}], f)
       [] x.ph = 2 -> IF \E i \in x.w : c.spans[i].up = "pend" THEN c
                      ELSE LET c1 == [c EXCEPT !.flushes[f].ph = 3]
                           IN IF mode = "immediate"
                              THEN IF x.kind = "down" THEN [c1 EXCEPT !.down = TRUE, !.flushes[f].st = "resolved", !.flushes[f].w = {}]
                                   ELSE Go([c1 EXCEPT !.flushes[f].w = {j \in DOMAIN c.batches : c.batches[j].st = "out"}], f)
                              ELSE IF c.down THEN Go([c1 EXCEPT !.flushes[f].own = DownOwner(c), !.flushes[f].w = {}], f)
                              ELSE Go(HandAll([c1 EXCEPT !.flushes[f].own = f, !.flushes[f].w = {}, !.down = (x.kind = "down"),
                                                        !.flushes[f].first = (x.kind = "down")], f), f)
       [] x.ph = 3 -> IF mode = "immediate"
                      THEN IF \E j \in x.w : c.batches[j].st = "out" THEN c ELSE [c EXCEPT !.flushes[f].st = "resolved", !.flushes[f].w = {}]
                      ELSE IF Failed(c, x.own) THEN [c EXCEPT !.flushes[f].st = "rejected"]
                      ELSE IF Out(c, x.own) # {} THEN c ELSE [c EXCEPT !.flushes[f].st = "resolved"]
RECURSIVE GoAll(_, _)
GoAll(c, f) == IF f > Len(c.flushes) THEN c ELSE GoAll(Go(c, f), f + 1)

Configure(m, b) == /\ mode = "" /\ mode' = m /\ bsz' = b /\ act' = [op |-> "configure", mode |-> m, bsz |-> b]
                   /\ UNCHANGED <<spans, queue, batches, timer, exporting, down, flushes, ticks, fails>>

ShutCalled(c) == \E f \in DOMAIN c.flushes : c.flushes[f].kind = "down"
End(k) == /\ mode # "" /\ Len(spans) < MaxSpans
          /\ LET i == Len(spans) + 1
                 s == [k |-> k, st |-> IF Masks(k) THEN "mask" ELSE "drop", up |-> "none", late |-> ShutCalled(Core)]
                 c == [Core EXCEPT !.spans = Append(@, s)]
             IN SetCore(IF Masks(k) \/ k \in {"rej", "thr"} THEN c ELSE GoAll(Processed(c, i, TRUE), 1))
          /\ act' = [op |-> "end", k |-> k]

MaskDone(i, how) == /\ spans[i].st = "mask" /\ SetCore(GoAll(Processed(Core, i, how = "ok"), 1))
                    /\ act' = [op |-> "mask", i |-> i, how |-> how]
UploadDone(i, how) == /\ spans[i].up = "pend" /\ SetCore(GoAll([Core EXCEPT !.spans[i].up = "done"], 1))
                      /\ act' = [op |-> "upload", i |-> i, how |-> how]
Tick == /\ timer /\ ticks < MaxTicks
        /\ SetCore([Hand([Core EXCEPT !.ticks = @ + 1], Lesser(bsz, Len(queue)), 0) EXCEPT !.exporting = TRUE])
        /\ act' = [op |-> "tick"]
ExportDone(j, ok) ==
  /\ batches[j].st = "out" /\ (ok \/ fails < MaxFails)
  /\ LET c == [Mark(Core, {batches[j].ids[n] : n \in DOMAIN batches[j].ids}, "gone")
                 EXCEPT !.batches[j].st = IF ok THEN "done" ELSE "fail", !.fails = IF ok THEN @ ELSE @ + 1]
         c1 == IF mode = "batched" /\ batches[j].own = 0
               THEN LET c2 == [c EXCEPT !.exporting = FALSE] c3 == IF c2.queue # <<>> THEN MaybeStart(c2) ELSE c2
                    \* after a failure the queue allows a second export at the same time
                    IN IF ok THEN c3 ELSE [c3 EXCEPT !.exporting = FALSE]
               ELSE c
     IN SetCore(GoAll(c1, 1))
  /\ act' = [op |-> "export", j |-> j, ok |-> ok]
Flush(kind) == /\ mode # "" /\ Len(flushes) < MaxFlushes /\ kind \in Downs \cup {"flush"}
               /\ SetCore(Go([Core EXCEPT !.flushes = Append(@, [kind |-> kind, ph |-> 1, w |-> {i \in DOMAIN spans : spans[i].st = "mask"},
                                                                 st |-> "pending", own |-> 0, first |-> FALSE, mark |-> Len(spans)])], Len(flushes) + 1))
               /\ act' = [op |-> "flush", kind |-> kind]

Next == \/ \E m \in Modes, b \in BatchSizes : Configure(m, b)
        \/ \E k \in Kinds : End(k)
        \/ \E i \in DOMAIN spans : \E h \in IF Faulty THEN {"ok", "rej"} ELSE {"ok"} : MaskDone(i, h)
        \/ \E i \in DOMAIN spans : \E h \in IF Faulty THEN {"stored", "fail"} ELSE {"stored"} : UploadDone(i, h)
        \/ Tick
        \/ \E j \in DOMAIN batches : \E ok \in BOOLEAN : ExportDone(j, ok)
        \/ \E kind \in {"flush", "down"} : Flush(kind)
Fairness == /\ \A i \in 1..MaxSpans : WF_vars(i \in DOMAIN spans /\ MaskDone(i, "ok")) /\ WF_vars(i \in DOMAIN spans /\ UploadDone(i, "stored"))
            /\ \A j \in 1..MaxSpans : WF_vars(j \in DOMAIN batches /\ ExportDone(j, TRUE))
            /\ WF_vars(Tick)
Spec == Init /\ [][Next]_vars /\ Fairness
----------------------------------------------------------------------------
Handed == UNION {{batches[j].ids[n] : n \in DOMAIN batches[j].ids} : j \in DOMAIN batches}
Count(i) == Cardinality({j \in DOMAIN batches : \E n \in DOMAIN batches[j].ids : batches[j].ids[n] = i})
C09_Once == \A i \in DOMAIN spans : Count(i) <= 1 /\ (Count(i) = 1 => Accepted(spans[i].k))
C09_Flush == \A f \in DOMAIN flushes : flushes[f].st = "resolved" =>
               \A i \in 1..flushes[f].mark : (Accepted(spans[i].k) /\ ~spans[i].late) => (i \in Handed /\ spans[i].up # "pend")
(* No accepted span is lost without a shutdown: something will export it. *)
C09_NoLoss == \A i \in DOMAIN spans : (Accepted(spans[i].k) /\ ~spans[i].late) =>
                \/ spans[i].st \in {"mask", "out", "gone"}
                \/ spans[i].st = "queue" /\ (timer \/ \E j \in DOMAIN batches : batches[j].own = 0 /\ batches[j].st = "out")
C09_Live == /\ \A f \in 1..MaxFlushes : (f \in DOMAIN flushes) ~> (f \in DOMAIN flushes /\ flushes[f].st # "pending")
            /\ \A i \in 1..MaxSpans : (i \in DOMAIN spans /\ Accepted(spans[i].k) /\ ~spans[i].late) ~> (i \in Handed)

Obs == [exported |-> SetToSortSeq(UNION {{batches'[j].ids[n] : n \in DOMAIN batches'[j].ids} : j \in DOMAIN batches'}, LAMBDA a, b : a < b),
        uploads |-> SetToSortSeq({i \in DOMAIN spans' : spans'[i].up # "none"}, LAMBDA a, b : a < b),
        flushes |-> [f \in DOMAIN flushes' |-> flushes'[f].st], content |-> "ok"]
St == <<mode, bsz, Core>>
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == St
=============================================================================
