---------------------------- MODULE OpenAiTrace ----------------------------
(* Calls through a client wrapped by observeOpenAI (packages/openai).       *)
(* The caller must get what the bare client gives; each call that returns a *)
(* promise or a stream, or throws, yields one generation that ends with it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* how the method answers: "json", "stream", "sstream", "sync", "throw", "page"
          Requests,   \* request kinds: "chat", "text", "resp", "embed", "bare"
          Shapes,     \* kinds of complete answers
          Chunks,     \* kinds of stream chunks
          Errs, MaxCalls, MaxChunks, Members, Helpers

VARIABLES calls, seen, act
vars == <<calls, seen, act>>
Init == calls = <<>> /\ seen = {} /\ act = [op |-> "init"]

NoGen == [ended |-> FALSE, fail |-> "", text |-> "", tools |-> <<"", "">>, names |-> <<"", "">>, out |-> "", usage |-> "none", model |-> "req", start |-> FALSE]

(* ---- what a complete answer contributes ---- *)
OutOf(s) == CASE s \in {"chat", "chatTools", "text", "resp1", "respN", "outputText", "chatU2"} -> s
              [] OTHER -> "any"
UsageOf(s) == CASE s \in {"chat", "text"} -> "u1" [] s = "chatU2" -> "u2" [] s \in {"resp1", "outputText"} -> "r1" [] OTHER -> "none"
ModelOf(s) == IF s \in {"chat", "chatTools", "chatU2", "text", "resp1", "respN", "outputText"} THEN "res" ELSE "any"

(* ---- what a chunk contributes; o1, o1tool belong to a second choice, ob to both ---- *)
TextOf(c) == CASE c \in {"a", "ob"} -> "He" [] c = "b" -> "llo" [] c = "ttool0" -> "T" [] c = "legacy" -> "leg" [] OTHER -> ""
Frag(c, i) == CASE i = 1 /\ c \in {"tool0", "tools", "ttool0"} -> "x" [] i = 1 /\ c = "more0" -> "y"
                [] i = 2 /\ c \in {"tool1", "tools"} -> "v" [] i = 2 /\ c = "more1" -> "w" [] OTHER -> ""
NameOf(c, i) == CASE i = 1 /\ c \in {"tool0", "tools", "ttool0"} -> "f" [] i = 2 /\ c \in {"tool1", "tools"} -> "g" [] OTHER -> ""
Feed(g, c) == [g EXCEPT !.text = @ \o TextOf(c),
                        !.tools = [i \in 1..2 |-> @[i] \o Frag(c, i)],
                        !.names = [i \in 1..2 |-> IF NameOf(c, i) # "" THEN NameOf(c, i) ELSE @[i]],
                        !.out = IF c = "rdone" THEN "rdone" ELSE @,
                        !.usage = CASE c = "u1" -> "u1" [] c = "u2" -> "u2" [] c = "rdone" -> "r1" [] OTHER -> @,
                        !.model = IF c \in {"rstart", "rdone"} THEN "res" ELSE @,
                        !.start = TRUE]

Call(k, rq) == /\ Len(calls) < MaxCalls /\ UNCHANGED seen
               /\ calls' = Append(calls, [k |-> k, rq |-> rq, n |-> 0,
                     st |-> CASE k = "sync" -> "value" [] k = "throw" -> "error" [] k = "sstream" -> "open" [] OTHER -> "wait",
                     got |-> CASE k = "sync" -> "value" [] k = "throw" -> "Error" [] OTHER -> "",
                     g |-> IF k = "throw" THEN [NoGen EXCEPT !.ended = TRUE, !.fail = "Error"] ELSE NoGen])
               /\ act' = [op |-> "call", k |-> k, rq |-> rq]

Answer(i, s) ==
  /\ calls[i].st = "wait" /\ calls[i].k \in {"json", "page"} /\ UNCHANGED seen
  /\ (calls[i].k = "page") <=> (s = "page")
  /\ calls' = [calls EXCEPT ![i].st = "value", ![i].got = s,
                 ![i].g = [NoGen EXCEPT !.ended = TRUE, !.out = OutOf(s), !.usage = IF s = "oddusage" THEN "any" ELSE UsageOf(s), !.model = ModelOf(s)]]
  /\ act' = [op |-> "answer", i |-> i, s |-> s]
Open(i) == /\ calls[i].st = "wait" /\ calls[i].k = "stream" /\ UNCHANGED seen
           /\ calls' = [calls EXCEPT ![i].st = "open"]
           /\ act' = [op |-> "open", i |-> i]
Reject(i, e) ==
  /\ calls[i].st = "wait" /\ UNCHANGED seen
  /\ calls' = [calls EXCEPT ![i].st = "error", ![i].got = e, ![i].g = [@ EXCEPT !.ended = TRUE, !.fail = e]]
  /\ act' = [op |-> "reject", i |-> i, e |-> e]
Resp(c) == c \in {"rstart", "rdelta", "rdone"}
(* a stream is of one API: chat completions or responses *)
Fits(call, c) == IF call.rq = "resp" THEN Resp(c) /\ (c = "rstart" => call.n = 0) ELSE ~Resp(c)
Chunk(i, c) ==
  /\ calls[i].st = "open" /\ calls[i].n < MaxChunks /\ Fits(calls[i], c) /\ UNCHANGED seen
  /\ calls' = [calls EXCEPT ![i].n = @ + 1, ![i].got = c, ![i].g = Feed(@, c)]
  /\ act' = [op |-> "chunk", i |-> i, c |-> c]
Finish(i) ==
  /\ calls[i].st = "open" /\ UNCHANGED seen
  /\ calls' = [calls EXCEPT ![i].st = "value", ![i].got = "end", ![i].g.ended = TRUE]
  /\ act' = [op |-> "finish", i |-> i]
Break(i, e) ==
  /\ calls[i].st = "open" /\ UNCHANGED seen
  /\ calls' = [calls EXCEPT ![i].st = "error", ![i].got = e, ![i].g.ended = TRUE, ![i].g.fail = e]
  /\ act' = [op |-> "break", i |-> i, e |-> e]
(* the consumer stops after at least one chunk: the source is told *)
Abandon(i) ==
  /\ calls[i].st = "open" /\ calls[i].n > 0 /\ UNCHANGED seen
  /\ calls' = [calls EXCEPT ![i].st = "left", ![i].got = "closed", ![i].g.ended = TRUE]
  /\ act' = [op |-> "abandon", i |-> i]
(* members that are no methods, and helpers of the SDK's own promise and stream *)
Member(m) == /\ m \notin seen /\ seen' = seen \cup {m} /\ UNCHANGED calls /\ act' = [op |-> "member", m |-> m]
Helper(h) == /\ h \notin seen /\ seen' = seen \cup {h} /\ UNCHANGED calls /\ act' = [op |-> "helper", m |-> h]

Next == \/ \E k \in Kinds, rq \in Requests : Call(k, rq)
        \/ \E i \in DOMAIN calls : \/ \E s \in Shapes : Answer(i, s)
                                   \/ Open(i) \/ Finish(i) \/ Abandon(i)
                                   \/ \E e \in Errs : Reject(i, e) \/ Break(i, e)
                                   \/ \E c \in Chunks : Chunk(i, c)
        \/ \E m \in Members : Member(m)
        \/ \E h \in Helpers : Helper(h)
Spec == Init /\ [][Next]_vars

Live(c) == c.k # "sync"
C19_EndedIffFinished == \A i \in DOMAIN calls : Live(calls[i]) => (calls[i].g.ended <=> calls[i].st \in {"value", "error", "left"})
C19_Failed == \A i \in DOMAIN calls : Live(calls[i]) => (calls[i].g.fail # "" <=> calls[i].st = "error")
C19_Once == [][ \A i \in DOMAIN calls : calls[i].g.ended => calls'[i].g = calls[i].g ]_vars
C18_Isolated == [][ \A i \in DOMAIN calls : (act'.op \in {"call", "member", "helper"} \/ act'.i # i) => calls'[i] = calls[i] ]_vars

(* ---- observations: details of a generation are due when it has ended ---- *)
Tools(g) == {<<g.names[i], g.tools[i]>> : i \in {j \in 1..2 : g.names[j] # "" \/ g.tools[j] # ""}}
OutShown(c) == LET g == c.g IN
   CASE c.k \notin {"stream", "sstream"} -> IF g.fail # "" THEN "none" ELSE g.out
     [] g.out # "" -> g.out
     [] c.rq = "resp" /\ g.start -> "any"
     [] c.st = "error" /\ ~g.start -> "any"
     [] Tools(g) = {} -> "text:" \o g.text
     [] OTHER -> "text:" \o g.text \o "|" \o g.names[1] \o ":" \o g.tools[1] \o "|" \o g.names[2] \o ":" \o g.tools[2]
Shown(c) == [st |-> c.st, got |-> c.got]
Gen(c) == IF c.k = "sync" THEN <<>> ELSE IF ~c.g.ended THEN <<"open">>
          ELSE <<"ended", c.g.fail, OutShown(c), c.g.usage, c.g.model, c.g.start>>
St == [c |-> calls, s |-> seen]
Obs == [calls |-> [i \in DOMAIN calls' |-> Shown(calls'[i])], gens |-> [i \in DOMAIN calls' |-> Gen(calls'[i])], ok |-> "ok", rec |-> "ok", member |-> IF act'.op \in {"member", "helper"} THEN "same" ELSE ""]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<calls, seen>>
=============================================================================
