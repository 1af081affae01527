--------------------------- MODULE VercelTelemetry ---------------------------
(* The Vercel AI SDK integration (packages/vercel-ai-sdk): the observations   *)
(* that concurrent AI SDK calls produce from their telemetry events, what is  *)
(* recorded on each of them and which prompt each of them links to.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* of {"text", "object", "embed", "rerank"}
          Prompts,    \* forms of the runtime context's langfusePrompt
          Metas,      \* forms of a further runtime context value
          Recs,       \* recording settings: "both", "in", "out", "neither"
          Tools,      \* tool call ids
          Execs,      \* outcomes of executed functions: "value", "reject", "throw"
          Errs,       \* errors reported for a call
          AuxOn, MaxCalls, MaxSteps, MaxStray

VARIABLES calls, spans, strays, act
vars == <<calls, spans, strays, act>>
None == [p |-> "unset", m |-> "unset"]      \* no runtime context at all
Ctxs == {[p |-> p, m |-> m] : p \in Prompts, m \in Metas} \cup {None}
Init == calls = <<>> /\ spans = <<>> /\ strays = 0 /\ act = [op |-> "init"]

Linkable == {"plain", "client", "v0", "unflagged", "extra"}     \* not: fallbacks and values that are no prompt
Linking == {"languageModel", "embedding", "reranking"}
Omitted == {"unset", "none", "null", "undef", "fn", "symbol"}    \* nothing to record
LinkOf(t, x) == IF t \in Linking /\ x.p \in Linkable THEN x.p ELSE "none"
MetaOf(x) == IF x.m \in Omitted THEN "none" ELSE x.m

Span(t, c, p, x, in) == [t |-> t, c |-> c, p |-> p, open |-> TRUE, err |-> FALSE, link |-> LinkOf(t, x), meta |-> MetaOf(x), fixed |-> x # None, in |-> in, out |-> FALSE]
RecIn(r) == r \in {"both", "in"}
RecOut(r) == r \in {"both", "out"}
N == Len(spans)
Ids(c) == {i \in 1..N : spans[i].c = c}
Close(S, err) == [i \in 1..N |-> IF i \in S /\ spans[i].open THEN [spans[i] EXCEPT !.open = FALSE, !.err = spans[i].err \/ err] ELSE spans[i]]
Live(c) == c \in 1..Len(calls) /\ calls[c].live

Start(k, x, r) ==
  LET c == Len(calls) + 1 X == IF k = "text" THEN x ELSE None IN
  /\ Len(calls) < MaxCalls /\ (k # "text" => x = None)
  /\ calls' = Append(calls, [k |-> k, r |-> r, x |-> X, live |-> TRUE, root |-> N + 1, step |-> 0, lm |-> 0, tools |-> [t \in Tools |-> 0], steps |-> 0, done |-> FALSE])
  /\ spans' = Append(spans, Span("operation", c, 0, X, k \in {"text", "object"} /\ RecIn(r)))
  /\ act' = [op |-> "start", c |-> c, k |-> k, x |-> X, r |-> r] /\ UNCHANGED strays
StepStart(c, x) ==
  /\ Live(c) /\ calls[c].k = "text" /\ calls[c].step = 0 /\ calls[c].steps < MaxSteps
  /\ spans' = Append(spans, Span("step", c, calls[c].root, x, FALSE))
  /\ calls' = [calls EXCEPT ![c].step = N + 1, ![c].steps = @ + 1, ![c].x = x, ![c].done = FALSE]
  /\ act' = [op |-> "stepStart", c |-> c, x |-> x, n |-> calls[c].steps] /\ UNCHANGED strays
(* the model call of a step, of an object call, of an embedding call or of a reranking call *)
ModelStart(c) ==
  LET k == calls[c].k t == [text |-> "languageModel", object |-> "languageModel", embed |-> "embedding", rerank |-> "reranking"][k] IN
  /\ Live(c) /\ calls[c].lm = 0 /\ ~calls[c].done /\ (k = "text" => calls[c].step # 0)
  /\ spans' = Append(spans, Span(t, c, IF k = "text" THEN calls[c].step ELSE calls[c].root, calls[c].x, k \in {"text", "object"} /\ RecIn(calls[c].r)))
  /\ calls' = [calls EXCEPT ![c].lm = N + 1]
  /\ act' = [op |-> "modelStart", c |-> c, k |-> k] /\ UNCHANGED strays
ModelEnd(c) ==
  LET k == calls[c].k IN
  /\ Live(c) /\ calls[c].lm # 0
  /\ spans' = [Close({calls[c].lm}, FALSE) EXCEPT ![calls[c].lm].out = k \in {"text", "object"} /\ RecOut(calls[c].r)]
  /\ calls' = [calls EXCEPT ![c].lm = 0, ![c].done = TRUE]
  /\ act' = [op |-> "modelEnd", c |-> c, k |-> k] /\ UNCHANGED strays
ToolStart(c, t) ==
  /\ Live(c) /\ calls[c].k = "text" /\ calls[c].step # 0 /\ calls[c].done /\ calls[c].tools[t] = 0
  /\ Cardinality({i \in Ids(c) : spans[i].t = "tool"}) < Cardinality(Tools) * calls[c].steps
  /\ spans' = Append(spans, Span("tool", c, calls[c].step, calls[c].x, RecIn(calls[c].r)))
  /\ calls' = [calls EXCEPT ![c].tools[t] = N + 1]
  /\ act' = [op |-> "toolStart", c |-> c, t |-> t] /\ UNCHANGED strays
ToolEnd(c, t, how) ==
  /\ Live(c) /\ calls[c].tools[t] # 0
  /\ spans' = [Close({calls[c].tools[t]}, how # "result") EXCEPT ![calls[c].tools[t]].out = how = "result" /\ RecOut(calls[c].r)]
  /\ calls' = [calls EXCEPT ![c].tools[t] = 0]
  /\ act' = [op |-> "toolEnd", c |-> c, t |-> t, how |-> how] /\ UNCHANGED strays
(* a function executed for a model call or a tool: its own spans are children *)
Inner(c, p) == [t |-> "inner", c |-> c, p |-> p, open |-> FALSE, err |-> FALSE, link |-> "none", meta |-> "none", fixed |-> FALSE, in |-> FALSE, out |-> FALSE]
Inners(c) == Cardinality({i \in Ids(c) : spans[i].t = "inner"})
Exec(c, p, a) == /\ Inners(c) < 2 /\ spans' = spans \o (IF a.o = "throw" THEN <<Inner(c, p)>> ELSE <<Inner(c, p), Inner(c, p)>>) /\ act' = a /\ UNCHANGED <<calls, strays>>
ExecModel(c, o) == Live(c) /\ calls[c].k \in {"text", "object"} /\ calls[c].lm # 0 /\ Exec(c, calls[c].lm, [op |-> "execModel", c |-> c, o |-> o])
ExecTool(c, t, o) == Live(c) /\ calls[c].tools[t] # 0 /\ Exec(c, calls[c].tools[t], [op |-> "execTool", c |-> c, t |-> t, o |-> o])
(* an embedding or reranking reported under a text call carries that call's context *)
Aux(c, t) ==
  /\ Live(c) /\ calls[c].k = "text" /\ AuxOn /\ ~\E i \in Ids(c) : spans[i].t \in {"embedding", "reranking"}
  /\ spans' = Append(spans, [Span(t, c, calls[c].root, calls[c].x, FALSE) EXCEPT !.open = FALSE])
  /\ act' = [op |-> "aux", c |-> c, t |-> t] /\ UNCHANGED <<calls, strays>>
StepEnd(c) ==
  /\ Live(c) /\ calls[c].step # 0 /\ calls[c].lm = 0 /\ calls[c].done /\ \A t \in Tools : calls[c].tools[t] = 0
  /\ spans' = Close({calls[c].step}, FALSE) /\ calls' = [calls EXCEPT ![c].step = 0, ![c].done = FALSE]
  /\ act' = [op |-> "stepEnd", c |-> c] /\ UNCHANGED strays
End(c) ==
  LET k == calls[c].k IN
  /\ Live(c) /\ (IF k = "text" THEN calls[c].step = 0 /\ calls[c].steps > 0 ELSE calls[c].done)
  /\ spans' = [Close({calls[c].root}, FALSE) EXCEPT ![calls[c].root].out = k \in {"text", "object"} /\ RecOut(calls[c].r)]
  /\ calls' = [calls EXCEPT ![c].live = FALSE] /\ act' = [op |-> "end", c |-> c, k |-> k] /\ UNCHANGED strays
Abort(c) == /\ Live(c) /\ spans' = Close(Ids(c), FALSE) /\ calls' = [calls EXCEPT ![c].live = FALSE] /\ act' = [op |-> "abort", c |-> c] /\ UNCHANGED strays
Fail(c, e) == /\ Live(c) /\ spans' = Close(Ids(c), TRUE) /\ calls' = [calls EXCEPT ![c].live = FALSE] /\ act' = [op |-> "error", c |-> c, e |-> e] /\ UNCHANGED strays
(* events that belong to no running call change nothing *)
Stray(s) == /\ strays < MaxStray /\ strays' = strays + 1 /\ act' = [op |-> "stray", s |-> s, c |-> IF \E c \in 1..Len(calls) : ~calls[c].live THEN CHOOSE c \in 1..Len(calls) : ~calls[c].live ELSE 0] /\ UNCHANGED <<calls, spans>>

Next == \/ \E k \in Kinds, x \in Ctxs, r \in Recs : Start(k, x, r)
        \/ \E c \in 1..Len(calls) :
             \/ \E x \in Ctxs : StepStart(c, x)
             \/ ModelStart(c) \/ ModelEnd(c) \/ StepEnd(c) \/ End(c) \/ Abort(c)
             \/ \E e \in Errs : Fail(c, e)
             \/ \E t \in {"embedding", "reranking"} : Aux(c, t)
             \/ \E o \in Execs : ExecModel(c, o)
             \/ \E t \in Tools : ToolStart(c, t) \/ (\E how \in {"result", "error"} : ToolEnd(c, t, how)) \/ (\E o \in Execs : ExecTool(c, t, o))
        \/ \E s \in {"error", "abort", "end", "modelEnd", "toolEnd", "stepStart", "modelStart", "anonymous", "exec"} : Stray(s)
Spec == Init /\ [][Next]_vars

(* a prompt is linked only from a model call and only for a real prompt *)
C28_LinkPlace == \A i \in 1..N : spans[i].link # "none" => spans[i].t \in Linking /\ spans[i].link \in Linkable
(* nothing stays open when its call is over, and nothing ends before its parent ... *)
C28_AllEnded == \A i \in 1..N : spans[i].open => Live(spans[i].c)
(* ... and every observation belongs to the tree of its own call *)
C28_Tree == \A i \in 1..N : IF spans[i].t = "operation" THEN spans[i].p = 0 ELSE spans[i].p # 0 /\ spans[i].p < i /\ spans[spans[i].p].c = spans[i].c
(* events of a call never touch another call's observations, and ended ones never change *)
C28_Isolated == [][\A i \in 1..N : spans'[i] # spans[i] => act'.op # "stray" /\ spans[i].c = act'.c /\ spans[i].open]_vars
C28_Recording == \A i \in 1..N : (spans[i].in => RecIn(calls[spans[i].c].r)) /\ (spans[i].out => RecOut(calls[spans[i].c].r))

St == [c |-> calls, s |-> spans, n |-> strays]
Obs == [spans |-> spans', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<calls, spans, strays>>
=============================================================================
