----------------------------- MODULE LangChain -----------------------------
(* The LangChain callback handler (packages/langchain): every run is        *)
(* mirrored by one observation; agent actions are children of their run.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,       \* "chain", "llm", "chat", "tool", "retriever"
          Ins, Outs, Errs,   \* shapes of inputs, outputs (by kind, see below) and errors
          MaxRuns, MaxActs, MaxToks, MaxStray, Prompts

VARIABLES runs, prompt, strays, act
vars == <<runs, prompt, strays, act>>
Init == runs = <<>> /\ prompt = <<>> /\ strays = 0 /\ act = [op |-> "init"]

InsOf(k) == CASE k = "chain" -> Ins \cap {"dict", "messages", "inputmsgs", "content", "content2", "mixed", "null", "text", "noid", "hidden", "override", "bare", "named"}
              [] k \in {"llm", "chat"} -> Ins \cap {"std", "params", "tools", "choice", "noinv", "lsmodel", "noid", "bothmodels", "bare", "named", "kinds", "hidden"}
              [] OTHER -> Ins \cap {"std", "noid", "bare", "named", "hidden"}
OutsOf(k) == CASE k = "chain" -> Outs \cap {"dict", "str", "messages", "msgout", "null"}
               [] k \in {"llm", "chat"} -> Outs \cap {"text", "msg", "usage", "details", "tokens", "empty", "empty2", "toolcalls", "zero", "overlap"}
               [] OTHER -> Outs \cap {"str", "null"}
Model(k) == k \in {"llm", "chat"}
Running == {i \in DOMAIN runs : runs[i].st = "run"}
Unknown == 99

(* A prompt template inside run p announces its prompt for the next model run of p. *)
Start(k, p, in, pr) ==
  /\ Len(runs) < MaxRuns /\ UNCHANGED strays
  /\ (pr # "none") => (k = "chain" /\ p \in Running)
  /\ runs' = Append(runs, [k |-> k, par |-> IF p \in Running THEN p ELSE 0, st |-> "run", in |-> in, out |-> "none", fail |-> "",
                           tok |-> 0, acts |-> 0, usage |-> "none",
                           model |-> IF ~Model(k) THEN "none" ELSE IF in \in {"params", "tools", "choice", "bothmodels"} THEN "inv" ELSE IF in = "lsmodel" THEN "ls" ELSE "none",
                           pr |-> IF Model(k) /\ p \in Running THEN prompt[p] ELSE "none"])
  /\ prompt' = Append(IF p \in Running THEN [prompt EXCEPT ![p] = IF pr # "none" THEN pr ELSE IF Model(k) THEN "none" ELSE @] ELSE prompt, "none")
  /\ act' = [op |-> "start", k |-> k, p |-> p, in |-> in, pr |-> pr]

UsageOf(o) == IF o \in {"usage", "details", "tokens", "zero", "overlap"} THEN o ELSE "none"
Finish(i, o) ==
  /\ i \in Running /\ o \in OutsOf(runs[i].k) /\ UNCHANGED strays
  /\ runs' = [runs EXCEPT ![i].st = "done", ![i].out = IF o \in {"null", "empty", "empty2"} THEN @ ELSE o, ![i].usage = UsageOf(o),
                          ![i].model = IF o \in {"usage", "details", "zero", "overlap"} THEN "resp" ELSE @]
  /\ prompt' = [prompt EXCEPT ![i] = "none"]
  /\ act' = [op |-> "finish", i |-> i, o |-> o]
Fail(i, e) ==
  /\ i \in Running /\ UNCHANGED strays
  /\ runs' = [runs EXCEPT ![i].st = "failed", ![i].fail = e]
  /\ prompt' = [prompt EXCEPT ![i] = "none"]
  /\ act' = [op |-> "fail", i |-> i, e |-> e]
(* a token may be empty, as those that carry tool calls are; the first one counts *)
Token(i, t) == /\ i \in Running /\ Model(runs[i].k) /\ runs[i].tok < MaxToks
               /\ runs' = [runs EXCEPT ![i].tok = @ + 1] /\ UNCHANGED <<prompt, strays>>
               /\ act' = [op |-> "token", i |-> i, t |-> t]
Action(i) == /\ i \in Running /\ runs[i].k = "chain" /\ runs[i].acts < MaxActs
             /\ runs' = [runs EXCEPT ![i].acts = @ + 1] /\ UNCHANGED <<prompt, strays>>
             /\ act' = [op |-> "action", i |-> i]
AgentEnd(i) == /\ i \in Running /\ runs[i].k = "chain" /\ runs[i].acts > 0
               /\ runs' = [runs EXCEPT ![i].out = "agent"] /\ UNCHANGED <<prompt, strays>>
               /\ act' = [op |-> "agentEnd", i |-> i]
(* events of runs the handler does not know, or no longer *)
Stray(ev, i) == /\ strays < MaxStray /\ strays' = strays + 1 /\ UNCHANGED <<runs, prompt>>
                /\ i \in {0} \cup (DOMAIN runs \ Running)
                /\ act' = [op |-> "stray", ev |-> ev, i |-> i]

Next == \/ \E k \in Kinds, p \in {0, Unknown} \cup Running, pr \in Prompts : \E in \in InsOf(k) : Start(k, p, in, pr)
        \/ \E i \in Running : \/ \E o \in Outs : Finish(i, o)
                              \/ \E e \in Errs : Fail(i, e)
                              \/ (\E t \in {"", "tok"} : Token(i, t)) \/ Action(i) \/ AgentEnd(i)
        \/ \E ev \in {"chainEnd", "chainError", "llmEnd", "llmError", "toolEnd", "retrieverEnd", "token", "action", "agentEnd"}, i \in 0..Len(runs) : Stray(ev, i)
Spec == Init /\ [][Next]_vars

C20_Stable == [][ \A i \in DOMAIN runs : runs[i].st # "run" => runs'[i] = runs[i] ]_vars
C20_OneEach == [][ Len(runs') =< Len(runs) + 1 /\ (act'.op # "start" => Len(runs') = Len(runs)) ]_vars
C20_Forgets == \A i \in DOMAIN runs : runs[i].st # "run" => prompt[i] = "none"
C20_ErrorIffFailed == \A i \in DOMAIN runs : (runs[i].fail # "") <=> runs[i].st = "failed"

Type(k) == IF Model(k) THEN "generation" ELSE IF k = "tool" THEN "tool" ELSE "span"
Shown(r) == [ty |-> Type(r.k), par |-> r.par, ended |-> r.st # "run", out |-> r.out, fail |-> r.fail, usage |-> r.usage, model |-> r.model,
             hid |-> r.in = "hidden" /\ r.fail = "", tok |-> r.tok > 0 /\ r.st = "done", acts |-> r.acts, pr |-> IF r.pr = "pf" THEN "none" ELSE r.pr]   \* a fallback prompt is not linked
St == [r |-> runs, p |-> prompt, s |-> strays]
Obs == [runs |-> [i \in DOMAIN runs' |-> Shown(runs'[i])], ok |-> "ok", kept |-> Cardinality({i \in DOMAIN runs' : runs'[i].st = "run"})]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<runs, prompt, strays>>
=============================================================================
