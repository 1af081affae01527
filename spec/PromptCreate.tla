---------------------------- MODULE PromptCreate ----------------------------
(* Creating, relabelling and deleting prompt versions                         *)
(* (packages/client/src/prompt): the request holds                            *)
(* what was given, the result is what the server answered to that request.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Types,        \* as given: "none" (left out), "text", "chat"
          Pieces,       \* of a chat prompt: "msg", "typed" (states its type), "ph" (placeholder), "phx" (with further members), "extra"
          MaxPieces, Extras, MaxExtras, Answers, Changes, MaxCalls   \* Changes: forms of updates and deletions

VARIABLES calls, act
vars == <<calls, act>>
Init == calls = <<>> /\ act = [op |-> "init"]

Seqs == UNION {[1..n -> Pieces] : n \in 0..MaxPieces}
Sent(p) == CASE p \in {"ph", "phx"} -> <<"placeholder", p>> [] OTHER -> <<"chatmessage", p>>
Create(t, ps, xs) ==
  /\ Len(calls) < MaxCalls
  /\ (t # "chat") => ps = <<>>
  /\ calls' = Append(calls, [type |-> IF t = "none" THEN "text" ELSE t, pieces |-> [i \in DOMAIN ps |-> Sent(ps[i])], extras |-> xs, st |-> "out", got |-> "none"])
  /\ act' = [op |-> "create", type |-> t, pieces |-> ps, extras |-> xs]
Change(c) ==
  /\ Len(calls) < MaxCalls
  /\ calls' = Append(calls, [type |-> c, pieces |-> <<>>, extras |-> {}, st |-> "out", got |-> "none"])
  /\ act' = [op |-> "change", c |-> c]
(* The answer decides what the caller gets: the type, too. *)
Answer(i, o) ==
  /\ calls[i].st = "out" /\ UNCHANGED <<>>
  /\ calls' = [calls EXCEPT ![i].st = IF o \in {"text", "chat"} THEN "ok" ELSE "failed", ![i].got = IF o \notin {"text", "chat"} THEN "none" ELSE IF calls[i].type \in {"update", "update0"} THEN "updated" ELSE IF calls[i].type \in Changes THEN "nothing" ELSE o]
  /\ act' = [op |-> "answer", i |-> i, o |-> o]
Next == \/ \E t \in Types, ps \in Seqs, xs \in {X \in SUBSET Extras : Cardinality(X) =< MaxExtras} : Create(t, ps, xs)
        \/ \E c \in Changes : Change(c)
        \/ \E i \in DOMAIN calls, o \in Answers : Answer(i, o)
Spec == Init /\ [][Next]_vars

C34_One == [][ Len(calls') =< Len(calls) + 1 /\ \A i \in DOMAIN calls : calls'[i].type = calls[i].type /\ calls'[i].pieces = calls[i].pieces /\ (calls[i].st # "out" => calls'[i] = calls[i]) ]_vars
C34_Own == [][ act'.op = "answer" => \A j \in DOMAIN calls : j # act'.i => calls'[j] = calls[j] ]_vars

St == [c |-> calls]
Obs == [calls |-> calls', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == calls
=============================================================================
