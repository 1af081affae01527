--------------------------- MODULE Isolation ---------------------------
(* Which tracer provider a span belongs to. Langfuse's own spans go to the provider set for Langfuse, if any, at the
   moment they are started, else to the global one; spans of others always go to the global one. All copies of the
   package in a process share the setting. Whatever the provider, spans nest by the active context, and an id made
   from a seed names the same trace everywhere. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, HasGlobal, MaxSpans, MaxSets, Seeds
VARIABLES prov, spans, active, sets, act
vars == <<prov, spans, active, sets, act>>
View == <<prov, spans, active, sets>>
Scoped == {"active", "observe", "openai", "chain"}   \* started and ended around a call
Owner(kind) == IF kind # "foreign" /\ prov # "none" THEN prov ELSE IF HasGlobal THEN "G" ELSE "N"
Trace(par, seed, i) == IF seed # "none" THEN seed ELSE IF par # 0 THEN spans[par].trace ELSE "t" \o ToString(i)

Init == prov = "none" /\ spans = <<>> /\ active = 0 /\ sets = 0 /\ act = [op |-> "init"]
Set(p, c) == /\ sets < MaxSets /\ p # prov /\ prov' = p /\ sets' = sets + 1
             /\ act' = [op |-> "set", p |-> p, c |-> c] /\ UNCHANGED <<spans, active>>
(* par 0: by the active context; otherwise a child made from the handle of that observation *)
Start(kind, par, seed) ==
  LET i == Len(spans) + 1  p == IF par # 0 THEN par ELSE active IN
  /\ i =< MaxSpans
  /\ par # 0 => kind = "start" /\ seed = "none" /\ spans[par].kind = "start" /\ HasGlobal
  /\ seed # "none" => kind \in {"start", "active", "observe"}
  /\ spans' = Append(spans, [kind |-> kind, own |-> Owner(kind), par |-> IF seed # "none" THEN 0 ELSE p,
                             trace |-> Trace(p, seed, i), st |-> IF kind \in Scoped THEN "ended" ELSE "open"])
  /\ act' = [op |-> "start", kind |-> kind, par |-> par, seed |-> seed, i |-> i] /\ UNCHANGED <<prov, active, sets>>
End(i) == /\ spans[i].st = "open" /\ spans' = [spans EXCEPT ![i].st = "ended"]
          /\ act' = [op |-> "end", i |-> i] /\ UNCHANGED <<prov, active, sets>>
Enter(i) == /\ active # i /\ i # 0 => spans[i].st = "open"
            /\ active # i /\ active' = i
            /\ act' = [op |-> "enter", i |-> i] /\ UNCHANGED <<prov, spans, sets>>
Next == \/ \E p \in {"none", "A", "B"}, c \in {"own", "other"} : Set(p, c)
        \/ \E k \in Kinds, s \in Seeds \cup {"none"} : \E par \in 0..Len(spans) : Start(k, par, s)
        \/ \E i \in 1..Len(spans) : End(i)
        \/ HasGlobal /\ \E i \in 0..Len(spans) : Enter(i)
Spec == Init /\ [][Next]_vars

Ended(o) == { i \in 1..Len(spans') : spans'[i].own = o /\ spans'[i].st = "ended" }
Sorted(S) == [i \in 1..MaxSpans |-> i \in S]
Obs == [A |-> Sorted(Ended("A")), B |-> Sorted(Ended("B")), G |-> Sorted(Ended("G")),
        nest |-> [i \in 1..Len(spans') |-> IF spans'[i].own = "N" THEN "N" ELSE ToString(spans'[i].par) \o " " \o spans'[i].trace],
        active |-> IF active' = 0 THEN "none" ELSE ToString(active') \o " " \o spans'[active'].trace, ok |-> "ok", g |-> HasGlobal]
(* a span never changes provider, and only Langfuse's spans reach an isolated one *)
C31_Owner == [][\A i \in 1..Len(spans) : spans'[i].own = spans[i].own]_vars
C31_Foreign == \A i \in 1..Len(spans) : spans[i].kind = "foreign" => spans[i].own \notin {"A", "B"}
C31_Trace == \A i \in 1..Len(spans) : spans[i].par # 0 => spans[i].trace = spans[spans[i].par].trace
St == [p |-> prov, s |-> spans, c |-> active, n |-> sets]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
=========================================================================
