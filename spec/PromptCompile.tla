--------------------------- MODULE PromptCompile ---------------------------
(* Compilation of text and chat prompts (packages/client/src/prompt).       *)
(* A template is a sequence of items; compiling maps it, for an assignment  *)
(* of variables and placeholders, to a sequence of output tokens and leaves *)
(* the template as it is.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Mode,        \* "text", "chat" or "langchain"
          MaxLen, MaxCompiles

TextItems == {"lit", "vx", "vy", "brace"}
ChatItems == {"m0", "mx", "mxy", "pa", "pb", "legacy"}
LcItems   == {"lit", "vx", "single", "open", "close"}
Items == CASE Mode = "text" -> TextItems [] Mode = "chat" -> ChatItems [] OTHER -> LcItems
Templates == UNION {[1..n -> Items] : n \in 1..MaxLen}
VarVals == {"plain", "special", "missing"}
PhVals == {"none", "one", "two", "empty", "bad", "str", "nulls"}

VARIABLES tmpl, n, act
vars == <<tmpl, n, act>>
Init == tmpl = <<>> /\ n = 0 /\ act = [op |-> "init", out |-> <<>>]

Ok(t) == IF Mode = "langchain"
         THEN \A i \in DOMAIN t : i > 1 => ~(t[i] = "close" /\ t[i-1] \in {"close", "single"})   \* "}}" is ambiguous
         ELSE TRUE
Choose(t) == /\ tmpl = <<>> /\ Ok(t) /\ tmpl' = t /\ n' = 0
             /\ act' = [op |-> "template", mode |-> Mode, t |-> t, out |-> <<>>]

(* ---- text and chat ---- *)
Val(v, val) == <<v, val>>
Ph(name, val) ==
  CASE val = "none"  -> <<<<"ph", name>>>>
    [] val = "empty" -> <<>>
    [] val = "one"   -> <<<<"phmsg", name, "1">>>>
    [] val = "two"   -> <<<<"phmsg", name, "1">>, <<"phmsg", name, "2">>>>
    [] OTHER         -> <<<<"json", name, val>>>>
ItemOut(it, a) ==
  CASE it = "pa" -> Ph("a", a.a)
    [] it = "pb" -> Ph("b", a.b)
    [] it = "vx" -> <<<<"var", "x">>>>
    [] it = "vy" -> <<<<"var", "y">>>>
    [] OTHER     -> <<<<it>>>>
Render(t, a) == FlattenSeq([i \in DOMAIN t |-> ItemOut(t[i], a)])

(* ---- LangChain: single braces of JSON are doubled, {{v}} becomes {v} ---- *)
RECURSIVE Lc(_, _)
Lc(t, depth) ==
  IF t = <<>> THEN <<>>
  ELSE LET h == Head(t) IN
    CASE h = "open"  -> <<"open2">> \o Lc(Tail(t), depth + 1)
      [] h = "close" -> <<IF depth > 0 THEN "close2" ELSE "close1">> \o Lc(Tail(t), IF depth > 0 THEN depth - 1 ELSE 0)
      [] h = "vx"    -> <<"var1">> \o Lc(Tail(t), depth)
      [] OTHER       -> <<h>> \o Lc(Tail(t), depth)

Args == IF Mode = "text" THEN [x : VarVals, y : VarVals, a : {"none"}, b : {"none"}]
        ELSE IF Mode = "chat" THEN [x : VarVals, y : {"plain", "missing"}, a : PhVals, b : {"none", "one", "empty", "str"}]
        ELSE [x : {"plain"}, y : {"plain"}, a : {"none"}, b : {"none"}]

Compile(a) ==
  /\ tmpl # <<>> /\ n < MaxCompiles /\ n' = n + 1 /\ UNCHANGED tmpl
  /\ act' = [op |-> "compile", a |-> a, out |-> IF Mode = "langchain" THEN Lc(tmpl, 0) ELSE Render(tmpl, a)]

Next == (\E t \in Templates : Choose(t)) \/ (\E a \in Args : Compile(a))
Spec == Init /\ [][Next]_vars

TypeOk == n \in 0..MaxCompiles
(* every message and unresolved placeholder survives, in order *)
C08_Keep == act.op = "compile" /\ Mode = "chat" =>
   SelectSeq(act.out, LAMBDA o : o[1] \in {"m0", "mx", "mxy", "legacy"})
     = SelectSeq([i \in DOMAIN tmpl |-> <<tmpl[i]>>], LAMBDA o : o[1] \in {"m0", "mx", "mxy", "legacy"})
C08_Stable == [][ tmpl # <<>> => tmpl' = tmpl ]_vars

St == [t |-> tmpl, n |-> n]
Obs == [out |-> act'.out, stable |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> [act' EXCEPT !.out = <<>>], t |-> St', o |-> Obs]))
View == <<tmpl, n>>
=============================================================================
