----------------------------- MODULE MediaRefs -----------------------------
(* Resolving media references inside a value (packages/client/src/media).    *)
(* A value is a tree, given by its leaves: [at |-> place, leaf |-> content]. *)
(* A string leaf is a sequence of tokens; R1..R3 are well-formed references. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, MaxLen, Outcomes, Depths, MaxCalls

VARIABLES calls, outs, last, act
vars == <<calls, outs, last, act>>
Refs == {"R1", "R2", "R3"}
Toks == Refs \cup {"txt", "at", "open", "nofields", "nosource", "noeq", "empty", "nl", "dollar"}
Others == {"num", "null", "undef", "bool", "date", "bytes", "media", "mref", "map", "class", "fn"}
Places == [root |-> 0, a |-> 1, b |-> 1, bc |-> 2, bd |-> 2, l0 |-> 2, l1 |-> 2, l2x |-> 3, proto |-> 2, deep10 |-> 10, deep11 |-> 11]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Init == calls = 0 /\ outs = <<>> /\ last = <<>> /\ act = [op |-> "init"]

(* the values explored *)
One == {<<[at |-> p, leaf |-> l]>> : p \in {"root", "l1"}, l \in SeqsUpTo(Toks, MaxLen)}
Small == {<<"R1">>, <<"txt">>, <<"R2", "R1">>, <<"open", "R2">>} \cup {<<o>> : o \in Others}
Pairs == {<<[at |-> p, leaf |-> l], [at |-> r, leaf |-> m]>> : p \in {"a", "l0", "bc"}, r \in {"bd", "l1", "proto"}, l \in Small, m \in Small}
Deep == {<<[at |-> p, leaf |-> l], [at |-> "a", leaf |-> <<"R2">>]>> : p \in {"b", "bc", "l2x", "deep10", "deep11"}, l \in {<<"R1">>, <<"txt", "R2">>}}
Triples == {<<[at |-> "a", leaf |-> l], [at |-> "bc", leaf |-> m], [at |-> "l0", leaf |-> n]>> : l, m, n \in {<<"R1">>, <<"R1", "R2">>, <<"R3", "R3">>, <<"txt">>}}
Values == CASE Mode = "strings" -> One [] Mode = "pairs" -> Pairs [] Mode = "deep" -> Deep [] OTHER -> Triples

Good(o) == o \in {"ok", "ok2"}
Shown(t, at, md) == IF t \in Refs /\ Good(outs'[t]) /\ Places[at] =< md THEN "U" \o t ELSE t
Resolve(v, f, md) ==
  /\ calls < MaxCalls /\ calls' = calls + 1 /\ outs' = f
  /\ last' = [i \in DOMAIN v |-> [at |-> v[i].at, leaf |-> [k \in DOMAIN v[i].leaf |-> Shown(v[i].leaf[k], v[i].at, md)]]]
  /\ act' = [op |-> "resolve", v |-> v, f |-> f, md |-> md]
Used(v) == {t \in Refs : \E i \in DOMAIN v : \E k \in DOMAIN v[i].leaf : v[i].leaf[k] = t}
Next == \E v \in Values, md \in Depths : \E g \in [Used(v) -> Outcomes] : Resolve(v, [r \in Refs |-> IF r \in Used(v) THEN g[r] ELSE "ok"], md)
Spec == Init /\ [][Next]_vars

(* every reference that can be fetched is replaced, nothing else is *)
C24_Exact == [][ \A i \in DOMAIN act'.v : \A k \in DOMAIN act'.v[i].leaf :
     LET t == act'.v[i].leaf[k] IN (last'[i].leaf[k] # t) <=> (t \in Refs /\ Good(act'.f[t]) /\ Places[act'.v[i].at] =< act'.md) ]_vars
St == [c |-> calls]
Obs == [leaves |-> [i \in DOMAIN last' |-> last'[i].leaf], ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == calls
=============================================================================
