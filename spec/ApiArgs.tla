------------------------------ MODULE ApiArgs -------------------------------
(* What a call of the API client puts on the wire, for every endpoint.  The  *)
(* request is the decoded one: path segments, query and body after standard  *)
(* URL and JSON decoding, with argument values named by their kind.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, ApiTable

CONSTANTS Mode, ArgKinds, FieldKinds, BodyKinds, HeaderKinds

VARIABLES out, act
vars == <<out, act>>
Init == out = [m |-> "none"] /\ act = [op |-> "init"]

Shown(k) == CASE k \in {"null", "undef", "arr0"} -> "absent" [] OTHER -> k
Path(e, as) == [i \in DOMAIN e.p |-> IF e.p[i] = "ARG0" THEN [arg |-> as[1]] ELSE IF e.p[i] = "ARG1" THEN [arg |-> as[2]] ELSE [lit |-> e.p[i]]]
Query(e, f) == {[k |-> x, v |-> f[x]] : x \in {y \in e.q : Shown(f[y]) # "absent"}}
Call(e, as, f, b, h) ==
  /\ act' = [op |-> "call", id |-> e.id, n |-> e.n, args |-> as, fields |-> {[k |-> x, v |-> f[x]] : x \in e.q}, body |-> b, h |-> h]
  /\ out' = [m |-> e.m, p |-> Path(e, as), q |-> Query(e, f), b |-> IF e.body THEN b ELSE "none", h |-> h]
ArgSeqs(e) == [1..e.n -> ArgKinds]
Default(e) == [x \in e.q |-> IF x \in e.must THEN "str" ELSE "undef"]
(* field patterns: one field at a time in every kind, all at once, none *)
FieldSets(e) == {Default(e)} \cup {[x \in e.q |-> "str"]} \cup {[Default(e) EXCEPT ![x] = k] : x \in e.q, k \in FieldKinds} \cup {[[y \in e.q |-> "str"] EXCEPT ![x] = k] : x \in e.q, k \in FieldKinds}
Lists == {"environment", "tags", "traceTags"}
Legal(e, f) == (\A x \in e.must : f[x] \notin {"null", "undef"}) /\ (\A x \in e.q : f[x] \in {"arr", "arr0"} => x \in Lists)
Next == \E e \in Endpoints :
          \/ Mode = "args" /\ \E as \in ArgSeqs(e) : Call(e, as, Default(e), "obj", "none")
          \/ Mode = "fields" /\ e.q # {} /\ \E f \in FieldSets(e) : Legal(e, f) /\ Call(e, [i \in 1..e.n |-> "plain"], f, "obj", "none")
          \/ Mode = "bodies" /\ e.body /\ \E b \in BodyKinds : Call(e, [i \in 1..e.n |-> "plain"], Default(e), b, "none")
          \/ Mode = "headers" /\ \E h \in HeaderKinds : Call(e, [i \in 1..e.n |-> "plain"], Default(e), "obj", h)
Spec == Init /\ [][Next]_vars

(* nothing given is lost, nothing is invented *)
C29_Faithful == [][ /\ \A i \in DOMAIN act'.args : \E j \in DOMAIN out'.p : "arg" \in DOMAIN out'.p[j] /\ out'.p[j].arg = act'.args[i]
                    /\ \A x \in act'.fields : (Shown(x.v) # "absent") <=> (x \in out'.q) ]_vars
(* every argument has exactly one place in the path *)
C29_Places == \A e \in Endpoints : \A k \in 1..2 : Cardinality({i \in DOMAIN e.p : e.p[i] = (IF k = 1 THEN "ARG0" ELSE "ARG1")}) = (IF k =< e.n THEN 1 ELSE 0)

St == [z |-> 0]
Obs == [out |-> out', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == 0
=============================================================================
