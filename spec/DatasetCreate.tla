--------------------------- MODULE DatasetCreate ---------------------------
(* Creating a dataset item with media (packages/client/src/dataset): every   *)
(* distinct media value is uploaded before the item is sent.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Values,     \* which values are explored (see Explored)
          MaxItems, Faults

VARIABLES st, up, made, n, act
vars == <<st, up, made, n, act>>
Init == st = "idle" /\ up = [m \in 1..2 |-> "none"] /\ made = 0 /\ n = 0 /\ act = [op |-> "init"]

(* leaves: M1, M1b and M1t have the same content (other object, other type), M2 other content, bad is an invalid media value *)
Content(l) == CASE l \in {"M1", "M1b", "M1t"} -> {1} [] l = "M2" -> {2} [] OTHER -> {}
Leaves == {"M1", "M1b", "M1t", "M2", "bad", "mref", "txt", "tag", "num", "null", "date", "undef"}
Places == {"root", "k", "n.k", "l0", "l1.k", "deep", "proto"}
Fields == {"input", "expectedOutput", "metadata"}
E(f, p, l) == [f |-> f, at |-> p, leaf |-> l]
Explored == CASE Values = "one" -> {<<E(f, p, l)>> : f \in Fields, p \in Places, l \in Leaves}
              [] Values = "two" -> {<<E(f, p, l), E(g, r, m)>> : f \in {"input", "metadata"}, g \in {"expectedOutput", "metadata"}, p \in {"k", "l0"}, r \in {"n.k", "l1.k"}, l \in {"M1", "M2", "txt"}, m \in Leaves}
              [] Values = "cyc" -> {<<E("input", "cyc", l), E("metadata", "shared", m)>> : l \in {"M1", "txt"}, m \in {"M1b", "M2", "num"}} \cup {<<E("metadata", "shared", m)>> : m \in {"M1", "M2", "num"}} \cup {<<>>}
              [] OTHER -> {<<E("input", "k", "M1"), E("input", "n.k", "M2"), E("expectedOutput", "root", "M1b"), E("metadata", "l0", l)>> : l \in {"M2", "txt"}}
Has(v, l) == \E i \in DOMAIN v : v[i].leaf = l
Cyclic(v) == \E i \in DOMAIN v : v[i].at = "cyc"
Need(v) == UNION {Content(v[i].leaf) : i \in DOMAIN v}
Send(v) == IF Cyclic(v) THEN "rejected" ELSE "creating"      \* a cyclic item cannot be sent

VARIABLE val
Create(v) ==
  /\ st \in {"idle", "resolved", "rejected"} /\ (\A m \in 1..2 : up[m] \in {"none", "done", "failed"}) /\ n < MaxItems /\ n' = n + 1 /\ val' = v
  /\ act' = [op |-> "create", v |-> v]
  /\ st' = IF Has(v, "bad") THEN "rejected" ELSE IF Need(v) # {} THEN "dataset" ELSE Send(v)
  /\ made' = IF st' = "creating" THEN 1 ELSE 0
  /\ up' = [m \in 1..2 |-> "none"]
Dataset(o) ==
  /\ st = "dataset" /\ act' = [op |-> "dataset", o |-> o] /\ UNCHANGED <<made, n, val>>
  /\ IF o = "ok" THEN st' = "uploading" /\ up' = [m \in 1..2 |-> IF m \in Need(val) THEN "post" ELSE "none"]
     ELSE st' = "rejected" /\ up' = up
Settle(u) == IF st # "uploading" THEN st ELSE IF \E m \in 1..2 : u[m] = "failed" THEN "rejected" ELSE IF \A m \in 1..2 : u[m] \in {"none", "done"} THEN Send(val) ELSE st
Move(m, to) == /\ up' = [up EXCEPT ![m] = to] /\ st' = Settle(up') /\ made' = (IF st' = "creating" /\ st # "creating" THEN made + 1 ELSE made) /\ UNCHANGED <<n, val>>
Post(m, o) == up[m] = "post" /\ act' = [op |-> "post", m |-> m, o |-> o] /\ Move(m, IF o = "stored" THEN "done" ELSE IF o = "target" THEN "put" ELSE "failed")
Put(m, o) == up[m] = "put" /\ act' = [op |-> "put", m |-> m, o |-> o] /\ Move(m, IF o = "ok" THEN "patch" ELSE "patchfailed")
Patch(m, o) == up[m] \in {"patch", "patchfailed"} /\ act' = [op |-> "patch", m |-> m, o |-> o] /\ Move(m, IF o = "ok" /\ up[m] = "patch" THEN "done" ELSE "failed")
Created(o) == /\ st = "creating" /\ act' = [op |-> "created", o |-> o] /\ st' = (IF o = "ok" THEN "resolved" ELSE "rejected") /\ UNCHANGED <<up, made, n, val>>

Next == \/ \E v \in Explored : Create(v)
        \/ \E o \in {"ok"} \cup (IF Faults THEN {"e404", "net"} ELSE {}) : Dataset(o) \/ Created(o)
        \/ \E m \in 1..2 : \/ \E o \in {"stored", "target"} \cup (IF Faults THEN {"e400", "net", "mismatch"} ELSE {}) : Post(m, o)
                           \/ \E o \in {"ok"} \cup (IF Faults THEN {"fail"} ELSE {}) : Put(m, o)
                           \/ \E o \in {"ok"} \cup (IF Faults THEN {"e400"} ELSE {}) : Patch(m, o)
Spec == Init /\ val = <<>> /\ [][Next]_<<vars, val>>

C23_UploadedFirst == made > 0 => \A m \in Need(val) : up[m] = "done"
C23_Once == made =< 1
C23_NoItemOnFailure == (\E m \in 1..2 : up[m] = "failed") => made = 0 /\ st # "resolved"
C23_NoTraffic == (Need(val) = {} => \A m \in 1..2 : up[m] = "none")

St == [s |-> st, u |-> up, m |-> made, n |-> n, v |-> val]
Obs == [dataset |-> st' = "dataset", creating |-> st' = "creating", up |-> [m \in 1..2 |-> IF up'[m] \in {"post", "put"} THEN up'[m] ELSE IF up'[m] \in {"patch", "patchfailed"} THEN "patch" ELSE "none"],
        res |-> IF st' \in {"resolved", "rejected"} THEN st' ELSE "pending", made |-> made', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<st, up, made, n, val>>
=============================================================================
