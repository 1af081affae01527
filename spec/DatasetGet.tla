----------------------------- MODULE DatasetGet -----------------------------
(* Fetching a dataset (packages/client/src/dataset): all pages of its items, *)
(* with the media references the server lists hydrated in place.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,             \* "pages" or "hydrate"
          MaxPages, Sizes,  \* pages of the dataset, items per page
          MaxRefs, MaxGets

VARIABLES st, page, total, items, gets, act
vars == <<st, page, total, items, gets, act>>
Init == st = "idle" /\ page = 0 /\ total = 0 /\ items = <<>> /\ gets = 0 /\ act = [op |-> "init"]

Get(v, ps) == /\ st \in {"idle", "ok", "failed"} /\ gets < MaxGets /\ gets' = gets + 1 /\ st' = "dataset" /\ page' = 0 /\ items' = <<>> /\ total' = 0
              /\ act' = [op |-> "get", v |-> v, ps |-> ps]
Dataset(o) == /\ st = "dataset" /\ act' = [op |-> "dataset", o |-> o] /\ UNCHANGED <<total, items, gets>>
              /\ IF o = "ok" THEN st' = "items" /\ page' = 1 ELSE st' = "failed" /\ page' = page
(* The server answers a page; the number of pages may change while fetching. *)
Page(n, t) == /\ st = "items" /\ act' = [op |-> "page", n |-> n, t |-> t] /\ UNCHANGED gets
              /\ items' = items \o [k \in 1..n |-> <<page, k>>] /\ total' = t
              /\ IF t =< page THEN st' = "ok" /\ page' = page ELSE st' = "items" /\ page' = page + 1
PageFails(o) == /\ st = "items" /\ act' = [op |-> "pagefails", o |-> o] /\ st' = "failed" /\ UNCHANGED <<page, total, items, gets>>

(* --- hydration: one item, its places and the references the server lists --- *)
(* places of the field values used by the driver; the last of each pair says whether it exists *)
Exists == {"root", "k", "n.k", "l0", "l1.k", "quote", "bracket", "dot", "digits.k", "proto.k"}
Missing == {"nokey", "n.nokey", "nothing.k", "l9", "l0.k", "str.k", "leafdigits", "hasOwnProperty", "protokey.x", "syntax", "syntax2", "syntax3", "strindex", "length"}
Fields == {"input", "expectedOutput", "metadata", "unknown"}
Hydrate(rs) == /\ Mode = "hydrate" /\ gets < MaxGets /\ gets' = gets + 1 /\ UNCHANGED <<st, page, total, items>>
               /\ act' = [op |-> "hydrate", rs |-> rs]
RefSeqs == UNION {[1..k -> [f : Fields, p : Exists \cup Missing, m : {TRUE}]] : k \in 0..MaxRefs} \cup [1..1 -> [f : Fields, p : Exists, m : {FALSE}]]
Under(p, r) == r = "root" \/ p = r
Effective(r) == r.m /\ r.f # "unknown" /\ r.p \in Exists
(* where media ends up: the existing places named, except those inside a place replaced before; later wins nothing else *)
Placed(rs) == [f \in {"input", "expectedOutput", "metadata"} |-> LET es == SelectSeq(rs, LAMBDA r : Effective(r) /\ r.f = f) IN
                 IF \E i \in DOMAIN es : es[i].p = "root" THEN <<"root">> ELSE [i \in DOMAIN es |-> es[i].p]]

Next == \/ Mode = "pages" /\ (\/ \E v \in {"", "v"}, ps \in {0, 2} : Get(v, ps)
                              \/ \E o \in {"ok", "e404", "net"} : Dataset(o)
                              \/ \E n \in Sizes, t \in 0..MaxPages : (t < page => n = 0) /\ Page(n, t)
                              \/ \E o \in {"e400", "net", "e404"} : PageFails(o))
        \/ Mode = "hydrate" /\ \E rs \in RefSeqs : Hydrate(rs)
Spec == Init /\ [][Next]_vars

(* items are the answered pages in order, each once; a failed page fails the fetch *)
C22_Order == \A i, j \in DOMAIN items : i < j => items[i][1] < items[j][1] \/ (items[i][1] = items[j][1] /\ items[i][2] < items[j][2])
C22_All == st = "ok" => page >= total
C22_FailureFails == [][ act'.op = "pagefails" => st' = "failed" ]_vars

St == [s |-> st, p |-> page, t |-> total, i |-> items, g |-> gets]
Obs == IF Mode = "hydrate" THEN [placed |-> Placed(act'.rs), ok |-> "ok"]
       ELSE [wait |-> IF st' \in {"dataset", "items"} THEN st' ELSE "none", page |-> IF st' = "items" THEN page' ELSE 0, res |-> IF st' \in {"ok", "failed"} THEN st' ELSE "pending",
             items |-> IF st' = "ok" THEN items' ELSE <<>>, ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<st, page, total, items, gets>>
=============================================================================
