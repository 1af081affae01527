------------------------- MODULE ExperimentContext -------------------------
(* What the spans of an experiment carry (packages/client/src/experiment,     *)
(* packages/core/src/propagation.ts). Every span started inside the task of   *)
(* an item carries the context of exactly that item: its experiment, run      *)
(* name, metadata, dataset, item and root observation; spans of evaluators,   *)
(* of run evaluators and of other code carry that of the place where the      *)
(* experiment was started, if any. Experiments overlap and nest.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NE,        \* experiments, 0: the model of values
          NI,        \* items of each
          Lims,      \* allowed concurrency
          MaxDepth,  \* observations nested in one place
          Kinds,     \* kinds of span
          Mds, IMds, Exps, Descs, Srcs, Envs  \* the model of values

Es == 1..NE
Is == 1..NI
OutP == [k |-> "out", e |-> 0, i |-> 0]
Places == {OutP} \cup {[k |-> k, e |-> e, i |-> i] : k \in {"task", "eval"}, e \in Es, i \in Is} \cup {[k |-> "runeval", e |-> e, i |-> 0] : e \in Es}

VARIABLES ex, at, lim, it, depth, vals, act
vars == <<ex, at, lim, it, depth, vals, act>>
None == [none |-> TRUE]
Init == /\ ex = [e \in Es |-> "idle"] /\ at = [e \in Es |-> OutP] /\ lim = [e \in Es |-> 0] /\ it = [e \in Es |-> [i \in Is |-> "wait"]]
        /\ depth = [p \in Places |-> 0] /\ vals = None /\ act = [op |-> "init"]

Live(p) == CASE p.k = "out" -> TRUE [] p.k = "task" -> it[p.e][p.i] = "task" [] p.k = "eval" -> it[p.e][p.i] = "eval" [] OTHER -> ex[p.e] = "runeval"
RECURSIVE Owner(_, _)
Owner(where, p) == IF p.k = "out" THEN <<0, 0>> ELSE IF p.k = "task" THEN <<p.e, p.i>> ELSE Owner(where, where[p.e])

(* the items of an experiment that are run next, in order *)
Fill(s, n) == LET busy == Cardinality({i \in Is : s[i] \in {"task", "eval"}})
                  waiting == {i \in Is : s[i] = "wait"}
                  rank(i) == Cardinality({j \in waiting : j < i})
              IN [i \in Is |-> IF i \in waiting /\ rank(i) < n - busy THEN "task" ELSE s[i]]
After(e, s) == LET f == Fill(s, lim[e]) IN
  /\ it' = [it EXCEPT ![e] = f]
  /\ ex' = [ex EXCEPT ![e] = IF \A i \in Is : f[i] = "done" THEN "runeval" ELSE "run"]

Begin(e, p, n) == /\ ex[e] = "idle" /\ (\A d \in Es : d < e => ex[d] # "idle") /\ Live(p) /\ p.e # e
               /\ lim' = [lim EXCEPT ![e] = n] /\ at' = [at EXCEPT ![e] = p] /\ ex' = [ex EXCEPT ![e] = "run"]
               /\ it' = [it EXCEPT ![e] = Fill(it[e], n)] /\ UNCHANGED <<depth, vals>> /\ act' = [op |-> "begin", e |-> e, p |-> p, n |-> n]
EndTask(e, i, o) == /\ it[e][i] = "task" /\ depth[[k |-> "task", e |-> e, i |-> i]] = 0 /\ UNCHANGED <<at, lim, depth, vals>>
                    /\ After(e, [it[e] EXCEPT ![i] = IF o = "ok" THEN "eval" ELSE "done"]) /\ act' = [op |-> "endtask", e |-> e, i |-> i, o |-> o]
EndEval(e, i, o) == /\ it[e][i] = "eval" /\ depth[[k |-> "eval", e |-> e, i |-> i]] = 0 /\ UNCHANGED <<at, lim, depth, vals>>
                    /\ After(e, [it[e] EXCEPT ![i] = "done"]) /\ act' = [op |-> "endeval", e |-> e, i |-> i, o |-> o]
EndRun(e) == /\ ex[e] = "runeval" /\ depth[[k |-> "runeval", e |-> e, i |-> 0]] = 0 /\ ex' = [ex EXCEPT ![e] = "done"] /\ UNCHANGED <<at, lim, it, depth, vals>> /\ act' = [op |-> "endrun", e |-> e]
Leaf(p, k) == /\ Live(p) /\ UNCHANGED <<ex, at, lim, it, depth, vals>> /\ act' = [op |-> "leaf", p |-> p, k |-> k]
Open(p) == /\ Live(p) /\ depth[p] < MaxDepth /\ depth' = [depth EXCEPT ![p] = @ + 1] /\ UNCHANGED <<ex, at, lim, it, vals>> /\ act' = [op |-> "open", p |-> p, k |-> "active"]
Close(p) == /\ Live(p) /\ depth[p] > 0 /\ depth' = [depth EXCEPT ![p] = @ - 1] /\ UNCHANGED <<ex, at, lim, it, vals>> /\ act' = [op |-> "close", p |-> p]

(* one run of one item with given values *)
Values(m, im, x, d, s, v) == /\ NE = 0 /\ vals = None /\ vals' = [m |-> m, im |-> im, x |-> x, d |-> d, s |-> s, v |-> v] /\ UNCHANGED <<ex, at, lim, it, depth>>
                             /\ act' = [op |-> "values", m |-> m, im |-> im, x |-> x, d |-> d, s |-> s, v |-> v]

Next == \/ \E e \in Es, p \in Places, n \in Lims : Begin(e, p, n)
        \/ \E e \in Es, i \in Is, o \in {"ok", "fail"} : EndTask(e, i, o) \/ EndEval(e, i, o)
        \/ \E e \in Es : EndRun(e)
        \/ \E p \in Places : (\E k \in Kinds : Leaf(p, k)) \/ Open(p) \/ Close(p)
        \/ \E m \in Mds, im \in IMds, x \in Exps, d \in Descs, s \in Srcs, v \in Envs : Values(m, im, x, d, s, v)
Spec == Init /\ [][Next]_vars

(* a span inside a task has the context of that very item, and code that no task has called has none *)
C36_Own == \A p \in Places : Live(p) => (p.k = "task" => Owner(at, p) = <<p.e, p.i>>) /\ (p.k = "out" => Owner(at, p) = <<0, 0>>)
C36_Outside == \A e \in Es : at[e] = OutP => \A i \in Is : Owner(at, [k |-> "eval", e |-> e, i |-> i]) = <<0, 0>>
C36_Limit == \A e \in Es : ex[e] = "run" => Cardinality({i \in Is : it[e][i] \in {"task", "eval"}}) <= lim[e]
C36_Bound == [][ \A e \in Es : ex[e] # "idle" => at'[e] = at[e] ]_vars

(* the values: keys a, b are given by the run's and the item's metadata       *)
Has(m, k) == CASE m = "ab" -> k \in {"a", "b"} [] m = "bc" -> k \in {"b", "c"} [] m = "reserved" -> k \in {"experiment_name", "dataset_id", "a"} [] OTHER -> FALSE
Linked(s) == s \in {"linked", "noDataset"}
Shown == LET v == vals' IN
  [ id |-> IF Linked(v.s) THEN "run" ELSE "own", item |-> IF v.s \in {"local", "noItem"} THEN "hash" ELSE "item",
    md |-> v.m, imd |-> v.im, ds |-> v.s \in {"linked", "unlinked", "noItem"},
    desc |-> IF v.d = "text" THEN "text" ELSE "none", exp |-> IF v.x \in {"undef", "null", "empty"} THEN "none" ELSE v.x,
    meta |-> [k \in {"a", "b", "c", "experiment_name", "experiment_run_name", "dataset_id", "dataset_item_id"} |->
                IF k \in {"experiment_name", "experiment_run_name"} THEN "sdk"
                ELSE IF k \in {"dataset_id", "dataset_item_id"} /\ v.s \in {"linked", "unlinked"} THEN "sdk"
                ELSE IF Has(v.m, k) THEN "run" ELSE IF Has(v.im, k) THEN "item" ELSE "none"] ]

St == [ex |-> ex, at |-> at, lim |-> lim, it |-> it, depth |-> [p \in {q \in Places : depth[q] > 0} |-> depth[p]], v |-> vals]
Obs == IF NE = 0 THEN [shown |-> Shown, ok |-> "ok"] ELSE
       [ex |-> ex', it |-> it', own |-> IF act'.op \in {"leaf", "open"} THEN Owner(at, act'.p) ELSE <<>>, ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<ex, at, lim, it, depth, vals>>
=============================================================================
