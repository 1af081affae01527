---------------------------- MODULE Config ----------------------------
(* Where the settings of a client or span processor come from: the option given to the constructor, else the
   environment variable, else the global of the same name (runtimes without process.env), else the default.
   They are read when the instance is made; later changes and other instances do not affect it.
   The environment of a score is read when the score is created. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Kinds, Ops, MaxSets, MaxMakes, MaxUses
VARIABLES env, glob, inst, sets, uses, act
vars == <<env, glob, inst, sets, uses, act>>
View == <<env, glob, inst, sets, uses>>

Settings == {"pub", "sec", "url", "env", "rel", "media", "at", "ivl", "timeout", "hdr"}
Names == (Settings \ {"hdr"}) \cup {"legacy"}          \* environment variables; legacy is the old name of url
ClientOpts == {"pub", "sec", "url", "timeout", "hdr"}  \* the other settings of a client come from the environment only
OptVals(kind, k) ==
  IF kind = "client" /\ k \notin ClientOpts THEN {"none"}
  ELSE IF k \notin Keys THEN (IF k \in {"pub", "sec"} THEN {"o"} ELSE {"none"})
  ELSE IF k = "media" THEN {"none", "on", "off"} ELSE {"none", "o"}
EnvVals(k) == IF k = "media" THEN {"none", "empty", "on", "off"} ELSE {"none", "empty", "e"}
GlobVals(k) == IF k = "media" THEN {"none", "off"} ELSE {"none", "g"}

Read(k) == IF env[k] \in {"none", "empty"} THEN glob[k] ELSE env[k]
Resolve(o, k) ==
  IF o[k] # "none" THEN o[k]
  ELSE IF k = "hdr" THEN "default"
  ELSE IF Read(k) # "none" THEN Read(k)
  ELSE IF k = "url" /\ Read("legacy") # "none" THEN Read("legacy") \o "l"
  ELSE "default"

RECURSIVE OptRecs(_, _)
OptRecs(kind, ks) == IF ks = {} THEN {<<>>}
  ELSE LET k == CHOOSE x \in ks : TRUE IN { [x \in {k} |-> v] @@ r : v \in OptVals(kind, k), r \in OptRecs(kind, ks \ {k}) }

Init == /\ env = [k \in Names |-> "none"] /\ glob = [k \in Names |-> "none"] /\ inst = <<>>
        /\ sets = 0 /\ uses = 0 /\ act = [op |-> "init"]
SetEnv(k, v) == /\ sets < MaxSets /\ env[k] # v
                /\ env' = [env EXCEPT ![k] = v] /\ sets' = sets + 1
                /\ act' = [op |-> "env", k |-> k, v |-> v] /\ UNCHANGED <<glob, inst, uses>>
SetGlob(k, v) == /\ sets < MaxSets /\ glob[k] # v
                 /\ glob' = [glob EXCEPT ![k] = v] /\ sets' = sets + 1
                 /\ act' = [op |-> "glob", k |-> k, v |-> v] /\ UNCHANGED <<env, inst, uses>>
Make(kind, o) == /\ Len(inst) < MaxMakes
                 /\ LET c == [k \in Settings |-> Resolve(o, k)] IN
                    /\ c["pub"] # "default" /\ c["sec"] # "default"   \* without keys nothing is promised
                    /\ inst' = Append(inst, [kind |-> kind, cfg |-> c])
                 /\ act' = [op |-> "make", kind |-> kind, o |-> o] /\ UNCHANGED <<env, glob, sets, uses>>
Use(i, u, e) == /\ uses < MaxUses /\ (u = "score" \/ e = "none")
                /\ u \in (IF inst[i].kind = "client" THEN {"api", "link", "score", "timeout"} ELSE {"span", "batch"})
                /\ uses' = uses + 1
                /\ act' = [op |-> "use", i |-> i, u |-> u, e |-> e] /\ UNCHANGED <<env, glob, inst, sets>>
Next == \/ \E k \in Keys \ {"hdr"} : \/ \E v \in EnvVals(k) : SetEnv(k, v)
                                    \/ \E v \in GlobVals(k) : SetGlob(k, v)
        \/ \E kind \in Kinds : \E o \in OptRecs(kind, Settings) : Make(kind, o)
        \/ \E i \in 1..Len(inst), u \in Ops, e \in {"none", "o"} : Use(i, u, e)
Spec == Init /\ [][Next]_vars

ScoreEnv(e) == IF e # "none" THEN e ELSE IF Read("env") # "none" THEN Read("env") ELSE "default"
Pick(c, ks) == [k \in ks |-> c[k]]
Seen ==
  IF act'.op # "use" THEN [none |-> 0]
  ELSE LET c == inst[act'.i].cfg IN
    CASE act'.u = "api" -> Pick(c, {"pub", "sec", "url", "hdr"})
      [] act'.u = "link" -> Pick(c, {"pub", "url"})          \* the project is the one of the keys
      [] act'.u = "timeout" -> Pick(c, {"timeout"})
      [] act'.u = "score" -> Pick(c, {"at", "ivl", "pub", "url"}) @@ [env |-> ScoreEnv(act'.e)]
      [] act'.u = "span" -> Pick(c, {"pub", "sec", "url", "hdr", "env", "rel", "media", "timeout"})
      [] act'.u = "batch" -> Pick(c, {"at", "ivl"})
Obs == [seen |-> Seen, ok |-> "ok"]

(* an instance keeps the settings it was made with *)
C30_Fixed == [][\A i \in 1..Len(inst) : inst'[i] = inst[i]]_vars
(* an explicit option is never overridden *)
C30_Option == [][act'.op = "make" => \A k \in Settings : act'.o[k] # "none" => inst'[Len(inst')].cfg[k] = act'.o[k]]_vars
TypeOk == \A i \in 1..Len(inst) : inst[i].cfg["media"] \in {"on", "off", "default"}
St == [e |-> env, g |-> glob, i |-> inst, s |-> sets, u |-> uses]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
=======================================================================
