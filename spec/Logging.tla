---------------------------- MODULE Logging ----------------------------
(* The SDK's logger. The global logger starts at the level of the environment (LANGFUSE_DEBUG, else LANGFUSE_LOG_LEVEL,
   else INFO), is replaced by configure, changed by setLevel and returned to INFO by reset. A message is printed, once
   and with its level's console method, iff its level is at least that of the logger it is sent to at that moment.
   Messages of the SDK itself go to the global logger of the moment; a logger of one's own is independent. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Levels, Prefixes, Debugs, EnvLevels, Sdk, MaxCfg, MaxLogs, Holds
VARIABLES g, held, own, cfgs, logs, act
vars == <<g, held, own, cfgs, logs, act>>
View == <<g, held, own, cfgs, logs>>
Rank(l) == CASE l = "DEBUG" -> 0 [] l = "INFO" -> 1 [] l = "WARN" -> 2 [] l = "ERROR" -> 3 [] l = "NONE" -> 4
Methods == {"DEBUG", "INFO", "WARN", "ERROR"}
None == [lv |-> "none", px |-> "none"]
Default == [lv |-> "INFO", px |-> "std"]
(* held: the same object as the global logger ("same"), or a logger replaced since, with its settings *)
FromEnv(e) == [lv |-> CASE e.d \in {"true", "TRUE"} -> "DEBUG" [] e.l = "none" -> "INFO" [] e.l = "junk" -> "INFO" [] OTHER -> e.l, px |-> "std"]
Init == g = None /\ held = None /\ own = None /\ cfgs = 0 /\ logs = 0 /\ act = [op |-> "init"]
Load(e) == /\ g = None /\ g' = FromEnv(e) /\ act' = [op |-> "load", e |-> e] /\ UNCHANGED <<held, own, cfgs, logs>>
Cfg == g # None /\ cfgs < MaxCfg /\ cfgs' = cfgs + 1 /\ UNCHANGED logs
Detach == held' = IF held.lv = "same" THEN g ELSE held
Configure(l, p) == /\ Cfg /\ g' = [lv |-> l, px |-> p] /\ Detach /\ UNCHANGED own /\ act' = [op |-> "configure", l |-> l, p |-> p]
Reset == /\ Cfg /\ g' = Default /\ Detach /\ UNCHANGED own /\ act' = [op |-> "reset"]
SetLevel(l) == /\ Cfg /\ l # g.lv /\ g' = [g EXCEPT !.lv = l] /\ UNCHANGED <<held, own>> /\ act' = [op |-> "setLevel", l |-> l]
Hold == /\ Cfg /\ Holds /\ held.lv # "same" /\ held' = [lv |-> "same", px |-> "same"] /\ UNCHANGED <<g, own>> /\ act' = [op |-> "hold"]
Own(l, p) == /\ Cfg /\ Holds /\ own' = [lv |-> l, px |-> p] /\ UNCHANGED <<g, held>> /\ act' = [op |-> "own", l |-> l, p |-> p]
Target(w) == CASE w = "global" -> g [] w = "held" -> IF held.lv = "same" THEN g ELSE held [] w = "own" -> own
Log(w, m) == /\ g # None /\ logs < MaxLogs /\ Target(w) # None /\ logs' = logs + 1 /\ UNCHANGED <<g, held, own, cfgs>>
             /\ act' = [op |-> "log", w |-> w, m |-> m]
SdkOp(s) == /\ g # None /\ logs < MaxLogs /\ logs' = logs + 1 /\ UNCHANGED <<g, held, own, cfgs>>
            /\ act' = [op |-> "sdk", s |-> s]
Next == \/ \E d \in Debugs, l \in EnvLevels : Load([d |-> d, l |-> l])
        \/ \E l \in Levels, p \in Prefixes : Configure(l, p) \/ Own(l, p)
        \/ \E l \in Levels : SetLevel(l)
        \/ Reset \/ Hold
        \/ \E w \in {"global", "held", "own"}, m \in Methods : Log(w, m)
        \/ \E s \in Sdk : SdkOp(s)
Spec == Init /\ [][Next]_vars
Allowed(t, m) == Rank(m) >= Rank(t.lv)
Printed == CASE act'.op = "log" -> LET t == Target(act'.w) IN IF Allowed(t, act'.m) THEN act'.m \o " " \o t.px ELSE "nothing"
             [] act'.op = "sdk" -> IF Allowed(g, act'.s) THEN act'.s \o " " \o g.px ELSE "nothing"
             [] OTHER -> "nothing"
Obs == [printed |-> Printed, level |-> g'.lv, ok |-> "ok"]
C32_None == [][(act'.op = "log" /\ Target(act'.w).lv = "NONE") => Obs.printed = "nothing"]_vars
St == [g |-> g, h |-> held, o |-> own, c |-> cfgs, n |-> logs]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
=========================================================================
