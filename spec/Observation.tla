---------------------------- MODULE Observation ----------------------------
(* Attributes of observations (packages/tracing): creation values overlaid *)
(* by updates in order until the observation ends.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Fields, AnyKinds, TextKinds, ObjKinds, PromptKinds, TimeKinds, MetaKinds, WholeKinds,
          PatchSize, MaxObs, MaxUpdates, CreateVias, UpdateVias

AllFields == {"input", "output", "level", "statusMessage", "version", "environment", "model",
              "modelParameters", "usageDetails", "costDetails", "prompt", "completionStartTime",
              "meta.a", "meta.b", "metadata", "traceInput", "traceOutput", "public"}
Kinds(f) == CASE f \in {"input", "output", "traceInput", "traceOutput"} -> AnyKinds
              [] f \in {"level", "statusMessage", "version", "environment", "model"} -> TextKinds
              [] f \in {"modelParameters", "usageDetails", "costDetails"} -> ObjKinds
              [] f = "prompt" -> PromptKinds
              [] f = "public" -> {"on"}
              [] f = "completionStartTime" -> TimeKinds
              [] f \in {"meta.a", "meta.b"} -> MetaKinds
              [] OTHER -> WholeKinds

VARIABLES obs, n, act
vars == <<obs, n, act>>
Init == obs = <<>> /\ n = 0 /\ act = [op |-> "init"]

(* Nothing given, nothing recorded; what cannot be serialised gives a notice. *)
Absent == {"undef", "null", "fn", "sym", "fallback"}
Failing == {"cyc", "big", "badjson", "thr", "thrproxy"}
Eff(old, k) == IF k \in Absent THEN old ELSE IF k \in Failing THEN "notice" ELSE k

Trace(f) == f \in {"traceInput", "traceOutput", "public"}
Compatible(S) == /\ ~("metadata" \in S /\ S \cap {"meta.a", "meta.b"} # {})
                 /\ (\E f \in S : Trace(f)) => (\A f \in S : Trace(f))
Patches == UNION {{p \in [S -> UNION {Kinds(f) : f \in S}] : \A f \in S : p[f] \in Kinds(f)}
                    : S \in {T \in SUBSET Fields : Cardinality(T) =< PatchSize /\ Compatible(T)}}
IsTrace(p) == \E f \in DOMAIN p : Trace(f)
Apply(v, p) == [f \in DOMAIN v |-> IF f \in DOMAIN p THEN Eff(v[f], p[f]) ELSE v[f]]
Empty == [f \in Fields |-> "none"]
Export0(p) == {<<f, p[f]>> : f \in DOMAIN p}

Create(ty, via, par, p) ==
  /\ Len(obs) < MaxObs /\ UNCHANGED n
  /\ (via = "child") <=> par # 0
  /\ (via = "active") => p = <<>>
  /\ ~IsTrace(p)
  /\ obs' = Append(obs, [ty |-> ty, hty |-> ty, par |-> par, ended |-> ty = "event", v |-> Apply(Empty, p)])
  /\ act' = [op |-> "create", ty |-> ty, via |-> via, par |-> par, p |-> Export0(p)]

(* An update through the handle states the handle's type again.            *)
(* Updates after the end have no effect; events end at once. *)
Update(i, via, ty, p) ==
  /\ n < MaxUpdates /\ n' = n + 1
  /\ (obs[i].ty = "event") => via # "method" \/ IsTrace(p)
  /\ (via # "activeT") => ty = "span"
  /\ IsTrace(p) => via # "activeT"
  /\ obs' = IF obs[i].ended THEN obs
            ELSE [obs EXCEPT ![i].v = Apply(@, p), ![i].ty = IF via = "activeT" THEN ty
                                                              ELSE IF via = "method" /\ ~IsTrace(p) THEN obs[i].hty ELSE @]
  /\ act' = [op |-> "update", i |-> i, via |-> via, ty |-> ty, p |-> Export0(p)]

End(i) == /\ ~obs[i].ended /\ obs' = [obs EXCEPT ![i].ended = TRUE] /\ UNCHANGED n
          /\ act' = [op |-> "end", i |-> i]

(* An update while no observation is active has no effect. *)
Void(ty, p) == /\ n < MaxUpdates /\ n' = n + 1 /\ UNCHANGED obs /\ "void" \in UpdateVias
               /\ act' = [op |-> "update", i |-> 0, via |-> "void", ty |-> ty, p |-> Export0(p)]

Next == \/ \E ty \in Types, via \in CreateVias, par \in 0..Len(obs), p \in Patches : Create(ty, via, par, p)
        \/ \E i \in DOMAIN obs, via \in UpdateVias \ {"void"}, ty \in Types \ {"event"} , p \in Patches : Update(i, via, ty, p)
        \/ \E i \in DOMAIN obs : End(i)
        \/ \E ty \in Types \ {"event"}, p \in Patches : Void(ty, p)
Spec == Init /\ [][Next]_vars

C17_Frozen == [][ \A i \in DOMAIN obs : obs[i].ended => obs'[i] = obs[i] ]_vars
C17_Keeps  == [][ \A i \in DOMAIN obs : \A f \in Fields : obs[i].v[f] # "none" => obs'[i].v[f] # "none" ]_vars
C17_Isolated == [][ act'.op = "update" => \A j \in DOMAIN obs : j # act'.i => obs'[j] = obs[j] ]_vars
C17_Notice == \A i \in DOMAIN obs : \A f \in Fields : obs[i].v[f] \notin Absent \cup Failing

St == [o |-> obs, n |-> n]
Shown(o) == [ty |-> o.ty, par |-> o.par, ended |-> o.ended, v |-> o.v]
Obs == [obs |-> [i \in DOMAIN obs' |-> Shown(obs'[i])], ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<obs, n>>
=============================================================================
