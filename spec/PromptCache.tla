---------------------------- MODULE PromptCache ----------------------------
(* Prompt lookups with caching, stale-while-revalidate, fallback and        *)
(* invalidation (packages/client/src/prompt). Time is in milliseconds.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Sels,     \* prompt names; selectors ("none" means production)
          Ttls,            \* TTL options of get, seconds; 9999: not given (default 60)
          Fallbacks,       \* "no", "text", "chat"
          Steps,           \* clock advances, ms
          MaxGets, MaxOps, MaxAdvances, MaxFails

VARIABLES now, cache, gen, fetches, refreshing, gets, ops, advances, fails, act
vars == <<now, cache, gen, fetches, refreshing, gets, ops, advances, fails, act>>

Norm(sel) == IF sel = "none" THEN "prod" ELSE sel
Keys == Names \X {Norm(s) : s \in Sels}
NoEntry == [val |-> 0, exp |-> 0]
TtlMs(t) == IF t = 9999 THEN 60000 ELSE t * 1000

Init == /\ now = 0 /\ cache = [k \in Keys |-> NoEntry] /\ gen = [n \in Names |-> 0]
        /\ fetches = <<>> /\ refreshing = {} /\ gets = <<>> /\ ops = <<>>
        /\ advances = 0 /\ fails = 0 /\ act = [op |-> "init"]

Fetch(k, sel, kind, ttl, g) == [k |-> k, sel |-> sel, kind |-> kind, ttl |-> ttl, gen |-> gen[k[1]], get |-> g, st |-> "out"]

Get(n, sel, ttl, fb) ==
  /\ Len(gets) < MaxGets
  /\ LET k == <<n, Norm(sel)>>
         e == cache[k]
         g == Len(gets) + 1
     IN IF e = NoEntry \/ ttl = 0
        THEN /\ fetches' = Append(fetches, Fetch(k, sel, "get", ttl, g))
             /\ gets' = Append(gets, [k |-> k, sel |-> sel, fb |-> fb, st |-> "pending", val |-> 0, gen |-> gen[n], src |-> "net"])
             /\ UNCHANGED refreshing
        ELSE /\ gets' = Append(gets, [k |-> k, sel |-> sel, fb |-> fb, st |-> "value", val |-> e.val, gen |-> gen[n], src |-> "cache"])
             /\ IF now > e.exp /\ k \notin refreshing
                THEN /\ fetches' = Append(fetches, Fetch(k, sel, "refresh", ttl, 0))
                     /\ refreshing' = refreshing \cup {k}
                ELSE UNCHANGED <<fetches, refreshing>>
  /\ act' = [op |-> "get", name |-> n, sel |-> sel, ttl |-> ttl, fb |-> fb]
  /\ UNCHANGED <<now, cache, gen, ops, advances, fails>>

ReplyOk(i) ==
  /\ fetches[i].st = "out"
  /\ LET f == fetches[i]
     IN /\ fetches' = [fetches EXCEPT ![i].st = "ok"]
        /\ cache' = IF gen[f.k[1]] = f.gen THEN [cache EXCEPT ![f.k] = [val |-> i, exp |-> now + TtlMs(f.ttl)]] ELSE cache
        /\ gets' = IF f.kind = "get" THEN [gets EXCEPT ![f.get].st = "value", ![f.get].val = i] ELSE gets
        /\ refreshing' = IF f.kind = "refresh" THEN refreshing \ {f.k} ELSE refreshing
  /\ act' = [op |-> "replyOk", i |-> i]
  /\ UNCHANGED <<now, gen, ops, advances, fails>>

ReplyFail(i) ==
  /\ fetches[i].st = "out" /\ fails < MaxFails /\ fails' = fails + 1
  /\ LET f == fetches[i]
     IN /\ fetches' = [fetches EXCEPT ![i].st = "failed"]
        /\ gets' = IF f.kind = "get"
                   THEN [gets EXCEPT ![f.get].st = IF gets[f.get].fb = "no" THEN "rejected" ELSE "fallback"]
                   ELSE gets
        /\ refreshing' = IF f.kind = "refresh" THEN refreshing \ {f.k} ELSE refreshing
  /\ act' = [op |-> "replyFail", i |-> i]
  /\ UNCHANGED <<now, cache, gen, ops, advances>>

StartOp(kind, n) ==
  /\ Len(ops) < MaxOps
  /\ ops' = Append(ops, [kind |-> kind, n |-> n, st |-> "out"])
  /\ act' = [op |-> "start", kind |-> kind, name |-> n]
  /\ UNCHANGED <<now, cache, gen, fetches, refreshing, gets, advances, fails>>

OpOk(j) ==
  /\ ops[j].st = "out" /\ ops' = [ops EXCEPT ![j].st = "ok"]
  /\ gen' = [gen EXCEPT ![ops[j].n] = @ + 1]
  /\ cache' = [k \in Keys |-> IF k[1] = ops[j].n THEN NoEntry ELSE cache[k]]
  /\ act' = [op |-> "opOk", j |-> j]
  /\ UNCHANGED <<now, fetches, refreshing, gets, advances, fails>>

OpFail(j) ==
  /\ ops[j].st = "out" /\ fails < MaxFails /\ fails' = fails + 1
  /\ ops' = [ops EXCEPT ![j].st = "failed"]
  /\ act' = [op |-> "opFail", j |-> j]
  /\ UNCHANGED <<now, cache, gen, fetches, refreshing, gets, advances>>

Advance(d) ==
  /\ advances < MaxAdvances /\ advances' = advances + 1
  /\ \A j \in DOMAIN ops : ops[j].st # "out"     \* (their transport timeout is out of scope)
  /\ now' = now + d /\ act' = [op |-> "advance", d |-> d]
  /\ UNCHANGED <<cache, gen, fetches, refreshing, gets, ops, fails>>

Next == \/ \E n \in Names, s \in Sels, t \in Ttls, fb \in Fallbacks : Get(n, s, t, fb)
        \/ \E i \in DOMAIN fetches : ReplyOk(i) \/ ReplyFail(i)
        \/ \E kind \in {"update", "delete"}, n \in Names : StartOp(kind, n)
        \/ \E j \in DOMAIN ops : OpOk(j) \/ OpFail(j)
        \/ \E d \in Steps : Advance(d)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Out(k) == {i \in DOMAIN fetches : fetches[i].st = "out" /\ fetches[i].kind = "refresh" /\ fetches[i].k = k}
C04_SingleRefresh == \A k \in Keys : Cardinality(Out(k)) <= 1 /\ ((k \in refreshing) <=> (Out(k) # {}))
(* a get served from a fresh entry issues no request; one served from an expired entry leaves a refresh running *)
C04_Step == [][ \A n \in Names, s \in Sels : \A t \in Ttls, fb \in Fallbacks :
     (act' = [op |-> "get", name |-> n, sel |-> s, ttl |-> t, fb |-> fb] /\ Len(gets') > Len(gets)) =>
       LET k == <<n, Norm(s)>> e == cache[k] IN
         /\ (e # NoEntry /\ t # 0 /\ now <= e.exp) => (fetches' = fetches /\ gets'[Len(gets')].val = e.val)
         /\ (e # NoEntry /\ t # 0 /\ now > e.exp) => (gets'[Len(gets')].val = e.val /\ k \in refreshing')
         /\ (e = NoEntry \/ t = 0) => Len(fetches') = Len(fetches) + 1 ]_vars
C04_FailKeeps == [][ (act'.op = "replyFail") => cache' = cache ]_vars
C05_Right == \A g \in DOMAIN gets : gets[g].st = "value" => fetches[gets[g].val].k = gets[g].k /\ fetches[gets[g].val].st = "ok"
(* every value obtained by a get comes from a request sent after the last invalidation preceding the get *)
C06_NotOutdated == \A g \in DOMAIN gets : (gets[g].st = "value" /\ gets[g].src = "cache") => fetches[gets[g].val].gen >= gets[g].gen
C06_Others == [][ act'.op \in {"opOk", "opFail"} =>
                   \A k \in Keys : (act'.op = "opFail" \/ k[1] # ops[act'.j].n) => cache'[k] = cache[k] ]_vars
C07_Fallback == \A g \in DOMAIN gets : /\ gets[g].st = "fallback" => gets[g].fb # "no"
                                       /\ gets[g].st = "rejected" => gets[g].fb = "no"
C07_NeverCached == \A k \in Keys : cache[k] # NoEntry => fetches[cache[k].val].st = "ok"

St == [n |-> now, c |-> [k \in Names |-> [s \in {Norm(x) : x \in Sels} |-> cache[<<k, s>>]]], g |-> gen, f |-> fetches, r |-> refreshing, x |-> gets, o |-> ops, a |-> advances, q |-> fails]
Obs == [requests |-> [i \in DOMAIN fetches' |-> <<fetches'[i].k[1], fetches'[i].sel>>],
        ops |-> [j \in DOMAIN ops' |-> <<ops'[j].kind, ops'[j].n, ops'[j].st>>],
        gets |-> [g \in DOMAIN gets' |-> <<gets'[g].st, gets'[g].val>>],
        content |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<now, cache, gen, fetches, refreshing, gets, ops, advances, fails>>
=============================================================================
