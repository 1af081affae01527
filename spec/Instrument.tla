----------------------------- MODULE Instrument -----------------------------
(* Instrumented execution (packages/tracing): observe() and                 *)
(* startActiveObservation() around synchronous and asynchronous code.       *)
(* A frame is one instrumented call. Asynchronous frames stay running and   *)
(* interleave; synchronous ones settle within the call. The model says what *)
(* the caller gets and what the frame's observation shows.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFrames, MaxKids, Apis, Styles, Types, Eoe, Caps, Parents, Argss, Rets, Errs, Nests

VARIABLES frames, kids, act
vars == <<frames, kids, act>>

Init == frames = <<>> /\ kids = <<>> /\ act = [op |-> "init"]

Outcomes == [k : {"ret"}, v : Rets] \cup [k : {"err"}, v : Errs]
Running == {i \in DOMAIN frames : frames[i].st = "run"}
Flows == {0} \cup Running

(* what the observation shows about an outcome, when it is still open *)
OutOf(f, o) == IF f.api # "observe" \/ ~f.cout THEN "none"
               ELSE IF o.k = "err" THEN "error:" \o o.v
               ELSE IF o.v \in {"undef", "null", "fn", "sym"} THEN "none"
               ELSE IF o.v \in {"cyc", "big"} THEN "notice" ELSE o.v
InOf(api, args, cap) ==
  IF api # "observe" \/ ~cap THEN "none"
  ELSE IF args \in {"zero", "empty", "obj", "pair"} THEN args
  ELSE IF args = "cyc" THEN "notice" ELSE "none"
Failed(f, o) == [f EXCEPT !.fail = IF f.ended \/ o.k = "ret" THEN "" ELSE o.v,
                          !.out = IF f.ended THEN f.out ELSE OutOf(f, o),
                          !.st = o.k, !.val = o.v,
                          !.ended = f.ended \/ f.eoe]
Frame(api, par, ty, eoe, cap, args) ==
  [api |-> api, par |-> par, ty |-> ty, eoe |-> eoe, cout |-> cap \in {"both", "out"},
   st |-> "run", val |-> "", ended |-> ty = "event", fail |-> "",
   out |-> "none", in |-> InOf(api, args, cap \in {"both", "in"})]

Caps_(api) == IF api = "observe" THEN Caps ELSE {"both"}
Args_(api) == IF api = "observe" THEN Argss ELSE {"none"}

CallAsync(c, api, ty, eoe, cap, args, p) ==
  /\ Len(frames) < MaxFrames
  /\ frames' = Append(frames, Frame(api, IF p = "ctx" THEN c ELSE 99, ty, eoe, cap, args))
  /\ UNCHANGED kids
  /\ act' = [op |-> "async", c |-> c, api |-> api, ty |-> ty, eoe |-> eoe, cap |-> cap, args |-> args, p |-> p]

(* A synchronous call; it may itself make one instrumented synchronous call  *)
(* (whose outcome it passes on) or start one child by hand.                  *)
CallSync(c, api, ty, eoe, cap, args, p, o, nest) ==
  LET me == Len(frames) + 1
      f == Failed(Frame(api, IF p = "ctx" THEN c ELSE 99, ty, eoe, cap, args), o)
      g == Failed(Frame(nest, me, "span", TRUE, "both", "none"), o)
  IN /\ Len(frames) + (IF nest \in Apis THEN 2 ELSE 1) =< MaxFrames
     /\ (nest = "kid") => Len(kids) < MaxKids
     /\ frames' = IF nest \in Apis THEN frames \o <<f, g>> ELSE Append(frames, f)
     /\ kids' = IF nest = "kid" THEN Append(kids, me) ELSE kids
     /\ act' = [op |-> "sync", c |-> c, api |-> api, ty |-> ty, eoe |-> eoe, cap |-> cap, args |-> args, p |-> p, out |-> o, nest |-> nest]

Kid(c) == /\ Len(kids) < MaxKids /\ kids' = Append(kids, c) /\ UNCHANGED frames
          /\ act' = [op |-> "kid", c |-> c]
Settle(i, o) == /\ i \in Running /\ frames' = [frames EXCEPT ![i] = Failed(@, o)] /\ UNCHANGED kids
                /\ act' = [op |-> "settle", i |-> i, out |-> o]
End(i) == /\ ~frames[i].eoe /\ ~frames[i].ended
          /\ frames' = [frames EXCEPT ![i].ended = TRUE] /\ UNCHANGED kids
          /\ act' = [op |-> "end", i |-> i]

Next == \/ \E c \in Flows, api \in Apis, ty \in Types, eoe \in Eoe, p \in Parents :
             \E cap \in Caps_(api), args \in Args_(api) :
               \/ "async" \in Styles /\ CallAsync(c, api, ty, eoe, cap, args, p)
               \/ "sync" \in Styles /\ \E o \in Outcomes, n \in Nests : CallSync(c, api, ty, eoe, cap, args, p, o, n)
        \/ \E c \in Flows : Kid(c)
        \/ \E i \in Running, o \in Outcomes : (o.v # "thenable") /\ Settle(i, o)
        \/ \E i \in DOMAIN frames : End(i)
Spec == Init /\ [][Next]_vars

(* ---- properties of the design ---- *)
C16_EndedIffSettled == \A i \in DOMAIN frames : frames[i].eoe /\ frames[i].ty # "event" => (frames[i].ended <=> frames[i].st # "run")
C16_ErrorShown == \A i \in DOMAIN frames : frames[i].eoe /\ frames[i].ty # "event" => (frames[i].st = "err" <=> frames[i].fail # "")
C16_Once == [][ \A i \in DOMAIN frames : /\ frames[i].ended => frames'[i].ended
                                         /\ frames[i].st # "run" => frames'[i] = [frames[i] EXCEPT !.ended = frames'[i].ended] ]_vars

Shown(f) == [st |-> f.st, val |-> f.val, ended |-> f.ended, par |-> f.par, ty |-> f.ty, fail |-> f.fail, out |-> f.out, in |-> f.in]
St == [f |-> frames, k |-> kids]
Obs == [frames |-> [i \in DOMAIN frames' |-> Shown(frames'[i])], kids |-> kids', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<frames, kids>>
=============================================================================
