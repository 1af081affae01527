----------------------------- MODULE MediaValue -----------------------------
(* Media values (packages/core/src/media.ts) and resolved media references.  *)
(* A media value is abstracted to its content (0 = none), its type ("" =     *)
(* none) and its source; contents are named by numbers, equal number = equal *)
(* bytes.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, Contents, Types, MaxSteps

VARIABLES ms,      \* media values made so far: sequence of [c, t, s]
          fetched, \* result of the last fetch through a resolved reference
          act
vars == <<ms, fetched, act>>
Init == ms = <<>> /\ fetched = "none" /\ act = [op |-> "init"]

None == [c |-> 0, t |-> "", s |-> ""]
(* the type a data URI declares is the part before the first parameter *)
Bare(t) == CASE t = "text/plain; charset=utf-8" -> "text/plain" [] OTHER -> t
Malformed == {"undefined", "null", "number", "empty", "noscheme", "nocomma", "notbase64", "notype", "looksbase64", "param", "badchars", "object"}
BadBytes == {"undefined", "null", "string", "number", "object"}
Shapes == {"array", "buffer", "view", "copy"}      \* ways to hand over the same bytes
UriShapes == {"plain", "param", "unpadded"}

Push(m) == ms' = Append(ms, m) /\ fetched' = "none"
FromBytes(c, t, sh) == act' = [op |-> "bytes", c |-> c, t |-> t, sh |-> sh] /\ Push([c |-> c, t |-> t, s |-> "bytes"])
FromUri(c, t, sh) == act' = [op |-> "uri", c |-> c, t |-> t, sh |-> sh] /\ Push([c |-> c, t |-> Bare(t), s |-> "base64_data_uri"])
FromBadUri(b) == act' = [op |-> "baduri", b |-> b] /\ Push([None EXCEPT !.s = "base64_data_uri"])
FromBadBytes(b) == act' = [op |-> "badbytes", b |-> b] /\ Push([None EXCEPT !.s = "bytes", !.t = "image/png"])
NoType(c) == act' = [op |-> "notype", c |-> c] /\ Push([c |-> c, t |-> "", s |-> "bytes"])
(* build a new value from the data URI, or the decoded bytes, of an earlier one *)
Again(i, how) == /\ i \in DOMAIN ms /\ ms[i].c > 0 /\ ms[i].t # "" /\ act' = [op |-> "again", i |-> i, how |-> how]
                 /\ Push(IF how = "uri" THEN [c |-> ms[i].c, t |-> Bare(ms[i].t), s |-> "base64_data_uri"] ELSE [c |-> ms[i].c, t |-> ms[i].t, s |-> "bytes"])
(* read the content through a resolved reference *)
Fetch(c, t, f, o) == /\ act' = [op |-> "fetch", c |-> c, t |-> t, f |-> f, o |-> o] /\ fetched' = (IF o = "ok" THEN f ELSE "rejected") /\ ms' = Append(ms, None)
Expiry(d, th) == /\ act' = [op |-> "expiry", d |-> d, th |-> th] /\ ms' = Append(ms, None)
                 /\ fetched' = IF d \in {"none", "junk"} THEN "valid" ELSE IF d = "past" \/ (d = "edge") \/ (d = "soon" /\ th = "default") THEN "expired" ELSE "valid"
Next == /\ Len(ms) < MaxSteps
        /\ \/ Mode = "make" /\ \E c \in Contents, t \in Types : (\E sh \in Shapes : FromBytes(c, t, sh)) \/ (\E sh \in UriShapes : FromUri(c, t, sh))
           \/ Mode = "make" /\ ((\E b \in Malformed : FromBadUri(b)) \/ (\E b \in BadBytes : FromBadBytes(b)) \/ (\E c \in Contents : NoType(c)))
           \/ Mode = "make" /\ \E i \in 1..2, how \in {"uri", "bytes"} : Again(i, how)
           \/ Mode = "ref" /\ ((\E c \in Contents, t \in Types, f \in {"bytes", "base64", "uri"}, o \in {"ok", "e404", "e500", "net", "body"} : Fetch(c, t, f, o)) \/ (\E d \in {"none", "junk", "past", "edge", "soon", "later"}, th \in {"default", "zero"} : Expiry(d, th)))
Spec == Init /\ [][Next]_vars

Id(m) == m.c                                   \* 0 = no id
Tag(m) == IF m.c = 0 \/ m.t = "" THEN "none" ELSE [id |-> m.c, type |-> m.t, source |-> m.s]
(* ids are a function of the content alone; a tag carries the value's own id, type and source *)
C27_IdIsContent == \A i, j \in DOMAIN ms : (Id(ms[i]) = Id(ms[j])) <=> (ms[i].c = ms[j].c)
C27_NoTagWithoutContent == \A i \in DOMAIN ms : (ms[i].c = 0 => Tag(ms[i]) = "none")
C27_RoundTrip == \A i \in DOMAIN ms : (ms[i].c > 0 /\ ms[i].t # "") => Tag(ms[i]).id = ms[i].c /\ Tag(ms[i]).type = ms[i].t

St == [m |-> ms, f |-> fetched]
Last == ms'[Len(ms')]
Obs == IF act'.op \in {"fetch", "expiry"} THEN [fetched |-> fetched', ok |-> "ok"]
       ELSE [id |-> Id(Last), tag |-> Tag(Last), uri |-> Last.c, len |-> Last.c, ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<ms, fetched>>
=============================================================================
