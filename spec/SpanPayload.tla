---------------------------- MODULE SpanPayload ----------------------------
(* What happens to the attributes of one ended span before export           *)
(* (packages/otel): masking of payload attributes, then replacement of      *)
(* inline media. A value is a sequence of tokens; the driver chooses texts. *)
(*   t text, s secret text, d text with replacement patterns, dt text that  *)
(*   looks like a data URI prefix, e existing reference, m* malformed URIs; *)
(*   u1 u2 media, u1x media whose URI starts with the URI of u1,            *)
(*   u1q the bytes of u1 under another type, many a dozen further media;    *)
(*   emp, sp stand for a whole empty or blank-padded secret attribute       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Mode, Deep

VARIABLES act
Payload == {"in", "tin", "out", "tout", "md", "tmd", "mdk", "tmdk", "num"}   \* num: a number, token n
Other == {"other", "model", "status", "user", "name"}
Field(k) == IF k \in {"in", "tin"} THEN "input" ELSE IF k \in {"out", "tout"} THEN "output" ELSE "metadata"
Media == {"u1", "u2", "u1x", "u1q", "many"}
RefOf == [u1 |-> "r1", u2 |-> "r2", u1x |-> "r1x", u1q |-> "r1q", many |-> "rany"]
ToRef(t) == IF t \in Media THEN RefOf[t] ELSE t

Has(v, t) == \E i \in DOMAIN v : v[i] = t
Masked(b, v) ==
  CASE b \in {"none", "id", "aid"}   -> v
    [] b \in {"red", "ared", "slow"} -> [i \in DOMAIN v |-> IF v[i] = "s" THEN "x" ELSE IF v[i] = "sp" THEN "xp" ELSE v[i]]
    [] b \in {"throw", "reject", "late"} -> <<"notice">>
    [] b = "partial"                 -> IF Has(v, "s") \/ Has(v, "sp") THEN <<"notice">> ELSE v
    [] b = "const"                   -> <<"c">>
    [] b \in {"undef", "null", "obj"} -> <<b>>
    [] b = "inject"                  -> v \o <<"u2">>
    [] b = "strip"                   -> SelectSeq(v, LAMBDA t : t \notin Media)

AfterMask(k, v, b) == IF k \in Payload THEN Masked(b, v) ELSE v
Final(k, v, b, on) == LET w == AfterMask(k, v, b) IN IF on /\ k \in Payload THEN [i \in DOMAIN w |-> ToRef(w[i])] ELSE w
Uploads(attrs, b, on) ==
  IF ~on THEN {} ELSE
  UNION {LET w == AfterMask(attrs[i][1], attrs[i][2], b)
         IN IF attrs[i][1] \notin Payload THEN {} ELSE {<<Field(attrs[i][1]), w[j]>> : j \in {j \in DOMAIN w : w[j] \in Media}} : i \in DOMAIN attrs}

Toks == {"t", "d", "dt", "e", "m1", "m2", "m3", "m4", "m5", "u1", "u2", "u1x", "u1q", "many"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Behaviours == {"none", "id", "aid", "red", "ared", "slow", "throw", "reject", "late", "partial", "const", "inject", "strip", "undef", "null", "obj"}
Attrs ==
  CASE Mode = "mask" -> {<< <<"num", <<"n">> >>, <<k, <<"s">> >> >> : k \in {"in", "tmdk", "other"}} \cup {<< <<k, v>> >> : k \in (Payload \cup Other) \ {"num"}, v \in {<<"s">>, <<"emp">>, <<"sp">>, <<"t", "s", "u1">>, <<"u1">>, <<"t">>, <<"s", "u1", "s", "u2">>}}
                   \cup {<< <<k1, <<"s">> >>, <<k2, v2>> >> : k1, k2 \in (Payload \cup Other) \ {"num"}, v2 \in {<<"s", "u2">>, <<"t">>}}
    [] Mode = "media" -> {<< <<k, v>> >> : k \in (Payload \cup {"other"}) \ {"num"}, v \in SeqsUpTo(Toks, 2)}
                   \cup {<< <<k, v>> >> : k \in IF Deep THEN Payload \ {"num"} ELSE {"in", "mdk"}, v \in SeqsUpTo(Toks, 3)}
    [] Mode = "pairs" -> {<< <<p[1], v>>, <<p[2], w>> >> : p \in {<<"in", "out">>, <<"in", "mdk">>, <<"md", "tmdk">>, <<"tin", "tout">>, <<"other", "in">>},
                                                         v, w \in SeqsUpTo({"t", "u1", "u2", "u1x"}, 2)}
Bs == IF Mode = "mask" THEN Behaviours ELSE {"none"}
Ons == IF Mode = "mask" THEN BOOLEAN ELSE {TRUE}

Case(attrs, b, on) == act' = [op |-> "case", attrs |-> attrs, mask |-> b, media |-> on]
Next == act.op = "init" /\ \E attrs \in Attrs, b \in Bs, on \in Ons :
           (\A i, j \in DOMAIN attrs : i # j => attrs[i][1] # attrs[j][1])
           /\ (b \in {"inject", "strip"} => \A i \in DOMAIN attrs : attrs[i][1] # "num") /\ Case(attrs, b, on)
Init == act = [op |-> "init"]
Spec == Init /\ [][Next]_act
----------------------------------------------------------------------------
IsCase == act.op = "case"
Outs == [i \in DOMAIN act.attrs |-> Final(act.attrs[i][1], act.attrs[i][2], act.mask, act.media)]
(* a masking mask leaves no secret in any payload *)
C10_NoSecret == IsCase /\ act.mask \in {"red", "ared", "slow", "throw", "reject", "late", "partial", "const", "undef", "null", "obj"} =>
                  \A i \in DOMAIN act.attrs : act.attrs[i][1] \in Payload => ~Has(Outs[i], "s") /\ ~Has(Outs[i], "sp")
C10_Others == IsCase => \A i \in DOMAIN act.attrs : act.attrs[i][1] \notin Payload => Outs[i] = act.attrs[i][2]
(* media removed by the mask is not uploaded either *)
C10_Upload == IsCase /\ act.mask \in {"throw", "reject", "late", "const", "strip", "undef", "null", "obj"} => Uploads(act.attrs, act.mask, act.media) = {}
C11_NoInline == IsCase /\ act.media => \A i \in DOMAIN act.attrs : act.attrs[i][1] \in Payload => \A j \in DOMAIN Outs[i] : Outs[i][j] \notin Media
C11_Kept == IsCase /\ act.mask = "none" => \A i \in DOMAIN act.attrs : Len(Outs[i]) = Len(act.attrs[i][2])
               /\ \A j \in DOMAIN Outs[i] : act.attrs[i][2][j] \notin Media => Outs[i][j] = act.attrs[i][2][j]
C11_Uploaded == IsCase /\ act.media => \A i \in DOMAIN act.attrs : \A u \in Media :
                  (act.attrs[i][1] \in Payload /\ Has(Outs[i], RefOf[u])) => \E x \in Uploads(act.attrs, act.mask, TRUE) : x[2] = u

Obs == [attrs |-> [i \in DOMAIN act'.attrs |-> Final(act'.attrs[i][1], act'.attrs[i][2], act'.mask, act'.media)],
        uploads |-> Uploads(act'.attrs, act'.mask, act'.media), span |-> "exported"]
Export == PrintT(ToJson([s |-> 0, a |-> act', t |-> 0, o |-> Obs]))
View == act
=============================================================================
