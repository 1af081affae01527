----------------------------- MODULE AiSdkMedia ----------------------------
(* Media inside the message attributes of the Vercel AI SDK (packages/otel).*)
(* Parts: txt text; txtb text that contains the characters of b1; b1 b2     *)
(* base64 content; i1 base64 in the image field; d1 data URI; http a URL;   *)
(* dnb dnone data URIs without base64 content; nomt without media type; bad content that is not base64; oth other kind  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen
VARIABLE act
Attrs == {"ai.prompt.messages", "ai.prompt", "gen_ai.input.messages", "gen_ai.output.messages"}
V6(a) == a \in {"ai.prompt.messages", "ai.prompt"}
Parts == {"txt", "txtb", "b1", "b2", "i1", "d1", "http", "nomt", "bad", "oth", "dnb", "dnone"}
Content == [b1 |-> "c1", b2 |-> "c2", i1 |-> "c1", d1 |-> "c3"]
Seqs == UNION {[1..n -> Parts] : n \in 1..MaxLen}
Handled(scope, p) == scope \in {"ai", "gen_ai"} /\ p \in DOMAIN Content
Out(scope, parts) == [i \in DOMAIN parts |-> IF Handled(scope, parts[i]) THEN "ref" ELSE "same"]
Ups(scope, parts) == {Content[parts[i]] : i \in {i \in DOMAIN parts : Handled(scope, parts[i])}}
Field(a) == IF a = "gen_ai.output.messages" THEN "output" ELSE "input"
Init == act = [op |-> "init"]
Next == act.op = "init" /\ \E a \in Attrs, scope \in {"ai", "gen_ai", "other"}, parts \in Seqs :
           /\ (~V6(a) => \A i \in DOMAIN parts : parts[i] # "i1")
           /\ (scope = "other" => Len(parts) <= 2)
           /\ act' = [op |-> "case", attr |-> a, scope |-> scope, parts |-> parts]
Spec == Init /\ [][Next]_act
C11_AiKept == act.op = "case" => \A i \in DOMAIN act.parts : act.parts[i] \in {"txt", "txtb", "http", "nomt", "bad", "oth", "dnb", "dnone"} => Out(act.scope, act.parts)[i] = "same"
Obs == [out |-> Out(act'.scope, act'.parts), uploads |-> {<<Field(act'.attr), c>> : c \in Ups(act'.scope, act'.parts)}, span |-> "ok"]
Export == PrintT(ToJson([s |-> 0, a |-> act', t |-> 0, o |-> Obs]))
View == act
=============================================================================
