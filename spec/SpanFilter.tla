---------------------------- MODULE SpanFilter ----------------------------
(* Which spans the default filter selects (packages/otel/src/span-filter.ts) *)
(* by instrumentation scope and attributes. A scope is pre \o base \o post.  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Others
VARIABLES act
Tree == {"langfuse-sdk", "agent_framework", "haystack", "langsmith", "litellm", "openinference", "strands-agents", "vllm",
  "opentelemetry.instrumentation.anthropic", "opentelemetry.instrumentation.aws_bedrock", "opentelemetry.instrumentation.bedrock",
  "opentelemetry.instrumentation.gemini", "opentelemetry.instrumentation.google_genai", "opentelemetry.instrumentation.google_generativeai",
  "opentelemetry.instrumentation.openai", "opentelemetry.instrumentation.openai_v2", "opentelemetry.instrumentation.vertex_ai", "opentelemetry.instrumentation.vertexai"}
Exact == {"ai"}
Pres == {"", "x", "my."}
Posts == {"", ".x", ".", "x", "-x", "_x", "/x", " "}
Attrs == {"none", "gen_start", "gen_late", "gen_bare", "gen_inner", "lf_attr", "gen_undef", "gen_zero", "gen_false", "gen_empty"}
Gen == {"gen_start", "gen_late", "gen_zero", "gen_false", "gen_empty"}
Known(pre, base, post) ==
  pre = "" /\ ((base \in Tree /\ post \in {"", ".x", "."}) \/ (base \in Exact /\ post = ""))
Selected(pre, base, post, at) == Known(pre, base, post) \/ at \in Gen
Next == act.op = "init" /\ \E pre \in Pres, base \in Tree \cup Exact \cup Others, post \in Posts, at \in Attrs :
          act' = [op |-> "case", pre |-> pre, base |-> base, post |-> post, at |-> at]
Init == act = [op |-> "init"]
Spec == Init /\ [][Next]_act
C09_Foreign == act.op = "case" => ((Selected(act.pre, act.base, act.post, act.at) /\ act.at \notin Gen) => act.base \in Tree \cup Exact)
Export == PrintT(ToJson([s |-> 0, a |-> act', t |-> 0, o |-> [exported |-> Selected(act'.pre, act'.base, act'.post, act'.at)]]))
View == act
=============================================================================
