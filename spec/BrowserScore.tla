---------------------------- MODULE BrowserScore ----------------------------
(* The browser client (packages/browser): one request per score, resolved    *)
(* only by an acknowledgement of that very score.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bodies, HeaderSets, Answers, MaxCalls

VARIABLES cfg,   \* header set of the client, chosen first
          st,    \* per call: "none", "sent", "resolved", "rejected"
          sent,  \* requests so far
          act
vars == <<cfg, st, sent, act>>
Init == cfg = "unset" /\ st = [i \in 1..MaxCalls |-> "none"] /\ sent = 0 /\ act = [op |-> "init"]

(* an answer is what the server did; acknowledgements name the calls they list *)
Statuses2xx == {"s200", "s201", "s207"}
Lists == {"me", "other", "none", "othermine", "null", "strange", "score"}       \* what "successes" lists
Errs == {"noerr", "myerr", "othererr", "nullerr"}
Acks == {[k |-> "ack", s |-> s, ok |-> l, err |-> e] : s \in Statuses2xx, l \in Lists, e \in Errs}
Broken == {[k |-> "broken", b |-> b] : b \in {"empty", "notjson", "jsonnull", "jsonarray", "nosucc", "noerrs", "nullerrs", "nullsucc", "succobj", "errsobj", "number", "unreadable"}}
Failed == {[k |-> "http", s |-> s, b |-> b] : s \in {304, 400, 401, 404, 429, 500, 503}, b \in {"json", "text", "empty", "unreadable", "ack"}}
Net == {[k |-> "net", b |-> b] : b \in {"reject", "nonerror"}}
AnswerSet == UNION {IF x = "acks" THEN Acks ELSE IF x = "broken" THEN Broken ELSE IF x = "http" THEN Failed ELSE IF x = "net" THEN Net
                    ELSE {a \in Acks : a.s = "s207" /\ a.ok \in {"me", "other", "othermine"} /\ a.err \in {"noerr", "othererr"}} : x \in Answers}
Acknowledged(a) == a.k = "ack" /\ a.ok \in {"me", "othermine"} /\ a.err = "noerr"

Configure(h) == cfg = "unset" /\ cfg' = h /\ act' = [op |-> "configure", h |-> h] /\ UNCHANGED <<st, sent>>
Unsendable == {"cyclic", "bigint"}
Call(i, b) == /\ cfg # "unset" /\ st[i] = "none" /\ (\A j \in 1..(i - 1) : st[j] # "none")
              /\ act' = [op |-> "score", i |-> i, b |-> b] /\ st' = [st EXCEPT ![i] = IF b \in Unsendable THEN "rejected" ELSE "sent"]
              /\ sent' = (IF b \in Unsendable THEN sent ELSE sent + 1) /\ UNCHANGED cfg
Answer(i, a) == /\ st[i] = "sent" /\ act' = [op |-> "answer", i |-> i, a |-> a] /\ st' = [st EXCEPT ![i] = IF Acknowledged(a) THEN "resolved" ELSE "rejected"] /\ UNCHANGED <<cfg, sent>>
Next == \/ \E h \in HeaderSets : Configure(h)
        \/ \E i \in 1..MaxCalls : (\E b \in Bodies : Call(i, b)) \/ (\E a \in AnswerSet : Answer(i, a))
Spec == Init /\ [][Next]_vars

C26_OneRequestPerCall == sent =< Cardinality({i \in DOMAIN st : st[i] # "none"})
C26_ResolvedOnlyIfAcknowledged == [][\A i \in DOMAIN st : (st[i] # "resolved" /\ st'[i] = "resolved") => act'.op = "answer" /\ act'.i = i /\ Acknowledged(act'.a)]_vars
C26_Final == [][\A i \in DOMAIN st : st[i] \in {"resolved", "rejected"} => st'[i] = st[i]]_vars

St == [c |-> cfg, s |-> st, n |-> sent]
Obs == [st |-> st', sent |-> sent', ok |-> "ok"]
Export == PrintT(ToJson([s |-> St, a |-> act', t |-> St', o |-> Obs]))
View == <<cfg, st, sent>>
=============================================================================
