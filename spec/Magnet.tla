------------------------------- MODULE Magnet -------------------------------
(* Magnet links.  A link is a sequence of parameters, each a key with a value *)
(* (text and the way it is written); parsing gives the first value of each    *)
(* single field and all values of the repeated ones, in order.                *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS Keys,    \* parameter names
          Vals,    \* values per kind: [text |-> T, raw |-> R], written R, meaning T
          Lengths, \* values of xl: [raw |-> R, err |-> BOOLEAN, n |-> value as text]
          MaxParams,
          Counts,  \* how many parameters a long link has
          Prefixes \* [raw |-> what stands before the parameters, err |-> BOOLEAN]

VARIABLE s

Out == IOEnv.EDGES
Step(args, obs) == s' = s /\ CSVWrite("%1$s", <<ToJson([f |-> s, op |-> "parse", a |-> args, o |-> obs, t |-> s])>>, Out)

Param == {[k |-> k, v |-> v] : k \in Keys \ {"xl"}, v \in Vals} \cup {[k |-> "xl", v |-> v] : v \in (IF "xl" \in Keys THEN Lengths ELSE {})}
Links == UNION {[1..n -> Param] : n \in 0..MaxParams}

\* Long links: parameters of all kinds in turn, with long values here and there.
V(j) == ToString(j) \o (IF j % 10 = 0 THEN "http://a.long.example/with/a/path/of/many/components/announce/0123456789" ELSE "")
Cycles == {<<"tr">>, <<"x.pe">>, <<"tr", "x.pe">>, <<"dn", "tr", "xt", "x.pe", "tr", "ws">>, <<"xl", "tr">>, <<"zz", "tr", "x.pe", "Tr">>}
Long == {[j \in 1..n |-> LET k == cy[(j % Len(cy)) + 1] IN
            IF k = "xl" THEN [k |-> k, v |-> [raw |-> ToString(j), err |-> FALSE, text |-> ToString(j)]] ELSE [k |-> k, v |-> [text |-> V(j), raw |-> V(j)]]] : n \in Counts, cy \in Cycles}

Of(q, k) == SelectSeq(q, LAMBDA p : p.k = k)
First(q, k) == LET r == Of(q, k) IN IF r = <<>> THEN "" ELSE r[1].v.text
All(q, k) == LET r == Of(q, k) IN [j \in 1..Len(r) |-> r[j].v.text]
Bad(q) == LET r == Of(q, "xl") IN r # <<>> /\ r[1].v.err
Length(q) == LET r == Of(q, "xl") IN IF r = <<>> THEN "0" ELSE r[1].v.text
Raw(q) == [j \in 1..Len(q) |-> <<q[j].k, q[j].v.raw>>]

Parse == \E q \in Links \cup Long, pre \in Prefixes :
  Step([params |-> Raw(q), pre |-> pre.raw],
       IF pre.err \/ Bad(q) THEN [err |-> "error"]
       ELSE [err |-> "ok", xt |-> First(q, "xt"), dn |-> First(q, "dn"), xl |-> Length(q),
             ws |-> First(q, "ws"), tr |-> All(q, "tr"), pe |-> All(q, "x.pe")])

Init == s = "ready"
Next == Parse
=============================================================================
