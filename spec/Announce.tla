------------------------------ MODULE Announce ------------------------------
(* What an announce carries, while pieces are being verified.  Amounts are in *)
(* units, so that large torrents fit.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Geos,    \* sequence of [pl, total] in units; can: pieces can be completed
          Ids,     \* sequence of identities [hash, id], byte strings
          Ports,
          Urls,    \* sequence of [path, query, params]: params = decoded pairs of the query
          Events

VARIABLE s  \* [g, i, port, u, done] (g = 0: no client yet)

Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args, o |-> obs, t |-> t])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

NP(g) == (Geos[g].total + Geos[g].pl - 1) \div Geos[g].pl
PLen(g, k) == IF k = NP(g) THEN Geos[g].total - (k - 1) * Geos[g].pl ELSE Geos[g].pl
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Done(t) == Sum([k \in 1..NP(t.g) |-> IF t.done[k] = 1 THEN PLen(t.g, k) ELSE 0], NP(t.g))

New == /\ s.g = 0
       /\ \E g \in 1..Len(Geos), i \in 1..Len(Ids), port \in Ports, u \in 1..Len(Urls) :
            \* one dimension at a time
            /\ Cardinality({x \in {<<1, g>>, <<2, i>>, <<3, u>>} : x[2] # 1}) + (IF port = CHOOSE p \in Ports : TRUE THEN 0 ELSE 1) <= 1
            /\ Step("new", [geo |-> Geos[g], ids |-> Ids[i], port |-> port, url |-> Urls[u]], [err |-> "ok"],
                    [g |-> g, i |-> i, port |-> port, u |-> u, done |-> [k \in 1..NP(g) |-> 0]])
Piece == /\ s.g > 0 /\ Geos[s.g].can
         /\ \E k \in 1..NP(s.g) : s.done[k] = 0 /\ Step("piece", [i |-> k - 1], [err |-> "ok"], [s EXCEPT !.done[k] = 1])
Corrupt == /\ s.g > 0 /\ Geos[s.g].can
           /\ \E k \in 1..NP(s.g) : s.done[k] = 0 /\ Step("corrupt", [i |-> k - 1], [err |-> "ok"], s)
Say == /\ s.g > 0
       /\ \E ev \in Events :
            Step("announce", [ev |-> ev],
                 [err |-> "ok", path |-> Urls[s.u].path, kept |-> Urls[s.u].params, hash |-> Ids[s.i].hash, id |-> Ids[s.i].id, port |-> s.port,
                  up |-> 0, down |-> 0, left |-> Geos[s.g].total - Done(s), event |-> ev, compact |-> "1", once |-> TRUE], s)
Init == s = [g |-> 0, i |-> 0, port |-> 0, u |-> 0, done |-> <<>>]
Next == New \/ Piece \/ Corrupt \/ Say
Left == s.g > 0 => Geos[s.g].total - Done(s) >= 0
=============================================================================
