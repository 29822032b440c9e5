------------------------------ MODULE Bitfield ------------------------------
(* Bitfields as sets of piece indices.  Walk: a field of n pieces is built    *)
(* up index by index; every state is compared with the real one byte by byte, *)
(* member by member and item by item.  Besides, arbitrary byte strings (as a  *)
(* peer may send) are read as sets and subtracted from one another.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Sizes,    \* numbers of pieces of the fields
          Indices,  \* indices added to fields of more than 30 pieces
          Longs,    \* further byte strings
          MaxAdded, \* indices added to one field
          ByteVals, \* bytes of arbitrary fields
          MaxLen    \* their longest length

VARIABLE s   \* [n |-> -1], or [n |-> number of pieces, m |-> membership, 0/1 each]

Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args, o |-> obs, t |-> t])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* A byte's bits, most significant first.
Bits(x) == [j \in 1..8 |-> (x \div Pow2(8 - j)) % 2]
\* The set of indices in a byte string and back.
Members(b) == {i \in 0..(8 * Len(b) - 1) : Bits(b[(i \div 8) + 1])[(i % 8) + 1] = 1}
Bytes(S, len) == [j \in 1..len |-> SumSeq([k \in 1..8 |-> IF (j - 1) * 8 + k - 1 \in S THEN Pow2(8 - k) ELSE 0])]
Size(n) == (n + 7) \div 8
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

Range(n) == [j \in 1..(n + 40) |-> j - 21]   \* -20 .. n+19
Obs(S, len) == [err |-> "ok", bytes |-> Bytes(S, len), items |-> Sorted(S),
                has |-> [j \in 1..Len(Range(8 * len)) |-> IF Range(8 * len)[j] \in S THEN 1 ELSE 0]]

Set(t) == {i \in 0..(t.n - 1) : t.m[i + 1] = 1}

New == /\ s.n = -1
       /\ \E n \in Sizes : Step("new", [n |-> n], Obs({}, Size(n)), [n |-> n, m |-> [j \in 1..n |-> 0]])
Add == /\ s.n >= 0
       /\ \E i \in IF s.n > 30 THEN {j \in Indices \cup {s.n - 1} : j < s.n} ELSE 0..(s.n - 1) :
            LET t == [s EXCEPT !.m[i + 1] = 1] IN
            /\ Cardinality(Set(t)) <= MaxAdded
            /\ Step("add", [i |-> i], Obs(Set(t), Size(s.n)), t)

Strings == Longs \cup UNION {[1..n -> ByteVals] : n \in 0..MaxLen}
Read == /\ s.n = -1
        /\ \E b \in Strings : Step("read", [b |-> b], Obs(Members(b), Len(b)), s)
Diff == /\ s.n = -1
        /\ \E a \in Strings, b \in Strings :
             Step("diff", [x |-> a, y |-> b],
                  [err |-> "ok", items |-> Sorted(Members(a) \ Members(b)), x |-> a, y |-> b], s)

Init == s = [n |-> -1]
Next == New \/ Add \/ Read \/ Diff

\* The two readings agree: bytes made from a set contain exactly that set.
Agree == s.n >= 0 => Members(Bytes(Set(s), Size(s.n))) = Set(s)
=============================================================================
