------------------------------- MODULE Layout -------------------------------
(* How a torrent's bytes fall into pieces, blocks and files.  For every      *)
(* layout in the bounds: the tiling is exact, and after the pieces have been *)
(* completed in any order the target holds exactly the files' segments, and  *)
(* nothing before.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS PLs,      \* piece lengths
          Lens,     \* file lengths
          MaxFiles, \* files per multi-file torrent (0: only single-file)
          MaxTotal, MaxPieces,
          Shapes,   \* which directory shapes
          BL,       \* block length
          Long      \* torrents of many files: [n |-> files, k |-> longest, m |-> one file in m is not empty, first |-> length of the first, pl |-> piece length]

VARIABLE s   \* [ph, pl, lens, multi, shape, done, tag]

SumTo(q, n) == FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(q, 1, n))
Sum(q) == SumTo(q, Len(q))

NP(pl, total) == (total + pl - 1) \div pl
PLen(pl, total, i) == IF i = NP(pl, total) - 1 THEN total - i * pl ELSE pl
\* The segment of the torrent that is file j, as <<offset, length>>.
Seg(lens, j) == <<SumTo(lens, j - 1), lens[j]>>

Init == s = [ph |-> "none"]
\* Torrents with many files: in what order their pieces come, and how long their files are.
Orders == {"up", "down", "middle"}
ManyLens(g) == [j \in 1..g.n |-> IF j = 1 THEN g.first ELSE IF j % g.m # 0 THEN 0 ELSE (j * 7919 + g.k) % (g.k + 1)]
\* States are named with their sets written out in a canonical way.
Key(t) == IF t.ph = "none" THEN <<"none">> ELSE IF t.tag # <<>> THEN <<t.tag, Cardinality(t.done)>> ELSE <<[t EXCEPT !.done = [k \in 1..MaxPieces |-> k \in @]]>>
Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> Key(s), op |-> op, a |-> args, o |-> obs, t |-> Key(t)])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

Layouts == {q \in UNION {[1..n -> Lens] : n \in 1..(IF MaxFiles = 0 THEN 1 ELSE MaxFiles)} :
              Sum(q) >= 1 /\ Sum(q) <= MaxTotal}

Open ==
  /\ s.ph = "none"
  /\ \E pl \in PLs, lens \in Layouts, multi \in BOOLEAN, shape \in Shapes :
       LET total == Sum(lens)
           n == NP(pl, total)
       IN /\ multi \/ (Len(lens) = 1 /\ shape = CHOOSE x \in Shapes : TRUE)
          /\ multi => MaxFiles > 0
          /\ n <= MaxPieces
          /\ Step("open", [pl |-> pl, lens |-> lens, multi |-> multi, shape |-> shape,
                           np |-> n, segs |-> [j \in 1..Len(lens) |-> Seg(lens, j)]],
                  [err |-> "ok", pub |-> "none", total |-> total,
                   plen |-> [k \in 1..n |-> PLen(pl, total, k - 1)]],
                  [ph |-> "open", pl |-> pl, lens |-> lens, multi |-> multi, shape |-> shape, done |-> {}, tag |-> <<>>])
OpenMany ==
  /\ s.ph = "none"
  /\ \E g \in Long, ord \in Orders :
       LET lens == ManyLens(g)
           total == Sum(lens)
           n == NP(g.pl, total)
       IN Step("open", [pl |-> g.pl, lens |-> lens, multi |-> TRUE, shape |-> "many",
                        np |-> n, segs |-> [j \in 1..Len(lens) |-> Seg(lens, j)]],
               [err |-> "ok", pub |-> "none", total |-> total, plen |-> [k \in 1..n |-> PLen(g.pl, total, k - 1)]],
               [ph |-> "open", pl |-> g.pl, lens |-> lens, multi |-> TRUE, shape |-> "many", done |-> {}, tag |-> <<g, ord>>])

All(t) == 1..NP(t.pl, Sum(t.lens))
Pub(t) == IF t.done = All(t) THEN "exact" ELSE "none"

Piece ==
  /\ s.ph = "open"
  /\ \E k \in All(s) \ s.done :
       /\ IF s.tag = <<>> THEN TRUE ELSE LET n == Cardinality(All(s))
                                              d == Cardinality(s.done)
                                          IN k = CASE s.tag[2] = "up" -> d + 1 [] s.tag[2] = "down" -> n - d
                                                   [] OTHER -> ((n \div 2 + d) % n) + 1
       /\ LET t == [s EXCEPT !.done = @ \cup {k}] IN
            Step("piece", [i |-> k - 1], [err |-> "ok", pub |-> Pub(t), down |-> SumTo([j \in All(s) |-> IF j \in t.done THEN PLen(s.pl, Sum(s.lens), j - 1) ELSE 0], Cardinality(All(s)))], t)

\* All reads inside pieces of the assembled torrent.
Reads == /\ s.ph = "open" /\ s.done = All(s)
         /\ Step("reads", <<>>, [err |-> "ok"], s)

Reload == /\ s.ph = "open"
          /\ Step("reload", <<>>, [err |-> "ok", pub |-> Pub(s), bits |-> [k \in All(s) |-> IF k \in s.done THEN 1 ELSE 0]], s)

Next == Open \/ OpenMany \/ Piece \/ Reads \/ Reload

\* Tiling laws, for every layout.
Tiling == s.ph = "open" =>
  LET total == Sum(s.lens)
      n == NP(s.pl, total)
  IN /\ SumTo([k \in 1..n |-> PLen(s.pl, total, k - 1)], n) = total
     /\ \A k \in 1..(n - 1) : PLen(s.pl, total, k - 1) = s.pl
     /\ PLen(s.pl, total, n - 1) \in 1..s.pl
     /\ \A j \in 1..(Len(s.lens) - 1) : Seg(s.lens, j)[1] + Seg(s.lens, j)[2] = Seg(s.lens, j + 1)[1]
     /\ Seg(s.lens, Len(s.lens))[1] + Seg(s.lens, Len(s.lens))[2] = total
=============================================================================
