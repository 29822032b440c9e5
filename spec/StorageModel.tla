--------------------------- MODULE StorageModel ---------------------------
(* The storage of one torrent as its users see it: one total function        *)
(*   Apply(s, op) = the set of <<next state, observation>> pairs             *)
(* per operation.  Storage.tla explores it, StorageTrace.tla uses it as the  *)
(* sequential specification that concurrent histories must linearize to.     *)
(*                                                                           *)
(* State of piece p (sequences are 1-based, piece indices 0-based):          *)
(*   slot[p][b]  0 = block not held, 1 = right data, 2 = corrupt data        *)
(*   st[p]       "o" open, "f" failed verification, "d" done (verified)      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS PL,      \* piece length in bytes
          Total,   \* length of the torrent
          BL       \* block length of the tiling

Min(a, b) == IF a < b THEN a ELSE b

NP == (Total + PL - 1) \div PL
Idx == 0 .. NP - 1
PLen(i) == IF i = NP - 1 THEN Total - i * PL ELSE PL
NB(i) == (PLen(i) + BL - 1) \div BL
BLen(i, b) == Min(BL, PLen(i) - b * BL)

\* (index, begin, length) is exactly one block of the tiling.
ValidBlock(i, begin, length) ==
  /\ i \in Idx
  /\ begin >= 0 /\ begin < PLen(i) /\ begin % BL = 0
  /\ length = Min(BL, PLen(i) - begin)

Fresh == [ slot |-> [k \in 1..NP |-> [b \in 1..NB(k-1) |-> 0]],
           st   |-> [k \in 1..NP |-> "o"] ]

AllDone(s) == \A k \in 1..NP : s.st[k] = "d"
DoneSet(s) == {k - 1 : k \in {j \in 1..NP : s.st[j] = "d"}}
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0
             ELSE LET i == CHOOSE x \in S : TRUE IN PLen(i) + SumLen(S \ {i})
Downloaded(s) == SumLen(DoneSet(s))

\* What a block write reports and leaves behind.
PutResult(s, i, begin, length, bad) ==
  IF ~ValidBlock(i, begin, length) THEN [s |-> s, err |-> "error"]
  ELSE LET k == i + 1
           b == (begin \div BL) + 1
       IN IF s.st[k] = "d" \/ s.slot[k][b] # 0 THEN [s |-> s, err |-> "exists"]
          ELSE LET sl == [s.slot[k] EXCEPT ![b] = IF bad THEN 2 ELSE 1]
                   full == \A c \in 1..NB(i) : sl[c] # 0
                   good == \A c \in 1..NB(i) : sl[c] = 1
               IN IF ~full THEN [s |-> [s EXCEPT !.slot[k] = sl], err |-> "ok"]
                  ELSE IF good
                       THEN [s |-> [s EXCEPT !.slot[k] = sl, !.st[k] = "d"], err |-> "ok"]
                       ELSE [s |-> [s EXCEPT !.slot[k] = sl, !.st[k] = "f"],
                             err |-> "checksum"]

ResetResult(s, i) ==
  LET k == i + 1
  IN IF s.st[k] = "d" THEN s
     ELSE [s EXCEPT !.slot[k] = [b \in 1..NB(i) |-> 0], !.st[k] = "o"]

\* A read: "data" = exactly the torrent's bytes, "error" = an error.  Ranges
\* that cross pieces may or may not be served once the torrent is assembled.
GetResults(s, i, begin, length) ==
  IF i \notin Idx \/ begin < 0 \/ length < 0 THEN {"error"}
  ELSE IF begin <= PLen(i) /\ length <= PLen(i) - begin
       THEN (IF s.st[i+1] = "d" THEN {"data"} ELSE {"error"})
            \cup (IF length = 0 THEN {"data", "error"} ELSE {})
       ELSE IF AllDone(s) /\ begin <= Total - i * PL /\ length <= Total - i * PL - begin
            THEN {"data", "error"}
            ELSE {"error"}

\* Loading the same directories in a new process.
ReloadResult(s) ==
  [s EXCEPT !.slot = [k \in 1..NP |-> IF s.st[k] = "d" THEN s.slot[k]
                                      ELSE [b \in 1..NB(k-1) |-> 0]],
            !.st = [k \in 1..NP |-> IF s.st[k] = "d" THEN "d" ELSE "o"]]
=============================================================================
