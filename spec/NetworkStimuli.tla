--------------------------- MODULE NetworkStimuli ---------------------------
(* What happens to a swarm of clients: all sequences of L things, from all of *)
(* the distributions of pieces in Haves.  TLC writes them out, the driver     *)
(* does them to real clients, and NetworkTrace judges what becomes of it.     *)
(*                                                                            *)
(* What is done, as records [o, i, j] (now: before all have come to rest):    *)
(*   up i, down i     client i starts, stops                                  *)
(*   cut i j          the connections between i and j break                   *)
(*   away i j         i can be reached (j = 0), refuses connections (1), does *)
(*                    not answer (2), and reaches others likewise             *)
(*   list j           the tracker answers (j = 0), or fails (1)               *)
(*   forget           the tracker forgets everybody                           *)
(*   idle j           j seconds pass                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS N, Haves, L, Idles
VARIABLES h, q, on, away, list
vars == <<h, q, on, away, list>>
I == 1..N
Op(o, i, j) == [o |-> o, i |-> i, j |-> j]
Last == IF q = <<>> THEN Op("none", 0, 0) ELSE q[Len(q)]

\* Sequences that differ in nothing that matters are written once.
Ops ==
  UNION {
    {Op("up", i, 0) : i \in I \ on},
    {Op("down", i, 0) : i \in {x \in on : Cardinality(on) > 1}},
    {Op("cut", i, j) : i \in on, j \in on},
    {Op("away", i, j) : i \in {x \in I : Last.o = "away" => Last.i < x}, j \in 0..2},
    {Op("list", 0, j) : j \in IF Last.o = "list" THEN {} ELSE {0, 1} \ {list}},
    {Op("forget", 0, 0) : x \in IF Last.o = "forget" THEN {} ELSE {1}},
    {Op("idle", 0, j) : j \in IF Last.o = "idle" THEN {} ELSE Idles} }
Use(x) ==
  /\ x.o = "cut" => x.i < x.j
  /\ x.o = "away" => away[x.i] # x.j
  /\ q = <<>> => x.o = "up"

Init == h \in Haves /\ q = <<>> /\ on = {} /\ away = [i \in I |-> 0] /\ list = 0
Next ==
  /\ Len(q) < L
  /\ \E x \in Ops :
       /\ Use(x)
       /\ q' = Append(q, x)
       /\ on' = CASE x.o = "up" -> on \cup {x.i} [] x.o = "down" -> on \ {x.i} [] OTHER -> on
       /\ away' = IF x.o = "away" THEN [away EXCEPT ![x.i] = x.j] ELSE away
       /\ list' = IF x.o = "list" THEN x.j ELSE list
       /\ UNCHANGED h
Report == Len(q) = L => CSVWrite("%1$s", <<ToJson([have |-> h, ops |-> q])>>, IOEnv.EDGES)
=============================================================================
