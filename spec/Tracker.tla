------------------------------ MODULE Tracker ------------------------------
(* The bundled HTTP tracker: per torrent the addresses that announced, each   *)
(* with its peer ID and the time since its last announce in ticks.  Clock     *)
(* ticks are a third of a minute: an entry of age 3 is exactly a minute old   *)
(* and still listed, one tick later it is gone.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NT,      \* torrents 1..NT
          V4,      \* V4[a]: address a has a compact form
          NI,      \* peer IDs 1..NI
          Spells,  \* ways to spell an address
          Events,  \* events other than "stopped"
          Bad,     \* kinds of rejected requests
          Reasons, \* those that need a failure reason
          Ticks    \* whether time passes

VARIABLE s   \* s[t][a] = [st |-> "none" / "stopped" / "live", id, age]

Addrs == 1..Len(V4)
None == [st |-> "none", id |-> 0, age |-> 0]
Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args, o |-> obs, t |-> t])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

Live(t, k) == {a \in Addrs : t[k][a].st = "live"}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
\* Those of S as they are listed: address and ID (no IDs in the compact form).
Listed(t, k, S, compact) == LET q == Sorted(S) IN [j \in 1..Len(q) |-> <<q[j], IF compact THEN 0 ELSE t[k][q[j]].id>>]
Swarm(t) == [k \in 1..NT |-> Listed(t, k, Live(t, k), FALSE)]

Init == s = [k \in 1..NT |-> [a \in Addrs |-> None]]

Announce ==
  \E k \in 1..NT, a \in Addrs, i \in 1..NI, ev \in Events \cup {"stopped"}, form \in {"1", "0", ""}, sp \in Spells :
    /\ (form = "" => sp = 1 /\ i = 1) /\ (ev \notin {"", "stopped"} => sp = 1 /\ form = "1")
    /\ LET e == IF ev = "stopped" THEN [st |-> "stopped", id |-> 0, age |-> 0] ELSE [st |-> "live", id |-> i, age |-> 0]
           t == [s EXCEPT ![k][a] = e]
           c == form = "1"
           S == {b \in Live(t, k) \ {a} : c => V4[b]}
       IN Step("announce", [k |-> k, a |-> a, i |-> i, ev |-> ev, form |-> form, sp |-> sp],
               [err |-> "ok", status |-> 200, form |-> IF c THEN "compact" ELSE "list", interval |-> "positive",
                peers |-> Listed(t, k, S, c), swarm |-> Swarm(t)], t)

Tick == /\ Ticks
        /\ LET t == [k \in 1..NT |-> [a \in Addrs |->
                      IF s[k][a].st = "live" /\ s[k][a].age < 3 THEN [s[k][a] EXCEPT !.age = @ + 1] ELSE None]]
           IN Step("tick", <<>>, [err |-> "ok", swarm |-> Swarm(t)], t)

Reject == \E b \in Bad, k \in 1..NT, a \in Addrs :
  LET o == [err |-> "ok", status |-> 400, swarm |-> Swarm(s)] IN
  Step("bad", [kind |-> b, k |-> k, a |-> a], IF b \in Reasons THEN o @@ [reason |-> TRUE] ELSE o, s)

Next == Announce \/ Tick \/ Reject

TypeOK == \A k \in 1..NT, a \in Addrs : s[k][a].age \in 0..3 /\ s[k][a].id \in 0..NI
=============================================================================
