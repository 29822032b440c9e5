---------------------------- MODULE Multitracker ----------------------------
(* Announcing to several trackers (BEP 12): tiers in order, within a tier in  *)
(* the current order, until one answers; that one moves to the front of its   *)
(* tier.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Lists,   \* sequence of announce lists; a list is a sequence of tiers, a tier of tracker numbers
          Singles, \* sequence of single announce URLs (tracker numbers), used when the list is empty
          Dead,    \* trackers that cannot be reached at all
          Kinds,   \* ways of failing
          Events   \* "started", "completed", "stopped", ""

VARIABLE s   \* [c |-> case (0: nothing made yet), o |-> the tiers in their current order]

Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args, o |-> obs, t |-> t])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

\* The tiers of case c: the list or, without one, the single announce URL.
NL == Len(Lists)
Tiers(c) == IF c <= NL THEN Lists[c] ELSE <<<<Singles[c - NL]>>>>
Cases == 1..(NL + Len(Singles))

Trackers(tiers) == UNION {{tiers[j][k] : k \in 1..Len(tiers[j])} : j \in 1..Len(tiers)}
Perms(q) == {[k \in 1..Len(q) |-> q[p[k]]] : p \in {p \in [1..Len(q) -> 1..Len(q)] : \A a, b \in 1..Len(q) : a # b => p[a] # p[b]}}
RECURSIVE Orders(_)
Orders(tiers) == IF tiers = <<>> THEN {<<>>}
                 ELSE {<<h>> \o r : h \in Perms(Head(tiers)), r \in Orders(Tail(tiers))}

New == /\ s.c = 0
       /\ \E c \in Cases : \E o \in Orders(Tiers(c)) :
            Step("new", [list |-> IF c <= NL THEN Lists[c] ELSE <<>>, single |-> IF c <= NL THEN 0 ELSE Singles[c - NL]],
                 [err |-> "ok", order |-> o], [c |-> c, o |-> o])

\* Positions in the order in which they are tried.
RECURSIVE Flat(_, _)
Flat(o, j) == IF j > Len(o) THEN <<>> ELSE [k \in 1..Len(o[j]) |-> <<j, k>>] \o Flat(o, j + 1)
Front(q, k) == <<q[k]>> \o SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* The result of an announce when the trackers in ok answer.
Result(ok) ==
  LET pos == Flat(s.o, 1)
      at(n) == s.o[pos[n][1]][pos[n][2]]
      hits == {n \in 1..Len(pos) : at(n) \in ok}
      last == IF hits = {} THEN Len(pos) ELSE MinOf(hits)
      tried == SelectSeq([n \in 1..last |-> at(n)], LAMBDA x : x \notin Dead)
  IN IF hits = {} THEN [obs |-> [err |-> "error", tried |-> tried, order |-> s.o, from |-> 0], t |-> s]
     ELSE LET o == [s.o EXCEPT ![pos[last][1]] = Front(@, pos[last][2])]
          IN [obs |-> [err |-> "ok", tried |-> tried, order |-> o, from |-> at(last)], t |-> [s EXCEPT !.o = o]]

Live == Trackers(s.o) \ Dead
Announce ==
  /\ s.c > 0
  /\ \E ok \in SUBSET Live, kind \in Kinds, ev \in Events :
       /\ ok = Live => kind = CHOOSE x \in Kinds : TRUE
       /\ LET r == Result(ok) IN
          Step("announce", [ok |-> [k \in 1..9 |-> k \in ok], kind |-> kind, ev |-> ev], r.obs, r.t)
\* Several at once: as one after the other.
Burst ==
  /\ s.c > 0
  /\ \E ok \in SUBSET Live \ {{}} :
       LET r == Result(ok) IN
       Step("burst", [ok |-> [k \in 1..9 |-> k \in ok]], [err |-> "ok", order |-> r.obs.order, from |-> r.obs.from], r.t)

Init == s = [c |-> 0, o |-> <<>>]
Next == New \/ Announce \/ Burst

\* Tiers are never mixed, nothing is lost or doubled.
SameTiers == s.c > 0 => /\ Len(s.o) = Len(Tiers(s.c))
                        /\ \A j \in 1..Len(s.o) : s.o[j] \in Perms(Tiers(s.c)[j])
=============================================================================
