---------------------------- MODULE TrackerTrace ----------------------------
(* Concurrent announces to one torrent of the bundled tracker (no time        *)
(* passes): every recorded history must be explained by announces that take   *)
(* effect one at a time between their call and their return.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NTh, V4
Traces == ndJsonDeserialize(IOEnv.TRACES)
Addrs == 1..Len(V4)

VARIABLES tr, l, live, \* live[a]: ID, 0 if not listed
          op
vars == <<tr, l, live, op>>
Ev == Traces[tr].ev
E == Ev[l]
Idle == [st |-> "idle"]

Init == tr \in 1..Len(Traces) /\ l = 1 /\ live = [a \in Addrs |-> 0] /\ op = [t \in 1..NTh |-> Idle]

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

Call == /\ l <= Len(Ev) /\ E.k = "call" /\ op' = [op EXCEPT ![E.t] = [st |-> "called", e |-> E]]
        /\ l' = l + 1 /\ UNCHANGED <<tr, live>>
Lin == \E t \in 1..NTh :
  /\ op[t].st = "called"
  /\ LET e == op[t].e
         v == [live EXCEPT ![e.a] = IF e.stop THEN 0 ELSE e.i]
         q == Sorted({a \in Addrs \ {e.a} : v[a] # 0 /\ (e.compact => V4[a])})
     IN /\ live' = v
        /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> [j \in 1..Len(q) |-> <<q[j], IF e.compact THEN 0 ELSE v[q[j]]>>]]]
  /\ UNCHANGED <<tr, l>>
Ret == /\ l <= Len(Ev) /\ E.k = "ret" /\ op[E.t].st = "done" /\ op[E.t].r = E.peers
       /\ op' = [op EXCEPT ![E.t] = Idle] /\ l' = l + 1 /\ UNCHANGED <<tr, live>>
Next == Call \/ Lin \/ Ret

Report == /\ l > Len(Ev) => CSVWrite("%1$s", <<ToString(tr)>>, IOEnv.ACCEPT)
          /\ IOEnv.PROGRESS # "" => CSVWrite("%1$s", <<ToString(l)>>, IOEnv.PROGRESS)
=============================================================================
