----------------------------- MODULE FutureTrace -----------------------------
(* Recorded histories of futures.  Events of one history:                     *)
(*   wcall t / wret t v     thread t waits and gets v                         *)
(*   dcall v / dret         the value is delivered                            *)
(*   done c                 the done channel was seen closed (c = 1) or open  *)
(*                          (0): [k |-> "pcall"], then [k |-> "pret", c |-> c] *)
(*   end n                  all but n waits have returned                     *)
(* The delivery takes effect somewhere between its call and its return.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANT NT
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, st, \* "none", "called", "set", "returned"
          val, w,    \* waiting threads
          p          \* per thread, looking at the channel: "", "look", "0", "1"
vars == <<tr, l, st, val, w, p>>
Ev == Traces[tr].ev

Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ st = "none" /\ val = "" /\ w = {}
        /\ p = [t \in 1..NT |-> ""]

E == Ev[l]
Set == st \in {"set", "returned"}
More == l <= Len(Ev)
Next ==
  \/ /\ st = "called" /\ st' = "set" /\ UNCHANGED <<tr, l, val, w, p>>
  \/ /\ \E t \in 1..NT : p[t] = "look" /\ p' = [p EXCEPT ![t] = IF Set THEN "1" ELSE "0"]
     /\ UNCHANGED <<tr, l, st, val, w>>
  \/ /\ More /\ l' = l + 1 /\ tr' = tr
     /\ CASE E.k = "wcall" -> w' = w \cup {E.t} /\ UNCHANGED <<st, val, p>>
          [] E.k = "wret" -> E.t \in w /\ Set /\ E.v = val /\ w' = w \ {E.t} /\ UNCHANGED <<st, val, p>>
          [] E.k = "dcall" -> st = "none" /\ st' = "called" /\ val' = E.v /\ UNCHANGED <<w, p>>
          [] E.k = "dret" -> st = "set" /\ st' = "returned" /\ UNCHANGED <<val, w, p>>
          [] E.k = "pcall" -> p' = [p EXCEPT ![E.t] = "look"] /\ UNCHANGED <<st, val, w>>
          [] E.k = "pret" -> p[E.t] = E.c /\ p' = [p EXCEPT ![E.t] = ""] /\ UNCHANGED <<st, val, w>>
          [] E.k = "end" -> (Set => w = {}) /\ Cardinality(w) = E.n /\ UNCHANGED <<st, val, w, p>>

Report == /\ l > Len(Ev) => CSVWrite("%1$s", <<ToString(tr)>>, IOEnv.ACCEPT)
          /\ IOEnv.PROGRESS # "" => CSVWrite("%1$s", <<ToString(l)>>, IOEnv.PROGRESS)
=============================================================================
