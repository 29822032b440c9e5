---------------------------- MODULE StorageTrace ----------------------------
(* Concurrent histories of the real storage package: every history must be   *)
(* explained by some order of the operations, consistent with real time, of  *)
(* the sequential specification StorageModel.  One history per line of the   *)
(* file TRACES: [ev |-> <<event, ...>>] with events                           *)
(*   [k |-> "call", t |-> thread, op |-> ..., i/begin/len/bad |-> ...]        *)
(*   [k |-> "ret",  t |-> thread, r |-> result]                               *)
(*   [k |-> "obs",  bits, down, pub]   what is seen meanwhile (one thread)    *)
(*   [k |-> "end",  bits |-> <<0,1>>, down |-> n, pub |-> "none"/"exact",     *)
(*                  pend |-> <<threads whose wait is still pending>>]         *)
(*                                                                           *)
(* An operation takes effect in a silent Lin step between its call and its    *)
(* return.  A wait takes effect by joining the current attempt of its piece;  *)
(* it may return once that attempt has its verdict, and only then.            *)
EXTENDS StorageModel, TLC, Json, CSV, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT NT      \* threads are 1..NT

VARIABLES tr, l,   \* which history, next event
          s,       \* sequential state
          att,     \* att[k]: verdicts of the attempts at piece k so far
          op       \* op[t]: what thread t is doing

vars == <<tr, l, s, att, op>>
Ev == Traces[tr].ev
None == [st |-> "idle"]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ s = Fresh
        /\ att = [k \in 1..NP |-> <<"">>]
        /\ op = [t \in 1..NT |-> None]

Last(q) == q[Len(q)]

Call == /\ l <= Len(Ev) /\ Ev[l].k = "call"
        /\ op' = [op EXCEPT ![Ev[l].t] = [st |-> "called", e |-> Ev[l]]]
        /\ l' = l + 1
        /\ UNCHANGED <<tr, s, att>>

\* Set the verdict of the current attempt at piece k.
Verdict(k, r) == [att EXCEPT ![k] = [@ EXCEPT ![Len(@)] = r]]

LinPut(t, e) ==
  LET r == PutResult(s, e.i, e.begin, e.len, e.bad)
      k == e.i + 1
  IN /\ s' = r.s
     /\ att' = IF e.i \in Idx /\ r.s.st[k] # s.st[k]
               THEN Verdict(k, IF r.s.st[k] = "d" THEN "ok" ELSE "checksum") ELSE att
     /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> r.err]]

LinGet(t, e) ==
  \E r \in GetResults(s, e.i, e.begin, e.len) :
     /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> r]]
     /\ UNCHANGED <<s, att>>

LinReset(t, e) ==
  LET k == e.i + 1
  IN /\ s' = ResetResult(s, e.i)
     /\ att' = IF s.st[k] = "d" THEN att
               ELSE [att EXCEPT ![k] = Append(IF s.st[k] = "o"
                                              THEN [@ EXCEPT ![Len(@)] = "error"] ELSE @, "")]
     /\ op' = [op EXCEPT ![t] = [st |-> "done", r |-> ""]]

LinWait(t, e) ==
  /\ op' = [op EXCEPT ![t] = [st |-> "waiting", k |-> e.i + 1, g |-> Len(att[e.i + 1])]]
  /\ UNCHANGED <<s, att>>

LinTWait(t) ==
  /\ op' = [op EXCEPT ![t] = [st |-> "waiting", k |-> 0, g |-> 0]]
  /\ UNCHANGED <<s, att>>

Lin == \E t \in 1..NT :
  /\ op[t].st = "called"
  /\ LET e == op[t].e IN
       CASE e.op = "put"   -> LinPut(t, e)
         [] e.op = "get"   -> LinGet(t, e)
         [] e.op = "reset" -> LinReset(t, e)
         [] e.op = "wait"  -> LinWait(t, e)
         [] e.op = "twait" -> LinTWait(t)
  /\ UNCHANGED <<tr, l>>

\* The verdict a waiting thread may return with, "" if none yet.
WaitVerdict(o) == IF o.k = 0 THEN (IF AllDone(s) THEN "ok" ELSE "") ELSE att[o.k][o.g]

Ret == /\ l <= Len(Ev) /\ Ev[l].k = "ret"
       /\ LET t == Ev[l].t
              o == op[t]
          IN /\ \/ o.st = "done" /\ o.r = Ev[l].r
                \/ o.st = "waiting" /\ WaitVerdict(o) # "" /\ WaitVerdict(o) = Ev[l].r
             /\ op' = [op EXCEPT ![t] = None]
       /\ l' = l + 1
       /\ UNCHANGED <<tr, s, att>>

Seen(e) == /\ e.bits = [k \in 1..NP |-> IF s.st[k] = "d" THEN 1 ELSE 0]
           /\ e.down = Downloaded(s)
           /\ e.pub = (IF AllDone(s) THEN "exact" ELSE "none")
Obs == /\ l <= Len(Ev) /\ Ev[l].k = "obs"
       /\ Seen(Ev[l])
       /\ l' = l + 1
       /\ UNCHANGED <<tr, s, att, op>>

\* At the end nothing is running but waits that have no verdict.
End == /\ l <= Len(Ev) /\ Ev[l].k = "end"
       /\ \A t \in 1..NT : \/ op[t].st = "idle"
                           \/ op[t].st = "waiting" /\ WaitVerdict(op[t]) = ""
       /\ {Ev[l].pend[j] : j \in 1..Len(Ev[l].pend)} = {t \in 1..NT : op[t].st = "waiting"}
       /\ Seen(Ev[l])
       /\ l' = l + 1
       /\ UNCHANGED <<tr, s, att, op>>

Next == Call \/ Lin \/ Ret \/ Obs \/ End

\* Reports every history that was explained to its end, and (for diagnosis)
\* how far each got.
Report == /\ l > Len(Ev) => CSVWrite("%1$s", <<ToString(tr)>>, IOEnv.ACCEPT)
          /\ IOEnv.PROGRESS # "" => CSVWrite("%1$s", <<ToString(l)>>, IOEnv.PROGRESS)
=============================================================================
