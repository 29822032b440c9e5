------------------------------ MODULE Storage ------------------------------
(* Exhaustive exploration of StorageModel with piece and torrent waiters.   *)
(* Every transition is written out as one JSON line (see Emit) and walked   *)
(* through the real storage package by the harness.                         *)
EXTENDS StorageModel, TLC, Json, CSV, IOUtils

CONSTANTS PutI, PutB, PutL,      \* arguments of block writes
          GetI, GetB, GetL,      \* arguments of block reads
          WMax,                  \* pending waiters per piece
          Reload                 \* BOOLEAN

VARIABLE s    \* [slot, st, w, tw]: w = pending waiters, tw = torrent waiters

Init == s = Fresh @@ [w |-> [k \in 1..NP |-> 0], tw |-> 0]

Obs(t) == [bits |-> [k \in 1..NP |-> IF t.st[k] = "d" THEN 1 ELSE 0],
           down |-> Downloaded(t),
           pub  |-> IF AllDone(t) THEN "exact" ELSE "none"]

Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args,
                             o |-> obs @@ Obs(t), t |-> t])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

NoRel == [k \in 1..NP |-> ""]
\* Waiters of piece k are released with result r.
Rel(k, r) == [NoRel EXCEPT ![k] = IF s.w[k] > 0 THEN r ELSE ""]

Put(i, begin, length, bad) ==
  LET r == PutResult(s, i, begin, length, bad)
      k == i + 1
      verdict == IF i \in Idx /\ r.s.st[k] # s.st[k] THEN r.s.st[k] ELSE ""
      fin == verdict = "d" /\ AllDone(r.s)
      t == IF verdict = "" THEN r.s
           ELSE [r.s EXCEPT !.w[k] = 0, !.tw = IF fin THEN 0 ELSE @]
      rel == CASE verdict = "d" -> Rel(k, "ok")
               [] verdict = "f" -> Rel(k, "checksum")
               [] OTHER -> NoRel
  IN Step("put", [i |-> i, begin |-> begin, len |-> length, bad |-> bad],
          [err |-> r.err, rel |-> rel,
           trel |-> IF fin /\ s.tw > 0 THEN "ok" ELSE ""], t)

\* Resetting a piece that is being waited for: the wait fails, unless the
\* attempt had its verdict already (then nobody is waiting).
Reset(i) ==
  LET k == i + 1
      t == ResetResult(s, i)
  IN Step("reset", [i |-> i],
          [err |-> "", rel |-> IF s.st[k] = "o" THEN Rel(k, "error") ELSE NoRel, trel |-> ""],
          IF s.st[k] = "d" THEN t ELSE [t EXCEPT !.w[k] = 0])

Wait(i) ==
  LET k == i + 1
  IN /\ s.w[k] < WMax
     /\ CASE s.st[k] = "d" -> Step("wait", [i |-> i], [err |-> "ok", rel |-> NoRel, trel |-> ""], s)
          [] s.st[k] = "f" -> Step("wait", [i |-> i], [err |-> "checksum", rel |-> NoRel, trel |-> ""], s)
          [] OTHER -> Step("wait", [i |-> i], [err |-> "pending", rel |-> NoRel, trel |-> ""],
                           [s EXCEPT !.w[k] = @ + 1])

TWait ==
  /\ s.tw < WMax
  /\ IF AllDone(s)
     THEN Step("twait", <<>>, [err |-> "ok", rel |-> NoRel, trel |-> ""], s)
     ELSE Step("twait", <<>>, [err |-> "pending", rel |-> NoRel, trel |-> ""], [s EXCEPT !.tw = @ + 1])

Get(i, begin, length) ==
  \E r \in GetResults(s, i, begin, length) :
    Step("get", [i |-> i, begin |-> begin, len |-> length],
         [err |-> r, rel |-> NoRel, trel |-> ""], s)

\* The waiters of the old process are gone with it.
DoReload ==
  /\ Reload
  /\ Step("reload", <<>>, [err |-> "ok", rel |-> NoRel, trel |-> ""],
          [ReloadResult(s) EXCEPT !.w = [k \in 1..NP |-> 0], !.tw = 0])

Next ==
  \/ \E i \in PutI, begin \in PutB, length \in PutL : Put(i, begin, length, FALSE)
  \/ \E i \in PutI, begin \in PutB, length \in PutL :
        ValidBlock(i, begin, length) /\ Put(i, begin, length, TRUE)
  \/ \E i \in GetI, begin \in GetB, length \in GetL : Get(i, begin, length)
  \/ \E i \in Idx : Reset(i)
  \/ WMax > 0 /\ \E i \in Idx : Wait(i)
  \/ WMax > 0 /\ TWait
  \/ DoReload

\* Design properties, checked on every reachable state of the model.
TypeOK == \A k \in 1..NP : s.st[k] \in {"o", "f", "d"}
OnlyVerified == \A k \in 1..NP : s.st[k] = "d" =>
                   \A b \in 1..NB(k-1) : s.slot[k][b] = 1
FailedIsFull == \A k \in 1..NP : s.st[k] = "f" =>
                   (\A b \in 1..NB(k-1) : s.slot[k][b] # 0) /\ s.w[k] = 0
OpenNotFull == \A k \in 1..NP : s.st[k] = "o" => \E b \in 1..NB(k-1) : s.slot[k][b] = 0
NoHungWaiter == /\ \A k \in 1..NP : s.w[k] > 0 => s.st[k] = "o"
                /\ s.tw > 0 => ~AllDone(s)
Progress == Downloaded(s) \in 0..Total
=============================================================================
