----------------------------- MODULE StorageDisk -----------------------------
(* Crash safety of the design: every file-system effect is one step, the     *)
(* process may die between any two of them, and is then started again; any   *)
(* of them may also fail, which ends the operation with an error.            *)
(* Files are "none", "part" or "full".                                       *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS N, MaxCrash, MaxFault

VARIABLES work,     \* work[p]: the work file of piece p
          temp,     \* the temporary file of what is being written
          target,   \* the published torrent
          pc,       \* "down", "idle", "load", or the step of a piece / the assembly
          cur,      \* the piece being written
          mem,      \* pieces this process reports as complete
          acked,    \* pieces whose completing write has returned (ever)
          crashes, faults

vars == <<work, temp, target, pc, cur, mem, acked, crashes, faults>>
P == 1..N

Init == /\ work = [p \in P |-> "none"] /\ temp = "none" /\ target = "none"
        /\ pc = "down" /\ cur = 0 /\ mem = {} /\ acked = {} /\ crashes = 0 /\ faults = 0

Full == {p \in P : work[p] = "full"}

Start == /\ pc = "down" /\ pc' = "load" /\ mem' = {}
         /\ UNCHANGED <<work, temp, target, cur, acked, crashes, faults>>

\* Loading: the target if there is one, else the work files that verify.
Load == /\ pc = "load"
        /\ IF target # "none" THEN mem' = P /\ pc' = "clean"
           ELSE /\ mem' = Full
                /\ pc' = IF Full = P THEN "atemp" ELSE "idle"
        /\ UNCHANGED <<work, temp, target, cur, acked, crashes, faults>>

\* A piece has all of its blocks and verifies: temporary file, then rename.
Begin == /\ pc = "idle" /\ \E p \in P \ mem : cur' = p
         /\ pc' = "wtemp" /\ temp' = "part"
         /\ UNCHANGED <<work, target, mem, acked, crashes, faults>>
WTemp == /\ pc = "wtemp" /\ temp' = "full" /\ pc' = "wrename"
         /\ UNCHANGED <<work, target, cur, mem, acked, crashes, faults>>
WRename == /\ pc = "wrename" /\ work' = [work EXCEPT ![cur] = temp] /\ temp' = "none"
           /\ mem' = mem \cup {cur}
           /\ pc' = IF mem' = P THEN "atemp" ELSE "ret"
           /\ UNCHANGED <<target, cur, acked, crashes, faults>>
\* Assembly of the finished torrent: temporary file or tree, then rename.
ATemp == /\ pc = "atemp"
         /\ IF temp = "none" THEN temp' = "part" /\ pc' = "atemp"
            ELSE temp' = "full" /\ pc' = "arename"
         /\ UNCHANGED <<work, target, cur, mem, acked, crashes, faults>>
ARename == /\ pc = "arename" /\ target' = temp /\ temp' = "none" /\ pc' = "clean"
           /\ UNCHANGED <<work, cur, mem, acked, crashes, faults>>
\* The work files are removed one by one.
Clean == /\ pc = "clean"
         /\ IF \A p \in P : work[p] = "none" THEN pc' = "ret" /\ UNCHANGED work
            ELSE pc' = "clean" /\ \E p \in P : work[p] # "none" /\ work' = [work EXCEPT ![p] = "none"]
         /\ UNCHANGED <<temp, target, cur, mem, acked, crashes, faults>>
Ret == /\ pc = "ret" /\ pc' = "idle" /\ acked' = acked \cup mem
       /\ UNCHANGED <<work, temp, target, cur, mem, crashes, faults>>

\* Temporary files have random names: one that a crash leaves is never used.
Crash == /\ pc # "down" /\ crashes < MaxCrash
         /\ pc' = "down" /\ crashes' = crashes + 1 /\ temp' = "none" /\ cur' = 0 /\ mem' = {}
         /\ UNCHANGED <<work, target, acked, faults>>

\* A call fails: the operation returns an error (a load may also go on with the
\* pieces that it could read), and its temporary file is removed.
Fail == /\ pc \in {"load", "wtemp", "wrename", "atemp", "arename", "clean"} /\ faults < MaxFault /\ faults' = faults + 1
        /\ temp' = "none" /\ cur' = 0
        /\ CASE pc = "load" -> \/ mem' = {} /\ pc' = "down"
                               \/ target = "none" /\ mem' \in SUBSET Full /\ mem' # Full /\ pc' = "idle"
             [] pc \in {"wtemp", "wrename"} -> mem' = mem /\ pc' = "idle"
             [] OTHER -> mem' = mem /\ pc' = "idle"
        /\ UNCHANGED <<work, target, acked, crashes>>
\* What could not be assembled, or cleaned up, is when the process is started again.
Exit == /\ pc = "idle" /\ mem = P /\ (target = "none" \/ Full # {})
        /\ pc' = "down" /\ mem' = {} /\ UNCHANGED <<work, temp, target, cur, acked, crashes, faults>>

Next == Start \/ Load \/ Begin \/ WTemp \/ WRename \/ ATemp \/ ARename \/ Clean \/ Ret \/ Exit \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Load \/ Begin \/ WTemp \/ WRename \/ ATemp \/ ARename \/ Clean \/ Ret \/ Exit)

NeverPartial == target # "part" /\ \A p \in P : work[p] # "part"
Durable == target # "none" \/ acked \subseteq Full
Exact == pc = "idle" /\ faults = 0 => acked \subseteq mem
Claims == mem \subseteq Full \/ target = "full"
PublishedWhole == target # "none" => pc = "down" \/ target = "full"
Finishes == <>[](target = "full" /\ pc = "idle" /\ mem = P)
=============================================================================
