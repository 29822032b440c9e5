-------------------------- MODULE StorageDiskTrace --------------------------
(* Logs of real processes that were killed at a system call, or in which one *)
(* system call failed, and that were started again, against what StorageDisk *)
(* allows to be seen from outside.  Events:                                   *)
(*   start [fault]                  a process starts; fault: one call fails     *)
(*   load [err, bits, down, pub]    loading returned                          *)
(*   put [i] / ret [err, bits]      the write that completes piece i          *)
(*   get [i] / got [err]            the whole of piece i is read              *)
(*   crash / exit                   the process is gone                       *)
(*   disk [pub]                     the target directory in between           *)
(* Rules are what counts:                                                    *)
(*   pub    the target directory holds nothing or the torrent, the torrent     *)
(*          once it is complete                                              *)
(*   claim  a piece counts as complete only if it is stored                   *)
(*   read   what is complete can be read, and is the torrent's                *)
(*   keep   what was stored is complete after loading                         *)
(*   ok     nothing fails without a failing call                              *)
(*   down   the number of bytes reported                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANTS N, PL, Total, Rules

VARIABLES tr, l,
          dur,    \* pieces that are stored
          mem,    \* pieces this process counts as complete
          pub,    \* "none" or "exact": the target directory
          pc, cur,
          fault   \* a call fails in this process
vars == <<tr, l, dur, mem, pub, pc, cur, fault>>
P == 0..(N - 1)
Ev == Traces[tr].ev
PLen(i) == IF i = N - 1 THEN Total - i * PL ELSE PL
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN PLen(i) + SumLen(S \ {i})
Rule(r, c) == r \in Rules => c

Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ dur = {} /\ mem = {} /\ pub = "none" /\ pc = "down" /\ cur = -1 /\ fault = FALSE

Is(k) == l <= Len(Ev) /\ Ev[l].k = k
Bits == {i \in P : Ev[l].bits[i + 1] = 1}

Start == /\ Is("start") /\ pc = "down" /\ pc' = "load" /\ cur' = -1 /\ mem' = {} /\ fault' = Ev[l].fault /\ l' = l + 1
         /\ UNCHANGED <<tr, dur, pub>>
Loaded == /\ Is("load") /\ pc = "load" /\ l' = l + 1
          /\ Rule("pub", Ev[l].pub = pub)
          /\ IF Ev[l].err = "ok"
             THEN /\ pc' = "idle" /\ mem' = Bits
                  /\ Rule("claim", Bits \subseteq dur)
                  /\ Rule("keep", fault \/ dur \subseteq Bits)
                  /\ Rule("pub", Bits = P => pub = "exact")
             ELSE pc' = "failed" /\ Rule("ok", fault) /\ mem' = Bits /\ Rule("claim", Bits \subseteq dur)
          /\ Rule("down", Ev[l].down = SumLen(Bits))
          /\ UNCHANGED <<tr, dur, pub, cur, fault>>
Put == Is("put") /\ pc = "idle" /\ pc' = "put" /\ cur' = Ev[l].i /\ l' = l + 1 /\ UNCHANGED <<tr, dur, mem, pub, fault>>
\* Silent: the piece, then the torrent, become durable.
Commit == pc = "put" /\ cur \notin dur /\ dur' = dur \cup {cur} /\ UNCHANGED <<tr, l, mem, pub, pc, cur, fault>>
Publish == pc \in {"put", "load"} /\ dur = P /\ pub = "none" /\ pub' = "exact" /\ UNCHANGED <<tr, l, dur, mem, pc, cur, fault>>
Ret == /\ Is("ret") /\ pc = "put" /\ pc' = "idle" /\ l' = l + 1
       /\ mem' = Bits /\ Rule("claim", mem \subseteq Bits /\ Bits \subseteq mem \cup ({cur} \cap dur))
       /\ Rule("down", Ev[l].down = SumLen(Bits))
       /\ CASE Ev[l].err = "ok" -> /\ Rule("claim", cur \in Bits /\ cur \in dur)
                                   /\ Rule("pub", Bits = P => pub = "exact")
            [] Ev[l].err = "exists" -> Rule("ok", cur \in mem)
            [] OTHER -> Rule("ok", fault)
       /\ UNCHANGED <<tr, dur, pub, cur, fault>>
\* A piece is stored for good only if it is there later; what is complete was
\* read twice if the first reading failed.
Get == /\ Is("get") /\ pc = "idle" /\ pc' = "get" /\ cur' = Ev[l].i /\ l' = l + 1 /\ UNCHANGED <<tr, dur, mem, pub, fault>>
Got == /\ Is("got") /\ pc = "get" /\ pc' = "idle" /\ l' = l + 1
       /\ Rule("read", IF cur \in mem THEN Ev[l].err = "data" \/ (fault /\ pub = "exact" /\ Ev[l].err = "error")
                       ELSE Ev[l].err = "error")
       /\ UNCHANGED <<tr, dur, mem, pub, cur, fault>>
Gone == /\ (Is("crash") \/ (Is("exit") /\ pc \in {"idle", "failed"})) /\ pc # "down" /\ pc' = "down" /\ cur' = -1 /\ l' = l + 1
        /\ UNCHANGED <<tr, dur, mem, pub, fault>>
Disk == Is("disk") /\ Rule("pub", Ev[l].pub = pub) /\ l' = l + 1 /\ UNCHANGED <<tr, dur, mem, pub, pc, cur, fault>>

Next == Start \/ Loaded \/ Put \/ Commit \/ Publish \/ Ret \/ Get \/ Got \/ Gone \/ Disk

Report == /\ l > Len(Ev) => CSVWrite("%1$s", <<ToString(tr)>>, IOEnv.ACCEPT)
          /\ IOEnv.PROGRESS # "" => CSVWrite("%1$s", <<ToString(l)>>, IOEnv.PROGRESS)
=============================================================================
