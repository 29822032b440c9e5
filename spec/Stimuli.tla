------------------------------ MODULE Stimuli ------------------------------
(* The environment of a client: all sequences of L things that remotes, the   *)
(* tracker and the clock can do to it after a prelude.  TLC writes them out,  *)
(* the driver does them to the real client, and SwarmTrace judges what it     *)
(* does in return.                                                            *)
(*                                                                            *)
(* What is done, as records [o, c, p, S, j] (j: at once, before the client    *)
(* has come to rest):                                                         *)
(*   in c p      connection c comes from host p, with identity p              *)
(*   raw c p     ... without a handshake; hs c S: which it sends, of kind S   *)
(*   bf c S, have c p, choke c, unchoke c, int c, nint c                      *)
(*   ans c, bad c, part c   it answers its oldest request, with wrong data,   *)
(*               all requests but the oldest                                  *)
(*   unreq c p   it sends a block of p nobody asked for                       *)
(*   req c p, reqs c p, cancel c p  it requests a block, twice, part of it    *)
(*   junk c, close c                                                          *)
(*   idle p      p seconds pass                                               *)
(*   list S, mode p S, drop p  addresses are listed, p behaves like S from    *)
(*               now on, its connections are closed                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NC,        \* connections
          NP, Done,  \* pieces; those that the client has
          Nb,        \* blocks of a piece
          Idents,    \* identities
          Kinds,     \* what is done
          HsKinds, Modes, Lists,
          Preludes,  \* sets of sequences
          L, MaxJ
VARIABLES q, n, j, cs
vars == <<q, n, j, cs>>

C == 1..NC
P == 0..(NP - 1)
Off == [st |-> "off", id |-> 0, rch |-> TRUE, has |-> {}, said |-> FALSE]
Op(o, c, p, S) == [o |-> o, c |-> c, p |-> p, S |-> S, j |-> FALSE]

\* What an operation does to what the remotes know.
Do(s, x) ==
  CASE x.o = "in" -> [s EXCEPT ![x.c] = [Off EXCEPT !.st = "on", !.id = x.p]]
    [] x.o = "raw" -> [s EXCEPT ![x.c] = [Off EXCEPT !.st = "new", !.id = x.p]]
    [] x.o = "hs" -> [s EXCEPT ![x.c].st = IF x.S = <<"good">> THEN "on" ELSE "bad"]
    [] x.o = "bf" -> [s EXCEPT ![x.c].has = {x.S[i] : i \in 1..Len(x.S)}, ![x.c].said = TRUE]
    [] x.o = "have" -> [s EXCEPT ![x.c].has = @ \cup {x.p}, ![x.c].said = TRUE]
    [] x.o = "choke" -> [s EXCEPT ![x.c].rch = TRUE, ![x.c].said = TRUE]
    [] x.o = "unchoke" -> [s EXCEPT ![x.c].rch = FALSE, ![x.c].said = TRUE]
    [] x.o \in {"close", "junk"} -> [s EXCEPT ![x.c].st = "closed"]
    [] x.o \in {"int", "nint", "ans", "bad", "part", "unreq", "req", "reqs", "cancel"} -> [s EXCEPT ![x.c].said = TRUE]
    [] OTHER -> s
RECURSIVE DoAll(_, _)
DoAll(s, w) == IF w = <<>> THEN s ELSE DoAll(Do(s, Head(w)), Tail(w))

Subs == {<<p>> : p \in P} \cup {[i \in 1..NP |-> i - 1]}
K(o, S) == IF o \in Kinds THEN S ELSE {}
On == {c \in C : cs[c].st = "on"}
Wants(c) == cs[c].has \ Done # {}     \* there may be requests to it
Ops ==
  UNION {
    K("in", {Op("in", c, p, <<>>) : c \in {d \in C : cs[d].st = "off" /\ \A b \in 1..(d - 1) : cs[b].st # "off"}, p \in Idents}),
    K("raw", {Op("raw", c, p, <<>>) : c \in {d \in C : cs[d].st = "off" /\ \A b \in 1..(d - 1) : cs[b].st # "off"}, p \in Idents}),
    K("hs", {Op("hs", c, 0, <<h>>) : c \in {d \in C : cs[d].st = "new"}, h \in HsKinds}),
    K("bf", {Op("bf", c, 0, S) : c \in {d \in On : ~cs[d].said}, S \in Subs}),
    UNION {K("have", {Op("have", c, p, <<>>) : p \in P \ cs[c].has}) : c \in On},
    K("choke", {Op("choke", c, 0, <<>>) : c \in {d \in On : ~cs[d].rch}}),
    K("unchoke", {Op("unchoke", c, 0, <<>>) : c \in {d \in On : cs[d].rch}}),
    UNION {K(o, {Op(o, c, 0, <<>>) : c \in {d \in On : Wants(d)}}) : o \in {"ans", "bad", "part"}},
    UNION {K(o, {Op(o, c, p, <<>>) : c \in On, p \in P}) : o \in {"req", "reqs", "cancel", "unreq"}},
    UNION {K(o, {Op(o, c, 0, <<>>) : c \in {d \in C : cs[d].st \in {"on", "new", "bad"}}}) : o \in {"close"}},
    UNION {K(o, {Op(o, c, 0, <<>>) : c \in On}) : o \in {"int", "nint", "junk"}},
    UNION {K(i[1], IF q # <<>> /\ q[Len(q)].o = "idle" THEN {} ELSE {Op("idle", 0, i[2], <<>>)}) : i \in {<<"idle13", 13>>, <<"idle30", 30>>}},
    K("list", {Op("list", 0, 0, S) : S \in Lists}),
    K("mode", {Op("mode", 0, p, <<m>>) : p \in Idents, m \in Modes}),
    K("drop", {Op("drop", 0, p, <<>>) : p \in Idents}) }

Init == \E w \in Preludes : q = w /\ cs = DoAll([c \in C |-> Off], w) /\ n = 0 /\ j = 0
Next == /\ n < L /\ n' = n + 1
        /\ \E x \in Ops :
             /\ cs' = Do(cs, x)
             /\ \/ q' = Append(q, x) /\ j' = j
                \/ j < MaxJ /\ n > 0 /\ x.o # "idle" /\ q[Len(q)].o # "idle" /\ q' = Append(q, [x EXCEPT !.j = TRUE]) /\ j' = j + 1
Report == n = L => CSVWrite("%1$s", <<ToJson(q)>>, IOEnv.EDGES)
=============================================================================
