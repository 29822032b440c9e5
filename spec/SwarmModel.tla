----------------------------- MODULE SwarmModel -----------------------------
(* All executions of a small client that keeps the rules of Swarm.            *)
(*                                                                            *)
(* The environment makes up to Rounds stimuli, Burst of them at a time; the   *)
(* client then does anything that breaks no rule, until it rests.  TLC shows  *)
(* that the rules do not contradict each other (a client that keeps those for *)
(* its actions can always come to rest as required: no deadlock), that they   *)
(* imply the guarantees below, and that a client which keeps them finishes    *)
(* the download when a remote answers.                                        *)
EXTENDS Swarm, TLC
CONSTANTS Np, Nb, Done0, Rounds, Burst, MaxConns, Ids, Ips, Env, Addrs, Waived,
          Pre         \* remotes that are connected at the start, have all pieces and let the client ask for them
VARIABLES s,      \* state of Swarm
          n,      \* stimuli left
          u,      \* stimuli since the client last rested
          now, e  \* time; the event that led here
vars == <<s, n, u, now, e>>

BL == 10
Cfg == [np |-> Np, nb |-> [p \in 1..Np |-> Nb], size |-> [p \in 1..Np |-> Nb * BL], bl |-> BL, done |-> Done0,
        ip |-> [a \in 1..Addrs |-> a], interval |-> 0, real |-> FALSE]
Ev(kind) == [k |-> kind, t |-> now]
EvC(kind, c) == [k |-> kind, t |-> now, c |-> c]
CSm(c, m) == [k |-> "cs", t |-> now, c |-> c, m |-> m]
RSm(c, m) == [k |-> "rs", t |-> now, c |-> c, m |-> m]

P == 0..(Np - 1)
B == 0..(Nb - 1)
Seqs(S) == {q \in UNION {[1..i -> S] : i \in 0..Cardinality(S)} : \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]}
Sorted(S) == CHOOSE q \in Seqs(P) : SetOf(q) = S
Live(c) == ~s.c[c].rx /\ ~s.c[c].cx
Act(c) == Live(c) /\ s.c[c].ph = "on"

EnvEvents ==
  UNION {
    IF Len(s.c) < MaxConns /\ ~s.stopped THEN {Ev("in") @@ [c |-> Len(s.c) + 1, ip |-> i] : i \in Ips} ELSE {},
    {EvC("hs", c) @@ [pr |-> TRUE, h |-> h, i |-> i, x |-> 0] : c \in {d \in Conns(s) : Live(d) /\ s.c[d].ph = "new"}, i \in Ids, h \in IF "badhs" \in Env THEN {TRUE, FALSE} ELSE {TRUE}},
    {RSm(c, "choke") : c \in {d \in Conns(s) : Act(d) /\ ~s.c[d].rch /\ "choke" \in Env}},
    {RSm(c, "unchoke") : c \in {d \in Conns(s) : Act(d) /\ s.c[d].rch /\ "unchoke" \in Env}},
    {RSm(c, "have") @@ [p |-> p] : p \in P, c \in {d \in Conns(s) : Act(d) /\ "have" \in Env /\ P \ s.c[d].rhas # {}}},
    {RSm(c, "bf") @@ [S |-> Sorted(P), ok |-> TRUE] : c \in {d \in Conns(s) : Act(d) /\ "bf" \in Env}},
    {RSm(c, "req") @@ [p |-> p, b |-> 0, l |-> BL, q |-> "in", ps |-> <<p>>] : p \in P, c \in {d \in Conns(s) : Act(d) /\ "req" \in Env}},
    {RSm(x.c, "pc") @@ [p |-> x.p, b |-> o[1], ok |-> TRUE, good |-> g] : g \in IF "bad" \in Env THEN {TRUE, FALSE} ELSE {TRUE}, 
       <<x, o>> \in {<<y, z>> \in s.att \X UNION {w.out : w \in s.att} : z \in y.out /\ Act(y.c) /\ "pc" \in Env}},
    {RSm(c, "junk") : c \in {d \in Conns(s) : Live(d) /\ "junk" \in Env}},
    {EvC("rx", c) : c \in {d \in Conns(s) : Live(d) /\ "rx" \in Env}},
    IF "list" \in Env /\ ~s.stopped THEN {Ev("list") @@ [A |-> <<a>>] : a \in 1..Addrs} ELSE {},
    {Ev("dialed") @@ [c |-> Len(s.c) + 1, a |-> a] : a \in s.dialing},
    {Ev("dialfail") @@ [a |-> a] : a \in s.dialing},
    IF "stop" \in Env /\ ~s.stopped THEN {Ev("stop")} ELSE {} }

ClientEvents ==
  UNION {
    {EvC("chs", c) @@ [ok |-> TRUE] : c \in {d \in Up(s) : ~s.c[d].chs}},
    {CSm(c, "bf") @@ [S |-> Sorted(D), ok |-> TRUE] : D \in SUBSET P, c \in Up(s)},
    {CSm(c, "have") @@ [p |-> p] : p \in P, c \in Up(s)},
    {CSm(c, m) : m \in {"int", "nint", "choke", "unchoke"}, c \in Up(s)},
    {CSm(c, "req") @@ [p |-> p, b |-> b, ok |-> TRUE] : p \in P, b \in B, c \in Up(s)},
    {CSm(c, "pc") @@ [p |-> p, b |-> 0, l |-> BL, ok |-> TRUE] : p \in P, c \in Up(s)},
    {EvC("cx", c) : c \in Up(s)},
    {Ev("dial") @@ [a |-> a] : a \in s.listed},
    {Ev("dialfail") @@ [a |-> a] : a \in IF s.stopped THEN s.dialing ELSE {}}, \* given up
    IF s.stopped /\ ~s.returned THEN {Ev("ret")} ELSE {},
    IF s.stopped /\ ~s.lclosed THEN {Ev("lx")} ELSE {},
    IF s.stopped /\ ~s.stopann THEN {Ev("ann") @@ [ev |-> "stopped", up |-> s.up, down |-> s.downLo, left |-> Sum(s.cfg.size) - BL * Nb * Cardinality(s.done), own |-> TRUE]} ELSE {} }

Rests == {Ev("q") @@ [done |-> Sorted(D), up |-> s.up, down |-> d, fin |-> FALSE] :
            D \in {s.done \cup s.must \cup X : X \in SUBSET s.pend}, d \in {s.downLo, s.downHi}}

\* A remote that does all it should.
Honest ==
  LET c == 1 IN
  IF s.c = <<>> THEN Ev("in") @@ [c |-> 1, ip |-> 1]
  ELSE IF s.c[1].ph = "new" THEN EvC("hs", 1) @@ [pr |-> TRUE, h |-> TRUE, i |-> 1, x |-> 0]
  ELSE IF s.c[1].rhas # P THEN RSm(1, "bf") @@ [S |-> Sorted(P), ok |-> TRUE]
  ELSE IF s.c[1].rch THEN RSm(1, "unchoke")
  ELSE IF s.c[1].good < 0 THEN EvC("good", 1)
  ELSE LET q == {x \in s.att : x.c = 1 /\ \E o \in x.out : now - o[2] < 2000} IN
       IF q = {} THEN Ev("tick")
       ELSE LET x == CHOOSE y \in q : TRUE
            IN RSm(1, "pc") @@ [p |-> x.p, b |-> (CHOOSE o \in x.out : TRUE)[1], ok |-> TRUE, good |-> TRUE]

RECURSIVE After(_, _)
After(st, q) == IF q = <<>> THEN st ELSE After(Apply(st, q[1]), Tail(q))
Joined(c) ==
  LET ev(k) == [k |-> k, t |-> 0, c |-> c]
      rs(m) == ev("rs") @@ [m |-> m]
      cs(m) == ev("cs") @@ [m |-> m]
  IN <<ev("in") @@ [ip |-> c], ev("chs") @@ [ok |-> TRUE], ev("hs") @@ [pr |-> TRUE, h |-> TRUE, i |-> 1, x |-> 0],
       cs("bf") @@ [S |-> Done0, ok |-> TRUE], rs("bf") @@ [S |-> Sorted(P), ok |-> TRUE], cs("int"), rs("unchoke")>>
RECURSIVE AllJoined(_)
AllJoined(c) == IF c = 0 THEN <<>> ELSE AllJoined(c - 1) \o Joined(c)
Init == s = After(Start(Cfg), AllJoined(Pre)) /\ n = Rounds /\ u = Min(Pre, 1) /\ now = 0 /\ e = [k |-> "none"]
Take(x) == s' = Apply(s, x) /\ e' = x
Stimulus == ~("honest" \in Env) /\ \E x \in EnvEvents : n > 0 /\ u < Burst /\ (u > 0 => e.k \notin {"cs", "cx"}) /\ Take(x) /\ n' = n - 1 /\ u' = u + 1 /\ now' = now
Client == \E x \in ClientEvents : Broken(s, x) \subseteq Waived /\ Take(x) /\ s'.susp = {} /\ u' = Max(u, 1) /\ UNCHANGED <<n, now>>
Rest1 == u > 0 /\ \E x \in Rests : Broken(s, x) \subseteq Waived /\ Take(x) /\ u' = 0 /\ UNCHANGED <<n, now>>
\* Time passes while the client rests; what it does then it does of its own accord.
Tick == u = 0 /\ n > 0 /\ ~("honest" \in Env) /\ "tick" \in Env /\ \E d \in {13000, 30000, 60000} : now' = now + d /\ n' = n - 1 /\ u' = Burst /\ UNCHANGED s /\ e' = [k |-> "none"]
Good == /\ "honest" \in Env /\ u = 0 /\ n > 0 /\ n' = n - 1 /\ u' = Burst
        /\ IF Honest.k = "tick" THEN now' = now + 30000 /\ UNCHANGED s /\ e' = [k |-> "none"] ELSE Take(Honest) /\ now' = now
\* The environment is done.
Over == u = 0 /\ (n = 0 \/ s.stopped \/ EnvEvents = {}) /\ UNCHANGED vars
Next == Stimulus \/ Client \/ Rest1 \/ Tick \/ Good \/ Over
View == <<s, n, u, now, IF e.k = "cs" THEN e ELSE e.k = "cx">>

---------------------------------------------------------------------------
(* What the rules imply.                                                      *)
\* C12
OneEach == \A c, d \in On(s) : c # d /\ SameId(s.c[c], s.c[d]) => ~Sound(s.c[c]) \/ ~Sound(s.c[d]) \/ s.stopped
\* C11
NoStranger == \A c \in Conns(s) : s.c[c].ph # "on" => s.c[c].haves = {} /\ ~s.c[c].cint /\ s.c[c].cch
Strangers == e.k = "cs" => s.c[e.c].ph = "on" /\ (e.m = "bf" => s.c[e.c].haves = {} /\ ~s.c[e.c].cint /\ s.c[e.c].cch)
\* C13
Asked == e.k = "cs" /\ e.m = "pc" => e.p \in AllDone(s) /\ ~s.c[e.c].cch
\* C14
Asks == e.k = "cs" /\ e.m = "req" => e.p \notin s.done /\ e.p \in s.c[e.c].rhas /\ s.c[e.c].cint /\ (s.c[e.c].rch => s.c[e.c].chr)
Wants == e.k = "cs" /\ e.m = "int" => s.c[e.c].rhas \ s.done # {}
\* C15
OneFetch == \A x, y \in s.att : x.p = y.p /\ x.c # y.c => ~Going(s, x) \/ ~Going(s, y)
\* C14, C15
Wanted == \A x \in s.att : x.p \in s.c[x.c].rhas /\ (x.got = {} => x.p \notin s.done \/ x.c \in Conns(s))
\* C17: corrupt remotes are gone whenever the client rests, and what is verified came whole and right.
Contained == u = 0 /\ e.k = "q" => \A c \in Conns(s) : s.c[c].corrupt => s.c[c].cx
\* C18
Truth == u = 0 /\ e.k = "q" => \A c \in Conns(s) : s.c[c].bf \cup s.c[c].haves \subseteq s.done
\* C18
Told == u = 0 /\ e.k = "q" => \A c \in On(s) : Sound(s.c[c]) /\ ~s.stopped => s.done \subseteq s.c[c].bf \cup s.c[c].haves /\ s.c[c].bf \cup s.c[c].haves \subseteq s.done
\* C14
Interested == u = 0 /\ e.k = "q" => \A c \in On(s) : Sound(s.c[c]) /\ ~s.stopped /\ s.c[c].rhas \ s.done # {} => s.c[c].cint
\* C13
Answered1 == u = 0 /\ e.k = "q" => \A c \in On(s) : Sound(s.c[c]) /\ ~s.stopped => s.c[c].rq = <<>>
\* C12: nothing stays open that the remote closed
Freed == u = 0 /\ e.k = "q" => \A c \in Conns(s) : s.c[c].rx => s.c[c].cx
\* C17: a client that keeps the rules for what it does while there is a remote that answers is done in time.
Completes == "honest" \in Env /\ n = 0 /\ u = 0 => s.done = P
\* C08
Counts == u = 0 /\ e.k = "q" => s.downLo = s.downHi /\ s.up = s.up0
=============================================================================
