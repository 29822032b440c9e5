---------------------------- MODULE NetworkModel ----------------------------
(* All executions of a small swarm: clients that register at a tracker,       *)
(* connect to those it names, and pass on pieces, while up to Faults things   *)
(* fail (a client stops, a connection breaks, an attempt to connect fails,    *)
(* the tracker does not answer, or forgets them).                             *)
(*                                                                            *)
(* TLC shows that such clients never break the rules of Network whenever they *)
(* are looked at (Sound), and that when nothing fails any more everybody gets *)
(* what anybody has (Spread).  Wrong switches one of their duties off:        *)
(* "again" asking the tracker again, "retry" connecting to those named again; *)
(* or adds a misbehaviour: "lose", "invent", "overcount", "cross" (clients    *)
(* that connect to each other at the same time end up without a connection).  *)
EXTENDS Network, TLC
CONSTANTS N, NP, Have, Faults, Wrong, Look
VARIABLES has, on, links, reg, asked, todo, faults, calm, moved,
          s, e \* what is seen of it: state of Network, the last event
vars == <<has, on, links, reg, asked, todo, faults, calm, moved, s, e>>
I == 1..N
P == 0..(NP - 1)
Cfg == [n |-> N, np |-> NP, size |-> [p \in 1..NP |-> 1]]
Sorted(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o F(T \ {x}) IN F(S)
None == [k |-> "none"]

Init ==
  /\ has = [i \in I |-> Have[i]] /\ on = {} /\ links = {} /\ reg = {} /\ asked = {}
  /\ todo = [i \in I |-> {}] /\ faults = Faults /\ calm = FALSE /\ moved = [i \in I |-> 0]
  /\ s = Start(Cfg) /\ e = None

See(ev) == IF Look THEN e' = ev /\ s' = Apply(s, ev) ELSE UNCHANGED <<s, e>>
\* Several things seen at once.
See2(evs) == IF Look THEN /\ e' = None
                          /\ s' = LET RECURSIVE F(_, _) F(x, q) == IF q = <<>> THEN x ELSE F(Apply(x, q[1]), Tail(q)) IN F(s, evs)
             ELSE UNCHANGED <<s, e>>
SeqOf(S, f(_)) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<f(x)>> \o F(T \ {x}) IN F(S)

Linked(i, j) == <<i, j>> \in links \/ <<j, i>> \in links

Up(i) ==
  /\ i \notin on /\ on' = on \cup {i} /\ See([k |-> "up", i |-> i])
  /\ moved' = [moved EXCEPT ![i] = 0]
  /\ UNCHANGED <<has, links, reg, asked, todo, faults, calm>>

Unlink(x) == [k |-> "unlink", i |-> x[1], j |-> x[2]]
Down(i) ==
  /\ i \in on /\ ~calm /\ faults > 0 /\ faults' = faults - 1
  /\ Look => s.known /\ s.has = has \* they are looked at before
  /\ on' = on \ {i} /\ links' = {x \in links : i \notin {x[1], x[2]}}
  /\ reg' = reg \ {i} /\ asked' = asked \ {i} /\ todo' = [todo EXCEPT ![i] = {}]
  /\ See2(SeqOf(links \ links', Unlink) \o <<[k |-> "down", i |-> i]>>)
  /\ UNCHANGED <<has, calm, moved>>

\* The tracker names everybody it knows (or, when it fails, nobody).
Ask(i) ==
  /\ i \in on /\ ("again" \in Wrong => i \notin asked)
  /\ asked' = asked \cup {i}
  /\ \/ reg' = reg \cup {i} /\ todo' = [todo EXCEPT ![i] = IF "retry" \in Wrong /\ i \in asked THEN @ ELSE @ \cup {j \in reg \ {i} : ~Linked(i, j)}] /\ UNCHANGED faults
     \/ ~calm /\ faults > 0 /\ faults' = faults - 1 /\ UNCHANGED <<reg, todo>>
  /\ UNCHANGED <<has, on, links, calm, moved, s, e>>

Connect(i, j) ==
  /\ i \in on /\ j \in todo[i] /\ todo' = [todo EXCEPT ![i] = @ \ {j}]
  /\ \/ j \in on /\ ~Linked(i, j) /\ links' = links \cup {<<i, j>>} /\ See([k |-> "link", i |-> i, j |-> j]) /\ UNCHANGED faults
     \/ (j \notin on \/ Linked(i, j)) /\ UNCHANGED <<links, faults, s, e>>
     \/ ~calm /\ faults > 0 /\ faults' = faults - 1 /\ UNCHANGED <<links, s, e>>
  /\ UNCHANGED <<has, on, reg, asked, calm, moved>>

Cross(i, j) ==
  /\ "cross" \in Wrong /\ {i, j} \subseteq on /\ ~Linked(i, j) /\ j \in todo[i] /\ i \in todo[j]
  /\ todo' = [todo EXCEPT ![i] = @ \ {j}, ![j] = @ \ {i}]
  /\ UNCHANGED <<has, on, links, reg, asked, faults, calm, moved, s, e>>

Forget ==
  /\ ~calm /\ faults > 0 /\ faults' = faults - 1 /\ reg' = {}
  /\ UNCHANGED <<has, on, links, asked, todo, calm, moved, s, e>>

Break(x) ==
  /\ ~calm /\ faults > 0 /\ faults' = faults - 1 /\ links' = links \ {x} /\ See(Unlink(x))
  /\ UNCHANGED <<has, on, reg, asked, todo, calm, moved>>

Pass(i, j, p) ==
  /\ Linked(i, j) /\ p \in has[i] \ has[j]
  /\ has' = [has EXCEPT ![j] = @ \cup {p}] /\ moved' = [moved EXCEPT ![j] = @ + 1]
  /\ UNCHANGED <<on, links, reg, asked, todo, faults, calm, s, e>>

Misbehave ==
  /\ \/ "lose" \in Wrong /\ \E i \in I : \E p \in has[i] : has' = [has EXCEPT ![i] = @ \ {p}] /\ UNCHANGED moved
     \/ "invent" \in Wrong /\ \E i \in on : \E p \in P \ has[i] : has' = [has EXCEPT ![i] = @ \cup {p}] /\ moved' = [moved EXCEPT ![i] = @ + 1]
     \/ "overcount" \in Wrong /\ \E i \in on : \E p \in P \ has[i] : has' = [has EXCEPT ![i] = @ \cup {p}] /\ UNCHANGED moved
  /\ UNCHANGED <<on, links, reg, asked, todo, faults, calm, s, e>>

RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN moved[i] + Total(S \ {i})
LookAt ==
  /\ Look
  /\ LET all == Cardinality({<<i, p>> \in I \X P : p \in has[i] \ Have[i]})
     IN See([k |-> "q", has |-> [i \in I |-> Sorted(has[i])], on |-> Sorted(on), up |-> all, down |-> all, life |-> moved])
  /\ UNCHANGED <<has, on, links, reg, asked, todo, faults, calm, moved>>

Calm ==
  /\ ~calm /\ calm' = TRUE /\ on = I /\ See([k |-> "calm"])
  /\ UNCHANGED <<has, on, links, reg, asked, todo, faults, moved>>

Next ==
  \/ \E i \in I : Up(i) \/ Down(i) \/ Ask(i)
  \/ \E i, j \in I : Connect(i, j) \/ Cross(i, j)
  \/ Forget
  \/ \E x \in links : Break(x)
  \/ \E i, j \in I, p \in P : Pass(i, j, p)
  \/ Misbehave \/ LookAt \/ Calm

Fair ==
  /\ \A i \in I : WF_vars(Up(i)) /\ WF_vars(Ask(i))
  /\ \A i, j \in I : WF_vars(Connect(i, j)) /\ \A p \in P : WF_vars(Pass(i, j, p))
Spec == Init /\ [][Next]_vars /\ Fair

Sound == [][Look => Broken(s, e') = {}]_vars
Spread == calm ~> \A i \in I : has[i] = UNION {has[j] : j \in I}
=============================================================================
