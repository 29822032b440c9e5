------------------------------ MODULE Network ------------------------------
(* Several clients and their tracker together: which client has which pieces, *)
(* who runs and who is connected to whom.  Pieces travel over connections     *)
(* only, they are never lost, and once nothing fails any more every piece     *)
(* that somebody has gets to everybody.                                       *)
(*                                                                            *)
(* As in Swarm, Broken(s, e) is the set of rules that event e breaks in state *)
(* s and Apply(s, e) the state it leads to.  NetworkTrace checks recorded     *)
(* executions of real clients against it, NetworkModel all executions of a    *)
(* small swarm.                                                               *)
(*                                                                            *)
(* Events: k and t (time in ms), and                                          *)
(*  up i, down i      client i starts, stops                                  *)
(*  link i j          i has connected to j;  unlink: no more                  *)
(*  q has on up down life   all rest: pieces and running clients; bytes sent  *)
(*                    and received by all ever, and by each in this life      *)
(*  calm              from now on nothing fails                               *)
(*  end pub           what is in the target directories                       *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE SumOf(_, _)
SumOf(size, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN size[p + 1] + SumOf(size, S \ {p})
If(ok, rule) == IF ok THEN {} ELSE {rule}

Nodes(s) == 1..s.cfg.n
Pieces(s) == 0..(s.cfg.np - 1)

Start(cfg) ==
  [cfg |-> cfg, has |-> [i \in 1..cfg.n |-> {}], known |-> FALSE, on |-> {},
   now |-> {}, seen |-> {}, got |-> [i \in 1..cfg.n |-> {}], up |-> 0, down |-> 0, calm |-> FALSE]

\* Those that i was connected to in this round, and those they were, and so on.
RECURSIVE Reach(_, _)
Reach(links, S) ==
  LET T == S \cup {x[2] : x \in {y \in links : y[1] \in S}} \cup {x[1] : x \in {y \in links : y[2] \in S}}
  IN IF T = S THEN S ELSE Reach(links, T)

Union(has) == UNION {has[i] : i \in DOMAIN has}

BrokenQ(s, e) ==
  IF ~s.known THEN {} ELSE
  UNION {LET D == SetOf(e.has[i])
             new == D \ s.has[i]
             src == Reach(s.seen, {i}) \ {i}
         IN If(s.has[i] \subseteq D, "keep")
            \cup If(new # {} => i \in s.on, "origin")
            \cup If(\A p \in new : \E j \in src : p \in s.has[j], "origin")
            \cup If(i \in SetOf(e.on) => e.life[i] >= SumOf(s.cfg.size, s.got[i] \cup new), "bytes")
         : i \in Nodes(s)}
  \cup If(e.down <= e.up /\ s.up <= e.up /\ s.down <= e.down, "bytes")

BrokenEnd(s, e) ==
  If(s.calm => \A i \in Nodes(s) : s.has[i] = Union(s.has), "everybody")
  \cup If(\A i \in Nodes(s) : e.pub[i] = (IF s.has[i] = Pieces(s) THEN "exact" ELSE "none"), "published")

Broken(s, e) ==
  CASE e.k = "q" -> BrokenQ(s, e)
    [] e.k = "end" -> BrokenEnd(s, e)
    [] e.k = "link" -> If(e.i # e.j /\ e.i \in s.on, "origin")
    [] OTHER -> {}

\* (Links are counted: there can be two between the same clients for a moment.)
Apply(s, e) ==
  CASE e.k = "up" -> [s EXCEPT !.on = @ \cup {e.i}, !.got[e.i] = {}]
    [] e.k = "down" -> [s EXCEPT !.on = @ \ {e.i}]
    [] e.k = "link" -> LET x == <<e.i, e.j, Cardinality({y \in s.now : y[1] = e.i /\ y[2] = e.j})>>
                       IN [s EXCEPT !.now = @ \cup {x}, !.seen = @ \cup {<<e.i, e.j>>}]
    [] e.k = "unlink" -> LET n == Cardinality({y \in s.now : y[1] = e.i /\ y[2] = e.j})
                         IN [s EXCEPT !.now = @ \ {<<e.i, e.j, n - 1>>}]
    [] e.k = "q" ->
         LET h == [i \in Nodes(s) |-> SetOf(e.has[i])] IN
         [s EXCEPT !.has = h, !.known = TRUE, !.got = [i \in Nodes(s) |-> IF s.known THEN @[i] \cup (h[i] \ s.has[i]) ELSE {}],
                   !.seen = {<<y[1], y[2]>> : y \in s.now}, !.up = e.up, !.down = e.down]
    [] e.k = "calm" -> [s EXCEPT !.calm = TRUE]
    [] OTHER -> s
=============================================================================
