----------------------------- MODULE StorageLoad -----------------------------
(* What loading a torrent makes of arbitrary leftovers in its directories:   *)
(* only exact piece files count, an exact target is the finished torrent,     *)
(* anything else is never taken for torrent data.  Afterwards the rest can be *)
(* downloaded.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS N,           \* number of pieces
          Kinds,       \* states of a work file
          TargetKinds, \* states of the target: "absent", "exact", foreign ones
          FewKinds     \* work file states to combine with a present target

VARIABLE s  \* [ph |-> "fresh"/"mangled"/"loaded"/"failed", w, tgt, done]

Init == s = [ph |-> "fresh", w |-> <<>>, tgt |-> "absent", done |-> {}]

\* States are named with their sets written out in a canonical way.
Key(t) == [t EXCEPT !.done = [k \in 1..N |-> k \in @]]
Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> Key(s), op |-> op, a |-> args, o |-> obs, t |-> Key(t)])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

P == 1..N
Bits(S) == [k \in P |-> IF k \in S THEN 1 ELSE 0]
Pub(t) == IF t.done = P THEN "exact" ELSE "none"

Mangle ==
  /\ s.ph = "fresh"
  /\ \E w \in [P -> Kinds], tgt \in TargetKinds :
       /\ tgt # "absent" => \A k \in P : w[k] \in FewKinds
       /\ Step("mangle", [w |-> w, tgt |-> tgt], [err |-> "ok"],
               [ph |-> "mangled", w |-> w, tgt |-> tgt, done |-> {}])

Exact(w) == {k \in P : w[k] = "exact"}

Load ==
  /\ s.ph = "mangled"
  /\ CASE s.tgt = "absent" ->
            LET t == [s EXCEPT !.ph = "loaded", !.done = Exact(s.w)] IN
            Step("load", <<>>, [err |-> "ok", bits |-> Bits(t.done), pub |-> Pub(t), down |-> Bits(t.done)], t)
       [] s.tgt = "exact" ->
            LET t == [s EXCEPT !.ph = "loaded", !.done = P] IN
            Step("load", <<>>, [err |-> "ok", bits |-> Bits(P), pub |-> "exact", down |-> Bits(P)], t)
       [] OTHER ->
            \* Something else has the torrent's name: refused, and never taken for it.
            Step("load", <<>>, [err |-> "error", bits |-> Bits({})], [s EXCEPT !.ph = "failed"])

Again ==
  /\ s.ph = "loaded"
  /\ Step("load", <<>>, [err |-> "ok", bits |-> Bits(s.done), pub |-> Pub(s), down |-> Bits(s.done)], s)

Get == /\ s.ph = "loaded"
       /\ \E k \in P : Step("get", [i |-> k - 1], [err |-> IF k \in s.done THEN "data" ELSE "error"], s)

\* Everything missing is downloaded.  (A directory in the place of a work file
\* is in the way; what happens then is not specified.)
Finish ==
  /\ s.ph = "loaded" /\ \A k \in P : s.w[k] # "dir"
  /\ LET t == [s EXCEPT !.done = P] IN
     Step("finish", <<>>, [err |-> "ok", bits |-> Bits(P), pub |-> "exact", down |-> Bits(P)], t)

\* A damaged file is really kept out: overwriting it piece by piece.
Piece ==
  /\ s.ph = "loaded" /\ \A k \in P : s.w[k] # "dir"
  /\ \E k \in P \ s.done :
       LET t == [s EXCEPT !.done = @ \cup {k}] IN
       Step("piece", [i |-> k - 1], [err |-> "ok", bits |-> Bits(t.done), pub |-> Pub(t), down |-> Bits(t.done)], t)

Next == Mangle \/ Load \/ Again \/ Get \/ Finish \/ Piece

OnlyExact == s.ph = "loaded" /\ s.tgt = "absent" => Exact(s.w) \subseteq s.done
NothingFromForeign == s.ph = "failed" => s.done = {}
=============================================================================
