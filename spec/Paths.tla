-------------------------------- MODULE Paths --------------------------------
(* Which torrent names and file paths stay inside the target directory.      *)
(* A component is given as the sequence of its parts between separators      *)
(* (so <<"..","x">> is the string "../x", <<"", "etc">> is "/etc"); the path *)
(* of a file is target / name / path components, resolved part by part.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Comps,     \* possible names and components
          MaxDepth,  \* components per file path
          Pairs      \* BOOLEAN: also torrents with two files

VARIABLE s

Init == s = "none"
Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args, o |-> obs, t |-> t])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))

\* Resolving parts from depth d below the target directory (lexically, as the
\* operating system does without symbolic links): the lowest depth reached and
\* the depth at the end.
RECURSIVE Resolve(_, _, _)
Resolve(parts, d, low) ==
  IF parts = <<>> THEN [d |-> d, low |-> low]
  ELSE LET d2 == CASE Head(parts) = ".." -> d - 1
                   [] Head(parts) \in {"", "."} -> d
                   [] OTHER -> d + 1
       IN Resolve(Tail(parts), d2, IF d2 < low THEN d2 ELSE low)

\* Where the file of the torrent would be put.
At(name, path) == Resolve(Flatten(<<name>> \o path), 0, 0)
\* Leads outside of the target directory, or is the target directory itself.
Escapes(name, path) == At(name, path).low < 0 \/ At(name, path).d = 0
EscapesDir(name) == At(name, <<>>).low < 0 \/ At(name, <<>>).d = 0

Plain(c) == Len(c) = 1 /\ c[1] \notin {"", ".", ".."} /\ c[1] # "NUL"
HasNul(c) == \E j \in 1..Len(c) : c[j] = "NUL"

PathsOf == UNION {[1..n -> Comps] : n \in 1..MaxDepth}

\* What loading may answer: dangerous names are refused, ordinary ones are
\* accepted; the rest (say "a/b" as a name) is up to the implementation.
Verdicts(name, files) ==
  LET bad == \/ EscapesDir(name) \/ HasNul(name)
             \/ \E j \in 1..Len(files) : Escapes(name, files[j]) \/ \E c \in 1..Len(files[j]) : HasNul(files[j][c])
      good == Plain(name) /\ \A j \in 1..Len(files) : \A c \in 1..Len(files[j]) : Plain(files[j][c])
      \* two files in the same place, or one file below another
      clash == Len(files) = 2 /\ \E n \in 1..MaxDepth :
                  /\ n <= Len(files[1]) /\ n <= Len(files[2]) /\ (n = Len(files[1]) \/ n = Len(files[2]))
                  /\ SubSeq(files[1], 1, n) = SubSeq(files[2], 1, n)
  IN IF bad THEN {"error"} ELSE IF good /\ ~clash THEN {"ok"} ELSE {"ok", "error"}

\* outside: nothing outside of the target and work directories was changed or
\* read.  An accepted torrent is downloaded and served completely (ordinary
\* ones must be published exactly).
Try(name, files) ==
  \E v \in Verdicts(name, files) :
    Step("try", [name |-> name, files |-> files],
         [load |-> v, outside |-> "unchanged"]
         @@ (IF v = "ok" /\ Verdicts(name, files) = {"ok"} THEN [pub |-> "exact"] ELSE <<>>), "none")

Next == \/ \E name \in Comps : Try(name, <<>>)
        \/ \E name \in Comps, p \in PathsOf : Try(name, <<p>>)
        \/ Pairs /\ \E p \in PathsOf, q \in PathsOf : Try(<<"t">>, <<p, q>>)

\* Laws of resolution: plain names never escape; what escapes is never plain.
PlainStays == \A name \in Comps, p \in PathsOf :
                (Plain(name) /\ \A c \in 1..Len(p) : Plain(p[c])) => ~Escapes(name, p)
=============================================================================
