------------------------------ MODULE Bencode ------------------------------
(* Decoding bencoding.  Mode "parse": a pushdown automaton reads one byte at  *)
(* a time; TLC enumerates every prefix that can still become a well-formed    *)
(* value, and for each of them every next byte.  So every way of being        *)
(* malformed within the bounds is tried, as is every well-formed value, into  *)
(* destinations of many types.  Mode "ints": integers around the bounds of    *)
(* every integer type.  Mode "hostile": deep nesting, huge lengths.  Modes    *)
(* "wide", "widenc": large values, decoded and encoded.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode,
          MaxLen,   \* longest input of mode "parse"
          Chars,    \* content of strings, in order; one character each
          Numbers,  \* decimals of mode "ints"
          Depths, Sizes

VARIABLE p   \* the parser: [txt, tok, stk, ...]

Out == IOEnv.EDGES
Emit(op, args, obs) == CSVWrite("%1$s", <<ToJson([f |-> "s", op |-> op, a |-> args, o |-> obs, t |-> "s"])>>, Out)

Digits == {"0", "1", "2"}
Bytes == Digits \cup {"i", "l", "d", "e", ":", "-", "+", "x", " "} \cup {Chars[k] : k \in 1..Len(Chars)}
Ord(c) == CHOOSE k \in 1..Len(Chars) : Chars[k] = c
RECURSIVE Less(_, _)  \* on sequences of characters
Less(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
              ELSE IF Head(x) = Head(y) THEN Less(Tail(x), Tail(y)) ELSE Ord(Head(x)) < Ord(Head(y))
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE Head(q) \o Text(Tail(q))

\* Values: [i |-> decimal], [s |-> text], [l |-> values], [d |-> <<key, value>>s].
I(x) == [i |-> x]
S(x) == [s |-> x]
L(x) == [l |-> x]
D(x) == [d |-> x]

\* tok: "val" (a value, or the end of a list or dictionary), "int", "len",
\* "str", "done", "dead".  Frames: [k |-> "l", v |-> values] and
\* [k |-> "d", v |-> pairs, key |-> <<>> or <<current key>>, last |-> keys so far].
Fresh == [txt |-> "", tok |-> "val", stk |-> <<>>, num |-> "", n |-> 0, str |-> <<>>, val |-> I("0")]
Top(q) == q.stk[Len(q.stk)]
AtKey(q) == q.stk # <<>> /\ Top(q).k = "d" /\ Top(q).key = <<>>
Dead(q) == [q EXCEPT !.tok = "dead"]
SetTop(q, f) == [q EXCEPT !.stk[Len(q.stk)] = f, !.tok = "val", !.num = "", !.n = 0, !.str = <<>>]
Drop(q) == [q EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]

\* A value v is complete (for strings, chars are its characters).
Finish(q, v, chars) ==
  IF q.stk = <<>> THEN [q EXCEPT !.tok = "done", !.val = v]
  ELSE LET f == Top(q) IN
    CASE f.k = "l" -> SetTop(q, [f EXCEPT !.v = Append(@, v)])
      [] f.k = "d" /\ f.key = <<>> -> IF f.last # <<>> /\ ~Less(f.last[1], chars) THEN Dead(q)
                                      ELSE SetTop(q, [f EXCEPT !.key = <<v.s>>, !.last = <<chars>>])
      [] OTHER -> SetTop(q, [f EXCEPT !.v = Append(@, <<f.key[1], v>>), !.key = <<>>])
IsDigit(c) == c \in Digits
RECURSIVE Num(_)
Num(x) == IF x = "" THEN 0 ELSE 10 * Num(SubSeq(x, 1, Len(x) - 1)) + (CHOOSE k \in 0..9 : ToString(k) = SubSeq(x, Len(x), Len(x)))
Read(q0, c) ==
  LET q == [q0 EXCEPT !.txt = @ \o c] IN
  CASE q.tok = "val" ->
         (CASE IsDigit(c) -> [q EXCEPT !.tok = "len", !.num = c]
            [] c = "e" /\ q.stk # <<>> /\ Top(q).k = "l" -> Finish(Drop(q), L(Top(q).v), <<>>)
            [] c = "e" /\ AtKey(q) -> Finish(Drop(q), D(Top(q).v), <<>>)
            [] AtKey(q) -> Dead(q)
            [] c = "i" -> [q EXCEPT !.tok = "int", !.num = ""]
            [] c = "l" -> [q EXCEPT !.stk = Append(@, [k |-> "l", v |-> <<>>, key |-> <<>>, last |-> <<>>])]
            [] c = "d" -> [q EXCEPT !.stk = Append(@, [k |-> "d", v |-> <<>>, key |-> <<>>, last |-> <<>>])]
            [] OTHER -> Dead(q))
    [] q.tok = "int" ->
         (CASE c = "-" /\ q.num = "" -> [q EXCEPT !.num = "-"]
            [] c = "0" /\ q.num = "-" -> Dead(q)
            [] IsDigit(c) /\ q.num # "0" -> [q EXCEPT !.num = @ \o c]
            [] c = "e" /\ q.num \notin {"", "-"} -> Finish(q, I(q.num), <<>>)
            [] OTHER -> Dead(q))
    [] q.tok = "len" ->
         (CASE IsDigit(c) -> [q EXCEPT !.num = @ \o c, !.tok = IF q.num = "0" THEN "unspecified" ELSE "len"]
            [] c = ":" -> LET n == Num(q.num) IN
                          IF n = 0 THEN Finish([q EXCEPT !.num = ""], S(""), <<>>) ELSE [q EXCEPT !.tok = "str", !.n = n, !.str = <<>>, !.num = ""]
            [] OTHER -> Dead(q))
    [] q.tok = "str" ->
         LET r == [q EXCEPT !.n = @ - 1, !.str = Append(@, c)] IN
         IF r.n > 0 THEN r ELSE Finish(r, S(Text(r.str)), r.str)

----------------------------------------------------------------------------
\* Which values fit which destinations, and what is then stored.  Views:
\* nil |-> TRUE for what was not set.
No == [no |-> TRUE]
RECURSIVE CanAll(_, _)
IsI(v) == "i" \in DOMAIN v
IsS(v) == "s" \in DOMAIN v
IsL(v) == "l" \in DOMAIN v
IsD(v) == "d" \in DOMAIN v
CanAll(q, k) == \A j \in 1..Len(q) : k \in DOMAIN q[j]
Get(q, key, none) == LET r == SelectSeq(q, LAMBDA e : e[1] = key) IN IF r = <<>> THEN none ELSE r[1][2]
Has(q, key) == \E j \in 1..Len(q) : q[j][1] = key
FitStruct(v) == \* struct { E []string "e"; Aa any; A int "a" }
  IF ~IsD(v) THEN No
  ELSE LET a == Get(v.d, "a", I("0"))
           e == Get(v.d, "e", L(<<>>))
       IN IF IsI(a) /\ IsL(e) /\ CanAll(e.l, "s")
          THEN D(<<<<"a", a>>, <<"aa", Get(v.d, "aa", [nil |-> TRUE])>>, <<"e", IF Has(v.d, "e") THEN e ELSE [nil |-> TRUE]>>>>)
          ELSE No
Fits(v) ==
  [any |-> v, ptr |-> v,
   int |-> IF IsI(v) THEN v ELSE No,
   uint |-> IF IsI(v) /\ SubSeq(v.i, 1, 1) # "-" THEN v ELSE No,
   string |-> IF IsS(v) THEN v ELSE No,
   bytes |-> IF IsS(v) THEN v ELSE No,
   anys |-> IF IsL(v) THEN v ELSE No,
   ints |-> IF IsL(v) /\ CanAll(v.l, "i") THEN v ELSE No,
   lists |-> IF IsL(v) /\ CanAll(v.l, "l") THEN v ELSE No,
   map |-> IF IsD(v) THEN v ELSE No,
   mapint |-> IF IsD(v) /\ \A j \in 1..Len(v.d) : IsI(v.d[j][2]) THEN v ELSE No,
   maplist |-> IF IsD(v) /\ \A j \in 1..Len(v.d) : IsL(v.d[j][2]) THEN v ELSE No,
   struct |-> FitStruct(v)]

RECURSIVE Es(_)
Es(n) == IF n = 0 THEN "" ELSE "e" \o Es(n - 1)

\* What may follow a byte that makes the input malformed, so that it is not
\* merely cut short.
After(q) == CASE q.tok = "int" -> {"e", "1e", ""}
              [] q.tok = "len" -> {":a", "1:", ""}
              [] q.tok = "str" -> {"i1e", ""}  \* a key out of order: with its value
              [] OTHER -> {"", "1:a"}

Parse ==
  /\ p.tok \notin {"done", "dead", "unspecified"}
  /\ Len(p.txt) < MaxLen
  /\ \E c \in (IF p.tok = "str" THEN {Chars[k] : k \in 1..Len(Chars)} ELSE Bytes) :
       LET q == Read(p, c) IN
       CASE q.tok = "unspecified" -> p' = q
         [] q.tok = "dead" -> p' = q /\ \A x \in After(p) : Emit("bad", [txt |-> q.txt \o x \o Es(Len(p.stk)), wrap |-> p.stk # <<>> \/ c # "e"], [err |-> "ok"])
         [] q.tok = "done" -> p' = q /\ \A x \in {"", "e", "i1e", ":"} : Emit("good", [txt |-> q.txt, more |-> x], [err |-> "ok", fits |-> Fits(q.val)])
         [] OTHER -> p' = q /\ Emit("bad", [txt |-> q.txt, wrap |-> FALSE], [err |-> "ok"])

----------------------------------------------------------------------------
\* Decimals without leading zeros, compared as numbers.
Neg(x) == SubSeq(x, 1, 1) = "-"
Abs(x) == IF Neg(x) THEN SubSeq(x, 2, Len(x)) ELSE x
DigitOf(c) == CHOOSE k \in 0..9 : ToString(k) = c
RECURSIVE LexLE(_, _)
LexLE(x, y) == IF x = "" THEN TRUE
               ELSE LET a == DigitOf(SubSeq(x, 1, 1)) b == DigitOf(SubSeq(y, 1, 1)) IN
                    IF a = b THEN LexLE(SubSeq(x, 2, Len(x)), SubSeq(y, 2, Len(y))) ELSE a < b
AbsLE(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLE(x, y))
LE(x, y) == CASE Neg(x) /\ ~Neg(y) -> TRUE
              [] ~Neg(x) /\ Neg(y) -> FALSE
              [] Neg(x) -> AbsLE(Abs(y), Abs(x))
              [] OTHER -> AbsLE(x, y)
Kinds == <<[k |-> "int8", lo |-> "-128", hi |-> "127"], [k |-> "int16", lo |-> "-32768", hi |-> "32767"],
           [k |-> "int32", lo |-> "-2147483648", hi |-> "2147483647"], [k |-> "int64", lo |-> "-9223372036854775808", hi |-> "9223372036854775807"],
           [k |-> "int", lo |-> "-9223372036854775808", hi |-> "9223372036854775807"], [k |-> "uint8", lo |-> "0", hi |-> "255"],
           [k |-> "uint16", lo |-> "0", hi |-> "65535"], [k |-> "uint32", lo |-> "0", hi |-> "4294967295"],
           [k |-> "uint64", lo |-> "0", hi |-> "18446744073709551615"], [k |-> "uint", lo |-> "0", hi |-> "18446744073709551615"],
           [k |-> "any", lo |-> "-9223372036854775808", hi |-> "9223372036854775807"]>>
Ints == \E x \in Numbers, j \in 1..Len(Kinds), ctx \in {"top", "list", "map", "struct", "ptr", "array"} :
  Emit("int", [n |-> x, k |-> Kinds[j].k, ctx |-> ctx], [err |-> IF LE(Kinds[j].lo, x) /\ LE(x, Kinds[j].hi) THEN "ok" ELSE "error"]) /\ p' = p
\* Skipped or passed on unread, integers may have any size.
Skips == \E x \in Numbers, ctx \in {"skip", "raw"} : Emit("int", [n |-> x, k |-> "raw", ctx |-> ctx], [err |-> "ok"]) /\ p' = p

Shapes == {"list", "dict", "mixed"}
Dests == {"any", "raw", "skip", "anys", "map", "struct", "rec"}
Hostile ==
  \/ \E sh \in Shapes, d \in Dests, n \in Depths, open \in BOOLEAN :
       /\ Emit("deep", [shape |-> sh, dest |-> d, n |-> n, open |-> open],
               IF open THEN [err |-> "error", bounded |-> TRUE]
               ELSE IF n <= 100 /\ d \in {"any", "raw", "skip"} THEN [err |-> "ok", bounded |-> TRUE]
               ELSE [bounded |-> TRUE])
       /\ p' = p
  \/ \E d \in Dests, n \in Sizes, at \in {"top", "list", "key", "value"} : Emit("length", [dest |-> d, n |-> n, at |-> at], [err |-> "error", bounded |-> TRUE]) /\ p' = p
  \/ \E d \in Dests, k \in {"ints", "strings", "empties", "keys", "digits", "lendigits"} : Emit("many", [dest |-> d, kind |-> k], [bounded |-> TRUE]) /\ p' = p

\* Large values: strings of n bytes, lists, dictionaries and structures of n
\* elements, nested n times.  They are stored whole, and read no differently
\* from small ones: one fault anywhere makes them malformed.
WideKinds == {"string", "ints", "strings", "lists", "dict", "struct", "keys", "deep"}
Sized(k, n) == (k = "deep" => n <= 100) /\ (k = "struct" => n <= 300)
Faults(k) == {"", "cut"} \cup (IF k \in {"dict", "struct"} THEN {"order", "twice"} ELSE {}) \cup (IF k \in {"string", "keys", "deep"} THEN {} ELSE {"alien"})
Wide == \E k \in WideKinds, n \in Depths : Sized(k, n) /\
  \E f \in Faults(k) : Emit("wide", [kind |-> k, n |-> n, fault |-> f], [err |-> "ok"]) /\ p' = p
WideEnc == \E k \in WideKinds, n \in Depths : Sized(k, n) /\ Emit("widenc", [kind |-> k, n |-> n], [err |-> "ok"]) /\ p' = p

Init == p = Fresh
Next == CASE Mode = "wide" -> Wide [] Mode = "widenc" -> WideEnc [] Mode = "parse" -> Parse [] Mode = "ints" -> Ints \/ Skips [] Mode = "hostile" -> Hostile

\* Rewriting a parsed value gives back the input.
RECURSIVE Enc(_)
RECURSIVE EncAll(_)
EncAll(q) == IF q = <<>> THEN "" ELSE Enc(Head(q)) \o EncAll(Tail(q))
RECURSIVE EncPairs(_)
EncPairs(q) == IF q = <<>> THEN "" ELSE Enc(S(Head(q)[1])) \o Enc(Head(q)[2]) \o EncPairs(Tail(q))
Enc(v) == CASE IsI(v) -> "i" \o v.i \o "e"
            [] IsS(v) -> ToString(Len(v.s)) \o ":" \o v.s
            [] IsL(v) -> "l" \o EncAll(v.l) \o "e"
            [] IsD(v) -> "d" \o EncPairs(v.d) \o "e"
Canonical == p.tok = "done" => Enc(p.val) = p.txt
=============================================================================
