--------------------------- MODULE BencodeEncode ---------------------------
(* Encoding Go values as bencoding and decoding them again.  Types and values *)
(* are trees; TLC enumerates them up to a bound and says what each must be    *)
(* encoded as, and what decoding that into a fresh value of the type gives.   *)
(* In keys and strings, # stands for the byte 255.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode, MapKeys, StructKeys  \* sets of keys, all from Order

Out == IOEnv.EDGES
\* All keys, in the order of their bytes.
Order == <<"", "A", "Z", "a", "a b", "a-b", "a1", "aa", "ab", "b", "bb", "#">>
Ord(k) == CHOOSE j \in 1..Len(Order) : Order[j] = k

Signed == {"int8", "int16", "int32", "int64", "int", "nint"}
Unsigned == {"uint8", "uint16", "uint32", "uint64", "uint"}
Strings == {"string", "nstring"}
Byteses == {"bytes", "nbytes"}
Marshalers == {"mval", "mptr"}  \* their number n is encoded as the string mn

T(k) == [k |-> k]
List(t) == [k |-> "list", of |-> t]
Arr(t, n) == [k |-> "arr", of |-> t, n |-> n]
Map(t) == [k |-> "map", of |-> t]
NMap(t) == [k |-> "nmap", of |-> t]  \* keys of a named type
Ptr(t) == [k |-> "ptr", of |-> t]
Face == T("any")
Struct(f) == [k |-> "struct", f |-> f]
Fld(key, t, omit, tagged) == [key |-> key, t |-> t, omit |-> omit, tag |-> tagged, emb |-> FALSE]
Emb(t) == [key |-> "", t |-> t, omit |-> FALSE, tag |-> FALSE, emb |-> TRUE]

I(x) == [i |-> x]
S(x) == [s |-> x]
L(x) == [l |-> x]
M(x) == [m |-> x]  \* pairs of key and value, in any order
P(v) == [p |-> v]
A(t, v) == [t |-> t, p |-> v]
F(x) == [f |-> x]
Nil == [nil |-> TRUE]
Absent == [absent |-> TRUE]

IsNil(v) == "nil" \in DOMAIN v
IsEmpty(t, v) ==
  CASE t.k \in Strings \cup Byteses -> IsNil(v) \/ v.s = ""
    [] t.k \in {"list", "arr"} -> IsNil(v) \/ v.l = <<>>
    [] t.k \in {"map", "nmap"} -> IsNil(v) \/ v.m = <<>>
    [] t.k \in {"ptr", "any"} -> IsNil(v)
    [] t.k = "struct" -> FALSE
    [] OTHER -> v.i = "0"

\* The fields of a struct, those of embedded structs included.
Deref(t) == IF t.k = "ptr" THEN t.of ELSE t
\* A key that several fields have belongs to the shallowest one; among several
\* of that depth to the only one that has it from its tag; else to none.
RECURSIVE Leafs(_, _, _)
Leafs(fs, path, j) ==
  IF j > Len(fs) THEN <<>>
  ELSE (IF fs[j].emb THEN Leafs(Deref(fs[j].t).f, Append(path, j), 1) ELSE <<[key |-> fs[j].key, tag |-> fs[j].tag, path |-> Append(path, j)]>>)
       \o Leafs(fs, path, j + 1)
Vis(t) ==  \* the paths of the fields that are seen
  LET fl == Leafs(t.f, <<>>, 1)
      Owner(k) == LET same == {x \in 1..Len(fl) : fl[x].key = k}
                      top == {x \in same : \A y \in same : Len(fl[x].path) <= Len(fl[y].path)}
                      tagged == {x \in top : fl[x].tag}
                  IN IF Cardinality(top) = 1 THEN top ELSE IF Cardinality(tagged) = 1 THEN tagged ELSE {}
  IN {fl[x].path : x \in UNION {Owner(fl[y].key) : y \in 1..Len(fl)}}
RECURSIVE Flat(_, _, _, _)
Flat(fs, vs, path, j) ==
  IF j > Len(fs) THEN <<>>
  ELSE (IF fs[j].emb
        THEN LET s == Deref(fs[j].t)
                 v == IF vs[j] = Absent \/ IsNil(vs[j]) THEN Absent ELSE IF fs[j].t.k = "ptr" THEN vs[j].p ELSE vs[j]
             IN Flat(s.f, IF v = Absent THEN [x \in 1..Len(s.f) |-> Absent] ELSE v.f, Append(path, j), 1)
        ELSE <<[key |-> fs[j].key, t |-> fs[j].t, omit |-> fs[j].omit, v |-> vs[j], path |-> Append(path, j)]>>)
       \o Flat(fs, vs, path, j + 1)
Sort(q) == SortSeq(q, LAMBDA x, y : Ord(x.key) < Ord(y.key))
Visible(t, v) == LET vis == Vis(t) IN SelectSeq(Flat(t.f, v.f, <<>>, 1), LAMBDA e : e.path \in vis)
Written(t, v) == Sort(SelectSeq(Visible(t, v), LAMBDA e : e.v # Absent /\ ~IsNil(e.v) /\ ~(e.omit /\ IsEmpty(e.t, e.v))))
Pairs(t, v) == Sort(SelectSeq([j \in 1..Len(v.m) |-> [key |-> v.m[j][1], t |-> t.of, v |-> v.m[j][2]]], LAMBDA e : ~IsNil(e.v)))

Str(x) == ToString(Len(x)) \o ":" \o x
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Txt(_, _)
Txt(t, v) ==
  CASE t.k \in Strings \cup Byteses -> IF IsNil(v) THEN "0:" ELSE Str(v.s)
    [] t.k \in {"list", "arr"} -> IF IsNil(v) THEN "le" ELSE "l" \o Cat([j \in 1..Len(v.l) |-> Txt(t.of, v.l[j])]) \o "e"
    [] t.k \in {"map", "nmap"} -> IF IsNil(v) THEN "de" ELSE LET q == Pairs(t, v) IN "d" \o Cat([j \in 1..Len(q) |-> Str(q[j].key) \o Txt(q[j].t, q[j].v)]) \o "e"
    [] t.k = "struct" -> LET q == Written(t, v) IN "d" \o Cat([j \in 1..Len(q) |-> Str(q[j].key) \o Txt(q[j].t, q[j].v)]) \o "e"
    [] t.k = "ptr" -> Txt(t.of, v.p)
    [] t.k = "any" -> Txt(v.t, v.p)
    [] t.k \in Marshalers -> Str("m" \o v.i)
    [] OTHER -> "i" \o v.i \o "e"

\* A nil pointer or interface where a value must stand.
RECURSIVE Bad(_, _)
BadAt(t, v) == t.k \in {"ptr", "any"} /\ IsNil(v)
Bad(t, v) ==
  CASE t.k \in {"list", "arr"} -> ~IsNil(v) /\ \E j \in 1..Len(v.l) : BadAt(t.of, v.l[j]) \/ Bad(t.of, v.l[j])
    [] t.k \in {"map", "nmap"} -> ~IsNil(v) /\ LET q == Pairs(t, v) IN \E j \in 1..Len(q) : Bad(q[j].t, q[j].v)
    [] t.k = "struct" -> LET q == Written(t, v) IN \E j \in 1..Len(q) : Bad(q[j].t, q[j].v)
    [] t.k = "ptr" -> ~IsNil(v) /\ (BadAt(t.of, v.p) \/ Bad(t.of, v.p))
    [] t.k = "any" -> ~IsNil(v) /\ (BadAt(v.t, v.p) \/ Bad(v.t, v.p))
    [] OTHER -> FALSE

\* What is seen after decoding: [i], [s], [l], [d |-> <<key, view>>s], [f], nil.
RECURSIVE Zero(_)
Zero(t) == CASE t.k \in Strings -> S("")
             [] t.k \in Byteses \cup {"list", "map", "nmap", "ptr", "any"} -> Nil
             [] t.k = "arr" -> L([j \in 1..t.n |-> Zero(t.of)])
             [] t.k = "struct" -> F([j \in 1..Len(t.f) |-> Zero(t.f[j].t)])
             [] OTHER -> I("0")
RECURSIVE Writes(_, _, _, _)  \* does the embedded struct contribute a key?
Writes(vis, path, t, v) == \E j \in 1..Len(t.f) :
  LET f == t.f[j] w == v.f[j] IN
  IF f.emb THEN ~IsNil(w) /\ Writes(vis, Append(path, j), Deref(f.t), IF f.t.k = "ptr" THEN w.p ELSE w)
  ELSE Append(path, j) \in vis /\ ~IsNil(w) /\ ~(f.omit /\ IsEmpty(f.t, w))

RECURSIVE View(_, _)
RECURSIVE FieldsView(_, _, _, _)
RECURSIVE Loose(_, _)  \* decoded into an interface
FieldsView(vis, path, t, v) ==
  F([j \in 1..Len(t.f) |->
       LET f == t.f[j] w == v.f[j] IN
       LET in == IF f.t.k = "ptr" /\ ~IsNil(w) THEN w.p ELSE w IN
       IF f.emb THEN (IF f.t.k = "ptr" /\ (IsNil(w) \/ ~Writes(vis, Append(path, j), f.t.of, in)) THEN Nil ELSE FieldsView(vis, Append(path, j), Deref(f.t), in))
       ELSE IF Append(path, j) \notin vis \/ IsNil(w) \/ (f.omit /\ IsEmpty(f.t, w)) THEN Zero(f.t)
       ELSE View(f.t, w)])
View(t, v) ==
  CASE t.k \in Strings \cup Byteses -> IF IsNil(v) THEN S("") ELSE v
    [] t.k \in {"list", "arr"} -> IF IsNil(v) THEN L(<<>>) ELSE L([j \in 1..Len(v.l) |-> View(t.of, v.l[j])])
    [] t.k \in {"map", "nmap"} -> IF IsNil(v) THEN [d |-> <<>>] ELSE LET q == Pairs(t, v) IN [d |-> [j \in 1..Len(q) |-> <<q[j].key, View(q[j].t, q[j].v)>>]]
    [] t.k = "struct" -> FieldsView(Vis(t), <<>>, t, v)
    [] t.k = "ptr" -> View(t.of, v.p)
    [] t.k = "any" -> Loose(v.t, v.p)
    [] OTHER -> v
Loose(t, v) ==
  CASE t.k \in {"list", "arr"} -> IF IsNil(v) THEN L(<<>>) ELSE L([j \in 1..Len(v.l) |-> Loose(t.of, v.l[j])])
    [] t.k \in {"map", "nmap"} -> IF IsNil(v) THEN [d |-> <<>>] ELSE LET q == Pairs(t, v) IN [d |-> [j \in 1..Len(q) |-> <<q[j].key, Loose(q[j].t, q[j].v)>>]]
    [] t.k = "struct" -> LET q == Written(t, v) IN [d |-> [j \in 1..Len(q) |-> <<q[j].key, Loose(q[j].t, q[j].v)>>]]
    [] t.k = "ptr" -> Loose(t.of, v.p)
    [] t.k = "any" -> Loose(v.t, v.p)
    [] t.k \in Marshalers -> S("m" \o v.i)
    [] OTHER -> View(t, v)

----------------------------------------------------------------------------
\* The values tried: pairs of type and value.
V(t, v) == [t |-> t, v |-> v]
Bounds == [int8 |-> {"-128", "127"}, int16 |-> {"-32768", "32767"}, int32 |-> {"-2147483648", "2147483647"},
           int64 |-> {"-9223372036854775808", "9223372036854775807"}, int |-> {"-9223372036854775808", "9223372036854775807"}, nint |-> {"5"},
           uint8 |-> {"255"}, uint16 |-> {"65535"}, uint32 |-> {"4294967295"}, uint64 |-> {"18446744073709551615", "9223372036854775808"}, uint |-> {"18446744073709551615"}]
Numbers == UNION {{V(T(k), I(x)) : x \in Bounds[k] \cup {"0", "1", "10"}} : k \in Signed \cup Unsigned} \cup {V(T(k), I("-1")) : k \in Signed}
Texts == {"", "a", "#", "ab", "le", "1:a", "0123456789", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"}
Leaves == Numbers \cup {V(T(k), S(x)) : k \in Strings \cup Byteses, x \in Texts} \cup {V(T(k), Nil) : k \in Byteses} \cup {V(T(k), I(x)) : k \in Marshalers, x \in {"7", "-12"}}
Small == {V(T("int"), I("0")), V(T("int"), I("-1")), V(T("uint8"), I("200")), V(T("string"), S("")), V(T("string"), S("ab")), V(T("bytes"), Nil), V(T("bytes"), S("#a")),
          V(T("mval"), I("7")), V(T("mptr"), I("8")), V(Ptr(T("int")), Nil), V(Ptr(T("int")), P(I("3"))), V(Ptr(T("mptr")), P(I("9"))), V(Ptr(T("string")), Nil),
          V(Face, Nil), V(Face, A(T("int"), I("4"))), V(Face, A(T("string"), S("x"))), V(Face, A(T("mptr"), I("5"))), V(Face, A(Ptr(T("int")), Nil)), V(Face, A(Ptr(T("int")), P(I("6")))),
          V(Ptr(Ptr(T("int"))), P(P(I("2")))), V(Ptr(Ptr(T("int"))), P(Nil)), V(Ptr(List(T("int"))), P(Nil)), V(Ptr(Face), P(Nil)),
          V(List(T("int")), Nil), V(List(T("int")), L(<<>>)), V(List(T("int")), L(<<I("1"), I("2")>>)), V(Map(T("int")), Nil), V(Map(T("int")), M(<<>>)),
          V(Map(T("int")), M(<<<<"b", I("1")>>, <<"a", I("2")>>>>)), V(Arr(T("int"), 2), L(<<I("0"), I("1")>>)), V(Arr(T("int"), 0), L(<<>>)), V(Arr(T("uint8"), 2), L(<<I("0"), I("9")>>)),
          V(Struct(<<>>), F(<<>>)), V(Struct(<<Fld("a", T("int"), TRUE, TRUE)>>), F(<<I("0")>>)), V(Struct(<<Fld("b", T("string"), FALSE, TRUE), Fld("a", T("int"), FALSE, FALSE)>>), F(<<S("q"), I("1")>>))}
\* Putting one value into every kind of container.
\* A byte array is not a byte string: []byte is, [n]byte is a list.
Single(x) ==
  (IF x.t = T("uint8") THEN {} ELSE {V(List(x.t), L(<<x.v>>))}) \cup
  {V(Arr(x.t, 1), L(<<x.v>>)), V(Map(x.t), M(<<<<"a", x.v>>>>)), V(NMap(x.t), M(<<<<"b", x.v>>>>)),
   V(Struct(<<Fld("a", x.t, FALSE, TRUE)>>), F(<<x.v>>)), V(Struct(<<Fld("a", x.t, TRUE, TRUE)>>), F(<<x.v>>)), V(Struct(<<Fld("aa", x.t, FALSE, FALSE)>>), F(<<x.v>>)),
   V(Struct(<<Emb(Struct(<<Fld("a", x.t, FALSE, TRUE), Fld("b", T("int"), FALSE, TRUE)>>))>>), F(<<F(<<x.v, I("3")>>)>>)),
   V(Ptr(x.t), P(x.v)), V(Ptr(Ptr(x.t)), P(P(x.v)))}
  \cup (IF x.t.k = "any" THEN {} ELSE {V(Face, A(x.t, x.v))})
Fits64(x) == x.v \notin {I("18446744073709551615"), I("9223372036854775808")}
One == UNION {Single(x) : x \in {y \in Leaves \cup Small : Fits64(y)}}
Nested(S1) == UNION {Single(x) : x \in S1}

Pair(x, y) ==  \* two values of one type
  {V(List(x.t), L(<<x.v, y.v>>)), V(Arr(x.t, 2), L(<<x.v, y.v>>)), V(Map(x.t), M(<<<<"b", x.v>>, <<"a", y.v>>>>)), V(Map(x.t), M(<<<<"a", x.v>>, <<"b", y.v>>>>)), V(Arr(x.t, 3), L(<<x.v, y.v, x.v>>))}
Two == {xy \in Small \X Small : xy[1].t = xy[2].t /\ xy[1].t # T("uint8")}

RECURSIVE Perms(_)
Perms(X) == IF X = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(X \ {x})} : x \in X}
KeyLists(K, n) == UNION {Perms(X) : X \in {Y \in SUBSET K : Cardinality(Y) <= n}}
Maps(n) == {V(Map(T("string")), M([j \in 1..Len(q) |-> <<q[j], S(q[j])>>])) : q \in KeyLists(MapKeys, n)}
           \cup {V(Face, A(NMap(T("nint")), M([j \in 1..Len(q) |-> <<q[j], I(ToString(j))>>]))) : q \in KeyLists(MapKeys, 3)}
Kind3 == {<<T("int"), I("0"), I("5")>>, <<T("string"), S(""), S("v")>>, <<Ptr(T("int")), Nil, P(I("0"))>>, <<List(T("string")), Nil, L(<<S("z")>>)>>, <<Face, Nil, A(T("string"), S("y"))>>}
Structs(n) == {V(Struct([j \in 1..Len(q) |-> Fld(q[j], k[1], o[j], TRUE)]), F([j \in 1..Len(q) |-> IF e[j] THEN k[2] ELSE k[3]])) :
                 q \in {r \in KeyLists(StructKeys, n) : Len(r) = n}, k \in Kind3, o \in [1..n -> BOOLEAN], e \in [1..n -> BOOLEAN]}
Mixed(n) == {V(Struct([j \in 1..Len(q) |-> Fld(q[j], ks[j][1], FALSE, TRUE)]), F([j \in 1..Len(q) |-> ks[j][3]])) :
               q \in {r \in KeyLists(StructKeys, n) : Len(r) = n}, ks \in [1..n -> Kind3]}

\* Embedding: fields before and after embedded structs, values and pointers,
\* two levels deep, nil, hidden.
In(k1, k2) == Struct(<<Fld(k1, T("int"), FALSE, TRUE), Fld(k2, T("string"), FALSE, TRUE)>>)
InV(x) == F(<<I(x), S("i" \o x)>>)
PtrIf(b, t) == IF b THEN Ptr(t) ELSE t
ValIf(b, v) == IF b THEN P(v) ELSE v
Fi(k) == Fld(k, T("int"), FALSE, TRUE)
Embeds ==
  {V(Struct(IF at = 1 THEN <<Emb(PtrIf(b, In(k1, k2))), Fi(k3), Fi(k4)>> ELSE IF at = 2 THEN <<Fi(k3), Emb(PtrIf(b, In(k1, k2))), Fi(k4)>> ELSE <<Fi(k3), Fi(k4), Emb(PtrIf(b, In(k1, k2)))>>),
     F(IF at = 1 THEN <<e, I("1"), I("2")>> ELSE IF at = 2 THEN <<I("1"), e, I("2")>> ELSE <<I("1"), I("2"), e>>)) :
     at \in 1..3, b \in {TRUE}, k1 \in {"a", "b"}, k2 \in {"aa", "bb"}, k3 \in {"ab", "a"}, k4 \in {"a1", "bb"}, e \in {P(InV("7")), Nil}}
  \cup {V(Struct(<<Fi("ab"), Emb(In(k1, k2)), Fi(k3)>>), F(<<I("1"), InV("7"), I("2")>>)) : k1 \in {"a", "b"}, k2 \in {"aa", "bb"}, k3 \in {"a", "bb", "a1"}}
  \cup {V(Struct(<<Fi("ab"), Emb(PtrIf(b1, Struct(<<Fi(k1), Emb(PtrIf(b2, In(k2, k3))), Emb(PtrIf(b3, Struct(<<Fi(k5)>>))), Fi("b")>>))), Fi(k4)>>),
          F(<<I("1"), ValIf(b1, F(<<I("2"), ValIf(b2, InV("7")), ValIf(b3, F(<<I("8")>>)), I("3")>>)), I("4")>>)) :
          b1 \in BOOLEAN, b2 \in BOOLEAN, b3 \in BOOLEAN, k1 \in {"a1", "aa"}, k2 \in {"a", "aa"}, k3 \in {"bb", "ab"}, k4 \in {"a", "a b"}, k5 \in {"a-b", "b"}}
\* Two or three embedded structs that have the same key, with and without tags.
Fk(k, tagged) == Fld(k, T("int"), FALSE, tagged)
Clashes ==
  {V(Struct(<<Emb(PtrIf(b1, Struct(<<Fk("a", g1), Fi("ab")>>))), Emb(PtrIf(b2, Struct(<<Fi("b"), Fk("a", g2)>>)))>> \o x.t),
     F(<<ValIf(b1, F(<<I("1"), I("2")>>)), ValIf(b2, F(<<I("3"), I("4")>>))>> \o x.v)) :
     b1 \in BOOLEAN, b2 \in BOOLEAN, g1 \in BOOLEAN, g2 \in BOOLEAN,
     x \in {[t |-> <<>>, v |-> <<>>], [t |-> <<Fi("bb")>>, v |-> <<I("5")>>], [t |-> <<Fi("a")>>, v |-> <<I("5")>>],
            [t |-> <<Emb(Struct(<<Fi("a1"), Emb(Struct(<<Fi("a"), Fi("aa")>>))>>))>>, v |-> <<F(<<I("5"), F(<<I("6"), I("7")>>)>>)>>]}}
  \cup {V(Struct(<<Emb(Struct(<<Fk("a", TRUE), Fi("ab")>>)), Fi("a1"), Emb(Struct(<<Fi("b"), Fk("a", TRUE)>>)), Emb(Struct(<<Fk("a", g), Fi("bb")>>))>>),
          F(<<F(<<I("1"), I("2")>>), I("8"), F(<<I("3"), I("4")>>), F(<<I("5"), I("6")>>)>>)) : g \in BOOLEAN}

Cases == CASE Mode = "leaves" -> Leaves \cup Small \cup One
           [] Mode = "nested" -> Nested({x \in One : ~Bad(x.t, x.v) /\ x.t.k # "struct"}) \cup UNION {Pair(xy[1], xy[2]) : xy \in Two}
           [] Mode = "maps" -> Maps(4)
           [] Mode = "structs" -> Structs(2) \cup Mixed(3) \cup Embeds \cup Clashes
           [] Mode = "deep" -> {x \in Nested(Nested({y : y \in UNION {Single(z) : z \in Small}})) : Fits64(x)}

RECURSIVE Base(_)
Base(v) == IF "p" \in DOMAIN v THEN Base(v.p) ELSE v
Good(x) == ~IsNil(Base(x.v))  \* at the top, a nil is no value

VARIABLE case
Init == case \in {y \in Cases : Good(y)}
Next == /\ case' = case
        /\ CSVWrite("%1$s", <<ToJson([f |-> "s", op |-> "encode", a |-> [t |-> case.t, v |-> case.v], t |-> "s",
             o |-> IF Bad(case.t, case.v) THEN [err |-> "error"] ELSE [err |-> "ok", txt |-> Txt(case.t, case.v), back |-> View(case.t, case.v)]])>>, Out)
=============================================================================
