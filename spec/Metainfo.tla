------------------------------ MODULE Metainfo ------------------------------
(* Torrent files.  Every field has a sequence of options: how it is written   *)
(* in the file and what must be read; a case deviates from the plain torrent  *)
(* in up to MaxDev fields.  The info hash is the SHA-1 of the info value's    *)
(* own bytes (computed by the driver from the text the model gives).          *)
(* Mode "large": one field large (many files, pieces, trackers, long texts).  *)
(* Modes "geometry" and "manyfiles" are about lengths of pieces.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode, MaxDev, Units, PieceLens, FileLens, MaxFiles, Sizes

Out == IOEnv.EDGES
Str(x) == ToString(Len(x)) \o ":" \o x
Cat(q) == FoldLeft(LAMBDA x, y : x \o y, "", q)
O(x, v) == [x |-> x, v |-> v, e |-> FALSE]
Bad(x) == [x |-> x, v |-> "", e |-> TRUE]
Text(x) == O(Str(x), x)
H(c) == Cat([j \in 1..20 |-> c])
H1 == "0123456789abcdefghij"
H2 == "ijABCDEFGHIJKLMNOPQ#"

File(len, path) == "d6:lengthi" \o len \o "e4:pathl" \o Cat([j \in 1..Len(path) |-> Str(path[j])]) \o "ee"
FV(len, md5, path) == [len |-> len, md5 |-> md5, path |-> path]
Strange == <<O("", ""), O("i0e", ""), O("3:a:b", ""), O("l4:spami-3ee", ""), O("d1:ai1e1:bd1:cleee", ""), O("i99999999999999999999e", ""), O("de", ""), O("0:", ""),
             O("5:##e#e", ""), Bad("i01e"), Bad("d1:bi1e1:ai2ee"), Bad("i-0e"), Bad("x"), Bad("-1:a")>>

\* Keys in the order in which they must stand.
InfoKeys == <<"Zz", "files", "length", "md5sum", "meta version", "name", "piece length", "pieces", "private", "zz">>
TopKeys == <<"A", "announce", "announce-list", "comment", "created by", "creation date", "encoding", "info", "infp", "url-list">>
Options == [
  Zz |-> Strange,
  files |-> <<O("", <<>>), O("le", <<>>), O("l" \o File("5", <<"a">>) \o "e", <<FV("5", "", <<"a">>)>>),
              O("l" \o File("0", <<"d", "b">>) \o File("4294967299", <<"d", "c#">>) \o "e", <<FV("0", "", <<"d", "b">>), FV("4294967299", "", <<"d", "c#">>)>>),
              O("ld4:attr1:x6:lengthi7e6:md5sum2:mm4:pathl1:ae3:zzzdeee", <<FV("7", "mm", <<"a">>)>>),
              O("l" \o File("1", <<"b">>) \o File("2", <<"a">>) \o File("3", <<"c">>) \o "e", <<FV("1", "", <<"b">>), FV("2", "", <<"a">>), FV("3", "", <<"c">>)>>),
              Bad("de"), Bad("li1ee"), Bad("l" \o "d6:length1:54:pathl1:aeee"), Bad("ld6:lengthi5e4:path1:aee"), Bad("ld4:pathl1:ae6:lengthi5eee")>>,
  length |-> <<O("i10e", "10"), O("", "0"), O("i0e", "0"), O("i9223372036854775807e", "9223372036854775807"), Bad("i9223372036854775808e"), Bad("2:10"), Bad("i010e"), Bad("ie")>>,
  md5sum |-> <<O("", ""), Text("d41d8cd98f00b204e9800998ecf8427e"), Bad("i1e")>>,
  metaversion |-> Strange,
  name |-> <<Text("x"), O("", ""), Text(""), Text("a#b c/\\"), Bad("i1e"), Bad("l1:ae")>>,
  piecelength |-> <<O("i4e", "4"), O("", "0"), O("i262144e", "262144"), O("i4294967296e", "4294967296"), Bad("1:4"), Bad("i99999999999999999999e"), Bad("i+4e")>>,
  pieces |-> <<O(Str(H1 \o H2 \o H("e")), <<H1, H2, H("e")>>), O("0:", <<>>), O("", <<>>), O(Str(H2), <<H2>>), O(Str(H1 \o H1), <<H1, H1>>),
               O(Str(Cat([j \in 1..13 |-> H(ToString(j % 10))])), [j \in 1..13 |-> H(ToString(j % 10))]),
               Bad(Str("x")), Bad(Str(H1 \o "x")), Bad("19:0123456789abcdefghi"), Bad("39:" \o H1 \o "0123456789abcdefghi"), Bad(Str(H1 \o "0123456789")), Bad("l20:" \o H1 \o "e"), Bad("i20e")>>,
  private |-> <<O("", "0"), O("i1e", "1"), O("i0e", "0"), Bad("1:1")>>,
  zz |-> Strange,
  A |-> Strange,
  announce |-> <<Text("http://t/a"), O("", ""), Text("http://t/?q=1&b=##"), Bad("i1e")>>,
  announcelist |-> <<O("", <<>>), O("le", <<>>), O("ll1:aee", <<<<"a">>>>), O("ll1:a1:belelee", <<<<"a", "b">>, <<>>, <<>>>>), O("ll1:a1:bel1:c1:dee", <<<<"a", "b">>, <<"c", "d">>>>), Bad("l1:ae"), Bad("de")>>,
  comment |-> <<O("", ""), Text("hello #"), Bad("i1e")>>,
  createdby |-> <<O("", ""), Text("drip"), Bad("de")>>,
  creationdate |-> <<O("", "none"), O("i1718200000e", "1718200000"), O("i0e", "0"), O("i-1e", "-1"), O("i4294967296e", "4294967296"), Bad("4:2024"), Bad("i9223372036854775808e")>>,
  encoding |-> <<O("", ""), Text("UTF-8"), Bad("le")>>,
  infp |-> Strange,
  urllist |-> Strange,
  twist |-> <<"none", "infoswap", "topswap", "infodup", "infokeytwice", "cut", "cutinfo", "trail", "infolist", "infostring">>]
Id(k) == CASE k = "meta version" -> "metaversion" [] k = "piece length" -> "piecelength" [] k = "announce-list" -> "announcelist" [] k = "created by" -> "createdby"
           [] k = "creation date" -> "creationdate" [] k = "url-list" -> "urllist" [] OTHER -> k

VARIABLES c,  \* the deviations: field -> option; fields not there have option 1
          o   \* the options in force, field by field
Fields == DOMAIN o
Opt(f) == o[f]
Twist == Opt("twist")
Entry(k) == IF Opt(Id(k)).x = "" THEN "" ELSE Str(k) \o Opt(Id(k)).x
Info0 == Cat([j \in 1..Len(InfoKeys) |-> Entry(InfoKeys[j])])
Info == CASE Twist = "infolist" -> "l" \o Str("x") \o "e"
          [] Twist = "infostring" -> Str("d" \o Info0 \o "e")
          [] OTHER -> "d" \o Info0 \o (CASE Twist = "infoswap" -> "3:zzyi1e3:zzxi1e" [] Twist = "infodup" -> "2:~ai1e2:~ai1e" [] OTHER -> "") \o (IF Twist = "cutinfo" THEN "" ELSE "e")
Body == "d" \o Cat([j \in 1..Len(TopKeys) |-> IF TopKeys[j] = "info" THEN Str("info") \o Info \o (IF Twist = "infokeytwice" THEN Str("info") \o Info ELSE "") ELSE Entry(TopKeys[j])])
Whole == Body \o (CASE Twist = "topswap" -> "2:~bi1e2:~ai1e" [] OTHER -> "") \o (CASE Twist \in {"cut", "cutinfo"} -> "" [] Twist = "trail" -> "eee" [] OTHER -> "e")
Wrong == Twist \notin {"none", "trail"} \/ \E f \in Fields \ {"twist"} : Opt(f).e
V(f) == Opt(f).v
Read == [pl |-> V("piecelength"), pieces |-> V("pieces"), name |-> V("name"), length |-> V("length"), md5 |-> V("md5sum"), private |-> V("private"), files |-> V("files"),
         announce |-> V("announce"), al |-> V("announcelist"), date |-> V("creationdate"), comment |-> V("comment"), by |-> V("createdby"), enc |-> V("encoding")]
\* Only then is the file as it would be written again.
Plain == /\ Twist = "none"
         /\ \A f \in {"Zz", "metaversion", "zz", "A", "infp", "urllist"} : Opt(f).x = ""
         /\ \A f \in {"piecelength", "name", "announce", "pieces"} : Opt(f).x # ""
         /\ Opt("pieces").x \notin {"", "0:"}
         /\ \A f \in {"private", "length"} : Opt(f).x # "i0e"
         /\ ~("files" \in DOMAIN c /\ c["files"] \in {2, 5}) /\ ~("announcelist" \in DOMAIN c /\ c["announcelist"] = 2)
Parse == /\ Mode \in {"fields", "large"}
         /\ CSVWrite("%1$s", <<ToJson([f |-> "s", op |-> "parse", a |-> [txt |-> Whole, info |-> Info, plain |-> Plain], t |-> "s",
              o |-> IF Wrong THEN [err |-> "error"] ELSE [err |-> "ok", read |-> Read, again |-> "same"]])>>, Out)
Deviate == /\ Mode = "fields" /\ Cardinality(DOMAIN c) < MaxDev
           /\ LET all == Options IN
              \E f \in Fields \ DOMAIN c : \E j \in 2..Len(all[f]) :
                c' = [x \in DOMAIN c \cup {f} |-> IF x = f THEN j ELSE c[x]] /\ o' = [o EXCEPT ![f] = all[f][j]]

\* Mode "large".
Run(a, n) == FoldLeft(LAMBDA x, y : IF 2 * Len(x) <= n THEN x \o x ELSE x, a, [j \in 1..20 |-> j]) \* at most n characters
Padded(n) == SubSeq("000000", 1, 6 - Len(ToString(n))) \o ToString(n)
Hash(n) == "hash of a piece" \o SubSeq(Padded(n), 2, 6)
List(q) == "l" \o Cat(q) \o "e"
LargeText(n, cut) == Str(SubSeq(Run("abcdefg#", 2 * n), 1, n) \o cut)
LargeOptions(n) ==
  LET pathOf(j) == IF j % 3 = 0 THEN <<"d" \o ToString(j % 7), ToString(j)>> ELSE <<ToString(j)>>
      lenOf(j) == ToString((j * 7919) % 10007)
      long == SubSeq(Run("abcdefg#", 2 * n), 1, n)
  IN [pieces |-> {O(Str(Cat([j \in 1..n |-> Hash(j)])), [j \in 1..n |-> Hash(j)]), Bad(Str(Cat([j \in 1..n |-> Hash(j)]) \o "x")), Bad(ToString(20 * n + 1) \o ":" \o Cat([j \in 1..n |-> Hash(j)]))},
      files |-> {O(List([j \in 1..n |-> File(lenOf(j), pathOf(j))]), [j \in 1..n |-> FV(lenOf(j), "", pathOf(j))]),
                 O(List(<<File("5", [j \in 1..n |-> ToString(j)])>>), <<FV("5", "", [j \in 1..n |-> ToString(j)])>>),
                 Bad(List([j \in 1..n |-> IF j = n THEN "d6:lengthi5e4:path1:ae" ELSE File(lenOf(j), pathOf(j))]))},
      announcelist |-> {O(List([j \in 1..n |-> "l" \o Str("http://t/" \o ToString(j)) \o "e"]), [j \in 1..n |-> <<"http://t/" \o ToString(j)>>]),
                        O(List(<<"le", List([j \in 1..n |-> Str(ToString(j))])>>), <<<<>>, [j \in 1..n |-> ToString(j)]>>),
                        Bad(List([j \in 1..n |-> IF j = n THEN "1:a" ELSE "l1:ae"]))},
      name |-> {Text(long), Bad(ToString(n + 1000000) \o ":" \o long)},
      comment |-> {Text(long)}, announce |-> {Text(long)}, createdby |-> {Text(long)},
      zz |-> {O(Str(long), ""), O(List([j \in 1..n |-> "i" \o ToString(j) \o "e"]), ""), O("d" \o Cat([j \in 1..n |-> Str(Padded(j)) \o "le"]) \o "e", ""), Bad("d" \o Cat([j \in 1..n |-> Str(Padded(n - j)) \o "le"]) \o "e")},
      A |-> {O(Str(long), ""), O("d" \o Cat([j \in 1..n |-> Str(Padded(j)) \o "d1:ai1ee"]) \o "e", "")},
      infp |-> {O(Str(long), "")}]
Enlarge == /\ Mode = "large" /\ c = <<>>
           /\ \E n \in Sizes : LET all == LargeOptions(n) IN \E f \in DOMAIN all : \E v \in all[f] :
                c' = (f :> n) /\ o' = [o EXCEPT ![f] = v]

----------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Geometry ==
  /\ Mode = "geometry"
  /\ \E u \in Units, pl \in PieceLens, multi \in BOOLEAN, n \in 1..MaxFiles : \E ls \in [1..n -> FileLens] :
       LET total == Sum(ls)
           np == (total + pl - 1) \div pl
       IN /\ total > 0 /\ (~multi => n = 1)
          /\ CSVWrite("%1$s", <<ToJson([f |-> "s", op |-> "geometry", t |-> "s", a |-> [unit |-> u, pl |-> pl, multi |-> multi, lens |-> ls, np |-> np],
               o |-> [total |-> total, lens |-> [k \in 1..np |-> IF k < np THEN pl ELSE total - (np - 1) * pl]]])>>, Out)
          /\ c' = c /\ o' = o
\* Many files of mixed lengths, many of them empty in some lists.
Files(n, k, m) == [j \in 1..n |-> IF m > 1 /\ j % m # 0 THEN 0 ELSE (j * 7919 + k) % (k + 1)]
ManyFiles ==
  /\ Mode = "manyfiles"
  /\ \E u \in Units, n \in Sizes, pl \in {1, 16, 1000, 16384}, k \in {0, 1, 15, 16, 999, 20000}, m \in {1, 5}, first \in {0, 1, 5, 100} :
       LET ls == <<first>> \o Files(n - 1, k, m)
           total == FoldLeft(LAMBDA x, y : x + y, 0, ls)
           np == (total + pl - 1) \div pl
       IN /\ total > 0 /\ np <= 20000
          /\ CSVWrite("%1$s", <<ToJson([f |-> "s", op |-> "geometry", t |-> "s", a |-> [unit |-> u, pl |-> pl, multi |-> TRUE, lens |-> ls, np |-> np],
               o |-> [total |-> total, lens |-> [j \in 1..np |-> IF j < np THEN pl ELSE total - (np - 1) * pl]]])>>, Out)
          /\ c' = c /\ o' = o
GeometryLaw == \A pl \in PieceLens, total \in 1..(MaxFiles * 10) :
  LET np == (total + pl - 1) \div pl IN (np - 1) * pl < total /\ total <= np * pl

Init == c = <<>> /\ LET all == Options IN o = [f \in DOMAIN all |-> all[f][1]]
Next == Deviate \/ Enlarge \/ Geometry \/ ManyFiles \/ (c' = c /\ o' = o /\ Parse)
=============================================================================
