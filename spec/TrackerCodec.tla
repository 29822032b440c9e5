---------------------------- MODULE TrackerCodec ----------------------------
(* The tracker protocol's requests and responses.  Integers are decimal       *)
(* strings, as they may have 64 bits; byte strings are sequences of bytes;    *)
(* bencoded values are [i |-> decimal], [s |-> text], [b |-> bytes],          *)
(* [l |-> sequence] and [d |-> sequence of <<key, value>>].                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode,
          Hashes, Ids, IPs, Ports, Amounts, Events, \* of requests
          BadNums,    \* not 64-bit integers
          PeerSets,   \* set of sequences of peers [ip, port, id, v4 |-> 4 bytes, or <<>>]
          Intervals,
          MaxCompact, \* longest compact list
          Larger,     \* ... apart from these
          MaxEntries  \* longest list of peer entries

VARIABLE s
Out == IOEnv.EDGES
Step(op, args, obs) == s' = s /\ CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args, o |-> obs, t |-> s])>>, Out)

Req(h, i, ip, p, u, d, l, ev, c) == [hash |-> h, id |-> i, ip |-> ip, port |-> p, up |-> u, down |-> d, left |-> l, event |-> ev, compact |-> c]
\* The query: parameters and values; an absent one is left out.
Opt(k, v) == IF v = "" THEN <<>> ELSE <<<<k, v>>>>
Pairs(r) == <<<<"port", r.port>>, <<"uploaded", r.up>>, <<"downloaded", r.down>>, <<"left", r.left>>,
              <<"compact", IF r.compact THEN "1" ELSE "0">>>> \o Opt("ip", r.ip) \o Opt("event", r.event)

Requests ==
  \E h \in Hashes, i \in Ids, ip \in IPs, p \in Ports, u \in Amounts, d \in Amounts, l \in Amounts, ev \in Events, c \in BOOLEAN :
    \* amounts two at a time
    /\ Cardinality({u, d, l}) <= 2
    /\ LET r == Req(h, i, ip, p, u, d, l, ev, c) IN
       Step("request", r, [err |-> "ok", pairs |-> Pairs(r), back |-> r])

\* Queries as they may arrive: fields absent, malformed or of another length.
Zero20 == [j \in 1..20 |-> 0]
NumKeys == {"port", "uploaded", "downloaded", "left"}
Queries ==
  \/ \E k \in NumKeys, v \in BadNums : Step("query", [pairs |-> <<<<k, v>>>>], [err |-> "error"])
  \/ \E k \in {"info_hash", "peer_id"}, n \in {1, 2, 19, 21, 40, 256} : Step("query", [pairs |-> <<>>, key |-> k, bytes |-> [j \in 1..n |-> 65 + (j % 26)]], [err |-> "error"])
  \/ \E raw \in {"port=1&x=%", "port=1&x=%g0", "%zz=1", "info_hash=%4"} : Step("query", [pairs |-> <<>>, raw |-> raw], [err |-> "error"])
  \/ \E K \in SUBSET {"port", "uploaded", "downloaded", "left", "ip", "event", "compact", "other"}, v \in {"7", "1"} :
       LET q == SelectSeq(<<<<"other", "zz">>, <<"port", v>>, <<"uploaded", v>>, <<"downloaded", v>>, <<"left", v>>, <<"ip", "1.2.3.4">>,
                            <<"event", "stopped">>, <<"compact", v>>>>, LAMBDA p : p[1] \in K)
           num(k) == IF k \in K THEN v ELSE "0"
       IN Step("query", [pairs |-> q],
               [err |-> "ok", back |-> Req(Zero20, Zero20, IF "ip" \in K THEN "1.2.3.4" ELSE "", num("port"), num("uploaded"), num("downloaded"), num("left"),
                                           IF "event" \in K THEN "stopped" ELSE "", "compact" \in K /\ v = "1")])

\* Responses: peers as they are read back.
Full(ps) == [j \in 1..Len(ps) |-> [ip |-> ps[j].ip, port |-> ps[j].port, id |-> ps[j].id]]
Compact(ps) == [j \in 1..Len(ps) |-> [ip |-> ps[j].ip, port |-> ps[j].port, id |-> ""]]
Pow(b) == b[1] * 256 + b[2]
Encodable(p) == p.v4 # <<>> /\ p.pb # <<>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Ben(p) == [d |-> <<<<"ip", [s |-> p.ip]>>, <<"peer id", [s |-> p.id]>>, <<"port", [i |-> p.port]>>>>]
Responses ==
  \E ps \in PeerSets, c \in BOOLEAN, n \in Intervals, w \in {"", "careful"}, more \in BOOLEAN :
    LET okay == c => \A j \in 1..Len(ps) : Encodable(ps[j])
        val == [d |-> (IF more THEN <<<<"complete", [i |-> "5"]>>, <<"incomplete", [i |-> "6"]>>>> ELSE <<>>)
                      \o <<<<"interval", [i |-> n]>>>>
                      \o (IF more THEN <<<<"min interval", [i |-> "7"]>>>> ELSE <<>>)
                      \o <<<<"peers", IF c THEN [b |-> Flat([j \in 1..Len(ps) |-> ps[j].v4 \o ps[j].pb])] ELSE [l |-> [j \in 1..Len(ps) |-> Ben(ps[j])]]>>>>
                      \o (IF more THEN <<<<"tracker id", [s |-> "tid"]>>>> ELSE <<>>)
                      \o (IF w = "" THEN <<>> ELSE <<<<"warning reason", [s |-> w]>>>>)]
    IN Step("response", [peers |-> ps, compact |-> c, interval |-> n, warning |-> w, more |-> more],
            IF okay THEN [err |-> "ok", val |-> val, back |-> IF c THEN Compact(ps) ELSE Full(ps), interval |-> n, warning |-> w, compact |-> c, more |-> more]
            ELSE [err |-> "error"])
Failure == \E r \in {"no such torrent", "x"} :
  Step("failure", [reason |-> r], [err |-> "ok", reason |-> r])

\* Responses as they may arrive.
Byte(j) == (j * 37) % 256
D(q) == [d |-> q]
IV == <<"interval", [i |-> "60"]>>
P(v) == <<"peers", v>>
Dec(v, obs) == Step("decode", [val |-> v], obs)
CompactIn ==
  \E n \in 0..MaxCompact \cup Larger :
    LET b == [j \in 1..n |-> Byte(j + n)]
        peer(k) == [v4 |-> SubSeq(b, 6 * k + 1, 6 * k + 4), port |-> ToString(Pow(SubSeq(b, 6 * k + 5, 6 * k + 6)))]
    IN Dec(D(<<IV, P([b |-> b])>>),
           IF n % 6 = 0 THEN [err |-> "ok", compact |-> TRUE, cback |-> [k \in 1..(n \div 6) |-> peer(k - 1)]] ELSE [err |-> "error"])

\* Entries of a peer list and whether they are peers.
Good == {D(<<<<"ip", [s |-> "1.2.3.4"]>>, <<"peer id", [s |-> "abc"]>>, <<"port", [i |-> "80"]>>>>),
         D(<<<<"ip", [s |-> "2001:db8::1"]>>, <<"port", [i |-> "65535"]>>>>),
         D(<<<<"ip", [s |-> "5.6.7.8"]>>, <<"peer id", [s |-> ""]>>, <<"port", [i |-> "1"]>>, <<"zz", [l |-> <<>>]>>>>),
         D(<<<<"a", [i |-> "1"]>>, <<"ip", [s |-> "9.9.9.9"]>>, <<"port", [i |-> "7"]>>>>)}
Wrong == {D(<<>>), D(<<<<"port", [i |-> "80"]>>>>), D(<<<<"ip", [s |-> "1.2.3.4"]>>>>),
          D(<<<<"ip", [i |-> "1"]>>, <<"port", [i |-> "80"]>>>>), D(<<<<"ip", [s |-> "1.2.3.4"]>>, <<"port", [s |-> "80"]>>>>),
          D(<<<<"ip", [s |-> "1.2.3.4"]>>, <<"peer id", [i |-> "1"]>>, <<"port", [i |-> "80"]>>>>),
          D(<<<<"ip", [l |-> <<[s |-> "1.2.3.4"]>>]>>, <<"port", [i |-> "80"]>>>>),
          D(<<<<"ip", [s |-> "1.2.3.4"]>>, <<"port", [l |-> <<>>]>>>>),
          [i |-> "5"], [s |-> "ip"], [l |-> <<>>], [b |-> <<1, 2, 3, 4, 0, 80>>]}
Field(e, k) == LET q == SelectSeq(e.d, LAMBDA p : p[1] = k) IN q
Text(e, k) == LET q == Field(e, k) IN IF q = <<>> THEN "" ELSE q[1][2].s
\* n peers, one of which is none (or i = 0).
SeqOfGood == CHOOSE q \in [1..Cardinality(Good) -> Good] : \A e \in Good : \E j \in DOMAIN q : q[j] = e
Long(n, i) == LET g == SeqOfGood IN [j \in 1..n |-> IF j = i THEN CHOOSE w \in Wrong : w = D(<<>>) ELSE g[1 + (j % Len(g))]]
ListIn ==
  \E q \in UNION {[1..n -> Good \cup Wrong] : n \in 0..MaxEntries} \cup {Long(n, 0) : n \in Larger} \cup {Long(300, i) : i \in {1, 2, 150, 299, 300}} :
    Dec(D(<<IV, P([l |-> q])>>),
        IF \A j \in 1..Len(q) : q[j] \in Good
        THEN [err |-> "ok", compact |-> FALSE, back |-> [j \in 1..Len(q) |-> [ip |-> Text(q[j], "ip"), port |-> Field(q[j], "port")[1][2].i, id |-> Text(q[j], "peer id")]]]
        ELSE [err |-> "error"])
ShapeIn ==
  \/ \E v \in {[i |-> "5"], D(<<>>), D(<<<<"ip", [s |-> "1.2.3.4"]>>, <<"port", [i |-> "80"]>>>>)} : Dec(D(<<IV, P(v)>>), [err |-> "error"])
  \/ \E v \in {[i |-> "5"], [s |-> "interval"], [l |-> <<>>], [l |-> <<D(<<IV>>)>>]} : Dec(v, [err |-> "error"])
  \/ \E v \in {[s |-> "60"], [l |-> <<>>], D(<<>>), [i |-> "9223372036854775808"], [i |-> "99999999999999999999"]} : Dec(D(<<<<"interval", v>>, P([b |-> <<>>])>>), [err |-> "error"])
  \/ \E v \in {[i |-> "60"], [l |-> <<>>], D(<<>>)} : Dec(D(<<<<"failure reason", v>>>>), [err |-> "error"])
  \/ \E r \in {"nope", "x"} : Dec(D(<<<<"failure reason", [s |-> r]>>>>), [err |-> "ok", reason |-> r])
  \/ \E k \in {"aaa", "zzz", "min interval"} : Dec(D(IF k = "zzz" THEN <<IV, P([b |-> <<>>]), <<k, [i |-> "3"]>>>> ELSE IF k = "aaa" THEN <<<<k, [i |-> "3"]>>, IV, P([b |-> <<>>])>> ELSE <<IV, <<k, [i |-> "3"]>>, P([b |-> <<>>])>>),
                                     [err |-> "ok", compact |-> TRUE, back |-> <<>>, interval |-> "60"])
  \/ \E q \in {<<P([b |-> <<>>]), IV>>, <<IV, IV>>, <<P([b |-> <<>>]), P([b |-> <<>>])>>} : Dec(D(q), [err |-> "error"])
\* Any cut makes a response undecodable.
CutIn == \E q \in {<<IV, P([b |-> <<1, 2, 3, 4, 5, 6>>])>>, <<IV, P([l |-> <<Ben([ip |-> "1.2.3.4", port |-> "5", id |-> "i"])>>])>>} :
  \E n \in 0..40 : Step("cut", [val |-> D(q), n |-> n], [err |-> "error"])

Init == s = "ready"
Next == CASE Mode = "request" -> Requests \/ Queries
          [] Mode = "response" -> Responses \/ Failure
          [] Mode = "decode" -> CompactIn \/ ListIn \/ ShapeIn \/ CutIn
=============================================================================
