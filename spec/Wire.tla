-------------------------------- MODULE Wire --------------------------------
(* The peer wire protocol (BEP 3): handshakes and length-prefixed messages.  *)
(* 32-bit integers are tuples of 4 bytes; byte strings are sequences of runs  *)
(* <<value, count>>, so that long payloads stay small here.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode,      \* "enc", "dec", "hand" or "stream"
          U32,       \* field values, as 4-tuples of bytes
          Payloads,  \* payloads, as run lists
          Types,     \* type bytes of decoded frames
          MaxBody,   \* longest body of a decoded frame
          Huge,      \* declared lengths of 2^24 and more, as 4-tuples
          MaxQueue   \* messages in flight on a stream

VARIABLE s

Out == IOEnv.EDGES
Emit(op, args, obs, t) ==
  CSVWrite("%1$s", <<ToJson([f |-> s, op |-> op, a |-> args, o |-> obs, t |-> t])>>, Out)
Step(op, args, obs, t) == s' = t /\ Emit(op, args, obs, t)

----------------------------------------------------------------------------
\* Messages and their bytes.
RECURSIVE RunLen(_)
RunLen(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + RunLen(Tail(r))
B(bytes) == [j \in 1..Len(bytes) |-> <<bytes[j], 1>>]
\* n < 2^24 as a 4-tuple
U(n) == <<0, n \div 65536, (n \div 256) % 256, n % 256>>

Zero == <<0, 0, 0, 0>>
Msg(type, i, b, l, p) == [type |-> type, index |-> i, begin |-> b, length |-> l, payload |-> p]
Simple == {Msg(ty, Zero, Zero, Zero, <<>>) : ty \in {-1, 0, 1, 2, 3}}
Haves == {Msg(4, i, Zero, Zero, <<>>) : i \in U32}
Bitfields == {Msg(5, Zero, Zero, Zero, p) : p \in Payloads}
Requests == {Msg(ty, i, b, l, <<>>) : ty \in {6, 8}, i \in U32, b \in U32, l \in U32}
Pieces == {Msg(7, i, b, Zero, p) : i \in U32, b \in U32, p \in Payloads}
Msgs == Simple \cup Haves \cup Bitfields \cup Requests \cup Pieces

StreamMsgs == Simple \cup {Msg(4, i, Zero, Zero, <<>>) : i \in U32} \cup Bitfields
              \cup {Msg(6, CHOOSE i \in U32 : TRUE, Zero, U(16384), <<>>)}
              \cup {Msg(7, Zero, CHOOSE i \in U32 : TRUE, Zero, p) : p \in Payloads}

Encode(m) ==
  CASE m.type = -1 -> B(U(0))
    [] m.type \in 0..3 -> B(U(1) \o <<m.type>>)
    [] m.type = 4 -> B(U(5) \o <<4>> \o m.index)
    [] m.type = 5 -> B(U(1 + RunLen(m.payload)) \o <<5>>) \o m.payload
    [] m.type \in {6, 8} -> B(U(13) \o <<m.type>> \o m.index \o m.begin \o m.length)
    [] m.type = 7 -> B(U(9 + RunLen(m.payload)) \o <<7>> \o m.index \o m.begin) \o m.payload

Enc == \E m \in Msgs :
  Step("enc", [msg |-> m, bytes |-> Encode(m)], [err |-> "ok"], s)

\* The connection breaks in the middle of a message: what was written is its
\* start, and the writer is told.
Cuts(n) == {c \in {0, 3, 4, 5, 6, 8, 9, 12, 13, 16, n - 1} : c < n}
WFail == \E m \in StreamMsgs : \E c \in Cuts(RunLen(Encode(m))) :
  Step("wfail", [msg |-> m, bytes |-> Encode(m), cut |-> c], [err |-> "broken"], s)

----------------------------------------------------------------------------
\* Decoding a frame: a declared length, then a body that may be too short or
\* go on with something else.
Body(type, n, hi) == <<type>> \o [j \in 1..n |-> IF hi THEN 256 - j ELSE j]
Fits(type, n) ==
  CASE type \in 0..3 -> n = 0
    [] type = 4 -> n = 4
    [] type \in {6, 8} -> n = 12
    [] type = 7 -> n >= 8
    [] OTHER -> TRUE
Decoded(body, n) == \* of a frame with n bytes after the length
  LET ty == body[1]
      at(k) == <<body[k], body[k+1], body[k+2], body[k+3]>>
      p(k) == B(SubSeq(body, k, n))
  IN CASE ty \in 0..3 -> Msg(ty, Zero, Zero, Zero, <<>>)
       [] ty = 4 -> Msg(4, at(2), Zero, Zero, <<>>)
       [] ty = 5 -> Msg(5, Zero, Zero, Zero, p(2))
       [] ty \in {6, 8} -> Msg(ty, at(2), at(6), at(10), <<>>)
       [] ty = 7 -> Msg(7, at(2), at(6), Zero, p(10))
       [] OTHER -> Msg(ty, Zero, Zero, Zero, <<>>)

Bytes(len, body) == len \o body
Dec ==
  \/ \E ty \in Types, n \in 0..MaxBody, decl \in 0..(MaxBody + 2), hi \in BOOLEAN :
       LET body == Body(ty, n, hi)
           a == [bytes |-> Bytes(U(decl), body)]
       IN CASE decl = 0 -> Step("dec", a, [err |-> "ok", msg |-> Msg(-1, Zero, Zero, Zero, <<>>), used |-> 4], s)
            [] decl > n + 1 -> Step("dec", a, [err |-> "error"], s)
            [] ~Fits(ty, decl - 1) -> Step("dec", a, [err |-> "error"], s)
            [] OTHER -> Step("dec", a, [err |-> "ok", msg |-> Decoded(body, decl), used |-> 4 + decl], s)
  \/ \E n \in 0..3 : Step("dec", [bytes |-> SubSeq(<<0, 0, 0>>, 1, n)], [err |-> "error"], s)
  \/ \E ty \in Types, n \in {0, 8, MaxBody}, h \in Huge :
       Step("dec", [bytes |-> Bytes(h, Body(ty, n, FALSE))], [err |-> "error"], s)
  \/ \E h \in Huge : Step("dec", [bytes |-> h], [err |-> "error"], s)

----------------------------------------------------------------------------
\* Handshakes.
Proto == <<66, 105, 116, 84, 111, 114, 114, 101, 110, 116, 32, 112, 114, 111, 116, 111, 99, 111, 108>>
Fill(x) == [j \in 1..20 |-> (x + j * 7) % 256]
Zeros(n) == [j \in 1..n |-> 0]
Shake(len, proto, res, h, p) == <<len>> \o proto \o res \o h \o p
HandEnc == \E h \in {0, 19, 200}, p \in {0, 100, 255} :
  Step("henc", [hash |-> Fill(h), id |-> Fill(p), bytes |-> Shake(19, Proto, Zeros(8), Fill(h), Fill(p))], [err |-> "ok"], s)
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
HandDec ==
  \/ \E n \in 0..75, res \in {0, 255} :  \* truncated, exact, followed by more
       LET all == Shake(19, Proto, [j \in 1..8 |-> res], Fill(3), Fill(9)) \o <<1, 2, 3, 4, 5, 6, 7>>
       IN Step("hdec", [bytes |-> Take(all, n)],
               IF n < 68 THEN [err |-> "error"] ELSE [err |-> "ok", hash |-> Fill(3), id |-> Fill(9), used |-> 68], s)
  \/ \E at \in 1..19, d \in {1, 32, 128} : \* one character off
       Step("hdec", [bytes |-> Shake(19, [Proto EXCEPT ![at] = (@ + d) % 256], Zeros(8), Fill(3), Fill(9))], [err |-> "error"], s)
  \/ \E len \in {0, 1, 18, 20, 21, 147, 255}, extra \in {0, 200} : \* another length
       Step("hdec", [bytes |-> Shake(len, Proto, Zeros(8), Fill(3), Fill(9)) \o Zeros(extra)], [err |-> "error"], s)

----------------------------------------------------------------------------
\* A stream: messages written back to back are read back in order.
Push == /\ Len(s) < MaxQueue
        /\ \E m \in StreamMsgs : Step("push", [msg |-> m], [err |-> "ok"], Append(s, m))
Pop == IF s = <<>> THEN Step("pop", <<>>, [err |-> "eof"], s)
       ELSE Step("pop", <<>>, [err |-> "ok", msg |-> Head(s)], Tail(s))

Init == s = <<>>
Next == CASE Mode = "enc" -> Enc \/ WFail
          [] Mode = "dec" -> Dec
          [] Mode = "hand" -> HandEnc \/ HandDec
          [] Mode = "stream" -> Push \/ Pop

\* The encoding is uniquely decodable: every message's length prefix is the
\* length of what follows.
Framed == \A m \in Msgs : LET e == Encode(m) IN
            e[3][1] * 256 + e[4][1] + e[2][1] * 65536 = RunLen(e) - 4
=============================================================================
