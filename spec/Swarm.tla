------------------------------- MODULE Swarm -------------------------------
(* The BitTorrent client seen from outside: what the remotes, the tracker and *)
(* the clock do to it, and what it may and must do in return.                 *)
(*                                                                            *)
(* The system is described by its events.  Broken(s, e) is the set of rules   *)
(* that event e breaks in state s (empty: the event is allowed), Apply(s, e)  *)
(* the state it leads to.  SwarmTrace checks recorded executions of the real  *)
(* client against it; SwarmModel lets TLC explore all executions of a small   *)
(* client that keeps the rules.                                               *)
(*                                                                            *)
(* Time is divided into rounds that end with an event "q": the client has     *)
(* come to rest, so everything it does without waiting for a timer is done.   *)
(* Within a round the client may or may not have noticed what was sent to it: *)
(* its actions are judged against all states of the round, the state it rests *)
(* in against the one that the round ended with.                              *)
(*                                                                            *)
(* Events: k and t (time in ms), and                                          *)
(*  in c ip          remote connected from host ip      (connection c)        *)
(*  dial a           the client dials address a                               *)
(*  dialed c a       ... which accepts;  dialfail a: ... which fails          *)
(*  chs c ok         the client's handshake (ok: right hash, ID and protocol) *)
(*  hs c pr h i x    complete handshake of the remote: protocol and hash right,*)
(*                   with ID i (0: the client's own), expected ID x (0: any)  *)
(*  rs c m ...       message of the remote                                    *)
(*  cs c m ...       message of the client                                    *)
(*  rx c, cx c       the remote, the client closes the connection             *)
(*  stall c                 the remote stops reading (for a while)           *)
(*  list A           addresses given to the client by the tracker             *)
(*  ann ev up down left own   announce seen by the tracker                    *)
(*  good c           from now on c answers every request rightly, at once     *)
(*  stop, ret, lx    the client is told to stop, Start returns, the listener  *)
(*                   is closed                                                *)
(*  q done down up fin   the client rests; pieces verified, counters (fin: it *)
(*                   has had the time to stop)                                *)
(*  end pub          what is in the target directory                          *)
EXTENDS Integers, Sequences, FiniteSets

Long == 25000    \* longer than any pause the client makes
Short == 5000    \* shorter than any of its timeouts
Completion == 400000
Capacity == 50
MaxDials == 50

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SetOf(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))

(* The torrent and the start of the run: np pieces 0..np-1 of nb[p+1] blocks, *)
(* the last of pieces p of size last[p+1]; ip[a] host of address a.           *)
Blocks(s, p) == 0..(s.cfg.nb[p + 1] - 1)
Pieces(s) == 0..(s.cfg.np - 1)
PieceSize(s, p) == s.cfg.size[p + 1]
BlockSize(s, p, b) == IF b = s.cfg.nb[p + 1] - 1 THEN s.cfg.size[p + 1] - b * s.cfg.bl ELSE s.cfg.bl

Start(cfg) ==
  [cfg |-> cfg, now |-> 0, done |-> SetOf(cfg.done), pend |-> {}, must |-> {}, doneAt |-> 0,
   up |-> 0, up0 |-> 0, down0 |-> 0, downLo |-> 0, downHi |-> 0,
   c |-> <<>>, att |-> {}, preq |-> [p \in 0..(cfg.np - 1) |-> 0],
   listed |-> {}, listedR |-> {}, freed |-> {}, mayq |-> {}, given |-> 0, dialing |-> {}, blocked |-> {}, mayblock |-> {},
   annAt |-> 0, anns |-> 0, stopped |-> FALSE, stopAt |-> 0, returned |-> FALSE, lclosed |-> FALSE, stopann |-> FALSE, peak |-> 0, still |-> FALSE, susp |-> {}]

NewConn(s, src, a, ip) ==
  [src |-> src, a |-> a, ip |-> ip, id |-> 0, ph |-> "new", cx |-> FALSE, rx |-> FALSE, chs |-> FALSE,
   viol |-> FALSE, corrupt |-> FALSE, mb |-> FALSE, t0 |-> s.now, tl |-> s.now, onr |-> FALSE, ont |-> 0, dup |-> FALSE,
   bf |-> {}, haves |-> {}, rhas |-> {}, rhas0 |-> {}, rch |-> TRUE, may |-> FALSE, cint |-> FALSE,
   cch |-> TRUE, chr |-> FALSE, rq |-> <<>>, chg |-> s.now, lreq |-> s.now, good |-> -1, lo |-> 0, pd |-> {}, sv |-> {}, st |-> FALSE]

Conns(s) == 1..Len(s.c)
Up(s) == {c \in Conns(s) : ~s.c[c].cx}                          \* not closed by the client
On(s) == {c \in Conns(s) : s.c[c].ph = "on" /\ ~s.c[c].cx /\ ~s.c[c].rx}
OnRound(s) == {c \in Conns(s) : s.c[c].onr}                     \* active at some time of this round
Sound(cn) == ~cn.cx /\ ~cn.rx /\ ~cn.viol /\ ~cn.corrupt
SameId(x, y) == x.id = y.id /\ x.ip = y.ip
Load(s) == Cardinality(Up(s)) + Cardinality(s.dialing)
AllDone(s) == s.done \cup s.pend

---------------------------------------------------------------------------
(* Fetching: an attempt at piece p on connection c.  It ends when all blocks  *)
(* have come, when the remote chokes or goes, or when a request is not        *)
(* answered in time.  (dim: that may have happened.)                          *)
Att(s, c, p) == {x \in s.att : x.c = c /\ x.p = p}
Full(s, x) == x.got = Blocks(s, x.p)
Aged(s, x, d) == \E o \in x.out : s.now - o[2] >= d
Going(s, x) == ~x.ended /\ ~x.dim /\ Sound(s.c[x.c]) /\ ~Full(s, x) /\ ~Aged(s, x, Short)     \* certainly
MayGo(s, x) == s.now - x.t < 2 * Long                                               \* possibly, or not long ago
NewAtt(c, p, t) == [c |-> c, p |-> p, asked |-> {}, out |-> {}, got |-> {}, bad |-> FALSE, ended |-> FALSE, dim |-> FALSE, over |-> FALSE, t |-> t]
\* The request for block b continues an attempt or starts a new one.
Continues(s, x, b) == ~x.over /\ ~Full(s, x) /\ ~Aged(s, x, 2 * Short + 1000) /\ (b \notin x.asked \/ ~(x.ended \/ x.dim \/ Aged(s, x, Short)))

Holders(s, p, certain) ==
  Cardinality({c \in (IF certain THEN On(s) \cap OnRound(s) ELSE OnRound(s) \cup On(s)) :
                 p \in (IF certain THEN s.c[c].rhas0 ELSE s.c[c].rhas) /\ (certain => Sound(s.c[c]))})

---------------------------------------------------------------------------
(* Requests of the remote: e.q says how they lie in the torrent, e.ps which   *)
(* pieces they touch.                                                         *)
Req(s, cn, e) ==
  [p |-> e.p, b |-> e.b, l |-> e.l,
   must |-> e.q = "in" /\ ~cn.cch /\ ~cn.viol /\ SetOf(e.ps) \subseteq s.done,
   can  |-> e.q \in {"in", "odd"}, ps |-> SetOf(e.ps)]
\* Position of the request that a piece message answers, 0 if there is none.
RECURSIVE Answered(_, _, _)
Answered(rq, e, i) ==
  IF i > Len(rq) THEN 0
  ELSE IF rq[i].p = e.p /\ rq[i].b = e.b /\ rq[i].l = e.l THEN i
  ELSE IF rq[i].must THEN 0
  ELSE Answered(rq, e, i + 1)

\* Pieces that are free for c and rarer than p.  The client may have given them
\* to other connections already, whose requests are seen a moment later.
Rarer(s, c, p) ==
  LET free == {q \in s.c[c].rhas0 \ AllDone(s) : \A x \in s.att : x.p = q => ~MayGo(s, x)}
  IN {q \in free : Holders(s, p, TRUE) > Holders(s, q, FALSE)}
Excused(s, x) == \E d \in Conns(s) : d # x[1] /\ x[2] \in s.c[d].rhas /\ (s.c[d].chr \/ ~Sound(s.c[d]))

---------------------------------------------------------------------------
If(ok, rule) == IF ok THEN {} ELSE {rule}

\* May the client close connection c?
JustifiedClose(s, c) ==
  LET cn == s.c[c] IN
  \/ s.stopped \/ cn.rx \/ cn.viol \/ cn.corrupt \/ cn.ph = "bad"
  \/ s.now - cn.tl >= 100000
  \/ cn.ph = "new" /\ s.now - cn.t0 >= Short
  \/ cn.ph = "new" /\ \E d \in OnRound(s) : d # c /\ s.c[d].ip = cn.ip
  \/ cn.ph \in {"new", "ok"} /\ (s.peak >= Capacity)
  \* An address that was seen to belong to an active remote.
  \/ cn.ph \in {"new", "ok"} /\ cn.a > 0 /\ \E d \in OnRound(s), f \in Conns(s) : s.c[f].a = cn.a /\ d # c /\ s.c[f].id # 0 /\ SameId(s.c[d], s.c[f])
  \/ cn.ph = "ok" /\ \E d \in OnRound(s) : d # c /\ SameId(s.c[d], cn)

BrokenCS(s, c, e) ==
  LET cn == s.c[c] IN
  IF e.m = "bad" THEN {"whole"} ELSE
  If(cn.ph \in {"ok", "on"}, "hs") \cup
  If(cn.ph # "ok" \/ e.m = "bf", "first") \cup
  (CASE e.m = "bf" ->
          If(cn.ph = "ok", "first")
          \cup If(s.done \subseteq SetOf(e.S) /\ SetOf(e.S) \subseteq AllDone(s) /\ e.ok, "bf")
          \cup If(\A d \in On(s) \ {c} : SameId(s.c[d], cn) => ~Sound(s.c[d]) \/ s.stopped, "unique")
          \cup If(Cardinality({d \in On(s) : Sound(s.c[d])}) < Capacity \/ s.stopped, "cap")
     [] e.m = "have" -> If(e.p \in AllDone(s) /\ e.p \notin cn.haves /\ ~(e.p \in cn.bf /\ e.p \in s.done), "have")
     [] e.m = "int" -> If(~cn.cint /\ cn.rhas \ s.done # {}, "int")
     [] e.m = "nint" -> If(cn.cint /\ cn.rhas0 \subseteq AllDone(s), "nint")
     [] e.m = "unchoke" -> If(cn.cch, "toggle")
     [] e.m = "choke" -> If(~cn.cch, "toggle")
     [] e.m = "req" ->
          LET X == Att(s, c, e.p)
              old == {x \in X : Continues(s, x, e.b)}
          IN If(e.p \in cn.rhas, "reqhas") \cup If(e.p \notin s.done, "verified") \cup If(cn.may, "requnch")
             \cup If(e.ok, "exact")
             \cup If(\A x \in old : e.b \notin x.asked, "once")
             \cup If(\A x \in s.att : x.p = e.p /\ x.c # c => ~Going(s, x), "single")
             \cup If(cn.cint, "reqint")
     [] e.m = "pc" ->
          LET i == Answered(cn.rq, e, 1) IN
          If(i > 0 /\ e.ok, "up") \cup If(i > 0 => cn.rq[i].can /\ cn.rq[i].ps \subseteq AllDone(s), "up") \cup If(~cn.cch, "upchoked")
     [] e.m = "cancel" -> {}
     [] e.m = "ka" -> {}
     [] OTHER -> {"hs"})

BrokenQ(s, e) ==
  LET D == SetOf(e.done) IN
  If(s.done \cup s.must \subseteq D /\ D \subseteq AllDone(s), "done")
  \cup If(e.up = s.up, "upcount")
  \cup If(e.down \in s.downLo..s.downHi, "downcount")
  \cup UNION {LET cn == s.c[c] IN
      If(cn.ph = "bad" => cn.cx, "badclosed")
      \cup If(cn.ph = "new" /\ s.now - cn.t0 >= Long => cn.cx, "badclosed")
      \cup If(cn.rx => cn.cx, "rxcx")
      \cup If(cn.corrupt => cn.cx, "corrupt")
      \cup If(cn.bf \cup cn.haves \subseteq D, "have")    \* what was told is true
      \cup If(cn.sv \subseteq D, "up")                      \* ... and what was sent was verified
      \cup If(~(cn.ph = "ok" /\ Sound(cn)) \/ s.stopped, "admit")
      \cup (IF cn.ph # "on" \/ ~Sound(cn) \/ s.stopped THEN {} ELSE
            If(D \subseteq cn.bf \cup cn.haves, "haveall")
            \cup If(cn.rhas \ D # {} => cn.cint, "mustint")
            \cup If(\A i \in 1..Len(cn.rq) : ~cn.rq[i].must, "upmust")
            \cup If(s.now - cn.ont >= Long => ~cn.cch, "unchoke")
            \cup (IF cn.rch \/ s.now - cn.chg < Long THEN {} ELSE
                  If(s.now - cn.lreq >= Long => \A p \in cn.rhas \ D : s.now - s.preq[p] < Long, "progress")
                  \cup If(cn.rhas \subseteq D /\ s.now - s.doneAt >= Long /\ D = s.done => ~cn.cint, "mustnint")))
      : c \in Conns(s)}
  \cup If(\A x \in s.susp : Excused(s, x), "rare")
  \cup If(\A x \in s.att : ~x.ended /\ ~x.dim /\ Sound(s.c[x.c]) /\ ~Full(s, x) /\ ~s.stopped => x.out # {}, "progress")
  \cup If(\A p \in Pieces(s) \ D : \A c \in On(s) :
            ~(s.c[c].good >= 0 /\ p \in s.c[c].rhas /\ s.now - s.c[c].good >= Completion /\ s.now - s.c[c].chg >= Completion), "complete")
  \cup If((Load(s) < Capacity /\ s.peak < Capacity /\ ~s.stopped) => s.listed \subseteq s.blocked \cup s.mayblock, "dial")
  \cup If(s.cfg.interval > 0 /\ s.anns > 0 /\ ~s.stopped => s.now - s.annAt <= s.cfg.interval + 20000, "interval")
  \cup If(s.stopped /\ s.lclosed /\ ~s.cfg.real => Up(s) = {} /\ s.dialing = {}, "stopclose")
  \cup (IF ~s.stopped \/ ~(e.fin \/ s.now - s.stopAt >= 2 * Long) THEN {} ELSE
        If(s.lclosed /\ Up(s) = {} /\ s.dialing = {}, "stopclose") \cup If(s.returned, "stopret") \cup If(s.stopann, "stopann"))

Broken(s0, e) ==
  LET s == [s0 EXCEPT !.now = e.t] IN
  CASE e.k = "cs" -> BrokenCS(s, e.c, e)
    [] e.k = "chs" -> If(e.ok, "ownhs") \cup If(~s.c[e.c].chs, "ownhs")
    [] e.k = "cx" -> If(JustifiedClose(s, e.c), "just")
    [] e.k = "dial" -> If(e.a > 0 /\ e.a \in s.listed \cup s.listedR, "dialed") \cup If(e.a \notin s.blocked, "blocked")
         \cup If(e.a \notin s.dialing /\ \A c \in Up(s) : s.c[c].src = "dial" /\ s.c[c].a = e.a => ~Sound(s.c[c]), "dialonce")
         \cup If(Cardinality(On(s)) + Cardinality(s.dialing) < Capacity, "cap")
    [] e.k = "ann" -> If(e.own, "ann") \cup If(e.up \in s.up0..s.up, "ann") \cup If(e.down \in s.down0..s.downHi, "ann")
         \cup If(LET last == s.cfg.np - 1    \* all pieces but the last have the same size
                     rest == Sum([i \in 1..s.cfg.np |-> IF i - 1 \in s.done THEN 0 ELSE s.cfg.size[i]])
                 IN \E n \in 0..Cardinality(s.pend \ {last}), m \in {0} \cup (IF last \in s.pend THEN {1} ELSE {}) :
                      e.left = rest - n * s.cfg.size[1] - m * s.cfg.size[s.cfg.np], "ann")
         \cup If(e.ev = "stopped" \/ (~s.stopann /\ (e.ev = "started" <=> s.anns = 0)), "event") \cup If(e.ev = "stopped" => s.stopped, "event")
         \cup If(e.ev = "completed" => AllDone(s) = Pieces(s), "event")
    [] e.k = "ret" -> If(s.stopped, "running")
    [] e.k = "lx" -> If(s.stopped, "running")
    [] e.k = "q" -> BrokenQ(s, e)
    [] e.k = "end" -> If(e.pub = (IF s.done = Pieces(s) THEN "exact" ELSE "none"), "pub")
    [] OTHER -> {}

---------------------------------------------------------------------------
Upd(s, c, cn) == [s EXCEPT !.c[c] = cn]

RS(s, c, e) ==
  LET cn == [s.c[c] EXCEPT !.tl = s.now]
      v == [cn EXCEPT !.viol = TRUE]
      acts == cn.ph \in {"ok", "on"}
  IN IF ~acts THEN Upd(s, c, IF e.m = "junk" THEN v ELSE cn)
     ELSE CASE
       \* Nothing is requested after this unless something else was under way.
       \* (chr: choking in this round; a request seen after it may have been sent before it)
       e.m = "choke" -> [Upd(s, c, [cn EXCEPT !.rch = TRUE, !.chr = TRUE, !.chg = s.now, !.may = @ /\ ~s.still]) EXCEPT
                          !.att = {IF x.c = c THEN [x EXCEPT !.ended = TRUE] ELSE x : x \in @}]
    [] e.m = "unchoke" -> Upd(s, c, [cn EXCEPT !.rch = FALSE, !.may = TRUE, !.chg = s.now])
    [] e.m = "have" -> IF e.p \in Pieces(s) THEN Upd(s, c, [cn EXCEPT !.rhas = @ \cup {e.p}, !.chg = s.now]) ELSE Upd(s, c, v)
    [] e.m = "bf" -> Upd(s, c, [cn EXCEPT !.rhas = @ \cup SetOf(e.S), !.chg = s.now, !.viol = @ \/ ~e.ok])
    [] e.m = "req" -> LET r == Req(s, cn, e) IN
         Upd(s, c, [cn EXCEPT !.rq = Append(@, r), !.viol = @ \/ ~r.must])
    [] e.m = "pc" ->
         LET X == {x \in Att(s, c, e.p) : ~x.ended /\ ~Aged(s, x, 2 * Short) /\ \E o \in x.out : o[1] = e.b}
         IN IF ~e.ok \/ X = {} THEN Upd(s, c, cn)
            ELSE LET x == CHOOSE y \in X : TRUE
                     dim == x.dim \/ Aged(s, x, Short)
                     sure == Sound(cn) /\ ~dim /\ ~s.stopped
                     y == [x EXCEPT !.out = {o \in @ : o[1] # e.b}, !.got = @ \cup {e.b}, !.bad = @ \/ ~e.good, !.dim = dim]
                     n == BlockSize(s, e.p, e.b)
                     s1 == [Upd(s, c, IF sure THEN [cn EXCEPT !.lo = @ + n] ELSE cn) EXCEPT !.att = (@ \ {x}) \cup {y}, !.downHi = @ + n, !.downLo = @ + (IF sure THEN n ELSE 0)]
                 IN IF ~Full(s, y) THEN s1
                    \* The block that shows the piece to be corrupt may be counted or not.
                    ELSE IF y.bad /\ ~sure THEN Upd([s1 EXCEPT !.downLo = s.downLo, !.att = (@ \ {y}) \cup {[y EXCEPT !.ended = TRUE]}], c, [cn EXCEPT !.viol = TRUE, !.mb = TRUE])
                    ELSE IF y.bad THEN Upd([s1 EXCEPT !.downLo = s.downLo, !.att = (@ \ {y}) \cup {[y EXCEPT !.ended = TRUE]}], c, [cn EXCEPT !.corrupt = TRUE])
                    ELSE [s1 EXCEPT !.pend = @ \cup {e.p}, !.must = IF sure THEN @ \cup {e.p} ELSE @, !.doneAt = s.now,
                                    !.c[c].pd = IF sure THEN @ \cup {e.p} ELSE @]
    [] e.m = "junk" -> Upd(s, c, v)
    [] OTHER -> Upd(s, c, cn)

CS(s, c, e) ==
  LET cn == s.c[c] IN
  CASE e.m = "bf" -> LET t == Upd(s, c, [cn EXCEPT !.ph = "on", !.bf = SetOf(e.S), !.onr = TRUE, !.ont = s.now, !.chg = s.now, !.lreq = s.now])
                     IN [t EXCEPT !.peak = Max(@, Load(t))]
    [] e.m = "have" -> Upd(s, c, [cn EXCEPT !.haves = @ \cup {e.p}])
    [] e.m = "int" -> Upd(s, c, [cn EXCEPT !.cint = TRUE])
    [] e.m = "nint" -> Upd(s, c, [cn EXCEPT !.cint = FALSE])
    [] e.m = "unchoke" -> Upd(s, c, [cn EXCEPT !.cch = FALSE])
    [] e.m = "choke" -> Upd(s, c, [cn EXCEPT !.cch = TRUE])
    [] e.m = "req" ->
         IF e.p \notin Pieces(s) THEN s ELSE
         LET X == Att(s, c, e.p)
             old == {x \in X : Continues(s, x, e.b)}
             x == IF old # {} THEN CHOOSE y \in old : TRUE ELSE NewAtt(c, e.p, s.now)
             y == [x EXCEPT !.asked = @ \cup {e.b}, !.out = @ \cup {<<e.b, s.now>>}, !.t = s.now, !.dim = @ \/ cn.rch \/ cn.chr]
         IN [Upd(s, c, [cn EXCEPT !.lreq = s.now]) EXCEPT
               !.susp = {z \in @ : z[1] = c \/ z[2] # e.p} \cup (IF old # {} THEN {} ELSE {<<c, q>> : q \in Rarer(s, c, e.p)}),
               !.att = {z \in @ : ~(z.c = c /\ z.p = e.p) /\ ~(z.p = e.p /\ ~Going(s, z))} \cup {y}, !.preq[e.p] = s.now]
    [] e.m = "pc" ->
         LET i == Answered(cn.rq, e, 1) IN
         [Upd(s, c, [cn EXCEPT !.rq = SubSeq(@, i + 1, Len(@)), !.sv = @ \cup (IF i > 0 THEN cn.rq[i].ps ELSE {})]) EXCEPT !.up = @ + e.l]
    [] OTHER -> s

\* The end of a round: what was done is noticed.
Rest(s, e) ==
  LET D == SetOf(e.done)
      bl == {s.c[c].a : c \in {d \in Conns(s) : s.c[d].corrupt /\ s.c[d].src = "dial"}}
      ids == {<<s.c[c].id, s.c[c].ip>> : c \in {d \in Conns(s) : s.c[d].corrupt \/ s.c[d].mb}}
  IN [s EXCEPT !.done = D, !.pend = {}, !.must = {}, !.susp = {}, !.down0 = e.down, !.downLo = e.down, !.downHi = e.down, !.up = e.up, !.up0 = e.up,
        !.c = [c \in Conns(s) |-> [s.c[c] EXCEPT !.rhas0 = s.c[c].rhas, !.may = ~s.c[c].rch, !.chr = FALSE, !.lo = 0, !.pd = {}, !.sv = {}, !.onr = c \in On(s),
                                                 !.rq = SelectSeq(@, LAMBDA r : r.must \/ (s.c[c].st /\ r.can))]],
        !.att = {[x EXCEPT !.over = @ \/ x.ended, !.ended = @ \/ s.c[x.c].rch] : x \in {y \in @ : y.p \notin D /\ MayGo(s, y)}},
        !.listedR = IF s.peak >= Capacity THEN @ ELSE {}, !.mayq = IF s.peak >= Capacity THEN @ ELSE {}, !.given = 0, !.freed = {}, !.peak = Load(s),
        !.blocked = @ \cup bl,
        !.mayblock = @ \cup {s.c[c].a : c \in {d \in Conns(s) : s.c[d].src = "dial" /\ <<s.c[d].id, s.c[d].ip>> \in ids}}]

Effect(s, e) ==
  CASE e.k = "in" -> LET t == [s EXCEPT !.c = Append(@, NewConn(s, "in", 0, e.ip))] IN [t EXCEPT !.peak = Max(@, Load(t))]
    [] e.k = "dial" -> LET t == [s EXCEPT !.dialing = @ \cup {e.a}, !.listed = @ \ {e.a}, !.mayq = @ \ {e.a}] IN [t EXCEPT !.peak = Max(@, Load(t))]
    [] e.k = "dialed" -> [s EXCEPT !.dialing = @ \ {e.a}, !.c = Append(@, NewConn(s, "dial", e.a, s.cfg.ip[e.a]))]
    [] e.k = "dialfail" -> [s EXCEPT !.dialing = @ \ {e.a}, !.freed = @ \cup {e.a}]
    [] e.k = "chs" -> Upd(s, e.c, [s.c[e.c] EXCEPT !.chs = TRUE])
    [] e.k = "hs" -> Upd(s, e.c, [s.c[e.c] EXCEPT !.ph = IF e.pr /\ e.h /\ e.i # 0 /\ e.x \in {0, e.i} THEN "ok" ELSE "bad", !.id = e.i, !.tl = s.now])
    [] e.k = "rs" -> RS(s, e.c, e)
    [] e.k = "cs" -> IF e.m = "bad" THEN s ELSE CS(s, e.c, e)
    [] e.k = "rx" ->  \* what it sent just before may be lost
         LET cn == s.c[e.c]
             b == cn.corrupt /\ ~cn.cx
         IN [s EXCEPT !.c[e.c] = [@ EXCEPT !.rx = TRUE, !.lo = 0, !.pd = {}, !.corrupt = @ /\ ~b, !.mb = @ \/ b, !.viol = @ \/ b],
                      !.downLo = Max(s.down0, @ - cn.lo), !.must = @ \ cn.pd]
    [] e.k = "cx" -> [Upd(s, e.c, [s.c[e.c] EXCEPT !.cx = TRUE]) EXCEPT !.freed = @ \cup {s.c[e.c].a}]
    [] e.k = "stall" -> Upd(s, e.c, [s.c[e.c] EXCEPT !.viol = TRUE, !.st = TRUE])
    [] e.k = "good" -> Upd(s, e.c, [s.c[e.c] EXCEPT !.good = s.now])
    [] e.k = "list" ->
         \* An address that is being dialed or connected already is not dialed again for this,
         \* and no more than MaxDials are remembered until they can be dialed.
         LET busy == s.dialing \cup s.freed \cup {s.c[c].a : c \in {d \in Up(s) : s.c[d].src = "dial"}}
             room == Min(Len(e.A), MaxDials - Cardinality(s.listed \cup s.mayq) - s.given)
             new == {e.A[i] : i \in 1..room} \ (s.blocked \cup busy)
         IN [s EXCEPT !.listed = @ \cup new, !.mayq = (@ \cup SetOf(e.A)) \ (s.listed \cup new \cup s.blocked), !.listedR = @ \cup (SetOf(e.A) \ s.blocked),
                      !.given = @ + Len(e.A)]
    [] e.k = "ann" -> [s EXCEPT !.annAt = s.now, !.anns = @ + 1, !.stopann = @ \/ e.ev = "stopped"]
    [] e.k = "stop" ->  \* what was not noticed yet need not be
         [s EXCEPT !.stopped = TRUE, !.stopAt = s.now, !.must = {}, !.downLo = s.down0]
    [] e.k = "ret" -> [s EXCEPT !.returned = TRUE]
    [] e.k = "lx" -> [s EXCEPT !.lclosed = TRUE]
    [] e.k = "q" -> Rest(s, e)
    [] OTHER -> s

\* (still: nothing has happened since the client rested)
Apply(s, e) == [Effect([s EXCEPT !.now = e.t, !.still = @ /\ s.now = e.t], e) EXCEPT !.still = e.k = "q" /\ ~s.cfg.real]
=============================================================================
