//go:build verif

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/browles/drip/api/metainfo"
	trackerapi "github.com/browles/drip/api/tracker"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"

	"dripverif/util"
)

func init() { modes["swarm"] = swarmMode }

const swBlock = storage.BLOCK_LENGTH

// swarmMode makes executions of a client among scripted remotes, on virtual
// time, and writes what happened as traces for SwarmTrace.
func swarmMode(c *Config, res *util.Result) {
	f, err := os.OpenFile(c.Traces, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	runs, w, ws := c.Int("runs", 10), c.Int("worker", 0), c.Int("workers", 1)
	prof, ok := swProfiles[c.Str("profile", "fetch")]
	if !ok {
		panic("profile")
	}
	var fmu sync.Mutex
	var wg sync.WaitGroup
	defer wg.Wait()
	one := func(i, w int) {
		seed := c.Seed*1000003 + int64(i)
		var sc *swScript
		if c.Cases != "" {
			if i += c.Int("from", 0); i >= len(scripts(c)) {
				return
			}
			sc = &swScript{np: c.Int("np", 1), nb: c.Int("nb", 1), done: c.Params["done"].([]any)}
			if err := json.Unmarshal(scripts(c)[i], &sc.ops); err != nil {
				panic(err)
			}
		}
		s := newSwarm(c, seed, w, prof, sc)
		s.real = c.Bool("real")
		swRunning.Store(w, s)
		s.run()
		swRunning.Delete(w)
		fmu.Lock()
		defer fmu.Unlock()
		b, err := json.Marshal(map[string]any{"cfg": s.cfg, "ev": s.ev, "seed": seed})
		if err != nil {
			panic(err)
		}
		f.Write(append(b, '\n'))
		res.Add("runs", 1)
		res.Add("events", len(s.ev))
		for k, n := range s.stats {
			res.Add(k, n)
		}
		if i == 0 {
			res.Sample(s.ev[:min(len(s.ev), 12)])
		}
	}
	for i := w; i < runs; i += ws {
		if c.Bool("real") { // all at once
			wg.Add(1)
			go func() { defer wg.Done(); one(i, i) }()
			continue
		}
		one(i, w)
	}
}

// swRunning are the runs under way, for the report when one is stuck.
var swRunning sync.Map

func init() { stuck = swStuck }

func swStuck() any {
	var r []any
	swRunning.Range(func(k, v any) bool {
		s := v.(*swarm)
		if s.mu.TryLock() {
			r = append(r, map[string]any{"cfg": s.cfg, "ev": s.ev})
			s.mu.Unlock()
		}
		return true
	})
	buf := make([]byte, 1<<20)
	return map[string]any{"runs": r, "stacks": string(buf[:runtime.Stack(buf, true)])}
}

type swProfile struct {
	np, nb    int            // at most so many pieces, blocks per piece
	ops       int            // operations per run
	done      float64        // share of pieces present at the start
	hosts     int            // host IPs
	w         map[string]int // weights of operations
	burst     float64        // chance that operations come without rest between
	final     float64        // chance of a final phase in which the download must complete
	bad       float64        // chance of corrupt data where a block is answered
	badhs     float64        // chance of a handshake that must be refused
	badmsg    float64        // chance of a message with senseless fields
	fill      int            // connections made at the start
	maxconn   int
	dialed    float64 // chance that a connection comes about by dialing
	rare      bool    // single-block pieces, several remotes with different pieces
	hangtrack bool
	small     bool    // small pieces, more than one byte's worth at least
	long      bool    // pieces of many blocks
	last      string  // the last operation
	pause     float64 // chance of a pause after a burst
	nostop    bool    // no time for the client to stop
	jitter    int     // how much the order of events is disturbed, at most
	most      int     // operations in a burst, at most (4)
	addrs     int     // addresses, each with a remote of its own
}

var swProfiles = map[string]*swProfile{
	"fetch": {np: 4, nb: 3, ops: 60, done: 0.2, hosts: 4, burst: 0.1, final: 0.5, bad: 0.1, maxconn: 9, dialed: 0.3,
		w: map[string]int{"connect": 3, "bf": 3, "have": 4, "choke": 2, "unchoke": 5, "answer": 16, "answerall": 3, "unreq": 1, "idle1": 1, "idle13": 1, "idle30": 2, "rclose": 1, "list": 1, "req": 1, "int": 1, "unchokeround": 1}},
	"upload": {np: 4, nb: 2, ops: 60, done: 0.7, hosts: 3, burst: 0.15, bad: 0.05, maxconn: 8, dialed: 0.2, badmsg: 0.05,
		w: map[string]int{"connect": 3, "req": 20, "cancel": 2, "unchokeround": 3, "idle13": 1, "bf": 1, "have": 1, "unchoke": 1, "answer": 4, "int": 2, "rclose": 1, "reqearly": 1, "pipeline": 1}},
	"rare": {np: 6, nb: 1, ops: 60, done: 0.1, hosts: 6, burst: 0, maxconn: 10, rare: true, dialed: 0.2,
		w: map[string]int{"connect": 8, "bf": 6, "have": 3, "unchoke": 6, "choke": 2, "answer": 10, "rclose": 3, "idle30": 1, "idle13": 1}},
	"admit": {np: 2, nb: 1, ops: 50, done: 0.5, hosts: 3, burst: 0.2, badhs: 0.35, maxconn: 24, dialed: 0.3,
		w: map[string]int{"connect": 20, "rclose": 6, "prehs": 4, "latehs": 4, "have": 2, "req": 2, "idle1": 1, "idle13": 1, "idle30": 1, "list": 2, "unchoke": 1, "unchokeround": 1}},
	"full": {np: 4, nb: 1, ops: 34, done: 0.5, hosts: 60, burst: 0.1, badhs: 0.1, maxconn: 90, dialed: 0.2, fill: 49,
		w: map[string]int{"connect": 14, "rclose": 8, "latehs": 2, "idle1": 1, "idle30": 1, "list": 3, "req": 1, "seed": 2}},
	"wear": {np: 2, nb: 1, ops: 6, done: 0.5, hosts: 8, maxconn: 400,
		w: map[string]int{"wear": 5, "fill": 2, "tracker": 1, "idle30": 1, "rclose": 2}, last: "fill"},
	"flood": {np: 2, nb: 1, ops: 34, done: 0.5, addrs: 130, maxconn: 900, dialed: 0.5,
		w: map[string]int{"flood": 8, "listfew": 8, "modes": 6, "cull": 6, "idle1": 3, "idle13": 2, "idle30": 4, "idle70": 1}, last: "idle30"},
	"many": {np: 600, nb: 1, small: true, ops: 16, done: 0.7, hosts: 5, burst: 0.2, final: 1, bad: 0.02, maxconn: 6, dialed: 0.3,
		w: map[string]int{"connect": 3, "bf": 4, "have": 3, "unchoke": 4, "answer": 4, "answerall": 2, "pipeline": 3, "idle13": 2, "rclose": 1, "unchokeround": 2, "mode": 1}},
	"long": {np: 2, nb: 160, long: true, ops: 24, done: 0.4, hosts: 4, burst: 0.1, final: 1, bad: 0.01, maxconn: 5, dialed: 0.3,
		w: map[string]int{"connect": 3, "bf": 3, "have": 3, "unchoke": 5, "choke": 1, "answer": 3, "answerall": 10, "pipeline": 3, "idle13": 1, "rclose": 1, "unchokeround": 2, "mode": 2}},
	"script": {np: 1, nb: 1, hosts: 3, addrs: 3, maxconn: 1000, final: 0.25},
	"hostile": {np: 3, nb: 3, ops: 60, done: 0.4, hosts: 5, burst: 0.3, bad: 0.15, badhs: 0.1, badmsg: 0.4, maxconn: 14, dialed: 0.2, final: 0.4,
		w: map[string]int{"connect": 6, "bf": 3, "have": 4, "choke": 2, "unchoke": 4, "answer": 6, "answerall": 1, "unreq": 3, "idle13": 1, "idle30": 1, "rclose": 2, "req": 5, "reqearly": 2, "cancel": 2, "int": 1, "junk": 3, "unchokeround": 1, "list": 1, "prehs": 1, "ka": 1}},
	"dial": {np: 2, nb: 1, ops: 50, done: 0.3, hosts: 5, burst: 0.05, bad: 0.3, maxconn: 26, dialed: 0.9, badhs: 0.15,
		w: map[string]int{"list": 20, "announce": 4, "tracker": 3, "hosts": 6, "rclose": 6, "bf": 4, "unchoke": 4, "answer": 6, "idle1": 2, "idle13": 2, "idle30": 3, "idle70": 2, "connect": 2, "latehs": 2}},
	"race": {np: 24, nb: 1, ops: 120, done: 0.2, hosts: 5, burst: 0.8, most: 14, pause: 0.4, final: 0.4, bad: 0.03, maxconn: 6, jitter: 12,
		w: map[string]int{"connect": 3, "bf": 3, "have": 14, "choke": 3, "unchoke": 8, "answer": 14, "answerall": 3, "unreq": 1, "idle1": 1, "idle13": 1, "idle30": 1, "rclose": 1, "req": 2, "int": 1, "unchokeround": 1, "mode": 6}},
	"mixed": {np: 5, nb: 18, ops: 90, done: 0.3, hosts: 5, burst: 0.25, final: 0.6, bad: 0.08, badhs: 0.05, badmsg: 0.03, maxconn: 12, dialed: 0.4, jitter: 3,
		w: map[string]int{"connect": 4, "bf": 3, "have": 4, "choke": 2, "unchoke": 5, "answer": 12, "answerall": 4, "unreq": 1, "idle1": 1, "idle13": 1, "idle30": 2, "rclose": 1, "list": 2, "req": 8, "cancel": 1, "int": 1, "unchokeround": 2, "announce": 1, "tracker": 1, "ka": 1}},
	"stall": {np: 4, nb: 3, ops: 16, done: 0.5, hosts: 8, burst: 0.5, maxconn: 12, dialed: 0.3, fill: 4, nostop: true,
		w: map[string]int{"connect": 4, "bf": 4, "have": 3, "unchoke": 6, "answer": 10, "answerall": 4, "req": 8, "stall": 6, "wedge": 1, "crowd": 1, "resume": 3, "idle13": 3, "rclose": 1, "unchokeround": 4}},
	"stopreal": {np: 3, nb: 2, ops: 8, done: 0.4, hosts: 4, burst: 0.7, maxconn: 8, dialed: 0.5, badhs: 0.1, hangtrack: true,
		w: map[string]int{"connect": 5, "bf": 3, "unchoke": 4, "answer": 4, "list": 3, "hosts": 2, "req": 2, "unchokeround": 1, "stall": 2, "latehs": 1}},
	"stop": {np: 3, nb: 2, ops: 14, done: 0.4, hosts: 4, burst: 0.3, maxconn: 8, dialed: 0.5, badhs: 0.1, hangtrack: true,
		w: map[string]int{"connect": 5, "bf": 3, "have": 2, "unchoke": 4, "answer": 5, "list": 4, "hosts": 2, "req": 3, "idle1": 1, "idle13": 1, "unchokeround": 1, "latehs": 1, "prehs": 1}},
}

type swarm struct {
	c      *Config
	rng    *rand.Rand
	prof   *swProfile
	w      int
	script *swScript
	tor    *util.Torrent
	mi     *metainfo.Metainfo
	dir    string
	st     *storage.Storage
	srv    *p2p.Server
	own    [20]byte
	l      *memListener
	t0     time.Time
	cfg    map[string]any
	stats  map[string]int
	real   bool // on the real clock
	jitter int
	fin    bool
	nb     []int
	size   []int

	mu       sync.Mutex
	ev       []map[string]any
	conns    []*rconn
	hosts    map[string]*swHost
	addrs    []*swHost
	resp     string // the tracker's answer
	respA    []int
	anns     int
	trackbad string
	freshIP  int
}

// swHost is an address that the client may dial.
type swHost struct {
	a       int
	ip      int // host
	addr    string
	port    int
	mode    string // accept, refuse, hang, slow
	hs      string // kind of handshake sent at once, "" for none
	id      int
	xid     int // the ID that the tracker gives, 0 for none
	inlist  bool
	blocked bool
}

type outReq struct {
	p, b, begin, n int
	t              time.Time
}

type rconn struct {
	s       *swarm
	n       int
	a       int
	ip      int
	id      int
	xid     int
	mc      *memConn
	buf     []byte
	hs      bool // the client's handshake was seen
	sent    bool // a complete handshake was sent
	good    bool // an acceptable one
	rx      bool
	cx      bool
	cch     bool
	rch     bool
	bf      bool
	has     map[int]bool
	out     []outReq
	mode    string
	every   time.Duration
	stalled bool
}

var swPort atomic.Int64

func ip4(w, k int) net.IP { return net.IPv4(10, byte(100+w), byte(k>>8), byte(k)) }

// swScript is a sequence of stimuli that TLC enumerated.
type swScript struct {
	np, nb int
	done   []any
	ops    []swOp
}

type swOp struct {
	O    string
	C, P int
	S    []any
	J    bool
}

var (
	scriptOnce  sync.Once
	scriptLines [][]byte
)

func scripts(c *Config) [][]byte {
	scriptOnce.Do(func() {
		b, err := os.ReadFile(c.Cases)
		must(err)
		scriptLines = bytes.Split(bytes.TrimSpace(b), []byte("\n"))
	})
	return scriptLines
}

func newSwarm(c *Config, seed int64, w int, prof *swProfile, sc *swScript) *swarm {
	rng := rand.New(rand.NewSource(seed))
	s := &swarm{c: c, rng: rng, prof: prof, w: w, script: sc, hosts: map[string]*swHost{}, stats: map[string]int{}}
	np := 1 + rng.Intn(prof.np)
	if prof.rare {
		np = max(np, 3)
	}
	nb := 1 + rng.Intn(prof.nb)
	if prof.nb > 6 && rng.Intn(3) > 0 {
		nb = 1 + rng.Intn(3)
	}
	if sc != nil {
		np, nb = sc.np, sc.nb
	}
	if prof.small {
		np = []int{9, 63, 65, 250 + rng.Intn(20), 257 + rng.Intn(prof.np-256)}[rng.Intn(5)]
	}
	if prof.long {
		nb = []int{17, 33, 63, 65, 65 + rng.Intn(prof.nb-64)}[rng.Intn(5)]
	}
	// The last block of a piece, and the last piece, may be shorter.
	pl := nb * swBlock
	if rng.Intn(3) == 0 {
		pl -= []int{1, swBlock / 2, swBlock - 1}[rng.Intn(3)]
	}
	if prof.small {
		pl = 64 + rng.Intn(500)
	}
	last := pl
	if rng.Intn(2) == 0 {
		last = 1 + rng.Intn(pl)
	}
	if sc != nil {
		pl = nb * swBlock
		last = pl - rng.Intn(2)*7
	}
	total := (np-1)*pl + last
	s.tor = util.MakeTorrent(seed, "t", pl, total, nil)
	done := []int{}
	for p := range np {
		n := min(pl, total-p*pl)
		s.size = append(s.size, n)
		s.nb = append(s.nb, (n+swBlock-1)/swBlock)
		if sc == nil && rng.Float64() < prof.done || sc != nil && slices.Contains(sc.done, any(float64(p))) {
			done = append(done, p)
		}
	}
	copy(s.own[:], "-DR0001-client-under")
	s.dir = filepath.Join(c.Scratch, fmt.Sprintf("sw%d-%d", w, seed))
	for _, d := range []string{"target", "work"} {
		if err := os.MkdirAll(filepath.Join(s.dir, d), 0o755); err != nil {
			panic(err)
		}
	}
	if len(done) > 0 {
		st := s.storage()
		if err := st.Load(); err != nil {
			panic(err)
		}
		for _, p := range done {
			for b := range s.nb[p] {
				if err := st.PutBlock(p, b*swBlock, s.block(p, b)); err != nil {
					panic(err)
				}
			}
		}
	}
	s.cfg = map[string]any{"np": np, "nb": s.nb, "size": s.size, "bl": swBlock, "done": done}
	return s
}

func (s *swarm) count(k string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.stats[k]++
}

func (s *swarm) storage() *storage.Storage {
	return storage.New(filepath.Join(s.dir, "target"), filepath.Join(s.dir, "work"), s.tor.Clone())
}

func (s *swarm) block(p, b int) []byte {
	off := p*s.tor.Info.PieceLength + b*swBlock
	return s.tor.Content[off : off+min(swBlock, s.size[p]-b*swBlock)]
}

// log records an event; the caller holds mu.
func (s *swarm) log(k string, kv ...any) {
	e := map[string]any{"k": k, "t": int(time.Since(s.t0).Milliseconds())}
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	if len(s.ev) == 500_000 { // (a run has some thousands)
		endless.CompareAndSwap(nil, &e)
		return
	}
	s.ev = append(s.ev, e)
}

func (s *swarm) logL(k string, kv ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log(k, kv...)
}

// rest waits until the client has come to rest and records how.
func (s *swarm) rest() {
	s.quiet()
	progress.Add(1)
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, r := range s.conns {
		if len(r.buf) > 0 && !r.cx && !r.stalled {
			s.log("cs", "c", r.n, "m", "bad", "why", "incomplete message")
			r.buf = nil
		}
	}
	s.log("q", "done", s.done(), "down", int(s.srv.Downloaded()), "up", int(s.srv.Uploaded()), "fin", s.fin)
}

// quiet returns when nothing happens any more.
func (s *swarm) quiet() {
	if !s.real {
		synctest.Wait()
		return
	}
	for n, since := -1, time.Now(); time.Since(since) < 600*time.Millisecond; time.Sleep(20 * time.Millisecond) {
		s.mu.Lock()
		if len(s.ev) != n {
			n, since = len(s.ev), time.Now()
		}
		s.mu.Unlock()
	}
}

func (s *swarm) done() []int {
	d := []int{}
	bf := s.st.Torrent.Bitfield
	for p := range s.nb {
		if bf.Has(p) {
			d = append(d, p)
		}
	}
	return d
}

func (s *swarm) id(i int) (id [20]byte) {
	if i == 0 {
		return s.own
	}
	copy(id[:], fmt.Sprintf("-RM0000-remote%06d", i))
	return
}

func (s *swarm) handshake(kind string, id int) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	res := make([]byte, 8)
	s.rng.Read(res)
	b = append(b, res...)
	b = append(b, s.tor.Info.SHA1[:]...)
	i := s.id(id)
	b = append(b, i[:]...)
	switch kind {
	case "proto":
		b[1+s.rng.Intn(19)] ^= 1 << s.rng.Intn(8)
	case "plen":
		b[0] = []byte{0, 18, 20, 255}[s.rng.Intn(4)]
	case "hash":
		b[28+s.rng.Intn(20)] ^= 1 << s.rng.Intn(8)
	}
	return b
}

func (s *swarm) newConn(a, ip, port, id, xid int) *rconn {
	r := &rconn{s: s, n: len(s.conns) + 1, a: a, ip: ip, id: id, xid: xid, cch: true, rch: true, has: map[int]bool{}}
	r.mc = newMemConn(&net.TCPAddr{IP: net.IPv4(10, 99, 0, 1), Port: 6881}, &net.TCPAddr{IP: ip4(s.w, ip), Port: port})
	r.mc.onWrite = r.receive
	r.mc.jitter = s.jitter
	r.mc.onClose = func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		r.cx = true
		s.log("cx", "c", r.n)
	}
	s.conns = append(s.conns, r)
	return r
}

// dialer is what happens when the client dials an address.
func (s *swarm) dialer(h *swHost) memHost {
	return func(ctx context.Context) (net.Conn, error) {
		s.mu.Lock()
		s.log("dial", "a", h.a)
		mode, hs := h.mode, h.hs
		s.mu.Unlock()
		fail := func(err error) (net.Conn, error) {
			s.logL("dialfail", "a", h.a)
			return nil, err
		}
		switch mode {
		case "refuse":
			return fail(syscall.ECONNREFUSED)
		case "hang":
			<-ctx.Done()
			return fail(ctx.Err())
		case "slow":
			select {
			case <-ctx.Done():
				return fail(ctx.Err())
			case <-time.After(3 * time.Second):
			}
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		r := s.newConn(h.a, h.ip, h.port, h.id, h.xid)
		s.log("dialed", "c", r.n, "a", h.a)
		if hs != "" {
			r.shake(hs)
		}
		return r.mc, nil
	}
}

// shake sends a handshake; the caller holds mu.
func (r *rconn) shake(kind string) {
	s := r.s
	id := r.id
	switch kind {
	case "own":
		id = 0
	case "other": // not the ID that the tracker gave
		id = r.id + 500
	}
	b := s.handshake(kind, id)
	if kind == "cut" {
		n := 1 + s.rng.Intn(len(b)-1)
		s.log("rs", "c", r.n, "m", "part")
		r.mc.feed(b[:n])
		return
	}
	if kind == "plen" {
		// Refused on its first byte.
		s.log("rs", "c", r.n, "m", "junk")
		r.mc.feed(b)
		return
	}
	r.sent = true
	r.id = id
	r.good = kind != "proto" && kind != "hash" && id != 0 && (r.xid == 0 || r.xid == id)
	s.log("hs", "c", r.n, "pr", kind != "proto", "h", kind != "hash", "i", id, "x", r.xid)
	r.mc.feed(b)
}

// receive parses what the client writes.
func (r *rconn) receive(b []byte) {
	s := r.s
	s.mu.Lock()
	defer s.mu.Unlock()
	r.buf = append(r.buf, b...)
	for {
		if !r.hs {
			if len(r.buf) < 68 {
				return
			}
			h := r.buf[:68]
			r.buf = r.buf[68:]
			r.hs = true
			ok := h[0] == 19 && string(h[1:20]) == "BitTorrent protocol" && bytes.Equal(h[28:48], s.tor.Info.SHA1[:]) && bytes.Equal(h[48:68], s.own[:])
			s.log("chs", "c", r.n, "ok", ok)
			continue
		}
		if len(r.buf) < 4 {
			return
		}
		n := int(binary.BigEndian.Uint32(r.buf))
		if n > 1<<20 {
			r.bad("length")
			return
		}
		if len(r.buf) < 4+n {
			return
		}
		m := append([]byte(nil), r.buf[4:4+n]...)
		r.buf = r.buf[4+n:]
		r.message(m)
	}
}

func (r *rconn) bad(why string) {
	r.s.log("cs", "c", r.n, "m", "bad", "why", why)
	r.buf = nil
}

func (r *rconn) message(m []byte) {
	s := r.s
	if len(m) == 0 {
		s.log("cs", "c", r.n, "m", "ka")
		return
	}
	want := map[byte]int{0: 1, 1: 1, 2: 1, 3: 1, 4: 5, 6: 13, 8: 13}
	if w, ok := want[m[0]]; ok && w != len(m) || m[0] == 7 && len(m) < 9 || m[0] > 8 {
		r.bad(fmt.Sprintf("type %d length %d", m[0], len(m)))
		return
	}
	u := func(i int) int { return int(binary.BigEndian.Uint32(m[i:])) }
	switch m[0] {
	case 0:
		r.cch = true
		s.log("cs", "c", r.n, "m", "choke")
	case 1:
		r.cch = false
		s.log("cs", "c", r.n, "m", "unchoke")
	case 2:
		s.log("cs", "c", r.n, "m", "int")
	case 3:
		s.log("cs", "c", r.n, "m", "nint")
	case 4:
		s.log("cs", "c", r.n, "m", "have", "p", u(1))
	case 5:
		S := []int{}
		for i := range (len(m) - 1) * 8 {
			if m[1+i/8]&(0x80>>(i%8)) != 0 {
				S = append(S, i)
			}
		}
		r.bf = true
		s.log("cs", "c", r.n, "m", "bf", "S", S, "ok", len(m)-1 == (len(s.nb)+7)/8 && (len(S) == 0 || S[len(S)-1] < len(s.nb)))
	case 6, 8:
		p, begin, n := u(1), u(5), u(9)
		b := begin / swBlock
		ok := p < len(s.nb) && begin%swBlock == 0 && b < s.nb[p] && n == len(s.block(p, b))
		if m[0] == 8 {
			s.log("cs", "c", r.n, "m", "cancel", "p", p, "b", b, "ok", ok)
			return
		}
		s.log("cs", "c", r.n, "m", "req", "p", p, "b", b, "ok", ok)
		s.stats["requests"]++
		if ok {
			for _, o := range r.out {
				if o.p == p && o.b == b { // the attempt before has failed
					r.out = slices.DeleteFunc(r.out, func(o outReq) bool { return o.p == p })
					break
				}
			}
			r.out = append(r.out, outReq{p, b, begin, n, time.Now()})
			if r.mode != "" {
				go r.serve(r.out[len(r.out)-1])
			}
		}
	case 7:
		p, begin, data := u(1), u(5), m[9:]
		off := p*s.tor.Info.PieceLength + begin
		ok := off+len(data) <= len(s.tor.Content) && bytes.Equal(s.tor.Content[off:off+len(data)], data)
		s.log("cs", "c", r.n, "m", "pc", "p", p, "b", begin, "l", len(data), "ok", ok)
		s.stats["blocks_served"]++
	}
}

// serve answers a request by itself.
func (r *rconn) serve(q outReq) {
	s := r.s
	s.mu.Lock()
	d := time.Duration(s.rng.Intn(500)) * time.Millisecond
	mode := r.mode
	s.mu.Unlock()
	if mode == "silent" {
		return
	}
	if mode == "tease" { // it is willing again at once
		time.Sleep(r.every)
		s.mu.Lock()
		defer s.mu.Unlock()
		if r.live() && !r.rch {
			r.choke()
			r.unchoke()
		}
		return
	}
	if mode == "lively" {
		for range d % 7 {
			runtime.Gosched()
		}
		d = 0
	}
	time.Sleep(d)
	s.mu.Lock()
	defer s.mu.Unlock()
	if r.rx || r.cx || mode == "lively" && !slices.Contains(r.out, q) {
		return
	}
	r.answer(q, mode == "corrupt" || mode == "lively" && s.rng.Float64() < s.prof.bad)
	if mode == "lively" {
		for range s.rng.Intn(3) {
			switch s.rng.Intn(8) {
			default:
				r.have(s.rng.Intn(len(s.nb)))
			case 0:
				r.choke()
			case 1:
				r.unchoke()
			}
			if s.rng.Intn(2) == 0 {
				s.mu.Unlock()
				disturb(s.jitter * 4)
				s.mu.Lock()
				if r.rx || r.cx {
					return
				}
			}
		}
		return
	}
	if mode == "flap" && s.rng.Intn(3) == 0 && !r.rch {
		r.choke()
		go func() {
			time.Sleep(time.Second)
			s.mu.Lock()
			defer s.mu.Unlock()
			if !r.rx && !r.cx {
				r.unchoke()
			}
		}()
	}
}

// The following send messages; the caller holds mu.
func (r *rconn) send(typ byte, body []byte, kv ...any) {
	r.s.log("rs", append([]any{"c", r.n}, kv...)...)
	b := binary.BigEndian.AppendUint32(nil, uint32(1+len(body)))
	b = append(b, typ)
	r.mc.feed(append(b, body...))
}

func be32s(v ...int) []byte {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint32(b, uint32(x))
	}
	return b
}

func (r *rconn) choke() {
	r.rch = true
	r.out = nil
	r.send(0, nil, "m", "choke")
}
func (r *rconn) unchoke() {
	r.rch = false
	r.send(1, nil, "m", "unchoke")
}

func (r *rconn) have(p int) {
	if p < len(r.s.nb) {
		r.has[p] = true
	}
	r.send(4, be32s(p), "m", "have", "p", p)
}

func (r *rconn) bitfield(set []int, extra int) {
	n := (len(r.s.nb) + 7) / 8
	b := make([]byte, n+extra)
	ok := true
	for _, p := range set {
		if p < len(b)*8 {
			b[p/8] |= 0x80 >> (p % 8)
			if p < len(r.s.nb) {
				r.has[p] = true
			} else {
				ok = false
			}
		}
	}
	S := []int{}
	for _, p := range set {
		if p < len(r.s.nb) {
			S = append(S, p)
		}
	}
	r.send(5, b, "m", "bf", "S", S, "ok", ok && extra == 0)
}

func (r *rconn) answer(q outReq, bad bool) {
	data := append([]byte(nil), r.s.block(q.p, q.b)...)
	if bad {
		data[r.s.rng.Intn(len(data))] ^= 1 << r.s.rng.Intn(8)
	}
	for i, o := range r.out {
		if o == q {
			r.out = append(r.out[:i:i], r.out[i+1:]...)
			break
		}
	}
	r.send(7, append(be32s(q.p, q.begin), data...), "m", "pc", "p", q.p, "b", q.b, "ok", true, "good", !bad)
}

func (r *rconn) hangup() {
	r.rx = true
	r.s.log("rx", "c", r.n)
	r.mc.hangup()
}

func (r *rconn) live() bool { return !r.rx && !r.cx }
func (r *rconn) on() bool   { return r.live() && r.bf }

func (s *swarm) pick(f func(*rconn) bool) *rconn {
	var c []*rconn
	for _, r := range s.conns {
		if f(r) {
			c = append(c, r)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[s.rng.Intn(len(c))]
}

func (s *swarm) kind() string {
	if s.rng.Float64() < s.prof.badhs {
		return []string{"proto", "plen", "hash", "own", "other", "cut", ""}[s.rng.Intn(7)]
	}
	return "good"
}

// fresh makes an address that was not used before.
func (s *swarm) newHost(ip int) *swHost {
	h := &swHost{a: len(s.addrs) + 1, ip: ip, port: 6881 + len(s.addrs), mode: "accept", hs: "good"}
	h.id = 1 + s.rng.Intn(max(2, s.prof.hosts))
	if s.rng.Intn(3) == 0 {
		h.xid = h.id
	}
	h.addr = net.JoinHostPort(ip4(s.w, ip).String(), strconv.Itoa(h.port))
	s.addrs = append(s.addrs, h)
	s.hosts[h.addr] = h
	memHosts.Store(h.addr, memHost(s.dialer(h)))
	return h
}

func (s *swarm) connectIn(ip, id int, kind string) *rconn {
	r := s.newConn(0, ip, 20000+len(s.conns), id, 0)
	s.log("in", "c", r.n, "ip", ip)
	if !s.l.push(r.mc) {
		r.rx, r.cx = true, true
		s.log("rx", "c", r.n)
		s.log("cx", "c", r.n)
		return r
	}
	if kind != "" {
		r.shake(kind)
	}
	return r
}

func (s *swarm) newIP() int { s.freshIP++; return 1000 + s.freshIP }

// give hands addresses to the client; called without mu.
func (s *swarm) give(hs []*swHost, announce bool) {
	s.mu.Lock()
	var list []*trackerapi.Peer
	A := []int{}
	for _, h := range hs {
		if h == nil {
			list = append(list, &trackerapi.Peer{IP: []string{"", "nonsense", "10.1.2", "999.1.1.1"}[s.rng.Intn(4)], Port: 6881})
			continue
		}
		p := &trackerapi.Peer{IP: ip4(s.w, h.ip).String(), Port: h.port}
		if s.rng.Intn(6) == 0 && !announce {
			p.IP = "::ffff:" + p.IP
		}
		if h.xid != 0 {
			id := s.id(h.xid)
			p.ID = string(id[:])
		}
		list = append(list, p)
		A = append(A, h.a)
	}
	if announce {
		s.resp, s.respA = peerList(list), A
		if s.rng.Intn(2) == 0 && !slices.ContainsFunc(hs, func(h *swHost) bool { return h == nil || h.xid != 0 }) {
			b := ""
			for _, h := range hs {
				b += string(ip4(s.w, h.ip).To4()) + string([]byte{byte(h.port >> 8), byte(h.port)})
			}
			s.resp = fmt.Sprintf("d8:intervali%%de5:peers%d:%se", len(b), b)
			s.stats["compact lists"]++
		}
	} else {
		s.log("list", "A", A)
	}
	s.mu.Unlock()
	if announce {
		if err := s.srv.Announce(context.Background()); err != nil {
			s.mu.Lock()
			s.resp = ""
			s.mu.Unlock()
		}
		return
	}
	for _, p := range list {
		s.srv.AddPeer(p)
	}
}

// peerList is a tracker response with a list of peers, and the event for it.
func peerList(list []*trackerapi.Peer) string {
	b := "d8:intervali" + "%d" + "e5:peersl"
	for _, p := range list {
		b += "d2:ip" + strconv.Itoa(len(p.IP)) + ":" + p.IP + "7:peer id" + strconv.Itoa(len(p.ID)) + ":" + p.ID + "4:porti" + strconv.Itoa(p.Port) + "ee"
	}
	return b + "ee"
}

func (s *swarm) tracker(req *http.Request) (*http.Response, error) {
	q := req.URL.Query()
	n := func(k string) int { v, err := strconv.Atoi(q.Get(k)); _ = err; return v }
	own := q.Get("info_hash") == string(s.tor.Info.SHA1[:]) && q.Get("peer_id") == string(s.own[:]) && q.Get("port") == strconv.Itoa(s.srv.Port) && q.Get("compact") == "1"
	s.mu.Lock()
	s.log("ann", "ev", q.Get("event"), "up", n("uploaded"), "down", n("downloaded"), "left", n("left"), "own", own)
	bad := s.trackbad
	s.anns++
	resp := s.resp
	s.resp = ""
	if resp != "" && bad == "" {
		s.log("list", "A", s.respA)
	}
	s.mu.Unlock()
	switch bad {
	case "hang": // in real time, while the client's virtual clock stands still
		if s.real {
			<-req.Context().Done()
			return nil, req.Context().Err()
		}
		ts := syscall.NsecToTimespec(int64(3 * time.Millisecond))
		syscall.Nanosleep(&ts, nil)
		return nil, context.DeadlineExceeded
	case "500":
		return response(500, "oops", req), nil
	case "refuse":
		return nil, syscall.ECONNREFUSED
	case "failure":
		return response(200, "d14:failure reason8:overload8:intervali7ee", req), nil
	case "garbage":
		return response(200, []string{"", "<html>", "d8:intervali60e5:peers5:12345e", "i1e", "d5:peers6:12345"}[s.anns%5], req), nil
	}
	if resp == "" {
		resp = []string{"d8:intervali%de5:peers0:e", "d8:intervali%de5:peerslee", "d8:intervali%dee", "d8:completei2e10:incompletei0e8:intervali%d" +
			"e12:min intervali30e5:peers0:6:peers60:10:tracker id3:abce"}[s.anns%4]
	}
	return response(200, strings.Replace(resp, "%d", strconv.Itoa(s.interval()), 1), req), nil
}

func (s *swarm) interval() int { return s.cfg["interval"].(int) / 1000 }

func (s *swarm) run() {
	s.cfg["real"] = s.real
	s.cfg["interval"] = []int{60000, 1800000}[s.rng.Intn(2)]
	s.t0 = time.Now()
	s.st = s.storage()
	s.jitter = []int{0, 0, 2, 6, 15}[s.rng.Intn(5)]
	if s.prof.jitter > 0 {
		s.jitter = s.prof.jitter
	}
	logJitter.Store(int64(s.jitter))
	host := fmt.Sprintf("t%d.test", s.w)
	s.mi = &metainfo.Metainfo{Announce: "http://" + host + "/announce", Info: s.tor.Info}
	memTrackers.Store(host, s.tracker)
	memHosts.Store(hostPrefix(ip4(s.w, 0).String()), func(a string) { s.logL("dial", "a", 0) })
	port := 100000 + int(swPort.Add(1))
	s.srv = p2p.New(s.mi, s.own, s.st, port)
	defer os.RemoveAll(s.dir)
	for k := range s.prof.addrs {
		h := s.newHost(k + 1)
		if h.id, h.xid = k+1, 0; s.rng.Intn(4) == 0 {
			h.xid = h.id
		}
	}
	for k := range min(s.prof.hosts, 6) {
		if s.prof.addrs > 0 {
			break
		}
		for range 1 + s.rng.Intn(2) {
			s.newHost(k + 1)
		}
	}
	ip := []int{}
	for _, h := range s.addrs {
		ip = append(ip, h.ip)
	}
	s.cfg["ip"] = ip
	memListened.Store(port, func(l *memListener) {
		l.onClose = func() { s.logL("lx") }
		s.l = l
	})
	early := s.prof.hangtrack && s.rng.Intn(5) == 0 // it must stop before it has started
	if early {
		s.count("early stops")
		if s.rng.Intn(2) == 0 {
			s.trackbad = []string{"hang", "500", "refuse"}[s.rng.Intn(3)]
		}
		s.logL("stop")
	}
	go func() {
		err := s.srv.Start()
		s.logL("ret", "err", fmt.Sprint(err))
	}()
	if early && (s.trackbad == "" || s.rng.Intn(2) == 0) {
		go s.stop()
	}
	if !early {
		s.quiet()
	}
	if !early {
		if s.l == nil {
			panic("no listener")
		}
		s.operate()
	}
	for n := 0; !s.prof.nostop; n++ {
		progress.Add(1)
		s.mu.Lock()
		over := s.over()
		s.mu.Unlock()
		if n == 2 && !over {
			s.rest()
		}
		if over || n == 30 {
			s.fin = true
			break
		}
		time.Sleep(2 * time.Second)
	}
	s.rest()
	s.logL("end", "pub", s.tor.Published(filepath.Join(s.dir, "target")))
	for _, h := range s.addrs {
		memHosts.Delete(h.addr)
	}
}

// stop tells the client to stop, again as long as it says that it has not
// started.
func (s *swarm) stop() {
	for {
		if err := s.srv.Stop(); err == nil || err.Error() != "p2p: server not started" {
			return
		}
		runtime.Gosched()
	}
}

// over tells whether there is nothing left to wait for; the caller holds mu.
func (s *swarm) over() bool {
	ret, lx, ann := false, false, false
	for _, e := range s.ev {
		ret = ret || e["k"] == "ret"
		lx = lx || e["k"] == "lx"
		ann = ann || e["k"] == "ann" && e["ev"] == "stopped"
	}
	return ret && lx && ann && !slices.ContainsFunc(s.conns, func(r *rconn) bool { return !r.cx })
}

// operate runs the client among its remotes until it is told to stop.
func (s *swarm) operate() {
	s.rest()
	s.mu.Lock()
	for i := range s.prof.fill - s.rng.Intn(1+s.prof.fill/8) {
		s.connectIn(500+i, 500+i, "good")
	}
	s.mu.Unlock()
	s.rest()
	if s.script != nil {
		s.play()
	}
	var ops []string
	for k, n := range s.prof.w {
		for range n {
			ops = append(ops, k)
		}
	}
	sort.Strings(ops)
	for n := 0; n < s.prof.ops; {
		k := 1
		if s.rng.Float64() < s.prof.burst {
			k = 2 + s.rng.Intn(max(3, s.prof.most-1))
		}
		did := false
		for range k {
			op := ops[s.rng.Intn(len(ops))]
			if k > 1 && (op[0] == 'i' && op != "int" || op == "list" || op == "announce" || op == "tracker" || op == "hosts" || op == "unreq") {
				n++
				continue // no time passes within a burst
			}
			if s.op(op) {
				did = true
				s.count("op " + op)
			}
			n++
		}
		if did {
			s.rest()
			if s.rng.Float64() < s.prof.pause {
				s.idle(time.Duration(5000+s.rng.Intn(9000)) * time.Millisecond)
				s.rest()
			}
		}
	}
	if s.prof.last != "" {
		s.op(s.prof.last)
		s.rest()
	}
	if s.rng.Float64() < s.prof.final && !s.c.Bool("abrupt") {
		s.final()
	}
	if s.prof.hangtrack {
		s.trackbad = []string{"", "", "hang", "500", "refuse"}[s.rng.Intn(5)]
		if s.rng.Intn(2) == 0 {
			// Stop while something is under way.
			s.op("connect")
			s.op("list")
			s.op("answer")
		}
	}
	s.logL("stop")
	if s.prof.hangtrack && s.rng.Intn(4) == 0 {
		s.l.fail(syscall.EMFILE) // a fatal error
		return
	}
	go s.stop()
	if s.rng.Intn(4) == 0 {
		go s.stop()
	}
}

func (s *swarm) idle(d time.Duration) {
	s.mu.Lock()
	for _, r := range s.conns {
		if r.on() {
			s.log("rs", "c", r.n, "m", "ka")
			r.mc.feed([]byte{0, 0, 0, 0})
		}
	}
	s.mu.Unlock()
	time.Sleep(d)
}

// age forgets requests that the client has given up, and says which of the
// others may be answered now without doubt.
func (r *rconn) fresh() []outReq {
	var keep, fresh []outReq
	for _, o := range r.out {
		a := time.Since(o.t)
		if a < 20*time.Second {
			keep = append(keep, o)
		}
		if a < 4500*time.Millisecond {
			fresh = append(fresh, o)
		}
	}
	r.out = keep
	// A piece for which another block is overdue may be given up.
	return slices.DeleteFunc(fresh, func(o outReq) bool {
		return slices.ContainsFunc(keep, func(k outReq) bool { return k.p == o.p && time.Since(k.t) >= 4500*time.Millisecond })
	})
}

func (s *swarm) op(op string) bool {
	rng := s.rng
	switch op {
	case "list", "announce", "tracker", "flood", "listfew", "modes", "cull", "unchokeround", "idle1", "idle13", "idle30", "idle70", "wear", "fill", "wedge", "crowd":
	default:
		s.mu.Lock()
		defer s.mu.Unlock()
	}
	on := (*rconn).on
	silly := rng.Float64() < s.prof.badmsg
	np := len(s.nb)
	huge := func() int {
		return []int{np, np + 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}[rng.Intn(6)]
	}
	switch op {
	case "connect":
		live := 0
		for _, r := range s.conns {
			if r.live() {
				live++
			}
		}
		if len(s.conns) >= s.prof.maxconn {
			return false
		}
		if rng.Float64() < s.prof.dialed {
			h := s.addrs[rng.Intn(len(s.addrs))]
			s.mu.Unlock()
			s.give([]*swHost{h}, false)
			s.mu.Lock()
			return true
		}
		s.connectIn(1+rng.Intn(s.prof.hosts), 1+rng.Intn(s.prof.hosts+1), s.kind())
	case "latehs": // complete a connection that has no handshake yet
		r := s.pick(func(r *rconn) bool { return r.live() && !r.sent })
		if r == nil {
			return false
		}
		k := s.kind()
		if k == "" || k == "cut" || len(s.ev) > 0 && s.partial(r) {
			return false
		}
		r.shake(k)
	case "prehs": // messages without or after a refused handshake
		r := s.pick(func(r *rconn) bool { return r.live() && !r.good && !s.partial(r) })
		if r == nil {
			return false
		}
		r.send(1, nil, "m", "junk")
		r.mc.feed(append([]byte{0, 0, 0, 5, 4}, be32s(0)...))
		r.sent = true
	case "rclose":
		r := s.pick((*rconn).live)
		if r == nil {
			return false
		}
		r.hangup()
	case "bf":
		r := s.pick(on)
		if r == nil {
			return false
		}
		var set []int
		for p := range np {
			if rng.Intn(2) == 0 {
				set = append(set, p)
			}
		}
		extra := 0
		if silly {
			set = append(set, np+rng.Intn(8))
			extra = rng.Intn(3)
		}
		r.bitfield(set, extra)
	case "have":
		r := s.pick(on)
		if r == nil {
			return false
		}
		if silly {
			r.have(huge())
		} else {
			r.have(rng.Intn(np))
		}
	case "choke":
		r := s.pick(on)
		if r == nil {
			return false
		}
		r.choke()
	case "unchoke":
		r := s.pick(on)
		if r == nil {
			return false
		}
		r.unchoke()
	case "int":
		r := s.pick(on)
		if r == nil {
			return false
		}
		if rng.Intn(2) == 0 {
			r.send(2, nil, "m", "int")
		} else {
			r.send(3, nil, "m", "nint")
		}
	case "mode": // from now on it answers by itself, or no longer
		r := s.pick(on)
		if r == nil {
			return false
		}
		r.mode = []string{"", "lively", "lively", "flap"}[rng.Intn(4)]
	case "seed": // it has something and answers for it
		r := s.pick(on)
		if r == nil {
			return false
		}
		r.mode = "good"
		r.have(rng.Intn(np))
		if r.rch {
			r.unchoke()
		}
	case "ka":
		r := s.pick(on)
		if r == nil {
			return false
		}
		s.log("rs", "c", r.n, "m", "ka")
		r.mc.feed([]byte{0, 0, 0, 0})
	case "answer", "answerall":
		r := s.pick(func(r *rconn) bool { return r.on() && len(r.fresh()) > 0 })
		if r == nil {
			return false
		}
		f := r.fresh()
		rng.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		if op == "answer" {
			f = f[:1]
		}
		for _, q := range f {
			r.answer(q, rng.Float64() < s.prof.bad)
		}
	case "unreq": // a block nobody asked for
		r := s.pick(on)
		if r == nil {
			return false
		}
		p := rng.Intn(np)
		b := rng.Intn(s.nb[p])
		for _, o := range r.out {
			if o.p == p && o.b == b {
				return false
			}
		}
		data := append([]byte(nil), s.block(p, b)...)
		begin, ok, good := b*swBlock, true, true
		if rng.Intn(2) == 0 {
			data[0] ^= 0x55
			good = false
		}
		if silly {
			ok = false
			switch rng.Intn(3) {
			case 0:
				begin++
			case 1:
				data = data[:len(data)-1]
			case 2:
				p = huge()
			}
		}
		r.send(7, append(be32s(p, begin), data...), "m", "pc", "p", p, "b", b, "ok", ok, "good", good)
	case "req", "reqearly":
		r := s.pick(func(r *rconn) bool { return r.on() && (op == "reqearly") == r.cch })
		if r == nil {
			return false
		}
		d := s.done()
		p := rng.Intn(np)
		if len(d) > 0 && !silly {
			p = d[rng.Intn(len(d))]
		}
		begin, n := 0, 0
		switch rng.Intn(3) {
		case 0:
			b := rng.Intn(s.nb[p])
			begin, n = b*swBlock, len(s.block(p, b))
		default:
			begin = rng.Intn(s.size[p])
			n = 1 + rng.Intn(min(swBlock, s.size[p]-begin))
		}
		if silly {
			switch rng.Intn(7) {
			case 0:
				p = huge()
			case 1:
				begin = huge()
			case 2:
				n = huge()
			case 3:
				n = s.size[p] - begin + 1
			case 4:
				n = 0
			case 5:
				begin = s.size[p]
			case 6:
				begin, n = 1<<32-1, 1
			}
		}
		r.request(p, begin, n)
	case "pipeline": // many requests at once
		r := s.pick(func(r *rconn) bool { return r.on() && !r.cch })
		d := s.done()
		if r == nil || len(d) == 0 {
			return false
		}
		for range []int{17, 60, 130, 300, 520}[rng.Intn(5)] {
			p := d[rng.Intn(len(d))]
			begin := rng.Intn(s.size[p])
			r.request(p, begin, 1+rng.Intn(min(200, s.size[p]-begin)))
		}
	case "cancel":
		r := s.pick(on)
		if r == nil {
			return false
		}
		r.send(8, be32s(rng.Intn(np+1), 0, swBlock), "m", "cancel")
	case "junk":
		r := s.pick(on)
		if r == nil {
			return false
		}
		var b []byte
		switch rng.Intn(8) {
		case 0:
			b = []byte{0, 0, 0, 1, byte(9 + rng.Intn(200))}
		case 1:
			b = []byte{0, 0, 0, 5, byte(9 + rng.Intn(200)), 1, 2, 3, 4}
		case 2:
			b = []byte{255, 255, 255, 255, 7, 1, 2, 3}
		case 3:
			b = []byte{0, 0, 0, 3, 4, 0, 0}
		case 4:
			b = []byte{0, 0, 0, 2, 1, 0}
		case 5:
			b = append([]byte{0, 0, 0, 8, 7}, be32s(0, 0)[:7]...)
		case 6:
			b = s.handshake("good", r.id)
		case 7:
			b = make([]byte, 1+rng.Intn(64))
			rng.Read(b)
		}
		s.log("rs", "c", r.n, "m", "junk")
		r.mc.feed(b)
		// The rest of what it says cannot be read any more.
		if rng.Intn(2) == 0 {
			r.hangup()
		} else {
			r.mc.feed(bytes.Repeat([]byte{255}, 70))
		}
		r.bf = false
	case "hosts": // the addresses behave differently from now on
		h := s.addrs[rng.Intn(len(s.addrs))]
		h.mode = []string{"accept", "accept", "refuse", "hang", "slow"}[rng.Intn(5)]
		h.hs = s.kind()
		if h.xid == 0 {
			h.id = 1 + rng.Intn(max(2, s.prof.hosts))
		}
	case "tracker": // it fails, or works again
		s.mu.Lock()
		if s.trackbad == "" {
			s.trackbad = []string{"hang", "500", "refuse", "failure", "garbage"}[rng.Intn(5)]
			s.stats["tracker failures"]++
		} else {
			s.trackbad = ""
		}
		s.mu.Unlock()
		if rng.Intn(2) == 0 { // as the client does from time to time
			s.srv.Announce(context.Background())
		}
	case "list", "announce":
		s.mu.Lock()
		if len(s.conns) >= s.prof.maxconn {
			s.mu.Unlock()
			return false
		}
		var hs []*swHost
		for range 1 + rng.Intn(4) {
			hs = append(hs, s.addrs[rng.Intn(len(s.addrs))])
			if rng.Intn(6) == 0 {
				hs = append(hs, nil)
			}
			if rng.Intn(4) == 0 {
				hs = append(hs, hs[0])
			}
		}
		s.mu.Unlock()
		s.give(hs, op == "announce")
	case "flood", "listfew": // many addresses at once, then some of them again
		s.mu.Lock()
		n := 1 + rng.Intn(6)
		if op == "flood" {
			n = 20 + rng.Intn(len(s.addrs)-20)
		}
		at := rng.Intn(len(s.addrs))
		var hs []*swHost
		for i := range n {
			switch rng.Intn(24) {
			case 0:
				hs = append(hs, nil)
			case 1:
				hs = append(hs, s.addrs[rng.Intn(len(s.addrs))])
			default:
				hs = append(hs, s.addrs[(at+i)%len(s.addrs)])
			}
		}
		many := len(s.conns) >= s.prof.maxconn
		s.mu.Unlock()
		if many {
			return false
		}
		s.give(hs, rng.Intn(3) == 0)
	case "modes": // all addresses behave differently from now on
		s.mu.Lock()
		k := []string{"accept", "accept", "refuse", "refuse", "hang", "slow", "mixed", "mixed"}[rng.Intn(8)]
		bad := rng.Intn(4) == 0
		for _, h := range s.addrs {
			h.mode, h.hs = k, "good"
			if k == "mixed" {
				h.mode = []string{"accept", "refuse", "hang", "slow"}[rng.Intn(4)]
			}
			if bad && rng.Intn(3) == 0 {
				h.hs = []string{"proto", "own", "cut", ""}[rng.Intn(4)]
			}
		}
		s.mu.Unlock()
	case "cull": // many connections end
		f := []float64{.1, .5, 1}[rng.Intn(3)]
		s.mu.Lock()
		for _, r := range s.conns {
			if r.live() && rng.Float64() < f {
				r.hangup()
			}
		}
		s.mu.Unlock()
	case "stall": // it reads no more than some bytes
		r := s.pick(func(r *rconn) bool { return r.on() && !r.stalled })
		if r == nil {
			return false
		}
		r.stalled = true
		s.log("stall", "c", r.n)
		r.mc.setStall(true, []int{0, 0, 1, 3, 4, 7, 20, 1000, 20000}[rng.Intn(9)])
		if rng.Intn(2) == 0 && !r.cch {
			for _, p := range s.done() {
				for b := range s.nb[p] {
					r.request(p, b*swBlock, len(s.block(p, b)))
				}
			}
		}
	case "resume":
		r := s.pick(func(r *rconn) bool { return r.on() && r.stalled })
		if r == nil {
			return false
		}
		r.stalled = false
		s.mu.Unlock() // what was held up arrives now
		r.mc.setStall(false, 0)
		s.mu.Lock()
	case "wear":
		s.wear()
	case "fill": // fresh remotes, up to the limit
		s.mu.Lock()
		n := 0
		for _, r := range s.conns {
			if r.live() {
				n++
			}
		}
		for ; n < 49; n++ {
			ip := s.newIP()
			s.connectIn(ip, ip, "good")
		}
		s.mu.Unlock()
	case "wedge": // the client writes to one that does not read, when it unchokes others and others come
		s.mu.Lock()
		r := s.pick(func(r *rconn) bool { return r.on() && !r.stalled && r.cch })
		if r == nil {
			s.mu.Unlock()
			return false
		}
		r.stalled = true
		s.log("stall", "c", r.n)
		r.mc.setStall(true, rng.Intn(2)*rng.Intn(5))
		for _, p := range rng.Perm(np) {
			r.have(p)
		}
		s.mu.Unlock()
		s.idle(11 * time.Second)
		s.rest()
		s.mu.Lock()
		s.connectIn(900+len(s.conns), 900+len(s.conns), "good")
		s.mu.Unlock()
		for range 3 {
			s.idle(13 * time.Second)
			s.rest()
		}
	case "crowd": // some of those who wait to be unchoked do not read
		n := len(s.conns)
		k := 3 + rng.Intn(3)
		s.mu.Lock()
		for range k + 2 {
			s.connectIn(900+len(s.conns), 900+len(s.conns), "good")
		}
		s.mu.Unlock()
		s.rest()
		s.mu.Lock()
		for _, r := range s.conns[n:][:k] {
			if r.on() && r.cch {
				r.stalled = true
				s.log("stall", "c", r.n)
				r.mc.setStall(true, rng.Intn(2)*rng.Intn(5))
			}
		}
		s.mu.Unlock()
		for range 4 {
			s.idle(13 * time.Second)
			s.rest()
		}
	case "unchokeround":
		go s.srv.UnchokePeers(context.Background())
	case "idle1":
		s.idle(time.Second)
	case "idle13":
		s.idle(13 * time.Second)
	case "idle30":
		s.idle(30 * time.Second)
	case "idle70":
		s.idle(35 * time.Second)
		s.rest()
		s.idle(35 * time.Second)
	default:
		panic(op)
	}
	return true
}

// wear makes many connections end in the same way.
func (s *swarm) wear() {
	kind := []string{"refuse", "baddial", "baddial", "bad", "dup", "rclose", "junk", "silent", "early"}[s.rng.Intn(9)]
	s.count("wear " + kind)
	each := func(n int, f func(i int)) {
		s.mu.Lock()
		for i := range n {
			f(i)
		}
		s.mu.Unlock()
		s.rest()
	}
	for range 1 + s.rng.Intn(4) {
		var rs []*rconn
		switch kind {
		case "refuse", "baddial":
			s.mu.Lock()
			for _, h := range s.addrs {
				h.mode, h.hs = "refuse", "good"
				if kind == "baddial" {
					h.mode, h.hs = "accept", []string{"proto", "plen", "hash", "own", "cut", ""}[s.rng.Intn(6)]
				}
			}
			s.mu.Unlock()
			s.give(s.addrs, false)
			s.rest()
			if kind == "baddial" {
				s.idle(13 * time.Second)
			}
		case "dup":
			ip := s.newIP()
			each(1, func(int) { s.connectIn(ip, ip, "good") })
			each(12, func(int) { s.connectIn(ip, ip, "good") })
			each(1, func(int) { s.conns[len(s.conns)-13].hangup() })
		case "bad", "silent", "early":
			each(12, func(int) {
				k := ""
				switch kind {
				case "bad":
					k = []string{"proto", "plen", "hash", "own"}[s.rng.Intn(4)]
				case "early":
					k = []string{"cut", ""}[s.rng.Intn(2)]
				}
				rs = append(rs, s.connectIn(s.newIP(), 1+s.rng.Intn(5), k))
			})
			if kind == "early" {
				each(len(rs), func(i int) { rs[i].hangup() })
			} else if kind == "silent" {
				s.idle(13 * time.Second)
			}
		case "rclose", "junk":
			each(12, func(int) { ip := s.newIP(); rs = append(rs, s.connectIn(ip, ip, "good")) })
			each(len(rs), func(i int) {
				r := rs[i]
				if !r.on() {
					return
				}
				if kind == "junk" {
					s.log("rs", "c", r.n, "m", "junk")
					r.mc.feed([]byte{255, 255, 255, 255, 7, 1, 2, 3})
				}
				r.bf = false
				r.hangup()
			})
		}
	}
}

// partial tells whether part of a handshake was sent.
func (s *swarm) partial(r *rconn) bool {
	for _, e := range s.ev {
		if e["c"] == r.n && e["k"] == "rs" {
			return true
		}
	}
	return false
}

// lies says how a request lies in the torrent, and which pieces it touches.
func (s *swarm) lies(p, begin, n int) (string, []int) {
	q, ps := "bad", []int{}
	total := len(s.tor.Content)
	pl := s.tor.Info.PieceLength
	if p < len(s.nb) && begin <= s.size[p] && begin+n <= s.size[p] && n > 0 && n <= swBlock {
		q, ps = "in", []int{p}
	} else if p < len(s.nb) && begin < total && n <= total && p*pl+begin+n <= total {
		q = "odd"
		ps = append(ps, p)
		for i := p*pl + begin; i < p*pl+begin+n; i += pl {
			ps = append(ps, i/pl)
		}
		if n > 0 {
			ps = append(ps, (p*pl+begin+n-1)/pl)
		}
	}
	return q, ps
}

func (r *rconn) request(p, begin, n int) {
	q, ps := r.s.lies(p, begin, n)
	clip := func(x int) int { return min(x, 1<<30) } // TLC's integers
	r.send(6, be32s(p, begin, n), "m", "req", "p", clip(p), "b", clip(begin), "l", clip(n), "q", q, "ps", ps)
}

// final lets the download complete: some remotes answer everything from now on.
func (s *swarm) final() {
	s.mu.Lock()
	// Those there are stay, in one of several ways.
	for _, r := range s.conns {
		if r.on() {
			r.mode = []string{"silent", "good", "corrupt", "flap", "silent", "tease"}[s.rng.Intn(6)]
			r.every = time.Duration(1+s.rng.Intn(9)) * time.Second
		}
	}
	n := 1 + s.rng.Intn(2)
	var rs []*rconn
	for range n {
		ip := s.newIP()
		rs = append(rs, s.connectIn(ip, ip, "good"))
	}
	s.mu.Unlock()
	s.rest()
	s.mu.Lock()
	for i, r := range rs {
		// Not in step with the others.
		s.mu.Unlock()
		time.Sleep(time.Duration(s.rng.Intn(2e6)) * time.Microsecond)
		s.rest()
		s.mu.Lock()
		if r.cx {
			continue
		}
		r.mode = "good"
		var set []int
		for p := range s.nb {
			if p%n == i || s.rng.Intn(2) == 0 {
				set = append(set, p)
			}
		}
		r.bitfield(set, 0)
		r.unchoke()
		s.log("good", "c", r.n)
	}
	s.mu.Unlock()
	s.count("finals")
	for range 22 {
		s.idle(20 * time.Second)
		s.rest()
		if len(s.done()) == len(s.nb) {
			s.idle(time.Second)
			s.rest()
			s.count("completed")
			return
		}
	}
}

// play does what a script says.
func (s *swarm) play() {
	conns := map[int]*rconn{}
	for _, x := range s.script.ops {
		if !x.J {
			s.rest()
		}
		s.stimulus(x, conns)
	}
	if s.c.Bool("abrupt") { // it must stop in the middle of this
		s.trackbad = []string{"", "", "hang", "500", "refuse"}[s.rng.Intn(5)]
		return
	}
	s.rest()
	s.idle(30 * time.Second)
	s.rest()
}

func (s *swarm) stimulus(x swOp, conns map[int]*rconn) {
	word := func() string {
		if len(x.S) == 0 {
			return ""
		}
		return x.S[0].(string)
	}
	switch x.O {
	case "idle":
		s.idle(time.Duration(x.P) * time.Second)
		return
	case "list":
		var hs []*swHost
		for _, a := range x.S {
			if a.(float64) == 0 {
				hs = append(hs, nil)
			} else {
				hs = append(hs, s.addrs[int(a.(float64))-1])
			}
		}
		s.give(hs, s.rng.Intn(2) == 0)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	r := conns[x.C]
	switch x.O {
	case "in":
		conns[x.C] = s.connectIn(x.P, x.P, "good")
		return
	case "raw":
		conns[x.C] = s.connectIn(x.P, x.P, "")
		return
	case "mode":
		h := s.addrs[x.P-1]
		switch m := word(); m {
		case "refuse", "hang", "slow", "accept":
			h.mode, h.hs = m, "good"
		default:
			h.mode, h.hs = "accept", m
		}
		return
	case "drop":
		for _, r := range s.conns {
			if r.live() && r.a == x.P {
				r.hangup()
			}
		}
		return
	case "close":
		if r.live() {
			r.hangup()
		}
		return
	case "hs":
		if r.live() && !r.sent && !s.partial(r) {
			r.shake(word())
		}
		return
	}
	if !r.on() {
		return
	}
	switch x.O {
	case "bf":
		var set []int
		for _, p := range x.S {
			set = append(set, int(p.(float64)))
		}
		r.bitfield(set, 0)
	case "have":
		r.have(x.P)
	case "choke":
		r.choke()
	case "unchoke":
		r.unchoke()
	case "int":
		r.send(2, nil, "m", "int")
	case "nint":
		r.send(3, nil, "m", "nint")
	case "ans", "bad", "part":
		f := r.fresh()
		if len(f) == 0 {
			return
		}
		if x.O == "part" {
			f = f[1:]
		} else {
			f = f[:1]
		}
		for _, q := range f {
			r.answer(q, x.O == "bad")
		}
	case "unreq":
		if slices.ContainsFunc(r.out, func(o outReq) bool { return o.p == x.P && o.b == 0 }) {
			return
		}
		data := append([]byte(nil), s.block(x.P, 0)...)
		good := s.rng.Intn(2) == 0
		if !good {
			data[0] ^= 0x55
		}
		r.send(7, append(be32s(x.P, 0), data...), "m", "pc", "p", x.P, "b", 0, "ok", true, "good", good)
	case "req", "reqs":
		b := s.nb[x.P] - 1
		r.request(x.P, b*swBlock, len(s.block(x.P, b)))
		if x.O == "reqs" {
			r.request(x.P, 1, 5)
		}
	case "cancel":
		r.send(8, be32s(x.P, (s.nb[x.P]-1)*swBlock, swBlock), "m", "cancel")
	case "junk":
		s.log("rs", "c", r.n, "m", "junk")
		r.mc.feed([]byte{0, 0, 0, 3, 4, 0, 0})
		r.mc.feed(bytes.Repeat([]byte{255}, 70))
		r.bf = false
	default:
		panic(x.O)
	}
}
