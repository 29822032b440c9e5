//go:build verif

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/pex"

	"dripverif/util"
)

func init() { modes["network"] = networkMode }

// networkMode runs several real clients and the real tracker together on
// virtual time. It writes what each client did as a trace for SwarmTrace, and
// what they did together as one for NetworkTrace.
func networkMode(c *Config, res *util.Result) {
	out := func(name string) *os.File {
		f, err := os.OpenFile(name, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		must(err)
		return f
	}
	one, all := out(c.Traces), out(c.Traces+".net")
	defer one.Close()
	defer all.Close()
	write := func(f *os.File, v any) {
		b, err := json.Marshal(v)
		must(err)
		f.Write(append(b, '\n'))
	}
	runs, w, ws := c.Int("runs", 10), c.Int("worker", 0), c.Int("workers", 1)
	for i := w; i < runs; i += ws {
		seed := c.Seed*1000003 + int64(i)
		var sc *netScript
		if c.Cases != "" {
			if i >= len(scripts(c)) {
				break
			}
			sc = &netScript{}
			must(json.Unmarshal(scripts(c)[i], sc))
		}
		n := newNetwork(c, seed, w, sc)
		netRunning.Store(w, n)
		n.run()
		netRunning.Delete(w)
		for _, s := range n.lives {
			write(one, map[string]any{"cfg": s.cfg, "ev": s.ev, "seed": seed})
			res.Add("events", len(s.ev))
			for k, v := range s.stats {
				res.Add(k, v)
			}
		}
		write(all, map[string]any{"cfg": map[string]any{"n": len(n.nodes), "np": len(n.size), "size": n.size}, "ev": n.ev, "seed": seed})
		res.Add("runs", 1)
		res.Add("lives", len(n.lives))
		for k, v := range n.stats {
			res.Add(k, v)
		}
		if i == 0 {
			res.Sample(n.ev[:min(len(n.ev), 8)])
		}
		os.RemoveAll(n.dir)
	}
}

var (
	netRunning sync.Map
	netPort    atomic.Int64
)

// netScript is what TLC made of NetworkStimuli.
type netScript struct {
	Have [][]int
	Ops  []struct {
		O    string
		I, J int
	}
}

type network struct {
	c     *Config
	sc    *netScript
	w     int
	rng   *rand.Rand
	tor   *util.Torrent
	dir   string
	nb    []int
	size  []int
	nodes []*netNode
	lives []*swarm
	pex   *pex.HTTP
	lat   time.Duration
	win   int // bytes that a connection holds, if there is a limit
	t0    time.Time
	jit   int
	stats map[string]int

	mu     sync.Mutex
	ev     []map[string]any
	links  map[*netLink]bool
	nolist bool // the tracker fails
}

// netNode is one client, over all its lives.
type netNode struct {
	n            *network
	i, host      int
	port         int
	id           [20]byte
	dir          string
	s            *swarm // the present life
	on           bool
	away         string // its address does not answer
	up, down     int    // bytes in former lives
	lastUp, last int
	quietAt      int // events at the last rest
	restAt       time.Time
	done         []int
}

type netLink struct {
	from, to *netNode
	a, b     *rconn
	cut      atomic.Bool
	closed   int // ends that are closed
}

func newNetwork(c *Config, seed int64, w int, sc *netScript) *network {
	rng := rand.New(rand.NewSource(seed))
	n := &network{c: c, sc: sc, w: w, rng: rng, stats: map[string]int{}, links: map[*netLink]bool{}}
	np, nb := 1+rng.Intn(12), 1+rng.Intn(4)
	if rng.Intn(6) == 0 {
		np, nb = 1+rng.Intn(4), 1+rng.Intn(40)
	}
	if sc != nil {
		np, nb = 2, 1
	}
	pl := nb * swBlock
	if rng.Intn(3) == 0 {
		pl -= []int{1, swBlock / 2, swBlock - 1}[rng.Intn(3)]
	}
	last := pl
	if rng.Intn(2) == 0 {
		last = 1 + rng.Intn(pl)
	}
	total := (np-1)*pl + last
	var files []util.FileSpec
	if rng.Intn(3) == 0 {
		files = layout("multi", total)
	}
	if total < 10 {
		files = nil
	}
	n.tor = util.MakeTorrent(seed, "t", pl, total, files)
	for p := range np {
		k := min(pl, total-p*pl)
		n.size = append(n.size, k)
		n.nb = append(n.nb, (k+swBlock-1)/swBlock)
	}
	n.dir = filepath.Join(c.Scratch, fmt.Sprintf("net%d-%d", w, seed))
	n.lat = []time.Duration{0, 0, 3 * time.Millisecond, 40 * time.Millisecond, 300 * time.Millisecond, time.Second}[rng.Intn(6)]
	n.jit = []int{0, 0, 3, 10}[rng.Intn(4)]
	if n.lat == 0 && rng.Intn(2) == 0 { // (else time has to pass for what is under way to arrive)
		n.win = []int{200, 1000, 5000, 20000, 100000}[rng.Intn(5)]
	}
	k := 2 + rng.Intn(4)
	// Who has what: a seed and others with nothing, or pieces all over; some nowhere.
	hopeless := rng.Intn(8) == 0
	have := make([][]int, k)
	style := rng.Intn(3)
	for p := range np {
		if hopeless && rng.Intn(3) == 0 {
			continue
		}
		switch style {
		case 0:
			have[0] = append(have[0], p)
		case 1:
			j := rng.Intn(k)
			have[j] = append(have[j], p)
		default:
			for j := range k {
				if j == p%k || rng.Intn(3) == 0 {
					have[j] = append(have[j], p)
				}
			}
		}
	}
	if sc != nil {
		k, have = len(sc.Have), sc.Have
	}
	for i := range k {
		d := &netNode{n: n, i: i + 1, host: i + 1, port: 21000 + int(netPort.Add(1))%40000, dir: filepath.Join(n.dir, strconv.Itoa(i)), done: have[i]}
		if i > 0 && rng.Intn(5) == 0 {
			d.host = i // two behind one address
		}
		copy(d.id[:], fmt.Sprintf("-DR0001-network%05d", d.i))
		for _, x := range []string{"target", "work"} {
			must(os.MkdirAll(filepath.Join(d.dir, x), 0o755))
		}
		n.nodes = append(n.nodes, d)
		s := d.life()
		if len(have[i]) > 0 {
			st := s.storage()
			must(st.Load())
			for _, p := range have[i] {
				for b := range n.nb[p] {
					must(st.PutBlock(p, b*swBlock, s.block(p, b)))
				}
			}
		}
		if d.done == nil {
			d.done = []int{}
		}
	}
	return n
}

func (d *netNode) life() *swarm {
	n := d.n
	s := &swarm{c: n.c, rng: n.rng, prof: &swProfile{}, w: n.w, hosts: map[string]*swHost{}, stats: map[string]int{}, tor: n.tor, dir: d.dir, own: d.id, nb: n.nb, size: n.size, jitter: n.jit, t0: n.t0}
	ip := []int{}
	for _, e := range n.nodes {
		ip = append(ip, e.host)
	}
	s.cfg = map[string]any{"np": len(n.nb), "nb": n.nb, "size": n.size, "bl": swBlock, "done": d.done, "real": false, "interval": 30000, "ip": ip}
	return s
}

func (n *network) log(k string, kv ...any) {
	e := map[string]any{"k": k, "t": int(time.Since(n.t0).Milliseconds())}
	for i := 0; i < len(kv); i += 2 {
		e[kv[i].(string)] = kv[i+1]
	}
	n.ev = append(n.ev, e)
}

// Node i knows node j as 10.x.i.(host of j); the tracker knows it as 10.x.0.(host).
func (n *network) addr(i int, d *netNode) string {
	return net.JoinHostPort(ip4(n.w, i<<8|d.host).String(), strconv.Itoa(d.port))
}

func (n *network) run() {
	n.t0 = time.Now()
	n.forget()
	for _, d := range n.nodes {
		for _, e := range n.nodes {
			memHosts.Store(n.addr(d.i, e), memHost(func(ctx context.Context) (net.Conn, error) { return n.dial(ctx, d, e) }))
		}
		memTrackers.Store(fmt.Sprintf("n%d-%d.test", n.w, d.i), d.tracker)
	}
	memHosts.Store(hostPrefix(ip4(n.w, 0).String()), func(a string) {
		if ip := net.ParseIP(strings.SplitN(a, ":", 2)[0]).To4(); ip != nil && int(ip[2]) >= 1 && int(ip[2]) <= len(n.nodes) {
			n.nodes[ip[2]-1].s.logL("dial", "a", 0)
		}
	})
	if n.sc != nil {
		n.play()
	} else {
		for _, d := range n.nodes {
			d.start()
			if n.rng.Intn(3) > 0 {
				n.pass(time.Duration(n.rng.Intn(20000)) * time.Millisecond)
			}
		}
		for range n.rng.Intn(14) {
			n.op()
		}
	}
	// From here on nothing happens to them.
	n.nolist = false
	for _, d := range n.nodes {
		d.away = ""
		if !d.on {
			d.start()
		}
	}
	n.rest(true)
	n.log("calm")
	for range 48 {
		n.pass(10 * time.Second)
		if n.all() {
			n.pass(15 * time.Second)
			n.stats["all complete"]++
			break
		}
	}
	pub := []string{}
	for _, d := range n.nodes {
		pub = append(pub, n.tor.Published(filepath.Join(d.dir, "target")))
	}
	n.log("end", "pub", pub)
	for _, d := range n.nodes {
		d.stop()
	}
	memHosts.Delete(hostPrefix(ip4(n.w, 0).String()))
	for _, d := range n.nodes {
		for _, e := range n.nodes {
			memHosts.Delete(n.addr(d.i, e))
		}
	}
}

// forget puts a new tracker, which knows nobody, in the place of the old one.
func (n *network) forget() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.pex = pex.NewHTTP([]*metainfo.Info{n.tor.Clone()})
}

// all tells whether every piece is everywhere that is somewhere.
func (n *network) all() bool {
	u := map[int]bool{}
	for _, d := range n.nodes {
		for _, p := range d.done {
			u[p] = true
		}
	}
	return !slices.ContainsFunc(n.nodes, func(d *netNode) bool { return len(d.done) < len(u) })
}

func (n *network) op() {
	d := n.nodes[n.rng.Intn(len(n.nodes))]
	on := 0
	for _, e := range n.nodes {
		if e.on {
			on++
		}
	}
	switch n.rng.Intn(10) {
	case 9:
		n.forget()
		n.stats["tracker restarts"]++
	case 0:
		if d.on && on > 1 {
			d.stop()
			n.stats["stops"]++
		}
	case 1, 2:
		if !d.on {
			d.start()
			n.stats["restarts"]++
		}
	case 3: // a connection breaks
		if ls := n.connected(); len(ls) > 0 {
			n.cut(ls[n.rng.Intn(len(ls))])
		}
	case 4:
		d.away = []string{"", "refuse", "hang"}[n.rng.Intn(3)]
		if d.away != "" && n.rng.Intn(3) == 0 { // nobody reaches anybody
			for _, e := range n.nodes {
				e.away = d.away
			}
			n.cut(n.connected()...)
		}
	case 5:
		n.nolist = !n.nolist
	default:
		n.pass(time.Duration(n.rng.Intn([]int{300, 3000, 12000, 40000, 160000}[n.rng.Intn(5)])) * time.Millisecond)
	}
	if n.rng.Intn(3) > 0 {
		n.rest(false)
	}
}

// play does what a script says.
func (n *network) play() {
	for _, x := range n.sc.Ops {
		switch x.O {
		case "up":
			n.nodes[x.I-1].start()
		case "down":
			n.nodes[x.I-1].stop()
		case "cut":
			for _, l := range n.connected() {
				if a, b := l.from.i, l.to.i; min(a, b) == x.I && max(a, b) == x.J {
					n.cut(l)
				}
			}
		case "away":
			n.nodes[x.I-1].away = []string{"", "refuse", "hang"}[x.J]
		case "list":
			n.nolist = x.J == 1
		case "forget":
			n.forget()
		case "idle":
			n.pass(time.Duration(x.J) * time.Second)
		}
		if n.rng.Intn(2) == 0 {
			n.rest(true)
		}
	}
}

func (n *network) connected() []*netLink {
	n.mu.Lock()
	defer n.mu.Unlock()
	var ls []*netLink
	for l := range n.links {
		ls = append(ls, l)
	}
	slices.SortFunc(ls, func(x, y *netLink) int { return (x.from.i-y.from.i)*100 + x.to.i - y.to.i })
	return ls
}

func (n *network) cut(ls ...*netLink) {
	for _, l := range ls {
		l.cut.Store(true)
		for _, r := range []*rconn{l.a, l.b} {
			r.s.mu.Lock()
			if r.live() {
				r.hangup()
			}
			r.s.mu.Unlock()
		}
		n.stats["breaks"]++
	}
}

// pass lets time go by, with the clients looked at whenever they come to rest.
func (n *network) pass(d time.Duration) {
	end := time.Now().Add(d)
	for {
		step := max(n.lat/3, 50*time.Millisecond)
		if n.rng.Intn(4) == 0 {
			step *= 10
		}
		left := time.Until(end)
		if left <= 0 {
			break
		}
		time.Sleep(min(step, left))
		n.rest(false)
	}
	n.rest(true)
}

func (n *network) rest(all bool) {
	synctest.Wait()
	progress.Add(1)
	seen := false
	for _, d := range n.nodes {
		if !d.on || !all && len(d.s.ev) == d.quietAt && time.Since(d.restAt) < 2*time.Second {
			continue
		}
		d.rest()
		seen = true
	}
	if !seen {
		return
	}
	has, on, up, down := [][]int{}, []int{}, 0, []int{}
	for _, d := range n.nodes {
		k := 0
		if d.on {
			on = append(on, d.i)
			k = int(d.s.srv.Downloaded())
			up += int(d.s.srv.Uploaded())
		}
		up += d.up
		has = append(has, d.done)
		down = append(down, k)
	}
	total := 0
	for i, d := range n.nodes {
		total += d.down + down[i]
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.log("q", "has", has, "on", on, "up", up, "down", total, "life", down)
}

func (d *netNode) rest() {
	d.s.rest()
	d.done = d.s.done()
	d.quietAt, d.restAt = len(d.s.ev), time.Now()
}

func (d *netNode) start() {
	n := d.n
	s := d.life()
	d.s = s
	n.lives = append(n.lives, s)
	s.st = s.storage()
	mi := &metainfo.Metainfo{Announce: fmt.Sprintf("http://n%d-%d.test/announce", n.w, d.i), Info: s.tor.Info}
	memListened.Store(d.port, func(l *memListener) {
		l.onClose = func() { s.logL("lx") }
		s.l = l
	})
	s.srv = p2p.New(mi, d.id, s.st, d.port)
	d.on = true
	n.mu.Lock()
	n.log("up", "i", d.i)
	n.mu.Unlock()
	was := n.nolist
	n.nolist = false // a client needs a tracker to start
	started := make(chan struct{})
	go func() {
		close(started)
		s.logL("ret", "err", fmt.Sprint(s.srv.Start()))
	}()
	<-started
	synctest.Wait()
	if n.lat > 0 {
		time.Sleep(time.Millisecond)
		synctest.Wait()
	}
	n.nolist = was
	n.rest(true)
}

func (d *netNode) stop() {
	s := d.s
	s.logL("stop")
	go s.stop()
	for i := range 60 {
		time.Sleep(time.Second)
		synctest.Wait()
		s.mu.Lock()
		over := s.over()
		s.mu.Unlock()
		d.n.rest(false)
		if over || i == 58 {
			break
		}
	}
	s.fin = true
	d.n.rest(true)
	s.logL("end", "pub", s.tor.Published(filepath.Join(d.dir, "target")))
	d.up += int(s.srv.Uploaded())
	d.down += int(s.srv.Downloaded())
	d.on = false
	d.n.mu.Lock()
	d.n.log("down", "i", d.i)
	d.n.mu.Unlock()
}

// tracker passes an announce on to the tracker, and its answer back with the
// addresses under which this client knows the others.
func (d *netNode) tracker(req *http.Request) (*http.Response, error) {
	n, s := d.n, d.s
	q := req.URL.Query()
	num := func(k string) int { v, _ := strconv.Atoi(q.Get(k)); return v }
	own := q.Get("info_hash") == string(s.tor.Info.SHA1[:]) && q.Get("peer_id") == string(s.own[:]) && q.Get("port") == strconv.Itoa(d.port) && q.Get("compact") == "1"
	s.logL("ann", "ev", q.Get("event"), "up", num("uploaded"), "down", num("downloaded"), "left", num("left"), "own", own)
	if n.nolist {
		return nil, syscall.ECONNREFUSED
	}
	r := req.Clone(req.Context())
	r.RemoteAddr = net.JoinHostPort(ip4(n.w, d.host).String(), "54321")
	rec := httptest.NewRecorder()
	n.mu.Lock()
	t := n.pex
	n.mu.Unlock()
	t.ServeHTTP(rec, r)
	body := rec.Body.Bytes()
	A := []int{}
	if at := bytes.Index(body, []byte("5:peers")); at >= 0 && rec.Code == 200 {
		l, rest, _ := strings.Cut(string(body[at+7:]), ":")
		if k, err := strconv.Atoi(l); err == nil && k%6 == 0 && k <= len(rest) {
			list := body[len(body)-len(rest):][:k]
			for i := 0; i < k; i += 6 {
				for _, e := range n.nodes {
					if list[i+2] == 0 && int(list[i+3]) == e.host && int(binary.BigEndian.Uint16(list[i+4:])) == e.port {
						A = append(A, e.i)
					}
				}
				list[i+2] = byte(d.i)
			}
		}
	}
	s.logL("list", "A", A)
	return response(rec.Code, string(body), req), nil
}

// dial connects client d to client e.
func (n *network) dial(ctx context.Context, d, e *netNode) (net.Conn, error) {
	s := d.s
	s.logL("dial", "a", e.i)
	fail := func(err error) (net.Conn, error) {
		s.logL("dialfail", "a", e.i)
		return nil, err
	}
	away := e.away
	if d.away != "" {
		away = d.away
	}
	switch {
	case away == "hang":
		<-ctx.Done()
		return fail(ctx.Err())
	case away == "refuse" || !e.on && e.s == nil:
		return fail(syscall.ECONNREFUSED)
	}
	if n.lat > 0 {
		select {
		case <-ctx.Done():
			return fail(ctx.Err())
		case <-time.After(2 * n.lat):
		}
	}
	t := e.s
	if v, ok := memListeners.Load(e.port); !ok || v != any(t.l) {
		return fail(syscall.ECONNREFUSED)
	}
	l := &netLink{from: d, to: e}
	s.mu.Lock()
	l.a = s.newConn(e.i, e.host, e.port, 0, 0)
	l.a.mc.remote.IP = ip4(n.w, d.i<<8|e.host)
	s.log("dialed", "c", l.a.n, "a", e.i)
	s.mu.Unlock()
	t.mu.Lock()
	l.b = t.newConn(0, d.host, 61000+len(t.conns), 0, 0)
	l.b.mc.remote.IP = ip4(n.w, e.i<<8|d.host)
	t.log("in", "c", l.b.n, "ip", d.host)
	t.mu.Unlock()
	if n.win > 0 {
		l.a.mc.window, l.b.mc.window = n.win, n.win
		l.a.mc.onRead, l.b.mc.onRead = l.b.mc.took, l.a.mc.took
	}
	ab, ba := n.wire(l, l.a, l.b, d), n.wire(l, l.b, l.a, e)
	l.a.mc.onWrite, l.b.mc.onWrite = ab.write, ba.write
	ca, cb := l.a.mc.onClose, l.b.mc.onClose
	l.a.mc.onClose = func() { ca(); n.gone(l); ab.put(netItem{end: true}) }
	l.b.mc.onClose = func() { cb(); n.gone(l); ba.put(netItem{end: true}) }
	t.mu.Lock()
	ok := t.l.push(l.b.mc)
	if !ok {
		l.b.rx, l.b.cx = true, true
		t.log("rx", "c", l.b.n)
		t.log("cx", "c", l.b.n)
	}
	t.mu.Unlock()
	if !ok {
		s.mu.Lock()
		l.a.hangup()
		s.mu.Unlock()
		return l.a.mc, nil
	}
	n.mu.Lock()
	n.links[l] = true
	n.log("link", "i", d.i, "j", e.i)
	n.mu.Unlock()
	return l.a.mc, nil
}

func (n *network) gone(l *netLink) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if l.closed++; l.closed == 2 && n.links[l] { // what is under way may still arrive at one end
		delete(n.links, l)
		n.log("unlink", "i", l.from.i, "j", l.to.i)
	}
}

// netWire carries what one end writes to the other, message by message.
type netWire struct {
	n        *network
	l        *netLink
	from, to *rconn
	id       int
	buf      []byte
	hs       bool
	mu       sync.Mutex
	q        chan netItem
	at       time.Time
}

// netItem is a part of a message; the last one has the whole of it.
type netItem struct {
	at      time.Time
	m, part []byte
	end     bool
}

func (n *network) wire(l *netLink, from, to *rconn, d *netNode) *netWire {
	w := &netWire{n: n, l: l, from: from, to: to, id: d.i}
	if n.lat > 0 {
		w.q = make(chan netItem, 100000)
		go func() {
			for x := range w.q {
				time.Sleep(time.Until(x.at))
				w.deliver(x)
				if x.end {
					return
				}
			}
		}()
	}
	return w
}

func (w *netWire) write(b []byte) {
	w.from.receive(b)
	for len(b) > 0 {
		// Up to the end of the message, or of its length.
		k := 68
		if w.hs {
			if k = 4; len(w.buf) >= 4 {
				k += int(binary.BigEndian.Uint32(w.buf))
			}
		}
		part := b[:min(len(b), k-len(w.buf))]
		b = b[len(part):]
		w.buf = append(w.buf, part...)
		x := netItem{part: bytes.Clone(part)}
		if !w.hs && len(w.buf) == 68 || w.hs && len(w.buf) >= 4 && len(w.buf) == 4+int(binary.BigEndian.Uint32(w.buf)) {
			x.m, w.buf, w.hs = w.buf, nil, true
		}
		w.put(x)
	}
}

func (w *netWire) put(x netItem) {
	if w.q == nil {
		w.deliver(x)
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	at := time.Now().Add(w.n.lat)
	if at.Before(w.at) {
		at = w.at
	}
	w.at, x.at = at, at
	select {
	case w.q <- x:
	default:
	}
}

func (w *netWire) deliver(x netItem) {
	r := w.to
	s := r.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if !r.live() || w.l.cut.Load() {
		return
	}
	if x.end {
		r.hangup()
		return
	}
	defer r.mc.feed(x.part)
	m := x.m
	if m == nil {
		return
	}
	if !r.sent {
		r.sent = true
		id := w.id
		if bytes.Equal(m[48:68], s.own[:]) {
			id = 0
		}
		s.log("hs", "c", r.n, "pr", m[0] == 19 && string(m[1:20]) == "BitTorrent protocol", "h", bytes.Equal(m[28:48], s.tor.Info.SHA1[:]), "i", id, "x", 0)
		return
	}
	r.arrives(m[4:])
}

// arrives records a message of the other client; the caller holds mu.
func (r *rconn) arrives(m []byte) {
	s := r.s
	if len(m) == 0 {
		s.log("rs", "c", r.n, "m", "ka")
		return
	}
	want := map[byte]int{0: 1, 1: 1, 2: 1, 3: 1, 4: 5, 6: 13, 8: 13}
	if w, ok := want[m[0]]; ok && w != len(m) || m[0] == 7 && len(m) < 9 || m[0] > 8 {
		s.log("rs", "c", r.n, "m", "junk")
		return
	}
	u := func(i int) int { return int(binary.BigEndian.Uint32(m[i:])) }
	clip := func(x int) int { return min(x, 1<<30) }
	switch m[0] {
	case 0:
		s.log("rs", "c", r.n, "m", "choke")
	case 1:
		s.log("rs", "c", r.n, "m", "unchoke")
	case 2:
		s.log("rs", "c", r.n, "m", "int")
	case 3:
		s.log("rs", "c", r.n, "m", "nint")
	case 4:
		s.log("rs", "c", r.n, "m", "have", "p", clip(u(1)))
	case 5:
		S := []int{}
		for i := range (len(m) - 1) * 8 {
			if m[1+i/8]&(0x80>>(i%8)) != 0 && i < len(s.nb) {
				S = append(S, i)
			}
		}
		s.log("rs", "c", r.n, "m", "bf", "S", S, "ok", len(m)-1 == (len(s.nb)+7)/8)
	case 6:
		p, begin, k := u(1), u(5), u(9)
		q, ps := s.lies(p, begin, k)
		s.log("rs", "c", r.n, "m", "req", "p", clip(p), "b", clip(begin), "l", clip(k), "q", q, "ps", ps)
	case 7:
		p, begin, data := u(1), u(5), m[9:]
		b := begin / swBlock
		ok := p < len(s.nb) && begin%swBlock == 0 && b < s.nb[p] && len(data) == len(s.block(p, b))
		s.log("rs", "c", r.n, "m", "pc", "p", clip(p), "b", clip(b), "ok", ok, "good", ok && bytes.Equal(data, s.block(p, b)))
	case 8:
		s.log("rs", "c", r.n, "m", "cancel")
	}
}
