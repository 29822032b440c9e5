package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"net/url"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/pex"

	"dripverif/util"
	"dripverif/walk"
)

func init() {
	modes["tracker"] = trackerMode
	modes["tracker-lin"] = trackerLin
}

var progress atomic.Int64 // for the watchdog of bubbles

// endless is the last event of a client that never comes to rest.
var endless atomic.Pointer[map[string]any]

// trackerMode runs inside a synctest bubble, so that a tick costs no time.
func trackerMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	g.Walk(walk.Options{
		Fields: c.FieldSet(), Seed: c.Seed, Workers: 1, OpTimeout: 1000 * time.Hour,
		NewSUT: func(int) walk.SUT {
			return &trackerSUT{rng: rand.New(rand.NewSource(c.Seed)), nt: c.Int("torrents", 1), probe: c.Bool("probe"), crowd: c.Int("crowd", 0)}
		},
	}, res)
}

// The addresses of the specification, canonical and in other spellings.
type spelledAddr struct {
	ip      netip.Addr
	port    int
	ips     []string // values of the ip parameter
	remotes []string // remote addresses without one
}

var v4a, v4b, v6a, v6b = netip.MustParseAddr("10.1.2.3"), netip.MustParseAddr("192.168.7.8"), netip.MustParseAddr("2001:db8::1"), netip.MustParseAddr("2001:db8::a:1")
var spelled = []spelledAddr{
	{v4a, 6881, []string{"10.1.2.3", "::ffff:10.1.2.3", "::FFFF:0a01:0203"}, []string{"10.1.2.3:50001", "[::ffff:10.1.2.3]:4"}},
	{v6a, 1, []string{"2001:db8::1", "2001:0DB8:0000::0001", "2001:db8:0:0:0:0:0:1"}, []string{"[2001:db8::1]:50001", "[2001:db8:0::1]:1"}},
	{v4a, 65535, []string{"10.1.2.3", "::ffff:10.1.2.3", "0:0:0:0:0:ffff:10.1.2.3"}, []string{"10.1.2.3:50002", "[::ffff:10.1.2.3]:6881"}},
	{v4b, 32769, []string{"192.168.7.8", "::ffff:192.168.7.8", "::ffff:c0a8:708"}, []string{"192.168.7.8:6882", "[::ffff:c0a8:0708]:6882"}},
	{v6b, 6881, []string{"2001:db8::a:1", "2001:DB8::A:1", "2001:db8:0:0:0:0:a:1"}, []string{"[2001:db8::a:1]:6881", "[2001:db8::000a:1]:6881"}},
}

func init() {
	for _, s := range append(append([]string{}, trackerIDs...), trackerHashes...) {
		if len(s) != 20 {
			panic("identity of another length")
		}
	}
}

func addrIndex(ip string, port int) int {
	a, err := netip.ParseAddr(ip)
	if err != nil {
		return -1
	}
	for i, s := range spelled {
		if s.ip == a.Unmap() && s.port == port {
			return i + 1
		}
	}
	return -1
}

var trackerIDs = []string{"-AA0001-abcdefghijkl", "\x00\xff %+&=#;/?\r\n:123456", "-BB0002-zyxwvutsrqpo"}
var trackerHashes = []string{"\x01\x02\x00\xff%&+= ;#?/abcdefg", "\x01\x02\x00\xff%&+= ;#?/abcdefh", "hash-of-torrent-thre"}

type trackerSUT struct {
	rng   *rand.Rand
	nt    int
	probe bool
	crowd int // how many more real peers there are for every one of the specification
	h     *pex.HTTP
}

// mate is the k-th further address that stands for address a.
func mate(a, k int) (string, int) {
	if spelled[a-1].ip.Is4() {
		return fmt.Sprintf("10.%d.%d.%d", 100+a, k>>8, k&255), 6881 + k%3
	}
	return fmt.Sprintf("2001:db8:%x::%x", 100+a, k), 6881 + k%3
}

func mateIndex(ip string, port, crowd int) (a, k int) {
	x, err := netip.ParseAddr(ip)
	if err != nil {
		return
	}
	b := x.As16()
	if x.Is4() {
		a, k = int(b[13])-100, int(b[14])<<8|int(b[15])
	} else {
		a, k = int(b[5])-100, int(b[14])<<8|int(b[15])
	}
	if a < 1 || a > len(spelled) || k < 1 || k > crowd {
		return 0, 0
	}
	if i, p := mate(a, k); p != port || netip.MustParseAddr(i) != x {
		return 0, 0
	}
	return a, k
}

// gather takes the crowd of each address out of the peers listed, and says
// what is wrong with it. The crowd of address own is larger than it appears.
func (u *trackerSUT) gather(obs map[string]any, own int) {
	n := map[[2]int]int{}
	seen := map[string]bool{}
	for _, m := range obs["mates"].([][3]int) {
		n[[2]int{m[0], m[2]}]++
		if k := fmt.Sprint(m[:2]); seen[k] {
			obs["err"] = "a peer listed twice"
		} else {
			seen[k] = true
		}
	}
	for _, p := range obs["peers"].([][]int) {
		k := [2]int{p[0], p[1]}
		if n[k] != u.crowd {
			obs["err"] = fmt.Sprintf("address %d is listed, with %d of the %d like it", p[0], n[k], u.crowd)
		}
		delete(n, k)
	}
	for k := range n {
		if k[0] != own || n[k] != u.crowd {
			obs["err"] = fmt.Sprintf("address %d is not listed, but %d of those like it", k[0], n[k])
		}
	}
}

func (u *trackerSUT) Reset() { u.h = newPex(u.nt) }
func (u *trackerSUT) Close() {}

func newPex(nt int) *pex.HTTP {
	var infos []*metainfo.Info
	for k := range nt {
		i := &metainfo.Info{Name: fmt.Sprint("torrent", k), PieceLength: 1, Length: 1, Pieces: make([][20]byte, 1)}
		copy(i.SHA1[:], trackerHashes[k])
		infos = append(infos, i)
	}
	return pex.NewHTTP(infos)
}

// query writes parameters in random order and spelling.
func query(rng *rand.Rand, params map[string]string) string {
	var keys []string
	for k := range params {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	var parts []string
	for _, k := range keys {
		v := params[k]
		var b strings.Builder
		style := rng.Intn(3)
		for i := 0; i < len(v); i++ {
			x := v[i]
			plain := x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x == '.' || x == '-' || x == ':'
			switch {
			case x == ' ' && style > 0:
				b.WriteByte('+')
			case plain && style > 0:
				b.WriteByte(x)
			case style == 1:
				fmt.Fprintf(&b, "%%%02x", x)
			default:
				fmt.Fprintf(&b, "%%%02X", x)
			}
		}
		parts = append(parts, k+"="+b.String())
	}
	return strings.Join(parts, "&")
}

func announceParams(rng *rand.Rand, k, i int, port, ev, form string) map[string]string {
	p := map[string]string{"info_hash": trackerHashes[k-1], "peer_id": trackerIDs[i-1], "port": port, "uploaded": "0", "downloaded": "0", "left": strconv.Itoa(rng.Intn(3))}
	if ev != "" || rng.Intn(2) == 0 {
		p["event"] = ev
	}
	if form != "" {
		p["compact"] = form
	}
	if rng.Intn(3) == 0 {
		p["numwant"] = strconv.Itoa(1 + rng.Intn(50))
		p["key"] = "abc"
	}
	return p
}

func serve(h http.Handler, raw, remote string) (int, []byte) {
	rec := httptest.NewRecorder()
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/announce", RawQuery: raw}, RemoteAddr: remote, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "tracker"}
	h.ServeHTTP(rec, req)
	return rec.Code, rec.Body.Bytes()
}

func (u *trackerSUT) Do(op string, a walk.Args) map[string]any {
	progress.Add(1)
	obs := map[string]any{"err": "ok"}
	switch op {
	case "tick":
		time.Sleep(20 * time.Second)
	case "announce":
		ad := spelled[a.Int("a")-1]
		p := announceParams(u.rng, a.Int("k"), a.Int("i"), strconv.Itoa(ad.port), a.Str("ev"), a.Str("form"))
		remote := "203.0.113.9:1234"
		for k := 1; k <= u.crowd; k++ {
			ip, port := mate(a.Int("a"), k)
			p := announceParams(u.rng, a.Int("k"), a.Int("i"), strconv.Itoa(port), a.Str("ev"), a.Str("form"))
			if p["ip"] = ip; k%2 == 0 {
				delete(p, "ip")
			}
			if status, _ := serve(u.h, query(u.rng, p), net.JoinHostPort(ip, "50000")); status != 200 {
				obs["err"] = fmt.Sprintf("status %d", status)
				return obs
			}
		}
		if sp := a.Int("sp"); sp <= len(ad.remotes) {
			remote = ad.remotes[sp-1]
		} else {
			p["ip"] = ad.ips[sp-1-len(ad.remotes)]
		}
		status, body := serve(u.h, query(u.rng, p), remote)
		obs["status"] = status
		describeSwarm(body, obs)
		u.gather(obs, a.Int("a"))
	case "bad":
		raw, remote := u.bad(a.Str("kind"), a.Int("k"), spelled[a.Int("a")-1])
		status, body := serve(u.h, raw, remote)
		obs["status"] = status
		v, rest, err := parseBen(string(body))
		d, _ := v.(map[string]any)
		r, _ := d["failure reason"].(string)
		obs["reason"] = err == nil && rest == "" && r != ""
	}
	if u.probe {
		swarm := [][][]int{}
		for k := 1; k <= u.nt; k++ {
			p := announceParams(u.rng, k, 3, "9", "stopped", "0")
			status, body := serve(u.h, query(u.rng, p), "198.51.100.1:9")
			o := map[string]any{"err": "ok"}
			describeSwarm(body, o)
			u.gather(o, 0)
			if status != 200 || o["err"] != "ok" {
				obs["err"] = fmt.Sprintf("probe of torrent %d: status %d, %v", k, status, o["err"])
				break
			}
			swarm = append(swarm, o["peers"].([][]int))
		}
		obs["swarm"] = swarm
	}
	return obs
}

// bad makes a request that is to be rejected.
func (u *trackerSUT) bad(kind string, k int, ad spelledAddr) (raw, remote string) {
	p := announceParams(u.rng, k, 1+u.rng.Intn(2), strconv.Itoa(ad.port), []string{"", "started", "stopped"}[u.rng.Intn(3)], []string{"0", "1"}[u.rng.Intn(2)])
	remote = ad.remotes[0]
	base, v, _ := strings.Cut(kind, "=")
	switch base {
	case "query":
		return query(u.rng, p) + "&" + v, remote
	case "remote":
		return query(u.rng, p), v
	case "no":
		delete(p, v)
	case "hash":
		h := trackerHashes[k-1]
		p["info_hash"] = map[string]string{"unknown": "unknown-info-hash-00", "short": h[:19], "long": h + "x", "one": h[:1], "case": strings.ToUpper(h), "hex": fmt.Sprintf("%x", h)}[v]
	case "id":
		id := p["peer_id"]
		p["peer_id"] = map[string]string{"short": id[:19], "long": id + "x"}[v]
	default:
		p[base] = v
	}
	return query(u.rng, p), remote
}

// describeSwarm describes the body of an accepted announce.
func describeSwarm(body []byte, obs map[string]any) {
	v, rest, err := parseBen(string(body))
	if err != nil || rest != "" {
		obs["err"] = fmt.Sprintf("not one bencoded value (%v): %q", err, clip(string(body)))
		return
	}
	d, ok := v.(map[string]any)
	if !ok {
		obs["err"] = fmt.Sprintf("not a dictionary: %q", clip(string(body)))
		return
	}
	if n, ok := d["interval"].(int); ok && n > 0 {
		obs["interval"] = "positive"
	} else {
		obs["interval"] = fmt.Sprint(d["interval"])
	}
	if r, ok := d["failure reason"]; ok {
		obs["err"] = fmt.Sprintf("failure reason %v", r)
	}
	peers, mates := [][]int{}, [][3]int{}
	add := func(ip string, port, id int) {
		if i := addrIndex(ip, port); i > 0 {
			peers = append(peers, []int{i, id})
		} else if a, k := mateIndex(ip, port, 1<<16); a > 0 {
			mates = append(mates, [3]int{a, k, id})
		} else {
			peers = append(peers, []int{-1, id})
		}
	}
	switch l := d["peers"].(type) {
	case string:
		obs["form"] = "compact"
		if len(l)%6 != 0 {
			obs["err"] = "ragged compact list"
		}
		for ; len(l) >= 6; l = l[6:] {
			add(netip.AddrFrom4([4]byte([]byte(l[:4]))).String(), int(l[4])<<8|int(l[5]), 0)
		}
	case []any:
		obs["form"] = "list"
		for _, e := range l {
			m, _ := e.(map[string]any)
			ip, ok1 := m["ip"].(string)
			id, ok2 := m["peer id"].(string)
			port, ok3 := m["port"].(int)
			if !ok1 || !ok2 || !ok3 {
				obs["err"] = fmt.Sprintf("bad peer %v", e)
				continue
			}
			n := -1
			for i, x := range trackerIDs {
				if x == id {
					n = i + 1
				}
			}
			add(ip, port, n)
		}
	default:
		obs["form"] = fmt.Sprintf("%T", l)
	}
	sort.Slice(peers, func(i, j int) bool { return fmt.Sprint(peers[i]) < fmt.Sprint(peers[j]) })
	obs["peers"], obs["mates"] = peers, mates
}

func clip(s string) string { return s[:min(len(s), 200)] }

// parseBen parses one bencoded value strictly and returns what follows it.
func parseBen(s string) (any, string, error) {
	if s == "" {
		return nil, "", fmt.Errorf("end of input")
	}
	num := func(t string, neg bool) (int, error) {
		d := t
		if neg {
			d = strings.TrimPrefix(t, "-")
		}
		if d == "" || len(d) > 18 || len(d) > 1 && d[0] == '0' || t == "-0" || strings.Trim(d, "0123456789") != "" {
			return 0, fmt.Errorf("bad number %q", clip(t))
		}
		return strconv.Atoi(t)
	}
	switch c := s[0]; {
	case c == 'i':
		t, rest, ok := strings.Cut(s[1:], "e")
		if !ok {
			return nil, "", fmt.Errorf("unterminated integer")
		}
		n, err := num(t, true)
		return n, rest, err
	case c == 'l':
		l := []any{}
		for s = s[1:]; !strings.HasPrefix(s, "e"); {
			v, rest, err := parseBen(s)
			if err != nil {
				return nil, "", err
			}
			l = append(l, v)
			s = rest
		}
		return l, s[1:], nil
	case c == 'd':
		d := map[string]any{}
		last, first := "", true
		for s = s[1:]; !strings.HasPrefix(s, "e"); {
			k, rest, err := parseBen(s)
			if err != nil {
				return nil, "", err
			}
			key, ok := k.(string)
			if !ok || !first && key <= last {
				return nil, "", fmt.Errorf("bad key %v", k)
			}
			last, first = key, false
			v, rest, err := parseBen(rest)
			if err != nil {
				return nil, "", err
			}
			d[key] = v
			s = rest
		}
		return d, s[1:], nil
	case c >= '0' && c <= '9':
		t, rest, ok := strings.Cut(s, ":")
		if !ok {
			return nil, "", fmt.Errorf("bad string length")
		}
		n, err := num(t, false)
		if err != nil || n > len(rest) {
			return nil, "", fmt.Errorf("bad string length %q", t)
		}
		return rest[:n], rest[n:], nil
	}
	return nil, "", fmt.Errorf("bad value %q", clip(s))
}

// trackerLin records concurrent announces for TrackerTrace.
func trackerLin(c *Config, res *util.Result) {
	out, err := os.Create(c.Traces)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	rounds, logged, nt := c.Int("rounds", 100), c.Int("logged", 100), c.Int("threads", 4)
	for r := range rounds {
		rng := rand.New(rand.NewSource(c.Seed*31337 + int64(r)))
		h := newPex(1)
		var log linLog
		var wg sync.WaitGroup
		var bad atomic.Value
		start := make(chan struct{})
		for t := 1; t <= nt; t++ {
			rg := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for range 4 {
					a, i, ev, form := 1+rg.Intn(4), 1+rg.Intn(2), []string{"", "started", "stopped"}[rg.Intn(3)], []string{"0", "1"}[rg.Intn(2)]
					ad := spelled[a-1]
					raw := query(rg, announceParams(rg, 1, i, strconv.Itoa(ad.port), ev, form))
					log.add(linEvent{"k": "call", "t": t, "a": a, "i": i, "stop": ev == "stopped", "compact": form == "1"})
					var status int
					var body []byte
					p := util.Guard(func() { status, body = serve(h, raw, ad.remotes[rg.Intn(2)]) })
					o := map[string]any{"err": "ok", "peers": [][]int{}}
					if p != "" {
						o["err"] = p
					} else {
						describeSwarm(body, o)
					}
					if status != 200 || o["err"] != "ok" {
						bad.Store(fmt.Sprintf("announce: status %d, %v", status, o["err"]))
					}
					log.add(linEvent{"k": "ret", "t": t, "peers": o["peers"]})
					for range rg.Intn(20) {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			res.Violate("an announce did not return", map[string]any{"round": r})
			return
		}
		if b, ok := bad.Load().(string); ok {
			res.Violate(b, map[string]any{"history": log.ev})
			return
		}
		res.Add("rounds", 1)
		if r < logged {
			b, _ := json.Marshal(map[string]any{"ev": log.ev})
			out.Write(append(b, '\n'))
			res.Sample(log.ev)
		}
	}
}
