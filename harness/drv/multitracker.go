package main

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/browles/drip/api/metainfo"
	trackerapi "github.com/browles/drip/api/tracker"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"

	"dripverif/util"
	"dripverif/walk"
)

func init() {
	modes["multitracker"] = multitrackerMode
	modes["announce"] = announceMode
}

// tracker is an HTTP tracker whose every answer is decided by the driver.
type fakeTracker struct {
	l      net.Listener
	srv    *http.Server
	mu     sync.Mutex
	answer func(rw http.ResponseWriter, req *http.Request)
}

func newFakeTracker() *fakeTracker {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	t := &fakeTracker{l: l}
	t.srv = &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		t.mu.Lock()
		f := t.answer
		t.mu.Unlock()
		if f != nil {
			f(rw, req)
		}
	})}
	t.srv.SetKeepAlivesEnabled(false)
	go t.srv.Serve(l)
	return t
}

func (t *fakeTracker) set(f func(rw http.ResponseWriter, req *http.Request)) {
	t.mu.Lock()
	t.answer = f
	t.mu.Unlock()
}

func (t *fakeTracker) url() string { return "http://" + t.l.Addr().String() }

// fail answers a request in one of the ways that are no success.
func failTracker(kind string, rw http.ResponseWriter, req *http.Request) {
	drop := func(head string) {
		c, _, err := rw.(http.Hijacker).Hijack()
		if err == nil {
			c.Write([]byte(head))
			c.Close()
		}
	}
	ok := "d8:intervali60e5:peers6:\x0a\x00\x00\x01\x1a\xe1e"
	switch kind {
	case "reason":
		rw.Write([]byte("d14:failure reason4:nopee"))
	case "reasonpeers":
		rw.Write([]byte("d14:failure reason1:x8:intervali60e5:peers6:\x0a\x00\x00\x01\x1a\xe1e"))
	case "reason400":
		rw.WriteHeader(400)
		rw.Write([]byte("d14:failure reason4:nopee"))
	case "garbage":
		rw.Write([]byte("<html>busy</html>"))
	case "html500":
		rw.WriteHeader(500)
		rw.Write([]byte("internal error"))
	case "empty":
	case "drop":
		drop("")
	case "truncated":
		drop("HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n" + ok)
	case "cut":
		rw.Write([]byte(ok[:len(ok)-3]))
	case "list":
		rw.Write([]byte("li1ee"))
	case "peers7":
		rw.Write([]byte("d8:intervali60e5:peers7:1234567e"))
	case "badpeer":
		rw.Write([]byte("d8:intervali60e5:peersld4:porti1eeee"))
	case "hang":
		<-req.Context().Done()
	default:
		panic(kind)
	}
}

func multitrackerMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	root := util.Scratch("mt")
	defer os.RemoveAll(root)
	g.Walk(walk.Options{
		Fields: c.FieldSet(), Seed: c.Seed, Workers: c.Int("workers", 0), OpTimeout: 60 * time.Second,
		NewSUT: func(w int) walk.SUT {
			return &mtSUT{ft: newFakeTracker(), root: root, rng: rand.New(rand.NewSource(c.Seed + int64(w)))}
		},
	}, res)
}

type mtSUT struct {
	ft   *fakeTracker
	root string
	rng  *rand.Rand
	mt   *p2p.Multitracker
}

func (u *mtSUT) Reset() {}
func (u *mtSUT) Close() { u.ft.srv.Close() }

func (u *mtSUT) name(k int) string {
	switch k {
	case 7:
		return "http://127.0.0.1:1/t7/announce"
	case 8:
		return "udp://127.0.0.1:1/t8/announce"
	case 9:
		return "http://[::bad/t9/announce"
	}
	return fmt.Sprintf("%s/t%d/announce", u.ft.url(), k)
}

func manyIP(i int) string { return fmt.Sprintf("10.1.%d.%d", i>>8, i&255) }

var trackerNumber = regexp.MustCompile(`/t(\d+)/`)

func numberOf(url string) int {
	m := trackerNumber.FindStringSubmatch(url)
	if m == nil {
		return -1
	}
	n, _ := strconv.Atoi(m[1])
	return n
}

func (u *mtSUT) order() [][]int {
	o := [][]int{}
	for _, tier := range u.mt.TrackerTiers {
		q := []int{}
		for _, t := range tier {
			if u.name(numberOf(t.URL)) != t.URL {
				q = append(q, -1)
			} else {
				q = append(q, numberOf(t.URL))
			}
		}
		o = append(o, q)
	}
	return o
}

func (u *mtSUT) Do(op string, a walk.Args) map[string]any {
	switch op {
	case "new":
		t := util.MakeTorrent(1, "torrent", 1<<14, 1<<14, nil)
		mi := &metainfo.Metainfo{Info: t.Clone()}
		for _, tier := range a["list"].([]any) {
			urls := []string{}
			for _, k := range tier.([]any) {
				urls = append(urls, u.name(int(k.(float64))))
			}
			mi.AnnounceList = append(mi.AnnounceList, urls)
		}
		if k := a.Int("single"); k > 0 {
			mi.Announce = u.name(k)
		} else if k == 0 {
			mi.Announce = u.name(6) // not to be used next to a list
		}
		before := fmt.Sprint(mi.AnnounceList)
		s := p2p.New(mi, [20]byte{1}, storage.New(filepath.Join(u.root, "target"), filepath.Join(u.root, "work"), mi.Info), 6881)
		u.mt = s.Tracker
		if fmt.Sprint(mi.AnnounceList) != before {
			return map[string]any{"err": "the metainfo's announce list was changed"}
		}
		return map[string]any{"err": "ok", "order": u.order()}
	case "announce", "burst":
		ok := a["ok"].([]any)
		var mu sync.Mutex
		tried := []int{}
		form := u.rng.Intn(6)
		many := []int{51, 300, 1500, 12000}[u.rng.Intn(4)]
		u.ft.set(func(rw http.ResponseWriter, req *http.Request) {
			k := numberOf(req.URL.Path)
			mu.Lock()
			tried = append(tried, k)
			mu.Unlock()
			if k < 1 || k > 9 || !ok[k-1].(bool) {
				kind, _ := a["kind"].(string)
				if kind == "" {
					kind = "reason"
				}
				failTracker(kind, rw, req)
				return
			}
			switch form {
			case 0:
				fmt.Fprintf(rw, "d8:intervali%de5:peers6:\x0a\x00\x00%c\x1a\xe1e", 1000+k, k)
			case 1:
				fmt.Fprintf(rw, "d8:intervali%de5:peersld2:ip8:10.0.0.%d7:peer id20:aaaaaaaaaaaaaaaaaaaa4:porti6881eeee", 1000+k, k)
			case 2:
				fmt.Fprintf(rw, "d8:completei3e10:incompletei4e8:intervali%de5:peers6:\x0a\x00\x00%c\x1a\xe115:warning message2:hme", 1000+k, k)
			case 3:
				fmt.Fprintf(rw, "d8:intervali%de5:peers0:e", 1000+k)
			case 4, 5: // many, in pieces
				var b strings.Builder
				if form == 4 {
					fmt.Fprintf(&b, "d8:intervali%de5:peers%d:", 1000+k, 6*many)
				} else {
					fmt.Fprintf(&b, "d8:intervali%de5:peersl", 1000+k)
				}
				for i := range many {
					if form == 4 {
						b.Write([]byte{10, 1, byte(i >> 8), byte(i), 26, 225})
					} else {
						fmt.Fprintf(&b, "d2:ip%d:%s7:peer id20:aaaaaaaaaaaaaaaaaaaa4:porti6881ee", len(manyIP(i)), manyIP(i))
					}
				}
				if form == 5 {
					b.WriteString("e")
				}
				b.WriteString("e")
				for s := b.String(); s != ""; {
					n := min(len(s), 1+len(b.String())/3)
					rw.Write([]byte(s[:n]))
					rw.(http.Flusher).Flush()
					s = s[n:]
				}
			}
		})
		call := func() (*trackerapi.Response, error) {
			switch a["ev"] {
			case "started":
				return u.mt.Start()
			case "completed":
				return u.mt.Complete()
			case "stopped":
				return u.mt.Stop()
			default:
				return u.mt.Announce()
			}
		}
		show := func(r *trackerapi.Response, err error) (string, int) {
			if err != nil {
				return "error", 0
			}
			k := r.Interval - 1000
			want := []string{fmt.Sprintf("10.0.0.%d:6881", k)}
			if form == 3 {
				want = nil
			}
			if form > 3 {
				want = nil
				for i := range many {
					want = append(want, manyIP(i)+":6881")
				}
			}
			var got []string
			if r.Peers == nil {
				return "no peer list", k
			}
			for _, p := range r.Peers.List {
				got = append(got, fmt.Sprintf("%s:%d", p.IP, p.Port))
			}
			if !slices.Equal(got, want) {
				if len(got) > 5 {
					return fmt.Sprintf("%d peers of tracker %d, not all or not the right ones", len(got), k), k
				}
				return fmt.Sprintf("peers %v of tracker %d", got, k), k
			}
			return "ok", k
		}
		if op == "announce" {
			e, k := show(call())
			mu.Lock()
			defer mu.Unlock()
			return map[string]any{"err": e, "from": k, "tried": tried, "order": u.order()}
		}
		type result struct {
			e string
			k int
		}
		ch := make(chan result, 4)
		for range 4 {
			go func() {
				e, k := show(call())
				ch <- result{e, k}
			}()
		}
		obs := map[string]any{"err": "ok"}
		for i := range 4 {
			r := <-ch
			if r.e != "ok" || i > 0 && obs["from"] != r.k {
				obs["err"] = fmt.Sprintf("%s (tracker %d)", r.e, r.k)
			}
			obs["from"] = r.k
		}
		obs["order"] = u.order()
		return obs
	}
	panic(op)
}

func announceMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	root := util.Scratch("ann")
	defer os.RemoveAll(root)
	g.Walk(walk.Options{
		Fields: c.FieldSet(), Seed: c.Seed,
		NewSUT: func(w int) walk.SUT {
			return &annSUT{ft: newFakeTracker(), root: filepath.Join(root, fmt.Sprint(w)), seed: c.Seed + int64(w)}
		},
	}, res)
}

type annSUT struct {
	ft   *fakeTracker
	root string
	n    int
	seed int64
	unit int
	t    *util.Torrent
	s    *p2p.Server
}

func (u *annSUT) Reset() {
	os.RemoveAll(u.dir())
	u.n++
}
func (u *annSUT) Close()      { u.ft.srv.Close(); os.RemoveAll(u.root) }
func (u *annSUT) dir() string { return filepath.Join(u.root, fmt.Sprint(u.n)) }

// parseQuery decodes a query string by itself: percent escapes and pluses.
func parseQuery(q string) ([][2]string, error) {
	var res [][2]string
	dec := func(s string) (string, error) {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			switch {
			case s[i] == '+':
				b.WriteByte(' ')
			case s[i] == '%':
				if i+3 > len(s) {
					return "", fmt.Errorf("cut escape in %q", s)
				}
				x, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
				if err != nil {
					return "", err
				}
				b.WriteByte(byte(x))
				i += 2
			default:
				b.WriteByte(s[i])
			}
		}
		return b.String(), nil
	}
	for _, p := range strings.Split(q, "&") {
		if p == "" {
			continue
		}
		k, v, _ := strings.Cut(p, "=")
		dk, err1 := dec(k)
		dv, err2 := dec(v)
		if err1 != nil || err2 != nil {
			return nil, fmt.Errorf("bad query %q", q)
		}
		res = append(res, [2]string{dk, dv})
	}
	return res, nil
}

func (u *annSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "ok"}
	switch op {
	case "new":
		geo := a["geo"].(map[string]any)
		u.unit = int(geo["unit"].(float64))
		pl, total := int(geo["pl"].(float64))*u.unit, int(geo["total"].(float64))*u.unit
		if geo["can"].(bool) {
			u.t = util.MakeTorrent(u.seed, "torrent", pl, total, layout(geo["layout"].(string), total))
		} else {
			info := &metainfo.Info{PieceLength: pl, Name: "torrent", Length: int64(total)}
			info.Pieces = make([][20]byte, (total+pl-1)/pl)
			u.t = &util.Torrent{Info: info}
		}
		ids := a["ids"].(map[string]any)
		info := u.t.Clone()
		copy(info.SHA1[:], bytesOf(ids["hash"]))
		var id [20]byte
		copy(id[:], bytesOf(ids["id"]))
		url := a["url"].(map[string]any)
		mi := &metainfo.Metainfo{Info: info, Announce: u.ft.url() + url["path"].(string) + url["query"].(string)}
		st := storage.New(filepath.Join(u.dir(), "target"), filepath.Join(u.dir(), "work"), info)
		os.MkdirAll(filepath.Join(u.dir(), "target"), 0o755)
		if err := st.Load(); err != nil {
			return map[string]any{"err": err.Error()}
		}
		u.s = p2p.New(mi, id, st, a.Int("port"))
	case "piece", "corrupt":
		i := a.Int("i")
		pl := u.t.Info.PieceLength
		data := append([]byte(nil), u.t.Content[i*pl:min((i+1)*pl, len(u.t.Content))]...)
		if op == "corrupt" {
			data[len(data)/2] ^= 1
		}
		for b := 0; b < len(data); b += storage.BLOCK_LENGTH {
			err := u.s.Storage.PutBlock(i, b, data[b:min(b+storage.BLOCK_LENGTH, len(data))])
			if last := b+storage.BLOCK_LENGTH >= len(data); err != nil && (op == "piece" || !last) {
				obs["err"] = err.Error()
			}
		}
		if op == "corrupt" {
			u.s.Storage.ResetPiece(i)
		}
	case "announce":
		ch := make(chan *http.Request, 10)
		u.ft.set(func(rw http.ResponseWriter, req *http.Request) {
			ch <- req
			rw.Write([]byte("d8:intervali60e5:peers0:e"))
		})
		var err error
		switch a["ev"] {
		case "started":
			_, err = u.s.Tracker.Start()
		case "completed":
			_, err = u.s.Tracker.Complete()
		case "stopped":
			_, err = u.s.Tracker.Stop()
		default:
			_, err = u.s.Tracker.Announce()
		}
		if err != nil {
			return map[string]any{"err": err.Error()}
		}
		if len(ch) != 1 {
			return map[string]any{"err": fmt.Sprintf("%d requests", len(ch))}
		}
		describeAnnounce(<-ch, u.unit, obs)
	}
	return obs
}

// describeAnnounce adds what an announce said to obs.
func describeAnnounce(req *http.Request, unit int, obs map[string]any) {
	pairs, err := parseQuery(req.URL.RawQuery)
	if err != nil {
		obs["err"] = err.Error()
	}
	m, once := map[string]string{}, true
	kept := [][]string{}
	for _, p := range pairs {
		switch p[0] {
		case "info_hash", "peer_id", "port", "uploaded", "downloaded", "left", "event", "compact":
			if _, ok := m[p[0]]; ok {
				once = false
			}
			m[p[0]] = p[1]
		case "ip", "no_peer_id", "numwant", "key", "trackerid":
		default:
			kept = append(kept, []string{p[0], p[1]})
		}
	}
	num := func(k string) any {
		n, err := strconv.Atoi(m[k])
		if err != nil {
			return "bad: " + m[k]
		}
		return n
	}
	amount := func(k string) any {
		n, ok := num(k).(int)
		if !ok || n%unit != 0 {
			return fmt.Sprintf("%v bytes", m[k])
		}
		return n / unit
	}
	obs["path"] = req.URL.Path
	obs["kept"] = kept
	obs["hash"], obs["id"] = intsOf([]byte(m["info_hash"])), intsOf([]byte(m["peer_id"]))
	obs["port"], obs["up"], obs["down"], obs["left"] = num("port"), amount("uploaded"), amount("downloaded"), amount("left")
	obs["event"], obs["compact"], obs["once"] = m["event"], m["compact"], once
}
