package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"

	"github.com/browles/drip/storage"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["storage-walk"] = storageWalk }

// layouts turns a total length into file lists that exercise shared pieces,
// empty files and nested directories.
func layout(kind string, total int) []util.FileSpec {
	switch kind {
	case "multi":
		a, b := total/5, total/2
		return []util.FileSpec{
			{0, []string{"empty-first"}},
			{a, []string{"d", "a"}},
			{1, []string{"d", "one"}},
			{0, []string{"d", "e", "empty"}},
			{b, []string{"b"}},
			{total - a - b - 1, []string{"d", "e", "rest"}},
			{0, []string{"z"}},
		}
	default:
		return nil
	}
}

// bunch is how many wait where the specification has one waiter.
const bunch = 5

func storageWalk(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	pl, total := c.Int("pl", 0), c.Int("total", 0)
	root := util.Scratch("storage")
	defer os.RemoveAll(root)
	g.Walk(walk.Options{
		Fields: c.FieldSet(),
		Seed:   c.Seed,
		NewSUT: func(w int) walk.SUT {
			t := util.MakeTorrent(c.Seed+int64(w), "torrent", pl, total, layout(c.Str("layout", ""), total))
			return &storageSUT{t: t, root: filepath.Join(root, strconv.Itoa(w)), rng: rand.New(rand.NewSource(c.Seed + int64(w)))}
		},
	}, res)
}

type storageSUT struct {
	t      *util.Torrent
	root   string
	n      int
	rng    *rand.Rand
	s      *storage.Storage
	target string
	work   string
	waits  []*waiter
	last   *waiter // of the wait in progress
	pubOK  bool
}

type waiter struct {
	piece int // -1: torrent
	ch    chan string
}

func (u *storageSUT) Reset() {
	if u.n > 0 {
		os.RemoveAll(filepath.Join(u.root, strconv.Itoa(u.n)))
	}
	u.n++
	dir := filepath.Join(u.root, strconv.Itoa(u.n))
	u.target, u.work = filepath.Join(dir, "target"), filepath.Join(dir, "work")
	os.MkdirAll(u.target, 0o755)
	os.MkdirAll(u.work, 0o755)
	if e := u.load(); e != "ok" {
		panic("load: " + e)
	}
}

func (u *storageSUT) Close() { os.RemoveAll(u.root) }

func (u *storageSUT) load() string {
	// The waiters of the old process are gone with it.
	u.waits = nil
	u.pubOK = false
	u.s = storage.New(u.target, u.work, u.t.Clone())
	if err := u.s.Load(); err != nil {
		return "error: " + err.Error()
	}
	return "ok"
}

func (u *storageSUT) plen(i int) int {
	return min(u.t.Info.PieceLength, len(u.t.Content)-i*u.t.Info.PieceLength)
}

func errClass(err error, index int) string {
	var ce *storage.ChecksumError
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, storage.ErrBlockExists):
		return "exists"
	case errors.As(err, &ce):
		if ce.Index != index {
			return fmt.Sprintf("checksum error naming piece %d", ce.Index)
		}
		return "checksum"
	default:
		return "error"
	}
}

func big(x int) int {
	switch x {
	case math.MaxInt32:
		return math.MaxInt
	case -math.MaxInt32:
		return math.MinInt
	case math.MaxInt32 - 1:
		return math.MaxInt &^ (1<<14 - 1) // aligned
	}
	return x
}

func (u *storageSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "", "trel": "", "rel": make([]string, len(u.t.Info.Pieces))}
	u.last = nil
	switch op {
	case "put":
		i, begin, length := big(a.Int("i")), big(a.Int("begin")), a.Int("len")
		data := make([]byte, length)
		off := a.Int("i")*u.t.Info.PieceLength + a.Int("begin")
		if off >= 0 && off < len(u.t.Content) && i < math.MaxInt32 && begin < math.MaxInt32 {
			copy(data, u.t.Content[off:])
		}
		if a.Bool("bad") {
			data[u.rng.Intn(len(data))] ^= byte(1 + u.rng.Intn(255))
		}
		obs["err"] = errClass(u.s.PutBlock(i, begin, data), i)
	case "get":
		i, begin, length := big(a.Int("i")), big(a.Int("begin")), big(a.Int("len"))
		got, err := u.s.GetBlock(i, begin, length)
		if err != nil {
			obs["err"] = "error"
		} else {
			off := i*u.t.Info.PieceLength + begin
			if off >= 0 && length >= 0 && off+length <= len(u.t.Content) && bytes.Equal(got, u.t.Content[off:off+length]) {
				obs["err"] = "data"
			} else {
				obs["err"] = fmt.Sprintf("wrong data (%d bytes)", len(got))
			}
		}
	case "reset":
		u.s.ResetPiece(a.Int("i"))
	case "wait", "twait":
		w := &waiter{-1, make(chan string, 1)}
		// Several of them, that must all get the same verdict.
		wait := func() string { return errClass(u.s.Torrent.Wait(), -1) }
		if op == "wait" {
			w.piece = a.Int("i")
			p := u.s.GetPiece(w.piece)
			wait = func() string { return errClass(p.Wait(), w.piece) }
		}
		var started sync.WaitGroup
		res := make(chan string)
		for range bunch {
			started.Add(1)
			go func() { started.Done(); res <- wait() }()
		}
		go func() {
			r := ""
			for range bunch {
				r = join(r, <-res)
			}
			w.ch <- r
		}()
		started.Wait()
		u.waits = append(u.waits, w)
		u.last = w
		obs["err"] = "pending"
	case "reload":
		obs["err"] = u.load()
	default:
		panic("unknown op " + op)
	}
	u.observe(op, obs)
	return u.Again(obs)
}

func (u *storageSUT) observe(op string, obs map[string]any) {
	n := len(u.t.Info.Pieces)
	bits := make([]int, n)
	for i := range n {
		if u.s.Torrent.Bitfield.Has(i) {
			bits[i] = 1
		}
	}
	for _, i := range u.s.Torrent.Bitfield.Items() {
		if i >= n {
			bits = append(bits, 2)
		}
	}
	obs["bits"] = bits
	obs["down"] = u.s.Downloaded()
	if !u.pubOK || op == "reload" {
		pub := u.t.Published(u.target)
		if pub == "exact" {
			u.pubOK = true
			if _, err := os.Stat(filepath.Join(u.work, u.s.Torrent.WorkDir())); err == nil {
				pub = "exact, but work files are left"
			}
		}
		obs["pub"] = pub
	} else {
		obs["pub"] = "exact"
	}
}

// Again adds the waiters that returned since.
func (u *storageSUT) Again(obs map[string]any) map[string]any {
	rel, ok := obs["rel"].([]string)
	if !ok {
		return obs
	}
	var left []*waiter
	runtime.Gosched()
	for _, w := range u.waits {
		select {
		case r := <-w.ch:
			switch {
			case w == u.last:
				obs["err"] = r
			case w.piece < 0:
				obs["trel"] = join(obs["trel"].(string), r)
			default:
				rel[w.piece] = join(rel[w.piece], r)
			}
		default:
			left = append(left, w)
		}
	}
	u.waits = left
	return obs
}

func join(old, r string) string {
	if old == "" || old == r {
		return r
	}
	return old + "+" + r
}
