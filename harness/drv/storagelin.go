package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/browles/drip/storage"

	"dripverif/util"
)

func init() { modes["storage-lin"] = storageLin }

type linEvent map[string]any

type linLog struct {
	mu sync.Mutex
	ev []linEvent
}

func (l *linLog) add(e linEvent) {
	l.mu.Lock()
	l.ev = append(l.ev, e)
	l.mu.Unlock()
}

type linOp struct {
	Op    string
	I     int
	Begin int
	Len   int
	Bad   bool
}

// storageLin runs concurrent histories against the real storage and writes
// them for StorageTrace. Histories beyond `logged` only have to terminate.
func storageLin(c *Config, res *util.Result) {
	pl, total := c.Int("pl", 0), c.Int("total", 0)
	nt, nops := c.Int("threads", 3), c.Int("ops", 4)
	rounds, logged := c.Int("rounds", 200), c.Int("logged", 200)
	root := util.Scratch("lin")
	defer os.RemoveAll(root)
	out, err := os.Create(c.Traces)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	var outMu sync.Mutex
	var next atomic.Int64
	var hung atomic.Bool
	par := c.Int("parallel", 3)
	var wg sync.WaitGroup
	for range par {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				r := int(next.Add(1)) - 1
				if r >= rounds || hung.Load() {
					return
				}
				rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(r)))
				t := util.MakeTorrent(int64(r), "torrent", pl, total, layout([]string{"", "multi"}[r%2], total))
				dir := filepath.Join(root, fmt.Sprint(r))
				ev, ok := linRound(t, dir, rng, nt, nops)
				os.RemoveAll(dir)
				res.Add("rounds", 1)
				if !ok {
					hung.Store(true)
					res.Violate("a storage call did not return", map[string]any{"history": ev})
				}
				if r < logged && ok {
					b, _ := json.Marshal(map[string]any{"ev": ev})
					outMu.Lock()
					out.Write(append(b, '\n'))
					outMu.Unlock()
					res.Add("histories", 1)
					res.Add("events", len(ev))
					res.Sample(ev)
				}
			}
		}()
	}
	wg.Wait()
}

// bigProgram fills a large torrent in a random order, with duplicates, corrupt
// blocks, resets, and reads of all kinds of ranges.
func bigProgram(t *util.Torrent, rng *rand.Rand) [][]linOp {
	n, total := len(t.Info.Pieces), len(t.Content)
	pl := t.Info.PieceLength
	const bl = storage.BLOCK_LENGTH
	var todo []linOp
	for i := range n {
		plen := min(pl, total-i*pl)
		for b := 0; b < plen; b += bl {
			todo = append(todo, linOp{"put", i, b, min(bl, plen-b), false})
		}
	}
	if rng.Intn(3) > 0 {
		rng.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
	}
	bad := map[int]bool{}
	for range 2 {
		bad[rng.Intn(n)] = true
	}
	var ops []linOp
	get := func() {
		off := rng.Intn(total)
		i := off / pl
		l := 1 + rng.Intn(min(total-off, 3*pl))
		if rng.Intn(2) == 0 {
			l = min(l, pl-off%pl)
		}
		ops = append(ops, linOp{"get", i, off % pl, l, false})
	}
	for pass := 0; pass < 3; pass++ {
		for _, o := range todo {
			if pass > 0 && !bad[o.I] {
				continue
			}
			o.Bad = pass == 0 && bad[o.I] && rng.Intn(8) == 0
			ops = append(ops, o)
			if rng.Intn(20) == 0 {
				ops = append(ops, o)
			}
			if rng.Intn(10) == 0 {
				get()
			}
			if rng.Intn(25) == 0 {
				ops = append(ops, linOp{"obs", 0, 0, 0, false})
			}
		}
		for i := range bad {
			ops = append(ops, linOp{"reset", i, 0, 0, false})
		}
	}
	for range 20 {
		get()
	}
	return [][]linOp{ops}
}

// program is what the threads do: hot spots are the last block of a piece, the
// last piece, resets and reads around completion.
func linProgram(t *util.Torrent, rng *rand.Rand, nt, nops int) [][]linOp {
	n := len(t.Info.Pieces)
	plen := func(i int) int { return min(t.Info.PieceLength, len(t.Content)-i*t.Info.PieceLength) }
	block := func(i int) (int, int) {
		nb := (plen(i) + storage.BLOCK_LENGTH - 1) / storage.BLOCK_LENGTH
		b := rng.Intn(nb) * storage.BLOCK_LENGTH
		return b, min(storage.BLOCK_LENGTH, plen(i)-b)
	}
	var prog [][]linOp
	style := rng.Intn(4)
	for th := range nt {
		var ops []linOp
		for range nops {
			i := rng.Intn(n)
			b, l := block(i)
			o := linOp{"put", i, b, l, rng.Intn(6) == 0}
			switch x := rng.Intn(10); {
			case style == 0 && x < 4, x < 2:
				o.Op = "get"
			case x == 3:
				o.Op = "reset"
			case x == 4 && th > 0:
				o.Op = "wait"
			case x == 5 && th == nt-1:
				o.Op = "twait"
			}
			if style == 2 {
				o.Bad = false
			}
			ops = append(ops, o)
		}
		if style == 1 || style == 3 {
			// Everybody writes everything, from different ends.
			ops = nil
			for k := range n {
				i := (k + th) % n
				nb := (plen(i) + storage.BLOCK_LENGTH - 1) / storage.BLOCK_LENGTH
				for b := range nb {
					b = (b + th) % nb
					begin := b * storage.BLOCK_LENGTH
					ops = append(ops, linOp{"put", i, begin, min(storage.BLOCK_LENGTH, plen(i)-begin), style == 3 && rng.Intn(8) == 0})
					if rng.Intn(3) == 0 {
						ops = append(ops, linOp{"get", i, begin, min(storage.BLOCK_LENGTH, plen(i)-begin), false})
					}
				}
				if th == 0 && style == 3 {
					ops = append(ops, linOp{"reset", i, 0, 0, false})
				}
			}
		}
		prog = append(prog, ops)
	}
	return prog
}

func linRound(t *util.Torrent, dir string, rng *rand.Rand, nt, nops int) ([]linEvent, bool) {
	target, work := filepath.Join(dir, "target"), filepath.Join(dir, "work")
	os.MkdirAll(target, 0o755)
	os.MkdirAll(work, 0o755)
	s := storage.New(target, work, t.Clone())
	if err := s.Load(); err != nil {
		panic(err)
	}
	prog := linProgram(t, rng, nt, nops)
	if nops == 0 {
		prog = bigProgram(t, rng)
	}
	observe := func(e linEvent) linEvent {
		bits := make([]int, len(t.Info.Pieces))
		for i := range bits {
			if s.Torrent.Bitfield.Has(i) {
				bits[i] = 1
			}
		}
		e["bits"], e["down"], e["pub"] = bits, s.Downloaded(), t.Published(target)
		return e
	}
	var log linLog
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	var waiting sync.Map // thread -> true while in a wait
	for th, ops := range prog {
		ready.Add(1)
		done.Add(1)
		yields := rng.Intn(3)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			for range yields {
				runtime.Gosched()
			}
			for _, o := range ops {
				if o.Op == "obs" {
					log.add(observe(linEvent{"k": "obs", "t": th + 1}))
					continue
				}
				isWait := o.Op == "wait" || o.Op == "twait"
				if isWait {
					waiting.Store(th+1, true)
				}
				log.add(linEvent{"k": "call", "t": th + 1, "op": o.Op, "i": o.I, "begin": o.Begin, "len": o.Len, "bad": o.Bad})
				r := linDo(s, t, o)
				log.add(linEvent{"k": "ret", "t": th + 1, "r": r})
				if isWait {
					waiting.Delete(th + 1)
				}
			}
		}()
	}
	ready.Wait()
	close(start)
	fin := make(chan struct{})
	go func() { done.Wait(); close(fin) }()
	// Threads may end up in a wait that has no verdict; everything else returns.
	deadline := time.Now().Add(20 * time.Second)
	quiet := 0
	last := -1
	for {
		select {
		case <-fin:
			goto finished
		case <-time.After(2 * time.Millisecond):
		}
		log.mu.Lock()
		n := len(log.ev)
		running := map[int]string{}
		for _, e := range log.ev {
			if e["k"] == "call" {
				running[e["t"].(int)] = e["op"].(string)
			} else {
				delete(running, e["t"].(int))
			}
		}
		log.mu.Unlock()
		onlyWaits := len(running) > 0
		for _, op := range running {
			if op != "wait" && op != "twait" {
				onlyWaits = false
			}
		}
		if n == last && onlyWaits {
			// A wait that should return is given a second.
			if quiet++; quiet > 500 || quiet > 5 && !linMayReturn(s, log.ev, running) {
				goto finished
			}
		} else {
			quiet = 0
		}
		last = n
		if time.Now().After(deadline) {
			log.mu.Lock()
			defer log.mu.Unlock()
			return log.ev, false
		}
	}
finished:
	log.mu.Lock()
	defer log.mu.Unlock()
	pend := []int{}
	open := map[int]bool{}
	for _, e := range log.ev {
		if e["k"] == "call" {
			open[e["t"].(int)] = true
		} else {
			delete(open, e["t"].(int))
		}
	}
	for th := range open {
		pend = append(pend, th)
	}
	ev := append([]linEvent(nil), log.ev...)
	ev = append(ev, observe(linEvent{"k": "end", "pend": pend}))
	return ev, true
}

// linMayReturn guesses whether a pending wait may still return by itself (then
// it is given more time): its piece is complete or was reset or failed.
func linMayReturn(s *storage.Storage, ev []linEvent, running map[int]string) bool {
	call := map[int]int{}
	for n, e := range ev {
		if e["k"] == "call" {
			call[e["t"].(int)] = n
		}
	}
	for th, op := range running {
		e := ev[call[th]]
		if op == "twait" {
			if len(s.Torrent.Bitfield.Items()) == len(s.Torrent.Info.Pieces) {
				return true
			}
			continue
		}
		i := e["i"].(int)
		if s.Torrent.Bitfield.Has(i) {
			return true
		}
		for _, f := range ev[:len(ev)] {
			if f["k"] == "call" && f["op"] == "reset" && f["i"] == i {
				return true
			}
			if f["k"] == "ret" && f["r"] == "checksum" {
				return true
			}
		}
	}
	return false
}

func linDo(s *storage.Storage, t *util.Torrent, o linOp) (r string) {
	if p := util.Guard(func() {
		off := o.I*t.Info.PieceLength + o.Begin
		switch o.Op {
		case "put":
			data := bytes.Clone(t.Content[off : off+o.Len])
			if o.Bad {
				data[len(data)/2] ^= 0x55
			}
			r = errClass(s.PutBlock(o.I, o.Begin, data), o.I)
		case "get":
			b, err := s.GetBlock(o.I, o.Begin, o.Len)
			switch {
			case err != nil:
				r = "error"
			case bytes.Equal(b, t.Content[off:off+o.Len]):
				r = "data"
			default:
				r = "wrong data"
			}
		case "reset":
			s.ResetPiece(o.I)
		case "wait":
			r = errClass(s.GetPiece(o.I).Wait(), o.I)
		case "twait":
			r = errClass(s.Torrent.Wait(), -1)
		}
	}); p != "" {
		return p
	}
	return r
}
