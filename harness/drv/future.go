package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/browles/drip/future"

	"dripverif/util"
)

func init() { modes["future"] = futureMode }

// Big values show a wait that returns while the value is being stored.
type bigValue [8192]int64

func futureMode(c *Config, res *util.Result) {
	out, err := os.Create(c.Traces)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	var outMu sync.Mutex
	rounds, logged := c.Int("rounds", 400), c.Int("logged", 400)
	var next atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	for range 3 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				r := int(next.Add(1)) - 1
				if r >= rounds {
					return
				}
				rng := rand.New(rand.NewSource(c.Seed*7919 + int64(r)))
				log := r < logged
				nt := c.Int("threads", 4)
				if !log && r%19 == 0 { // a crowd
					nt = 70
				}
				var ev []linEvent
				var bad string
				switch r % 5 {
				case 0:
					ev, bad = futureRound(rng, nt, log, func(n int) bigValue {
						var b bigValue
						for i := range b {
							b[i] = int64(n)
						}
						return b
					}, func(b bigValue) string {
						for i := range b {
							if b[i] != b[0] {
								return fmt.Sprintf("torn: %d and %d", b[0], b[i])
							}
						}
						return fmt.Sprint(b[0])
					})
				case 1:
					ev, bad = futureRound(rng, nt, log, func(n int) int { return n - 1 }, func(n int) string { return fmt.Sprint(n) })
				case 2:
					ev, bad = futureRound(rng, nt, log, func(n int) error {
						if n%2 == 0 {
							return nil
						}
						return fmt.Errorf("error %d", n)
					}, func(e error) string { return fmt.Sprint(e) })
				case 3:
					ev, bad = futureRound(rng, nt, log, func(n int) struct{} { return struct{}{} }, func(struct{}) string { return "{}" })
				case 4:
					ev, bad = futureRound(rng, nt, log, func(n int) *int {
						if n == 1 {
							return nil
						}
						return &n
					}, func(p *int) string {
						if p == nil {
							return "nil"
						}
						return fmt.Sprint(*p)
					})
				}
				res.Add("rounds", 1)
				if bad != "" {
					res.Violate(bad, map[string]any{"history": ev, "round": r})
					if res.NumViolations() > 3 {
						stop.Store(true)
					}
				}
				if log {
					b, _ := json.Marshal(map[string]any{"ev": ev})
					outMu.Lock()
					out.Write(append(b, '\n'))
					outMu.Unlock()
					res.Sample(ev)
				}
			}
		}()
	}
	wg.Wait()
}

// futureRound runs nt threads that wait on, or look at, one future while
// another delivers (or does not).
func futureRound[T any](rng *rand.Rand, nt int, logged bool, mk func(int) T, show func(T) string) ([]linEvent, string) {
	f := future.New[T]()
	var log linLog
	add := func(e linEvent) {
		if logged {
			log.add(e)
		}
	}
	n := 1 + rng.Intn(9)
	val := mk(n)
	want := show(val)
	deliver := rng.Intn(8) > 0
	var delivering atomic.Bool
	var bad atomic.Value
	var wg sync.WaitGroup
	waiting := 0
	start := make(chan struct{})
	for t := 1; t <= nt; t++ {
		kind := rng.Intn(3)
		if kind > 0 && !deliver {
			waiting++
		}
		spins := rng.Intn(2000)
		seed := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			r := rand.New(rand.NewSource(seed))
			for range spins {
				runtime.Gosched()
			}
			if kind == 0 {
				for range 3 {
					add(linEvent{"k": "pcall", "t": t})
					c := "0"
					select {
					case <-f.Done:
						c = "1"
					default:
					}
					if c == "1" && !delivering.Load() {
						bad.Store("the done channel is closed before the delivery")
					}
					add(linEvent{"k": "pret", "t": t, "c": c})
					for range r.Intn(500) {
						runtime.Gosched()
					}
				}
				return
			}
			add(linEvent{"k": "wcall", "t": t})
			if kind == 2 { // wait with the channel, then read
				<-f.Done
			}
			v := f.Wait()
			s := show(v)
			if !delivering.Load() {
				bad.Store("a wait returned before the delivery")
			}
			if deliver && s != want {
				bad.Store("a wait returned " + s + ", delivered was " + want)
			}
			if !deliver {
				return // released at the end of the round
			}
			add(linEvent{"k": "wret", "t": t, "v": s})
		}()
	}
	spins := rng.Intn(1500)
	if rng.Intn(4) == 0 {
		spins = 0
	}
	close(start)
	for range spins {
		runtime.Gosched()
	}
	if deliver {
		add(linEvent{"k": "dcall", "v": want})
		delivering.Store(true)
		f.Deliver(val)
		add(linEvent{"k": "dret"})
	} else {
		time.Sleep(3 * time.Millisecond)
		// Everything that can happen without a delivery has happened.
		log.mu.Lock()
		ev := append([]linEvent(nil), log.ev...)
		log.mu.Unlock()
		calls := 0
		for _, e := range ev {
			if e["k"] == "wcall" {
				calls++
			}
		}
		ev = append(ev, linEvent{"k": "end", "n": calls})
		delivering.Store(true)
		f.Deliver(val)
		wg.Wait()
		b, _ := bad.Load().(string)
		return ev, b
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return nil, "a wait did not return after the delivery"
	}
	log.add(linEvent{"k": "end", "n": 0})
	b, _ := bad.Load().(string)
	return log.ev, b
}
