package main

import (
	"encoding/json"
	"log/slog"
	"maps"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"dripverif/util"
)

// TestDrv runs a mode inside a synctest bubble. The process exits inside it,
// as the code under test may leave goroutines behind.
func TestDrv(t *testing.T) {
	mode := os.Getenv("DRV_MODE")
	if mode == "" {
		t.Skip("run by the checks")
	}
	slog.SetDefault(slog.New(quietLog()))
	b, err := os.ReadFile(os.Getenv("DRV_CONFIG"))
	if err != nil {
		t.Fatal(err)
	}
	var c Config
	if err := json.Unmarshal(b, &c); err != nil {
		t.Fatal(err)
	}
	var res util.Result
	out := os.Getenv("DRV_OUT")
	// A call that blocks on a mutex stops the bubble's clock.
	go func() {
		last, since := progress.Load(), time.Now()
		for {
			time.Sleep(100 * time.Millisecond)
			if e := endless.Load(); e != nil {
				res.Violate("the client does not come to rest", map[string]any{"last": *e})
				res.Write(out)
				os.Exit(0)
			}
			if n := progress.Load(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 40*time.Second && n > 0 {
				res.Violate("a call did not return", map[string]any{"calls": n, "state": stuck()})
				res.Write(out)
				os.Exit(0)
			}
		}
	}()
	workers := c.Int("bubbles", 1)
	if workers == 0 { // on the real clock
		modes[mode](&c, &res)
		res.Write(out)
		os.Exit(0)
	}
	var left atomic.Int64
	left.Store(int64(workers))
	var never sync.Mutex
	never.Lock()
	var wg sync.WaitGroup
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			synctest.Test(t, func(t *testing.T) {
				c := c
				c.Params = maps.Clone(c.Params)
				if workers > 1 {
					c.Params["worker"], c.Params["workers"] = float64(w), float64(workers)
				}
				modes[mode](&c, &res)
				if left.Add(-1) == 0 {
					res.Write(out)
					os.Exit(0)
				}
				never.Lock()
			})
		}()
	}
	wg.Wait()
}
