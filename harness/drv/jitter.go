package main

import (
	"context"
	"log/slog"
	"math/rand"
	"runtime"
	"sync/atomic"
	"syscall"
)

// disturb delays the caller now and then, in real time, so that executions
// differ in the order in which things happen.
func disturb(level int) {
	if level == 0 {
		return
	}
	switch n := rand.Intn(1000); {
	case n < 4*level:
		ts := syscall.NsecToTimespec(int64(20000 + rand.Intn(150000)))
		syscall.Nanosleep(&ts, nil)
	case n < 60*level:
		for range 1 + n%13 {
			runtime.Gosched()
		}
	}
}

// logJitter disturbs at every message that the client would log.
var logJitter atomic.Int64

type jitterHandler struct{}

func (h jitterHandler) Enabled(context.Context, slog.Level) bool {
	disturb(int(logJitter.Load()))
	return false
}
func (h jitterHandler) Handle(context.Context, slog.Record) error { return nil }
func (h jitterHandler) WithAttrs([]slog.Attr) slog.Handler        { return h }
func (h jitterHandler) WithGroup(string) slog.Handler             { return h }

func quietLog() slog.Handler { return jitterHandler{} }
