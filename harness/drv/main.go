// drv runs the real code of browles/drip for one check:
//
//	drv MODE CONFIG.json OUT.json
package main

import (
	"encoding/json"
	"fmt"
	"log/slog"
	"os"
	"runtime/pprof"

	"dripverif/util"
)

type Config struct {
	Seed    int64          `json:"seed"`
	Tier    string         `json:"tier"`
	Fields  []string       `json:"fields"`
	Edges   string         `json:"edges"`
	Cases   string         `json:"cases"`
	Traces  string         `json:"traces"`
	Scratch string         `json:"scratch"`
	Params  map[string]any `json:"params"`
}

func (c *Config) Int(k string, def int) int {
	if f, ok := c.Params[k].(float64); ok {
		return int(f)
	}
	return def
}
func (c *Config) Str(k, def string) string {
	if s, ok := c.Params[k].(string); ok {
		return s
	}
	return def
}
func (c *Config) Bool(k string) bool { b, _ := c.Params[k].(bool); return b }

func (c *Config) FieldSet() map[string]bool {
	if c.Fields == nil {
		return nil
	}
	m := map[string]bool{}
	for _, f := range c.Fields {
		m[f] = true
	}
	return m
}

var modes = map[string]func(*Config, *util.Result){}

// stuck describes what was going on, for the report on a call that hangs.
var stuck = func() any { return nil }

func main() {
	slog.SetDefault(slog.New(slog.DiscardHandler))
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: drv MODE CONFIG.json OUT.json")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var c Config
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	f, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
	var res util.Result
	if p := os.Getenv("VERIF_PROFILE"); p != "" {
		pf, _ := os.Create(p)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	f(&c, &res)
	res.Write(os.Args[3])
}
