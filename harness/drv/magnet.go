package main

import (
	"strconv"
	"strings"

	"github.com/browles/drip/api/magnet"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["magnet"] = magnetMode }

func magnetMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	g.Walk(walk.Options{Fields: c.FieldSet(), Seed: c.Seed, NewSUT: func(int) walk.SUT { return magnetSUT{} }}, res)
}

type magnetSUT struct{}

func (magnetSUT) Reset() {}
func (magnetSUT) Close() {}

func (magnetSUT) Do(op string, a walk.Args) map[string]any {
	var parts []string
	for _, p := range a["params"].([]any) {
		kv := p.([]any)
		parts = append(parts, kv[0].(string)+"="+kv[1].(string))
	}
	m, err := magnet.ParseMagnetURL(a.Str("pre") + strings.Join(parts, "&"))
	if err != nil {
		return map[string]any{"err": "error"}
	}
	return map[string]any{
		"err": "ok", "xt": m.ExactTopic, "dn": m.Name, "xl": strconv.Itoa(m.Length), "ws": m.WebSeed,
		"tr": append([]string{}, m.Trackers...), "pe": append([]string{}, m.Peers...),
	}
}
