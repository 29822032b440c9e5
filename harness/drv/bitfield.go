package main

import (
	"fmt"
	"math"

	"github.com/browles/drip/bitfield"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["bitfield"] = bitfieldMode }

func bitfieldMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	g.Walk(walk.Options{Fields: c.FieldSet(), Seed: c.Seed, NewSUT: func(int) walk.SUT { return &bitSUT{} }}, res)
}

type bitSUT struct{ b bitfield.Bitfield }

func (u *bitSUT) Reset() { u.b = nil }
func (u *bitSUT) Close() {}

var farIndices = []int{math.MinInt, math.MinInt + 7, -1 << 40, -1 << 31, -1 << 16, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 40, math.MaxInt - 8, math.MaxInt}

func observeBits(b bitfield.Bitfield) map[string]any {
	obs := map[string]any{"err": "ok", "bytes": intsOf(b), "items": append([]int{}, b.Items()...)}
	has := []int{}
	for i := -20; i < 8*len(b)+20; i++ {
		x := 0
		if b.Has(i) {
			x = 1
		}
		has = append(has, x)
	}
	obs["has"] = has
	for _, i := range farIndices {
		if b.Has(i) {
			obs["err"] = fmt.Sprintf("contains %d", i)
		}
	}
	if fmt.Sprint(intsOf(b)) != fmt.Sprint(obs["bytes"]) {
		obs["err"] = "listing the members changed the field"
	}
	return obs
}

func (u *bitSUT) Do(op string, a walk.Args) map[string]any {
	switch op {
	case "new":
		u.b = bitfield.New(a.Int("n"))
		return observeBits(u.b)
	case "add":
		u.b.Add(a.Int("i"))
		return observeBits(u.b)
	case "read":
		return observeBits(bitfield.Bitfield(bytesOf(a["b"])))
	case "diff":
		// Operands with spare capacity, so that an append would show.
		grow := func(b []byte) bitfield.Bitfield {
			r := make([]byte, len(b), len(b)+8)
			copy(r, b)
			return r
		}
		x, y := grow(bytesOf(a["x"])), grow(bytesOf(a["y"]))
		d := x.Difference(y)
		obs := map[string]any{"err": "ok", "items": append([]int{}, d.Items()...)}
		for i := range len(d) * 8 { // the result is a set of its own
			d.Add(i)
		}
		obs["x"], obs["y"] = intsOf(x), intsOf(y)
		return obs
	}
	panic(op)
}
