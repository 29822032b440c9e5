package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/browles/drip/bencode"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["bencode"] = bencodeMode }

func bencodeMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, `"s"`)
	g.Walk(walk.Options{Fields: c.FieldSet(), Seed: c.Seed, Workers: c.Int("workers", 0), OpTimeout: 30 * time.Second,
		NewSUT: func(w int) walk.SUT { return &benSUT{rng: rand.New(rand.NewSource(c.Seed + int64(w)))} }}, res)
}

type benSUT struct{ rng *rand.Rand }

func (u *benSUT) Reset() {}
func (u *benSUT) Close() {}

type benStruct struct {
	E  []string `bencode:"e"`
	Aa any
	A  int `bencode:"a"`
	x  int
}

type benRec struct {
	A *benRec   `bencode:"a"`
	L []*benRec `bencode:"l"`
}

type benUnm struct{ got string }

func (u *benUnm) UnmarshalBencoding(b []byte) error { u.got = string(b); return nil }

// dests makes a new destination of each type.
var dests = map[string]func() any{
	"any":     func() any { return new(any) },
	"ptr":     func() any { return new(**any) },
	"int":     func() any { return new(int) },
	"uint":    func() any { return new(uint64) },
	"string":  func() any { return new(string) },
	"bytes":   func() any { return new([]byte) },
	"anys":    func() any { return new([]any) },
	"ints":    func() any { return new([]int64) },
	"lists":   func() any { return new([][]any) },
	"map":     func() any { return new(map[string]any) },
	"mapint":  func() any { return new(map[string]int) },
	"maplist": func() any { return new(map[string][]any) },
	"struct":  func() any { return new(benStruct) },
}

var rawDests = map[string]func() any{
	"raw": func() any { return new(bencode.RawMessage) },
	"unm": func() any { return new(benUnm) },
}

// view gives a Go value in the vocabulary of the specification.
func view(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return map[string]any{"nil": true}
		}
		return view(v.Elem())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return map[string]any{"i": strconv.FormatInt(v.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return map[string]any{"i": strconv.FormatUint(v.Uint(), 10)}
	case reflect.String:
		return map[string]any{"s": v.String()}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return map[string]any{"nil": true}
		}
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return map[string]any{"s": string(v.Bytes())}
		}
		l := []any{}
		for i := range v.Len() {
			l = append(l, view(v.Index(i)))
		}
		return map[string]any{"l": l}
	case reflect.Map:
		if v.IsNil() {
			return map[string]any{"nil": true}
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		d := []any{}
		for _, k := range keys {
			d = append(d, []any{k.String(), view(v.MapIndex(k))})
		}
		return map[string]any{"d": d}
	case reflect.Struct:
		d := []any{}
		var names []string
		f := map[string]any{}
		for i := range v.NumField() {
			if sf := v.Type().Field(i); sf.IsExported() {
				n, _, _ := strings.Cut(sf.Tag.Get("bencode"), ",")
				if n == "" {
					n = strings.ToLower(sf.Name)
				}
				names = append(names, n)
				f[n] = view(v.Field(i))
			}
		}
		sort.Strings(names)
		for _, n := range names {
			d = append(d, []any{n, f[n]})
		}
		return map[string]any{"d": d}
	}
	return fmt.Sprint("?", v.Kind())
}

func (u *benSUT) decode(txt string, dest any) error {
	switch u.rng.Intn(4) {
	case 0:
		return bencode.NewDecoder(iotest.OneByteReader(strings.NewReader(txt))).Decode(dest)
	case 1:
		return bencode.NewDecoder(iotest.DataErrReader(strings.NewReader(txt))).Decode(dest)
	default:
		return bencode.Unmarshal([]byte(txt), dest)
	}
}

func (u *benSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "ok"}
	fail := func(f string, args ...any) { obs["err"] = fmt.Sprintf(f, args...) }
	switch op {
	case "bad":
		in := a.Str("txt")
		for name, mk := range dests {
			if d := mk(); u.decode(in, d) == nil {
				fail("%q accepted as %s: %v", in, name, d)
			}
		}
		for name, mk := range rawDests {
			if u.decode(in, mk()) == nil {
				fail("%q accepted as %s", in, name)
			}
		}
		if a.Bool("wrap") {
			for name, w := range wraps(in) {
				if u.decode(w.txt, w.dest) == nil {
					fail("%q accepted as %s", w.txt, name)
				}
			}
		}
	case "good":
		in := a.Str("txt")
		fits := map[string]any{}
		for name, mk := range dests {
			d := mk()
			if err := u.decode(in+a.Str("more"), d); err != nil {
				fits[name] = map[string]any{"no": true}
			} else {
				fits[name] = view(reflect.ValueOf(d).Elem())
			}
		}
		obs["fits"] = fits
		raw := new(bencode.RawMessage)
		if err := u.decode(in+a.Str("more"), raw); err != nil || string(*raw) != in {
			fail("%q passed on as %q (%v)", in, *raw, err)
		}
		unm := new(benUnm)
		if err := u.decode(in+a.Str("more"), unm); err != nil || unm.got != in {
			fail("%q passed on as %q (%v)", in, unm.got, err)
		}
		for name, w := range wraps(in) {
			if err := u.decode(w.txt, w.dest); err != nil {
				fail("%q as %s: %v", w.txt, name, err)
			} else if w.raw != nil && w.raw() != in {
				fail("%q as %s: %q passed on", w.txt, name, w.raw())
			} else if w.view != nil {
				var v any
				bencode.Unmarshal([]byte(in), &v)
				if want := view(reflect.ValueOf(&v).Elem()); !reflect.DeepEqual(w.view(), want) {
					fail("%q as %s: %v, not %v", w.txt, name, w.view(), want)
				}
			}
		}
	case "int":
		obs["err"] = u.intInto(a.Str("n"), a.Str("k"), a.Str("ctx"))
	case "deep":
		n, shape := a.Int("n"), a.Str("shape")
		open, close := strings.Repeat("l", n), strings.Repeat("e", n)
		switch shape {
		case "dict":
			open = strings.Repeat("d1:a", n-1) + "d"
		case "mixed":
			open = strings.Repeat("d1:ll", (n+1)/2)
			close = strings.Repeat("ee", (n+1)/2)
		}
		in := open + close
		if a.Bool("open") {
			in = open
		}
		obs["err"], obs["bounded"] = u.measured(in, a.Str("dest"))
	case "length":
		in := a.Str("n") + ":abc"
		switch a.Str("at") {
		case "list":
			in = "l" + in + "e"
		case "key":
			in = "d" + in + "i1ee"
		case "value":
			in = "d1:a" + in + "e"
		}
		obs["err"], obs["bounded"] = u.measured(in, a.Str("dest"))
	case "many":
		n := 30000
		var b strings.Builder
		switch a.Str("kind") {
		case "ints":
			b.WriteString("l" + strings.Repeat("i1e", n) + "e")
		case "strings":
			b.WriteString("l" + strings.Repeat("1:a", n) + "e")
		case "empties":
			b.WriteString("l" + strings.Repeat("le", n) + "e")
		case "keys":
			b.WriteString("d")
			for i := range n {
				fmt.Fprintf(&b, "6:%06di1e", i)
			}
			b.WriteString("e")
		case "digits":
			b.WriteString("i" + strings.Repeat("1", n) + "e")
		case "lendigits":
			b.WriteString(strings.Repeat("1", n) + ":a")
		}
		_, obs["bounded"] = u.measured(b.String(), a.Str("dest"))
	case "wide", "widenc":
		return u.doWide(op, a)
	default:
		panic(op)
	}
	return obs
}

type wrapped struct {
	txt  string
	dest any
	raw  func() string
	view func() any
}

// wraps puts a value into larger ones where it is skipped, passed on or stored.
func wraps(in string) map[string]wrapped {
	type skip struct {
		B int `bencode:"b"`
	}
	type keep struct {
		A bencode.RawMessage `bencode:"a"`
	}
	type arr [0]any
	k, l, m, one := new(keep), new([]bencode.RawMessage), new(map[string]bencode.RawMessage), new([1]any)
	anyList, anyMap := new(any), new(any)
	return map[string]wrapped{
		"skipped":          {"d1:a" + in + "1:bi7ee", new(skip), nil, nil},
		"tossed":           {"l" + in + "e", new(arr), nil, nil},
		"raw field":        {"d1:a" + in + "e", k, func() string { return string(k.A) }, nil},
		"raw elements":     {"l" + in + "e", l, func() string { return string((*l)[0]) }, nil},
		"raw values":       {"d1:a" + in + "e", m, func() string { return string((*m)["a"]) }, nil},
		"array":            {"l" + in + "e", one, nil, func() any { return view(reflect.ValueOf(one).Elem().Index(0)) }},
		"element":          {"l" + in + "e", anyList, nil, func() any { return view(reflect.ValueOf((*anyList).([]any)[0])) }},
		"value of any":     {"d1:a" + in + "e", anyMap, nil, func() any { return view(reflect.ValueOf((*anyMap).(map[string]any)["a"])) }},
		"nested, skipped":  {"d1:ald1:x" + in + "eee", new(skip), nil, nil},
		"nested, past end": {"li1eld1:x" + in + "eee", new([1]int), nil, nil},
	}
}

func (u *benSUT) intInto(n, kind, ctx string) string {
	types := map[string]reflect.Type{"int8": reflect.TypeFor[int8](), "int16": reflect.TypeFor[int16](), "int32": reflect.TypeFor[int32](), "int64": reflect.TypeFor[int64](), "int": reflect.TypeFor[int](),
		"uint8": reflect.TypeFor[uint8](), "uint16": reflect.TypeFor[uint16](), "uint32": reflect.TypeFor[uint32](), "uint64": reflect.TypeFor[uint64](), "uint": reflect.TypeFor[uint](), "any": reflect.TypeFor[any](), "raw": reflect.TypeFor[bencode.RawMessage]()}
	t := types[kind]
	in := "i" + n + "e"
	var dest reflect.Value
	var get func() reflect.Value
	switch ctx {
	case "top", "raw":
		dest = reflect.New(t)
		get = func() reflect.Value { return dest.Elem() }
	case "list":
		if kind == "uint8" {
			return u.intInto(n, kind, "top") // a list of bytes is a string
		}
		in = "l" + in + "e"
		dest = reflect.New(reflect.SliceOf(t))
		get = func() reflect.Value { return dest.Elem().Index(0) }
	case "array":
		in = "l" + in + "e"
		dest = reflect.New(reflect.ArrayOf(1, t))
		get = func() reflect.Value { return dest.Elem().Index(0) }
	case "map":
		in = "d1:a" + in + "e"
		dest = reflect.New(reflect.MapOf(reflect.TypeFor[string](), t))
		get = func() reflect.Value { return dest.Elem().MapIndex(reflect.ValueOf("a")) }
	case "struct":
		in = "d1:a" + in + "e"
		dest = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: `bencode:"a"`}}))
		get = func() reflect.Value { return dest.Elem().Field(0) }
	case "ptr":
		dest = reflect.New(reflect.PointerTo(t))
		get = func() reflect.Value { return dest.Elem().Elem() }
	case "skip":
		in = "d1:z" + in + "e"
		dest = reflect.New(reflect.TypeFor[struct{ A int }]())
		get = func() reflect.Value { return reflect.ValueOf(bencode.RawMessage("i" + n + "e")) }
	}
	if err := u.decode(in, dest.Interface()); err != nil {
		return "error"
	}
	got := get()
	if kind == "raw" {
		if string(got.Bytes()) != "i"+n+"e" {
			return fmt.Sprintf("%q passed on", got.Bytes())
		}
		return "ok"
	}
	if v := view(got); !reflect.DeepEqual(v, map[string]any{"i": n}) {
		return fmt.Sprintf("stored as %v", v)
	}
	return "ok"
}

// measured decodes into a destination and tells whether the memory used is in
// proportion to the input.
func (u *benSUT) measured(in, dest string) (string, bool) {
	var d any
	switch dest {
	case "raw":
		d = new(bencode.RawMessage)
	case "skip":
		in = "d1:z" + in + "e"
		d = new(struct{ A int })
	case "rec":
		d = new(benRec)
	default:
		d = dests[dest]()
	}
	b := []byte(in)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	err := bencode.Unmarshal(b, d)
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	bounded := used < 1<<20+400*uint64(len(in))
	if err != nil {
		return "error", bounded
	}
	return "ok", bounded
}
