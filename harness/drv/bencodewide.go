package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/browles/drip/bencode"

	"dripverif/walk"
)

// wide is a large value: its encoding in parts (elements, or pairs of key and
// value), and what it is as a Go value.
type wide struct {
	head, tail string
	parts      []string
	val        any
	dests      []func() any
}

func wideString(i, n int) string {
	return strings.Repeat(string(rune('a'+i%26)), n)
}

func str(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

// wideKey is the i-th of n keys in the order of their bytes.
func wideKey(i int) string { return fmt.Sprintf("%07d", i*3) }

func makeWide(kind string, n int) *wide {
	w := &wide{head: "l", tail: "e"}
	add := func(s string) { w.parts = append(w.parts, s) }
	to := func(f ...func() any) { w.dests = append(f, func() any { return new(any) }) }
	switch kind {
	case "string":
		w.head, w.tail = "", ""
		s := wideString(n, n)
		add(str(s))
		w.val = s
		to(func() any { return new(string) }, func() any { return new([]byte) }, func() any { return new(*string) })
	case "ints":
		v := []int64{}
		for i := range n {
			x := int64(i)*1e6 - 5e7
			v = append(v, x)
			add(fmt.Sprintf("i%de", x))
		}
		w.val = v
		to(func() any { return new([]int64) }, func() any { return new([]any) }, func() any { return reflect.New(reflect.ArrayOf(n, reflect.TypeFor[int]())).Interface() })
	case "strings":
		v := []string{}
		for i := range n {
			v = append(v, wideString(i, i%300))
			add(str(v[i]))
		}
		w.val = v
		to(func() any { return new([]string) }, func() any { return new([][]byte) }, func() any { return new([]any) })
	case "lists":
		v := [][]string{}
		for i := range n {
			v = append(v, []string{wideString(i, 3)})
			add("l" + str(v[i][0]) + "e")
		}
		w.val = v
		to(func() any { return new([][]string) }, func() any { return new([]any) })
	case "dict":
		w.head = "d"
		v := map[string]int{}
		for i := range n {
			v[wideKey(i)] = i
			add(fmt.Sprintf("%si%de", str(wideKey(i)), i))
		}
		w.val = v
		to(func() any { return new(map[string]int) }, func() any { return new(map[string]any) })
	case "struct":
		w.head = "d"
		var fs []reflect.StructField
		perm := rand.New(rand.NewSource(int64(n))).Perm(n)
		for _, i := range perm {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeFor[string](), Tag: reflect.StructTag(`bencode:"` + wideKey(i) + `"`)})
		}
		t := reflect.StructOf(fs)
		v := reflect.New(t).Elem()
		for k, i := range perm {
			v.Field(k).SetString(wideString(i, i%40))
		}
		for i := range n {
			add(str(wideKey(i)) + str(wideString(i, i%40)))
		}
		w.val = v.Interface()
		to(func() any { return reflect.New(t).Interface() }, func() any { return new(map[string]string) })
	case "keys": // one long key
		w.head = "d"
		k := wideString(n, n)
		add(str(k) + "i7e")
		w.val = map[string]int{k: 7}
		to(func() any { return new(map[string]int) }, func() any { return new(map[string]any) })
	case "deep":
		w.head, w.tail = strings.Repeat("l", n), strings.Repeat("e", n)
		t, v := reflect.TypeFor[int64](), reflect.ValueOf(int64(5))
		add("i5e")
		for range n {
			t = reflect.SliceOf(t)
			l := reflect.MakeSlice(t, 1, 1)
			l.Index(0).Set(v)
			v = l
		}
		w.val = v.Interface()
		to(func() any { return reflect.New(t).Interface() })
	default:
		panic(kind)
	}
	return w
}

func (w *wide) text(fault string, rng *rand.Rand) string {
	parts := append([]string(nil), w.parts...)
	i := 0
	if len(parts) > 1 {
		i = 1 + rng.Intn(len(parts)-1)
	}
	switch fault {
	case "cut":
		s := w.head + strings.Join(parts, "") + w.tail
		return s[:len(s)-1-rng.Intn(min(3, len(s)-1))]
	case "order": // of two keys
		parts[i-1], parts[i] = parts[i], parts[i-1]
	case "twice":
		parts[i] = parts[i-1]
	case "alien":
		parts[i] = "x" + parts[i]
	}
	return w.head + strings.Join(parts, "") + w.tail
}

// doWide decodes a large value, whole or with a fault, into everything that
// can hold it, and encodes it.
func (u *benSUT) doWide(op string, a walk.Args) map[string]any {
	w := makeWide(a.Str("kind"), a.Int("n"))
	if op == "widenc" {
		want := w.text("", u.rng)
		got, err := bencode.Marshal(w.val)
		if err != nil || string(got) != want {
			return map[string]any{"err": fmt.Sprintf("encoded with %d bytes, not %d, or others (%v)", len(got), len(want), err)}
		}
		p := reflect.New(reflect.TypeOf(w.val))
		p.Elem().Set(reflect.ValueOf(w.val))
		var buf bytes.Buffer
		if err := bencode.NewEncoder(&buf).Encode(p.Interface()); err != nil || buf.String() != want {
			return map[string]any{"err": fmt.Sprintf("a pointer is encoded differently (%v)", err)}
		}
		back := reflect.New(reflect.TypeOf(w.val))
		if err := bencode.Unmarshal(got, back.Interface()); err != nil || !reflect.DeepEqual(back.Elem().Interface(), w.val) {
			return map[string]any{"err": fmt.Sprintf("another value comes back (%v)", err)}
		}
		return map[string]any{"err": "ok"}
	}
	in := w.text(a.Str("fault"), u.rng)
	good := a.Str("fault") == ""
	want := view(reflect.ValueOf(w.val))
	for _, mk := range append(w.dests, func() any { return new(bencode.RawMessage) }, func() any { return new(benUnm) }, func() any { return new(struct{ A int }) }) {
		d := mk()
		text := in
		skipped := fmt.Sprintf("%T", d) == "*struct { A int }"
		if skipped {
			text = "d1:A" + in + "1:ai9ee"
		}
		err := u.decode(text, d)
		switch x := d.(type) {
		case *bencode.RawMessage:
			if good && err == nil && string(*x) != in {
				return map[string]any{"err": "passed on with changes"}
			}
		case *benUnm:
			if good && err == nil && x.got != in {
				return map[string]any{"err": "passed on with changes"}
			}
		case *struct{ A int }:
			if good && err == nil && x.A != 9 {
				return map[string]any{"err": "what follows is lost"}
			}
		default:
			if got := view(reflect.ValueOf(d).Elem()); good && err == nil && !reflect.DeepEqual(got, want) {
				return map[string]any{"err": fmt.Sprintf("stored otherwise in a %T", d)}
			}
		}
		if good != (err == nil) {
			return map[string]any{"err": fmt.Sprintf("into a %T: %v", d, err)}
		}
	}
	return map[string]any{"err": "ok"}
}
