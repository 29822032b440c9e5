package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/browles/drip/bencode"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["bencode-enc"] = bencodeEncMode }

func bencodeEncMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, `"s"`)
	g.Walk(walk.Options{Fields: c.FieldSet(), Seed: c.Seed, OpTimeout: 30 * time.Second,
		NewSUT: func(w int) walk.SUT { return &encSUT{rng: rand.New(rand.NewSource(c.Seed + int64(w)))} }}, res)
}

type encSUT struct{ rng *rand.Rand }

func (u *encSUT) Reset() {}
func (u *encSUT) Close() {}

type (
	encInt    int
	encString string
	encBytes  []byte
	encKey    string
	encMval   int
	encMptr   int
)

func (m encMval) MarshalBencoding() ([]byte, error)  { return encM(int(m)), nil }
func (m *encMptr) MarshalBencoding() ([]byte, error) { return encM(int(*m)), nil }
func (m *encMval) UnmarshalBencoding(b []byte) error { n, err := encU(b); *m = encMval(n); return err }
func (m *encMptr) UnmarshalBencoding(b []byte) error { n, err := encU(b); *m = encMptr(n); return err }

func encM(n int) []byte {
	s := "m" + strconv.Itoa(n)
	return []byte(fmt.Sprintf("%d:%s", len(s), s))
}

func encU(b []byte) (int, error) {
	_, s, ok := strings.Cut(string(b), ":m")
	if !ok {
		return 0, errors.New("not an m string: " + string(b))
	}
	return strconv.Atoi(s)
}

var encTypes sync.Map

// encLocals has declared types that are used in place of some struct types:
// different ones, all with the same name.
var encLocals = func() map[reflect.Type]reflect.Type {
	m := map[reflect.Type]reflect.Type{}
	add := func(t reflect.Type) {
		var fs []reflect.StructField
		for i := range t.NumField() {
			f := t.Field(i)
			fs = append(fs, reflect.StructField{Name: f.Name, Type: f.Type, Tag: f.Tag})
		}
		m[reflect.StructOf(fs)] = t
	}
	{
		type local struct{}
		add(reflect.TypeFor[local]())
	}
	{
		type local struct {
			F0 int `bencode:"a"`
		}
		add(reflect.TypeFor[local]())
	}
	{
		type local struct {
			F0 int `bencode:"a,omitempty"`
		}
		add(reflect.TypeFor[local]())
	}
	{
		type local struct{ Aa int }
		add(reflect.TypeFor[local]())
	}
	{
		type local struct {
			F0 string `bencode:"a"`
		}
		add(reflect.TypeFor[local]())
	}
	{
		type local struct {
			F0 string `bencode:"b"`
			A  int
		}
		add(reflect.TypeFor[local]())
	}
	{
		type local struct {
			F0 int `bencode:"a"`
			F1 int `bencode:"b"`
		}
		add(reflect.TypeFor[local]())
	}
	{
		type local struct {
			F0 int `bencode:"b"`
			F1 int `bencode:"a"`
		}
		add(reflect.TypeFor[local]())
	}
	{
		type local struct {
			F0 string `bencode:"a,omitempty"`
			F1 string `bencode:"b"`
		}
		add(reflect.TypeFor[local]())
	}
	return m
}()

// encType makes the Go type a description stands for.
func encType(t map[string]any) reflect.Type {
	j, _ := json.Marshal(t)
	if rt, ok := encTypes.Load(string(j)); ok {
		return rt.(reflect.Type)
	}
	of := func() reflect.Type { return encType(t["of"].(map[string]any)) }
	var rt reflect.Type
	switch k := t["k"].(string); k {
	case "int8":
		rt = reflect.TypeFor[int8]()
	case "int16":
		rt = reflect.TypeFor[int16]()
	case "int32":
		rt = reflect.TypeFor[int32]()
	case "int64":
		rt = reflect.TypeFor[int64]()
	case "int":
		rt = reflect.TypeFor[int]()
	case "nint":
		rt = reflect.TypeFor[encInt]()
	case "uint8":
		rt = reflect.TypeFor[uint8]()
	case "uint16":
		rt = reflect.TypeFor[uint16]()
	case "uint32":
		rt = reflect.TypeFor[uint32]()
	case "uint64":
		rt = reflect.TypeFor[uint64]()
	case "uint":
		rt = reflect.TypeFor[uint]()
	case "string":
		rt = reflect.TypeFor[string]()
	case "nstring":
		rt = reflect.TypeFor[encString]()
	case "bytes":
		rt = reflect.TypeFor[[]byte]()
	case "nbytes":
		rt = reflect.TypeFor[encBytes]()
	case "mval":
		rt = reflect.TypeFor[encMval]()
	case "mptr":
		rt = reflect.TypeFor[encMptr]()
	case "any":
		rt = reflect.TypeFor[any]()
	case "list":
		rt = reflect.SliceOf(of())
	case "arr":
		rt = reflect.ArrayOf(int(t["n"].(float64)), of())
	case "map":
		rt = reflect.MapOf(reflect.TypeFor[string](), of())
	case "nmap":
		rt = reflect.MapOf(reflect.TypeFor[encKey](), of())
	case "ptr":
		rt = reflect.PointerTo(of())
	case "struct":
		var fs []reflect.StructField
		for i, f0 := range t["f"].([]any) {
			f := f0.(map[string]any)
			sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: encType(f["t"].(map[string]any))}
			key := unhash(f["key"].(string))
			opt := ""
			if f["omit"].(bool) {
				opt = ",omitempty"
			}
			switch {
			case f["emb"].(bool):
				sf.Anonymous, sf.Name = true, fmt.Sprintf("E%d", i)
			case f["tag"].(bool):
				sf.Tag = reflect.StructTag(fmt.Sprintf("bencode:%q", key+opt))
			default:
				sf.Name = strings.ToUpper(key[:1]) + key[1:]
				if opt != "" {
					sf.Tag = reflect.StructTag(fmt.Sprintf("bencode:%q", opt))
				}
			}
			fs = append(fs, sf)
		}
		rt = reflect.StructOf(fs)
		if named, ok := encLocals[rt]; ok {
			rt = named
		}
	default:
		panic(k)
	}
	encTypes.Store(string(j), rt)
	return rt
}

func unhash(s string) string { return strings.ReplaceAll(s, "#", "\xff") }
func rehash(s string) string { return strings.ReplaceAll(s, "\xff", "#") }

func encSet(dst reflect.Value, t map[string]any, v map[string]any) {
	if _, ok := v["nil"]; ok {
		return
	}
	of := func() map[string]any { return t["of"].(map[string]any) }
	switch dst.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(v["i"].(string), 10, 64)
		must(err)
		dst.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(v["i"].(string), 10, 64)
		must(err)
		dst.SetUint(n)
	case reflect.String:
		dst.SetString(unhash(v["s"].(string)))
	case reflect.Slice:
		if dst.Type().Elem().Kind() == reflect.Uint8 {
			dst.SetBytes([]byte(unhash(v["s"].(string))))
			return
		}
		l := v["l"].([]any)
		dst.Set(reflect.MakeSlice(dst.Type(), len(l), len(l)))
		for i, e := range l {
			encSet(dst.Index(i), of(), e.(map[string]any))
		}
	case reflect.Array:
		for i, e := range v["l"].([]any) {
			encSet(dst.Index(i), of(), e.(map[string]any))
		}
	case reflect.Map:
		dst.Set(reflect.MakeMap(dst.Type()))
		for _, e := range v["m"].([]any) {
			k := reflect.New(dst.Type().Key()).Elem()
			k.SetString(unhash(e.([]any)[0].(string)))
			x := reflect.New(dst.Type().Elem()).Elem()
			encSet(x, of(), e.([]any)[1].(map[string]any))
			dst.SetMapIndex(k, x)
		}
	case reflect.Pointer:
		dst.Set(reflect.New(dst.Type().Elem()))
		encSet(dst.Elem(), of(), v["p"].(map[string]any))
	case reflect.Interface:
		it := v["t"].(map[string]any)
		x := reflect.New(encType(it)).Elem()
		encSet(x, it, v["p"].(map[string]any))
		dst.Set(x)
	case reflect.Struct:
		fs := t["f"].([]any)
		for i, e := range v["f"].([]any) {
			encSet(dst.Field(i), fs[i].(map[string]any)["t"].(map[string]any), e.(map[string]any))
		}
	default:
		panic(dst.Kind())
	}
}

// encView describes a decoded value: structs field by field.
func encView(v reflect.Value) any {
	null := map[string]any{"nil": true}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return null
		}
		return encView(v.Elem())
	case reflect.String:
		return map[string]any{"s": rehash(v.String())}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return null
		}
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return map[string]any{"s": rehash(string(v.Bytes()))}
		}
		l := []any{}
		for i := range v.Len() {
			l = append(l, encView(v.Index(i)))
		}
		return map[string]any{"l": l}
	case reflect.Map:
		if v.IsNil() {
			return null
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		d := []any{}
		for _, k := range keys {
			d = append(d, []any{rehash(k.String()), encView(v.MapIndex(k))})
		}
		return map[string]any{"d": d}
	case reflect.Struct:
		f := []any{}
		for i := range v.NumField() {
			f = append(f, encView(v.Field(i)))
		}
		return map[string]any{"f": f}
	}
	return view(v)
}

func (u *encSUT) Do(op string, a walk.Args) map[string]any {
	t, desc := a["t"].(map[string]any), a["v"].(map[string]any)
	rt := encType(t)
	ptr := reflect.New(rt)
	encSet(ptr.Elem(), t, desc)
	val := ptr.Elem().Interface()
	b, err := bencode.Marshal(val)
	if err != nil {
		return map[string]any{"err": "error"}
	}
	obs := map[string]any{"err": "ok", "txt": rehash(string(b))}
	fail := func(f string, args ...any) map[string]any {
		obs["err"] = fmt.Sprintf(f, args...)
		return obs
	}
	// Equal values have equal encodings, whatever way they are passed.
	again := reflect.New(rt)
	encSet(again.Elem(), t, desc)
	for i, x := range []any{again.Interface(), again.Elem().Interface(), val} {
		if b2, err := bencode.Marshal(x); err != nil || !bytes.Equal(b, b2) {
			return fail("encoded again (%d) as %q, %v", i, b2, err)
		}
	}
	dest := reflect.New(rt)
	if err := bencode.Unmarshal(b, dest.Interface()); err != nil {
		return fail("its encoding %q is refused: %v", b, err)
	}
	obs["back"] = encView(dest.Elem())
	if b2, err := bencode.Marshal(dest.Interface()); reflect.DeepEqual(encView(dest.Elem()), encView(ptr.Elem())) && (err != nil || !bytes.Equal(b, b2)) {
		return fail("the decoded value is encoded as %q, %v", b2, err)
	}
	// A sequence of values on one stream.
	var buf bytes.Buffer
	enc := bencode.NewEncoder(&buf)
	n := 2 + u.rng.Intn(2)
	for range n {
		if err := enc.Encode(val); err != nil {
			return fail("encoding again: %v", err)
		}
	}
	if want := bytes.Repeat(b, n); !bytes.Equal(buf.Bytes(), want) {
		return fail("%d times on a stream: %q", n, buf.Bytes())
	}
	dec := bencode.NewDecoder(&buf)
	for i := range n {
		d := reflect.New(rt)
		if err := dec.Decode(d.Interface()); err != nil || !reflect.DeepEqual(encView(d.Elem()), obs["back"]) {
			return fail("value %d of the stream: %v, %v", i, d.Elem(), err)
		}
	}
	return obs
}
