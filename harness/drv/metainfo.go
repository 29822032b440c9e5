package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/bencode"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["metainfo"] = metainfoMode }

func metainfoMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, `"s"`)
	g.Walk(walk.Options{Fields: c.FieldSet(), Seed: c.Seed,
		NewSUT: func(w int) walk.SUT { return &miSUT{rand.New(rand.NewSource(c.Seed + int64(w)))} }}, res)
}

type miSUT struct{ rng *rand.Rand }

func (*miSUT) Reset() {}
func (*miSUT) Close() {}

func (u *miSUT) parse(txt string) (*metainfo.Metainfo, error) {
	mi := new(metainfo.Metainfo)
	var err error
	switch u.rng.Intn(4) {
	case 0:
		err = bencode.NewDecoder(iotest.OneByteReader(strings.NewReader(txt))).Decode(mi)
	case 1:
		err = bencode.NewDecoder(iotest.DataErrReader(strings.NewReader(txt))).Decode(&mi)
	default:
		err = bencode.Unmarshal([]byte(txt), mi)
	}
	return mi, err
}

func miView(mi *metainfo.Metainfo) map[string]any {
	i := mi.Info
	pieces := []any{}
	for _, h := range i.Pieces {
		pieces = append(pieces, rehash(string(h[:])))
	}
	files := []any{}
	for _, f := range i.Files {
		path := []any{}
		for _, p := range f.Path {
			path = append(path, rehash(p))
		}
		files = append(files, map[string]any{"len": strconv.FormatInt(f.Length, 10), "md5": rehash(f.MD5Sum), "path": path})
	}
	al := []any{}
	for _, t := range mi.AnnounceList {
		tier := []any{}
		for _, u := range t {
			tier = append(tier, rehash(u))
		}
		al = append(al, tier)
	}
	date := "none"
	if mi.CreationDate != nil {
		date = strconv.FormatInt(mi.CreationDate.Unix(), 10)
	}
	return map[string]any{"pl": strconv.Itoa(i.PieceLength), "pieces": pieces, "name": rehash(i.Name), "length": strconv.FormatInt(i.Length, 10), "md5": rehash(i.MD5Sum),
		"private": strconv.Itoa(i.Private), "files": files, "announce": rehash(mi.Announce), "al": al, "date": date, "comment": rehash(mi.Comment), "by": rehash(mi.CreatedBy), "enc": rehash(mi.Encoding)}
}

func (u *miSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "ok"}
	fail := func(f string, args ...any) map[string]any {
		obs["err"] = fmt.Sprintf(f, args...)
		return obs
	}
	switch op {
	case "parse":
		txt, info := unhash(a.Str("txt")), unhash(a.Str("info"))
		mi, err := u.parse(txt)
		if err != nil {
			return map[string]any{"err": "error"}
		}
		if mi.Info == nil {
			return fail("no info")
		}
		if want := sha1.Sum([]byte(info)); mi.Info.SHA1 != want {
			return fail("info hash %x, not %x", mi.Info.SHA1, want)
		}
		obs["read"] = miView(mi)
		// What is written for it reads back as the same.
		b, err := bencode.Marshal(mi)
		if err != nil {
			return fail("cannot be written: %v", err)
		}
		back, err := u.parse(string(b))
		if err != nil || !reflect.DeepEqual(miView(back), obs["read"]) {
			return fail("written as %q, which reads as %v (%v)", b, back, err)
		}
		bi, err := bencode.Marshal(mi.Info)
		if err != nil || !bytes.Contains(b, append([]byte("4:info"), bi...)) || back.Info.SHA1 != sha1.Sum(bi) {
			return fail("info written as %q (%v), info hash read back %x", bi, err, back.Info.SHA1)
		}
		obs["again"] = "changed"
		if !a.Bool("plain") || string(b) == txt && back.Info.SHA1 == mi.Info.SHA1 {
			obs["again"] = "same"
		}
	case "geometry":
		unit := int64(a.Int("unit"))
		info := &metainfo.Info{Name: "x", PieceLength: a.Int("pl") * int(unit), Pieces: make(metainfo.Pieces, a.Int("np"))}
		for i, l := range a["lens"].([]any) {
			n := int64(l.(float64)) * unit
			if a.Bool("multi") {
				info.Files = append(info.Files, &metainfo.File{Length: n, Path: []string{strconv.Itoa(i)}})
			} else {
				info.Length = n
			}
		}
		b, err := bencode.Marshal(info)
		if err != nil {
			return fail("%v", err)
		}
		info = new(metainfo.Info)
		if err := bencode.Unmarshal(b, info); err != nil {
			return fail("%v", err)
		}
		lens := []any{}
		for k := range info.Pieces {
			n := int64(info.GetPieceLength(k))
			if n%unit != 0 {
				return fail("piece %d has %d bytes", k, n)
			}
			lens = append(lens, n/unit)
		}
		obs["lens"] = lens
		if t := info.GetLength(); t%unit != 0 {
			return fail("length %d", t)
		} else {
			obs["total"] = t / unit
		}
		delete(obs, "err")
	default:
		panic(op)
	}
	return obs
}
