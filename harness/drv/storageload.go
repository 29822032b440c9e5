package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"

	"github.com/browles/drip/storage"

	"dripverif/util"
	"dripverif/walk"
)

func init() {
	modes["storage-load"] = storageLoad
	modes["layout"] = layoutMode
}

func storageLoad(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	pl, total := c.Int("pl", 0), c.Int("total", 0)
	root := util.Scratch("load")
	defer os.RemoveAll(root)
	g.Walk(walk.Options{
		Fields: c.FieldSet(),
		Seed:   c.Seed,
		NewSUT: func(w int) walk.SUT {
			t := util.MakeTorrent(c.Seed+int64(w), "torrent", pl, total, layout(c.Str("layout", ""), total))
			return &loadSUT{storageSUT{t: t, root: filepath.Join(root, strconv.Itoa(w)), rng: rand.New(rand.NewSource(c.Seed + int64(w)))}}
		},
	}, res)
}

type loadSUT struct{ storageSUT }

func (u *loadSUT) Reset() {
	if u.n > 0 {
		os.RemoveAll(filepath.Join(u.root, strconv.Itoa(u.n)))
	}
	u.n++
	dir := filepath.Join(u.root, strconv.Itoa(u.n))
	u.target, u.work = filepath.Join(dir, "target"), filepath.Join(dir, "work")
	os.MkdirAll(u.target, 0o755)
	os.MkdirAll(u.work, 0o755)
	u.s = nil
}

func (u *loadSUT) pieceBytes(i int) []byte {
	return u.t.Content[i*u.t.Info.PieceLength:][:u.plen(i)]
}

func (u *loadSUT) mangle(w []any, tgt string) {
	s := storage.New(u.target, u.work, u.t.Clone())
	wd := filepath.Join(u.work, s.Torrent.WorkDir())
	must(os.MkdirAll(wd, 0o755))
	n := len(u.t.Info.Pieces)
	for i, k := range w {
		name := filepath.Join(wd, s.GetPiece(i).FileName())
		data := bytes.Clone(u.pieceBytes(i))
		switch k.(string) {
		case "absent":
			continue
		case "exact":
		case "short1":
			data = data[:len(data)-1]
		case "half":
			data = data[:len(data)/2]
		case "long1":
			data = append(data, 0)
		case "double":
			data = append(data, data...)
		case "flip":
			data[u.rng.Intn(len(data))] ^= 1 << u.rng.Intn(8)
		case "flipend":
			data[len(data)-1] ^= 1
		case "empty":
			data = nil
		case "zeros":
			data = make([]byte, len(data))
		case "other": // a file of the next piece, cut or filled to this length
			o := u.pieceBytes((i + 1) % n)
			data = make([]byte, len(data))
			copy(data, o)
		case "nextpiece": // exactly the file of the next piece
			data = bytes.Clone(u.pieceBytes((i + 1) % n))
		case "misnamed":
			for _, alt := range []string{"0" + s.GetPiece(i).FileName(), s.GetPiece(i).FileName() + "~", "." + s.GetPiece(i).FileName(), s.GetPiece(i).FileName() + "123456", "+" + s.GetPiece(i).FileName()} {
				must(os.WriteFile(filepath.Join(wd, alt), data, 0o644))
			}
			continue
		case "dir":
			must(os.MkdirAll(filepath.Join(name, "x"), 0o755))
			continue
		default:
			panic("unknown kind")
		}
		must(os.WriteFile(name, data, 0o644))
	}
	// Litter that is nobody's piece.
	for _, f := range []string{".DS_Store", "99999.piece", "-1.piece", strconv.Itoa(n) + ".piece", "x", "99999999999999999999.piece"} {
		must(os.WriteFile(filepath.Join(wd, f), u.pieceBytes(0), 0o644))
	}
	must(os.MkdirAll(filepath.Join(u.work, "temp"), 0o755))
	must(os.WriteFile(filepath.Join(u.work, "temp", s.Torrent.WorkDir()+"-"+s.GetPiece(0).FileName()+"1"), u.pieceBytes(0)[:1], 0o644))
	write := func(f func(path string, data []byte) []byte) {
		for p, d := range u.t.Files {
			if d = f(p, d); d != nil {
				full := filepath.Join(u.target, p)
				must(os.MkdirAll(filepath.Dir(full), 0o755))
				must(os.WriteFile(full, d, 0o644))
			}
		}
	}
	biggest := ""
	for p, d := range u.t.Files {
		if biggest == "" || len(d) > len(u.t.Files[biggest]) {
			biggest = p
		}
	}
	mod := func(change func(d []byte) []byte) {
		write(func(p string, d []byte) []byte {
			if p == biggest {
				return change(bytes.Clone(d))
			}
			if d == nil {
				d = []byte{}
			}
			return d
		})
	}
	switch tgt {
	case "absent":
	case "exact":
		mod(func(d []byte) []byte { return d })
	case "flip":
		mod(func(d []byte) []byte { d[u.rng.Intn(len(d))] ^= 4; return d })
	case "short1":
		mod(func(d []byte) []byte { return d[:len(d)-1] })
	case "long1":
		mod(func(d []byte) []byte { return append(d, 1) })
	case "empty":
		mod(func(d []byte) []byte { return []byte{} })
	case "missing": // of a multi-file torrent: one file; of a single-file one: an empty directory
		must(os.MkdirAll(filepath.Join(u.target, u.t.Info.Name), 0o755))
		if len(u.t.Info.Files) > 0 {
			mod(func(d []byte) []byte { return nil })
		}
	case "otherkind": // a file for a directory and the other way round
		if len(u.t.Info.Files) > 0 {
			must(os.WriteFile(filepath.Join(u.target, u.t.Info.Name), u.t.Content, 0o644))
		} else {
			must(os.MkdirAll(filepath.Join(u.target, u.t.Info.Name), 0o755))
			must(os.WriteFile(filepath.Join(u.target, u.t.Info.Name, u.t.Info.Name), u.t.Content, 0o644))
		}
	default:
		panic("unknown target kind " + tgt)
	}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func (u *loadSUT) observeLoad(obs map[string]any) {
	o := map[string]any{"rel": make([]string, len(u.t.Info.Pieces))}
	u.pubOK = false
	u.observe("load", o)
	for _, k := range []string{"bits", "pub"} {
		obs[k] = o[k]
	}
	// The set of pieces that adds up to the reported number, if it is the
	// one in the bitfield.
	sum := int64(0)
	for i, b := range o["bits"].([]int) {
		if b == 1 && i < len(u.t.Info.Pieces) {
			sum += int64(u.plen(i))
		}
	}
	if sum == o["down"].(int64) {
		obs["down"] = o["bits"]
	} else {
		obs["down"] = fmt.Sprintf("%v of %v bytes in verified pieces", o["down"], sum)
	}
}

func (u *loadSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "ok"}
	switch op {
	case "mangle":
		u.mangle(a["w"].([]any), a.Str("tgt"))
		return obs
	case "load":
		obs["err"] = u.load()
		if obs["err"] != "ok" {
			obs["err"] = "error"
		}
	case "get":
		i := a.Int("i")
		for b := 0; b < u.plen(i); b += storage.BLOCK_LENGTH {
			l := min(storage.BLOCK_LENGTH, u.plen(i)-b)
			got, err := u.s.GetBlock(i, b, l)
			switch {
			case err != nil:
				obs["err"] = "error"
			case bytes.Equal(got, u.pieceBytes(i)[b:b+l]):
				obs["err"] = "data"
			default:
				obs["err"] = "wrong data"
			}
			if obs["err"] == "wrong data" {
				break
			}
		}
		return obs
	case "piece":
		obs["err"] = u.putPiece(a.Int("i"))
	case "finish":
		for i := range u.t.Info.Pieces {
			if !u.s.Torrent.Bitfield.Has(i) {
				if e := u.putPiece(i); e != "ok" {
					obs["err"] = e
				}
			}
		}
	default:
		panic("unknown op " + op)
	}
	u.observeLoad(obs)
	return obs
}

func (u *storageSUT) putPiece(i int) string {
	if err := u.putPieceErr(i); err != nil {
		return "error: " + err.Error()
	}
	return "ok"
}

func (u *storageSUT) putPieceErr(i int) error {
	data := u.t.Content[i*u.t.Info.PieceLength:][:u.plen(i)]
	for b := 0; b < len(data); b += storage.BLOCK_LENGTH {
		if err := u.s.PutBlock(i, b, bytes.Clone(data[b:min(len(data), b+storage.BLOCK_LENGTH)])); err != nil {
			return err
		}
	}
	return nil
}

// layoutMode opens torrents of every layout and completes them piece by piece.
func layoutMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	root := util.Scratch("layout")
	defer os.RemoveAll(root)
	g.Walk(walk.Options{
		Fields: c.FieldSet(),
		Seed:   c.Seed,
		NewSUT: func(w int) walk.SUT {
			u := &layoutSUT{seed: c.Seed + int64(w)}
			u.root = filepath.Join(root, strconv.Itoa(w))
			return u
		},
	}, res)
}

type layoutSUT struct {
	storageSUT
	seed int64
}

func (u *layoutSUT) Reset() {
	os.RemoveAll(u.root)
	u.target, u.work = filepath.Join(u.root, "target"), filepath.Join(u.root, "work")
	must(os.MkdirAll(u.target, 0o755))
	must(os.MkdirAll(u.work, 0o755))
	u.s, u.t = nil, nil
}

func shapePath(shape string, j int) []string {
	switch shape {
	case "flat":
		return []string{fmt.Sprintf("f%d", j)}
	case "nested":
		return [][]string{{"a"}, {"d", "b"}, {"d", "e", "c"}, {"d", "e", "d"}}[j%4]
	case "samebase":
		return [][]string{{"x", "f"}, {"y", "f"}, {"f"}, {"x", "x"}}[j%4]
	case "many":
		f := fmt.Sprintf("f%d", j)
		return [][]string{{fmt.Sprintf("d%d", j%7), f}, {f}, {"d", "d", fmt.Sprintf("d%d", j%5), f}}[j%3]
	}
	panic("unknown shape")
}

func ints(v any) []int {
	var r []int
	for _, x := range v.([]any) {
		r = append(r, int(x.(float64)))
	}
	return r
}

func (u *layoutSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "ok"}
	switch op {
	case "open":
		lens := ints(a["lens"])
		total := 0
		for _, l := range lens {
			total += l
		}
		var files []util.FileSpec
		if a.Bool("multi") {
			for j, l := range lens {
				files = append(files, util.FileSpec{Length: l, Path: shapePath(a.Str("shape"), j)})
			}
		}
		u.t = util.MakeTorrent(u.seed, "name", a.Int("pl"), total, files)
		// The expected files are the segments that the specification gives.
		u.t.Files = map[string][]byte{}
		for j, sg := range a["segs"].([]any) {
			seg := ints(sg)
			p := "name"
			if a.Bool("multi") {
				p = filepath.Join(append([]string{"name"}, shapePath(a.Str("shape"), j)...)...)
			}
			u.t.Files[p] = u.t.Content[seg[0] : seg[0]+seg[1]]
		}
		if len(u.t.Info.Pieces) != a.Int("np") {
			panic("harness: pieces")
		}
		obs["err"] = u.load()
		obs["total"] = u.t.Info.GetLength()
		pl := []int{}
		for i := range u.t.Info.Pieces {
			pl = append(pl, u.t.Info.GetPieceLength(i))
		}
		obs["plen"] = pl
	case "piece":
		obs["err"] = u.putPiece(a.Int("i"))
		obs["down"] = u.s.Downloaded()
	case "reads":
		for i := range u.t.Info.Pieces {
			n := u.plen(i)
			for b := 0; b <= n; b++ {
				for l := 1; b+l <= n; l++ {
					if n > 64 && b > 2 && b < n-2 && b%storage.BLOCK_LENGTH > 1 || n > 64 && l > 2 && b+l < n-1 && l%storage.BLOCK_LENGTH > 1 {
						continue
					}
					got, err := u.s.GetBlock(i, b, l)
					if err != nil {
						obs["err"] = fmt.Sprintf("read(%d,%d,%d): %v", i, b, l, err)
						return obs
					}
					off := i*u.t.Info.PieceLength + b
					if !bytes.Equal(got, u.t.Content[off:off+l]) {
						obs["err"] = fmt.Sprintf("read(%d,%d,%d): wrong data", i, b, l)
						return obs
					}
				}
			}
		}
		return obs
	case "reload":
		obs["err"] = u.load()
		bits := make([]int, len(u.t.Info.Pieces))
		for i := range bits {
			if u.s.Torrent.Bitfield.Has(i) {
				bits[i] = 1
			}
		}
		obs["bits"] = bits
	}
	obs["pub"] = u.t.Published(u.target)
	return obs
}
