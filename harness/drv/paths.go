package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/browles/drip/storage"

	"dripverif/util"
	"dripverif/walk"
)

func init() {
	modes["paths"] = pathsMode
	modes["paths-child"] = pathsChild
}

// pathsMode tries torrents with hostile names. The code under test runs as an
// unprivileged user, several levels below a scratch directory that is the only
// thing this user can write to (but for the temporary directory).
func pathsMode(c *Config, res *util.Result) {
	root := util.Scratch("paths")
	defer os.RemoveAll(root)
	must(os.Chmod(root, 0o755))
	sub := filepath.Join(root, "box")
	must(os.MkdirAll(sub, 0o777))
	must(os.Chmod(sub, 0o777))
	conf, _ := json.Marshal(c)
	cfg := filepath.Join(root, "config.json")
	must(os.WriteFile(cfg, conf, 0o644))
	must(os.Chmod(c.Edges, 0o644))
	bin := filepath.Join(root, "drv")
	self, err := os.ReadFile("/proc/self/exe")
	must(err)
	must(os.WriteFile(bin, self, 0o755))
	out := filepath.Join(sub, "out.json")
	cmd := exec.Command(bin, "paths-child", cfg, out)
	cmd.Dir = sub
	cmd.Env = append(os.Environ(), "HOME="+sub, "TMPDIR="+sub)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	if err := cmd.Run(); err != nil {
		fmt.Fprintln(os.Stderr, "child:", err)
		os.Exit(3)
	}
	b, err := os.ReadFile(out)
	must(err)
	must(json.Unmarshal(b, res))
	for k, v := range res.Stats {
		if f, ok := v.(float64); ok {
			res.Stats[k] = int(f)
		}
	}
}

func pathsChild(c *Config, res *util.Result) {
	if os.Getuid() == 0 {
		panic("harness: still root")
	}
	g := walk.Load(c.Edges, "")
	dir := filepath.Dir(os.Args[3])
	g.Walk(walk.Options{
		Fields: c.FieldSet(),
		Seed:   c.Seed,
		NewSUT: func(w int) walk.SUT {
			return &pathsSUT{root: filepath.Join(dir, fmt.Sprint("w", w))}
		},
	}, res)
}

type pathsSUT struct {
	root string
	n    int
}

func (u *pathsSUT) Reset() {}
func (u *pathsSUT) Close() {}

func comp(v any) string {
	var parts []string
	for _, p := range v.([]any) {
		s := p.(string)
		switch s {
		case "NUL":
			s = "a\x00b"
		case "LONG":
			s = strings.Repeat("n", 200)
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, "/")
}

const pathsTotal = 40

func (u *pathsSUT) Do(op string, a walk.Args) map[string]any {
	u.n++
	base := filepath.Join(u.root, fmt.Sprint(u.n))
	defer os.RemoveAll(base)
	// Five levels of directories with sentinels around target and work.
	lvl := filepath.Join(base, "l1", "l2", "l3", "l4")
	target, work := filepath.Join(lvl, "target"), filepath.Join(lvl, "work")
	must(os.MkdirAll(target, 0o755))
	must(os.MkdirAll(work, 0o755))
	name := comp(a["name"])
	var files []util.FileSpec
	fl, _ := a["files"].([]any)
	for _, f := range fl {
		var path []string
		for _, c := range f.([]any) {
			path = append(path, comp(c))
		}
		files = append(files, util.FileSpec{Length: pathsTotal / len(fl), Path: path})
	}
	t := util.MakeTorrent(int64(u.n), name, 16, pathsTotal, files)
	// Sentinels: things that a hostile name could hit, at every level. Some
	// hold the torrent's own data, so that a read of them would succeed.
	for d := lvl; d != filepath.Dir(base); d = filepath.Dir(d) {
		for i, f := range []string{"a", "x", "victim", "t"} {
			data := []byte("sentinel " + f)
			if i%2 == 1 {
				data = t.Content
			}
			must(os.WriteFile(filepath.Join(d, f), data, 0o644))
		}
	}
	snap := func() map[string]string {
		m := map[string]string{}
		for p, c := range util.Tree(base) {
			if strings.HasPrefix(p, "l1/l2/l3/l4/target/") || strings.HasPrefix(p, "l1/l2/l3/l4/work/") {
				if p != "l1/l2/l3/l4/target/" && p != "l1/l2/l3/l4/work/" {
					continue
				}
			}
			if st, err := os.Lstat(filepath.Join(base, p)); err == nil {
				ino := uint64(0)
				if ss, ok := st.Sys().(*syscall.Stat_t); ok {
					ino = ss.Ino
				}
				m[p] = fmt.Sprint(st.Mode(), ino, " ", c)
			}
		}
		return m
	}
	before := snap()
	obs := map[string]any{}
	obs["load"] = "error"
	read := "" // what was served although nothing was downloaded
	s := storage.New(target, work, t.Clone())
	p := util.Guard(func() {
		if err := s.Load(); err == nil {
			obs["load"] = "ok"
			for i := range t.Info.Pieces {
				if s.Torrent.Bitfield.Has(i) {
					read = "a file outside was taken for the torrent's"
				}
				if _, err := s.GetBlock(i, 0, 1); err == nil {
					read = "a file outside was read"
				}
			}
			for i := range t.Info.Pieces {
				off := i * 16
				end := min(off+16, pathsTotal)
				s.PutBlock(i, 0, bytes.Clone(t.Content[off:end]))
			}
			for i := range t.Info.Pieces {
				s.GetBlock(i, 0, 1)
			}
		}
		// And again as a new process would.
		s2 := storage.New(target, work, t.Clone())
		s2.Load()
	})
	if p != "" {
		obs["load"] = p
	}
	after := snap()
	var diff []string
	for k, v := range before {
		if after[k] != v {
			diff = append(diff, "changed or removed "+k)
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok {
			diff = append(diff, "created "+k)
		}
	}
	sort.Strings(diff)
	if len(diff) > 0 {
		obs["outside"] = strings.Join(diff, ", ")
	} else if read != "" {
		obs["outside"] = read
	} else {
		obs["outside"] = "unchanged"
	}
	if util.Guard(func() { obs["pub"] = t.Published(target) }) != "" {
		obs["pub"] = "?"
	}
	return obs
}
