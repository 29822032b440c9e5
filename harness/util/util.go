// Package util holds what all drivers share: results, deterministic content,
// sample torrents and scratch directories.
package util

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/browles/drip/api/metainfo"
)

// Result is what a driver reports to the runner.
type Result struct {
	Violations []Violation    `json:"violations"`
	Stats      map[string]any `json:"stats"`
	Samples    []any          `json:"samples"`
	mu         sync.Mutex
}

type Violation struct {
	What   string `json:"what"`
	Detail any    `json:"detail"`
}

func (r *Result) Violate(what string, detail any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, Violation{what, detail})
	}
}

func (r *Result) NumViolations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations)
}

func (r *Result) Add(key string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Stats == nil {
		r.Stats = map[string]any{}
	}
	old, _ := r.Stats[key].(int)
	r.Stats[key] = old + n
}

func (r *Result) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, v)
	}
}

func (r *Result) Write(path string) {
	if r.Violations == nil {
		r.Violations = []Violation{}
	}
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

// Guard runs f and turns a panic into an error string.
func Guard(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			// A nil result without an error is drip's fault too.
			_, rt := r.(runtime.Error)
			if !rt && !strings.Contains(string(debug.Stack()), "github.com/browles/drip") {
				panic(r) // not drip's
			}
			panicked = fmt.Sprintf("panic: %v", r)
			if os.Getenv("VERIF_STACK") != "" {
				panicked += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}

// Torrent is a torrent with known content.
type Torrent struct {
	Info    *metainfo.Info
	Content []byte
	// Files maps slash-separated relative paths (from the target directory)
	// to their content.
	Files map[string][]byte
}

type FileSpec struct {
	Length int
	Path   []string
}

// MakeTorrent makes a torrent of total bytes of seeded random content.
func MakeTorrent(seed int64, name string, pl, total int, files []FileSpec) *Torrent {
	rng := rand.New(rand.NewSource(seed))
	content := make([]byte, total)
	rng.Read(content)
	info := &metainfo.Info{PieceLength: pl, Name: name}
	for i := 0; i < total; i += pl {
		info.Pieces = append(info.Pieces, sha1.Sum(content[i:min(i+pl, total)]))
	}
	info.SHA1 = sha1.Sum([]byte(fmt.Sprint(name, seed, pl, total, files)))
	t := &Torrent{Info: info, Content: content, Files: map[string][]byte{}}
	if files == nil {
		info.Length = int64(total)
		t.Files[name] = content
		return t
	}
	off := 0
	for _, f := range files {
		info.Files = append(info.Files, &metainfo.File{Length: int64(f.Length), Path: f.Path})
		t.Files[name+"/"+strings.Join(f.Path, "/")] = content[off : off+f.Length]
		off += f.Length
	}
	if off != total {
		panic("file lengths do not add up")
	}
	return t
}

func (t *Torrent) Clone() *metainfo.Info {
	c := *t.Info
	return &c
}

// Tree lists everything under dir: relative path -> content ("dir" entries end
// with a slash).
func Tree(dir string) map[string]string {
	res := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			res[rel+"/"] = ""
			return nil
		}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			res[rel] = string(b)
		} else {
			res[rel] = "special:" + fi.Mode().String()
		}
		return nil
	})
	return res
}

// Published classifies the content of a target directory: "none", "exact" or
// a description of what is wrong with it.
func (t *Torrent) Published(target string) string {
	tree := Tree(target)
	if len(tree) == 0 {
		return "none"
	}
	want := map[string]string{}
	for p, c := range t.Files {
		want[p] = string(c)
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			want[d+"/"] = ""
		}
	}
	var bad []string
	for p, c := range tree {
		w, ok := want[p]
		if !ok {
			bad = append(bad, "unexpected "+p)
		} else if w != c {
			bad = append(bad, fmt.Sprintf("wrong content of %s (%d bytes, want %d)", p, len(c), len(w)))
		}
	}
	for p := range want {
		if _, ok := tree[p]; !ok {
			bad = append(bad, "missing "+p)
		}
	}
	if len(bad) == 0 {
		return "exact"
	}
	sort.Strings(bad)
	if len(bad) > 5 {
		bad = bad[:5]
	}
	return "other: " + strings.Join(bad, "; ")
}

// Scratch makes a scratch directory that the caller removes.
func Scratch(tag string) string {
	d, err := os.MkdirTemp("", "dripverif-"+tag+"-")
	if err != nil {
		panic(err)
	}
	return d
}

func ReadJSONLines[T any](path string) []T {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var res []T
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		if line[0] == '"' { // CSVWrite quotes strings
			var q string
			if err := json.Unmarshal([]byte(line), &q); err != nil {
				panic(fmt.Sprintf("%v: %s", err, line))
			}
			line = q
		}
		var v T
		if err := json.Unmarshal([]byte(line), &v); err != nil {
			panic(fmt.Sprintf("%v: %s", err, line))
		}
		res = append(res, v)
	}
	return res
}
