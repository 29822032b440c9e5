package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/browles/drip/storage"

	"dripverif/util"
)

func init() {
	modes["disk"] = diskMode
	modes["disk-child"] = diskChild
}

// The system calls that change the file system; the child's own log is written
// with pwrite64, which is not among them.
const killCalls = "openat,open,creat,write,writev,copy_file_range,sendfile,splice,rename,renameat,renameat2,unlink,unlinkat,rmdir,mkdir,mkdirat,ftruncate,fallocate,link,linkat,symlink,symlinkat,fchmod,fchmodat,close,fsync"

// Those that may fail, and how.
var failCalls = map[string][]string{
	"openat": {"EIO", "EMFILE"}, "write": {"EIO", "ENOSPC"}, "copy_file_range": {"EIO", "ENOSPC"}, "renameat": {"EIO"}, "rename": {"EIO"}, "renameat2": {"EIO"},
	"unlinkat": {"EIO"}, "mkdirat": {"ENOSPC"}, "mkdir": {"ENOSPC"}, "read": {"EIO"}, "pread64": {"EIO"}, "newfstatat": {"EIO"}, "fstat": {"EIO"}, "close": {"EIO"}, "getdents64": {"EIO"},
	"sendfile": {"EIO"}, "splice": {"EIO"}, "fsync": {"EIO"}, "ftruncate": {"EIO"}, "link": {"EIO"}, "linkat": {"EIO"}, "rmdir": {"EIO"},
}

// A spot is the n-th call of that name of the thread that does the work.
type spot struct {
	name string
	n    int
	err  string // how it fails; "" if the process is killed there
}

func (k spot) String() string {
	if k.name == "" {
		return "-"
	}
	return fmt.Sprintf("%s:%d:%s", k.name, k.n, k.err)
}

// diskMode runs a process that downloads a torrent piece by piece and kills it
// at, or lets fail, its k-th file-system call, for every k; then starts it
// again (and again), and writes down everything seen.
func diskMode(c *Config, res *util.Result) {
	root := util.Scratch("disk")
	defer os.RemoveAll(root)
	self := "/proc/self/exe"
	if p, err := os.Readlink(self); err == nil {
		self = p
	}
	out, err := os.Create(c.Traces)
	must(err)
	defer out.Close()
	var outMu sync.Mutex
	calls := killCalls
	for name := range failCalls {
		if !slices.Contains(strings.Split(calls, ","), name) {
			calls += "," + name
		}
	}

	type plan struct {
		layout string
		order  []int
		at     []spot // for each successive process
	}
	n := (c.Int("total", 0) + c.Int("pl", 1) - 1) / c.Int("pl", 1)
	rng := rand.New(rand.NewSource(c.Seed))
	var id atomic.Int64
	run := func(p plan) (first string) {
		dir := filepath.Join(root, fmt.Sprint(id.Add(1)))
		defer os.RemoveAll(dir)
		must(os.MkdirAll(filepath.Join(dir, "target"), 0o755))
		must(os.MkdirAll(filepath.Join(dir, "work"), 0o755))
		t := diskTorrent(c, p.layout)
		var ev []map[string]any
		for r, k := range append(slices.Clone(p.at), spot{}, spot{}) {
			logf := filepath.Join(dir, fmt.Sprint("log", r))
			cc := *c
			cc.Params = map[string]any{"pl": c.Int("pl", 0), "total": c.Int("total", 0), "layout": p.layout, "dir": dir, "order": p.order, "log": logf, "fault": k.err != ""}
			b, _ := json.Marshal(cc)
			cfg := filepath.Join(dir, "config.json")
			must(os.WriteFile(cfg, b, 0o644))
			childOut := filepath.Join(dir, "out.json")
			os.Remove(childOut)
			st := filepath.Join(dir, fmt.Sprint("strace", r))
			args := []string{"-f", "-qq", "-s", "20", "-e", "signal=none", "-o", st}
			if k.name == "" {
				args = append(args, "-e", "trace="+calls+",pwrite64")
			} else if k.err == "" {
				args = append(args, "-e", "trace="+k.name, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", k.name, k.n))
			} else {
				args = append(args, "-e", "trace="+k.name, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", k.name, k.err, k.n))
			}
			args = append(args, self, "disk-child", cfg, childOut)
			cmd := exec.Command("strace", args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1")
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			cmd.Run()
			lg, err := os.ReadFile(logf)
			if err != nil && k.name == "" {
				res.Add("machinery_errors", 1)
				fmt.Fprintln(os.Stderr, "no log:", err, stderr.String())
				return
			}
			if len(lg) > 0 && (k.name == "" || k.err != "") && !bytes.Contains(lg, []byte(`"k":"exit"`)) {
				if strings.Contains(stderr.String(), "panic: harness") || !strings.Contains(stderr.String(), "github.com/browles/drip/") {
					res.Add("spoiled", 1) // the failing call was not drip's
					return
				}
				// The process died by itself.
				res.Violate("the process ended in the middle of an operation", map[string]any{"at": k.String(), "stderr": stderr.String(), "log": string(lg)})
				return
			}
			ended := false
			for _, line := range strings.Split(string(lg), "\n") {
				if line == "" {
					continue
				}
				var e map[string]any
				if json.Unmarshal([]byte(line), &e) != nil || e["k"] == "end" {
					continue
				}
				ended = e["k"] == "exit"
				ev = append(ev, e)
			}
			if len(lg) > 0 && !ended {
				ev = append(ev, map[string]any{"k": "crash"})
			}
			ev = append(ev, map[string]any{"k": "disk", "pub": t.Published(filepath.Join(dir, "target"))})
			if r == 0 && k.name == "" {
				tr, _ := os.ReadFile(st)
				first = string(tr)
			}
			if k.name != "" && k.err == "" {
				res.Add("crashes", 1)
			} else if k.err != "" {
				res.Add("faults", 1)
			}
		}
		at := []string{}
		for _, k := range p.at {
			at = append(at, k.String())
		}
		b, _ := json.Marshal(map[string]any{"ev": ev, "layout": p.layout, "at": at, "order": p.order})
		outMu.Lock()
		out.Write(append(b, '\n'))
		outMu.Unlock()
		res.Add("histories", 1)
		res.Sample(map[string]any{"at": at, "layout": p.layout, "events": ev})
		return
	}

	jobs := make(chan plan)
	var wg sync.WaitGroup
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for p := range jobs {
				run(p)
			}
		}()
	}
	layouts := []string{"", "multi"}
	if l := c.Str("only", "all"); l != "all" {
		layouts = []string{l}
	}
	for _, lay := range layouts {
		order := rng.Perm(n)
		kills, fails := spots(run(plan{lay, order, nil}))
		// The calls of a process that resumes.
		k2, f2 := spots(run(plan{lay, order[:n-1], nil}))
		_ = k2
		if len(kills) == 0 || len(fails) == 0 {
			res.Add("machinery_errors", 1)
			break
		}
		res.Add("calls", len(kills))
		for i, k := range kills {
			if c.Bool("kills") && i%c.Int("stride", 1) == int(c.Seed)%c.Int("stride", 1) {
				jobs <- plan{lay, order, []spot{k}}
			}
		}
		for i, k := range fails {
			if c.Bool("fails") && i%c.Int("fstride", 1) == int(c.Seed)%c.Int("fstride", 1) {
				jobs <- plan{lay, order, []spot{k}}
			}
		}
		pick := func() spot {
			if c.Bool("fails") && (!c.Bool("kills") || rng.Intn(3) == 0) {
				if rng.Intn(2) == 0 {
					return f2[rng.Intn(len(f2))]
				}
				return fails[rng.Intn(len(fails))]
			}
			return kills[rng.Intn(len(kills))]
		}
		// Crashes of, and faults in, the recovering process too.
		for range c.Int("double", 40) {
			jobs <- plan{lay, rng.Perm(n), []spot{pick(), pick()}}
		}
		for range c.Int("triple", 10) {
			jobs <- plan{lay, rng.Perm(n), []spot{pick(), pick(), pick()}}
		}
	}
	close(jobs)
	wg.Wait()
}

var straceCall = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)`)

// spots gives the calls at which a process like the one traced can be killed,
// and those of its operations that can fail.
func spots(trace string) (kills, fails []spot) {
	per := map[string]int{}
	who := ""
	lines := strings.Split(trace, "\n")
	for _, l := range lines {
		if m := straceCall.FindStringSubmatch(l); m != nil {
			if per[m[1]]++; who == "" || per[m[1]] > per[who] {
				who = m[1]
			}
		}
	}
	count := map[string]int{}
	inOp, started := false, false
	killable := strings.Split(killCalls, ",")
	for _, l := range lines {
		m := straceCall.FindStringSubmatch(l)
		if m == nil || m[1] != who {
			continue
		}
		if m[2] == "pwrite64" {
			started = true
			inOp = !strings.Contains(m[3], `\"end\"`) && (strings.Contains(m[3], `\"start\"`) || strings.Contains(m[3], `\"put\"`) || strings.Contains(m[3], `\"get\"`))
			continue
		}
		count[m[2]]++
		if started && slices.Contains(killable, m[2]) {
			kills = append(kills, spot{m[2], count[m[2]], ""})
		}
		if inOp {
			for _, e := range failCalls[m[2]] {
				fails = append(fails, spot{m[2], count[m[2]], e})
			}
		}
	}
	return
}

func diskTorrent(c *Config, lay string) *util.Torrent {
	return util.MakeTorrent(7, "torrent", c.Int("pl", 0), c.Int("total", 0), layout(lay, c.Int("total", 0)))
}

// published classifies the target directory; the call that fails may be one of
// its own, so that two readings have to agree.
func published(t *util.Torrent, target string) string {
	p := t.Published(target)
	for range 3 {
		q := t.Published(target)
		if p == q {
			break
		}
		p = q
	}
	return p
}

// diskChild is one life of the process.
func diskChild(c *Config, res *util.Result) {
	runtime.LockOSThread()
	dir := c.Str("dir", "")
	t := diskTorrent(c, c.Str("layout", ""))
	lf, err := os.Create(c.Str("log", ""))
	must(err)
	off := int64(0)
	log := func(e map[string]any) {
		b, _ := json.Marshal(e)
		n, err := lf.WriteAt(append(b, '\n'), off) // pwrite64
		must(err)
		off += int64(n)
	}
	log(map[string]any{"k": "start", "fault": c.Bool("fault")})
	target := filepath.Join(dir, "target")
	s := storage.New(target, filepath.Join(dir, "work"), t.Clone())
	err = s.Load()
	log(map[string]any{"k": "end"})
	bits := func() []int {
		b := make([]int, len(t.Info.Pieces))
		for i := range b {
			if s.Torrent.Bitfield.Has(i) {
				b[i] = 1
			}
		}
		return b
	}
	class := func(err error) string {
		switch {
		case err == nil:
			return "ok"
		case errors.Is(err, storage.ErrBlockExists):
			return "exists"
		}
		return "error: " + err.Error()
	}
	log(map[string]any{"k": "load", "err": class(err), "bits": bits(), "down": s.Downloaded(), "pub": published(t, target)})
	if err != nil {
		log(map[string]any{"k": "exit"})
		return
	}
	u := &storageSUT{t: t, s: s}
	get := func(i int) {
		log(map[string]any{"k": "get", "i": i})
		o := "error"
		for range 2 { // the first may be the one that fails
			data, err := s.GetBlock(i, 0, u.plen(i))
			if err == nil && bytes.Equal(data, t.Content[i*t.Info.PieceLength:][:u.plen(i)]) {
				o = "data"
				break
			} else if err == nil {
				o = "wrong data"
				break
			}
		}
		log(map[string]any{"k": "end"})
		log(map[string]any{"k": "got", "err": o})
	}
	for _, x := range c.Params["order"].([]any) {
		i := int(x.(float64))
		for range 2 {
			if s.Torrent.Bitfield.Has(i) {
				break
			}
			log(map[string]any{"k": "put", "i": i})
			s.ResetPiece(i)
			err := u.putPieceErr(i)
			log(map[string]any{"k": "end"})
			log(map[string]any{"k": "ret", "err": class(err), "bits": bits(), "down": s.Downloaded()})
		}
		get(i)
	}
	for i := range t.Info.Pieces {
		get(i)
	}
	log(map[string]any{"k": "exit"})
}
