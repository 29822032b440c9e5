package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"syscall"
	"testing/iotest"

	"github.com/browles/drip/api/peer"
	"github.com/browles/drip/bitfield"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["wire"] = wireMode }

func wireMode(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	g.Walk(walk.Options{
		Fields:  c.FieldSet(),
		Seed:    c.Seed,
		Workers: c.Int("workers", 0),
		NewSUT: func(w int) walk.SUT {
			return &wireSUT{rng: rand.New(rand.NewSource(c.Seed + int64(w))), alloc: c.Int("workers", 0) == 1}
		},
	}, res)
}

type wireSUT struct {
	rng   *rand.Rand
	buf   bytes.Buffer
	alloc bool
}

func (u *wireSUT) Reset() { u.buf.Reset() }
func (u *wireSUT) Close() {}

func bytesOf(v any) []byte {
	var b []byte
	for _, x := range v.([]any) {
		b = append(b, byte(x.(float64)))
	}
	return b
}

func runs(v any) []byte {
	b := []byte{}
	for _, r := range v.([]any) {
		q := r.([]any)
		b = append(b, bytes.Repeat([]byte{byte(q[0].(float64))}, int(q[1].(float64)))...)
	}
	return b
}

func u32(v any) int { return int(binary.BigEndian.Uint32(bytesOf(v))) }

func makeMsg(m map[string]any) *peer.Message {
	switch int(m["type"].(float64)) {
	case -1:
		return peer.Keepalive()
	case 0:
		return peer.Choke()
	case 1:
		return peer.Unchoke()
	case 2:
		return peer.Interested()
	case 3:
		return peer.NotInterested()
	case 4:
		return peer.Have(u32(m["index"]))
	case 5:
		return peer.Bitfield(bitfield.Bitfield(runs(m["payload"])))
	case 6:
		return peer.Request(u32(m["index"]), u32(m["begin"]), u32(m["length"]))
	case 7:
		return peer.Piece(u32(m["index"]), u32(m["begin"]), runs(m["payload"]))
	case 8:
		return peer.Cancel(u32(m["index"]), u32(m["begin"]), u32(m["length"]))
	}
	panic("unknown message")
}

// describe gives a message in the vocabulary of the specification. Its payload
// is compared with that of want, if there is one, and then given as want's.
func describe(m *peer.Message) map[string]any {
	q := func(x int) []int {
		if x < 0 || x > 1<<32-1 {
			return []int{x}
		}
		return []int{x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255}
	}
	zero := []int{0, 0, 0, 0}
	d := map[string]any{"type": int(m.Type), "index": zero, "begin": zero, "length": zero, "payload": [][]int{}}
	pay := func(b []byte) {
		r := [][]int{}
		for _, x := range b {
			if n := len(r); n > 0 && r[n-1][0] == int(x) && len(b) > 64 {
				r[n-1][1]++
			} else {
				r = append(r, []int{int(x), 1})
			}
		}
		d["payload"] = r
	}
	switch m.Type {
	case peer.HAVE:
		d["index"] = q(m.Index())
	case peer.BITFIELD:
		pay(m.Bitfield())
	case peer.REQUEST, peer.CANCEL:
		d["index"], d["begin"], d["length"] = q(m.Index()), q(m.Begin()), q(m.Length())
	case peer.PIECE:
		d["index"], d["begin"] = q(m.Index()), q(m.Begin())
		pay(m.Piece())
	}
	return d
}

// frag returns readers that deliver the same bytes in different ways.
func frag(data []byte, rng *rand.Rand) map[string]io.Reader {
	return map[string]io.Reader{
		"whole":   bytes.NewReader(data),
		"one":     iotest.OneByteReader(bytes.NewReader(data)),
		"half":    iotest.HalfReader(bytes.NewReader(data)),
		"dataerr": iotest.DataErrReader(bytes.NewReader(data)),
		"random":  &fragReader{bytes.NewReader(data), rand.New(rand.NewSource(rng.Int63()))},
		"reset":   io.MultiReader(bytes.NewReader(data), iotest.ErrReader(syscall.ECONNRESET)),
		"late":    io.MultiReader(iotest.HalfReader(bytes.NewReader(data)), iotest.ErrReader(os.ErrDeadlineExceeded)),
	}
}

// fragReader returns a few bytes at a time, and sometimes none.
type fragReader struct {
	r   io.Reader
	rng *rand.Rand
}

func (f *fragReader) Read(p []byte) (int, error) {
	if len(p) == 0 || f.rng.Intn(4) == 0 {
		return 0, nil
	}
	return f.r.Read(p[:1+f.rng.Intn(min(len(p), 7))])
}

func (u *wireSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "ok"}
	switch op {
	case "enc":
		m := makeMsg(a["msg"].(map[string]any))
		want := runs(a["bytes"])
		got, err := m.MarshalBinary()
		var viaWrite bytes.Buffer
		werr := peer.Write(&viaWrite, m)
		switch {
		case err != nil || werr != nil:
			obs["err"] = fmt.Sprint("error: ", err, werr)
		case !bytes.Equal(got, want):
			obs["err"] = fmt.Sprintf("encoded as %x, not %x", head(got), head(want))
		case !bytes.Equal(viaWrite.Bytes(), want):
			obs["err"] = fmt.Sprintf("written as %x, not %x", head(viaWrite.Bytes()), head(want))
		default:
			for name, r := range frag(want, u.rng) {
				back, err := peer.ReadMessage(r)
				if err != nil {
					obs["err"] = fmt.Sprintf("decode (%s): %v", name, err)
				} else if !reflect.DeepEqual(describe(back), describe(m)) {
					obs["err"] = fmt.Sprintf("decoded (%s) as %.300v", name, describe(back))
				}
			}
		}
	case "wfail":
		// The connection breaks after so many bytes.
		w := &failWriter{left: a.Int("cut")}
		err := peer.Write(w, makeMsg(a["msg"].(map[string]any)))
		switch want := runs(a["bytes"]); {
		case !bytes.Equal(w.got, want[:a.Int("cut")]):
			obs["err"] = fmt.Sprintf("written as %x, not the start of %x", head(w.got), head(want))
		case err != nil:
			obs["err"] = "broken"
		}
	case "dec":
		data := bytesOf(a["bytes"])
		var before, after runtime.MemStats
		for i, name := range []string{"whole", "one", "half", "dataerr", "random", "reset", "late"} {
			r := frag(data, u.rng)[name]
			if u.alloc {
				runtime.ReadMemStats(&before)
			}
			o := decodeOne(r)
			if u.alloc {
				runtime.ReadMemStats(&after)
				if n := after.TotalAlloc - before.TotalAlloc; n > 1<<20 {
					o = map[string]any{"err": fmt.Sprintf("%d bytes allocated for %d bytes of input", n, len(data))}
				}
			}
			if i == 0 {
				obs = o
			} else if !reflect.DeepEqual(norm(o), norm(obs)) {
				return map[string]any{"err": fmt.Sprintf("fragmentation %q: %v, else %v", name, o, obs)}
			}
		}
	case "henc":
		h := &peer.Handshake{}
		copy(h.InfoHash[:], bytesOf(a["hash"]))
		copy(h.PeerID[:], bytesOf(a["id"]))
		want := bytesOf(a["bytes"])
		got, err := h.MarshalBinary()
		if err != nil || !bytes.Equal(got, want) {
			obs["err"] = fmt.Sprintf("encoded as %x (%v), not %x", got, err, want)
			break
		}
		for name, r := range frag(want, u.rng) {
			if back, err := peer.ReadHandshake(r); err != nil || *back != *h {
				obs["err"] = fmt.Sprintf("decoded (%s) as %v (%v)", name, back, err)
			}
		}
	case "hdec":
		data := bytesOf(a["bytes"])
		first := true
		for name, r := range frag(data, u.rng) {
			o := map[string]any{"err": "ok"}
			h, err := peer.ReadHandshake(r)
			if err != nil {
				o["err"] = "error"
			} else {
				o["hash"], o["id"] = intsOf(h.InfoHash[:]), intsOf(h.PeerID[:])
				o["used"] = len(data) - rest(r)
			}
			if first {
				obs = o
			} else if !reflect.DeepEqual(o, obs) {
				return map[string]any{"err": fmt.Sprintf("fragmentation %q: %v, else %v", name, o, obs)}
			}
			first = false
		}
	case "push":
		if err := peer.Write(&u.buf, makeMsg(a["msg"].(map[string]any))); err != nil {
			obs["err"] = err.Error()
		}
	case "pop":
		readers := []io.Reader{&u.buf, iotest.OneByteReader(&u.buf), iotest.HalfReader(&u.buf), &fragReader{&u.buf, u.rng}}
		m, err := peer.ReadMessage(readers[u.rng.Intn(len(readers))])
		switch {
		case errors.Is(err, io.EOF):
			obs["err"] = "eof"
		case err != nil:
			obs["err"] = err.Error()
		default:
			obs["msg"] = describe(m)
		}
	}
	return obs
}

// failWriter fails once it has taken so many bytes.
type failWriter struct {
	left int
	got  []byte
}

func (w *failWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.left)
	w.got = append(w.got, p[:n]...)
	w.left -= n
	if n < len(p) {
		return n, syscall.EPIPE
	}
	return n, nil
}

func norm(v any) any { return fmt.Sprint(v) }

func head(b []byte) []byte { return b[:min(len(b), 40)] }

func intsOf(b []byte) []int {
	r := []int{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

func rest(r io.Reader) int {
	b, _ := io.ReadAll(r)
	return len(b)
}

func decodeOne(r io.Reader) (o map[string]any) {
	o = map[string]any{"err": "ok"}
	if p := util.Guard(func() {
		cr := &countReader{r: r}
		m, err := peer.ReadMessage(cr)
		if err != nil {
			o["err"] = "error"
			return
		}
		o["msg"] = describe(m)
		o["used"] = cr.n
	}); p != "" {
		o = map[string]any{"err": p}
	}
	return o
}

type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}
