package main

import (
	"fmt"
	"math/rand"
	"net/netip"
	"sort"
	"strconv"
	"strings"

	trackerapi "github.com/browles/drip/api/tracker"
	"github.com/browles/drip/bencode"

	"dripverif/util"
	"dripverif/walk"
)

func init() { modes["trackercodec"] = trackerCodec }

func trackerCodec(c *Config, res *util.Result) {
	g := walk.Load(c.Edges, "")
	g.Walk(walk.Options{Fields: c.FieldSet(), Seed: c.Seed, NewSUT: func(w int) walk.SUT {
		return &codecSUT{rand.New(rand.NewSource(c.Seed + int64(w)))}
	}}, res)
}

type codecSUT struct{ rng *rand.Rand }

func (u *codecSUT) Reset() {}
func (u *codecSUT) Close() {}

// benEncode writes a value of the specification, keys in the given order.
func benEncode(v any) string {
	m := v.(map[string]any)
	str := func(s string) string { return strconv.Itoa(len(s)) + ":" + s }
	if i, ok := m["i"]; ok {
		return "i" + i.(string) + "e"
	}
	if s, ok := m["s"]; ok {
		return str(s.(string))
	}
	if b, ok := m["b"]; ok {
		return str(string(bytesOf(b)))
	}
	if l, ok := m["l"]; ok {
		r := "l"
		for _, e := range l.([]any) {
			r += benEncode(e)
		}
		return r + "e"
	}
	r := "d"
	for _, e := range m["d"].([]any) {
		p := e.([]any)
		r += str(p[0].(string)) + benEncode(p[1])
	}
	return r + "e"
}

func i64(v any) int64 {
	n, err := strconv.ParseInt(v.(string), 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func makeRequest(a map[string]any) *trackerapi.Request {
	r := &trackerapi.Request{IP: a["ip"].(string), Port: int(i64(a["port"])), Uploaded: i64(a["up"]), Downloaded: i64(a["down"]), Left: i64(a["left"]), Event: a["event"].(string), Compact: a["compact"].(bool)}
	copy(r.InfoHash[:], bytesOf(a["hash"]))
	copy(r.PeerID[:], bytesOf(a["id"]))
	return r
}

func showRequest(r *trackerapi.Request) map[string]any {
	d := func(n int64) string { return strconv.FormatInt(n, 10) }
	return map[string]any{"hash": intsOf(r.InfoHash[:]), "id": intsOf(r.PeerID[:]), "ip": r.IP, "port": strconv.Itoa(r.Port), "up": d(r.Uploaded), "down": d(r.Downloaded), "left": d(r.Left), "event": r.Event, "compact": r.Compact}
}

func showPeers(ps *trackerapi.Peers) []map[string]any {
	r := []map[string]any{}
	if ps == nil {
		return r
	}
	for _, p := range ps.List {
		r = append(r, map[string]any{"ip": p.IP, "port": strconv.Itoa(p.Port), "id": p.ID})
	}
	return r
}

func (u *codecSUT) Do(op string, a walk.Args) map[string]any {
	obs := map[string]any{"err": "ok"}
	switch op {
	case "request":
		r := makeRequest(a)
		q := r.Encode()
		pairs, err := parseQuery(q)
		if err != nil {
			return map[string]any{"err": err.Error()}
		}
		m := map[string]string{}
		for _, p := range pairs {
			if _, ok := m[p[0]]; ok {
				obs["err"] = "repeated parameter " + p[0]
			}
			m[p[0]] = p[1]
		}
		got := [][]string{}
		for _, k := range []string{"port", "uploaded", "downloaded", "left", "compact", "ip", "event"} {
			if v, ok := m[k]; ok {
				got = append(got, []string{k, v})
			}
		}
		obs["pairs"] = got
		if m["info_hash"] != string(r.InfoHash[:]) || m["peer_id"] != string(r.PeerID[:]) {
			obs["err"] = "hash or ID differ in the query " + q
		}
		back := &trackerapi.Request{}
		if err := back.Decode(q); err != nil {
			obs["err"] = err.Error()
		}
		obs["back"] = showRequest(back)
	case "query":
		params := map[string]string{}
		for _, p := range a["pairs"].([]any) {
			kv := p.([]any)
			params[kv[0].(string)] = kv[1].(string)
		}
		if k, ok := a["key"].(string); ok {
			params[k] = string(bytesOf(a["bytes"]))
		}
		q := query(u.rng, params)
		if raw, ok := a["raw"].(string); ok {
			q = raw
		}
		r := &trackerapi.Request{}
		if err := r.Decode(q); err != nil {
			return map[string]any{"err": "error"}
		}
		obs["back"] = showRequest(r)
	case "response":
		r := &trackerapi.Response{Interval: int(i64(a["interval"])), WarningReason: a.Str("warning"), Peers: &trackerapi.Peers{Compact: a.Bool("compact")}}
		if a.Bool("more") {
			r.Complete, r.Incomplete, r.MinInterval, r.TrackerID = 5, 6, 7, "tid"
		}
		for _, p := range a["peers"].([]any) {
			m := p.(map[string]any)
			r.Peers.List = append(r.Peers.List, &trackerapi.Peer{ID: m["id"].(string), IP: m["ip"].(string), Port: int(i64(m["port"]))})
		}
		data, err := bencode.Marshal(r)
		if err != nil {
			return map[string]any{"err": "error"}
		}
		_, rest, err := parseBen(string(data))
		if err != nil || rest != "" {
			return map[string]any{"err": fmt.Sprintf("malformed encoding %q", clip(string(data)))}
		}
		back := &trackerapi.Response{}
		if err := bencode.Unmarshal(data, back); err != nil {
			return map[string]any{"err": "decoding: " + err.Error()}
		}
		obs["val"] = valueOf(string(data))
		obs["back"], obs["interval"], obs["warning"] = showPeers(back.Peers), strconv.Itoa(back.Interval), back.WarningReason
		obs["compact"] = back.Peers != nil && back.Peers.Compact
		obs["more"] = back.Complete == 5 && back.Incomplete == 6 && back.MinInterval == 7 && back.TrackerID == "tid"
		if !a.Bool("more") && (back.Complete != 0 || back.Incomplete != 0 || back.MinInterval != 0 || back.TrackerID != "") {
			obs["err"] = "values out of nothing"
		}
	case "failure":
		data, err := bencode.Marshal(&trackerapi.Response{FailureReason: a.Str("reason")})
		if err != nil {
			return map[string]any{"err": err.Error()}
		}
		back := &trackerapi.Response{}
		if err := bencode.Unmarshal(data, back); err != nil {
			return map[string]any{"err": "decoding: " + err.Error()}
		}
		obs["reason"] = back.FailureReason
	case "decode", "cut":
		data := benEncode(a["val"])
		if op == "cut" {
			data = data[:min(len(data)-1, a.Int("n"))]
		}
		r := &trackerapi.Response{}
		if err := bencode.Unmarshal([]byte(data), r); err != nil {
			return map[string]any{"err": "error"}
		}
		obs["reason"], obs["interval"], obs["back"] = r.FailureReason, strconv.Itoa(r.Interval), showPeers(r.Peers)
		obs["compact"] = r.Peers != nil && r.Peers.Compact
		c := []map[string]any{}
		for _, p := range showPeers(r.Peers) {
			ip, err := netip.ParseAddr(p["ip"].(string))
			if err != nil || !ip.Is4() {
				obs["err"] = fmt.Sprintf("address %v", p["ip"])
				continue
			}
			b := ip.As4()
			c = append(c, map[string]any{"v4": intsOf(b[:]), "port": p["port"]})
		}
		if obs["compact"] == true {
			obs["cback"] = c
		} else if strings.HasPrefix(fmt.Sprint(obs["err"]), "address") {
			obs["err"] = "ok"
		}
	}
	return obs
}

// valueOf parses bencoding into a value of the specification, taking strings
// under "peers" for bytes.
func valueOf(data string) any {
	v, _, _ := parseBen(data)
	var conv func(v any, bytes bool) any
	conv = func(v any, bytes bool) any {
		switch v := v.(type) {
		case int:
			return map[string]any{"i": strconv.Itoa(v)}
		case string:
			if bytes {
				return map[string]any{"b": intsOf([]byte(v))}
			}
			return map[string]any{"s": v}
		case []any:
			l := []any{}
			for _, e := range v {
				l = append(l, conv(e, false))
			}
			return map[string]any{"l": l}
		case map[string]any:
			var keys []string
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			d := []any{}
			for _, k := range keys {
				d = append(d, []any{k, conv(v[k], k == "peers")})
			}
			return map[string]any{"d": d}
		}
		return nil
	}
	return conv(v, false)
}
