// Package walk drives a real object over every transition of a state graph
// that TLC wrote out. The specification may be nondeterministic: the engine
// keeps the set of model states that explain everything observed so far, and
// reports a violation when that set becomes empty.
package walk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"time"

	"dripverif/util"
)

type Edge struct {
	F  State           `json:"f"`
	T  State           `json:"t"`
	Op string          `json:"op"`
	A  json.RawMessage `json:"a"`
	O  map[string]any  `json:"o"`
}

// State names a model state: its JSON form with sorted keys.
type State string

func (s *State) UnmarshalJSON(b []byte) error {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	c, err := json.Marshal(v) // sorts keys
	*s = State(c)
	return err
}

type Args map[string]any

func (a Args) Int(k string) int {
	f, ok := a[k].(float64)
	if !ok {
		panic(fmt.Sprintf("no integer %q in %v", k, a))
	}
	return int(f)
}

func (a Args) Bool(k string) bool  { b, _ := a[k].(bool); return b }
func (a Args) Str(k string) string { s, _ := a[k].(string); return s }

// SUT is the real object under walk. Do performs an operation and returns what
// was observed, in the vocabulary of the specification.
type SUT interface {
	Reset()
	Do(op string, a Args) map[string]any
	Close()
}

// Settler is implemented by objects with asynchronous effects: when an
// observation matches nothing, Again is asked for an updated one for a while.
type Settler interface {
	Again(obs map[string]any) map[string]any
}

type action struct {
	op   string
	args Args
	id   string
}

type state struct {
	n     int
	acts  []*action
	edges map[string][]*edge // by action id
	out   []outEdge          // for planning, made by finish
}

type outEdge struct {
	act  *action
	to   *state
	only bool // the only outcome of the action
	e    *edge
}

type edge struct {
	n   int
	to  string
	obs map[string]any
}

type Graph struct {
	init   string
	states map[string]*state
	NEdges int
}

func Load(path, init string) *Graph {
	return Build(util.ReadJSONLines[Edge](path), init)
}

func Build(edges []Edge, init string) *Graph {
	g := &Graph{states: map[string]*state{}}
	get := func(k string) *state {
		s := g.states[k]
		if s == nil {
			s = &state{n: len(g.states), edges: map[string][]*edge{}}
			g.states[k] = s
		}
		return s
	}
	acts := map[string]*action{}
	seen := map[string]bool{}
	for _, e := range edges {
		if g.init == "" {
			g.init = string(e.F)
		}
		id := e.Op + string(e.A)
		ob, _ := json.Marshal(e.O)
		key := string(e.F) + "\x00" + id + "\x00" + string(e.T) + "\x00" + string(ob)
		if seen[key] {
			continue
		}
		seen[key] = true
		g.NEdges++
		a := acts[id]
		if a == nil {
			a = &action{op: e.Op, id: id}
			var v any
			if err := json.Unmarshal(e.A, &v); err != nil {
				panic(err)
			}
			a.args, _ = v.(map[string]any)
			acts[id] = a
		}
		s := get(string(e.F))
		if _, ok := s.edges[id]; !ok {
			s.acts = append(s.acts, a)
		}
		s.edges[id] = append(s.edges[id], &edge{g.NEdges, string(e.T), e.O})
		get(string(e.T))
	}
	for _, s := range g.states {
		for _, a := range s.acts {
			es := s.edges[a.id]
			for _, e := range es {
				s.out = append(s.out, outEdge{a, g.states[e.to], len(es) == 1, e})
			}
		}
	}
	if init != "" {
		g.init = init
	}
	return g
}

func (g *Graph) NStates() int { return len(g.states) }

type Options struct {
	Fields    map[string]bool // observation fields to compare (nil: all)
	Seed      int64
	Workers   int
	NewSUT    func(worker int) SUT
	MaxStep   int           // per worker, 0: no limit
	Budget    time.Duration // 0: no limit
	OpTimeout time.Duration
}

type step struct {
	Op  string         `json:"op"`
	A   Args           `json:"a"`
	Got map[string]any `json:"got"`
}

func norm(v any) any {
	b, _ := json.Marshal(v)
	var r any
	json.Unmarshal(b, &r)
	return r
}

// A field is compared if it is named itself or together with the operation
// ("get.err").
func (g *Graph) match(op string, want, got map[string]any, fields map[string]bool) bool {
	for k, w := range want {
		if fields != nil && !fields[k] && !fields[op+"."+k] {
			continue
		}
		if !reflect.DeepEqual(w, got[k]) {
			return false
		}
	}
	return true
}

// Walk covers every (state, action) pair of the graph at least once, the pairs
// being shared out among the workers, and records violations in res.
func (g *Graph) Walk(o Options, res *util.Result) {
	if o.Workers == 0 {
		o.Workers = runtime.NumCPU()
	}
	if o.OpTimeout == 0 {
		o.OpTimeout = 20 * time.Second
	}
	var wg sync.WaitGroup
	for w := range o.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g.walk(o, w, res)
		}()
	}
	wg.Wait()
	res.Add("model_states", len(g.states))
	res.Add("model_transitions", g.NEdges)
}

func (g *Graph) walk(o Options, w int, res *util.Result) {
	rng := rand.New(rand.NewSource(o.Seed*1000 + int64(w)))
	sut := o.NewSUT(w)
	// todo: pairs of this worker, per state
	todo := map[string]map[string]*action{}
	left := 0
	for k, s := range g.states {
		for _, a := range s.acts {
			h := fnv.New32a()
			fmt.Fprintf(h, "%s|%s|%d", k, a.id, o.Seed)
			if int(h.Sum32()>>8)%o.Workers != w {
				continue
			}
			if todo[k] == nil {
				todo[k] = map[string]*action{}
			}
			todo[k][a.id] = a
			left++
		}
	}
	start := time.Now()
	deadline := time.Time{}
	if o.Budget > 0 {
		deadline = start.Add(o.Budget)
	}
	steps, covered, resets := 0, 0, 0
	pl := &planner{left: make([]int, len(g.states)), tries: map[string]int{}, taken: map[int]bool{}}
	for k, m := range todo {
		pl.left[g.states[k].n] = len(m)
	}
	belief := []string{g.init}
	var trail []step
	sut.Reset()
	reset := func() {
		sut.Reset()
		belief = []string{g.init}
		trail = trail[:0]
		resets++
	}
	mark := func(k, id string) {
		if m := todo[k]; m != nil {
			if _, ok := m[id]; ok {
				delete(m, id)
				pl.left[g.states[k].n]--
				left--
				covered++
				if len(m) == 0 {
					delete(todo, k)
				}
			}
		}
	}
	defer func() {
		sut.Close()
		res.Add("steps", steps)
		res.Add("pairs_covered", covered)
		res.Add("pairs_left", left)
		res.Add("resets", resets)
	}()
	var failures int
	for left > 0 {
		if o.MaxStep > 0 && steps >= o.MaxStep || !deadline.IsZero() && time.Now().After(deadline) {
			return
		}
		var next *action
		for _, k := range belief {
			for _, a := range todo[k] {
				next = a
				break
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			next = g.plan(belief[rng.Intn(len(belief))], todo, pl)
			if next == nil {
				// Nothing left to cover from here.
				if len(trail) == 0 {
					if len(belief) == 1 && belief[0] == g.init {
						// The rest is only reachable through outcomes that the
						// real object does not choose.
						return
					}
				}
				if p := g.plan(g.init, todo, pl); p == nil {
					return
				}
				reset()
				if failures++; failures > 100000 {
					return
				}
				continue
			}
		}
		var obs map[string]any
		panicked := false
		done := make(chan string, 1)
		go func() {
			done <- util.Guard(func() { obs = sut.Do(next.op, next.args) })
		}()
		timer := time.NewTimer(o.OpTimeout)
		select {
		case p := <-done:
			if p != "" {
				obs, panicked = map[string]any{"err": p}, true
			}
		case <-timer.C:
			obs = map[string]any{"err": "hang"}
		}
		timer.Stop()
		steps++
		var nb []string
		var took []*edge
		var wants []map[string]any
		var got map[string]any
		try := func() bool {
			got, _ = norm(obs).(map[string]any)
			nb, wants, took = nil, nil, nil
			inNB := map[string]bool{}
			for _, k := range belief {
				for _, e := range g.states[k].edges[next.id] {
					wants = append(wants, e.obs)
					if g.match(next.op, e.obs, got, o.Fields) {
						mark(k, next.id)
						took = append(took, e)
						if !inNB[e.to] {
							inNB[e.to] = true
							nb = append(nb, e.to)
						}
					}
				}
			}
			return len(nb) > 0
		}
		if !try() {
			if st, ok := sut.(Settler); ok && !panicked && obs["err"] != "hang" {
				until := time.Now().Add(5 * time.Second)
				for !try() && time.Now().Before(until) {
					time.Sleep(200 * time.Microsecond)
					obs = st.Again(obs)
				}
			}
		}
		obs = got
		trail = append(trail, step{next.op, next.args, obs})
		if len(nb) == 0 {
			t := trail
			if len(t) > 200 {
				t = t[len(t)-200:]
			}
			res.Violate(fmt.Sprintf("%s %v: observed %v, the specification allows %v", next.op, next.args, brief(next.op, obs, o.Fields), wants),
				map[string]any{"state": belief, "op": next.op, "args": next.args, "got": obs, "want": wants, "trail": append([]step(nil), t...)})
			for _, k := range belief {
				mark(k, next.id)
			}
			if res.NumViolations() >= 5 || obs["err"] == "hang" {
				return
			}
			reset()
			continue
		}
		if len(belief) == 1 {
			pl.note(fmt.Sprint(g.states[belief[0]].n), next.id, took)
		}
		if steps == 25 && w == 0 {
			n := len(trail)
			res.Sample(append([]step(nil), trail[max(0, n-4):]...))
		}
		belief = nb
	}
}

func brief(op string, obs map[string]any, fields map[string]bool) map[string]any {
	if fields == nil {
		return obs
	}
	r := map[string]any{}
	for k, v := range obs {
		if fields[k] || fields[op+"."+k] {
			r[k] = v
		}
	}
	return r
}

// plan finds the first action of a shortest path to a state with work left.
func (g *Graph) plan(from string, todo map[string]map[string]*action, pl *planner) *action {
	type node struct {
		s     *state
		first *action
	}
	if pl.seen == nil {
		pl.seen = make([]int, len(g.states))
	}
	pl.gen++
	root := g.states[from]
	if root == nil {
		return nil
	}
	pl.seen[root.n] = pl.gen
	q := []node{{root, nil}}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.first != nil && pl.left[n.s.n] > 0 {
			return n.first
		}
		for i := range n.s.out {
			e := &n.s.out[i]
			if pl.seen[e.to.n] == pl.gen || !e.only && pl.refuted(n.s, e.act.id, e.e) {
				continue
			}
			pl.seen[e.to.n] = pl.gen
			f := n.first
			if f == nil {
				f = e.act
			}
			q = append(q, node{e.to, f})
		}
	}
	return nil
}

// planner remembers which outcomes of nondeterministic actions the real object
// does not choose, so that no plan relies on them.
type planner struct {
	left  []int // work left per state
	seen  []int
	gen   int
	tries map[string]int
	taken map[int]bool // edges that were taken
}

func (pl *planner) note(from, id string, es []*edge) {
	pl.tries[from+"\x00"+id]++
	for _, e := range es {
		pl.taken[e.n] = true
	}
}

func (pl *planner) refuted(s *state, id string, e *edge) bool {
	return !pl.taken[e.n] && pl.tries[fmt.Sprint(s.n)+"\x00"+id] >= 4
}
