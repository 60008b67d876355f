// C04: an agent's connections behave as a set, past the fast-path capacity and under concurrency.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"MODULE/emerge/agent"
	"MODULE/emerge/core"
	"MODULE/zzverif/lin"
	"MODULE/zzverif/vs"
)

type rec struct {
	ctx core.Context
	cur core.State
	n   int
}

func (r *rec) Propose(cur, _ core.State, ctx core.Context) (core.Action, float64) {
	r.ctx, r.cur = ctx, cur
	r.n++
	return core.Action{Type: "maintain"}, 0
}
func (*rec) Name() string { return "rec" }

func coherence(ph []float64) float64 {
	if len(ph) == 0 {
		return 0
	}
	c, s := 0.0, 0.0
	for _, p := range ph {
		c += math.Cos(p)
		s += math.Sin(p)
	}
	return math.Hypot(c, s) / float64(len(ph))
}

// two agents per id with different phases, so that replacing one is observable
func mk(id string, i, v int) *agent.Agent {
	return agent.New(id, agent.WithPhase(0.13*float64(i+1)+1.7*float64(v)), agent.WithFrequency(time.Second))
}

type world struct {
	a     *agent.Agent
	r     *rec
	ids   []string
	objs  map[string][2]*agent.Agent
	model map[string]*agent.Agent
}

func newWorld(prefill int) *world {
	w := &world{r: &rec{}, objs: map[string][2]*agent.Agent{}, model: map[string]*agent.Agent{}}
	w.a = agent.New("self", agent.WithPhase(0.3), agent.WithStubbornness(0), agent.WithStrategy(w.r))
	for i := 0; i < prefill+3; i++ {
		id := fmt.Sprintf("n%02d", i)
		w.ids = append(w.ids, id)
		w.objs[id] = [2]*agent.Agent{mk(id, i, 0), mk(id, i, 1)}
	}
	for i := 0; i < prefill; i++ {
		w.a.ConnectTo(w.ids[i], w.objs[w.ids[i]][0])
		w.model[w.ids[i]] = w.objs[w.ids[i]][0]
	}
	return w
}

func (w *world) verify(e *vs.E, h string) {
	e.Check(w.a.NeighborCount() == len(w.model), "%s: %d neighbours reported, %d connected", h, w.a.NeighborCount(), len(w.model))
	var ph []float64
	for _, id := range w.ids {
		m, in := w.model[id]
		e.Check(w.a.IsConnectedTo(id) == in, "%s: IsConnectedTo(%s)=%v, want %v", h, id, w.a.IsConnectedTo(id), in)
		if in {
			ph = append(ph, m.Phase())
		}
	}
	e.Check(!w.a.IsConnectedTo("self") && !w.a.IsConnectedTo("") && !w.a.IsConnectedTo("nobody"), "%s: connected to itself or a stranger", h)
	w.r.n = 0
	w.a.UpdateContext()
	w.a.ProposeAdjustment(core.State{})
	if w.r.n == 1 {
		e.Check(w.r.ctx.Neighbors == len(w.model), "%s: senses %d neighbours of %d", h, w.r.ctx.Neighbors, len(w.model))
		e.Check(math.Abs(w.r.cur.Coherence-coherence(ph)) < 1e-9 && math.Abs(w.r.ctx.LocalCoherence-coherence(ph)) < 1e-9,
			"%s: senses coherence %v/%v of its neighbours, want %v", h, w.r.cur.Coherence, w.r.ctx.LocalCoherence, coherence(ph))
	} else {
		e.Fail("%s: an agent without stubbornness did not consult its strategy", h)
	}
}

func (w *world) apply(k int) string {
	// ids: first, a middle one, last prefilled, and the three spare ones
	n := len(w.ids)
	pick := []string{w.ids[0], w.ids[n/2], w.ids[n-4+b2i(n < 4)], w.ids[n-3], w.ids[n-2], w.ids[n-1]}
	if k < 12 {
		id, v := pick[k/2], k%2
		w.a.ConnectTo(id, w.objs[id][v])
		w.model[id] = w.objs[id][v]
		return fmt.Sprintf("connect(%s,%d)", id, v)
	}
	k -= 12
	if k < 6 {
		w.a.DisconnectFrom(pick[k])
		delete(w.model, pick[k])
		return "disconnect(" + pick[k] + ")"
	}
	k -= 6
	switch k {
	case 0:
		w.a.ConnectTo("self", w.a)
		return "connect(self)"
	case 1:
		w.a.ConnectTo(pick[5], nil)
		return "connect(nil)"
	}
	w.a.DisconnectFrom("nobody")
	return "disconnect(nobody)"
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

const nops = 21

type set map[string]bool

func key(s set) string {
	var k []string
	for id := range s {
		k = append(k, id)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

type cop struct{ name, id string }

func conc(name string, prefill int, progs [][]cop, count bool, pre, preT int) {
	body := func() {
		w := newWorld(prefill)
		init := set{}
		for id := range w.model {
			init[id] = true
		}
		logs := make([]*lin.Log, len(progs))
		var js []func()
		for i, p := range progs {
			i, p := i, p
			logs[i] = &lin.Log{Thread: i}
			js = append(js, vs.GoJ(func() {
				for _, o := range p {
					o := o
					logs[i].Do(o.name, o.id, func() any {
						switch o.name {
						case "connect":
							w.a.ConnectTo(o.id, w.objs[o.id][0])
						case "disconnect":
							w.a.DisconnectFrom(o.id)
						case "count":
							return w.a.NeighborCount()
						case "has":
							return w.a.IsConnectedTo(o.id)
						case "sense":
							w.a.UpdateContext()
						}
						return nil
					})
				}
			}))
		}
		for _, j := range js {
			j()
		}
		fin := set{}
		for _, id := range w.ids {
			if w.a.IsConnectedTo(id) {
				fin[id] = true
			}
		}
		if n := w.a.NeighborCount(); n != len(fin) {
			vs.Fail("%d neighbours reported after all calls returned, %d connected: %s", n, len(fin), key(fin))
		}
		vs.Outcome("%s", key(fin))
		ops := lin.Merge(logs...)
		if !lin.Check(init, ops, func(s set, o lin.Op) (set, bool) {
			id := o.Arg.(string)
			switch o.Name {
			case "count":
				return s, o.Out.(int) == len(s)
			case "has":
				return s, o.Out.(bool) == s[id]
			case "sense":
				return s, true
			}
			n := set{}
			for k := range s {
				n[k] = true
			}
			if o.Name == "connect" {
				n[id] = true
			} else {
				delete(n, id)
			}
			return n, true
		}, key, func(s set) bool { return key(s) == key(fin) }) {
			vs.Fail("no order of the calls explains the connections %q: %s", key(fin), lin.String(ops))
		}
	}
	vs.Add(&vs.Scenario{Name: name, Opt: vs.Options{Preemptions: pre}, Thorough: &vs.Options{Preemptions: preT}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/" + name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
}

func storage(e *vs.E) {
	depth := 4
	if e.Thorough() {
		depth = 5
	}
	e.Param("capacities 1,2,3; 4 ids x 2 agents; all sequences of length %d", depth)
	ids := []string{"a", "b", "c", "d"}
	objs := map[string][2]*agent.Agent{}
	for i, id := range ids {
		objs[id] = [2]*agent.Agent{mk(id, i, 0), mk(id, i, 1)}
	}
	const n = 13
	total := 1
	for i := 0; i < depth; i++ {
		total *= n
	}
	for c := 1; c <= 3; c++ {
		for k := 0; k < total && !e.Stop(); k++ {
			e.Case(func() {
				s := agent.NewNeighborStorage(c)
				m := map[string]*agent.Agent{}
				x, h := k, fmt.Sprintf("capacity %d:", c)
				for i := 0; i < depth; i++ {
					o := x % n
					x /= n
					switch {
					case o < 8:
						id, ag := ids[o/2], objs[ids[o/2]][o%2]
						h += fmt.Sprintf(" store(%s,%d)", id, o%2)
						_, had := m[id]
						want := had || len(m) < c
						if want {
							m[id] = ag
						}
						got := s.Store(id, ag)
						e.Check(got == want, "%s returned %v", h, got)
					case o < 12:
						h += " delete(" + ids[o-8] + ")"
						s.Delete(ids[o-8])
						delete(m, ids[o-8])
					default:
						h += " clear"
						s.Clear()
						m = map[string]*agent.Agent{}
					}
					e.Step(1)
				}
				e.Check(s.Count() == len(m) && len(s.All()) == len(m), "%s: count %d, All has %d, want %d", h, s.Count(), len(s.All()), len(m))
				seen := map[string]*agent.Agent{}
				s.Range(func(id string, a *agent.Agent) bool {
					e.Check(seen[id] == nil, "%s: %s visited twice", h, id)
					seen[id] = a
					return true
				})
				visits := 0
				s.Range(func(string, *agent.Agent) bool { visits++; return false })
				e.Check(visits <= 1, "%s: iteration continued after it was stopped", h)
				all := map[*agent.Agent]bool{}
				for _, a := range s.All() {
					all[a] = true
				}
				for _, id := range ids {
					g, ok := s.Load(id)
					w, in := m[id]
					e.Check(ok == in && g == w && seen[id] == w && (!in || all[w]), "%s: lookup of %s", h, id)
				}
				e.Seen(fmt.Sprint(c, len(m), h))
			})
		}
	}
}

// the storage used directly: every call takes effect at once
func concStorage(name string, capacity int, prefill []string, progs [][]string, pre, preT int) {
	ids := []string{"a", "b", "c"}
	body := func() {
		s := agent.NewNeighborStorage(capacity)
		objs := map[string]*agent.Agent{}
		for i, id := range ids {
			objs[id] = mk(id, i, 0)
		}
		init := set{}
		for _, id := range prefill {
			s.Store(id, objs[id])
			init[id] = true
		}
		name := func(a *agent.Agent) string {
			if a == nil {
				return "nil"
			}
			return a.ID
		}
		do := func(op string) any {
			f := strings.Fields(op + " -")
			switch id := f[1]; f[0] {
			case "store":
				return s.Store(id, objs[id])
			case "delete":
				s.Delete(id)
			case "clear":
				s.Clear()
			case "count":
				return s.Count()
			case "load":
				a, ok := s.Load(id)
				if ok != (a != nil) || ok && a != objs[id] {
					vs.Fail("lookup of %s found %v, %s", id, ok, name(a))
				}
				return ok
			case "all":
				got := set{}
				for _, a := range s.All() {
					if got[name(a)] {
						vs.Fail("%s listed twice", name(a))
					}
					got[name(a)] = true
				}
				return key(got)
			case "range":
				got := set{}
				s.Range(func(id string, a *agent.Agent) bool {
					if name(a) != id || got[id] {
						vs.Fail("%s visited as %q (already: %s)", name(a), id, key(got))
					}
					got[id] = true
					return true
				})
				return key(got)
			}
			return nil
		}
		logs := make([]*lin.Log, len(progs))
		var js []func()
		for i, p := range progs {
			logs[i] = &lin.Log{Thread: i}
			js = append(js, vs.GoJ(func() {
				for _, o := range p {
					logs[i].Do(strings.Fields(o)[0], o, func() any { return do(o) })
				}
			}))
		}
		for _, j := range js {
			j()
		}
		fin := do("range").(string)
		if s.Count() != len(s.All()) || key2(fin) != s.Count() {
			vs.Fail("%d counted, %d listed, visited %q", s.Count(), len(s.All()), fin)
		}
		vs.Outcome("%s", fin)
		ops := lin.Merge(logs...)
		if !lin.Check(init, ops, func(s set, o lin.Op) (set, bool) {
			id := ""
			if f := strings.Fields(o.Arg.(string)); len(f) > 1 {
				id = f[1]
			}
			n := set{}
			for k := range s {
				n[k] = true
			}
			switch o.Name {
			case "store":
				ok := s[id] || len(s) < capacity
				if ok {
					n[id] = true
				}
				return n, o.Out.(bool) == ok
			case "delete":
				delete(n, id)
			case "clear":
				n = set{}
			case "count":
				return s, o.Out.(int) == len(s)
			case "load":
				return s, o.Out.(bool) == s[id]
			default:
				return s, o.Out.(string) == key(s)
			}
			return n, true
		}, key, func(s set) bool { return key(s) == fin }) {
			vs.Fail("no order of the calls explains the content %q: %s", fin, lin.String(ops))
		}
	}
	vs.Add(&vs.Scenario{Name: "storage/" + name, Opt: vs.Options{Preemptions: pre}, Thorough: &vs.Options{Preemptions: preT}, Body: body})
	vs.Add(&vs.Scenario{Name: "race/storage/" + name, Race: true, Opt: vs.Options{Preemptions: 1}, Thorough: &vs.Options{Preemptions: 2}, Body: body})
}

func key2(s string) int {
	if s == "" {
		return 0
	}
	return strings.Count(s, ",") + 1
}

func main() {
	vs.AddEnum(&vs.Enum{Name: "storage sequences", Run: storage})
	vs.AddEnum(&vs.Enum{Name: "connection sequences", Run: func(e *vs.E) {
		depth := 3
		if e.Thorough() {
			depth = 4
		}
		pf := []int{1, 19, 20, 21, 40}
		e.Param("already connected to %v agents; %d operations; all sequences of length %d", pf, nops, depth)
		total := 1
		for i := 0; i < depth; i++ {
			total *= nops
		}
		for _, p := range pf {
			for k := 0; k < total && !e.Stop(); k++ {
				e.Case(func() {
					e.Seq(vs.Options{Rand: func(_ int, b []byte) {
						for i := range b {
							b[i] = 0x55
						}
					}}, func() {
						w := newWorld(p)
						x, h := k, fmt.Sprintf("%d connected:", p)
						for i := 0; i < depth; i++ {
							h += " " + w.apply(x%nops)
							x /= nops
							e.Step(1)
						}
						w.verify(e, h)
						var ks set = set{}
						for id := range w.model {
							ks[id] = true
						}
						e.Seen(fmt.Sprint(p, key(ks)))
					})
				})
			}
		}
	}})
	vs.AddEnum(&vs.Enum{Name: "growth", Run: func(e *vs.E) {
		// connecting and disconnecting n agents in order, reverse order and alternating
		for n := 0; n <= 60; n++ {
			for mode := 0; mode < 3; mode++ {
				e.Case(func() {
					e.Seq(vs.Options{}, func() {
						w := newWorld(n)
						w.verify(e, fmt.Sprintf("%d connected", n))
						order := append([]string{}, w.ids[:n]...)
						switch mode {
						case 1:
							sort.Sort(sort.Reverse(sort.StringSlice(order)))
						case 2:
							sort.Slice(order, func(i, j int) bool {
								return order[i][2] < order[j][2] || order[i][2] == order[j][2] && order[i] < order[j]
							})
						}
						for i, id := range order {
							w.a.DisconnectFrom(id)
							delete(w.model, id)
							if i%7 == 0 {
								w.verify(e, fmt.Sprintf("%d of %d disconnected (order %d)", i+1, n, mode))
							}
						}
						w.verify(e, "all disconnected")
					})
				})
			}
		}
	}})
	C := func(s string) cop { f := strings.SplitN(s, " ", 2); return cop{f[0], append(f, "")[1]} }
	P := func(s ...string) []cop {
		var r []cop
		for _, x := range s {
			r = append(r, C(x))
		}
		return r
	}
	// below the capacity: counts are exact at every moment
	conc("connect+connect", 1, [][]cop{P("connect n01", "count"), P("connect n02", "count")}, true, 3, 5)
	conc("same id", 1, [][]cop{P("connect n01", "has n01"), P("connect n01", "disconnect n01")}, true, 3, 5)
	conc("connect+disconnect", 2, [][]cop{P("connect n02", "has n00"), P("disconnect n00", "has n02"), P("count")}, true, 2, 3)
	conc("disconnect+disconnect", 3, [][]cop{P("disconnect n00", "has n02"), P("disconnect n02", "has n01"), P("count")}, true, 2, 3)
	conc("sensing", 2, [][]cop{P("sense"), P("connect n02", "disconnect n00"), P("has n01")}, true, 2, 3)
	// at the capacity
	conc("last slot", 19, [][]cop{P("connect n19", "has n20"), P("connect n20", "has n19")}, true, 2, 3)
	conc("overflow", 20, [][]cop{P("connect n20", "has n20"), P("connect n21", "disconnect n20")}, true, 2, 3)
	conc("overflow+free", 20, [][]cop{P("connect n20", "has n20"), P("disconnect n00", "has n00")}, true, 2, 3)
	conc("overflow reconnect", 21, [][]cop{P("connect n20", "disconnect n20"), P("disconnect n00", "connect n20")}, true, 2, 3)
	conc("overflow sensing", 20, [][]cop{P("sense"), P("connect n20", "disconnect n03")}, true, 2, 3)
	S := func(s ...string) []string { return s }
	concStorage("clear", 2, S("a"), [][]string{S("clear", "store b"), S("store c", "count"), S("range")}, 2, 4)
	concStorage("swap", 3, S("a", "b", "c"), [][]string{S("delete a", "load c"), S("range", "count"), S("all")}, 2, 4)
	concStorage("full", 2, S("a"), [][]string{S("store b", "delete a"), S("store c", "load a"), S("count")}, 2, 4)
	concStorage("clear+delete", 3, S("a", "b"), [][]string{S("clear"), S("delete a", "store a"), S("all", "load b")}, 2, 4)
	vs.Main()
}
