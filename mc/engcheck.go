package main

import (
	"fmt"
	"hash/maphash"
	"maps"
	"slices"
	"strings"
	"time"
)

// EngGen describes a family of scenarios for the engine and how the executions
// are judged.
type EngGen struct {
	name      string
	app       *AppSpec
	times     []time.Time
	compactDH bool
	observers int
	resetters int
	budget    int
	// ops chooses the i-th operation; false ends the scenario.
	ops func(c *Chooser, i int, m *Model) (Op, bool)
	// gen chooses what a handler does with a message (e is nil for compaction).
	gen func(c *Chooser, h *HSpec, e *menv, m *Model) *Script
	// sel projects an event onto what the property speaks about ("" drops it).
	sel func(e *Ev) string
	// known accepts a deviation that is a known finding.
	known func(want, got *Ev) string
	// post performs additional checks on the execution.
	post func(scn *Scn, r *EngRun, m *Model) string
}

func (g *EngGen) Case() *Case {
	return &Case{Name: g.name, Budget: g.budget, Body: g.body, gen: g}
}

// swapped are pairs of message types that are exchanged in variants: types that
// are used by pointer, two of which have the same name, take the place of the
// most common ones.
var swapped = func() map[MT]MT {
	r := map[MT]MT{}
	for _, p := range [][2]MT{{CA, CD}, {CB, CG}, {EA, ED}, {EB, EG}, {TA, TD}, {TB, TE}} {
		r[p[0]], r[p[1]] = p[1], p[0]
	}
	return r
}()

func swap(t MT) MT {
	if x, ok := swapped[t]; ok {
		return x
	}
	return t
}

var variantApps = map[*AppSpec]*AppSpec{}

// variant returns the same scenarios with other message types and with handlers
// that are disabled by their configuration, but enabled by every operation.
func (g *EngGen) variant() *EngGen {
	v := *g
	v.name = "variant/" + g.name
	v.app = variantApps[g.app]
	if v.app == nil {
		var hs []HSpec
		for _, h := range g.app.H {
			x := HSpec{Name: h.Name, Kind: h.Kind, Disabled: true}
			for _, t := range h.In {
				x.In = append(x.In, swap(t))
			}
			for _, t := range h.Out {
				x.Out = append(x.Out, swap(t))
			}
			hs = append(hs, x)
		}
		v.app = app(hs...)
		variantApps[g.app] = v.app
	}
	var on []EnOpt
	for _, h := range g.app.H {
		on = append(on, EnOpt{Name: h.Name, On: true})
	}
	v.ops = func(c *Chooser, i int, m *Model) (Op, bool) {
		o, ok := g.ops(c, i, m)
		o.MT = swap(o.MT)
		if o.Kind != 'r' {
			o.En = append(on[:len(on):len(on)], o.En...)
		}
		return o, ok
	}
	if g.gen != nil {
		v.gen = func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
			if e != nil {
				x := *e
				x.mt = swap(x.mt)
				e = &x
			}
			s := *g.gen(c, g.app.byName(h.Name), e, m)
			s.Acts = append([]Act(nil), s.Acts...)
			for i := range s.Acts {
				s.Acts[i].MT = swap(s.Acts[i].MT)
			}
			return &s
		}
	}
	return &v
}

// allCases returns the cases of a check, their variants and the smaller cases of
// the other checks of the engine, judged by what this property speaks about.
func (ck *Check) allCases(tier string) []*Case {
	cs := ck.Cases(tier)
	var own *EngGen
	for _, c := range cs {
		if c.gen == nil {
			continue
		}
		if own == nil {
			own = c.gen
		}
		if !ck.NoVariants {
			cs = append(cs, c.gen.variant().Case())
		}
	}
	if own == nil {
		return cs
	}
	for _, id := range slices.Sorted(maps.Keys(checks)) {
		if id == ck.ID || checks[id].Cases == nil {
			continue
		}
		for _, c := range checks[id].Cases(tier) {
			if c.gen == nil || c.Budget > tierN(tier, 1, 2) {
				continue
			}
			g := *c.gen
			g.name = "cross/" + id + "/" + g.name
			g.sel, g.known, g.post = own.sel, own.known, own.post
			g.observers = max(g.observers, own.observers)
			g.resetters = max(g.resetters, own.resetters)
			cs = append(cs, g.Case())
		}
	}
	return cs
}

func (g *EngGen) body(w *Worker, c *Chooser) string {
	scn := &Scn{
		App: g.app, CompactDH: g.compactDH, Times: g.times,
		Scripts: map[skey]*Script{}, Observers: g.observers, Resetters: g.resetters,
	}
	// Phase A: let the model resolve all choices.
	m := newModel(scn)
	if g.gen != nil {
		m.gen = func(h *HSpec, e *menv, m *Model) *Script { return g.gen(c, h, e, m) }
	}
	for i := 0; ; i++ {
		op, ok := g.ops(c, i, m)
		if !ok {
			break
		}
		scn.Ops = append(scn.Ops, op)
		m.step(i, op)
	}
	m.gen = nil
	// Phase B: run the real engine with the same environment.
	r := newEngRun(w, scn)
	for i, op := range scn.Ops {
		r.do(i, op)
	}
	// Phase C: compare, resolving unspecified order from the execution.
	d := diffTraces(m.trace, r.run.trace, g, nil)
	if d != "" {
		m2 := newModel(scn)
		m2.obs = observe(r.run.trace)
		m2.run()
		d = diffTraces(m2.trace, r.run.trace, g, w.st)
		m = m2
	}
	if d == "" {
		d = diffTraces(m.trace, r.run.trace, g, w.st)
	}
	if d == "" && g.post != nil {
		d = g.post(scn, r, m)
	}
	// Counters.
	st := w.st
	var hs []uint64
	for _, k := range m.states {
		k = hashInts(k, uint64(len(g.name)), hashStr(g.name))
		st.State(k)
		hs = append(hs, k)
	}
	st.transitions.Add(int64(m.deliveries + len(scn.Ops)))
	st.Outcome(g.outcome(w, r.run.trace))
	if m.deliveries > 0 {
		st.nontrivial.Add(1)
	}
	st.Sample(func() any {
		return map[string]any{"case": g.name, "path": append([]int(nil), c.path...), "scenario": strings.Split(strings.TrimSpace(scn.String()), "\n"), "observed_events": len(r.run.trace)}
	})
	if d != "" {
		return "scenario:\n" + scn.String() + "\n" + d
	}
	return ""
}

var seed = maphash.MakeSeed()

// outcome identifies the projection of a trace.
func (g *EngGen) outcome(w *Worker, tr []Ev) uint64 {
	if w.proj == nil || w.projOf != g || len(w.proj) > 200000 {
		w.proj, w.projOf = map[uint64]uint64{}, g
	}
	n := uint64(1)
	for i := range tr {
		k := maphash.Comparable(seed, tr[i])
		h, ok := w.proj[k]
		if !ok {
			if s := g.sel(&tr[i]); s != "" {
				h = hashStr(s)
			}
			w.proj[k] = h
		}
		if h != 0 {
			n = (n^h)*1099511628211 + 7
		}
	}
	return n
}

// diffTraces compares the projections of two traces.
func diffTraces(want, got []Ev, g *EngGen, st *Stats) string {
	i, j := 0, 0
	for {
		for i < len(want) && j < len(got) && want[i] == got[j] {
			i++
			j++
		}
		var ws, gs string
		for i < len(want) && ws == "" {
			ws = g.sel(&want[i])
			i++
		}
		for j < len(got) && gs == "" {
			gs = g.sel(&got[j])
			j++
		}
		if ws == gs {
			if ws == "" {
				return ""
			}
			continue
		}
		if ws != "" && gs != "" && g.known != nil {
			if k := g.known(&want[i-1], &got[j-1]); k != "" {
				if st != nil {
					st.Known(k)
				}
				continue
			}
		}
		if st == nil {
			return "different"
		}
		return fmt.Sprintf("expected: %s\nobserved: %s\n\nexpected trace:\n%s\nobserved trace:\n%s",
			orEnd(ws), orEnd(gs), window(want, i), window(got, j))
	}
}

func orEnd(s string) string {
	if s == "" {
		return "(end of trace)"
	}
	return s
}

func window(tr []Ev, n int) string {
	lo, hi := n-40, n+10
	if lo < 0 {
		lo = 0
	}
	if hi > len(tr) {
		hi = len(tr)
	}
	var b strings.Builder
	for k := lo; k < hi; k++ {
		mark := "  "
		if k == n-1 {
			mark = "> "
		}
		fmt.Fprintf(&b, "%s%s\n", mark, tr[k])
	}
	return b.String()
}

// kinds returns a set of event kinds.
func kinds(s string) map[string]bool {
	r := map[string]bool{}
	for _, k := range strings.Fields(s) {
		r[k] = true
	}
	return r
}
