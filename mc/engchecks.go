package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// G selects which deviations a generated script may contain.
type G struct {
	max      int  // actions per call
	ends     bool // destroy, end
	logs     bool
	cancels  bool
	errs     bool
	panics   bool
	routes   bool // not routed, route errors, route panics
	proj     bool // failures of the concurrency-control protocol
	contract bool // contract violations
	times    []int
	insts    []string
	compact  bool // outcomes of compaction
}

// appRich uses all kinds of handlers, with cycles.
var appRich = app(
	HSpec{Name: "a1", Kind: Agg, In: []MT{CA}, Out: []MT{EA, EB}},
	HSpec{Name: "a2", Kind: Agg, In: []MT{CB}, Out: []MT{EC}},
	HSpec{Name: "p1", Kind: Proc, In: []MT{EA, EC}, Out: []MT{CB, CC, TA}},
	HSpec{Name: "p2", Kind: Proc, In: []MT{EA, ED}, Out: []MT{CC, TA, TB}},
	HSpec{Name: "i1", Kind: Int, In: []MT{CC, CD}, Out: []MT{ED}},
	HSpec{Name: "v1", Kind: Proj, In: []MT{EA, ED}},
	HSpec{Name: "v2", Kind: Proj, In: []MT{ED}},
)

func (g G) inst(i int) string {
	if len(g.insts) == 0 {
		return "i"
	}
	return g.insts[i%len(g.insts)]
}

// gen chooses what a handler does.
func (g G) gen(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
	s := &Script{}
	if e == nil {
		if g.compact {
			n := 4
			if g.panics {
				n = 6
			}
			switch c.Dev(n) {
			case 1:
				s.CompFin = 'E'
			case 2:
				s.CompLogs = 2
			case 3:
				s.CompLogs, s.CompFin = 1, 'E'
			case 4:
				s.CompFin = 'P'
			case 5:
				s.CompLogs, s.CompFin = 1, 'P'
			}
		}
		return s
	}
	inst := e.base.Inst
	var alpha []Act
	for _, t := range h.Out {
		if t.kind() == kTmo {
			for _, x := range g.times {
				alpha = append(alpha, sched(t, inst, x))
			}
			continue
		}
		alpha = append(alpha, rec(t, inst))
	}
	if g.ends && (h.Kind == Agg || h.Kind == Proc) {
		alpha = append(alpha, end())
	}
	if g.logs {
		alpha = append(alpha, logAct())
	}
	if g.cancels {
		alpha = append(alpha, cancelAct())
	}
	if g.contract {
		switch h.Kind {
		case Agg, Int:
			for _, t := range []MT{EA, ED, EF} {
				if !h.produces(t) {
					alpha = append(alpha, rec(t, inst))
				}
			}
			if len(h.Out) > 0 {
				alpha = append(alpha, Act{Op: oRecord, MT: h.Out[0], Inst: inst, Bad: "invalid!"})
			}
		case Proc:
			for _, t := range []MT{CA, CB, CF, TB, TC} {
				if !h.produces(t) {
					alpha = append(alpha, rec(t, inst))
				}
			}
			for _, t := range h.Out {
				alpha = append(alpha, Act{Op: oRecord, MT: t, Inst: inst, Bad: "invalid!"})
			}
		}
	}
	// Routing.
	var routes []Script
	switch h.Kind {
	case Agg:
		if g.panics {
			routes = append(routes, Script{Route: 'p'})
		}
		if g.contract {
			routes = append(routes, Script{Route: '0'}, Script{Route: 'u'}, Script{NilRoot: true}, Script{Replay: 'u'}, Script{Apply: 'u'})
		}
		if g.panics {
			routes = append(routes, Script{Apply: 'p'}, Script{Replay: 'p'})
		}
	case Proc:
		if e.mt.kind() == kEvt {
			if g.routes {
				routes = append(routes, Script{Route: 'n'}, Script{Route: 'N'}, Script{Route: 'e'}, Script{Route: 'E'})
			}
			if g.panics {
				routes = append(routes, Script{Route: 'p'})
			}
			if g.contract {
				routes = append(routes, Script{Route: '0'}, Script{Route: 'u'}, Script{NilRoot: true})
			}
		}
	case Proj:
		if g.proj {
			routes = append(routes, Script{Ver: 'v'}, Script{Ver: 'V'}, Script{Ver: 'n'}, Script{Ver: 'e'}, Script{Ver: 'E'},
				Script{NotOK: true}, Script{NotOK: true, Fin: fErr}, Script{Close: 'e'})
			if g.panics {
				routes = append(routes, Script{Ver: 'p'}, Script{Close: 'p'})
			}
		}
	}
	if len(routes) > 0 {
		if k := c.Dev(len(routes) + 1); k > 0 {
			*s = routes[k-1]
			if s.Route != 0 || s.Ver == 'e' || s.Ver == 'E' || s.Ver == 'p' {
				return s
			}
		}
	}
	max := g.max
	if max == 0 {
		max = 2
	}
	s.Acts = chooseActs(c, alpha, max)
	if s.Fin == 0 {
		fins := []byte{fOK}
		if g.errs && h.Kind != Agg {
			fins = append(fins, fErr)
		}
		if g.panics {
			fins = append(fins, fPanic)
		}
		if g.contract {
			fins = append(fins, fUnexpected)
		}
		if g.cancels && h.Kind != Agg {
			fins = append(fins, fCtxErr)
		}
		s.Fin = fins[c.Dev(len(fins))]
	}
	return s
}

// budgets returns one case per budget.
func budgets(n int, f func(b int) *EngGen) []*Case {
	var cs []*Case
	for b := 0; b <= n; b++ {
		g := f(b)
		g.budget = b
		g.name = fmt.Sprintf("%s/budget%d", g.name, b)
		cs = append(cs, g.Case())
	}
	return cs
}

func tierN(tier string, quick, thorough int) int {
	if tier == "quick" {
		return quick
	}
	return thorough
}

var stdTimes = at(0, time.Second, time.Minute, 2*time.Hour)

const ruleEngine = "a scenario is a sequence of engine operations together with everything every handler does with every message it receives; all scenarios within the stated bounds are executed on the real engine and compared, event by event, with the reference model (projected onto what the property speaks about)"

func init() {
	registerC02()
	registerC03()
	registerC04()
	registerC05()
	registerC06()
	registerC07()
	registerC09()
	registerC10()
	registerC11()
	registerC12()
	registerC13()
}

// ---- C02 ----

func selC02(e *Ev) string {
	switch e.K {
	case "f.HandlingSkipped", "f.TickSkipped":
		return e.K + " " + e.H + " " + e.E.Msg + " " + e.X
	case "f.TickBegun", "f.HandlingBegun":
		return e.K + " " + e.H + " " + e.E.Msg
	}
	return selMethods(e)
}

func registerC02() {
	apps := []*AppSpec{
		app(
			HSpec{Name: "h", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
			HSpec{Name: "H", Kind: Agg, In: []MT{CB}, Out: []MT{EB}, Disabled: true},
			HSpec{Name: "p", Kind: Proc, In: []MT{EA, EB, EE}, Out: []MT{CC, TA}},
			HSpec{Name: "p1", Kind: Proc, In: []MT{EA, EB, EE}, Out: []MT{CD, TA}, Disabled: true},
			HSpec{Name: "i", Kind: Int, In: []MT{CC}, Out: []MT{EC}},
			HSpec{Name: "i1", Kind: Int, In: []MT{CD}, Out: []MT{ED}, Disabled: true},
			HSpec{Name: "v", Kind: Proj, In: []MT{EA, EB, EC, ED}},
			HSpec{Name: "v1", Kind: Proj, In: []MT{EA, EB, EC, ED}, Disabled: true},
		),
	}
	gen := func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
		s := &Script{}
		if e == nil || depth(e.base.Tag) > 6 {
			return s
		}
		switch h.Kind {
		case Agg:
			s.Acts = []Act{rec(h.Out[0], "i")}
		case Proc:
			if e.mt.kind() == kTmo {
				s.Acts = []Act{rec(h.Out[0], "i")}
			} else {
				s.Acts = []Act{sched(TA, "i", 1), rec(h.Out[0], "i")}
			}
		case Int:
			s.Acts = []Act{rec(h.Out[0], "i")}
		}
		return s
	}
	var all []EnOpt
	for _, on := range []bool{false, true} {
		for _, k := range []HK{Agg, Proc, Int, Proj} {
			all = append(all, EnOpt{Type: k, On: on})
		}
		for _, h := range apps[0].H {
			all = append(all, EnOpt{Name: h.Name, On: on})
		}
	}
	all = append(all, EnOpt{Name: "nope", On: false}, EnOpt{Name: "P", On: true})
	register(&Check{
		ID: "C02", NoVariants: true,
		Rule: ruleEngine + "; enumerated: every sequence of enable options up to the bound, on dispatches and ticks, from empty and non-empty states, followed by operations that reveal lost state",
		Cases: func(tier string) []*Case {
			var cs []*Case
			everything := []EnOpt{}
			for _, h := range apps[0].H {
				everything = append(everything, EnOpt{Name: h.Name, On: true})
			}
			for n := 0; n <= tierN(tier, 2, 3); n++ {
				for _, first := range []byte{'d', 't', 'e'} {
					for _, warm := range []bool{false, true} {
						opt := func(c *Chooser) []EnOpt {
							var r []EnOpt
							for len(r) < n {
								r = append(r, all[c.Choose(len(all))])
							}
							return r
						}
						g := &EngGen{
							name: fmt.Sprintf("options%d/%c/warm=%v", n, first, warm), app: apps[0], times: stdTimes,
							ops: func(c *Chooser, i int, m *Model) (Op, bool) {
								if !warm {
									i++
								}
								switch i {
								case 0:
									o := disp(EE, "w", "i", 0)
									o.En = everything
									return o, true
								case 1:
									var o Op
									switch first {
									case 'd':
										o = disp(CA, "x", "i", 1)
									case 'e':
										o = disp(EE, "x", "i", 1)
									default:
										o = tick(1)
									}
									o.En = opt(c)
									return o, true
								case 2:
									o := tick(2)
									return o, true
								case 3:
									o := disp(CB, "y", "i", 2)
									o.En = everything
									return o, true
								case 4:
									o := tick(2)
									o.En = everything
									return o, true
								case 5:
									return disp(CA, "z", "i", 2), true
								}
								return Op{}, false
							},
							gen: gen, sel: selC02,
						}
						cs = append(cs, g.Case())
					}
				}
			}
			// Longer option sequences over fewer handlers: the last one wins.
			small := []EnOpt{
				{Type: Proc, On: false}, {Type: Proc, On: true},
				{Name: "p", On: false}, {Name: "p", On: true},
				{Name: "p1", On: false}, {Name: "p1", On: true},
			}
			for n := 3; n <= tierN(tier, 4, 5); n++ {
				g := &EngGen{
					name: fmt.Sprintf("last-wins%d", n), app: apps[0], times: stdTimes,
					ops: func(c *Chooser, i int, m *Model) (Op, bool) {
						switch i {
						case 0:
							o := disp(EE, "x", "i", 0)
							for len(o.En) < n {
								o.En = append(o.En, small[c.Choose(len(small))])
							}
							return o, true
						case 1:
							return tick(1), true
						}
						return Op{}, false
					},
					gen: gen, sel: selC02,
				}
				cs = append(cs, g.Case())
			}
			return cs
		},
	})
}

// ---- C03 ----

func selC03(e *Ev) string {
	switch e.K {
	case "f.DispatchCycleBegun", "f.DispatchCycleCompleted", "f.DispatchBegun", "f.HandlingBegun", "f.HandlingSkipped",
		"f.ProcessTimeoutIgnored", "f.ProcessEventIgnored":
		return e.K + " " + e.E.String()
	case "f.EventRecordedByAggregate", "f.CommandExecutedByProcess", "f.TimeoutScheduledByProcess", "f.EventRecordedByIntegration":
		return e.K + " " + e.E.String() + e.C.String()
	case "proc.Event", "proc.Timeout", "proj.Handle":
		return e.K + " " + e.H + " " + cut(cut(e.X, " ctx"), " primary")
	case "return", "panic", "op":
		return e.K
	}
	return ""
}

func registerC03() {
	post := func(scn *Scn, r *EngRun, m *Model) string { return r.immutable() }
	zone := time.FixedZone("somewhere", 5*3600)
	times := []time.Time{epoch, epoch.Add(time.Second).In(zone), epoch.Add(time.Minute), epoch.Add(-time.Hour), epoch.Add(1)}
	register(&Check{
		ID:   "C03",
		Rule: ruleEngine + "; compared: every envelope carried by any fact and every time shown to a handler; envelopes are compared again at the end of the scenario",
		Cases: func(tier string) []*Case {
			var cs []*Case
			g := G{max: 2, ends: true, errs: true, panics: true, times: []int{0, 1, 3}}
			ops := []Op{disp(CA, "", "i", 0), disp(EA, "", "j", 1), disp(CC, "", "i", 4), tick(1), tick(2), reset(),
				{Kind: 'd', MT: CA, Base: Base{Inst: "i", Bad: "bad"}}, {Kind: 'd', MT: CF, Base: Base{Inst: "i"}}}
			cs = append(cs, budgets(tierN(tier, 3, 4), func(b int) *EngGen {
				n := 2
				if b <= 2 {
					n = 3
				}
				return &EngGen{name: "mixed", app: appRich, times: times, ops: seqOps(ops, n, false), gen: g.gen, sel: selC03, post: post}
			})...)
			cs = append(cs, budgets(tierN(tier, 4, 5), func(b int) *EngGen {
				return &EngGen{name: "produce", app: appRich, times: times, ops: seqOps([]Op{disp(CA, "", "i", 0), tick(1), disp(EC, "", "j", 1)}, 2, false),
					gen: G{max: 3, times: []int{0, 1}}.gen, sel: selC03, post: post}
			})...)
			for _, n := range []int{3, 9, 10, 11, 35, 40, 130} {
				// n^2 messages and more: IDs beyond every digit boundary.
				g := &EngGen{
					name: fmt.Sprintf("many/%d", n), app: appChain, times: times,
					ops: fixedOps(disp(CA, "", "i", 0), disp(CA, "", "i", 1), tick(2), reset(), disp(CA, "", "i", 0)),
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{}
						if e == nil || depth(e.base.Tag) >= 2 {
							return s
						}
						for i := 0; i < n; i++ {
							if h.Name == "agg" {
								s.Acts = append(s.Acts, rec(EA, "i"))
							} else if h.Name == "proc" {
								s.Acts = append(s.Acts, rec(CA, "i"))
							}
						}
						if h.Name == "proc" {
							s.Acts = append(s.Acts, sched(TA, "i", 2))
						}
						return s
					}, sel: selC03, post: post,
				}
				cs = append(cs, g.Case())
			}
			return cs
		},
	})
}

// ---- C04 ----

func selC04(e *Ev) string {
	switch e.K {
	case "agg.Handle":
		return e.K + " " + e.H + " " + e.I + " " + e.R + " " + e.X
	case "agg.See":
		return e.K + " " + e.H + " " + e.I + " " + e.R + " " + cut(e.X, " ")
	case "f.AggregateInstanceLoaded":
		return e.K + " " + e.H + " " + e.I + " " + e.R + " " + e.E.Msg
	case "f.AggregateInstanceNotFound", "f.AggregateInstanceCreated", "f.AggregateInstanceDestroyed", "f.AggregateInstanceDestructionReverted":
		return e.K + " " + e.H + " " + e.I + " " + e.E.Msg
	case "return", "panic", "op":
		return e.K
	}
	return ""
}

func knownC04(want, got *Ev) string {
	i := strings.Index(want.X, afterDestroy)
	if want.K != "agg.See" || got.K != "agg.See" || i < 0 {
		return ""
	}
	if got.H == want.H && got.I == want.I && got.X == want.X[:i] && got.R == want.X[i+len(afterDestroy):] {
		return "aggregate-event-after-destroy: an event recorded after Destroy() in the same command is not visible on the handler's root"
	}
	return ""
}

// longID is the beginning of long instance IDs.
var longID = strings.Repeat("instance-", 40)

func registerC04() {
	apps := app(
		HSpec{Name: "agg", Kind: Agg, In: []MT{CA, CB}, Out: []MT{EA, ED}},
		HSpec{Name: "agg2", Kind: Agg, In: []MT{CC}, Out: []MT{EB}},
		HSpec{Name: "proc", Kind: Proc, In: []MT{EB}, Out: []MT{CA}},
	)
	mk := func(name string, ids []string, nops, maxActs int, panics bool) func(b int) *EngGen {
		ops := []Op{disp(CA, "", ids[0], 0), disp(CA, "", ids[1], 0), disp(CC, "", ids[0], 0)}
		return func(b int) *EngGen {
			return &EngGen{
				name: name, app: apps, times: stdTimes, sel: selC04, known: knownC04,
				ops: seqOps(ops, nops, false),
				gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
					s := &Script{}
					if h.Name == "proc" {
						// feeds a command back to the first aggregate
						s.Acts = chooseActs(c, []Act{rec(CA, ids[0])}, 1)
						return s
					}
					alpha := []Act{rec(h.Out[0], ids[0]), end()}
					if h.Name == "agg" {
						alpha = append(alpha, rec(ED, ids[0]))
					}
					s.Acts = chooseActs(c, alpha, maxActs)
					if panics {
						s.Fin = [...]byte{fOK, fPanic, fUnexpected}[c.Dev(3)]
						if s.Fin == fOK && len(s.Acts) > 0 {
							s.Apply = [...]byte{0, 'p'}[c.Dev(2)]
						}
					}
					return s
				},
			}
		}
	}
	register(&Check{
		ID:   "C04",
		Rule: ruleEngine + "; enumerated: every sequence of commands to two instances and two aggregates, and for each command every sequence of record/destroy actions and every way to finish",
		Cases: func(tier string) []*Case {
			var cs []*Case
			cs = append(cs, budgets(tierN(tier, 4, 5), mk("two-instances", []string{"x", "y"}, 4, 4, false))...)
			cs = append(cs, budgets(tierN(tier, 5, 6), mk("one-command-more", []string{"x", "y"}, 3, 5, false))...)
			cs = append(cs, budgets(tierN(tier, 4, 5), mk("panics", []string{"x", "y"}, tierN(tier, 3, 4), 3, true))...)
			for i, ids := range [][]string{{"x", "X"}, {"x", "x "}, {"a", "a/b"}, {"1", "01"}, {"é", "e"}, {"x", "agg"}, {"\x00", "\x00\x00"}, {longID + "x", longID + "y"}} {
				cs = append(cs, budgets(3, mk(fmt.Sprintf("ids%d", i), ids, 4, 2, false))...)
			}
			// Many instances, one or two of which are destroyed.
			for _, n := range []int{3, 8, 20, 60} {
				g := &EngGen{
					name: fmt.Sprintf("many-instances/%d", n), app: apps, times: stdTimes, sel: selC04, known: knownC04, budget: 2,
					ops: func(c *Chooser, i int, m *Model) (Op, bool) {
						return disp(CA, optag(i), fmt.Sprintf("inst%d", i%n), 0), i < 3*n
					},
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{Acts: []Act{rec(EA, e.base.Inst)}}
						if h.Name == "agg" && c.Dev(2) == 1 {
							s.Acts = append(s.Acts, end())
						}
						return s
					},
				}
				if n > 20 {
					g.budget = 1
				}
				cs = append(cs, g.Case())
			}
			// Long histories, with destruction at every position.
			for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 130, 260} {
				for _, batch := range []int{1, 3} {
					g := &EngGen{
						name: fmt.Sprintf("history/%d/%d", n, batch), app: apps, times: stdTimes, sel: selC04, known: knownC04,
						ops: func(c *Chooser, i int, m *Model) (Op, bool) {
							return disp(CA, optag(i), []string{"x", "y"}[i%2], 0), i < 2*n+2
						},
						gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
							s := &Script{}
							for k := 0; k < batch; k++ {
								s.Acts = append(s.Acts, rec(EA, "x"))
							}
							// Destroy x at one chosen position.
							if e.base.Inst == "x" {
								if n <= 17 || e.base.Tag == optag(n/2*2) {
									if c.Dev(2) == 1 {
										s.Acts = []Act{end()}
									}
								}
							}
							return s
						},
						budget: 1,
					}
					cs = append(cs, g.Case())
				}
			}
			return cs
		},
	})
}

// ---- C05 ----

func selC05(e *Ev) string {
	switch e.K {
	case "proc.Route":
		return e.K + " " + e.H + " " + e.X
	case "proc.Event", "proc.Timeout":
		return e.K + " " + e.H + " " + e.I + " " + e.R + " " + e.X
	case "int.Handle":
		return e.K + " " + e.H + " " + e.X
	case "f.ProcessInstanceLoaded", "f.ProcessInstanceBegun":
		return e.K + " " + e.H + " " + e.I + " " + e.R + " " + e.E.Msg
	case "f.ProcessInstanceNotFound", "f.ProcessInstanceEnded", "f.ProcessInstanceEndingReverted", "f.ProcessEventIgnored", "f.ProcessTimeoutIgnored":
		return e.K + " " + e.H + " " + e.I + " " + e.E.Msg
	case "return", "panic", "op":
		return e.K
	}
	return ""
}

func registerC05() {
	apps := app(
		HSpec{Name: "p", Kind: Proc, In: []MT{EA, EB}, Out: []MT{CA, TA}},
		HSpec{Name: "p2", Kind: Proc, In: []MT{EA}, Out: []MT{CB, TA}},
		HSpec{Name: "i", Kind: Int, In: []MT{CA, CB}, Out: []MT{EB}},
	)
	mk := func(name string, ids []string, nops int, g G) func(b int) *EngGen {
		ops := []Op{disp(EA, "", ids[0], 0), disp(EA, "", ids[1], 0), disp(EB, "", ids[0], 1), tick(1)}
		return func(b int) *EngGen {
			return &EngGen{name: name, app: apps, times: stdTimes, sel: selC05, ops: seqOps(ops, nops, true), gen: g.gen}
		}
	}
	register(&Check{
		ID:   "C05",
		Rule: ruleEngine + "; enumerated: every sequence of events to two instances of two processes, with every routing result, every sequence of execute/schedule/end actions and every way to finish",
		Cases: func(tier string) []*Case {
			var cs []*Case
			cs = append(cs, budgets(tierN(tier, 4, 5), mk("lifecycle", []string{"x", "y"}, tierN(tier, 2, 3), G{max: 4, ends: true, times: []int{0, 1}}))...)
			cs = append(cs, budgets(tierN(tier, 3, 4), mk("lifecycle3", []string{"x", "y"}, 3, G{max: 4, ends: true, times: []int{0, 1}}))...)
			cs = append(cs, budgets(tierN(tier, 3, 4), mk("failures", []string{"x", "y"}, 3, G{max: 3, ends: true, errs: true, panics: true, routes: true, times: []int{1}}))...)
			cs = append(cs, budgets(tierN(tier, 3, 4), mk("contract", []string{"x", "y"}, 2, G{max: 3, ends: true, contract: true, times: []int{1}}))...)
			cs = append(cs, budgets(tierN(tier, 2, 3), mk("long", []string{"x", "y"}, 5, G{max: 3, ends: true, errs: true, times: []int{1}}))...)
			for i, ids := range [][]string{{"x", "X"}, {"x", "x "}, {"a", "ab"}, {"é", "e"}, {"p", "p2"}, {longID + "x", longID + "y"}} {
				cs = append(cs, budgets(2, mk(fmt.Sprintf("ids%d", i), ids, 3, G{max: 2, ends: true, times: []int{1}}))...)
			}
			// Many instances; one of them ends.
			for _, n := range []int{3, 8, 20, 40} {
				g := &EngGen{
					name: fmt.Sprintf("many-instances/%d", n), app: apps, times: stdTimes, sel: selC05, budget: 2,
					ops: func(c *Chooser, i int, m *Model) (Op, bool) {
						if i == 2*n {
							return tick(1), true
						}
						return disp(EA, optag(i), fmt.Sprintf("inst%d", i%n), 0), i <= 2*n
					},
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{}
						if e.mt.kind() != kEvt || h.Kind != Proc {
							return s
						}
						s.Acts = []Act{sched(TA, "", 1), rec(h.Out[0], e.base.Inst)}
						if h.Name == "p" {
							switch c.Dev(3) {
							case 1:
								s.Acts = append(s.Acts, end())
							case 2:
								s.Fin = fErr
							}
						}
						return s
					},
				}
				if n > 20 {
					g.budget = 1
				}
				cs = append(cs, g.Case())
			}
			return cs
		},
	})
}

// ---- C06 ----

func selC06(e *Ev) string {
	switch e.K {
	case "proc.Timeout":
		return e.K + " " + e.H + " " + e.I + " " + cut(e.X, " ctx")
	case "f.ProcessTimeoutIgnored":
		return e.K + " " + e.H + " " + e.I + " " + e.E.Msg
	case "f.TimeoutScheduledByProcess":
		return e.K + " " + e.H + " " + e.I + " " + e.C.Msg + " " + e.C.Sched
	case "return", "panic", "op":
		return e.K
	}
	return ""
}

func registerC06() {
	apps := app(
		HSpec{Name: "p", Kind: Proc, In: []MT{EA}, Out: []MT{CA, TA, TB}},
		HSpec{Name: "p2", Kind: Proc, In: []MT{EB}, Out: []MT{CA, TA}},
		HSpec{Name: "i", Kind: Int, In: []MT{CA}},
	)
	off := func(o Op, n string) Op { o.En = []EnOpt{{Name: n}}; return o }
	zone := time.FixedZone("somewhere", -7*3600)
	boundary := []time.Time{epoch, epoch.Add(1), epoch.Add(time.Second), epoch.Add(time.Second + 1).In(zone), epoch.Add(1000 * time.Hour)}
	register(&Check{
		ID:   "C06",
		Rule: ruleEngine + "; enumerated: every sequence of events and ticks (with handlers enabled or disabled), every set of timeouts scheduled for every time of a table with nanosecond boundaries, in the past, present and future",
		Cases: func(tier string) []*Case {
			var cs []*Case
			ops := []Op{disp(EA, "", "x", 0), disp(EA, "", "y", 2), disp(EB, "", "x", 0), tick(0), tick(1), tick(2), tick(4), off(tick(2), "p")}
			cs = append(cs, budgets(tierN(tier, 3, 4), func(b int) *EngGen {
				n := 4
				if b > 2 {
					n = 3
				}
				return &EngGen{name: "schedule", app: apps, times: boundary, sel: selC06, ops: seqOps(ops, n, true),
					gen: G{max: 3, ends: true, times: []int{0, 1, 2, 3}}.gen}
			})...)
			// Time may jump in any direction between operations.
			ops2 := []Op{disp(EA, "", "x", 2), tick(0), tick(1), tick(2), tick(3), disp(EA, "", "x", 0)}
			cs = append(cs, budgets(2, func(b int) *EngGen {
				return &EngGen{name: "any-time", app: apps, times: boundary, sel: selC06, ops: seqOps(ops2, 4, false),
					gen: G{max: 2, ends: true, errs: true, times: []int{0, 2, 3}}.gen}
			})...)
			// Deterministic two-phase scenarios: schedule k timeouts per instance
			// with every assignment of times, then tick through all times.
			k := tierN(tier, 4, 5)
			g := &EngGen{name: "assignments", app: apps, times: boundary, sel: selC06,
				ops: fixedOps(disp(EA, "a", "x", 0), disp(EA, "b", "y", 0), disp(EB, "c", "x", 0), tick(0), tick(1), tick(2), tick(3), tick(4)),
				gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
					s := &Script{}
					if e.mt.kind() == kTmo {
						return s
					}
					n := k
					if h.Name == "p2" {
						n = 1
					} else if e.base.Tag == "b" {
						n = 2
					}
					for i := 0; i < n; i++ {
						s.Acts = append(s.Acts, sched(TA, "", c.Choose(len(boundary))))
					}
					return s
				}}
			cs = append(cs, g.Case())
			// Timeouts in the far past and future.
			far := []time.Time{epoch, epoch.AddDate(-100, 0, 0), epoch.AddDate(0, 0, 1), epoch.AddDate(1, 0, 0), epoch.AddDate(300, 0, 0), epoch.AddDate(5000, 0, 0).In(zone)}
			cs = append(cs, (&EngGen{name: "far", app: apps, times: far, sel: selC06,
				ops: fixedOps(disp(EA, "a", "x", 0), disp(EB, "b", "x", 2), tick(1), tick(2), tick(3), tick(4), tick(5), tick(0)),
				gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
					s := &Script{}
					if e.mt.kind() == kTmo {
						return s
					}
					for i := 0; i < 3; i++ {
						s.Acts = append(s.Acts, sched(TA, "", c.Choose(len(far))))
					}
					return s
				}}).Case())
			// Many timeouts of one call, due at once or later.
			for _, n := range []int{33, 130} {
				cs = append(cs, (&EngGen{name: fmt.Sprintf("burst/%d", n), app: apps, times: boundary, sel: selC06,
					ops: fixedOps(disp(EA, "a", "x", 1), tick(1), tick(2), tick(4)),
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{}
						if e.mt.kind() == kTmo {
							return s
						}
						k := c.Choose(len(boundary))
						for i := 0; i < n; i++ {
							s.Acts = append(s.Acts, sched(TA, "", (i*k)%len(boundary)))
						}
						return s
					}}).Case())
			}
			// Ending an instance, from an event or a timeout, with many pending
			// timeouts of several instances.
			for _, n := range []int{1, 2, 3, 6, 12, 13, 20, 40, 130} {
				for pat := 0; pat < 5; pat++ {
					var times []time.Time
					for i := 0; i <= n+1; i++ {
						times = append(times, epoch.Add(time.Duration(i)*time.Minute))
					}
					idx := func(i int) int {
						switch pat {
						case 0:
							return 1 + i
						case 1:
							return n - i
						case 2:
							return 1 + (i*7)%n
						case 3:
							return 1 + i%2
						default:
							return 1 + (i*i)%n
						}
					}
					name := fmt.Sprintf("many/%d/%d", n, pat)
					g := &EngGen{name: name, app: apps, times: times, sel: selC06, budget: 1,
						ops: func(c *Chooser, i int, m *Model) (Op, bool) {
							switch i {
							case 0, 1, 2:
								return disp(EA, optag(i), []string{"x", "y", "z"}[i], 0), true
							case 3:
								t := 1 + c.Choose(2)*(n/2)
								return tick(t), true
							case 4:
								return disp(EA, "mid", "y", n/2+1), true
							case 5:
								return tick(n + 1), true
							case 6:
								return tick(n + 1), true
							}
							return Op{}, false
						},
						gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
							s := &Script{}
							if e.mt.kind() == kTmo || e.base.Tag == "mid" {
								if n <= 13 && c.Dev(2) == 1 {
									s.Acts = []Act{end()}
								}
								return s
							}
							for i := 0; i < n; i++ {
								s.Acts = append(s.Acts, sched(TA, "", idx(i)))
							}
							return s
						}}
					cs = append(cs, g.Case())
				}
			}
			return cs
		},
	})
}

// ---- C07 ----

func selC07(e *Ev) string {
	switch e.K {
	case "proj.Version", "proj.Handle", "proj.Close":
		return e.K + " " + e.H + " " + cut(e.X, " ctx")
	case "f.HandlingCompleted":
		return e.K + " " + e.H + " " + e.X
	case "return", "panic", "op":
		return e.K + " " + e.X
	}
	return ""
}

func registerC07() {
	apps := app(
		HSpec{Name: "v", Kind: Proj, In: []MT{EA, EB}},
		HSpec{Name: "w", Kind: Proj, In: []MT{EA, ED}},
		HSpec{Name: "i", Kind: Int, In: []MT{CA}, Out: []MT{EA, ED}},
	)
	full := func(panics, compact bool) func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
		return func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
			s := &Script{}
			if e == nil {
				if compact {
					s.CompFin = [...]byte{0, 'E', 'P'}[c.Choose(3)]
				}
				return s
			}
			if h.Kind == Int {
				s.Acts = []Act{rec(EA, "i"), rec(ED, "i")}
				return s
			}
			vers := []byte{0, 'n', 'v', 'V', 'e', 'E'}
			fins := []byte{fOK, fErr}
			closes := []byte{0, 'e'}
			if panics {
				vers = append(vers, 'p')
				fins = append(fins, fPanic, fUnexpected)
				closes = append(closes, 'p')
			}
			s.Ver = vers[c.Choose(len(vers))]
			if s.Ver != 0 && s.Ver != 'n' {
				return s
			}
			s.NotOK = c.Bool()
			s.Fin = fins[c.Choose(len(fins))]
			s.Close = closes[c.Choose(len(closes))]
			return s
		}
	}
	register(&Check{
		ID:   "C07",
		Rule: ruleEngine + "; enumerated: every combination of results of the version, handling, closing and compaction calls for every event and projection of the scenario",
		Cases: func(tier string) []*Case {
			var cs []*Case
			add := func(name string, compactDH, panics bool, ops ...Op) {
				cs = append(cs, (&EngGen{name: name, app: apps, times: stdTimes, sel: selC07, compactDH: compactDH,
					ops: fixedOps(ops...), gen: full(panics, compactDH)}).Case())
			}
			add("one-event", false, true, disp(EB, "", "i", 0), disp(EB, "", "i", 0))
			add("two-projections", false, true, disp(EA, "", "i", 0))
			add("one-event/compact", true, true, disp(EB, "", "i", 0), disp(EB, "", "i", 0))
			add("two-projections/compact", true, true, disp(EA, "", "i", 0))
			add("produced/compact", true, false, disp(CA, "", "i", 0))
			add("produced", false, false, disp(CA, "", "i", 0))
			if tier != "quick" {
				add("three-events", false, true, disp(EB, "", "i", 0), disp(EB, "", "i", 0), disp(EB, "", "i", 0))
			}
			return cs
		},
	})
}

// ---- C09 ----

func selC09(e *Ev) string {
	switch e.K {
	case "f.HandlingCompleted", "f.TickCompleted", "f.ProjectionCompactionCompleted":
		return e.K + " " + e.H + " " + e.X
	case "f.DispatchCompleted", "f.TickCycleCompleted", "f.DispatchCycleCompleted":
		return e.K + " " + cut(e.X, " types{")
	case "agg.Handle", "int.Handle", "proc.Event", "proc.Timeout", "proc.Route", "proj.Handle", "proj.Version", "proj.Compact", "proj.Close":
		return e.K + " " + e.H + " " + e.I + " " + e.X
	case "return", "panic", "op":
		return e.K + " " + e.X
	}
	return ""
}

func registerC09() {
	register(&Check{
		ID:   "C09",
		Rule: ruleEngine + "; enumerated: every placement of handler errors, compaction errors and context cancellations up to the budget",
		Assumptions: []string{
			"an operation whose context is cancelled beforehand may either not begin at all or handle its first message",
			"timeouts that are due in a tick that is cancelled by a compaction are unspecified and not enumerated",
		},
		Cases: func(tier string) []*Case {
			var cs []*Case
			cancelled := func(o Op) Op { o.Ctx = 'c'; return o }
			ops := []Op{disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(CC, "", "i", 0), disp(ED, "", "i", 1), tick(1)}
			cs = append(cs, budgets(tierN(tier, 4, 5), func(b int) *EngGen {
				n := 2
				if b >= 4 {
					n = 1
				}
				return &EngGen{name: "errors", app: appRich, times: stdTimes, sel: selC09, ops: seqOps(ops, n, true),
					gen: G{max: 2, errs: true, routes: true, proj: true, times: []int{0, 1}, compact: true}.gen}
			})...)
			cs = append(cs, budgets(tierN(tier, 3, 4), func(b int) *EngGen {
				return &EngGen{name: "cancel", app: appRich, times: stdTimes, sel: selC09, ops: seqOps(append(ops, cancelled(disp(CA, "", "i", 0))), 2, true),
					gen: G{max: 2, errs: true, cancels: true, times: []int{0, 1}}.gen}
			})...)
			cs = append(cs, budgets(3, func(b int) *EngGen {
				return &EngGen{name: "compact-errors", app: appRich, times: stdTimes, sel: selC09, compactDH: true, ops: seqOps(ops, 2, true),
					gen: G{max: 2, errs: true, proj: true, times: []int{1}, compact: true}.gen}
			})...)
			// Compaction cancels the tick.
			projs := app(
				HSpec{Name: "v1", Kind: Proj, In: []MT{EA}}, HSpec{Name: "v2", Kind: Proj, In: []MT{EA}}, HSpec{Name: "v3", Kind: Proj, In: []MT{EA}},
			)
			cs = append(cs, budgets(3, func(b int) *EngGen {
				return &EngGen{name: "tick-cancel", app: projs, times: stdTimes, sel: selC09,
					ops: seqOps([]Op{tick(0), tick(3), disp(EA, "", "i", 3), cancelled(tick(3))}, 3, true),
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						if e != nil {
							return G{errs: true, cancels: true}.gen(c, h, e, m)
						}
						s := &Script{}
						switch c.Dev(4) {
						case 1:
							s.CompFin = 'E'
						case 2:
							s.CompCxl = true
						case 3:
							s.CompCxl, s.CompFin = true, 'E'
						}
						return s
					}}
			})...)
			// Many failing handlers of one message, and failures at every depth.
			for _, n := range []int{2, 5, 11, 17, 40} {
				g := &EngGen{name: fmt.Sprintf("many-errors/%d", n), app: manyHandlers(n), times: stdTimes, sel: selC09, budget: 2,
					ops: fixedOps(disp(CA, "", "i", 0), tick(1)),
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{}
						if e == nil {
							s.CompFin = 'E'
							return s
						}
						if h.Name == "src" {
							s.Acts = []Act{rec(EA, "i"), rec(EA, "i")}
						}
						if h.Kind == Proc {
							s.Acts = []Act{rec(CB, "i"), sched(TA, "", 1)}
						}
						s.Fin = [...]byte{fErr, fOK}[c.Dev(2)]
						return s
					}}
				cs = append(cs, g.Case())
			}
			return cs
		},
	})
}

// ---- C10 ----

func badOps() []Op {
	return []Op{
		{Kind: 'd', Nil: true},
		{Kind: 'd', MT: CA, Base: Base{Inst: "i", Bad: "invalid!"}},
		{Kind: 'd', MT: EA, Base: Base{Inst: "i", Bad: "invalid!"}},
		{Kind: 'd', MT: TA, Base: Base{Inst: "i"}},
		{Kind: 'd', MT: CF, Base: Base{Inst: "i"}},
		{Kind: 'd', MT: EB, Base: Base{Inst: "i"}}, // produced but not consumed
		{Kind: 'd', MT: CA, Base: Base{Inst: "i"}, En: []EnOpt{{Name: "nope", On: true}}},
		{Kind: 't', Now: 1, En: []EnOpt{{Name: "nope", On: true}}},
	}
}

func registerC10() {
	register(&Check{
		ID:   "C10",
		Rule: ruleEngine + "; enumerated: every rejected message and every placement of a panic in any handler method, followed by operations that reveal the engine's state",
		Cases: func(tier string) []*Case {
			var cs []*Case
			good := []Op{disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(CC, "", "i", 0), tick(1)}
			cs = append(cs, budgets(tierN(tier, 3, 4), func(b int) *EngGen {
				n := 3
				if b >= 3 {
					n = 2
				}
				return &EngGen{name: "panics", app: appRich, times: stdTimes, sel: selFull, ops: seqOps(good, n, true),
					gen: G{max: 2, ends: true, panics: true, proj: true, times: []int{0, 1}}.gen}
			})...)
			cs = append(cs, budgets(2, func(b int) *EngGen {
				return &EngGen{name: "rejected", app: appRich, times: stdTimes, sel: selFull, ops: seqOps(append(badOps(), good...), 3, false),
					gen: G{max: 1, panics: true, times: []int{1}}.gen}
			})...)
			// A panic at every point of a busy application, with pending work.
			busy := func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
				s := &Script{}
				if e == nil {
					s.CompFin = [...]byte{0, 'P'}[c.Dev(2)]
					return s
				}
				if depth(e.base.Tag) < 4 {
					for _, t := range h.Out {
						if t.kind() == kTmo {
							s.Acts = append(s.Acts, sched(t, "i", 1))
						} else {
							s.Acts = append(s.Acts, rec(t, "i"))
						}
					}
				}
				switch c.Dev(4) {
				case 1:
					s.Fin = fPanic
				case 2:
					s.Route, s.Ver = 'p', 'p'
				case 3:
					s.Acts, s.Fin = s.Acts[:len(s.Acts)/2], fPanic
				}
				return s
			}
			for n := 1; n <= tierN(tier, 1, 2); n++ {
				g := &EngGen{name: fmt.Sprintf("busy/%d", n), app: appRich, times: stdTimes, sel: selFull, budget: n,
					ops: fixedOps(disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(ED, "", "j", 0), disp(CA, "", "i", 0)), gen: busy}
				cs = append(cs, g.Case())
			}
			projs := app(
				HSpec{Name: "v1", Kind: Proj, In: []MT{EA}}, HSpec{Name: "v2", Kind: Proj, In: []MT{EA}},
			)
			g := &EngGen{name: "compact-panics", app: projs, times: stdTimes, sel: selFull, budget: 2,
				ops: seqOps([]Op{tick(0), tick(3), disp(EA, "", "i", 3)}, 4, true), gen: busy}
			cs = append(cs, g.Case())
			cs = append(cs, budgets(tierN(tier, 2, 3), func(b int) *EngGen {
				return &EngGen{name: "parallel-compact-panics", app: projs, times: stdTimes, sel: selFull, compactDH: true,
					ops: seqOps([]Op{disp(EA, "", "i", 0), tick(0), disp(EA, "", "i", 3), tick(3)}, 3, true),
					gen: G{panics: true, errs: true, logs: true, proj: true, compact: true}.gen}
			})...)
			g = &EngGen{name: "busy/parallel", app: appRich, times: stdTimes, sel: selFull, budget: 1, compactDH: true,
				ops: fixedOps(disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(ED, "", "j", 0), disp(CA, "", "i", 0)), gen: busy}
			cs = append(cs, g.Case())
			return cs
		},
	})
}

// ---- C11 ----

func selC11(e *Ev) string {
	switch e.K {
	case "panic":
		return e.String()
	case "f.EventRecordedByAggregate", "f.CommandExecutedByProcess", "f.TimeoutScheduledByProcess", "f.EventRecordedByIntegration":
		return e.K + " " + e.H + " " + e.C.Msg
	}
	if strings.HasPrefix(e.K, "f.") {
		return ""
	}
	return selMethods(e)
}

func registerC11() {
	post := func(scn *Scn, r *EngRun, m *Model) string {
		for _, s := range r.run.locErrs {
			if s != "" {
				return s
			}
		}
		return ""
	}
	register(&Check{
		ID:   "C11",
		Rule: ruleEngine + "; enumerated: every kind of contract violation at every handler call, alone and after other actions, followed by operations that reveal the engine's state; the diagnosis carries the right handler, method, message and source line",
		Cases: func(tier string) []*Case {
			var cs []*Case
			ops := []Op{disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(CC, "", "i", 0), tick(1)}
			cs = append(cs, budgets(tierN(tier, 3, 4), func(b int) *EngGen {
				return &EngGen{name: "contract", app: appRich, times: stdTimes, sel: selC11, post: post, ops: seqOps(ops, 2, true),
					gen: G{max: 2, ends: true, contract: true, times: []int{1}}.gen}
			})...)
			// Which messages may be produced depends on the handler alone: the
			// full matrix of handlers and message types.
			for _, first := range []MT{CA, CB, CC, CD, EA, EC, ED} {
				g := &EngGen{name: "matrix/" + first.String(), app: appRich, times: stdTimes, sel: selC11, post: post, budget: 1,
					ops: fixedOps(disp(first, "", "i", 0), disp(first, "", "i", 0), tick(1)),
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{}
						if h.Kind == Proj || e == nil || depth(e.base.Tag) > 1 {
							return s
						}
						var all []Act
						for t := MT(0); t < numMT; t++ {
							ok := false
							switch h.Kind {
							case Agg, Int:
								ok = t.kind() == kEvt
							case Proc:
								ok = t.kind() != kEvt
							}
							if ok {
								all = append(all, sched(t, "i", 1), Act{Op: oRecord, MT: t, Inst: "i", Bad: "bad", At: 1})
							}
						}
						s.Acts = chooseActs(c, all, 1)
						return s
					}}
				cs = append(cs, g.Case())
			}
			return cs
		},
	})
}

// ---- C12 ----

func registerC12() {
	register(&Check{
		ID:   "C12",
		Rule: ruleEngine + "; compared: the complete sequence of facts and handler calls, and that all observers of an operation receive the same sequence",
		Cases: func(tier string) []*Case {
			var cs []*Case
			ops := []Op{disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(CC, "", "i", 0), disp(ED, "", "i", 0), tick(1), tick(3)}
			for _, obs := range []int{1, 2, 5} {
				bb := 2
				if obs == 2 {
					bb = tierN(tier, 3, 4)
				}
				cs = append(cs, budgets(bb, func(b int) *EngGen {
					n := 2
					return &EngGen{name: fmt.Sprintf("facts/obs%d", obs), app: appRich, times: stdTimes, sel: selFull, observers: obs, ops: seqOps(ops, n, true),
						gen: G{max: 3, ends: true, logs: true, errs: true, routes: true, times: []int{0, 1}, compact: true}.gen}
				})...)
			}
			cs = append(cs, budgets(2, func(b int) *EngGen {
				return &EngGen{name: "compact-during-handling", app: appRich, times: stdTimes, sel: selFull, observers: 3, compactDH: true, ops: seqOps(ops, 2, true),
					gen: G{max: 2, logs: true, errs: true, proj: true, times: []int{1}, compact: true}.gen}
			})...)
			cs = append(cs, budgets(2, func(b int) *EngGen {
				return &EngGen{name: "panics", app: appRich, times: stdTimes, sel: selFull, observers: 2, ops: seqOps(ops, 2, true),
					gen: G{max: 2, logs: true, panics: true, cancels: true, times: []int{1}}.gen}
			})...)
			g := &EngGen{name: "busy", app: appRich, times: stdTimes, sel: selFull, observers: 70,
				ops: fixedOps(disp(CA, "", "i", 0), disp(EA, "", "j", 0), tick(1), tick(3), disp(CD, "", "i", 3)),
				gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
					s := &Script{CompLogs: 3}
					if e == nil || depth(e.base.Tag) > 2 {
						return s
					}
					for i := 0; i < 2; i++ {
						for _, t := range h.Out {
							s.Acts = append(s.Acts, sched(t, "i", 1), logAct())
						}
					}
					return s
				}}
			cs = append(cs, g.Case())
			return cs
		},
	})
}

// ---- C13 ----

func registerC13() {
	register(&Check{
		ID:   "C13",
		Rule: ruleEngine + "; enumerated: every position of resets in every history of operations (successful, failing, panicking, cancelled, rejected), followed by operations that reveal any surviving state",
		Cases: func(tier string) []*Case {
			var cs []*Case
			ops := []Op{disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(CC, "", "j", 1), tick(1), reset()}
			for _, rs := range []int{0, 3} {
				cs = append(cs, budgets(tierN(tier, 2, 3), func(b int) *EngGen {
					return &EngGen{name: fmt.Sprintf("resets/%d", rs), app: appRich, times: stdTimes, sel: selFull, resetters: rs, ops: seqOps(ops, 4, false),
						gen: G{max: 2, ends: true, panics: true, errs: true, times: []int{1}}.gen}
				})...)
			}
			cs = append(cs, budgets(2, func(b int) *EngGen {
				return &EngGen{name: "cancel", app: appRich, times: stdTimes, sel: selFull, resetters: 1, ops: seqOps(ops, 3, false),
					gen: G{max: 2, cancels: true, times: []int{1}}.gen}
			})...)
			// A busy history in which everything has state, then a reset, then
			// operations that would reveal it.
			busy := func(fin byte) func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
				return func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
					s := &Script{}
					if e == nil || depth(e.base.Tag) > 3 {
						return s
					}
					for _, t := range h.Out {
						s.Acts = append(s.Acts, sched(t, e.base.Inst, 2))
					}
					if c.Dev(2) == 1 {
						s.Fin = fin
					}
					return s
				}
			}
			for _, fin := range []byte{fPanic, fErr} {
				g := &EngGen{name: fmt.Sprintf("busy/%c", fin), app: appRich, times: stdTimes, sel: selFull, resetters: 2, budget: 1,
					ops: fixedOps(disp(CA, "", "i", 0), disp(EA, "", "j", 0), disp(CC, "", "i", 1), reset(), tick(3), disp(CA, "", "i", 3), disp(EA, "", "j", 3), disp(CC, "", "i", 3), tick(3), reset(), reset(), disp(EA, "", "i", 3)),
					gen: busy(fin)}
				cs = append(cs, g.Case())
			}
			// Rejected dispatches before a reset.
			g := &EngGen{name: "rejected", app: appRich, times: stdTimes, sel: selFull, resetters: 40,
				ops: seqOps(append(badOps(), reset(), disp(CA, "", "i", 0)), 3, false)}
			cs = append(cs, g.Case())
			cs = append(cs, &Case{Name: "observer-panics", Body: observerPanics})
			return cs
		},
	})
}

// observerPanics lets an observer panic when it is notified of one of the facts
// of one of several operations, and compares what happens after a reset with
// the behaviour of a new engine.
func observerPanics(w *Worker, c *Chooser) string {
	before := []Op{disp(CA, "a", "i", 0), disp(EA, "b", "j", 0), tick(1), disp(CC, "c", "i", 1), tick(2)}
	after := []Op{tick(3), disp(CA, "d", "i", 3), disp(EA, "e", "j", 3), disp(CC, "f", "i", 3), tick(3)}
	scn := &Scn{App: appRich, Times: stdTimes, Scripts: map[skey]*Script{}, Resetters: 2}
	scn.Ops = append(append(append(scn.Ops, before...), reset()), after...)
	m := newModel(scn)
	m.gen = func(h *HSpec, e *menv, m *Model) *Script {
		s := &Script{}
		if e == nil || depth(e.base.Tag) > 1 {
			return s
		}
		for _, t := range h.Out {
			s.Acts = append(s.Acts, sched(t, e.base.Inst, 2))
		}
		return s
	}
	for i, op := range scn.Ops {
		m.step(i, op)
	}
	// Count the facts of the operation in a run without the panic.
	at := c.Choose(len(before))
	r := newEngRun(w, scn)
	for i, op := range before[:at+1] {
		r.do(i, op)
	}
	n := c.Choose(len(r.main))
	r = newEngRun(w, scn)
	for i, op := range before[:at] {
		r.do(i, op)
	}
	type mine struct{}
	var v any
	func() {
		defer func() { v = recover() }()
		seen := 0
		opts := append(r.options(before[at]), engine.WithObserver(fact.ObserverFunc(func(fact.Fact) {
			if seen++; seen == n+1 {
				panic(mine{})
			}
		})))
		if op := before[at]; op.Kind == 'd' {
			_ = r.e.Dispatch(context.Background(), op.MT.make(op.Base), opts...)
		} else {
			_ = r.e.Tick(context.Background(), opts...)
		}
	}()
	w.st.transitions.Add(int64(at + 1 + len(after)))
	what := fmt.Sprintf("an observer of operation %d panics at fact %d of\n%s", at, n, scn)
	if v != (mine{}) {
		return fmt.Sprintf("%s\nthe operation panicked with %v", what, v)
	}
	// The engine must not be left locked. The limit matters only if it is.
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	if err := r.e.Tick(ctx, engine.WithCurrentTime(stdTimes[0])); err == context.DeadlineExceeded {
		return what + "\nthe engine does not accept another operation"
	}
	r.do(at+1, reset())
	r.run.trace = nil
	for i, op := range after {
		r.do(i, op)
	}
	got := r.run.trace
	scn.Ops = after
	m = newModel(scn)
	m.obs = observe(got)
	m.run()
	g := &EngGen{sel: selFull}
	w.st.nontrivial.Add(1)
	w.st.Outcome(g.outcome(w, got))
	w.st.State(hashInts(uint64(at), uint64(n), uint64(len(got))))
	if d := diffTraces(m.trace, got, g, w.st); d != "" {
		return what + "\nafter a reset:\n" + d
	}
	return ""
}
