package main

import (
	"fmt"
	"time"
)

// selCalls projects a trace onto the calls of handler methods that deliver
// messages, their completion and the completion of the operation.
func selCalls(e *Ev) string {
	switch e.K {
	case "op":
		return "op " + e.X
	case "agg.Handle", "int.Handle", "proc.Event", "proc.Timeout", "proj.Handle":
		return e.K + " " + e.H + " " + e.I + " " + cut(e.X, " ")
	case "agg.Done", "int.Done", "proc.Done", "proj.Done":
		return e.K + " " + e.H
	case "return", "panic":
		return e.K
	}
	return ""
}

// appDiamond has several consumers per event, cycles through processes and a
// timeout type that is shared by two processes.
var appDiamond = app(
	HSpec{Name: "agg", Kind: Agg, In: []MT{CA}, Out: []MT{EA, EB}},
	HSpec{Name: "p1", Kind: Proc, In: []MT{EA, EB}, Out: []MT{CB, TA}},
	HSpec{Name: "p2", Kind: Proc, In: []MT{EA, EC}, Out: []MT{CC, CD, TA}},
	HSpec{Name: "int", Kind: Int, In: []MT{CB, CC}, Out: []MT{EC, ED}},
	HSpec{Name: "int2", Kind: Int, In: []MT{CD}},
	HSpec{Name: "v1", Kind: Proj, In: []MT{EA, EC, ED}},
	HSpec{Name: "v2", Kind: Proj, In: []MT{EC, ED}},
)

func genDiamond(fails bool) func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
	fin := func(c *Chooser, s *Script) *Script {
		if fails {
			s.Fin = [...]byte{fOK, fErr}[c.Dev(2)]
		}
		return s
	}
	return func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
		s := &Script{}
		switch h.Name {
		case "agg":
			s.Acts = chooseActs(c, []Act{rec(EA, "i"), rec(EB, "i")}, 3)
			return s
		case "p1":
			s.Acts = chooseActs(c, []Act{rec(CB, "i"), sched(TA, "i", 0), sched(TA, "i", 1), end()}, 2)
		case "p2":
			s.Acts = chooseActs(c, []Act{rec(CC, "i"), rec(CD, "i"), sched(TA, "i", 0), sched(TA, "i", 1)}, 2)
		case "int":
			s.Acts = chooseActs(c, []Act{rec(EC, "i"), rec(ED, "i")}, 2)
		}
		return fin(c, s)
	}
}

// chain applications: every message produces further ones until a depth.
var appChain = app(
	HSpec{Name: "agg", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
	HSpec{Name: "proc", Kind: Proc, In: []MT{EA}, Out: []MT{CA, TA}},
	HSpec{Name: "view", Kind: Proj, In: []MT{EA}},
)

func genChain(maxDepth, fan int) func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
	return func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
		s := &Script{}
		if e == nil || depth(e.base.Tag) >= maxDepth {
			return s
		}
		for i := 0; i < fan; i++ {
			switch {
			case h.Name == "agg":
				s.Acts = append(s.Acts, rec(EA, "i"))
			case h.Name == "proc":
				s.Acts = append(s.Acts, rec(CA, "i"))
			}
		}
		return s
	}
}

// manyHandlers has n consumers of one event of mixed kinds.
func manyHandlers(n int) *AppSpec {
	hs := []HSpec{{Name: "src", Kind: Int, In: []MT{CA}, Out: []MT{EA}}}
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			hs = append(hs, HSpec{Name: fmt.Sprintf("p%d", i), Kind: Proc, In: []MT{EA}, Out: []MT{CB, TA}})
		} else {
			hs = append(hs, HSpec{Name: fmt.Sprintf("v%d", i), Kind: Proj, In: []MT{EA}})
		}
	}
	hs = append(hs, HSpec{Name: "sink", Kind: Int, In: []MT{CB}})
	return app(hs...)
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "a scenario is a sequence of dispatches and ticks together with what every handler does with every message it receives; all scenarios up to the bounds are executed on the real engine and compared with the reference model",
		Cases: func(tier string) []*Case {
			var cs []*Case
			times := at(0, time.Second, 2*time.Second)
			ops := []Op{disp(CA, "", "i", 0), disp(EA, "", "i", 0), disp(CB, "", "i", 0), disp(EC, "", "i", 1), tick(1)}
			budget := 4
			if tier != "quick" {
				budget = 5
			}
			for b := 1; b <= budget; b++ {
				g := &EngGen{
					name: fmt.Sprintf("diamond/budget%d", b), app: appDiamond, times: times, budget: b,
					ops: seqOps(ops, 2, true), gen: genDiamond(false), sel: selCalls,
				}
				if b <= 2 {
					g.ops = seqOps(ops, 3, true)
				}
				cs = append(cs, g.Case())
				if b < budget {
					g := &EngGen{
						name: fmt.Sprintf("diamond-failing/budget%d", b), app: appDiamond, times: times, budget: b,
						ops: seqOps(ops, 2, true), gen: genDiamond(true), sel: selCalls,
					}
					cs = append(cs, g.Case())
				}
			}
			// Long chains and wide fans.
			for _, d := range []int{1, 2, 3, 5, 8, 16, 31, 64, 130, 260} {
				g := &EngGen{
					name: fmt.Sprintf("chain/depth%d", d), app: appChain, times: times,
					ops: fixedOps(disp(CA, "", "i", 0), disp(EA, "", "i", 0)), gen: genChain(d, 1), sel: selCalls,
				}
				cs = append(cs, g.Case())
			}
			for f := 2; f <= 9; f++ {
				d := 4
				if f <= 3 {
					d = 6
				}
				g := &EngGen{
					name: fmt.Sprintf("fan/%d", f), app: appChain, times: times,
					ops: fixedOps(disp(CA, "", "i", 0)), gen: genChain(d, f), sel: selCalls,
				}
				cs = append(cs, g.Case())
			}
			// Many messages at once.
			for _, n := range []int{33, 130} {
				burst := app(
					HSpec{Name: "int", Kind: Int, In: []MT{CA}, Out: []MT{EA}},
					HSpec{Name: "proc", Kind: Proc, In: []MT{EA}, Out: []MT{CB, TA}},
					HSpec{Name: "agg", Kind: Agg, In: []MT{CB}, Out: []MT{EB}},
					HSpec{Name: "view", Kind: Proj, In: []MT{EA, EB}},
				)
				g := &EngGen{
					name: fmt.Sprintf("burst/%d", n), app: burst, times: times,
					ops: fixedOps(disp(CA, "", "b", 0), disp(EA, "", "b", 0), disp(CB, "", "b", 0), tick(1), tick(2)), sel: selCalls,
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{}
						if e == nil || e.base.Inst != "b" || e.mt.kind() == kTmo {
							return s
						}
						for i := 0; i < n; i++ {
							switch h.Name {
							case "int":
								s.Acts = append(s.Acts, rec(EA, "i"))
							case "proc":
								s.Acts = append(s.Acts, rec(CB, "i"), sched(TA, "", i%3))
							case "agg":
								s.Acts = append(s.Acts, rec(EB, "i"))
							}
						}
						return s
					},
				}
				cs = append(cs, g.Case())
			}
			for n := 1; n <= 17; n++ {
				a := manyHandlers(n)
				g := &EngGen{
					name: fmt.Sprintf("handlers/%d", n), app: a, times: times,
					ops: fixedOps(disp(CA, "", "i", 0), disp(EA, "", "j", 0), tick(1), tick(2)), sel: selCalls,
					gen: func(c *Chooser, h *HSpec, e *menv, m *Model) *Script {
						s := &Script{}
						switch {
						case h.Name == "src":
							s.Acts = []Act{rec(EA, "i"), rec(EA, "j"), rec(EA, "i")}
						case h.Kind == Proc && e.mt == EA:
							s.Acts = []Act{rec(CB, "i"), sched(TA, "", 1), sched(TA, "", 0), rec(CB, "i")}
						case h.Kind == Proc:
							s.Acts = []Act{rec(CB, "i")}
						}
						return s
					},
				}
				cs = append(cs, g.Case())
			}
			return cs
		},
	})
}
