package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/location"
)

// appRoles uses message types in all roles.
//
//	commands: CA, CD consumed by an aggregate / integration only; CB consumed
//	and produced; CC produced only; CF produced and consumed by disabled
//	handlers only; CE unknown.
//	events: EA produced by an aggregate only; EF produced by an integration
//	only; EB produced and consumed; EC, ED consumed by a process / projection
//	only; EE unknown.
var appRoles = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB, CD}, Out: []MT{EB, EF}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EB, EC}, Out: []MT{CB, CC, TA}},
	HSpec{Name: "v", Kind: Proj, In: []MT{EB, ED}},
	HSpec{Name: "dp", Kind: Proc, In: []MT{EC}, Out: []MT{CF}, Disabled: true},
	HSpec{Name: "di", Kind: Int, In: []MT{CF}, Disabled: true},
)

// tX makes message types that no application uses.
type tX struct{}

// roleExp is an expectation that names one message type.
type roleExp struct {
	mexp
	concrete bool // a concrete type is named
	foreign  bool // the type is not one of those used by any application
	ok2      func(ms []dogma.Message) bool
}

func okAny(t MT) func(ms []dogma.Message) bool {
	return func(ms []dogma.Message) bool {
		for _, m := range ms {
			if mtOf(m) == t {
				return true
			}
		}
		return false
	}
}

func okOnly(t MT) func(ms []dogma.Message) bool {
	return func(ms []dogma.Message) bool {
		for _, m := range ms {
			if mtOf(m) != t && mtOf(m).kind() == t.kind() {
				return false
			}
		}
		return true
	}
}

func never([]dogma.Message) bool { return false }

func cmdRole[T dogma.Command](t MT) []roleExp {
	n := t.String()
	yes := func(T) error { return nil }
	m := t.make(Base{Tag: "stop", Inst: "x"}).(dogma.Command)
	return []roleExp{
		{mexp{name: "specific " + n, t: t, e: testkit.ToExecuteCommand(m)}, true, false, okAny(t)},
		{mexp{name: "type " + n, t: t, e: testkit.ToExecuteCommandType[T]()}, true, false, okAny(t)},
		{mexp{name: "of-type " + n, t: t, e: testkit.ToExecuteCommandOfType(m)}, true, false, okAny(t)},
		{mexp{name: "matching " + n, t: t, e: testkit.ToExecuteCommandMatching(yes)}, true, false, okAny(t)},
		{mexp{name: "only matching " + n, t: t, e: testkit.ToOnlyExecuteCommandsMatching(yes)}, true, false, okOnly(t)},
	}
}

func evtRole[T dogma.Event](t MT) []roleExp {
	n := t.String()
	yes := func(T) error { return nil }
	m := t.make(Base{Tag: "stop", Inst: "x"}).(dogma.Event)
	return []roleExp{
		{mexp{name: "specific " + n, t: t, e: testkit.ToRecordEvent(m)}, true, false, okAny(t)},
		{mexp{name: "type " + n, t: t, e: testkit.ToRecordEventType[T]()}, true, false, okAny(t)},
		{mexp{name: "of-type " + n, t: t, e: testkit.ToRecordEventOfType(m)}, true, false, okAny(t)},
		{mexp{name: "matching " + n, t: t, e: testkit.ToRecordEventMatching(yes)}, true, false, okAny(t)},
		{mexp{name: "only matching " + n, t: t, e: testkit.ToOnlyRecordEventsMatching(yes)}, true, false, okOnly(t)},
	}
}

func roleExps() []roleExp {
	var r []roleExp
	r = append(r, cmdRole[Cmd[tA]](CA)...)
	r = append(r, cmdRole[Cmd[tB]](CB)...)
	r = append(r, cmdRole[Cmd[tC]](CC)...)
	r = append(r, cmdRole[*PCmd](CD)...)
	r = append(r, cmdRole[Cmd[tE]](CE)...)
	r = append(r, cmdRole[Cmd[tF]](CF)...)
	r = append(r, evtRole[Evt[tA]](EA)...)
	r = append(r, evtRole[Evt[tB]](EB)...)
	r = append(r, evtRole[Evt[tC]](EC)...)
	r = append(r, evtRole[*PEvt](ED)...)
	r = append(r, evtRole[Evt[tE]](EE)...)
	r = append(r, evtRole[Evt[tF]](EF)...)
	// Other instances of the generic message types, which the application does
	// not use.
	for _, e := range []roleExp{
		{mexp: mexp{name: "specific CA-like", e: testkit.ToExecuteCommand(Cmd[tX]{Base{Tag: "stop"}})}},
		{mexp: mexp{name: "type CB-like", e: testkit.ToExecuteCommandType[Cmd[tX]]()}},
		{mexp: mexp{name: "matching CB-like", e: testkit.ToExecuteCommandMatching(func(Cmd[tX]) error { return nil })}},
		{mexp: mexp{name: "specific EA-like", e: testkit.ToRecordEvent(Evt[tX]{Base{Tag: "stop"}})}},
		{mexp: mexp{name: "type EB-like", e: testkit.ToRecordEventType[Evt[tX]]()}},
		{mexp: mexp{name: "only matching EB-like", e: testkit.ToOnlyRecordEventsMatching(func(Evt[tX]) error { return nil })}},
	} {
		e.concrete, e.foreign, e.ok2 = true, true, never
		r = append(r, e)
	}
	// Interface types are never rejected.
	r = append(r,
		roleExp{mexp{name: "matching command", e: testkit.ToExecuteCommandMatching(func(dogma.Command) error { return nil })}, false, false, func(ms []dogma.Message) bool {
			for _, m := range ms {
				if mtOf(m).kind() == kCmd {
					return true
				}
			}
			return false
		}},
		roleExp{mexp{name: "only matching event", e: testkit.ToOnlyRecordEventsMatching(func(dogma.Event) error { return nil })}, false, false, func([]dogma.Message) bool { return true }},
	)
	return r
}

// rejected reports whether the expectation can never be met.
func (e roleExp) rejected(a *AppSpec, dispatches bool) bool {
	if !e.concrete {
		return false
	}
	if e.foreign {
		return true
	}
	used, produced := false, false
	for _, h := range a.H {
		if h.produces(e.t) {
			used, produced = true, true
		}
		if h.consumes(e.t) {
			used = true
		}
	}
	return !used || !produced && !dispatches
}

// customAction is a user-defined action.
type customAction struct {
	match bool
	m     dogma.Message
	did   *int
}

func (a customAction) Caption() string             { return "doing something special" }
func (a customAction) Location() location.Location { return location.OfCall() }
func (a customAction) ConfigurePredicate(o *testkit.PredicateOptions) {
	o.MatchDispatchCycleStartedFacts = a.match
}
func (a customAction) Do(ctx contextT, s testkit.ActionScope) error {
	*a.did++
	return s.Engine.Dispatch(ctx, a.m, s.OperationOptions...)
}

// roleActions returns the actions; the result of the second function tells
// whether the action can dispatch messages by itself.
func roleActions(s *Sess, k int, did *int) (string, testkit.Action, bool) {
	go1 := Base{Tag: "go", Inst: "x"}
	switch k {
	case 0:
		return "execute CA", testkit.ExecuteCommand(CA.make(go1).(dogma.Command)), false
	case 1:
		return "execute CB", testkit.ExecuteCommand(CB.make(go1).(dogma.Command)), false
	case 2:
		return "record EC", testkit.RecordEvent(EC.make(go1).(dogma.Event)), false
	case 3:
		return "advance time", testkit.AdvanceTime(testkit.ByDuration(time.Hour)), false
	case 4:
		return "call", testkit.Call(func() {
			for _, t := range []MT{CA, CD} {
				m := t.make(go1).(dogma.Command)
				if err := s.test.CommandExecutor().ExecuteCommand(ctxBg, m); err != nil {
					panic(err)
				}
				s.a.produced = append(s.a.produced, m)
			}
		}), true
	case 5:
		return "empty call", testkit.Call(func() {}), true
	case 6:
		return "custom", customAction{false, EB.make(go1), did}, false
	case 7:
		return "custom with matching", customAction{true, CA.make(go1), did}, true
	}
	return "", nil, false
}

// roleNest wraps an expectation; the second result is the verdict in terms of
// the expectation's.
func roleNest(k int, e testkit.Expectation) (string, testkit.Expectation, func(bool) bool) {
	id := func(b bool) bool { return b }
	not := func(b bool) bool { return !b }
	pass, fail := &leafExp{id: 2, b: lPass}, &leafExp{id: 4, b: lFail}
	switch k {
	case 0:
		return "plain", e, id
	case 1:
		return "not", testkit.Not(e), not
	case 2:
		return "all-of second", testkit.AllOf(pass, e), id
	case 3:
		return "all-of first", testkit.AllOf(e, pass), id
	case 4:
		return "any-of second", testkit.AnyOf(fail, e), id
	case 5:
		return "any-of decided", testkit.AnyOf(pass, fail, e), func(bool) bool { return true }
	case 6:
		return "none-of", testkit.NoneOf(fail, e), not
	case 7:
		return "repeatedly", testkit.ToRepeatedly("repeat", 3, func(i int) testkit.Expectation {
			if i == 2 {
				return e
			}
			return pass
		}), id
	case 8:
		return "nested", testkit.AnyOf(fail, testkit.NoneOf(testkit.AllOf(pass, testkit.Not(e)), fail)), id
	case 9:
		return "nested in repeatedly", testkit.AllOf(pass, testkit.ToRepeatedly("repeat", 2, func(i int) testkit.Expectation {
			return testkit.Not(testkit.AnyOf(e, fail))
		})), not
	}
	return "", nil, nil
}

func init() {
	setup := func(s *Sess, all bool) {
		s.test.EnableHandlers("i", "v")
		s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
			if !all || tagOf(m) != "go" {
				return nil
			}
			for _, t := range h.Out {
				sc.Produce(t.make(Base{Tag: "stop", Inst: "x"}), epoch.Add(time.Minute))
			}
			return nil
		}
	}
	register(&Check{
		ID:          "C22",
		Rule:        "every message type role x every kind of expectation x every action x every nesting x handlers that produce nothing or everything; acceptance and verdict are compared with the definition on the routes",
		Assumptions: []string{"user-defined actions report truthfully whether expectations may match the messages they dispatch"},
		Cases: func(tier string) []*Case {
			var cs []*Case
			exps := roleExps()
			cs = append(cs, &Case{Name: "expectations", Body: func(w *Worker, c *Chooser) string {
				x := exps[c.Choose(len(exps))]
				all := c.Bool()
				s := newSess(appRoles, []byte{0, 'p', 'g'}[c.Choose(3)])
				setup(s, all)
				did := 0
				an, act, dispatches := roleActions(s, c.Choose(8), &did)
				nn, e, f := roleNest(c.Choose(10), x.e)
				pv := s.do(func() { s.test.Expect(act, e) })
				fail := func(msg string, v ...any) string {
					return fmt.Sprintf("expectation %s nested %s, action %s, producing %v: %s\nreports: %q\nfatal: %q", x.name, nn, an, all, fmt.Sprintf(msg, v...), s.t.reports(), s.t.fatals)
				}
				if pv != nil {
					return fail("unexpected panic: %v", pv)
				}
				want := "fatal"
				if x.rejected(appRoles, dispatches) {
					if len(s.facts) != 0 || len(s.a.calls) != 0 || did != 0 {
						return fail("the action was performed")
					}
				} else {
					want = "fail"
					ms := s.a.produced
					if an == "custom with matching" {
						ms = append([]dogma.Message{CA.make(Base{Tag: "go", Inst: "x"})}, ms...)
					}
					// A specific message has to have been produced by a
					// handler, or to be equal to the one dispatched.
					if strings.HasPrefix(x.name, "specific") {
						var sel []dogma.Message
						for _, m := range ms {
							if tagOf(m) == "stop" {
								sel = append(sel, m)
							}
						}
						ms = sel
					}
					if f(x.ok2(ms)) {
						want = "pass"
					}
				}
				if v := s.verdict(); v != want {
					return fail("verdict %s, want %s (messages %s)", v, want, msgs(s.a.produced))
				}
				m2done(w, "expectations", c, x.name+nn+an+want+fmt.Sprint(all), 1, func() any {
					return map[string]any{"expectation": x.name, "nesting": nn, "action": an, "verdict": want}
				})
				return ""
			}})
			cs = append(cs, &Case{Name: "actions", Body: func(w *Worker, c *Chooser) string {
				b := Base{Tag: "go", Inst: "x"}
				ms := []dogma.Message{CE.make(b), EE.make(b), Cmd[tX]{b}, Cmd[struct{}]{b}, Evt[tX]{b}, Evt[struct{}]{b}, CA.make(b), CB.make(b), CD.make(b), EB.make(b), EC.make(b), ED.make(b)}
				i := c.Choose(len(ms))
				m := ms[i]
				known := i >= 6
				all := c.Bool()
				s := newSess(appRoles, []byte{0, 'p', 'g'}[c.Choose(3)])
				setup(s, all)
				var act testkit.Action
				switch m := m.(type) {
				case dogma.Command:
					act = testkit.ExecuteCommand(m)
				case dogma.Event:
					act = testkit.RecordEvent(m)
				}
				expect := c.Bool()
				pv := s.do(func() {
					if expect {
						s.test.Expect(act, &leafExp{b: lPass})
					} else {
						s.test.Prepare(act)
					}
				})
				fail := func(msg string, v ...any) string {
					return fmt.Sprintf("action with %T (%s), expect %v: %s\nreports: %q\nfatal: %q", m, msgStr(m), expect, fmt.Sprintf(msg, v...), s.t.reports(), s.t.fatals)
				}
				if pv != nil {
					return fail("unexpected panic: %v", pv)
				}
				if !known {
					if v := s.verdict(); v != "fatal" || len(s.a.calls) != 0 {
						return fail("verdict %s, %d handler calls", v, len(s.a.calls))
					}
				} else if len(s.t.fatals)+s.t.failNow != 0 || len(s.a.calls) == 0 {
					return fail("the test failed or no handler was called (%d calls)", len(s.a.calls))
				}
				m2done(w, "actions", c, fmt.Sprint(i, all, expect), 1, func() any { return msgStr(m) })
				return ""
			}})
			return cs
		},
	})
}
