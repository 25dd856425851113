package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// appArgs is the application of the tests of arguments.
var appArgs = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA, CD}, Out: []MT{EA, ED}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EA}, Out: []MT{CB, TA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EB}},
)

// argCall is a call of a function with some arguments.
type argCall struct {
	name string
	fn   func()
	// what the text of the panic contains, at least. It is empty if the call
	// is valid.
	want []string
}

// argCalls returns calls with all combinations of arguments.
func argCalls() []argCall {
	var r []argCall
	add := func(name string, fn func(), want ...string) { r = append(r, argCall{name, fn, want}) }
	// Messages.
	texts := []string{"", "bad", "100% bad: %s %d\nin two lines"}
	for _, t := range []MT{CA, CD, CC} {
		for _, bad := range texts {
			m := t.make(Base{Tag: "1", Inst: "x", Bad: bad}).(dogma.Command)
			for n, fn := range map[string]func(dogma.Command){
				"ExecuteCommand":   func(m dogma.Command) { testkit.ExecuteCommand(m) },
				"ToExecuteCommand": func(m dogma.Command) { testkit.ToExecuteCommand(m) },
			} {
				var want []string
				if bad != "" {
					want = []string{n + "(" + t.String() + ")", bad}
				}
				add(fmt.Sprintf("%s(%s %q)", n, t, bad), func() { fn(m) }, want...)
			}
			add(fmt.Sprintf("ToExecuteCommandOfType(%s %q)", t, bad), func() { testkit.ToExecuteCommandOfType(m) })
		}
	}
	for _, t := range []MT{EA, ED, EC} {
		for _, bad := range texts {
			m := t.make(Base{Tag: "1", Inst: "x", Bad: bad}).(dogma.Event)
			for n, fn := range map[string]func(dogma.Event){
				"RecordEvent":   func(m dogma.Event) { testkit.RecordEvent(m) },
				"ToRecordEvent": func(m dogma.Event) { testkit.ToRecordEvent(m) },
			} {
				var want []string
				if bad != "" {
					want = []string{n + "(" + t.String() + ")", bad}
				}
				add(fmt.Sprintf("%s(%s %q)", n, t, bad), func() { fn(m) }, want...)
			}
			add(fmt.Sprintf("ToRecordEventOfType(%s %q)", t, bad), func() { testkit.ToRecordEventOfType(m) })
		}
	}
	null := func(name string, fn func()) { add(name+"(nil)", fn, name+"(", "nil") }
	null("ExecuteCommand", func() { testkit.ExecuteCommand(nil) })
	null("RecordEvent", func() { testkit.RecordEvent(nil) })
	null("ToExecuteCommand", func() { testkit.ToExecuteCommand(nil) })
	null("ToRecordEvent", func() { testkit.ToRecordEvent(nil) })
	null("ToExecuteCommandOfType", func() { testkit.ToExecuteCommandOfType(nil) })
	null("ToRecordEventOfType", func() { testkit.ToRecordEventOfType(nil) })
	null("ToExecuteCommandMatching", func() { testkit.ToExecuteCommandMatching[Cmd[tA]](nil) })
	null("ToOnlyExecuteCommandsMatching", func() { testkit.ToOnlyExecuteCommandsMatching[Cmd[tA]](nil) })
	null("ToRecordEventMatching", func() { testkit.ToRecordEventMatching[Evt[tA]](nil) })
	null("ToOnlyRecordEventsMatching", func() { testkit.ToOnlyRecordEventsMatching[dogma.Event](nil) })
	null("Call", func() { testkit.Call(nil) })
	null("AdvanceTime", func() { testkit.AdvanceTime(nil) })
	null("InterceptCommandExecutor", func() { testkit.InterceptCommandExecutor(nil) })
	null("Call", func() { testkit.Call(nil, testkit.InterceptCommandExecutor(rejectAll)) })
	// Predicates that are never called.
	add("ToExecuteCommandMatching", func() {
		testkit.ToExecuteCommandMatching(func(Cmd[tC]) error { panic("called") })
		testkit.ToOnlyExecuteCommandsMatching(func(dogma.Command) error { panic("called") })
		testkit.ToRecordEventMatching(func(Evt[tC]) error { panic("called") })
		testkit.ToOnlyRecordEventsMatching(func(dogma.Event) error { panic("called") })
		testkit.ToSatisfy("x", func(*testkit.SatisfyT) { panic("called") })
		testkit.ToRepeatedly("x", 3, func(int) testkit.Expectation { return testkit.ToRecordEventType[Evt[tA]]() })
		testkit.Call(func() { panic("called") })
	})
	// Compositions.
	leaf := testkit.ToRecordEventType[Evt[tA]]()
	for n, fn := range map[string]func(...testkit.Expectation) testkit.Expectation{
		"AllOf": testkit.AllOf, "AnyOf": testkit.AnyOf, "NoneOf": testkit.NoneOf,
	} {
		for k := range 4 {
			es := []testkit.Expectation{leaf, leaf, leaf}[:k]
			var want []string
			if k == 0 {
				want = []string{n + "("}
			}
			add(fmt.Sprintf("%s(%d)", n, k), func() { fn(es...) }, want...)
		}
	}
	for _, desc := range []string{"", " ", "x", "100%"} {
		for k, fn := range []func(*testkit.SatisfyT){nil, func(*testkit.SatisfyT) { panic("called") }} {
			var want []string
			if desc == "" || k == 0 {
				want = []string{"ToSatisfy("}
			}
			add(fmt.Sprintf("ToSatisfy(%q, %d)", desc, k), func() { testkit.ToSatisfy(desc, fn) }, want...)
		}
		for _, n := range []int{-1 << 31, -1, 0, 1, 2} {
			for k, fn := range []func(int) testkit.Expectation{nil, func(int) testkit.Expectation { return leaf }} {
				var want []string
				if desc == "" || k == 0 || n < 1 {
					want = []string{"ToRepeatedly("}
				}
				add(fmt.Sprintf("ToRepeatedly(%q, %d, %d)", desc, n, k), func() { testkit.ToRepeatedly(desc, n, fn) }, want...)
			}
		}
	}
	// Durations.
	for _, d := range []time.Duration{-1 << 63, -time.Hour, -1, 0, 1, time.Hour, 1<<63 - 1} {
		var want []string
		if d < 0 {
			want = []string{"ByDuration(" + d.String() + ")"}
		}
		add(fmt.Sprintf("ByDuration(%s)", d), func() { testkit.ByDuration(d) }, want...)
	}
	add("ToTime", func() { testkit.AdvanceTime(testkit.ToTime(time.Time{})) })
	// Options of the engine.
	add("WithObserver(nil)", func() { engine.WithObserver(nil) }, "nil")
	add("WithObserver", func() { engine.WithObserver(fact.ObserverFunc(func(fact.Fact) {})) })
	add("WithResetter(nil)", func() { engine.WithResetter(nil) }, "nil")
	for _, n := range []string{"", " ", "a b", "\t", "a\n"} {
		add(fmt.Sprintf("EnableHandler(%q)", n), func() { engine.EnableHandler(n, true) }, "name")
	}
	for _, n := range []string{"a", "unknown", "100%"} {
		add(fmt.Sprintf("EnableHandler(%q)", n), func() { engine.EnableHandler(n, true) })
	}
	return r
}

func rejectAll(context.Context, dogma.Command, dogma.CommandExecutor) error {
	return fmt.Errorf("rejected")
}

// judge makes the call and returns what is wrong with its outcome.
func (x argCall) judge() (viol string) {
	panicked := true
	var pv any
	func() {
		defer func() { pv = recover() }()
		x.fn()
		panicked = false
	}()
	text := fmt.Sprint(pv)
	switch {
	case panicked && x.want == nil:
		return fmt.Sprintf("%s is rejected: %s", x.name, text)
	case !panicked && x.want != nil:
		return fmt.Sprintf("%s is not rejected", x.name)
	}
	for i, w := range x.want {
		if i == 0 && strings.Contains(w, "(") && !strings.HasPrefix(text, w) || !strings.Contains(text, w) {
			return fmt.Sprintf("%s is rejected with %q, which does not say %q", x.name, text, w)
		}
	}
	return ""
}

// argScript runs a test, and calls fn at some point of it.
func argScript(at int, fn func()) (s *Sess) {
	s = newSess(appArgs, 0)
	s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
		switch mtOf(m) {
		case CA:
			sc.Produce(EA.make(Base{Tag: "2", Inst: "x"}), time.Time{})
		case EA:
			sc.Produce(TA.make(Base{Tag: "3", Inst: "x"}), epoch.Add(time.Minute))
		case TA:
			sc.Produce(CB.make(Base{Tag: "4", Inst: "x"}), time.Time{})
		}
		return nil
	}
	point := func(n int) {
		if n == at {
			fn()
		}
	}
	cmd := CA.make(Base{Tag: "1", Inst: "x"}).(dogma.Command)
	act := testkit.ExecuteCommand(cmd)
	exp := testkit.ToRecordEvent(EA.make(Base{Tag: "2", Inst: "x"}).(dogma.Event))
	point(0)
	s.test.Expect(act, exp)
	point(1)
	s.test.Expect(testkit.Call(func() {
		point(2)
		if err := s.test.CommandExecutor().ExecuteCommand(context.Background(), cmd); err != nil {
			panic(err)
		}
		point(3)
	}, testkit.InterceptCommandExecutor(func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
		point(4)
		return e.ExecuteCommand(ctx, m)
	})), testkit.ToSatisfy("satisfied", func(t *testkit.SatisfyT) {
		point(5)
	}))
	s.test.Expect(testkit.AdvanceTime(testkit.ByDuration(time.Hour)), testkit.ToExecuteCommandMatching(func(m Cmd[tB]) error {
		point(6)
		return nil
	}))
	point(7)
	s.test.Expect(act, testkit.AllOf(exp, testkit.ToRepeatedly("again", 2, func(int) testkit.Expectation {
		point(8)
		return exp
	})))
	return s
}

func (s *Sess) account() string {
	return fmt.Sprintf("calls %v\nfacts %d\nlogs %q\nfatal %q, failed %d times", s.a.calls, len(s.facts), s.t.logs, s.t.fatals, s.t.failNow)
}

func init() {
	register(&Check{
		ID:   "C32",
		Rule: "all functions of the API x all combinations of valid and invalid arguments x all points of a test at which the call is made, and all pairs of calls; the outcome of the call and of the test are compared with what the arguments demand and with the test without the call",
		Cases: func(tier string) []*Case {
			var cs []*Case
			calls := argCalls()
			// The order of the calls is the same in every run.
			slices.SortFunc(calls, func(a, b argCall) int { return strings.Compare(a.name, b.name) })
			name := "points"
			cs = append(cs, &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
				x := calls[c.Choose(len(calls))]
				at := c.Choose(9)
				viol := ""
				s := argScript(at, func() {
					if v := x.judge(); v != "" {
						viol = v
					}
				})
				if viol != "" {
					return viol
				}
				if got, want := s.account(), argScript(-1, nil).account(); got != want {
					return fmt.Sprintf("%s, at point %d, changes the test\n-- without:\n%s\n-- with:\n%s", x.name, at, want, got)
				}
				m2done(w, name, c, fmt.Sprint(x.name, at), len(s.a.calls), func() any {
					return map[string]any{"call": x.name, "point": at, "rejected": x.want != nil}
				})
				return ""
			}})
			// A rejected call influences no later one.
			pairs := "pairs"
			cs = append(cs, &Case{Name: pairs, Body: func(w *Worker, c *Chooser) string {
				x, y := calls[c.Choose(len(calls))], calls[c.Choose(len(calls))]
				if v := x.judge(); v != "" {
					return v
				}
				if v := y.judge(); v != "" {
					return "after " + x.name + ": " + v
				}
				m2done(w, pairs, c, fmt.Sprint(x.name, y.name), 2, func() any {
					return map[string]any{"calls": []string{x.name, y.name}}
				})
				return ""
			}})
			return cs
		},
	})
}
