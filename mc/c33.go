package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// hact is an action and what its heading says.
type hact struct {
	caption string
	end     byte // 0, 'e' error, 'p' panic
	mk      func(s *Sess) testkit.Action
}

// hexp is an expectation and what its heading says; near is the function the
// heading refers to, if any.
type hexp struct {
	caption string
	near    any
	e       testkit.Expectation
	leaf    byte // lError if it cannot be evaluated
}

func (x hexp) heading() string {
	if x.near == nil {
		return x.caption
	}
	f := runtime.FuncForPC(reflect.ValueOf(x.near).Pointer())
	file, line := f.FileLine(f.Entry())
	return fmt.Sprintf("%s%s:%d", x.caption, filepath.Base(file), line)
}

// markAction remembers which facts occurred while the action was performed.
type markAction struct {
	testkit.Action
	s     *Sess
	facts *[][]fact.Fact
}

func (a *markAction) Do(ctx contextT, s testkit.ActionScope) error {
	from := len(a.s.facts)
	defer func() { *a.facts = append(*a.facts, a.s.facts[from:len(a.s.facts):len(a.s.facts)]) }()
	return a.Action.Do(ctx, s)
}

type namedAdjust struct {
	name string
	d    time.Duration
}

func (a namedAdjust) Description() string        { return a.name }
func (a namedAdjust) Step(t time.Time) time.Time { return t.Add(a.d) }

func hactions() []hact {
	send := func(t MT, tag string, end byte) hact {
		b := Base{Tag: tag, Inst: "x"}
		if t.kind() == kCmd {
			return hact{"executing " + t.String() + " command", end, func(*Sess) testkit.Action { return testkit.ExecuteCommand(t.make(b).(dogma.Command)) }}
		}
		return hact{"recording " + t.String() + " event", end, func(*Sess) testkit.Action { return testkit.RecordEvent(t.make(b).(dogma.Event)) }}
	}
	adv := func(desc string, end byte, a testkit.TimeAdjustment) hact {
		return hact{"advancing time " + desc, end, func(*Sess) testkit.Action { return testkit.AdvanceTime(a) }}
	}
	call := func(k byte, end byte) hact {
		return hact{"calling user-defined function", end, func(s *Sess) testkit.Action { return treeAction(k, s) }}
	}
	at := epoch.Add(36 * time.Hour)
	return []hact{
		send(CA, "o", 0), call('c', 0), send(CA, "e", 'e'), send(EA, "n", 0), adv("by 1m30s", 0, testkit.ByDuration(90*time.Second)), call('C', 'p'),
		send(CB, "n", 0), send(CD, "o", 'e'), send(EF, "o", 'e'), send(EB, "o", 'p'), send(CA, "p", 'p'),
		adv("by 0s", 0, testkit.ByDuration(0)), adv("to "+at.Format(time.RFC3339), 0, testkit.ToTime(at)),
		adv("to "+at.In(time.FixedZone("x", 7200)).Format(time.RFC3339), 0, testkit.ToTime(at.In(time.FixedZone("x", 7200)))),
		adv("to the 100% mark", 0, namedAdjust{"to the 100% mark", 1}), adv("back", 'e', namedAdjust{"back", -1}),
		{"calling user-defined function", 0, func(s *Sess) testkit.Action {
			return testkit.Call(func() {
				_ = s.test.CommandExecutor().ExecuteCommand(ctxBg, CA.make(Base{Tag: "o", Inst: "x"}).(dogma.Command))
			})
		}},
	}
}

var longText = strings.Repeat("do a lot of things ", 40) + "at once"

func leafHexps() []hexp {
	leaf := func(b byte) hexp { return hexp{caption: "to meet leaf 7", e: &leafExp{id: 7, b: b}, leaf: b} }
	return []hexp{leaf(lPass), leaf(lFail), leaf(lError)}
}

func hexps() []hexp {
	spec := func(t MT) hexp {
		m, _, _ := xkind(t.kind())
		return hexp{caption: fmt.Sprintf("to %s a specific '%s' %s", produceVerb(t.kind()), t, m), e: msgExp(t, Base{Tag: "o", Inst: "x"}).e}
	}
	cpred := func(Cmd[tB]) error { return nil }
	epred := func(*PEvt) error { return nil }
	apred := func(dogma.Event) error { return errBoom }
	r := append(leafHexps(), []hexp{
		spec(CB), spec(EA), spec(ED),
		{caption: "to execute a command of type " + CB.String(), e: testkit.ToExecuteCommandType[Cmd[tB]]()},
		{caption: "to record an event of type " + ED.String(), e: testkit.ToRecordEventType[*PEvt]()},
		{caption: "to record an event of type " + EB.String(), e: testkit.ToRecordEventOfType(Evt[tB]{})},
		{caption: "to execute a command that matches the predicate near ", near: cpred, e: testkit.ToExecuteCommandMatching(cpred)},
		{caption: "to record an event that matches the predicate near ", near: epred, e: testkit.ToRecordEventMatching(epred)},
		{caption: "to only execute commands that match the predicate near ", near: cpred, e: testkit.ToOnlyExecuteCommandsMatching(cpred)},
		{caption: "to only record events that match the predicate near ", near: apred, e: testkit.ToOnlyRecordEventsMatching(apred)},
		{caption: "to do the thing 100%", e: testkit.ToSatisfy("do the thing 100%", func(*testkit.SatisfyT) {})},
		{caption: "to " + longText, e: testkit.ToSatisfy(longText, func(*testkit.SatisfyT) {})},
		{caption: "to repeat things", e: testkit.ToRepeatedly("repeat things", 3, func(int) testkit.Expectation { return &leafExp{} })},
	}...)
	one, two := r[0], r[1]
	for _, x := range r[:] {
		x.caption = "not " + x.caption
		y := x
		x.e, y.e = testkit.Not(x.e), testkit.NoneOf(y.e)
		r = append(r, x, y)
	}
	group := func(n int) (es []testkit.Expectation) {
		for i := 0; i < n; i++ {
			es = append(es, []testkit.Expectation{one.e, two.e}[i%2])
		}
		return es
	}
	r = append(r, hexp{caption: one.caption, e: testkit.AllOf(one.e)}, hexp{caption: one.caption, e: testkit.AnyOf(one.e)})
	for _, n := range []int{2, 3, 11, 100} {
		r = append(r,
			hexp{caption: fmt.Sprintf("to meet %d expectations", n), e: testkit.AllOf(group(n)...)},
			hexp{caption: fmt.Sprintf("to meet at least one of %d expectations", n), e: testkit.AnyOf(group(n)...)},
			hexp{caption: fmt.Sprintf("not to meet any of %d expectations", n), e: testkit.NoneOf(group(n)...)},
			hexp{caption: fmt.Sprintf("not to meet at least one of %d expectations", n), e: testkit.Not(testkit.AnyOf(group(n)...))},
		)
	}
	return r
}

// hstep is a call of Expect, or of Prepare with several actions.
type hstep struct {
	acts []hact
	exp  *hexp
}

// entries returns what the testing interface was told, in order.
func (s *Sess) entries() []string {
	var r []string
	li := 0
	for _, k := range s.t.order {
		if k == "log" {
			k = s.t.logs[li]
			li++
			if strings.HasPrefix(k, "--- TEST REPORT ---\n") {
				k = "report"
			}
		}
		r = append(r, k)
	}
	return r
}

// headings performs the steps and compares everything that is logged.
func headings(w *Worker, c *Chooser, name string, stop byte, steps []hstep) string {
	s := newTreeSess(stop)
	var facts [][]fact.Fact
	pv := s.do(func() {
		for _, st := range steps {
			var as []testkit.Action
			for _, a := range st.acts {
				as = append(as, &markAction{a.mk(s), s, &facts})
			}
			if st.exp != nil {
				s.test.Expect(as[0], st.exp.e)
			} else {
				s.test.Prepare(as...)
			}
		}
	})
	got := s.entries()
	var want []string
	// perform adds what is logged by an action, until it ends.
	done := 0
	perform := func(a hact) {
		if done < len(facts) {
			want = append(want, logOf(facts[done]...)...)
		}
		done++
	}
	var hist []string
	panics, stopped := false, false
	for _, st := range steps {
		for _, a := range st.acts {
			if panics || stopped {
				break
			}
			if st.exp == nil {
				want = append(want, "--- "+a.caption+" ---")
				hist = append(hist, a.caption)
			} else {
				want = append(want, "--- expect "+a.caption+" "+st.exp.heading()+" ---")
				hist = append(hist, a.caption+" / "+st.exp.caption)
				if st.exp.leaf == lError {
					want = append(want, "fatal")
					stopped = stop != 0
					continue
				}
			}
			perform(a)
			switch a.end {
			case 'p':
				panics = true
				continue
			case 'e':
				want = append(want, "fatal")
				stopped = stop != 0
				continue
			}
			if st.exp != nil {
				want = append(want, "report")
				// Whether the expectation is met is not decided here.
				if n := len(want); n < len(got) && got[n] == "failnow" {
					want = append(want, "failnow")
					stopped = stop != 0
				}
			}
		}
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") || done != len(facts) || panics != (pv != nil) {
		return fmt.Sprintf("%q (stop=%q): logged\n  %q\nwant\n  %q\n%d actions performed, want %d; panic %v", hist, stop, got, want, len(facts), done, pv)
	}
	m2done(w, name, c, fmt.Sprint(stop, strings.Join(hist, ";"), len(got)), len(got), func() any { return map[string]any{"steps": hist, "lines": len(got)} })
	return ""
}

func init() {
	register(&Check{
		ID:   "C33",
		Rule: "all actions x all kinds of expectations, alone and nested, and all sequences of prepared and expected actions up to a bound x all ways the testing interface stops a test; everything that is logged is compared with the definition",
		Cases: func(tier string) []*Case {
			var cs []*Case
			acts := hactions()
			cs = append(cs, &Case{Name: "captions", Body: func(w *Worker, c *Chooser) string {
				a, es := acts[c.Choose(len(acts))], hexps()
				st := hstep{acts: []hact{a}}
				if k := c.Choose(len(es) + 1); k > 0 {
					st.exp = &es[k-1]
				}
				return headings(w, c, "captions", 0, []hstep{st})
			}})
			for _, stop := range []byte{0, 'p', 'g'} {
				name := fmt.Sprintf("sequence/%c", '0'+stop)
				cs = append(cs, &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
					es := leafHexps()
					var steps []hstep
					for n := 1 + c.Choose(tierN(tier, 2, 3)); n > 0; n-- {
						if k := c.Choose(len(es) + 1); k > 0 {
							steps = append(steps, hstep{acts: []hact{acts[c.Choose(6)]}, exp: &es[k-1]})
							continue
						}
						st := hstep{}
						for k := 1 + c.Choose(3); k > 0; k-- {
							st.acts = append(st.acts, acts[c.Choose(6)])
						}
						steps = append(steps, st)
					}
					return headings(w, c, name, stop, steps)
				}})
			}
			// Many actions, one of which differs.
			cs = append(cs, &Case{Name: "many", Budget: 1, Body: func(w *Worker, c *Chooser) string {
				var one, more []hstep
				st := hstep{}
				for i := 0; i < 40; i++ {
					a := acts[c.Dev(6)]
					st.acts = append(st.acts, a)
					more = append(more, hstep{acts: []hact{a}})
				}
				one = append(one, st)
				if c.Bool() {
					return headings(w, c, "many", 0, one)
				}
				return headings(w, c, "many", 0, more)
			}})
			return cs
		},
	})
}
