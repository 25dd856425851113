package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// appClock has handlers of all kinds; the process schedules timeouts.
var appClock = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EA, EC}, Out: []MT{CB, TA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EB}},
	HSpec{Name: "v", Kind: Proj, In: []MT{EA, EB, EC}},
)

// adjust is a user-defined time adjustment.
type adjust struct {
	f    func(time.Time) time.Time
	seen *[]time.Time
}

func (a adjust) Description() string { return "in a special way" }
func (a adjust) Step(t time.Time) time.Time {
	*a.seen = append(*a.seen, t)
	return a.f(t)
}

// cop is an operation of a clock scenario.
type cop struct {
	name string
	// step gives the new time for advance actions, or is nil.
	step func(now time.Time) time.Time
	act  func(s *Sess, seen *[]time.Time) testkit.Action
	// out is how the action ends: 'o' ok, 'e' error, 'p' panic. For ticks: what
	// happens if a timeout is handled.
	out byte
	// sched is the time, relative to the current one, of a scheduled timeout.
	sched time.Duration
	call  bool
	none  bool // no operation is performed
}

func clockOps() []cop {
	var r []cop
	by := func(d time.Duration) {
		r = append(r, cop{name: "by " + d.String(), step: func(t time.Time) time.Time { return t.Add(d) },
			act: func(*Sess, *[]time.Time) testkit.Action { return testkit.AdvanceTime(testkit.ByDuration(d)) }})
	}
	to := func(d time.Duration, loc *time.Location) {
		at := epoch.Add(d).In(loc)
		r = append(r, cop{name: "to epoch+" + d.String(), step: func(time.Time) time.Time { return at },
			act: func(*Sess, *[]time.Time) testkit.Action { return testkit.AdvanceTime(testkit.ToTime(at)) }})
	}
	custom := func(n string, f func(time.Time) time.Time) {
		r = append(r, cop{name: "custom " + n, step: f,
			act: func(_ *Sess, seen *[]time.Time) testkit.Action { return testkit.AdvanceTime(adjust{f, seen}) }})
	}
	by(0)
	by(1)
	by(time.Second)
	by(2 * time.Hour)
	to(-1, time.UTC)
	to(0, time.UTC)
	to(time.Second, time.FixedZone("x", 3600))
	to(time.Hour, time.FixedZone("y", -7200))
	custom("back", func(t time.Time) time.Time { return t.Add(-1) })
	custom("zero", func(t time.Time) time.Time { return time.Time{} })
	custom("same", func(t time.Time) time.Time { return t })
	custom("forward", func(t time.Time) time.Time { return t.Add(1500 * time.Millisecond) })
	cmd := func(n string, tag string, out byte, sched time.Duration, call bool) {
		r = append(r, cop{name: n, out: out, sched: sched, call: call,
			act: func(s *Sess, _ *[]time.Time) testkit.Action {
				m := CA.make(Base{Tag: tag, Inst: "x"}).(dogma.Command)
				if !call {
					return testkit.ExecuteCommand(m)
				}
				return testkit.Call(func() {
					_ = s.test.CommandExecutor().ExecuteCommand(ctxBg, m)
				})
			}})
	}
	cmd("command", "plain", 'o', 0, false)
	cmd("command scheduling a timeout in 1s", "s1", 'o', time.Second, false)
	cmd("command scheduling a timeout in 1h", "s2", 'o', time.Hour, false)
	cmd("command failing", "e", 'e', 0, false)
	cmd("command panicking", "p", 'p', 0, false)
	cmd("call", "plain", 'o', 0, true)
	cmd("call failing", "e", 'e', 0, true)
	cmd("call panicking", "p", 'p', 0, true)
	r = append(r, cop{name: "empty call", out: 'o', none: true, act: func(*Sess, *[]time.Time) testkit.Action { return testkit.Call(func() {}) }})
	r = append(r, cop{name: "event", out: 'o', act: func(*Sess, *[]time.Time) testkit.Action {
		return testkit.RecordEvent(EC.make(Base{Tag: "plain", Inst: "x"}).(dogma.Event))
	}})
	return r
}

func clockCase(name string, start time.Time, ops []cop, depth int, tmo byte, explicit bool) *Case {
	return clockCaseN(name, start, ops, depth, 1, tmo, explicit)
}

// clockCaseN repeats the chosen sequence a number of times.
func clockCaseN(name string, start time.Time, ops []cop, depth, times int, tmo byte, explicit bool) *Case {
	return &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
		t0 := time.Now()
		var s *Sess
		if explicit {
			s = newSess(appClock, 0, testkit.StartTimeAt(start))
		} else {
			s = newSessNow(appClock, 0)
		}
		t1 := time.Now()
		s.test.EnableHandlers("i", "v")
		now := start
		s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
			tag := tagOf(m)
			if mtOf(m) == TA {
				switch tmo {
				case 'e':
					return errBoom
				case 'p':
					panic(UserPanic{"timeout"})
				}
				sc.Produce(CB.make(Base{Tag: "plain", Inst: "x"}), time.Time{})
				return nil
			}
			switch h.Name {
			case "a":
				sc.Produce(EA.make(Base{Tag: tag, Inst: "x"}), time.Time{})
			case "p":
				switch tag {
				case "s1":
					sc.Produce(TA.make(Base{Tag: tag, Inst: "x"}), now.Add(time.Second))
				case "s2":
					sc.Produce(TA.make(Base{Tag: tag, Inst: "x"}), now.Add(time.Hour))
				default:
					sc.Produce(CB.make(Base{Tag: tag, Inst: "x"}), time.Time{})
				}
			case "i":
				sc.Produce(EB.make(Base{Tag: tag, Inst: "x"}), time.Time{})
				switch tag {
				case "e":
					return errBoom
				case "p":
					panic(UserPanic{"handler"})
				}
			}
			return nil
		}
		var pending []time.Time // timeouts that must fire
		fuzzy := false          // timeouts are not tracked after a failed tick
		var hist []string
		n := 1 + c.Choose(depth)
		total := 0
		choose := c.cyclic()
		for i := 0; i < n*times; i++ {
			choose.next(i % n)
			o := ops[choose.of(len(ops))]
			expect := (n + i) % 3
			if n <= 2 {
				expect = choose.of(3)
			}
			s.clear()
			var seen []time.Time
			act := o.act(s, &seen)
			how := []string{"prepare", "expect met", "expect unmet"}[expect]
			hist = append(hist, how+" "+o.name)
			next := now
			if o.step != nil {
				next = o.step(now)
			}
			back := next.Before(now)
			var before time.Time
			if !explicit && i == 0 {
				// The start is not known exactly.
				before = t0
			}
			pv := s.do(func() {
				switch expect {
				case 0:
					s.test.Prepare(act)
				case 1:
					s.test.Expect(act, &leafExp{b: lPass})
				case 2:
					s.test.Expect(act, &leafExp{b: lFail})
				}
			})
			fail := func(f string, v ...any) string {
				return fmt.Sprintf("history %s (start %s, timeouts %c): %s\nfatal: %q", strings.Join(hist, "; "), start, tmo, fmt.Sprintf(f, v...), s.t.fatals)
			}
			if !explicit && i == 0 {
				// Learn the start from the first operation.
				for _, f := range s.facts {
					if x, ok := f.(fact.DispatchCycleBegun); ok {
						now = x.EngineTime
					}
				}
				if now.Before(before) || now.After(t1) {
					return fail("the test did not start at the current time: %s", now)
				}
				next = now
			}
			if len(seen) > 1 || len(seen) == 1 && !seen[0].Equal(now) {
				return fail("the adjustment was given %v, the time is %s", seen, now)
			}
			if back {
				if len(s.facts) != 0 || len(s.a.calls) != 0 || len(s.t.fatals) != 1 || pv != nil {
					return fail("moving the clock back: %d facts, %d handler calls, %d failures, panic %v", len(s.facts), len(s.a.calls), len(s.t.fatals), pv)
				}
				continue
			}
			now = next
			// Exactly one cycle at the current time.
			ticks, disp := 0, 0
			for _, f := range s.facts {
				var at time.Time
				switch x := f.(type) {
				case fact.TickCycleBegun:
					ticks++
					at = x.EngineTime
				case fact.DispatchCycleBegun:
					disp++
					at = x.EngineTime
				case fact.DispatchBegun:
					if x.Envelope.ScheduledFor.IsZero() {
						at = x.Envelope.CreatedAt
					} else {
						if x.Envelope.ScheduledFor.After(now) {
							return fail("a timeout for %s was handled at %s", x.Envelope.ScheduledFor, now)
						}
						continue
					}
				default:
					continue
				}
				if !at.Equal(now) {
					return fail("%T at %s, the time is %s", f, at, now)
				}
			}
			wt, wd := 0, 1
			if o.step != nil {
				wt, wd = 1, 0
			}
			if o.none {
				wd = 0
			}
			if ticks != wt || disp != wd {
				return fail("%d ticks and %d dispatches, want %d and %d", ticks, disp, wt, wd)
			}
			var fired []time.Time
			for _, cl := range s.a.calls {
				if strings.HasPrefix(cl.Msg, TA.String()) {
					fired = append(fired, cl.Time)
					continue
				}
				if !cl.Time.IsZero() && !cl.Time.Equal(now) {
					return fail("handler %s was given the time %s, the time is %s", cl.H, cl.Time, now)
				}
			}
			var due, rest []time.Time
			if o.step != nil {
				for _, t := range pending {
					if t.After(now) {
						rest = append(rest, t)
					} else {
						due = append(due, t)
					}
				}
				pending = rest
			}
			out := o.out
			if o.step != nil {
				out = 'o'
				if len(due) > 0 || fuzzy && len(fired) > 0 {
					out = tmo
				}
			}
			if out == 'o' && !fuzzy {
				sort.Slice(due, func(i, j int) bool { return due[i].Before(due[j]) })
				sort.Slice(fired, func(i, j int) bool { return fired[i].Before(fired[j]) })
				if fmt.Sprint(due) != fmt.Sprint(fired) {
					return fail("at %s the timeouts %v were handled, want %v", now, fired, due)
				}
			}
			if o.step != nil && out != 'o' {
				fuzzy = true
			}
			if o.sched != 0 {
				pending = append(pending, now.Add(o.sched))
			}
			if (pv != nil) != (out == 'p') {
				return fail("panic %v", pv)
			}
			if f := len(s.t.fatals); out == 'e' && !o.call && f != 1 || (out == 'o' || o.call) && f != 0 {
				return fail("%d fatal errors", f)
			}
			total += len(s.facts)
		}
		m2done(w, name, c, strings.Join(hist, ";"), total, func() any { return hist })
		return ""
	}}
}

// newSessNow is newSess without a start time.
func newSessNow(spec *AppSpec, stop byte, opts ...testkit.TestOption) *Sess {
	s := &Sess{a: &TApp{spec: spec}, t: &mockT{stop: stop}}
	s.test = testkit.Begin(s.t, s.a, append([]testkit.TestOption{s.observe()}, opts...)...)
	return s
}

func init() {
	register(&Check{
		ID:   "C23",
		Rule: "all sequences of advance-time, command, event and call actions up to a bound, each in Prepare and in a met and an unmet Expect, with succeeding, failing and panicking handlers and timeouts; engine times, ticks and handled timeouts are compared with a clock",
		Cases: func(tier string) []*Case {
			ops := clockOps()
			var cs []*Case
			d := tierN(tier, 4, 5)
			cs = append(cs, clockCase("explicit", epoch, ops, d, 'o', true))
			for _, t := range []byte{'e', 'p'} {
				cs = append(cs, clockCase(fmt.Sprintf("timeouts/%c", t), epoch, pickOps(ops, "by 1ns", "by 1s", "by 2h0m0s", "to epoch+1h0m0s", "to epoch+0s", "custom back", "command scheduling a timeout in 1s", "command scheduling a timeout in 1h", "command"), tierN(tier, 4, 5), t, true))
			}
			cs = append(cs, clockCase("timeouts/o", epoch, pickOps(ops, "by 0s", "by 1s", "by 2h0m0s", "to epoch+1s", "custom zero", "custom forward", "command scheduling a timeout in 1s", "command scheduling a timeout in 1h", "command panicking", "command failing"), tierN(tier, 4, 5), 'o', true))
			cs = append(cs, clockCase("zone", epoch.In(time.FixedZone("z", 5*3600)), ops, 2, 'o', true))
			cs = append(cs, clockCase("far", time.Date(1, 1, 3, 0, 0, 0, 0, time.UTC), ops, 2, 'o', true))
			cs = append(cs, clockCaseN("repeated", epoch, ops, 2, 40, 'o', true))
			cs = append(cs, clockCase("default", time.Time{}, pickOps(ops, "command", "event", "call"), 2, 'o', false))
			return cs
		},
	})
}

func pickOps(ops []cop, names ...string) []cop {
	var r []cop
	for _, n := range names {
		for _, o := range ops {
			if o.name == n {
				r = append(r, o)
			}
		}
	}
	if len(r) != len(names) {
		panic("unknown operation")
	}
	return r
}
