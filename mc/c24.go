package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// Behaviours of an interceptor.
const (
	xNone   = iota // not installed
	xPass          // executes the command
	xReject        // returns an error
	xSwap          // executes another command
	xTwice         // executes the command twice
	xQuiet         // does nothing, returns nil
	xPanic         // panics
	xCancel        // returns context.Canceled
	xAgain         // executes another command via the test's executor, then the command
	nIntercept
)

var xNames = []string{"none", "pass", "reject", "swap", "twice", "quiet", "panic", "cancel", "again"}

var errReject = errors.New("rejected")

type ctxMark struct{}

// execRun records the uses of the command executor.
type execRun struct {
	s     *Sess
	early dogma.CommandExecutor // obtained before the first action
	trace []string
	depth int
}

func (r *execRun) ev(f string, v ...any) { r.trace = append(r.trace, fmt.Sprintf(f, v...)) }

func (r *execRun) exec(ctx context.Context, e dogma.CommandExecutor, tag string) (err error) {
	return e.ExecuteCommand(ctx, CB.make(Base{Tag: tag, Inst: "x"}).(dogma.Command))
}

// use executes a command and records the result.
func (r *execRun) use(tag string) {
	defer func() {
		if v := recover(); v != nil {
			if u, ok := v.(UserPanic); ok {
				r.ev("panic %s", u.S)
			} else {
				r.ev("refused")
			}
		}
	}()
	ctx := context.WithValue(context.Background(), ctxMark{}, tag)
	e := r.s.test.CommandExecutor()
	if strings.HasSuffix(tag, "1") {
		e = r.early
	}
	err := r.exec(ctx, e, tag)
	switch {
	case err == nil:
		r.ev("ok")
	case errors.Is(err, errReject):
		r.ev("rejected")
	case err == context.Canceled:
		r.ev("canceled")
	case errors.Is(err, errBoom):
		r.ev("failed")
	default:
		r.ev("error %v", err)
	}
}

func (r *execRun) interceptor(name string, b int) testkit.CommandExecutorInterceptor {
	return func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
		tag := tagOf(m)
		r.ev("%s intercepts %s ctx=%v", name, tag, ctx.Value(ctxMark{}))
		switch b {
		case xReject:
			return errReject
		case xSwap:
			return r.exec(ctx, e, tag+"'")
		case xTwice:
			if err := e.ExecuteCommand(ctx, m); err != nil {
				return err
			}
			return e.ExecuteCommand(ctx, m)
		case xQuiet:
			return nil
		case xPanic:
			panic(UserPanic{name})
		case xCancel:
			return context.Canceled
		case xAgain:
			if !strings.HasPrefix(tag, "again") {
				if err := r.exec(ctx, r.s.test.CommandExecutor(), "again "+tag); err != nil {
					return err
				}
			}
		}
		return e.ExecuteCommand(ctx, m)
	}
}

// execModel is the definition.
type execModel struct {
	trace   []string
	test    int
	enabled bool // the handler is enabled
	clock   time.Time
	cycles  int
}

func (m *execModel) ev(f string, v ...any) { m.trace = append(m.trace, fmt.Sprintf(f, v...)) }

// engine executes a command without interception.
func (m *execModel) engine(tag string) string {
	m.cycles++
	m.ev("cycle %s at %s", tag, m.clock.Format(time.RFC3339))
	if !m.enabled {
		return "ok"
	}
	m.ev("handle %s", tag)
	if strings.Contains(tag, "bad") {
		return "failed"
	}
	if strings.Contains(tag, "crash") {
		return "panic handler"
	}
	return "ok"
}

// exec executes a command with the interceptor (name, b) in force.
func (m *execModel) exec(ctx, tag, name string, b int) string {
	if b == xNone {
		return m.engine(tag)
	}
	m.ev("%s intercepts %s ctx=%s", name, tag, ctx)
	switch b {
	case xReject:
		return "rejected"
	case xSwap:
		return m.engine(tag + "'")
	case xTwice:
		if r := m.engine(tag); r != "ok" {
			return r
		}
	case xQuiet:
		return "ok"
	case xPanic:
		return "panic " + name
	case xCancel:
		return "canceled"
	case xAgain:
		if !strings.HasPrefix(tag, "again") {
			if r := m.exec(ctx, "again "+tag, name, b); r != "ok" {
				return r
			}
		}
	}
	return m.engine(tag)
}

// appExec has a single handler.
var appExec = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}},
)

func execCase(name string, depth int, testX []int, callX []int, tags []string, maxCmd int, stop byte, others, several bool) *Case {
	return execCaseN(name, depth, 1, testX, callX, tags, maxCmd, stop, others, several)
}

// execCaseN repeats the chosen sequence a number of times.
func execCaseN(name string, depth, times int, testX []int, callX []int, tags []string, maxCmd int, stop byte, others, several bool) *Case {
	return &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
		r := &execRun{}
		tx := testX[c.Choose(len(testX))]
		var opts []testkit.TestOption
		if tx != xNone {
			if several {
				opts = append(opts, testkit.InterceptCommandExecutor(r.interceptor("replaced", xReject)))
			}
			opts = append(opts, testkit.InterceptCommandExecutor(r.interceptor("test", tx)))
		}
		s := newSess(appExec, stop, opts...)
		r.s = s
		r.early = s.test.CommandExecutor()
		m := &execModel{test: tx, clock: epoch}
		s.test.EnableHandlers("i")
		m.enabled = true
		// The facts are part of the trace.
		s.a.on = func(h *HSpec, msg dogma.Message, sc *TScope) error {
			tag := tagOf(msg)
			if h.Name == "a" {
				r.use("inside")
				return nil
			}
			r.ev("handle %s", tag)
			if strings.Contains(tag, "bad") {
				return errBoom
			}
			if strings.Contains(tag, "crash") {
				panic(UserPanic{"handler"})
			}
			return nil
		}
		hist := []string{"test interceptor " + xNames[tx]}
		n := 1 + c.Choose(depth)
		choose := c.cyclic()
		for i := 0; i < n*times; i++ {
			choose.next(i % n)
			k := 0
			if others {
				k = choose.of(5)
			}
			switch k {
			case 0: // a call
				cx := callX[choose.of(len(callX))]
				var cmds []string
				for j := choose.of(maxCmd + 1); j > 0; j-- {
					cmds = append(cmds, fmt.Sprintf("%s%d%d", tags[choose.of(len(tags))], i, j))
				}
				ends := "np"
				if stop == 'g' {
					ends = "npg"
				}
				end := ends[choose.of(len(ends))]
				expect := choose.of(2) == 1
				hist = append(hist, fmt.Sprintf("call(interceptor %s, commands %v, end %c, expect %v)", xNames[cx], cmds, end, expect))
				var copts []testkit.CallOption
				if cx != xNone {
					if several {
						copts = append(copts, testkit.InterceptCommandExecutor(r.interceptor("replaced", xPass)))
					}
					copts = append(copts, testkit.InterceptCommandExecutor(r.interceptor(fmt.Sprintf("call%d", i), cx)))
				}
				act := testkit.Call(func() {
					for _, t := range cmds {
						r.use(t)
					}
					switch end {
					case 'p':
						panic(UserPanic{"call"})
					case 'g':
						runtime.Goexit()
					}
				}, copts...)
				leaf := &leafExp{b: lPass}
				n0 := len(s.facts)
				pv := s.do(func() {
					if expect {
						s.test.Expect(act, leaf)
					} else {
						s.test.Prepare(act)
					}
				})
				if (pv != nil) != (end == 'p') {
					return fmt.Sprintf("history %v: panic %v", hist, pv)
				}
				if expect && (len(leaf.preds) != 1 || !sameFacts(leaf.preds[0].facts, s.facts[n0:])) {
					return fmt.Sprintf("history %v: the observers of the action did not see the %d facts", hist, len(s.facts)-n0)
				}
				for _, t := range cmds {
					nm, b := "test", tx
					if cx != xNone {
						nm, b = fmt.Sprintf("call%d", i), cx
					}
					m.ev("%s", m.exec(t, t, nm, b))
				}
			case 1: // use outside of any action
				hist = append(hist, "use outside")
				r.use("outside")
				m.ev("refused")
			case 2: // the clock advances
				hist = append(hist, "advance")
				s.do(func() { s.test.Prepare(testkit.AdvanceTime(testkit.ByDuration(time.Second))) })
				m.clock = m.clock.Add(time.Second)
			case 3: // the handler is toggled
				hist = append(hist, "toggle")
				m.enabled = !m.enabled
				if m.enabled {
					s.test.EnableHandlers("i")
				} else {
					s.test.DisableHandlers("i")
				}
			case 4: // other actions do not use the executor
				hist = append(hist, "execute command action")
				s.do(func() {
					s.test.Prepare(
						testkit.ExecuteCommand(CB.make(Base{Tag: "action", Inst: "x"}).(dogma.Command)),
						testkit.ExecuteCommand(CA.make(Base{Tag: "a", Inst: "x"}).(dogma.Command)),
					)
				})
				m.engine("action")
				m.cycles++
				m.ev("refused")
			}
		}
		// After all actions.
		r.use("outside")
		m.ev("refused")
		r.use("outside 1")
		m.ev("refused")
		got, want := dropCycles(r.trace), dropCycles(m.trace)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("history %s:\n got %q\nwant %q", strings.Join(hist, "; "), got, want)
		}
		cycles := []string{}
		for _, f := range s.facts {
			if x, ok := f.(fact.DispatchCycleBegun); ok && mtOf(x.Envelope.Message) == CB {
				cycles = append(cycles, fmt.Sprintf("cycle %s at %s", tagOf(x.Envelope.Message), x.EngineTime.Format(time.RFC3339)))
			}
		}
		wc := []string{}
		for _, t := range m.trace {
			if strings.HasPrefix(t, "cycle ") {
				wc = append(wc, t)
			}
		}
		if strings.Join(cycles, "\n") != strings.Join(wc, "\n") {
			return fmt.Sprintf("history %s:\n dispatched %q\nwant %q", strings.Join(hist, "; "), cycles, wc)
		}
		m2done(w, name, c, strings.Join(hist, ";"), len(s.facts)+len(got), func() any { return hist })
		return ""
	}}
}

func dropCycles(t []string) []string {
	r := []string{}
	for _, x := range t {
		if !strings.HasPrefix(x, "cycle ") {
			r = append(r, x)
		}
	}
	return r
}

func init() {
	register(&Check{
		ID:   "C24",
		Rule: "all sequences of calls, other actions and uses outside of any action up to a bound x test-level and call-level interceptors of every behaviour x commands that succeed, fail or make a handler panic x calls that end normally, by panic or by exiting the goroutine; uses, interceptions, results and dispatched commands are compared with the definition",
		Assumptions: []string{
			"a call action is not performed from within another call action",
			"of several interceptor options given to one call or test the last one counts as the innermost",
		},
		Cases: func(tier string) []*Case {
			var all []int
			for i := 0; i < nIntercept; i++ {
				all = append(all, i)
			}
			some := []int{xNone, xPass, xReject}
			q := tier == "quick"
			cs := []*Case{
				execCase("behaviours", tierN(tier, 1, 2), all, all, []string{"good", "bad", "crash"}, 2, 0, false, false),
				execCase("sequences", 3, some, some, []string{"good"}, 1, 0, true, false),
				execCase("exits", 2, some, []int{xNone, xPass, xReject, xPanic}, []string{"good", "crash"}, 1, 'g', true, false),
				execCase("mixed", 2, []int{xNone, xPass, xAgain, xSwap}, all, []string{"good"}, 1, 'p', true, false),
			}
			cs = append(cs, execCaseN("repeated", 2, 40, some, some, []string{"good"}, 1, 0, true, false))
			cs = append(cs, execCaseN("many", 1, 1, []int{xNone, xPass, xReject}, all, []string{"good"}, 130, 0, false, false))
			cs = append(cs, execCase("several", 2, some, some, []string{"good"}, 1, 0, false, true))
			if !q {
				cs = append(cs, execCase("long", 4, some, some, []string{"good"}, 1, 0, true, false))
			}
			return cs
		},
	})
}
