package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	"github.com/dogmatiq/testkit/location"
)

// userAction is a user-defined action that performs some operations.
type userAction struct {
	s       *Sess
	caption string
	counts  bool // messages that are dispatched count as produced
	ops     string
	err     error
	// What happened.
	done    int
	app     configkit.RichApplication
	engine  *engine.Engine
	results []string
}

func (a *userAction) Caption() string             { return a.caption }
func (a *userAction) Location() location.Location { return location.OfFunc(hactions) }
func (a *userAction) ConfigurePredicate(o *testkit.PredicateOptions) {
	o.MatchDispatchCycleStartedFacts = a.counts
}
func (a *userAction) Do(ctx context.Context, s testkit.ActionScope) error {
	a.done++
	a.app, a.engine = s.App, s.Engine
	defer s.Executor.Unbind()
	cmd := func(t MT) dogma.Command { return t.make(Base{Tag: "u", Inst: "x"}).(dogma.Command) }
	do := func(fn func() error) {
		res := "panic"
		defer func() {
			recover()
			a.results = append(a.results, res)
		}()
		res = fmt.Sprint(fn())
	}
	for _, o := range a.ops {
		switch o {
		case 'c':
			do(func() error { return s.Engine.Dispatch(ctx, cmd(CA), s.OperationOptions...) })
		case 'd':
			do(func() error { return s.Engine.Dispatch(ctx, cmd(CB), s.OperationOptions...) })
		case 't':
			do(func() error { return s.Engine.Tick(ctx, s.OperationOptions...) })
		case 'T':
			do(func() error {
				return s.Engine.Tick(ctx, append(s.OperationOptions, engine.WithCurrentTime(*s.VirtualClock))...)
			})
		case 'a':
			*s.VirtualClock = s.VirtualClock.Add(time.Hour)
		case 'b':
			s.Executor.Bind(s.Engine, s.OperationOptions)
		case 'u':
			s.Executor.Unbind()
		case 'x':
			do(func() error { return s.Executor.ExecuteCommand(ctx, cmd(CB)) })
		case 'y':
			do(func() error { return a.s.test.CommandExecutor().ExecuteCommand(ctx, cmd(CA)) })
		case 'i':
			s.Executor.Intercept(func(context.Context, dogma.Command, dogma.CommandExecutor) error { return errBoom })
		case 'r':
			s.Executor.Intercept(nil)
		}
	}
	return a.err
}

var appUser = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EC}},
)

// cyclesOf describes the operations among facts.
func cyclesOf(fs []fact.Fact) []string {
	var r []string
	for _, f := range fs {
		switch f := f.(type) {
		case fact.DispatchCycleBegun:
			r = append(r, fmt.Sprintf("dispatch %s at %s", mtOf(f.Envelope.Message), tstr(f.EngineTime)))
		case fact.TickCycleBegun:
			r = append(r, "tick at "+tstr(f.EngineTime))
		}
	}
	return r
}

func init() {
	const userOps = "cdtTabuxyir"
	register(&Check{
		ID:   "C35",
		Rule: "all sequences of user-defined actions, each with all sequences of operations up to a bound, built-in actions and toggles; operations, engine times, handler calls, verdicts and logs are compared with the definition",
		Assumptions: []string{
			"a user-defined action unbinds the command executor when it is done",
		},
		Cases: func(tier string) []*Case {
			body := func(name string, budget, steps, ops int) *Case {
				return &Case{Name: name, Budget: budget, Body: func(w *Worker, c *Chooser) string {
					s := newSess(appUser, 0)
					s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error { return nil }
					clock := epoch
					on, rejects := false, false
					var eng *engine.Engine
					var hist []string
					fail := func(f string, v ...any) string {
						return fmt.Sprintf("steps %q: %s\nlogs: %q\nfatal: %q", hist, fmt.Sprintf(f, v...), s.t.logs, s.t.fatals)
					}
					total := 0
					for i := 0; i < steps; i++ {
						s.clear()
						var cycles, calls, results []string
						dispatch := func(t MT, at time.Time) {
							cycles = append(cycles, fmt.Sprintf("dispatch %s at %s", t, tstr(at)))
							if t == CA {
								calls = append(calls, "a")
							} else if on {
								calls = append(calls, "i")
							}
						}
						want := ""
						k := c.Choose(6)
						if k == 0 {
							on = !on
							hist = append(hist, fmt.Sprint("i=", on))
							if on {
								s.test.EnableHandlers("i")
							} else {
								s.test.DisableHandlers("i")
							}
							continue
						}
						if k <= 2 {
							// Built-in actions.
							if k == 1 {
								hist = append(hist, "advance")
								clock = clock.Add(time.Minute)
								cycles = append(cycles, "tick at "+tstr(clock))
								s.test.Prepare(testkit.AdvanceTime(testkit.ByDuration(time.Minute)))
							} else {
								hist = append(hist, "call")
								if !rejects {
									dispatch(CB, clock)
								}
								s.test.Prepare(testkit.Call(func() {
									_ = s.test.CommandExecutor().ExecuteCommand(ctxBg, CB.make(Base{Tag: "b", Inst: "x"}).(dogma.Command))
								}))
							}
						} else {
							a := &userAction{s: s, caption: fmt.Sprintf("doing 100%% of %d", i)}
							for n := 0; n < ops; n++ {
								k := c.Dev(len(userOps) + 1)
								if k == 0 {
									break
								}
								a.ops += userOps[k-1 : k]
							}
							if c.Dev(2) == 1 {
								a.err = errBoom
							}
							now := clock
							bound := false
							counted := false
							perform := func() {
								for _, o := range a.ops {
									res := "<nil>"
									switch o {
									case 'c':
										dispatch(CA, now)
										counted = true
									case 'd':
										dispatch(CB, now)
									case 't':
										cycles = append(cycles, "tick at "+tstr(now))
									case 'T':
										cycles = append(cycles, "tick at "+tstr(clock))
									case 'a':
										clock = clock.Add(time.Hour)
										continue
									case 'b', 'u':
										bound = o == 'b'
										continue
									case 'i', 'r':
										rejects = o == 'i'
										continue
									case 'x', 'y':
										switch {
										case !bound:
											res = "panic"
										case rejects:
											res = errBoom.Error()
										case o == 'x':
											dispatch(CB, now)
										default:
											dispatch(CA, now)
											counted = true
										}
									}
									results = append(results, res)
								}
							}
							performed := true
							var leaf *leafExp
							heading := "--- " + a.caption + " ---"
							switch k {
							case 3:
								hist = append(hist, fmt.Sprintf("prepare(%s %v)", a.ops, a.err))
								perform()
								s.test.Prepare(a)
							case 4:
								hist = append(hist, fmt.Sprintf("expect(%s %v)", a.ops, a.err))
								perform()
								leaf = &leafExp{b: lPass}
								want = "pass"
								heading = "--- expect " + a.caption + " " + leaf.Caption() + " ---"
								s.test.Expect(a, leaf)
							default:
								a.counts = c.Bool()
								hist = append(hist, fmt.Sprintf("expect-command(%s %v counts=%v)", a.ops, a.err, a.counts))
								if performed = a.counts; performed {
									perform()
								}
								want = "fail"
								if counted {
									want = "pass"
								}
								heading = "--- expect " + a.caption + " to execute a command of type " + CA.String() + " ---"
								s.test.Expect(a, testkit.ToExecuteCommandType[Cmd[tA]]())
							}
							if a.err != nil && want != "" || !performed {
								want = "fatal"
							}
							n := 0
							if performed {
								n = 1
							}
							if a.done != n {
								return fail("the action was performed %d times", a.done)
							}
							if len(s.t.logs) == 0 || s.t.logs[0] != heading {
								return fail("heading, want %q", heading)
							}
							if performed {
								if a.app.Identity().Name != configkit.FromApplication(s.a).Identity().Name || a.engine == nil || eng != nil && a.engine != eng {
									return fail("the action was given another application or engine")
								}
								eng = a.engine
								if got := strings.Join(a.results, " "); got != strings.Join(results, " ") {
									return fail("results %v, want %v", a.results, results)
								}
							}
							if leaf != nil && !sameFacts(leaf.preds[0].facts, s.facts) {
								return fail("the expectation saw %d facts of %d", len(leaf.preds[0].facts), len(s.facts))
							}
							if want != "" && s.verdict() != want {
								return fail("verdict %s, want %s", s.verdict(), want)
							}
							if want == "" && len(s.t.fatals) != map[bool]int{true: 1, false: 0}[a.err != nil] {
								return fail("errors reported")
							}
						}
						if got := cyclesOf(s.facts); strings.Join(got, "\n") != strings.Join(cycles, "\n") {
							return fail("operations %q, want %q", got, cycles)
						}
						var got []string
						for _, x := range s.a.calls {
							got = append(got, x.H)
						}
						if strings.Join(got, " ") != strings.Join(calls, " ") {
							return fail("handlers called %q, want %q", got, calls)
						}
						total += len(s.facts)
					}
					m2done(w, name, c, fmt.Sprint(hist, tstr(clock)), total, func() any { return hist })
					return ""
				}}
			}
			return []*Case{body("actions", tierN(tier, 2, 3), 3, 2), body("operations", tierN(tier, 3, 4), 2, 4)}
		},
	})
}
