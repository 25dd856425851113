package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	sch "github.com/dogmatiq/testkit/verifmc/sched"
)

// appIso is an application that is used by several tests and engines. Each
// message has one consumer so that the logs are the same every time.
var appIso = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA, CC}, Out: []MT{EA, EB}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EA, EE}, Out: []MT{CC, TA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EC}},
	HSpec{Name: "v", Kind: Proj, In: []MT{EC}},
)

// isoApp returns an application without any state of its own.
func isoApp() *TApp {
	return &TApp{spec: appIso, pure: true, on: func(h *HSpec, m dogma.Message, sc *TScope) error {
		b := Base{Tag: "t", Inst: instOf(m)}
		sc.log("%s handles %s", h.Name, msgStr(m))
		switch mtOf(m) {
		case CA:
			sc.Produce(EA.make(b), time.Time{})
		case CC:
			sc.Produce(EB.make(b), time.Time{})
			sc.end()
		case EA:
			sc.Produce(TA.make(b), epoch.Add(90*time.Minute))
		case EE:
			sc.Produce(TA.make(b), epoch.Add(30*time.Minute))
			sc.Produce(CC.make(b), time.Time{})
		case TA:
			sc.Produce(CC.make(b), time.Time{})
		case CB:
			sc.Produce(EC.make(b), time.Time{})
		}
		return nil
	}}
}

// client is a test or an engine that is used.
type client interface {
	// do performs a step; step 0 is the creation.
	do(step int)
	log() string
}

// isoShared are the values that the clients have in common.
type isoShared struct {
	app   *TApp
	cfg   configkit.RichApplication
	acts  map[string]testkit.Action
	exps  map[string]testkit.Expectation
	opts  map[string]testkit.TestOption
	eopts []engine.OperationOption
}

func newIsoShared() *isoShared {
	b := Base{Tag: "t", Inst: "x"}
	cmd := func(t MT) dogma.Command { return t.make(b).(dogma.Command) }
	a := isoApp()
	return &isoShared{
		app: a,
		cfg: configkit.FromApplication(a),
		acts: map[string]testkit.Action{
			"CA":      testkit.ExecuteCommand(cmd(CA)),
			"CB":      testkit.ExecuteCommand(cmd(CB)),
			"EE":      testkit.RecordEvent(EE.make(b).(dogma.Event)),
			"advance": testkit.AdvanceTime(testkit.ByDuration(time.Hour)),
		},
		exps: map[string]testkit.Expectation{
			"EA": testkit.ToRecordEventType[Evt[tA]](),
			"EB": testkit.ToRecordEvent(EB.make(Base{Tag: "other", Inst: "x"}).(dogma.Event)),
			"EC": testkit.ToRecordEvent(EC.make(b).(dogma.Event)),
			"CC": testkit.AllOf(testkit.ToExecuteCommandType[Cmd[tC]](), testkit.ToExecuteCommandMatching(func(m Cmd[tC]) error {
				if tagOf(m) != "t" {
					return errors.New("wrong tag")
				}
				return nil
			})),
			"satisfy": testkit.ToSatisfy("satisfied", func(s *testkit.SatisfyT) {
				s.Log("facts", len(s.Facts))
			}),
		},
		opts: map[string]testkit.TestOption{
			"comparator": testkit.WithMessageComparator(func(a, b dogma.Message) bool { return true }),
			"intercept": testkit.InterceptCommandExecutor(func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
				return errors.New("rejected")
			}),
			"late":    testkit.StartTimeAt(epoch.Add(time.Hour)),
			"unnamed": testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)),
		},
		eopts: append(make([]engine.OperationOption, 0, 8), engine.EnableProjections(true)),
	}
}

// testOps are the steps of a test.
var testOps = []string{"CA", "CB", "EE", "advance", "call", "enable", "disable", "annotate", "annotate-too"}

// testVariants are the options of a test.
var testVariants = []string{"", "comparator", "intercept", "late", "unnamed"}

type testClient struct {
	s       *isoShared
	index   int
	variant string
	ops     []string
	t       *mockT
	test    *testkit.Test
}

func (x *testClient) do(step int) {
	if step == 0 {
		x.t = &mockT{}
		opts := []testkit.TestOption{testkit.StartTimeAt(epoch)}
		if x.variant != "" {
			opts = append(opts, x.s.opts[x.variant])
		}
		x.test = testkit.Begin(x.t, x.s.app, opts...)
		return
	}
	op := x.ops[step-1]
	switch op {
	case "CA":
		x.test.Expect(x.s.acts[op], x.s.exps["EA"])
	case "CB":
		x.test.Expect(x.s.acts[op], x.s.exps["EC"])
	case "EE":
		x.test.Expect(x.s.acts[op], x.s.exps["EB"])
	case "advance":
		x.test.Expect(x.s.acts[op], x.s.exps["CC"])
	case "call":
		x.test.Expect(testkit.Call(func() {
			err := x.test.CommandExecutor().ExecuteCommand(context.Background(), CC.make(Base{Tag: "t", Inst: "x"}).(dogma.Command))
			x.t.Log("executed", err)
		}), x.s.exps["satisfy"])
	case "enable":
		x.test.EnableHandlers("i", "v")
	case "disable":
		x.test.DisableHandlersLike("^[av]$")
	case "annotate":
		x.test.Annotate("other", fmt.Sprint("annotated by ", x.index))
	case "annotate-too":
		x.test.Annotate("x", fmt.Sprint("also annotated by ", x.index))
	}
}

func (x *testClient) log() string {
	return fmt.Sprintf("%s\nfatal: %q, failed %d times", strings.Join(x.t.logs, "\n"), x.t.fatals, x.t.failNow)
}

// engineOps are the steps of an engine.
var engineOps = []string{"CA", "CB", "EE", "tick", "reset", "executor", "without"}

type engineClient struct {
	s    *isoShared
	ops  []string
	e    *engine.Engine
	out  []string
	opts []engine.OperationOption
}

func (x *engineClient) do(step int) {
	if step == 0 {
		x.e = engine.MustNew(x.s.cfg, engine.WithResetter(func() { x.out = append(x.out, "reset") }))
		x.opts = append(x.s.eopts[:len(x.s.eopts):len(x.s.eopts)], engine.WithObserver(fact.NewLogger(func(l string) { x.out = append(x.out, l) })))
		return
	}
	b := Base{Tag: "t", Inst: "x"}
	ctx := context.Background()
	op := x.ops[step-1]
	at := func(d time.Duration, more ...engine.OperationOption) []engine.OperationOption {
		return append(append(x.opts[:len(x.opts):len(x.opts)], engine.WithCurrentTime(epoch.Add(d))), more...)
	}
	var err error
	switch op {
	case "CA":
		err = x.e.Dispatch(ctx, CA.make(b), at(0)...)
	case "CB":
		err = x.e.Dispatch(ctx, CB.make(b), at(0)...)
	case "EE":
		err = x.e.Dispatch(ctx, EE.make(b), at(0)...)
	case "tick":
		err = x.e.Tick(ctx, at(2*time.Hour)...)
	case "reset":
		x.e.Reset()
	case "executor":
		ex := engine.CommandExecutor{Engine: x.e, Options: at(time.Hour)}
		err = ex.ExecuteCommand(ctx, CC.make(b).(dogma.Command))
	case "without":
		err = x.e.Dispatch(ctx, CA.make(b), at(0, engine.EnableAggregates(false))...)
	}
	x.out = append(x.out, op+" "+errStr(err))
}

func (x *engineClient) log() string { return strings.Join(x.out, "\n") }

// isoSpec describes a client.
type isoSpec struct {
	index   int
	engine  bool
	variant string
	ops     []string
}

func (i isoSpec) new(s *isoShared) client {
	if i.engine {
		return &engineClient{s: s, ops: i.ops}
	}
	return &testClient{s: s, index: i.index, variant: i.variant, ops: i.ops}
}

func (i isoSpec) String() string {
	if i.engine {
		return fmt.Sprintf("engine%v", i.ops)
	}
	return fmt.Sprintf("test(%s)%v", i.variant, i.ops)
}

func (i isoSpec) run(c client) {
	for k := 0; k <= len(i.ops); k++ {
		c.do(k)
	}
}

// solo returns what a client logs when nobody else is there.
func (i isoSpec) solo() string {
	key := fmt.Sprint(i.index, i)
	if l, ok := isoAlone.Load(key); ok {
		return l.(string)
	}
	c := i.new(newIsoShared())
	i.run(c)
	l, _ := isoAlone.LoadOrStore(key, c.log())
	return l.(string)
}

var isoAlone sync.Map

func isoDiff(specs []isoSpec, clients []client, want []string) string {
	for i := range specs {
		if got := clients[i].log(); got != want[i] {
			return fmt.Sprintf("%s, used together with %v, is influenced by it\n-- alone:\n%s\n-- together:\n%s", specs[i], specs, want[i], got)
		}
	}
	return ""
}

// isoSequences enumerates the sequential use of two clients.
func isoSequences(tier string) []*Case {
	var cs []*Case
	choose := func(c *Chooser, index int, eng bool, n int, variants []string) isoSpec {
		s := isoSpec{index: index, engine: eng}
		ops := testOps
		if eng {
			ops = engineOps
		} else {
			s.variant = variants[c.Choose(len(variants))]
		}
		for range n {
			s.ops = append(s.ops, ops[c.Choose(len(ops))])
		}
		return s
	}
	for _, k := range []struct {
		name string
		eng  [2]bool
	}{{"tests", [2]bool{}}, {"engines", [2]bool{true, true}}, {"test-engine", [2]bool{false, true}}} {
		for n := 1; n <= 3; n++ {
			name := fmt.Sprintf("sequence/%s/%d", k.name, n)
			cs = append(cs, &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
				first, second, m := testVariants, testVariants[:1], n
				switch {
				case n == 1:
					second = testVariants
				case n == 3:
					first, m = testVariants[:1], 1
				case tier != "quick":
					second = testVariants
				default:
					first = []string{"", "intercept"}
				}
				specs := []isoSpec{choose(c, 0, k.eng[0], n, first), choose(c, 1, k.eng[1], m, second)}
				want := []string{specs[0].solo(), specs[1].solo()}
				shared := newIsoShared()
				clients := []client{specs[0].new(shared), specs[1].new(shared)}
				var at [2]int
				order := ""
				for {
					var can []int
					for i := range at {
						if at[i] <= len(specs[i].ops) {
							can = append(can, i)
						}
					}
					if len(can) == 0 {
						break
					}
					i := can[c.Choose(len(can))]
					clients[i].do(at[i])
					at[i]++
					order += fmt.Sprint(i)
				}
				if d := isoDiff(specs, clients, want); d != "" {
					return "in the order " + order + ": " + d
				}
				m2done(w, name, c, fmt.Sprint(specs, order, hashStr(want[0]), hashStr(want[1])), len(order), func() any {
					return map[string]any{"clients": fmt.Sprint(specs), "order": order}
				})
				return ""
			}})
		}
	}
	return cs
}

// isoParallel has two clients in goroutines of their own.
func isoParallel(bound int, specs ...isoSpec) *SCase {
	var want []string
	return &SCase{
		Name: fmt.Sprint("parallel/", specs), Bound: bound, NoRacePreemption: true,
		Deadlock: "no goroutine can continue: a client never completes",
		Build: func() ([]func(), func([]sch.Event) (string, string)) {
			shared := newIsoShared()
			var clients []client
			var fns []func()
			for _, s := range specs {
				c := s.new(shared)
				clients = append(clients, c)
				fns = append(fns, func() { s.run(c) })
			}
			return fns, func([]sch.Event) (string, string) {
				if want == nil {
					for _, s := range specs {
						want = append(want, s.solo())
					}
				}
				return isoDiff(specs, clients, want), ""
			}
		},
	}
}

func c31Cases(tier string) []*SCase {
	var cs []*SCase
	t := func(variant string, ops ...string) isoSpec { return isoSpec{variant: variant, ops: ops} }
	all := []isoSpec{
		t("comparator", "CA"), t("", "enable", "CB"), t("", "EE"), t("late", "advance"), t("intercept", "call"), t("", "disable"), t("", "annotate"),
		{engine: true, ops: []string{"EE", "reset"}}, {engine: true, ops: []string{"executor", "tick"}},
	}
	// Each is combined with itself, with the next, and with all others without
	// preemptions.
	for i := range all {
		all[i].index = i
		for j := i; j < len(all); j++ {
			bound := 0
			if tier != "quick" || i == j || i+1 == j && i%2 == 0 {
				bound = 1
			}
			cs = append(cs, isoParallel(bound, all[i], all[j]))
		}
	}
	return cs
}

func init() {
	ck := &Check{
		ID:    "C31",
		Rule:  "all interleavings of the steps of two tests or engines that share an application, options, actions and expectations x all sequences of steps up to a length, and all schedules with one preemption, at statement granularity, of two of them in goroutines of their own, which are also judged by the race detector, without preemptions; the log of each is compared with that of using it alone",
		Cases: isoSequences,
	}
	schedChecks[ck.ID] = c31Cases
	ck.Run = func(tier string, st *Stats, deadline time.Time) (*Violation, bool) {
		v, ok := schedRun(ck.ID, tier, c31Cases(tier), st, deadline)
		if v != nil {
			return v, false
		}
		v, ok2 := Explore(isoSequences(tier), st, deadline, 0)
		return v, ok && ok2
	}
	register(ck)
}
