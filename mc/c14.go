package main

import (
	"context"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
	sch "github.com/dogmatiq/testkit/verifmc/sched"
)

// ---- an application for concurrent operations ----

// sHandler is implemented by the handlers of the applications that are used
// concurrently. It has no state, so that it does not order what the engine does.
type sHandler struct{ h *HSpec }

func (x sHandler) enter(m string) { sch.Log("enter", x.h.Name+" "+m); sch.Point(-10) }
func (x sHandler) exit()          { sch.Point(-11); sch.Log("exit", x.h.Name) }

type sAgg struct{ sHandler }
type sProc struct{ sHandler }
type sInt struct{ sHandler }
type sProj struct{ sHandler }

func (x *sAgg) Configure(c dogma.AggregateConfigurer)         { (&aggImpl{nil, x.h}).Configure(c) }
func (x *sAgg) New() dogma.AggregateRoot                      { return &sRoot{} }
func (x *sAgg) RouteCommandToInstance(m dogma.Command) string { return instOf(m) }
func (x *sProc) Configure(c dogma.ProcessConfigurer)          { (&procImpl{nil, x.h}).Configure(c) }
func (x *sProc) New() dogma.ProcessRoot                       { return &sRoot{} }
func (x *sInt) Configure(c dogma.IntegrationConfigurer)       { (&intImpl{nil, x.h}).Configure(c) }
func (x *sProj) Configure(c dogma.ProjectionConfigurer)       { (&projImpl{nil, x.h}).Configure(c) }
func (x *sProj) CloseResource(context.Context, []byte) error  { return nil }

func (x *sProj) ResourceVersion(context.Context, []byte) ([]byte, error) { return nil, nil }

func (x *sProc) RouteEventToInstance(_ context.Context, m dogma.Event) (string, bool, error) {
	return instOf(m), true, nil
}

// sRoot is the root of an aggregate or process.
type sRoot struct{ Log []string }

func (r *sRoot) ApplyEvent(m dogma.Event) { r.Log = append(r.Log, tagOf(m)) }

func (x *sAgg) HandleCommand(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
	x.enter(msgStr(m))
	defer x.exit()
	tag := tagOf(m)
	s.RecordEvent(EA.make(Base{Tag: tag + "a", Inst: s.InstanceID()}).(dogma.Event))
	if strings.Contains(tag, "panic") {
		panic(UserPanic{tag})
	}
	s.Log("%s after %v", tag, r.(*sRoot).Log)
	if strings.Contains(tag, "destroy") {
		s.Destroy()
	}
}

func (x *sProc) HandleEvent(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
	x.enter(msgStr(m))
	defer x.exit()
	rt := r.(*sRoot)
	rt.Log = append(rt.Log, tagOf(m))
	s.Log("event after %v", rt.Log)
	if strings.Contains(tagOf(m), "panic") {
		panic(UserPanic{tagOf(m)})
	}
	if !strings.Contains(tagOf(m), "quiet") {
		s.ScheduleTimeout(TA.make(Base{Tag: tagOf(m) + "t"}).(dogma.Timeout), epoch.Add(time.Minute))
	}
	return nil
}

func (x *sProc) HandleTimeout(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	x.enter(msgStr(m))
	defer x.exit()
	s.ExecuteCommand(CB.make(Base{Tag: tagOf(m) + "c"}).(dogma.Command))
	if strings.Contains(tagOf(m), "end") {
		s.End()
	}
	return nil
}

func (x *sInt) HandleCommand(ctx context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	x.enter(msgStr(m))
	defer x.exit()
	s.RecordEvent(EC.make(Base{Tag: tagOf(m) + "i"}).(dogma.Event))
	if strings.Contains(tagOf(m), "err") {
		return &UserErr{tagOf(m)}
	}
	return nil
}

func (x *sProj) HandleEvent(ctx context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	x.enter(msgStr(m))
	defer x.exit()
	s.Log("projection of %s", tagOf(m))
	if strings.Contains(tagOf(m), "panic") {
		panic(UserPanic{tagOf(m)})
	}
	return true, nil
}

func (x *sProj) Compact(ctx context.Context, s dogma.ProjectionCompactScope) error {
	sch.Log("compact", x.h.Name)
	sch.Point(-12)
	s.Log("compacting")
	sch.Point(-13)
	s.Log("compacted")
	sch.Log("compacted", x.h.Name)
	return nil
}

type sApp struct{ spec *AppSpec }

func (a *sApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", "11111111-2222-4333-8444-555555555555")
	for _, h := range a.spec.H {
		x := sHandler{h}
		switch h.Kind {
		case Agg:
			c.RegisterAggregate(&sAgg{x})
		case Proc:
			c.RegisterProcess(&sProc{x})
		case Int:
			c.RegisterIntegration(&sInt{x})
		case Proj:
			c.RegisterProjection(&sProj{x})
		}
	}
}

func newSApp(spec *AppSpec) configkit.RichApplication {
	cfg := configkit.FromApplication(&sApp{spec})
	a := &AppInst{spec: spec}
	for _, h := range spec.H {
		x, _ := cfg.RichHandlers().ByName(h.Name)
		a.hs = append(a.hs, x)
	}
	return &orderedApp{cfg, a}
}

// ---- programs ----

// sop is an operation of a program.
type sop struct {
	name string
	kind byte // 'd' dispatch, 't' tick, 'r' reset, 'c' cancel the context of the others
	mt   MT
	base Base
	// cancellable operations use the context that 'c' cancels.
	cancellable bool
	// cancelAt cancels the context when the given number of facts were seen.
	cancelAt int
	at       time.Duration
}

func sdisp(name string, t MT, tag, inst string) sop {
	return sop{name: name, kind: 'd', mt: t, base: Base{Tag: tag, Inst: inst}}
}

// sprog is a set of goroutines that each perform some operations.
type sprog struct {
	name  string
	app   *AppSpec
	setup []sop
	gor   [][]sop
}

// sres is what an operation did.
type sres struct {
	ret   string
	facts []string
}

type srun struct {
	p      *sprog
	e      *engine.Engine
	res    map[string]*sres
	ctx    context.Context
	cancel context.CancelFunc
}

func sFact(f fact.Fact) string {
	s := factEv(f).String()
	switch f := f.(type) {
	case fact.AggregateInstanceLoaded:
		s += fmt.Sprint(f.Root)
	case fact.ProcessInstanceLoaded:
		s += fmt.Sprint(f.Root)
	}
	return s
}

func newSRun(p *sprog, cfg configkit.RichApplication) *srun {
	r := &srun{p: p, res: map[string]*sres{}}
	r.e = engine.MustNew(cfg, engine.WithResetter(func() { sch.Log("reset", "") }))
	r.ctx, r.cancel = context.WithCancel(context.Background())
	for _, o := range p.setup {
		r.do(o)
	}
	for _, g := range p.gor {
		for _, o := range g {
			r.res[o.name] = &sres{}
		}
	}
	return r
}

// do performs an operation.
func (r *srun) do(o sop) {
	res := r.res[o.name]
	if res == nil {
		res = &sres{}
	}
	sch.Log("call", o.name)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	opts := []engine.OperationOption{
		engine.WithCurrentTime(epoch.Add(o.at)),
		engine.EnableIntegrations(true),
		engine.EnableProjections(true),
		// An observer of its own.
		engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
			res.facts = append(res.facts, sFact(f))
			if o.cancelAt == len(res.facts) {
				cancel()
			}
		})),
		// The observer that is shared by all operations.
		engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
			sch.Log("notify", o.name)
			sch.Point(-20)
			sch.Log("notified", o.name)
		})),
	}
	if o.cancellable {
		ctx = r.ctx
	}
	func() {
		defer func() {
			if v := recover(); v != nil {
				res.ret = "panic " + panicStr(v)
				if panicStr(v) == "other" {
					res.ret = fmt.Sprintf("panic %v", v)
				}
			}
		}()
		switch o.kind {
		case 'd':
			res.ret = errStr(r.e.Dispatch(ctx, o.mt.make(o.base), opts...))
		case 't':
			res.ret = errStr(r.e.Tick(ctx, opts...))
		case 'r':
			r.e.Reset()
			res.ret = "reset"
		case 'c':
			r.cancel()
			res.ret = "cancelled"
		}
	}()
	sch.Log("return", o.name+" "+res.ret)
}

func (p *sprog) ops() map[string]sop {
	r := map[string]sop{}
	for _, g := range p.gor {
		for _, o := range g {
			r[o.name] = o
		}
	}
	return r
}

// canon orders the facts of a tick, as the order of the handlers is not
// specified.
func (o sop) canon(r *sres) string {
	f := append([]string(nil), r.facts...)
	if o.kind == 't' {
		sort.Strings(f)
	}
	return "returned " + r.ret + "\n    " + strings.Join(f, "\n    ")
}

// scase is the case for a program. serial caches the results of running the
// operations one at a time.
func (p *sprog) scase(bound int) *SCase {
	serial := map[string]map[string]string{}
	var cfg configkit.RichApplication
	ops := p.ops()
	return &SCase{
		Name:     p.name,
		Bound:    bound,
		Deadlock: "no goroutine can continue: an operation never completes",
		Build: func() ([]func(), func([]sch.Event) (string, string)) {
			if cfg == nil {
				cfg = newSApp(p.app)
			}
			r := newSRun(p, cfg)
			var fns []func()
			for _, g := range p.gor {
				fns = append(fns, func() {
					for _, o := range g {
						r.do(o)
					}
				})
			}
			return fns, func(evs []sch.Event) (string, string) {
				idle := map[string]bool{} // cancelled while they waited
				for n, o := range ops {
					if o.cancellable && isCancelled(r.res[n].ret) && r.res[n].onlyCycle() {
						idle[n] = true
					}
				}
				order, bad := sJudge(ops, idle, evs)
				if bad != "" {
					return bad, ""
				}
				var eff []string
				out, key := "", ""
				for _, n := range order {
					if idle[n] {
						out += n + "! "
						continue
					}
					eff = append(eff, n)
					key += n
					if ops[n].cancellable && isCancelled(r.res[n].ret) {
						key += fmt.Sprint("@", len(r.res[n].facts)-1)
					}
					key += " "
				}
				out += key
				want := serial[key]
				if want == nil {
					want = map[string]string{}
					x := newSRun(p, cfg)
					for _, n := range eff {
						o := ops[n]
						if o.cancellable && isCancelled(r.res[n].ret) {
							o.cancelAt = len(r.res[n].facts) - 1
						}
						o.cancellable = false
						x.do(o)
						want[n] = ops[n].canon(x.res[n])
					}
					serial[key] = want
				}
				for _, n := range eff {
					got, want := ops[n].canon(r.res[n]), want[n]
					if len(idle) > 0 {
						// They may have used up message IDs.
						got, want = rankIDs(got), rankIDs(want)
					}
					if got != want {
						return fmt.Sprintf("the operations took effect in the order %q, but %s differs from running them one at a time in this order:\n  got  %s\n  want %s", key, n, got, want), ""
					}
				}
				return "", out
			}
		},
	}
}

var idRE = regexp.MustCompile(`\[(\d+)/(\d+)/(\d+) `)

// rankIDs replaces message IDs with their ranks.
func rankIDs(s string) string {
	var ids []int
	for _, m := range idRE.FindAllStringSubmatch(s, -1) {
		for _, x := range m[1:] {
			n, _ := strconv.Atoi(x)
			ids = append(ids, n)
		}
	}
	slices.Sort(ids)
	ids = slices.Compact(ids)
	return idRE.ReplaceAllStringFunc(s, func(t string) string {
		m := idRE.FindStringSubmatch(t)
		for i, x := range m[1:] {
			n, _ := strconv.Atoi(x)
			k, _ := slices.BinarySearch(ids, n)
			m[1+i] = fmt.Sprint("#", k)
		}
		return "[" + strings.Join(m[1:], "/") + " "
	})
}

func isCancelled(ret string) bool { return strings.Contains(ret, "CANCELED") }

// onlyCycle is true if the operation did not do anything.
func (r *sres) onlyCycle() bool {
	for _, f := range r.facts {
		if !strings.HasPrefix(f, "f.DispatchCycle") && !strings.HasPrefix(f, "f.TickCycle") {
			return false
		}
	}
	return true
}

// sJudge checks mutual exclusion and returns the order in which the operations
// took effect.
func sJudge(ops map[string]sop, idle map[string]bool, evs []sch.Event) (order []string, bad string) {
	inHandler, inObserver := false, -1
	current := map[int]string{} // operation of each goroutine
	began := map[string]bool{}
	active := ""
	waiting := map[string]bool{} // have to wait for their turn
	gone := map[string]string{}  // cancelled while they waited for another one
	sure := map[string]bool{}    // and that one still had its turn
	for _, e := range evs {
		op := current[e.G]
		switch e.Kind {
		case "call":
			current[e.G] = e.Text
			continue
		case "blocked":
			waiting[op] = waiting[op] || !began[op]
			continue
		case "return":
			op = strings.SplitN(e.Text, " ", 2)[0]
			if ops[op].kind == 'c' && active != "" {
				// Those that wait must not get their turn if the active
				// operation continues.
				for n := range waiting {
					if ops[n].cancellable && !began[n] {
						gone[n] = active
					}
				}
			}
			if ops[op].kind != 'c' && !began[op] {
				// It had no visible effect.
				began[op] = true
				order = append(order, op)
			}
			if active == op {
				active = ""
			}
			continue
		case "enter":
			if idle[op] {
				return nil, fmt.Sprintf("%s was cancelled while it waited, but invoked a handler (%s)", op, e.Text)
			}
			if inHandler {
				return nil, fmt.Sprintf("handlers were invoked concurrently (%s)", e.Text)
			}
			inHandler = true
		case "exit":
			inHandler = false
		case "notify":
			if idle[op] {
				continue
			}
			if inObserver >= 0 {
				return nil, "an observer was notified by two goroutines at once"
			}
			inObserver = e.G
		case "notified":
			if idle[op] {
				continue
			}
			inObserver = -1
		}
		for n, o := range gone {
			if o == op {
				sure[n] = true
			}
		}
		// Everything an operation does must be contiguous.
		if !began[op] {
			if active != "" {
				return nil, fmt.Sprintf("what %s and %s did was interleaved", op, active)
			}
			began[op] = true
			order = append(order, op)
			active = op
		} else if active != op {
			return nil, fmt.Sprintf("what %s and %s did was interleaved", op, active)
		}
	}
	for n := range sure {
		if !idle[n] {
			return nil, fmt.Sprintf("%s was cancelled while it waited for %s, but it returned another error or had an effect", n, gone[n])
		}
	}
	return order, ""
}

var (
	sAppAP = app(
		HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
		HSpec{Name: "p", Kind: Proc, In: []MT{EA, EB}, Out: []MT{CB, TA}},
	)
	sAppP = app(
		HSpec{Name: "p", Kind: Proc, In: []MT{EA, EB, EC}, Out: []MT{CB, TA}},
	)
	sAppI = app(
		HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EC}},
	)
	sAppV = app(
		HSpec{Name: "v", Kind: Proj, In: []MT{EA, EC}},
	)
	sAppAll = app(
		HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
		HSpec{Name: "p", Kind: Proc, In: []MT{EA, EB}, Out: []MT{CB, TA}},
		HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EC}},
		HSpec{Name: "v", Kind: Proj, In: []MT{EA, EC}},
	)
)

func c14Cases(tier string) []*SCase {
	var cs []*SCase
	setup := []sop{
		sdisp("s1", CA, "s1", "x"),
		sdisp("s2", EB, "s2", "x"),
	}
	alpha := func(i int) []sop {
		n := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
		return []sop{
			sdisp(n("cmdx"), CA, n("quiet"), "x"),
			sdisp(n("evt"), EB, n("e"), "x"),
			{name: n("tick"), kind: 't', at: 2 * time.Minute},
			{name: n("reset"), kind: 'r'},
			sdisp(n("panic"), CA, n("panic"), "x"),
			sdisp(n("bad"), CA, "", ""), // invalid message
		}
	}
	mk := func(name string, a *AppSpec, bound int, gor ...[]sop) {
		p := &sprog{name: name, app: a, gor: gor}
		for _, o := range setup {
			for _, h := range a.H {
				if h.consumes(o.mt) {
					p.setup = append(p.setup, o)
					break
				}
			}
		}
		cs = append(cs, p.scase(bound))
	}
	one := func(o sop) []sop { return []sop{o} }
	for i, x := range alpha(1) {
		for j, y := range alpha(2) {
			if x.name == "bad1" {
				x.base.Bad = "invalid"
			}
			if y.name == "bad2" {
				y.base.Bad = "invalid"
			}
			if i <= j {
				b := 2
				if tier != "quick" {
					b = 3
				}
				mk("pair/"+x.name+"/"+y.name, sAppAP, b, one(x), one(y))
			}
		}
	}
	// Three operations.
	for i, x := range alpha(1)[:4] {
		for j, y := range alpha(2)[:4] {
			for k, z := range alpha(3)[:5] {
				if i <= j && j <= k && (tier != "quick" || (i+j+k)%3 == 0) {
					b := 1
					if tier != "quick" {
						b = 2
					}
					mk("triple/"+x.name+"/"+y.name+"/"+z.name, sAppAP, b, one(x), one(y), one(z))
				}
			}
		}
	}
	// Sequences of operations.
	for i, x := range alpha(1)[:4] {
		for j, y := range alpha(2)[:4] {
			for k, z := range alpha(3)[:4] {
				if i == j || tier == "quick" && (i+j+k)%2 == 1 {
					continue
				}
				mk("sequence/"+x.name+"+"+y.name+"/"+z.name, sAppAP, 1, []sop{x, y}, one(z))
			}
		}
	}
	// Cancellation.
	for _, x := range alpha(1)[:5] {
		for k := 0; k < 2; k++ {
			y := alpha(2)[1+k]
			y.cancellable = true
			a := sAppP
			if x.mt == CA && x.kind == 'd' {
				x.mt = EB
				if x.name == "panic1" {
					x.mt = EC
				}
			}
			b := 1
			if tier != "quick" {
				b = 2
			}
			mk("cancel/"+x.name+"/"+y.name, a, b, one(x), one(y), one(sop{name: "cancel", kind: 'c'}))
			z := alpha(3)[1]
			z.cancellable = true
			mk("cancel2/"+x.name+"/"+y.name+"+"+z.name, a, 1, one(x), []sop{y, z}, one(sop{name: "cancel", kind: 'c'}))
		}
	}
	// All kinds of handlers.
	cmd, tk := sdisp("cmd1", CA, "m1", "x"), sop{name: "tick2", kind: 't', at: 2 * time.Minute}
	mk("all/cmd1/cmd2", sAppAll, 1, one(cmd), one(sdisp("cmd2", CA, "m2", "y")))
	mk("all/cmd1/int2", sAppAll, 1, one(cmd), one(sdisp("int2", CB, "err", "y")))
	mk("all/int1/int2", sAppAll, 2, one(sdisp("int1", CB, "i1", "y")), one(sdisp("int2", CB, "err", "y")))
	mk("all/proj1/proj2", sAppAll, 2, one(sdisp("proj1", EC, "i1", "y")), one(sdisp("proj2", EC, "i2", "y")))
	mk("one/int1/tick2", sAppI, 2, one(sdisp("int1", CB, "i1", "y")), one(tk))
	mk("one/proj1/tick2", sAppV, 2, one(sdisp("proj1", EC, "i1", "y")), one(tk))
	mk("one/tick1/tick2", sAppV, 2, one(sop{name: "tick1", kind: 't', at: time.Minute}), one(tk))
	return cs
}

func init() {
	registerSched(&Check{
		ID:   "C14",
		Rule: "all schedules with a bounded number of preemptions, at statement granularity, of programs of two or three goroutines that dispatch, tick, reset and cancel; the result of every operation is compared with running the operations one at a time in the order in which they took effect; every schedule is also judged by the race detector, with a smaller bound",
	}, c14Cases)
}
