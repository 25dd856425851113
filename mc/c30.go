package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
)

// appCtx is an application in which every kind of handler method that is given
// a context is called as a consequence of CA, and of EE.
var appCtx = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EA, EE}, Out: []MT{CB, TA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EC}},
	HSpec{Name: "v", Kind: Proj, In: []MT{EA, EC}},
)

type srcKey struct{}

// src is a context given to the code under test.
type src struct {
	name   string
	ctx    context.Context
	cancel func()
}

func newSrc(name string) *src {
	ctx, c1 := context.WithDeadline(context.Background(), deadlineOf(name))
	ctx, c2 := context.WithCancel(context.WithValue(ctx, srcKey{}, name))
	return &src{name, ctx, func() { c2(); c1() }}
}

// deadlineOf returns a deadline that identifies a context.
func deadlineOf(name string) time.Time {
	return time.Date(2200, 1, 1, 0, 0, int(name[len(name)-1]), 0, time.UTC)
}

// ctxTargets are the methods during which a context is cancelled.
var ctxTargets = []string{"none", "p.route", "p.event", "p.timeout", "i.command", "v.version", "v.event", "v.close", "v.compact"}

// ctxRun is an execution in which contexts are given to the code under test.
type ctxRun struct {
	m      sync.Mutex
	bad    string
	calls  int
	want   string // context that is to be given to handlers
	at     string // method that cancels
	cancel func()
	done   bool // the context was cancelled
}

func (r *ctxRun) onCtx(h *HSpec, method string, ctx context.Context) {
	r.m.Lock()
	defer r.m.Unlock()
	r.calls++
	at := h.Name + "." + method
	fail := func(f string, v ...any) {
		if r.bad == "" {
			r.bad = at + ": " + fmt.Sprintf(f, v...)
		}
	}
	if ctx == nil {
		fail("nil context")
		return
	}
	if v, _ := ctx.Value(srcKey{}).(string); v != r.want {
		fail("given the context %q, want %q", v, r.want)
		return
	}
	if d, ok := ctx.Deadline(); !ok || !d.Equal(deadlineOf(r.want)) {
		fail("the context has the deadline %s (%v), want %s", d, ok, deadlineOf(r.want))
	}
	if r.done && ctx.Err() == nil && r.cancel != nil {
		fail("the context is not cancelled although %s is", r.want)
	}
	if at == r.at && !r.done {
		r.done = true
		r.cancel()
		if ctx.Err() != context.Canceled {
			fail("the context does not follow the cancellation of %s", r.want)
		}
	}
}

func ctxApp(r *ctxRun) *TApp {
	return &TApp{spec: appCtx, onCtx: r.onCtx, on: func(h *HSpec, m dogma.Message, sc *TScope) error {
		b := Base{Tag: "t", Inst: "x"}
		switch mtOf(m) {
		case CA:
			sc.Produce(EA.make(b), time.Time{})
		case EA, EE:
			if h.Kind == Proj {
				break
			}
			sc.Produce(TA.make(b), epoch.Add(time.Minute))
			sc.Produce(CB.make(b), time.Time{})
		case CB:
			sc.Produce(EC.make(b), time.Time{})
		}
		return nil
	}}
}

func init() {
	cmd := func() dogma.Command { return CA.make(Base{Tag: "t", Inst: "x"}).(dogma.Command) }
	ev := func() dogma.Event { return EE.make(Base{Tag: "t", Inst: "x"}).(dogma.Event) }

	tests := func(w *Worker, c *Chooser, name string, n int) string {
		r := &ctxRun{}
		a := ctxApp(r)
		base := newSrc("testT")
		defer base.cancel()
		t := &mockT{}
		test := testkit.BeginContext(base.ctx, t, a, testkit.StartTimeAt(epoch))
		test.EnableHandlers("i", "v")
		dead := false // the context of the test is cancelled
		var steps []string
		outcome := ""
		for i := 0; i < n; i++ {
			ops := []string{"execute", "record", "advance", "call", "call-intercepted", "call-replaced", "satisfy"}
			op := ops[c.Choose(len(ops))]
			at := ctxTargets[c.Dev(len(ctxTargets))]
			steps = append(steps, op+"("+at+")")
			fail := func(f string, v ...any) string {
				return fmt.Sprintf("%v: %s\nlogs: %q\nfatal: %q", steps, fmt.Sprintf(f, v...), t.logs, t.fatals)
			}
			k, k2 := newSrc(fmt.Sprint("call", i)), newSrc(fmt.Sprint("repl", i))
			src := base
			switch op {
			case "call", "call-intercepted":
				src = k
			case "call-replaced":
				src = k2
			}
			*t = mockT{}
			r.want, r.at, r.cancel, r.done, r.calls = src.name, at, src.cancel, src == base && dead, 0
			var bad string
			var result error
			executed := false
			execute := func() {
				executed = true
				result = test.CommandExecutor().ExecuteCommand(k.ctx, cmd())
			}
			intercept := func(to context.Context) testkit.CommandExecutorInterceptor {
				return func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
					if v, _ := ctx.Value(srcKey{}).(string); v != k.name {
						bad = fmt.Sprintf("the interceptor was given the context %q, want %q", v, k.name)
					}
					if to == nil {
						to = ctx
					}
					return e.ExecuteCommand(to, m)
				}
			}
			var act testkit.Action
			switch op {
			case "execute", "satisfy":
				act = testkit.ExecuteCommand(cmd())
			case "record":
				act = testkit.RecordEvent(ev())
			case "advance":
				act = testkit.AdvanceTime(testkit.ByDuration(2 * time.Hour))
			case "call":
				act = testkit.Call(execute)
			case "call-intercepted":
				act = testkit.Call(execute, testkit.InterceptCommandExecutor(intercept(nil)))
			case "call-replaced":
				act = testkit.Call(execute, testkit.InterceptCommandExecutor(intercept(k2.ctx)))
			}
			if op == "satisfy" {
				test.Expect(act, testkit.ToSatisfy("x", func(*testkit.SatisfyT) {}))
			} else {
				test.Prepare(act)
			}
			k.cancel()
			k2.cancel()
			if r.bad != "" {
				return fail("%s", r.bad)
			}
			if bad != "" {
				return fail("%s", bad)
			}
			cancelled := r.done
			if src == base {
				dead = cancelled
				switch {
				case cancelled && (len(t.fatals) != 1 || t.fatals[0] != context.Canceled.Error()):
					return fail("the context of the test is cancelled, but the action was not failed by its error")
				case !cancelled && (len(t.fatals) != 0 || r.calls == 0 && op != "advance"):
					return fail("the action failed")
				}
			} else {
				switch {
				case len(t.fatals) != 0 || !executed || r.calls == 0:
					return fail("the call was not performed, called %v", executed)
				case cancelled && !errors.Is(result, context.Canceled):
					return fail("the executor returned %v although the context was cancelled", result)
				case !cancelled && result != nil:
					return fail("the executor returned %v", result)
				}
			}
			outcome += fmt.Sprint(op, cancelled, " ")
		}
		m2done(w, name, c, outcome, n, func() any { return steps })
		return ""
	}

	engines := func(w *Worker, c *Chooser, name string, n int) string {
		r := &ctxRun{}
		e := engine.MustNew(configkit.FromApplication(ctxApp(r)), engine.EnableProjectionCompactionDuringHandling(c.Bool()))
		var steps []string
		outcome := ""
		now := epoch
		for i := 0; i < n; i++ {
			ops := []string{"dispatch-command", "dispatch-event", "tick", "executor"}
			op := ops[c.Choose(len(ops))]
			at := ctxTargets[c.Dev(len(ctxTargets))]
			steps = append(steps, op+"("+at+")")
			k := newSrc(fmt.Sprint("op", i))
			r.want, r.at, r.cancel, r.done, r.calls = k.name, at, k.cancel, false, 0
			var err error
			switch op {
			case "dispatch-command":
				err = e.Dispatch(k.ctx, cmd(), engine.WithCurrentTime(now))
			case "dispatch-event":
				err = e.Dispatch(k.ctx, ev(), engine.WithCurrentTime(now))
			case "executor":
				x := engine.CommandExecutor{Engine: e, Options: []engine.OperationOption{engine.WithCurrentTime(now)}}
				err = x.ExecuteCommand(k.ctx, cmd())
			case "tick":
				now = now.Add(2 * time.Hour)
				err = e.Tick(k.ctx, engine.WithCurrentTime(now))
			}
			k.cancel()
			fail := func(f string, v ...any) string {
				return fmt.Sprintf("%v: %s", steps, fmt.Sprintf(f, v...))
			}
			switch {
			case r.bad != "":
				return fail("%s", r.bad)
			case r.calls == 0:
				return fail("no handler was called")
			case r.done && err != context.Canceled:
				return fail("the operation returned %v although its context was cancelled", err)
			case !r.done && err != nil:
				return fail("the operation returned %v", err)
			}
			outcome += fmt.Sprint(op, r.done, " ")
		}
		m2done(w, name, c, outcome, n, func() any { return strings.Join(steps, " ") })
		return ""
	}

	register(&Check{
		ID:   "C30",
		Rule: "all sequences of actions of a test and of operations of an engine up to a length x the handler methods during which a context is cancelled, with every context identified by a value and a deadline; every context given to a handler or interceptor is compared with the one that is due",
		Cases: func(tier string) []*Case {
			var cs []*Case
			for n := 1; n <= tierN(tier, 3, 4); n++ {
				name := fmt.Sprint("test/", n)
				cs = append(cs, &Case{Name: name, Budget: min(n, 2), Body: func(w *Worker, c *Chooser) string { return tests(w, c, name, n) }})
			}
			for n := 1; n <= tierN(tier, 3, 4); n++ {
				name := fmt.Sprint("engine/", n)
				cs = append(cs, &Case{Name: name, Budget: min(n, 2), Body: func(w *Worker, c *Chooser) string { return engines(w, c, name, n) }})
			}
			return cs
		},
	})
}
