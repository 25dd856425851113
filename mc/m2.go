package main

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// ---- applications with behaviour given by a function ----

// TApp is an application whose handlers call on.
type TApp struct {
	spec *AppSpec
	// on is called for every message a handler handles.
	on func(h *HSpec, m dogma.Message, s *TScope) error
	// onCompact is called when a projection is compacted.
	onCompact func(h *HSpec, now time.Time) error
	// onCtx is called for every method that is given a context.
	onCtx func(h *HSpec, method string, ctx context.Context)
	// pure disables the recording of what the handlers do.
	pure bool

	m        sync.Mutex
	calls    []TCall         // handler calls, in order
	produced []dogma.Message // messages accepted by a scope, in order
}

// TCall is a call of a handler.
type TCall struct {
	H    string
	Msg  string
	Time time.Time
}

// TScope is what a handler can do.
type TScope struct {
	a    *TApp
	ctx  context.Context
	inst string
	rec  func(m dogma.Message, at time.Time)
	end  func()
	log  func(string, ...any)
	time time.Time
}

// Produce records, executes or schedules m.
func (s *TScope) Produce(m dogma.Message, at time.Time) {
	s.rec(m, at)
	if s.a.pure {
		return
	}
	s.a.m.Lock()
	s.a.produced = append(s.a.produced, m)
	s.a.m.Unlock()
}

func (a *TApp) given(h *HSpec, method string, ctx context.Context) {
	if a.onCtx != nil {
		a.onCtx(h, method, ctx)
	}
}

func (a *TApp) call(h *HSpec, m dogma.Message, s *TScope) error {
	s.a = a
	if a.pure {
		return a.on(h, m, s)
	}
	a.m.Lock()
	a.calls = append(a.calls, TCall{h.Name, msgStr(m), s.time})
	n := len(a.calls)
	a.m.Unlock()
	if n > maxTrace {
		panic("runaway execution")
	}
	if a.on == nil {
		return nil
	}
	return a.on(h, m, s)
}

// Configure configures the application.
func (a *TApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", "11111111-2222-4333-8444-555555555555")
	for _, h := range a.spec.H {
		switch h.Kind {
		case Agg:
			c.RegisterAggregate(&tAgg{a, h})
		case Proc:
			c.RegisterProcess(&tProc{a, h})
		case Int:
			c.RegisterIntegration(&tInt{a, h})
		case Proj:
			c.RegisterProjection(&tProj{a, h})
		}
	}
}

type tAgg struct {
	a *TApp
	h *HSpec
}

type tRoot struct{ n int }

func (r *tRoot) ApplyEvent(dogma.Event) { r.n++ }

func (x *tAgg) Configure(c dogma.AggregateConfigurer) { (&aggImpl{nil, x.h}).Configure(c) }
func (x *tAgg) New() dogma.AggregateRoot              { return &tRoot{} }
func (x *tAgg) RouteCommandToInstance(m dogma.Command) string {
	return instOf(m)
}
func (x *tAgg) HandleCommand(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
	err := x.a.call(x.h, m, &TScope{
		ctx: context.Background(), inst: s.InstanceID(), end: s.Destroy, log: s.Log,
		rec: func(m dogma.Message, _ time.Time) { s.RecordEvent(m.(dogma.Event)) },
	})
	if err != nil {
		panic(err)
	}
}

type tProc struct {
	a *TApp
	h *HSpec
}

func (x *tProc) Configure(c dogma.ProcessConfigurer) { (&procImpl{nil, x.h}).Configure(c) }
func (x *tProc) New() dogma.ProcessRoot              { return &tRoot{} }
func (x *tProc) RouteEventToInstance(ctx context.Context, m dogma.Event) (string, bool, error) {
	x.a.given(x.h, "route", ctx)
	return instOf(m), true, nil
}
func (x *tProc) HandleEvent(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
	x.a.given(x.h, "event", ctx)
	return x.handle(ctx, s, m, s.RecordedAt())
}
func (x *tProc) HandleTimeout(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	x.a.given(x.h, "timeout", ctx)
	return x.handle(ctx, s, m, s.ScheduledFor())
}
func (x *tProc) handle(ctx context.Context, s procScope, m dogma.Message, t time.Time) error {
	return x.a.call(x.h, m, &TScope{
		ctx: ctx, inst: s.InstanceID(), end: s.End, log: s.Log, time: t,
		rec: func(m dogma.Message, at time.Time) {
			switch m := m.(type) {
			case dogma.Command:
				s.ExecuteCommand(m)
			case dogma.Timeout:
				s.ScheduleTimeout(m, at)
			}
		},
	})
}

type tInt struct {
	a *TApp
	h *HSpec
}

func (x *tInt) Configure(c dogma.IntegrationConfigurer) { (&intImpl{nil, x.h}).Configure(c) }
func (x *tInt) HandleCommand(ctx context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	x.a.given(x.h, "command", ctx)
	return x.a.call(x.h, m, &TScope{
		ctx: ctx, log: s.Log,
		rec: func(m dogma.Message, _ time.Time) { s.RecordEvent(m.(dogma.Event)) },
	})
}

type tProj struct {
	a *TApp
	h *HSpec
}

func (x *tProj) Configure(c dogma.ProjectionConfigurer) { (&projImpl{nil, x.h}).Configure(c) }
func (x *tProj) ResourceVersion(ctx context.Context, _ []byte) ([]byte, error) {
	x.a.given(x.h, "version", ctx)
	return nil, nil
}
func (x *tProj) CloseResource(ctx context.Context, _ []byte) error {
	x.a.given(x.h, "close", ctx)
	return nil
}
func (x *tProj) HandleEvent(ctx context.Context, _, _, _ []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	x.a.given(x.h, "event", ctx)
	return true, x.a.call(x.h, m, &TScope{ctx: ctx, log: s.Log, time: s.RecordedAt()})
}
func (x *tProj) Compact(ctx context.Context, s dogma.ProjectionCompactScope) error {
	x.a.given(x.h, "compact", ctx)
	if x.a.onCompact != nil {
		x.a.m.Lock()
		defer x.a.m.Unlock()
		return x.a.onCompact(x.h, s.Now())
	}
	return nil
}

func instOf(m dogma.Message) string {
	if b, ok := m.(hasBase); ok {
		if i := b.Content().Inst; i != "" {
			return i
		}
	}
	return "inst"
}

// ---- a mock of the testing interface ----

type tStop struct{}

// MT is what the code under test reports to the testing interface.
type mockT struct {
	stop    byte // how Fatal and FailNow stop the test: 0 not at all, 'p' panic, 'g' like testing.T
	m       sync.Mutex
	logs    []string
	fatals  []string
	failNow int
	helpers int
	order   []string // kinds of calls
}

func (t *mockT) add(k, s string) {
	t.m.Lock()
	t.order = append(t.order, k)
	switch k {
	case "log":
		t.logs = append(t.logs, s)
	case "fatal":
		t.fatals = append(t.fatals, s)
	case "failnow":
		t.failNow++
	}
	t.m.Unlock()
}

func (t *mockT) abort() {
	switch t.stop {
	case 'p':
		panic(tStop{})
	case 'g':
		runtime.Goexit()
	}
}

func (t *mockT) Failed() bool               { return len(t.fatals)+t.failNow > 0 }
func (t *mockT) Log(args ...any)            { t.add("log", strings.TrimSuffix(fmt.Sprintln(args...), "\n")) }
func (t *mockT) Logf(f string, args ...any) { t.add("log", fmt.Sprintf(f, args...)) }
func (t *mockT) Fatal(args ...any) {
	t.add("fatal", strings.TrimSuffix(fmt.Sprintln(args...), "\n"))
	t.abort()
}
func (t *mockT) FailNow() { t.add("failnow", ""); t.abort() }
func (t *mockT) Helper()  {}

// reports returns the test reports that were logged.
func (t *mockT) reports() []string {
	var r []string
	for _, l := range t.logs {
		if strings.HasPrefix(l, "--- TEST REPORT ---\n\n") {
			r = append(r, strings.TrimPrefix(l, "--- TEST REPORT ---\n\n"))
		}
	}
	return r
}

// ---- sessions ----

// Sess is a test under test.
type Sess struct {
	a     *TApp
	t     *mockT
	test  *testkit.Test
	facts []fact.Fact
}

func newSess(spec *AppSpec, stop byte, opts ...testkit.TestOption) *Sess {
	s := &Sess{a: &TApp{spec: spec}, t: &mockT{stop: stop}}
	all := []testkit.TestOption{testkit.StartTimeAt(epoch), s.observe()}
	s.test = testkit.Begin(s.t, s.a, append(all, opts...)...)
	return s
}

// observe collects the facts of all actions.
func (s *Sess) observe() testkit.TestOption {
	return testkit.WithUnsafeOperationOptions(engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) { s.facts = append(s.facts, f) })))
}

// do runs fn like a test function and returns the value of a panic, if any.
func (s *Sess) do(fn func()) (pv any) {
	run := func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(tStop); !ok {
					pv = v
				}
			}
		}()
		fn()
	}
	if s.t.stop == 'g' {
		done := make(chan struct{})
		go func() {
			defer close(done)
			run()
		}()
		<-done
	} else {
		run()
	}
	return pv
}

// clear forgets what happened so far.
func (s *Sess) clear() {
	s.a.calls, s.a.produced, s.facts = nil, nil, nil
	*s.t = mockT{stop: s.t.stop}
}

// verdict describes what the test reported: "pass", "fail" (with one report),
// "fatal" or a description of something inconsistent.
func (s *Sess) verdict() string {
	t := s.t
	r := t.reports()
	switch {
	case len(t.fatals) == 0 && t.failNow == 0 && len(r) == 1:
		return "pass"
	case len(t.fatals) == 0 && t.failNow == 1 && len(r) == 1:
		return "fail"
	case len(t.fatals) == 1 && t.failNow == 0 && len(r) == 0:
		return "fatal"
	}
	return fmt.Sprintf("inconsistent(fatal=%d failnow=%d reports=%d)", len(t.fatals), t.failNow, len(r))
}

var _ = configkit.FromApplication

// m2done registers the counters of an execution.
func m2done(w *Worker, name string, c *Chooser, outcome string, transitions int, desc func() any) {
	st := w.st
	st.State(hashInts(hashStr(name), hashStr(outcome)))
	st.Outcome(hashStr(name + outcome))
	st.transitions.Add(int64(transitions))
	st.nontrivial.Add(1)
	st.Sample(func() any {
		return map[string]any{"case": name, "path": append([]int(nil), c.path...), "scenario": desc(), "outcome": outcome}
	})
}

func msgs(ms []dogma.Message) string {
	var r []string
	for _, m := range ms {
		r = append(r, msgStr(m))
	}
	return strings.Join(r, " ")
}

type contextT = context.Context

var ctxBg = context.Background()

func reflectTypeOf(m dogma.Message) reflect.Type { return reflect.TypeOf(m) }

// envelopeOf returns the message of a cycle.
func envelopeOf(f fact.Fact) dogma.Message { return f.(fact.DispatchCycleBegun).Envelope.Message }

// producedOf returns the message produced according to f.
func producedOf(f fact.Fact) dogma.Message {
	switch f := f.(type) {
	case fact.EventRecordedByAggregate:
		return f.EventEnvelope.Message
	case fact.EventRecordedByIntegration:
		return f.EventEnvelope.Message
	case fact.CommandExecutedByProcess:
		return f.CommandEnvelope.Message
	case fact.TimeoutScheduledByProcess:
		return f.TimeoutEnvelope.Message
	}
	return nil
}
