package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
)

func envOf(e *envelope.Envelope) Env {
	if e == nil {
		return Env{}
	}
	r := Env{
		ID: e.MessageID, Cause: e.CausationID, Corr: e.CorrelationID,
		Msg:     msgStr(e.Message),
		Created: tstr(e.CreatedAt),
	}
	if _, ok := e.Message.(dogma.Timeout); ok {
		r.Sched = tstr(e.ScheduledFor)
	}
	if o := e.Origin; o != nil {
		n := "?"
		if o.Handler != nil {
			n = o.Handler.Identity().Name
		}
		r.Origin = originStr(n, string(o.HandlerType), o.InstanceID)
	}
	return r
}

func originStr(h, t, inst string) string { return h + "|" + t + "|" + inst }

func enabledStr(t map[configkit.HandlerType]bool, n map[string]bool) string {
	var s []string
	for k, v := range t {
		s = append(s, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(s)
	var u []string
	for k, v := range n {
		u = append(u, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(u)
	return "types{" + strings.Join(s, " ") + "} names{" + strings.Join(u, " ") + "}"
}

// errStr renders an error as the list of its parts. The wrapped original is
// rendered in full so that both the text and the chain are compared.
func errStr(err error) string {
	if err == nil {
		return "err=nil"
	}
	if err == context.Canceled {
		return "err=CANCELED"
	}
	if err == context.DeadlineExceeded {
		return "err=DEADLINE"
	}
	var s []string
	for _, e := range flatten(err) {
		var ue *UserErr
		orig := ""
		if errors.As(e, &ue) {
			orig = " orig=" + ue.S
		} else if errors.Is(e, context.Canceled) {
			orig = " orig=CANCELED"
		}
		s = append(s, e.Error()+orig)
	}
	return "err=[" + strings.Join(s, " ;; ") + "]"
}

// flatten returns the top-level parts of a combined error.
func flatten(err error) []error {
	var parts []error
	switch x := err.(type) {
	case interface{ Errors() []error }:
		parts = x.Errors()
	case interface{ Unwrap() []error }:
		parts = x.Unwrap()
	default:
		return []error{err}
	}
	var r []error
	for _, p := range parts {
		r = append(r, flatten(p)...)
	}
	return r
}

func hname(h configkit.RichHandler) string {
	if h == nil || reflect.ValueOf(h).IsNil() {
		return "nil"
	}
	return h.Identity().Name
}

func logStr(f string, v []any) string { return fmt.Sprintf("log=%q args=%v", f, v) }

// factEv converts a fact.
func factEv(f fact.Fact) Ev {
	switch f := f.(type) {
	case fact.DispatchCycleBegun:
		return Ev{K: "f.DispatchCycleBegun", E: envOf(f.Envelope), X: "now=" + tstr(f.EngineTime) + " " + enabledStr(f.EnabledHandlerTypes, f.EnabledHandlers)}
	case fact.DispatchCycleCompleted:
		return Ev{K: "f.DispatchCycleCompleted", E: envOf(f.Envelope), X: errStr(f.Error) + " " + enabledStr(f.EnabledHandlerTypes, f.EnabledHandlers)}
	case fact.DispatchBegun:
		return Ev{K: "f.DispatchBegun", E: envOf(f.Envelope)}
	case fact.DispatchCompleted:
		return Ev{K: "f.DispatchCompleted", E: envOf(f.Envelope), X: errStr(f.Error)}
	case fact.HandlingBegun:
		return Ev{K: "f.HandlingBegun", H: hname(f.Handler), E: envOf(f.Envelope)}
	case fact.HandlingCompleted:
		return Ev{K: "f.HandlingCompleted", H: hname(f.Handler), E: envOf(f.Envelope), X: errStr(f.Error)}
	case fact.HandlingSkipped:
		return Ev{K: "f.HandlingSkipped", H: hname(f.Handler), E: envOf(f.Envelope), X: "reason=" + string(rune(f.Reason))}
	case fact.TickCycleBegun:
		return Ev{K: "f.TickCycleBegun", X: "now=" + tstr(f.EngineTime) + " " + enabledStr(f.EnabledHandlerTypes, f.EnabledHandlers)}
	case fact.TickCycleCompleted:
		return Ev{K: "f.TickCycleCompleted", X: errStr(f.Error) + " " + enabledStr(f.EnabledHandlerTypes, f.EnabledHandlers)}
	case fact.TickBegun:
		return Ev{K: "f.TickBegun", H: hname(f.Handler)}
	case fact.TickCompleted:
		return Ev{K: "f.TickCompleted", H: hname(f.Handler), X: errStr(f.Error)}
	case fact.TickSkipped:
		return Ev{K: "f.TickSkipped", H: hname(f.Handler), X: "reason=" + string(rune(f.Reason))}
	case fact.AggregateInstanceLoaded:
		return Ev{K: "f.AggregateInstanceLoaded", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.AggregateInstanceNotFound:
		return Ev{K: "f.AggregateInstanceNotFound", H: hname(f.Handler), I: f.InstanceID, E: envOf(f.Envelope)}
	case fact.AggregateInstanceCreated:
		return Ev{K: "f.AggregateInstanceCreated", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.AggregateInstanceDestroyed:
		return Ev{K: "f.AggregateInstanceDestroyed", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.AggregateInstanceDestructionReverted:
		return Ev{K: "f.AggregateInstanceDestructionReverted", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.EventRecordedByAggregate:
		return Ev{K: "f.EventRecordedByAggregate", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope), C: envOf(f.EventEnvelope)}
	case fact.MessageLoggedByAggregate:
		return Ev{K: "f.MessageLoggedByAggregate", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope), X: logStr(f.LogFormat, f.LogArguments)}
	case fact.ProcessInstanceLoaded:
		return Ev{K: "f.ProcessInstanceLoaded", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.ProcessEventIgnored:
		return Ev{K: "f.ProcessEventIgnored", H: hname(f.Handler), E: envOf(f.Envelope)}
	case fact.ProcessTimeoutIgnored:
		return Ev{K: "f.ProcessTimeoutIgnored", H: hname(f.Handler), I: f.InstanceID, E: envOf(f.Envelope)}
	case fact.ProcessInstanceNotFound:
		return Ev{K: "f.ProcessInstanceNotFound", H: hname(f.Handler), I: f.InstanceID, E: envOf(f.Envelope)}
	case fact.ProcessInstanceBegun:
		return Ev{K: "f.ProcessInstanceBegun", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.ProcessInstanceEnded:
		return Ev{K: "f.ProcessInstanceEnded", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.ProcessInstanceEndingReverted:
		return Ev{K: "f.ProcessInstanceEndingReverted", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope)}
	case fact.CommandExecutedByProcess:
		return Ev{K: "f.CommandExecutedByProcess", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope), C: envOf(f.CommandEnvelope)}
	case fact.TimeoutScheduledByProcess:
		return Ev{K: "f.TimeoutScheduledByProcess", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope), C: envOf(f.TimeoutEnvelope)}
	case fact.MessageLoggedByProcess:
		return Ev{K: "f.MessageLoggedByProcess", H: hname(f.Handler), I: f.InstanceID, R: rootStr(f.Root), E: envOf(f.Envelope), X: logStr(f.LogFormat, f.LogArguments)}
	case fact.EventRecordedByIntegration:
		return Ev{K: "f.EventRecordedByIntegration", H: hname(f.Handler), E: envOf(f.Envelope), C: envOf(f.EventEnvelope)}
	case fact.MessageLoggedByIntegration:
		return Ev{K: "f.MessageLoggedByIntegration", H: hname(f.Handler), E: envOf(f.Envelope), X: logStr(f.LogFormat, f.LogArguments)}
	case fact.ProjectionCompactionBegun:
		return Ev{K: "f.ProjectionCompactionBegun", H: hname(f.Handler)}
	case fact.ProjectionCompactionCompleted:
		return Ev{K: "f.ProjectionCompactionCompleted", H: hname(f.Handler), X: errStr(f.Error)}
	case fact.MessageLoggedByProjection:
		return Ev{K: "f.MessageLoggedByProjection", H: hname(f.Handler), E: envOf(f.Envelope), X: logStr(f.LogFormat, f.LogArguments)}
	default:
		return Ev{K: fmt.Sprintf("f.?%T", f)}
	}
}

// panicStr canonicalises a panic value.
func panicStr(v any) string {
	switch x := v.(type) {
	case UserPanic:
		return "user " + x.S
	}
	if v == dogma.UnexpectedMessage {
		return "raw UnexpectedMessage"
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Struct {
		get := func(n string) any {
			f := rv.FieldByName(n)
			if !f.IsValid() || !f.CanInterface() {
				return nil
			}
			return f.Interface()
		}
		h, _ := get("Handler").(configkit.RichHandler)
		m, _ := get("Message").(dogma.Message)
		desc, isUB := get("Description").(string)
		if h != nil && m != nil {
			s := fmt.Sprintf("contract h=%s type=%s %v.%v msg=%s", hname(h), h.HandlerType(), get("Interface"), get("Method"), msgStr(m))
			if isUB && desc != "" {
				s += " behavior"
			} else {
				s += " unexpected-message"
			}
			return s
		}
	}
	return "other"
}

// panicText renders a panic value for reports.
func panicText(v any) string {
	return fmt.Sprintf("%T %v", v, v)
}

// Op is one operation on the engine.
type Op struct {
	Kind byte // 'd' dispatch, 't' tick, 'r' reset
	MT   MT
	Base Base
	Nil  bool
	Now  int // index into times
	// Options that enable or disable handlers, in order.
	En []EnOpt
	// Ctx: 0 normal, 'c' cancelled beforehand
	Ctx byte
}

// EnOpt is an enable option.
type EnOpt struct {
	Type HK
	Name string
	On   bool
}

func (o EnOpt) String() string {
	if o.Name != "" {
		return fmt.Sprintf("EnableHandler(%q,%v)", o.Name, o.On)
	}
	return fmt.Sprintf("Enable%ss(%v)", o.Type, o.On)
}

func (o Op) String() string {
	s := ""
	switch o.Kind {
	case 'd':
		s = "dispatch " + mStr(o.MT, o.Base)
		if o.Nil {
			s = "dispatch nil"
		}
	case 't':
		s = "tick"
	case 'r':
		return "reset"
	}
	s += fmt.Sprintf(" now=t%d", o.Now)
	for _, e := range o.En {
		s += " " + e.String()
	}
	if o.Ctx == 'c' {
		s += " ctx=cancelled"
	}
	return s
}

// Scn is a concrete scenario.
type Scn struct {
	App       *AppSpec
	CompactDH bool
	Times     []time.Time
	Ops       []Op
	Scripts   map[skey]*Script
	Observers int // number of observers (at least 1)
	Resetters int
}

func (s *Scn) String() string {
	var b strings.Builder
	for _, h := range s.App.H {
		fmt.Fprintf(&b, "handler %q %s in=%v out=%v disabled=%v\n", h.Name, h.Kind, h.In, h.Out, h.Disabled)
	}
	for i, t := range s.Times {
		fmt.Fprintf(&b, "t%d = %s\n", i, t.Format(time.RFC3339Nano))
	}
	if s.CompactDH {
		fmt.Fprintf(&b, "compaction during handling\n")
	}
	for i, o := range s.Ops {
		fmt.Fprintf(&b, "op %d: %s\n", i, o)
	}
	var ks []skey
	for k := range s.Scripts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].tag < ks[j].tag || ks[i].tag == ks[j].tag && ks[i].h < ks[j].h })
	for _, k := range ks {
		if str := s.Scripts[k].String(); str != "" {
			fmt.Fprintf(&b, "script %s on %s: %s\n", k.h, k.tag, str)
		}
	}
	return b.String()
}

func (s *Script) String() string {
	var p []string
	add := func(f string, a ...any) { p = append(p, fmt.Sprintf(f, a...)) }
	if s.Route != 0 {
		add("route=%c%s", s.Route, s.RouteTo)
	}
	if s.NilRoot {
		add("nilroot")
	}
	if s.Apply != 0 {
		add("apply=%c", s.Apply)
	}
	if s.Replay != 0 {
		add("replay=%c", s.Replay)
	}
	for _, a := range s.Acts {
		switch a.Op {
		case oRecord:
			x := "produce " + a.MT.String() + "@" + a.Inst
			if a.Bad != "" {
				x += "!" + a.Bad
			}
			if a.MT.kind() == kTmo {
				x += fmt.Sprintf(" for t%d", a.At)
			}
			add("%s", x)
		case oEnd:
			add("end/destroy")
		case oLog:
			add("log")
		case oCancel:
			add("cancel ctx")
		}
	}
	if s.Fin != 0 {
		add("finish=%c", s.Fin)
	}
	if s.Ver != 0 {
		add("version=%c", s.Ver)
	}
	if s.NotOK {
		add("not-applied")
	}
	if s.Close != 0 {
		add("close=%c", s.Close)
	}
	if s.CompLogs != 0 {
		add("compact-logs=%d", s.CompLogs)
	}
	if s.CompFin != 0 {
		add("compact-finish=%c", s.CompFin)
	}
	if s.CompCxl {
		add("compact-cancels")
	}
	return strings.Join(p, "; ")
}

// EngRun is an engine under test together with its environment.
type EngRun struct {
	scn    *Scn
	a      *AppInst
	run    *Run
	e      *engine.Engine
	extra  [][]fact.Fact // facts seen by additional observers
	main   []fact.Fact
	envs   []*envelope.Envelope // every envelope seen, to detect later changes
	envStr []string
	resets []string
}

func newEngRun(w *Worker, scn *Scn) *EngRun {
	r := &EngRun{scn: scn, a: w.app(scn.App)}
	r.run = &Run{scripts: scn.Scripts, times: scn.Times, parallel: scn.CompactDH}
	r.a.run = r.run
	var opts []engine.Option
	if scn.CompactDH {
		opts = append(opts, engine.EnableProjectionCompactionDuringHandling(true))
	}
	for i := 0; i < scn.Resetters; i++ {
		opts = append(opts, engine.WithResetter(func() {
			r.run.ev(Ev{K: "resetter", X: fmt.Sprint(i)})
		}))
	}
	r.e = engine.MustNew(r.a.cfg, opts...)
	return r
}

func (r *EngRun) noteEnv(e *envelope.Envelope) {
	if e != nil {
		r.envs = append(r.envs, e)
		r.envStr = append(r.envStr, envOf(e).String())
	}
}

// immutable reports envelopes that changed after they were published.
func (r *EngRun) immutable() string {
	for i, e := range r.envs {
		if s := envOf(e).String(); s != r.envStr[i] {
			return fmt.Sprintf("envelope changed after it was published: %s became %s", r.envStr[i], s)
		}
	}
	return ""
}

func (r *EngRun) options(op Op) []engine.OperationOption {
	opts := []engine.OperationOption{
		engine.WithCurrentTime(r.scn.Times[op.Now]),
		engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
			r.run.m.Lock()
			switch f := f.(type) {
			case fact.HandlingBegun:
				r.run.handling = true
			case fact.HandlingCompleted:
				r.run.handling = false
			case fact.EventRecordedByAggregate:
				r.noteEnv(f.EventEnvelope)
			case fact.CommandExecutedByProcess:
				r.noteEnv(f.CommandEnvelope)
			case fact.TimeoutScheduledByProcess:
				r.noteEnv(f.TimeoutEnvelope)
			case fact.EventRecordedByIntegration:
				r.noteEnv(f.EventEnvelope)
			case fact.DispatchCycleBegun:
				r.noteEnv(f.Envelope)
			}
			r.main = append(r.main, f)
			r.run.m.Unlock()
			r.run.ev(factEv(f))
		})),
	}
	r.main = nil
	r.extra = nil
	for i := 1; i < r.scn.Observers; i++ {
		r.extra = append(r.extra, nil)
		opts = append(opts, engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
			r.extra[i-1] = append(r.extra[i-1], f)
		})))
	}
	for _, o := range op.En {
		switch {
		case o.Name != "":
			opts = append(opts, engine.EnableHandler(o.Name, o.On))
		case o.Type == Agg:
			opts = append(opts, engine.EnableAggregates(o.On))
		case o.Type == Proc:
			opts = append(opts, engine.EnableProcesses(o.On))
		case o.Type == Int:
			opts = append(opts, engine.EnableIntegrations(o.On))
		case o.Type == Proj:
			opts = append(opts, engine.EnableProjections(o.On))
		}
	}
	return opts
}

// do performs one operation and records its result in the trace.
func (r *EngRun) do(i int, op Op) {
	run := r.run
	run.ev(Ev{K: "op", X: fmt.Sprint(i)})
	run.handling = false
	run.tickKey = fmt.Sprint(i)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, fmt.Sprint(i)))
	defer cancel()
	run.cancel = cancel
	if op.Ctx == 'c' {
		cancel()
	}
	func() {
		defer func() {
			if v := recover(); v != nil {
				run.panics = append(run.panics, v)
				run.locErrs = append(run.locErrs, locProblem(run, v))
				run.ev(Ev{K: "panic", X: panicStr(v)})
			}
		}()
		switch op.Kind {
		case 'd':
			var m dogma.Message
			if !op.Nil {
				m = op.MT.make(op.Base)
			}
			err := r.e.Dispatch(ctx, m, r.options(op)...)
			run.ev(Ev{K: "return", X: errStr(err)})
		case 't':
			err := r.e.Tick(ctx, r.options(op)...)
			run.ev(Ev{K: "return", X: errStr(err)})
		case 'r':
			r.main, r.extra = nil, nil
			r.e.Reset()
			run.ev(Ev{K: "return", X: "reset"})
		}
	}()
	run.trace = append(run.trace, run.compact...)
	run.compact = nil
	for n, x := range r.extra {
		if !sameFacts(r.main, x) {
			run.ev(Ev{K: "observer", X: fmt.Sprintf("observer %d saw a different sequence of facts", n+1)})
		}
	}
}

func sameFacts(a, b []fact.Fact) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if factEv(a[i]) != factEv(b[i]) {
			return false
		}
	}
	return true
}
