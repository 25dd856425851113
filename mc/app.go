package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
)

// HK is a handler kind.
type HK byte

// Handler kinds.
const (
	Agg  HK = 'A'
	Proc HK = 'P'
	Int  HK = 'I'
	Proj HK = 'V'
)

func (k HK) htype() configkit.HandlerType {
	switch k {
	case Agg:
		return configkit.AggregateHandlerType
	case Proc:
		return configkit.ProcessHandlerType
	case Int:
		return configkit.IntegrationHandlerType
	default:
		return configkit.ProjectionHandlerType
	}
}

func (k HK) String() string { return string(k.htype()) }

// HSpec describes a handler.
type HSpec struct {
	Name     string
	Kind     HK
	In       []MT // consumed, except timeouts
	Out      []MT // produced, including timeouts
	Disabled bool

	idx int
	key string
}

func (h *HSpec) produces(t MT) bool {
	for _, x := range h.Out {
		if x == t {
			return true
		}
	}
	return false
}

func (h *HSpec) consumes(t MT) bool {
	if t.kind() == kTmo {
		return h.produces(t)
	}
	for _, x := range h.In {
		if x == t {
			return true
		}
	}
	return false
}

// AppSpec describes an application.
type AppSpec struct {
	H []*HSpec
}

func app(hs ...HSpec) *AppSpec {
	a := &AppSpec{}
	for i := range hs {
		h := hs[i]
		h.idx = i
		h.key = fmt.Sprintf("b5d9ee59-f2ce-44a4-b6d1-%012d", i+1)
		a.H = append(a.H, &h)
	}
	return a
}

func (a *AppSpec) byName(n string) *HSpec {
	for _, h := range a.H {
		if h.Name == n {
			return h
		}
	}
	return nil
}

func (a *AppSpec) consumers(t MT) []*HSpec {
	var r []*HSpec
	for _, h := range a.H {
		if t.kind() != kTmo && h.consumes(t) {
			r = append(r, h)
		}
	}
	return r
}

// Op codes of handler actions.
const (
	oRecord byte = 'r' // record event / execute command / schedule timeout, by kind of message
	oEnd    byte = 'e' // destroy aggregate / end process
	oLog    byte = 'l'
	oCancel byte = 'x' // cancel the context of the operation
)

// Act is one action of a handler.
type Act struct {
	Op   byte
	MT   MT
	Inst string
	Bad  string
	At   int // timeouts: index into the scenario's time table
}

// How a handler call finishes.
const (
	fOK         byte = 0
	fErr        byte = 'E'
	fPanic      byte = 'P'
	fUnexpected byte = 'U'
	fCtxErr     byte = 'C' // returns the (cancelled) context's error
)

// Script determines what a handler does with a message.
type Script struct {
	// Route overrides: 0 default, 'n' not routed, 'e' error, 'p' panic,
	// 'u' unexpected message, '0' empty ID, 'i' to instance RouteTo.
	Route   byte
	RouteTo string
	NilRoot bool
	// ApplyPanic: aggregate root panics when applying the (n-1)th event
	// recorded by this call: 'p' user panic, 'u' unexpected.
	Apply byte
	// Replay: the same, when a historical event is applied.
	Replay byte
	Acts   []Act
	Fin    byte

	// projections
	Ver      byte // 0 empty version, 'v' non-empty, 'e' error, 'p' panic
	NotOK    bool // HandleEvent reports the event was not applied
	Close    byte // 0 ok, 'e' error, 'p' panic
	HasCompt bool // Compact fields set
	CompLogs int
	CompFin  byte // 0, 'E', 'P'
	CompCxl  bool // compaction cancels the context
}

var defaultScript = &Script{}

type skey struct{ h, tag string }

// Ev is one observable event of an execution.
type Ev struct {
	K string // kind
	H string // handler
	E Env    // message concerned
	C Env    // produced message
	I string // instance
	R string // root
	X string // everything else
}

// Env is a copy of an envelope.
type Env struct {
	ID, Cause, Corr string
	Msg             string
	Created, Sched  string
	Origin          string
}

func (e Env) String() string {
	if e.ID == "" {
		return "-"
	}
	return fmt.Sprintf("[%s/%s/%s %s c=%s s=%s o=%s]", e.ID, e.Cause, e.Corr, e.Msg, e.Created, e.Sched, e.Origin)
}

func (e Ev) String() string {
	var b strings.Builder
	b.WriteString(e.K)
	if e.H != "" {
		b.WriteString(" h=" + e.H)
	}
	if e.E.ID != "" {
		b.WriteString(" e=" + e.E.String())
	}
	if e.C.ID != "" {
		b.WriteString(" child=" + e.C.String())
	}
	if e.I != "" {
		b.WriteString(" inst=" + e.I)
	}
	if e.R != "" {
		b.WriteString(" root=" + e.R)
	}
	if e.X != "" {
		b.WriteString(" " + e.X)
	}
	return b.String()
}

func tstr(t time.Time) string {
	if t.IsZero() {
		return "0"
	}
	return fmt.Sprintf("%d.%09d", t.Unix(), t.Nanosecond())
}

// Run is the environment of one execution of the real code.
type Run struct {
	m        sync.Mutex
	scripts  map[skey]*Script
	times    []time.Time
	trace    []Ev
	cancel   context.CancelFunc
	tickKey  string // key of compaction scripts during a tick
	markFile string
	markLine int
	panics   []any
	locErrs  []string
	cur      *Script
	handling bool
	compact  []Ev // events of parallel compaction
	// parallel is true if compaction runs in parallel with handling.
	parallel           bool
	handled, compacted int
}

// panicking waits for the compaction that runs in parallel with a handler that
// is about to panic, as nothing else does.
func (r *Run) panicking() {
	for t := time.Now(); r.parallel && time.Since(t) < longWait; time.Sleep(50 * time.Microsecond) {
		r.m.Lock()
		done := r.compacted >= r.handled
		r.m.Unlock()
		if done {
			break
		}
	}
}

func (r *Run) ev(e Ev) {
	r.m.Lock()
	n := len(r.trace)
	r.trace = append(r.trace, e)
	r.m.Unlock()
	if n > maxTrace {
		panic("runaway execution")
	}
}

// maxTrace bounds the length of an execution. The specified executions are
// orders of magnitude shorter.
const maxTrace = 500000

func (r *Run) script(h, tag string) *Script {
	if s := r.scripts[skey{h, tag}]; s != nil {
		return s
	}
	return defaultScript
}

// mark notes where the application is about to do something that may be
// diagnosed.
func mark[T any](r *Run, v T) T {
	_, r.markFile, r.markLine, _ = runtime.Caller(1)
	return v
}

type ctxKey struct{}

func ctxX(ctx context.Context) string {
	if v, ok := ctx.Value(ctxKey{}).(string); ok {
		return "ctx=" + v
	}
	return "ctx=?"
}

// UserErr is the error type of scripted handlers.
type UserErr struct{ S string }

func (e *UserErr) Error() string { return e.S }

// UserPanic is the panic value of scripted handlers.
type UserPanic struct{ S string }

// childTag names the n-th message produced by h while handling tag.
func childTag(tag string, h *HSpec, n int) string {
	return fmt.Sprintf("%s.%d%c", tag, h.idx, 'a'+n)
}

// AppInst is an instantiated application. It can be used by one goroutine.
type AppInst struct {
	spec *AppSpec
	run  *Run
	cfg  configkit.RichApplication
	hs   []configkit.RichHandler // in order of spec
}

type appImpl struct{ a *AppInst }

func (x *appImpl) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", "11111111-2222-4333-8444-555555555555")
	for _, h := range x.a.spec.H {
		switch h.Kind {
		case Agg:
			c.RegisterAggregate(&aggImpl{x.a, h})
		case Proc:
			c.RegisterProcess(&procImpl{x.a, h})
		case Int:
			c.RegisterIntegration(&intImpl{x.a, h})
		case Proj:
			c.RegisterProjection(&projImpl{x.a, h})
		}
	}
}

// newApp instantiates an application.
func newApp(s *AppSpec) *AppInst {
	a := &AppInst{spec: s, run: &Run{}}
	cfg := configkit.FromApplication(&appImpl{a})
	a.cfg = &orderedApp{cfg, a}
	for _, h := range s.H {
		x, ok := cfg.RichHandlers().ByName(h.Name)
		if !ok {
			panic("handler not found: " + h.Name)
		}
		a.hs = append(a.hs, x)
	}
	return a
}

func (w *Worker) app(s *AppSpec) *AppInst {
	a := w.apps[s]
	if a == nil {
		a = newApp(s)
		w.apps[s] = a
	}
	return a
}

// orderedApp makes the order of registration deterministic.
type orderedApp struct {
	configkit.RichApplication
	a *AppInst
}

func (o *orderedApp) AcceptRichVisitor(ctx context.Context, v configkit.RichVisitor) error {
	for _, h := range o.a.hs {
		if err := h.AcceptRichVisitor(ctx, v); err != nil {
			return err
		}
	}
	return nil
}

// ---- aggregate ----

type aggImpl struct {
	a *AppInst
	h *HSpec
}

type aggRoot struct {
	a   *AppInst
	Log []string
	// Used is set by the command handler itself. It is not part of the state
	// of the instance, as no event sets it.
	Used bool
}

func (r *aggRoot) ApplyEvent(m dogma.Event) {
	run := r.a.run
	if s := run.cur; s != nil && s.Apply != 0 {
		switch s.Apply {
		case 'p':
			panic(UserPanic{"apply " + tagOf(m)})
		case 'u':
			panic(mark(run, dogma.UnexpectedMessage))
		}
	}
	r.Log = append(r.Log, tagOf(m))
}

func rootStr(r any) string {
	switch x := r.(type) {
	case nil:
		return "nil"
	case *aggRoot:
		if x == nil {
			return "nil*"
		}
		return "<" + strings.Join(x.Log, ",") + ">"
	case *procRoot:
		if x == nil {
			return "nil*"
		}
		return "<" + strings.Join(x.Log, ",") + ">"
	default:
		return fmt.Sprintf("?%T", r)
	}
}

func (h *aggImpl) Configure(c dogma.AggregateConfigurer) {
	c.Identity(h.h.Name, h.h.key)
	var r []dogma.AggregateRoute
	for _, t := range h.h.In {
		r = append(r, dogma.HandlesCommandRoute{Type: mts[t].rt})
	}
	for _, t := range h.h.Out {
		r = append(r, dogma.RecordsEventRoute{Type: mts[t].rt})
	}
	c.Routes(r...)
	if h.h.Disabled {
		c.Disable()
	}
}

func (h *aggImpl) New() dogma.AggregateRoot {
	if s := h.a.run.cur; s != nil && s.NilRoot {
		return nil
	}
	return &aggRoot{a: h.a}
}

func (h *aggImpl) RouteCommandToInstance(m dogma.Command) string {
	b := m.(hasBase).Content()
	s := h.a.run.script(h.h.Name, b.Tag)
	h.a.run.ev(Ev{K: "agg.Route", H: h.h.Name, X: msgStr(m)})
	h.a.run.cur = &Script{NilRoot: s.NilRoot, Apply: s.Replay}
	switch s.Route {
	case 'p':
		panic(UserPanic{"route " + b.Tag})
	case 'u':
		panic(mark(h.a.run, dogma.UnexpectedMessage))
	case '0':
		return ""
	case 'i':
		return s.RouteTo
	}
	return b.Inst
}

func (h *aggImpl) HandleCommand(r dogma.AggregateRoot, sc dogma.AggregateCommandScope, m dogma.Command) {
	b := m.(hasBase).Content()
	run := h.a.run
	s := run.script(h.h.Name, b.Tag)
	state := rootStr(r)
	if x, ok := r.(*aggRoot); ok && x != nil {
		if x.Used {
			state += " used before"
		}
		x.Used = true
	}
	run.ev(Ev{K: "agg.Handle", H: h.h.Name, I: sc.InstanceID(), R: state, X: msgStr(m)})
	run.cur = &Script{Apply: s.Apply}
	defer func() { run.cur = nil }()
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oRecord:
			cb := Base{Tag: childTag(b.Tag, h.h, n), Inst: a.Inst, Bad: a.Bad}
			n++
			sc.RecordEvent(mark(run, a.MT.make(cb).(dogma.Event)))
			run.ev(Ev{K: "agg.See", H: h.h.Name, I: sc.InstanceID(), R: rootStr(r), X: cb.Tag})
		case oEnd:
			sc.Destroy()
		case oLog:
			sc.Log("log %s %d", b.Tag, n)
		case oCancel:
			run.cancel()
		}
	}
	run.ev(Ev{K: "agg.Done", H: h.h.Name, I: sc.InstanceID(), X: b.Tag})
	switch s.Fin {
	case fPanic, fErr, fCtxErr:
		panic(UserPanic{"handle " + b.Tag})
	case fUnexpected:
		panic(mark(run, dogma.UnexpectedMessage))
	}
}

// ---- process ----

type procImpl struct {
	a *AppInst
	h *HSpec
}

type procRoot struct{ Log []string }

func (h *procImpl) Configure(c dogma.ProcessConfigurer) {
	c.Identity(h.h.Name, h.h.key)
	var r []dogma.ProcessRoute
	for _, t := range h.h.In {
		r = append(r, dogma.HandlesEventRoute{Type: mts[t].rt})
	}
	for _, t := range h.h.Out {
		if t.kind() == kTmo {
			r = append(r, dogma.SchedulesTimeoutRoute{Type: mts[t].rt})
		} else {
			r = append(r, dogma.ExecutesCommandRoute{Type: mts[t].rt})
		}
	}
	c.Routes(r...)
	if h.h.Disabled {
		c.Disable()
	}
}

func (h *procImpl) New() dogma.ProcessRoot {
	if s := h.a.run.cur; s != nil && s.NilRoot {
		return nil
	}
	return &procRoot{}
}

func (h *procImpl) RouteEventToInstance(ctx context.Context, m dogma.Event) (string, bool, error) {
	b := m.(hasBase).Content()
	s := h.a.run.script(h.h.Name, b.Tag)
	h.a.run.ev(Ev{K: "proc.Route", H: h.h.Name, X: msgStr(m) + " " + ctxX(ctx)})
	h.a.run.cur = s
	switch s.Route {
	case 'n':
		return "", false, nil
	case 'N':
		return b.Inst, false, nil
	case 'e':
		return "", false, &UserErr{"route " + b.Tag}
	case 'E':
		return b.Inst, true, &UserErr{"route " + b.Tag}
	case 'p':
		panic(UserPanic{"route " + b.Tag})
	case 'u':
		panic(mark(h.a.run, dogma.UnexpectedMessage))
	case '0':
		return "", true, nil
	case 'i':
		return s.RouteTo, true, nil
	}
	return b.Inst, true, nil
}

type procScope interface {
	InstanceID() string
	End()
	ExecuteCommand(dogma.Command)
	ScheduleTimeout(dogma.Timeout, time.Time)
	Log(format string, args ...any)
}

func (h *procImpl) HandleEvent(ctx context.Context, r dogma.ProcessRoot, sc dogma.ProcessEventScope, m dogma.Event) error {
	return h.handle(ctx, r, sc, m, "proc.Event", sc.RecordedAt())
}

func (h *procImpl) HandleTimeout(ctx context.Context, r dogma.ProcessRoot, sc dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	return h.handle(ctx, r, sc, m, "proc.Timeout", sc.ScheduledFor())
}

func (h *procImpl) handle(ctx context.Context, r dogma.ProcessRoot, sc procScope, m dogma.Message, k string, t time.Time) error {
	b := m.(hasBase).Content()
	run := h.a.run
	run.cur = nil
	s := run.script(h.h.Name, b.Tag)
	run.ev(Ev{K: k, H: h.h.Name, I: sc.InstanceID(), R: rootStr(r), X: msgStr(m) + " t=" + tstr(t) + " " + ctxX(ctx)})
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oRecord:
			cb := Base{Tag: childTag(b.Tag, h.h, n), Inst: a.Inst, Bad: a.Bad}
			n++
			switch x := a.MT.make(cb).(type) {
			case dogma.Command:
				sc.ExecuteCommand(mark(run, x))
			case dogma.Timeout:
				sc.ScheduleTimeout(mark(run, x), run.times[a.At])
			}
		case oEnd:
			sc.End()
		case oLog:
			sc.Log("log %s %d", b.Tag, n)
		case oCancel:
			run.cancel()
		}
	}
	run.ev(Ev{K: "proc.Done", H: h.h.Name, I: sc.InstanceID(), X: b.Tag})
	switch s.Fin {
	case fErr:
		return &UserErr{"handle " + b.Tag}
	case fCtxErr:
		if err := ctx.Err(); err != nil {
			return err
		}
	case fPanic:
		panic(UserPanic{"handle " + b.Tag})
	case fUnexpected:
		panic(mark(run, dogma.UnexpectedMessage))
	}
	// The root is only modified by successful calls.
	pr := r.(*procRoot)
	pr.Log = append(pr.Log, b.Tag)
	return nil
}

// ---- integration ----

type intImpl struct {
	a *AppInst
	h *HSpec
}

func (h *intImpl) Configure(c dogma.IntegrationConfigurer) {
	c.Identity(h.h.Name, h.h.key)
	var r []dogma.IntegrationRoute
	for _, t := range h.h.In {
		r = append(r, dogma.HandlesCommandRoute{Type: mts[t].rt})
	}
	for _, t := range h.h.Out {
		r = append(r, dogma.RecordsEventRoute{Type: mts[t].rt})
	}
	c.Routes(r...)
	if h.h.Disabled {
		c.Disable()
	}
}

func (h *intImpl) HandleCommand(ctx context.Context, sc dogma.IntegrationCommandScope, m dogma.Command) error {
	b := m.(hasBase).Content()
	run := h.a.run
	s := run.script(h.h.Name, b.Tag)
	run.ev(Ev{K: "int.Handle", H: h.h.Name, X: msgStr(m) + " " + ctxX(ctx)})
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oRecord:
			cb := Base{Tag: childTag(b.Tag, h.h, n), Inst: a.Inst, Bad: a.Bad}
			n++
			sc.RecordEvent(mark(run, a.MT.make(cb).(dogma.Event)))
		case oLog:
			sc.Log("log %s %d", b.Tag, n)
		case oCancel:
			run.cancel()
		}
	}
	run.ev(Ev{K: "int.Done", H: h.h.Name, X: b.Tag})
	switch s.Fin {
	case fErr:
		return &UserErr{"handle " + b.Tag}
	case fCtxErr:
		return ctx.Err()
	case fPanic:
		panic(UserPanic{"handle " + b.Tag})
	case fUnexpected:
		panic(mark(run, dogma.UnexpectedMessage))
	}
	return nil
}

// ---- projection ----

type projImpl struct {
	a *AppInst
	h *HSpec
}

func (h *projImpl) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(h.h.Name, h.h.key)
	var r []dogma.ProjectionRoute
	for _, t := range h.h.In {
		r = append(r, dogma.HandlesEventRoute{Type: mts[t].rt})
	}
	c.Routes(r...)
	if h.h.Disabled {
		c.Disable()
	}
}

// verKey is the key of the script that decides a resource version.
func verKey(res []byte) string { return "#" + string(res) }

func (h *projImpl) ResourceVersion(ctx context.Context, r []byte) ([]byte, error) {
	run := h.a.run
	s := run.script(h.h.Name, verKey(r))
	run.ev(Ev{K: "proj.Version", H: h.h.Name, X: fmt.Sprintf("res=%q %s", r, ctxX(ctx))})
	switch s.Ver {
	case 'v':
		return []byte{0}, nil
	case 'V':
		return []byte{1}, nil
	case 'n':
		return nil, nil
	case 'e':
		return nil, &UserErr{"version " + string(r)}
	case 'E':
		return []byte{1}, &UserErr{"version " + string(r)}
	case 'p':
		panic(UserPanic{"version " + string(r)})
	}
	return []byte{}, nil
}

func verStr(v []byte) string {
	if len(v) == 0 {
		return "empty"
	}
	return "set"
}

func (h *projImpl) HandleEvent(ctx context.Context, res, cur, next []byte, sc dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	b := m.(hasBase).Content()
	run := h.a.run
	s := run.script(h.h.Name, b.Tag)
	run.m.Lock()
	run.handled++
	run.m.Unlock()
	run.ev(Ev{K: "proj.Handle", H: h.h.Name, X: fmt.Sprintf("%s t=%s primary=%v res=%q cur=%s next=%s %s",
		msgStr(m), tstr(sc.RecordedAt()), sc.IsPrimaryDelivery(), res, verStr(cur), verStr(next), ctxX(ctx))})
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oLog:
			sc.Log("log %s %d", b.Tag, n)
			n++
		case oCancel:
			run.cancel()
		}
	}
	run.ev(Ev{K: "proj.Done", H: h.h.Name, X: b.Tag})
	switch s.Fin {
	case fErr:
		return !s.NotOK, &UserErr{"handle " + b.Tag}
	case fCtxErr:
		return !s.NotOK, ctx.Err()
	case fPanic:
		run.panicking()
		panic(UserPanic{"handle " + b.Tag})
	case fUnexpected:
		run.panicking()
		panic(mark(run, dogma.UnexpectedMessage))
	}
	return !s.NotOK, nil
}

func (h *projImpl) CloseResource(ctx context.Context, r []byte) error {
	run := h.a.run
	s := run.script(h.h.Name, verKey(r))
	run.ev(Ev{K: "proj.Close", H: h.h.Name, X: fmt.Sprintf("res=%q %s", r, ctxX(ctx))})
	switch s.Close {
	case 'e':
		return &UserErr{"close " + string(r)}
	case 'p':
		panic(UserPanic{"close " + string(r)})
	}
	return nil
}

// compactKey is the key of the compaction script.
const compactKey = "compact"

func (h *projImpl) Compact(ctx context.Context, sc dogma.ProjectionCompactScope) error {
	run := h.a.run
	run.m.Lock()
	key := compactKey + run.tickKey
	run.m.Unlock()
	s := run.script(h.h.Name, key)
	e := Ev{K: "proj.Compact", H: h.h.Name, X: fmt.Sprintf("now=%s %s", tstr(sc.Now()), ctxX(ctx))}
	run.m.Lock()
	if run.handling {
		run.compact = append(run.compact, e)
		defer func() {
			run.m.Lock()
			run.compacted++
			run.m.Unlock()
		}()
	} else {
		run.trace = append(run.trace, e)
	}
	run.m.Unlock()
	for i := 0; i < s.CompLogs; i++ {
		sc.Log("compact log %d", i)
	}
	if s.CompCxl {
		run.cancel()
	}
	switch s.CompFin {
	case 'E':
		return &UserErr{"compact " + key}
	case 'P':
		panic(UserPanic{"compact " + key})
	}
	return nil
}

var errStop = errors.New("stop")
