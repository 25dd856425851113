package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Model is the reference implementation of the engine's specified behaviour.
// It is deliberately naive: plain slices and maps, one function per rule.
type Model struct {
	scn *Scn
	gen func(h *HSpec, e *menv, m *Model) *Script // generates missing scripts, or nil
	obs *Observed                                 // resolves unspecified order, or nil

	trace []Ev
	par   []Ev // parallel compaction of the current operation

	nextID    int
	rejected  int // IDs that may have been used by rejected dispatches
	agg       map[string]map[string][]string
	proc      map[string]map[string][]string
	timeouts  map[string][]*menv // pending, by handler, in order of creation
	lastCmp   map[string]*time.Time
	seq       int
	cancelled bool
	cx        string
	now       time.Time
	curOp     int
	enT       map[HK]bool
	enN       map[string]bool
	tickNo    int

	deliveries int
	states     []uint64
	facts      map[string]int
	// notes of things that happened, for known findings and vacuity counters
	notes map[string]int
}

// menv is a message in the model.
type menv struct {
	Env
	mt    MT
	base  Base
	sched time.Time
	h     *HSpec // origin
	inst  string
}

// afterDestroy marks events that were recorded after the instance was destroyed
// by the same command.
const afterDestroy = " after-destroy visible="

type mpanic struct{ v string }

func newModel(scn *Scn) *Model {
	m := &Model{scn: scn, notes: map[string]int{}}
	m.lastCmp = map[string]*time.Time{}
	m.reset()
	return m
}

func (m *Model) reset() {
	m.nextID = 1
	m.rejected = 0
	m.agg = map[string]map[string][]string{}
	m.proc = map[string]map[string][]string{}
	m.timeouts = map[string][]*menv{}
}

func (m *Model) ev(e Ev) { m.trace = append(m.trace, e) }

func (m *Model) script(h *HSpec, tag string, e *menv) *Script {
	k := skey{h.Name, tag}
	if s, ok := m.scn.Scripts[k]; ok {
		return s
	}
	if m.gen != nil {
		s := m.gen(h, e, m)
		if s == nil {
			s = defaultScript
		}
		m.scn.Scripts[k] = s
		return s
	}
	return defaultScript
}

// existing returns a script only if it was generated before.
func (m *Model) existing(h *HSpec, tag string) *Script {
	if s, ok := m.scn.Scripts[skey{h.Name, tag}]; ok {
		return s
	}
	return defaultScript
}

func (m *Model) newID() string {
	id := m.nextID
	if m.rejected > 0 && m.obs != nil {
		for c := id; c <= id+m.rejected; c++ {
			if m.obs.ids[c] {
				id = c
				break
			}
		}
	}
	m.rejected = 0
	m.nextID = id + 1
	return strconv.Itoa(id)
}

// run performs all operations.
func (m *Model) run() {
	for i, op := range m.scn.Ops {
		m.step(i, op)
	}
}

func (m *Model) step(i int, op Op) {
	m.curOp = i
	m.par = nil
	m.ev(Ev{K: "op", X: fmt.Sprint(i)})
	m.cancelled = op.Ctx == 'c'
	m.cx = "ctx=" + fmt.Sprint(i)
	func() {
		defer func() {
			switch v := recover().(type) {
			case nil:
			case mpanic:
				m.ev(Ev{K: "panic", X: v.v})
			default:
				panic(v)
			}
		}()
		switch op.Kind {
		case 'r':
			for n := 0; n < m.scn.Resetters; n++ {
				m.ev(Ev{K: "resetter", X: fmt.Sprint(n)})
			}
			m.reset()
			m.ev(Ev{K: "return", X: "reset"})
		case 'd':
			m.dispatchOp(op)
		case 't':
			m.tickOp(op)
		}
	}()
	m.trace = append(m.trace, m.par...)
	m.states = append(m.states, m.stateKey())
}

// options evaluates the options of an operation.
func (m *Model) options(op Op) bool {
	m.now = m.scn.Times[op.Now]
	m.enT = map[HK]bool{Agg: true, Proc: true, Int: true, Proj: true}
	m.enN = map[string]bool{}
	for _, o := range op.En {
		if o.Name != "" {
			if m.scn.App.byName(o.Name) == nil {
				return false
			}
			m.enN[o.Name] = o.On
		} else {
			m.enT[o.Type] = o.On
		}
	}
	return true
}

func (m *Model) enabled() string {
	var s []string
	for k, v := range m.enT {
		s = append(s, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(s)
	var u []string
	for k, v := range m.enN {
		u = append(u, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(u)
	return "types{" + strings.Join(s, " ") + "} names{" + strings.Join(u, " ") + "}"
}

// skip returns the reason for which a handler does not take part.
func (m *Model) skip(h *HSpec) string {
	if on, ok := m.enN[h.Name]; ok {
		if on {
			return ""
		}
		return "I"
	}
	if h.Disabled {
		return "C"
	}
	if m.enT[h.Kind] {
		return ""
	}
	return "T"
}

type merrs []string

func (e merrs) String() string {
	if len(e) == 0 {
		return "err=nil"
	}
	return "err=[" + strings.Join(e, " ;; ") + "]"
}

const canceled = "err=CANCELED"

// herr is an error returned by a handler: its text and its original.
type herr struct{ text, orig string }

func (e *herr) String() string {
	if e == nil {
		return "err=nil"
	}
	if e.orig == "CANCELED" {
		return canceled
	}
	return "err=[" + e.text + " orig=" + e.orig + "]"
}

func (e *herr) wrap(h *HSpec) string {
	return h.Name + " " + h.Kind.String() + ": " + e.text + " orig=" + e.orig
}

func userErr(s string) *herr { return &herr{s, s} }

func (m *Model) dispatchOp(op Op) {
	if op.Nil {
		panic(mpanic{"other"})
	}
	if !m.options(op) {
		m.rejected++
		panic(mpanic{"other"})
	}
	if op.MT.kind() == kTmo || op.Base.Bad != "" || len(m.scn.App.consumers(op.MT)) == 0 {
		m.rejected++
		panic(mpanic{"other"})
	}
	id := m.newID()
	e := &menv{mt: op.MT, base: op.Base}
	e.Env = Env{ID: id, Cause: id, Corr: id, Msg: mStr(op.MT, op.Base), Created: tstr(m.now)}
	m.ev(Ev{K: "f.DispatchCycleBegun", E: e.Env, X: "now=" + tstr(m.now) + " " + m.enabled()})
	var res string
	if m.cancelled && m.obs != nil && !m.obs.dispatched(m.curOp) {
		// An operation that is cancelled beforehand need not begin.
		res = canceled
	} else {
		res = m.deliver([]*menv{e}, nil)
	}
	m.ev(Ev{K: "f.DispatchCycleCompleted", E: e.Env, X: res + " " + m.enabled()})
	m.ev(Ev{K: "return", X: res})
}

// deliver processes a queue of messages breadth-first.
func (m *Model) deliver(queue []*menv, errs merrs) string {
	for len(queue) > 0 {
		e := queue[0]
		queue = queue[1:]
		m.ev(Ev{K: "f.DispatchBegun", E: e.Env})
		var targets []*HSpec
		if e.mt.kind() == kTmo {
			targets = []*HSpec{e.h}
		} else {
			targets = m.order(m.scn.App.consumers(e.mt), e.ID)
		}
		var derrs merrs
		for _, h := range targets {
			m.deliveries++
			if r := m.skip(h); r != "" {
				m.ev(Ev{K: "f.HandlingSkipped", H: h.Name, E: e.Env, X: "reason=" + r})
				continue
			}
			m.ev(Ev{K: "f.HandlingBegun", H: h.Name, E: e.Env})
			out, err := m.handle(h, e)
			queue = append(queue, out...)
			m.ev(Ev{K: "f.HandlingCompleted", H: h.Name, E: e.Env, X: err.String()})
			if err != nil {
				derrs = append(derrs, err.wrap(h))
			}
		}
		m.ev(Ev{K: "f.DispatchCompleted", E: e.Env, X: derrs.String()})
		errs = append(errs, derrs...)
		if m.cancelled {
			return canceled
		}
	}
	return errs.String()
}

// order returns the handlers in the order in which they were observed to be
// given the message.
func (m *Model) order(hs []*HSpec, id string) []*HSpec {
	if m.obs == nil || len(hs) < 2 {
		return hs
	}
	return reorder(hs, m.obs.route[obsKey{m.curOp, id}])
}

func reorder(hs []*HSpec, names []string) []*HSpec {
	if len(names) != len(hs) {
		// Incomplete (e.g. after a panic) or wrong: keep the observed prefix.
		if len(names) > len(hs) {
			return hs
		}
	}
	var r []*HSpec
	used := map[string]bool{}
	for _, n := range names {
		ok := false
		for _, h := range hs {
			if h.Name == n && !used[n] {
				r = append(r, h)
				used[n] = true
				ok = true
			}
		}
		if !ok {
			return hs
		}
	}
	for _, h := range hs {
		if !used[h.Name] {
			r = append(r, h)
		}
	}
	return r
}

func (m *Model) contract(h *HSpec, iface, method string, e *menv, kind string) mpanic {
	return mpanic{fmt.Sprintf("contract h=%s type=%s %s.%s msg=%s %s", h.Name, h.Kind, iface, method, e.Msg, kind)}
}

func (m *Model) handle(h *HSpec, e *menv) ([]*menv, *herr) {
	switch h.Kind {
	case Agg:
		return m.handleAgg(h, e), nil
	case Proc:
		return m.handleProc(h, e)
	case Int:
		return m.handleInt(h, e)
	default:
		return nil, m.handleProj(h, e)
	}
}

// produce creates a message in response to e.
func (m *Model) produce(h *HSpec, inst string, e *menv, a Act, n int) *menv {
	b := Base{Tag: childTag(e.base.Tag, h, n), Inst: a.Inst, Bad: a.Bad}
	c := &menv{mt: a.MT, base: b, h: h, inst: inst}
	c.Env = Env{
		ID: m.newID(), Cause: e.ID, Corr: e.Corr, Msg: mStr(a.MT, b), Created: tstr(m.now),
		Origin: originStr(h.Name, h.Kind.String(), inst),
	}
	if a.MT.kind() == kTmo {
		c.sched = m.scn.Times[a.At]
		c.Env.Sched = tstr(c.sched)
	}
	return c
}

func rstr(l []string) string { return "<" + strings.Join(l, ",") + ">" }

func (m *Model) handleAgg(h *HSpec, e *menv) []*menv {
	s := m.script(h, e.base.Tag, e)
	m.ev(Ev{K: "agg.Route", H: h.Name, X: e.Msg})
	inst := e.base.Inst
	switch s.Route {
	case 'p':
		panic(mpanic{"user route " + e.base.Tag})
	case 'u':
		panic(m.contract(h, "AggregateMessageHandler", "RouteCommandToInstance", e, "unexpected-message"))
	case '0':
		inst = ""
	case 'i':
		inst = s.RouteTo
	}
	if inst == "" {
		panic(m.contract(h, "AggregateMessageHandler", "RouteCommandToInstance", e, "behavior"))
	}
	if s.NilRoot {
		panic(m.contract(h, "AggregateMessageHandler", "New", e, "behavior"))
	}
	hist, exists := m.agg[h.Name][inst]
	visible := append([]string(nil), hist...) // root given to the handler
	current := append([]string(nil), hist...) // root described by the facts
	attached := append([]string(nil), hist...)
	detached := false // the two have been separated by destruction
	if exists {
		if s.Replay != 0 {
			c := *e
			c.Env.Msg = m.histMsg(h, inst)
			if s.Replay == 'p' {
				panic(mpanic{"user apply " + hist[0]})
			}
			panic(m.contract(h, "AggregateRoot", "ApplyEvent", &c, "unexpected-message"))
		}
		m.ev(Ev{K: "f.AggregateInstanceLoaded", H: h.Name, I: inst, R: rstr(current), E: e.Env})
	} else {
		m.ev(Ev{K: "f.AggregateInstanceNotFound", H: h.Name, I: inst, E: e.Env})
	}
	m.ev(Ev{K: "agg.Handle", H: h.Name, I: inst, R: rstr(visible), X: e.Msg})
	destroyed := false
	var out []*menv
	var recorded []string
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oRecord:
			b := Base{Tag: childTag(e.base.Tag, h, n), Inst: a.Inst, Bad: a.Bad}
			n++
			if !h.produces(a.MT) || b.Bad != "" {
				panic(m.contract(h, "AggregateMessageHandler", "HandleCommand", e, "behavior"))
			}
			if !exists {
				k := "f.AggregateInstanceCreated"
				if destroyed {
					k = "f.AggregateInstanceDestructionReverted"
				}
				m.ev(Ev{K: k, H: h.Name, I: inst, R: rstr(current), E: e.Env})
				exists, destroyed = true, false
			}
			switch s.Apply {
			case 'p':
				panic(mpanic{"user apply " + b.Tag})
			case 'u':
				c := *e
				c.Env.Msg = mStr(a.MT, b)
				panic(m.contract(h, "AggregateRoot", "ApplyEvent", &c, "unexpected-message"))
			}
			c := m.produce(h, inst, e, a, n-1)
			current = append(current, b.Tag)
			visible = append(visible, b.Tag)
			x := ""
			if detached {
				// See the known finding of C04.
				x = afterDestroy + rstr(attached)
			} else {
				attached = append(attached, b.Tag)
			}
			recorded = append(recorded, b.Tag)
			out = append(out, c)
			m.ev(Ev{K: "f.EventRecordedByAggregate", H: h.Name, I: inst, R: rstr(current), E: e.Env, C: c.Env})
			m.ev(Ev{K: "agg.See", H: h.Name, I: inst, R: rstr(visible), X: b.Tag + x})
		case oEnd:
			if exists {
				exists, destroyed = false, true
				detached = true
				current = nil
				m.ev(Ev{K: "f.AggregateInstanceDestroyed", H: h.Name, I: inst, R: rstr(current), E: e.Env})
			}
		case oLog:
			m.ev(Ev{K: "f.MessageLoggedByAggregate", H: h.Name, I: inst, R: rstr(current), E: e.Env,
				X: logStr("log %s %d", []any{e.base.Tag, n})})
		case oCancel:
			m.cancelled = true
		}
	}
	m.ev(Ev{K: "agg.Done", H: h.Name, I: inst, X: e.base.Tag})
	switch s.Fin {
	case fPanic, fErr, fCtxErr:
		panic(mpanic{"user handle " + e.base.Tag})
	case fUnexpected:
		panic(m.contract(h, "AggregateMessageHandler", "HandleCommand", e, "unexpected-message"))
	}
	if exists {
		if m.agg[h.Name] == nil {
			m.agg[h.Name] = map[string][]string{}
		}
		m.agg[h.Name][inst] = append(append([]string(nil), hist...), recorded...)
	} else {
		delete(m.agg[h.Name], inst)
	}
	return out
}

func (m *Model) handleProc(h *HSpec, e *menv) ([]*menv, *herr) {
	inst := ""
	method, kind := "HandleEvent", "proc.Event"
	at := e.Created
	if e.mt.kind() == kTmo {
		method, kind = "HandleTimeout", "proc.Timeout"
		at = e.Sched
		inst = e.inst
		if _, ok := m.proc[h.Name][inst]; !ok {
			m.ev(Ev{K: "f.ProcessTimeoutIgnored", H: h.Name, I: inst, E: e.Env})
			return nil, nil
		}
	}
	s := m.script(h, e.base.Tag, e)
	if e.mt.kind() != kTmo {
		inst = e.base.Inst
		m.ev(Ev{K: "proc.Route", H: h.Name, X: e.Msg + " " + m.cx})
		switch s.Route {
		case 'n', 'N':
			m.ev(Ev{K: "f.ProcessEventIgnored", H: h.Name, E: e.Env})
			return nil, nil
		case 'e', 'E':
			return nil, userErr("route " + e.base.Tag)
		case 'p':
			panic(mpanic{"user route " + e.base.Tag})
		case 'u':
			panic(m.contract(h, "ProcessMessageHandler", "RouteEventToInstance", e, "unexpected-message"))
		case '0':
			inst = ""
		case 'i':
			inst = s.RouteTo
		}
		if inst == "" {
			panic(m.contract(h, "ProcessMessageHandler", "RouteEventToInstance", e, "behavior"))
		}
	}
	root, exists := m.proc[h.Name][inst]
	if exists {
		m.ev(Ev{K: "f.ProcessInstanceLoaded", H: h.Name, I: inst, R: rstr(root), E: e.Env})
	} else {
		m.ev(Ev{K: "f.ProcessInstanceNotFound", H: h.Name, I: inst, E: e.Env})
		if s.NilRoot {
			m.ev(Ev{K: "f.ProcessInstanceBegun", H: h.Name, I: inst, R: "nil", E: e.Env})
			panic(m.contract(h, "ProcessMessageHandler", "New", e, "behavior"))
		}
		m.ev(Ev{K: "f.ProcessInstanceBegun", H: h.Name, I: inst, R: rstr(root), E: e.Env})
	}
	m.ev(Ev{K: kind, H: h.Name, I: inst, R: rstr(root), X: e.Msg + " t=" + at + " " + m.cx})
	ended := false
	var cmds, ready, pending []*menv
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oRecord:
			b := Base{Tag: childTag(e.base.Tag, h, n), Inst: a.Inst, Bad: a.Bad}
			n++
			if !h.produces(a.MT) || b.Bad != "" {
				panic(m.contract(h, "ProcessMessageHandler", method, e, "behavior"))
			}
			if ended {
				ended = false
				m.ev(Ev{K: "f.ProcessInstanceEndingReverted", H: h.Name, I: inst, R: rstr(root), E: e.Env})
			}
			c := m.produce(h, inst, e, a, n-1)
			k := "f.CommandExecutedByProcess"
			if a.MT.kind() == kTmo {
				k = "f.TimeoutScheduledByProcess"
				if c.sched.After(m.now) {
					pending = append(pending, c)
				} else {
					ready = append(ready, c)
				}
			} else {
				cmds = append(cmds, c)
			}
			m.ev(Ev{K: k, H: h.Name, I: inst, R: rstr(root), E: e.Env, C: c.Env})
		case oEnd:
			if !ended {
				ended = true
				m.ev(Ev{K: "f.ProcessInstanceEnded", H: h.Name, I: inst, R: rstr(root), E: e.Env})
			}
		case oLog:
			m.ev(Ev{K: "f.MessageLoggedByProcess", H: h.Name, I: inst, R: rstr(root), E: e.Env,
				X: logStr("log %s %d", []any{e.base.Tag, n})})
		case oCancel:
			m.cancelled = true
		}
	}
	m.ev(Ev{K: "proc.Done", H: h.Name, I: inst, X: e.base.Tag})
	if err := m.finish(h, s, e, "ProcessMessageHandler", method); err != nil {
		return nil, err
	}
	if ended {
		delete(m.proc[h.Name], inst)
		var keep []*menv
		for _, t := range m.timeouts[h.Name] {
			if t.inst != inst {
				keep = append(keep, t)
			}
		}
		m.timeouts[h.Name] = keep
		return cmds, nil
	}
	if m.proc[h.Name] == nil {
		m.proc[h.Name] = map[string][]string{}
	}
	m.proc[h.Name][inst] = append(append([]string(nil), root...), e.base.Tag)
	m.timeouts[h.Name] = append(m.timeouts[h.Name], pending...)
	return append(cmds, ready...), nil
}

// finish evaluates how a handler call ends.
func (m *Model) finish(h *HSpec, s *Script, e *menv, iface, method string) *herr {
	switch s.Fin {
	case fErr:
		return userErr("handle " + e.base.Tag)
	case fCtxErr:
		if m.cancelled {
			return &herr{"context canceled", "CANCELED"}
		}
	case fPanic:
		panic(mpanic{"user handle " + e.base.Tag})
	case fUnexpected:
		panic(m.contract(h, iface, method, e, "unexpected-message"))
	}
	return nil
}

func (m *Model) handleInt(h *HSpec, e *menv) ([]*menv, *herr) {
	s := m.script(h, e.base.Tag, e)
	m.ev(Ev{K: "int.Handle", H: h.Name, X: e.Msg + " " + m.cx})
	var out []*menv
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oRecord:
			n++
			if !h.produces(a.MT) || a.Bad != "" {
				panic(m.contract(h, "IntegrationMessageHandler", "HandleCommand", e, "behavior"))
			}
			c := m.produce(h, "", e, a, n-1)
			out = append(out, c)
			m.ev(Ev{K: "f.EventRecordedByIntegration", H: h.Name, E: e.Env, C: c.Env})
		case oLog:
			m.ev(Ev{K: "f.MessageLoggedByIntegration", H: h.Name, E: e.Env, X: logStr("log %s %d", []any{e.base.Tag, n})})
		case oCancel:
			m.cancelled = true
		}
	}
	m.ev(Ev{K: "int.Done", H: h.Name, X: e.base.Tag})
	err := m.finish(h, s, e, "IntegrationMessageHandler", "HandleCommand")
	return out, err
}

func (m *Model) handleProj(h *HSpec, e *menv) *herr {
	s := m.script(h, e.base.Tag, e)
	// The version and close behaviour is keyed by resource.
	if m.gen != nil {
		m.scn.Scripts[skey{h.Name, "#" + e.ID}] = s
	}
	vs := m.existing(h, "#"+e.ID)
	m.ev(Ev{K: "proj.Version", H: h.Name, X: fmt.Sprintf("res=%q %s", e.ID, m.cx)})
	switch vs.Ver {
	case 'v', 'V':
		return nil
	case 'e', 'E':
		return userErr("version " + e.ID)
	case 'p':
		panic(mpanic{"user version " + e.ID})
	}
	var cerr *herr
	var cpanic bool
	var clogs []Ev
	if m.scn.CompactDH {
		m.ev(Ev{K: "f.ProjectionCompactionBegun", H: h.Name})
		m.par = append(m.par, Ev{K: "proj.Compact", H: h.Name, X: fmt.Sprintf("now=%s %s", tstr(m.now), m.cx)})
		cs := m.script(h, compactKey+fmt.Sprint(m.curOp), nil)
		for i := 0; i < cs.CompLogs; i++ {
			clogs = append(clogs, Ev{K: "f.MessageLoggedByProjection", H: h.Name, X: logStr("compact log %d", []any{i})})
		}
		if cs.CompFin == 'E' {
			cerr = userErr("compact " + compactKey + fmt.Sprint(m.curOp))
		}
		cpanic = cs.CompFin == 'P'
	}
	m.ev(Ev{K: "proj.Handle", H: h.Name, X: fmt.Sprintf("%s t=%s primary=true res=%q cur=empty next=set %s", e.Msg, e.Created, e.ID, m.cx)})
	n := 0
	for _, a := range s.Acts {
		switch a.Op {
		case oLog:
			m.ev(Ev{K: "f.MessageLoggedByProjection", H: h.Name, E: e.Env, X: logStr("log %s %d", []any{e.base.Tag, n})})
			n++
		case oCancel:
			m.cancelled = true
		}
	}
	m.ev(Ev{K: "proj.Done", H: h.Name, X: e.base.Tag})
	err := m.finish(h, s, e, "ProjectionMessageHandler", "HandleEvent")
	if m.scn.CompactDH {
		m.trace = append(m.trace, clogs...)
		if cpanic {
			panic(mpanic{"user compact " + compactKey + fmt.Sprint(m.curOp)})
		}
		m.ev(Ev{K: "f.ProjectionCompactionCompleted", H: h.Name, X: cerr.String()})
	}
	if err != nil {
		return err
	}
	if !s.NotOK {
		m.ev(Ev{K: "proj.Close", H: h.Name, X: fmt.Sprintf("res=%q %s", e.ID, m.cx)})
		switch vs.Close {
		case 'e':
			return userErr("close " + e.ID)
		case 'p':
			panic(mpanic{"user close " + e.ID})
		}
	}
	return cerr
}

func (m *Model) tickOp(op Op) {
	if !m.options(op) {
		panic(mpanic{"other"})
	}
	m.ev(Ev{K: "f.TickCycleBegun", X: "now=" + tstr(m.now) + " " + m.enabled()})
	res := m.tick()
	m.ev(Ev{K: "f.TickCycleCompleted", X: res + " " + m.enabled()})
	m.ev(Ev{K: "return", X: res})
}

func (m *Model) tick() string {
	hs := m.scn.App.H
	if m.obs != nil {
		if m.cancelled && len(m.obs.ticks[m.curOp]) == 0 {
			return canceled
		}
		hs = reorder(hs, m.obs.ticks[m.curOp])
	}
	var errs merrs
	var queue []*menv
	for _, h := range hs {
		if r := m.skip(h); r != "" {
			m.ev(Ev{K: "f.TickSkipped", H: h.Name, X: "reason=" + r})
			continue
		}
		m.ev(Ev{K: "f.TickBegun", H: h.Name})
		var err *herr
		switch h.Kind {
		case Proc:
			queue = append(queue, m.due(h)...)
		case Proj:
			err = m.compact(h)
		}
		if err != nil {
			errs = append(errs, err.wrap(h))
		}
		m.ev(Ev{K: "f.TickCompleted", H: h.Name, X: err.String()})
		if m.cancelled {
			return canceled
		}
	}
	return m.deliver(queue, errs)
}

// due removes and returns the timeouts that are due.
func (m *Model) due(h *HSpec) []*menv {
	var due, rest []*menv
	for _, t := range m.timeouts[h.Name] {
		if t.sched.After(m.now) {
			rest = append(rest, t)
		} else {
			due = append(due, t)
		}
	}
	m.timeouts[h.Name] = rest
	sort.SliceStable(due, func(i, j int) bool {
		a, b := due[i], due[j]
		if !a.sched.Equal(b.sched) {
			return a.sched.Before(b.sched)
		}
		if m.obs == nil {
			return false
		}
		// The order of timeouts scheduled for the same time is unspecified.
		return m.obs.pos(m.curOp, a.ID) < m.obs.pos(m.curOp, b.ID)
	})
	return due
}

const compactInterval = time.Hour

func (m *Model) compact(h *HSpec) *herr {
	if l := m.lastCmp[h.Name]; l != nil && m.now.Sub(*l) < compactInterval {
		return nil
	}
	now := m.now
	m.lastCmp[h.Name] = &now
	m.ev(Ev{K: "f.ProjectionCompactionBegun", H: h.Name})
	m.ev(Ev{K: "proj.Compact", H: h.Name, X: fmt.Sprintf("now=%s %s", tstr(m.now), m.cx)})
	key := compactKey + fmt.Sprint(m.curOp)
	s := m.script(h, key, nil)
	for i := 0; i < s.CompLogs; i++ {
		m.ev(Ev{K: "f.MessageLoggedByProjection", H: h.Name, X: logStr("compact log %d", []any{i})})
	}
	if s.CompCxl {
		m.cancelled = true
	}
	var err *herr
	switch s.CompFin {
	case 'E':
		err = userErr("compact " + key)
	case 'P':
		panic(mpanic{"user compact " + key})
	}
	m.ev(Ev{K: "f.ProjectionCompactionCompleted", H: h.Name, X: err.String()})
	return err
}

// histMsg is the first event of an instance's history.
func (m *Model) histMsg(h *HSpec, inst string) string {
	tag := m.agg[h.Name][inst][0]
	for _, e := range m.trace {
		if e.K == "f.EventRecordedByAggregate" && strings.Contains(e.C.Msg, "{"+tag+"@") {
			return e.C.Msg
		}
	}
	return "?"
}

func (m *Model) stateKey() uint64 {
	var b strings.Builder
	fmt.Fprint(&b, m.nextID)
	for _, h := range m.scn.App.H {
		b.WriteString("|" + h.Name + string(h.Kind))
		writeInst := func(x map[string][]string) {
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				b.WriteString(";" + k + "=" + rstr(x[k]))
			}
		}
		writeInst(m.agg[h.Name])
		writeInst(m.proc[h.Name])
		for _, t := range m.timeouts[h.Name] {
			b.WriteString(";" + t.base.Tag + "@" + t.Sched)
		}
		if l := m.lastCmp[h.Name]; l != nil {
			b.WriteString(";lc" + tstr(*l))
		}
	}
	return hashStr(b.String())
}

type obsKey struct {
	op int
	id string
}

// Observed holds the order that was observed in an execution where the order
// is not specified.
type Observed struct {
	route map[obsKey][]string
	ticks map[int][]string
	begun map[obsKey]int
	ids   map[int]bool
	disp  map[int]bool
}

func observe(tr []Ev) *Observed {
	o := &Observed{map[obsKey][]string{}, map[int][]string{}, map[obsKey]int{}, map[int]bool{}, map[int]bool{}}
	op := 0
	for i, e := range tr {
		if n, err := strconv.Atoi(e.E.ID); err == nil {
			o.ids[n] = true
		}
		if n, err := strconv.Atoi(e.C.ID); err == nil {
			o.ids[n] = true
		}
		switch e.K {
		case "op":
			op, _ = strconv.Atoi(e.X)
		case "f.HandlingBegun", "f.HandlingSkipped":
			k := obsKey{op, e.E.ID}
			o.route[k] = append(o.route[k], e.H)
		case "f.TickBegun", "f.TickSkipped":
			o.ticks[op] = append(o.ticks[op], e.H)
		case "f.DispatchBegun":
			k := obsKey{op, e.E.ID}
			if _, ok := o.begun[k]; !ok {
				o.begun[k] = i + 1
			}
			o.disp[op] = true
		}
	}
	return o
}

func (o *Observed) dispatched(op int) bool { return o.disp[op] }

func (o *Observed) pos(op int, id string) int {
	if p, ok := o.begun[obsKey{op, id}]; ok {
		return p
	}
	return 1 << 30
}
