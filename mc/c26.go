package main

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
)

// logShape chooses the fields of a fact.
type logShape struct {
	small bool
	c     *Chooser
	ids   []string
	inst  []string
	errs  []error
	logs  []logText
	msgs  []dogma.Message
	hs    map[HK][]configkit.RichHandler
}

type logText struct {
	f    string
	args []any
}

func (t logText) String() string { return fmt.Sprintf(t.f, t.args...) }

// lfact is a fact and what its line has to say.
type lfact struct {
	f    fact.Fact
	kind string
	must bool // there has to be a line
	env  *envelope.Envelope
	want []string
	// enabled are the handlers and handler types the line has to show as enabled
	// or disabled, if any.
	enabled []string
	hkey    string // handler, instance and so on: facts that differ in kind only share it
}

func (l *logShape) env(ms ...dogma.Message) *envelope.Envelope {
	if len(ms) == 0 {
		ms = l.msgs
	}
	return &envelope.Envelope{
		MessageID:     l.ids[l.c.Choose(len(l.ids))],
		CausationID:   l.ids[l.c.Choose(len(l.ids))],
		CorrelationID: l.ids[l.c.Choose(len(l.ids))],
		Message:       ms[l.c.Choose(len(ms))],
		CreatedAt:     epoch,
		ScheduledFor:  epoch.Add(90 * time.Minute),
	}
}

func (l *logShape) instance() string      { return l.inst[l.c.Choose(len(l.inst))] }
func (l *logShape) error() error          { return l.errs[l.c.Choose(len(l.errs))] }
func (l *logShape) text() logText         { return l.logs[l.c.Choose(len(l.logs))] }
func name(h configkit.RichHandler) string { return h.Identity().Name }

func (l *logShape) handler(ks ...HK) configkit.RichHandler {
	var hs []configkit.RichHandler
	for _, k := range ks {
		hs = append(hs, l.hs[k]...)
	}
	return hs[l.c.Choose(len(hs))]
}

// aMessage is in another envelope of the same fact; it must not be confused
// with the one concerned.
func aMessage() *envelope.Envelope {
	return &envelope.Envelope{MessageID: "991", CausationID: "992", CorrelationID: "993", Message: CA.make(Base{Tag: "other"})}
}

func descOf(m dogma.Message) []string {
	return []string{mtOf(m).String(), m.MessageDescription()}
}

const nLogKinds = 32

func tstr3339(t time.Time) string { return t.Format(time.RFC3339) }

// enabled chooses which handlers are enabled, and returns how the line that
// begins an operation has to show them.
func (l *logShape) enabled() (types map[configkit.HandlerType]bool, names map[string]bool, want []string) {
	types, names = map[configkit.HandlerType]bool{}, map[string]bool{}
	hts := []configkit.HandlerType{configkit.AggregateHandlerType, configkit.ProcessHandlerType, configkit.IntegrationHandlerType, configkit.ProjectionHandlerType}
	masks, sets := 16, 5
	if l.small {
		masks, sets = 1, 1
	}
	k := 15 - l.c.Choose(masks)
	for i, t := range hts {
		types[t] = k>>i&1 == 1
		if types[t] {
			want = append(want, "+"+string(t))
		}
	}
	var many []string
	for i := 0; i < 40; i++ {
		many = append(many, fmt.Sprintf("%ch%d", "+-"[i%2], i))
	}
	for _, n := range [][]string{{"+one", "-two", "+three", "-four"}, {}, {"-one"}, {"+two", "+x.y"}, many}[l.c.Choose(sets)] {
		names[n[1:]] = n[0] == '+'
		want = append(want, n)
	}
	return types, names, want
}

// sameEnabled compares the handlers shown by a line with want.
func sameEnabled(line string, want []string) bool {
	left := slices.Clone(want)
	for _, f := range strings.Fields(line) {
		if len(f) < 2 || f[0] != '+' && f[0] != '-' {
			continue
		}
		i := slices.IndexFunc(left, func(w string) bool {
			return f == w || configkit.HandlerType(w[1:]).Validate() == nil && (f == w+"s" || f == w+"es")
		})
		if i < 0 {
			return false
		}
		left = slices.Delete(left, i, i+1)
	}
	return len(left) == 0
}

// fact chooses a fact of kind k.
func (l *logShape) fact(k int) lfact {
	all := []HK{Agg, Proc, Int, Proj}
	x := lfact{}
	switch k {
	case 0:
		e := l.env()
		types, names, en := l.enabled()
		x = lfact{f: fact.DispatchCycleBegun{Envelope: e, EngineTime: epoch, EnabledHandlerTypes: types, EnabledHandlers: names}, must: true, env: e,
			want: []string{tstr3339(epoch)}, enabled: en}
	case 1:
		e := l.env()
		x = lfact{f: fact.DispatchBegun{Envelope: e}, must: true, env: e, want: descOf(e.Message)}
	case 2:
		e := l.env()
		x = lfact{f: fact.DispatchCompleted{Envelope: e, Error: l.error()}, env: e}
	case 3:
		e := l.env()
		x = lfact{f: fact.DispatchCycleCompleted{Envelope: e, Error: l.error()}, env: e}
	case 4:
		e, h := l.env(), l.handler(all...)
		x = lfact{f: fact.HandlingBegun{Handler: h, Envelope: e}, env: e, want: []string{name(h)}}
	case 5:
		e, h, err := l.env(), l.handler(all...), l.error()
		x = lfact{f: fact.HandlingCompleted{Handler: h, Envelope: e, Error: err}, env: e, want: []string{name(h)}, must: err != nil}
		if err != nil {
			x.want = append(x.want, err.Error())
		}
	case 6:
		e, h := l.env(), l.handler(all...)
		r := []fact.HandlerSkipReason{fact.HandlerTypeDisabled, fact.IndividualHandlerDisabled, fact.IndividualHandlerDisabledByConfiguration}[l.c.Choose(3)]
		x = lfact{f: fact.HandlingSkipped{Handler: h, Envelope: e, Reason: r}, env: e, want: []string{name(h)}, must: true, kind: fmt.Sprint(r), hkey: name(h)}
	case 7:
		types, names, en := l.enabled()
		x = lfact{f: fact.TickCycleBegun{EngineTime: epoch, EnabledHandlerTypes: types, EnabledHandlers: names}, must: true,
			want: []string{tstr3339(epoch)}, enabled: en}
	case 8:
		x = lfact{f: fact.TickCycleCompleted{Error: l.error()}}
	case 9:
		x = lfact{f: fact.TickBegun{Handler: l.handler(all...)}}
	case 10:
		h, err := l.handler(all...), l.error()
		x = lfact{f: fact.TickCompleted{Handler: h, Error: err}, want: []string{name(h)}, must: err != nil}
		if err != nil {
			x.want = append(x.want, err.Error())
		}
	case 11:
		x = lfact{f: fact.TickSkipped{Handler: l.handler(all...), Reason: fact.HandlerTypeDisabled}}
	case 12, 13, 14, 15, 16, 17, 18:
		e, h, i := l.env(CA.make(Base{Tag: "c"}), CD.make(Base{Tag: "d"})), l.handler(Agg).(configkit.RichAggregate), l.instance()
		x = lfact{env: e, want: []string{name(h), i}, must: true, hkey: name(h) + i}
		switch k {
		case 12:
			x.f, x.must = fact.AggregateInstanceLoaded{Handler: h, InstanceID: i, Envelope: e}, false
		case 13:
			x.f, x.must = fact.AggregateInstanceNotFound{Handler: h, InstanceID: i, Envelope: e}, false
		case 14:
			x.f = fact.AggregateInstanceCreated{Handler: h, InstanceID: i, Envelope: e}
		case 15:
			x.f = fact.AggregateInstanceDestroyed{Handler: h, InstanceID: i, Envelope: e}
		case 16:
			x.f = fact.AggregateInstanceDestructionReverted{Handler: h, InstanceID: i, Envelope: e}
		case 17:
			e := l.env(EA.make(Base{Tag: "ev"}), ED.make(Base{Tag: "pev"}))
			x.f, x.env, x.want, x.hkey = fact.EventRecordedByAggregate{Handler: h, InstanceID: i, Envelope: aMessage(), EventEnvelope: e}, e, append(x.want, descOf(e.Message)...), ""
		case 18:
			t := l.text()
			x.f, x.want, x.hkey = fact.MessageLoggedByAggregate{Handler: h, InstanceID: i, Envelope: e, LogFormat: t.f, LogArguments: t.args}, append(x.want, t.String()), ""
		}
	case 19, 20, 21, 22, 23, 24, 25, 26, 27, 28:
		e, h, i := l.env(EA.make(Base{Tag: "e"}), TA.make(Base{Tag: "t"})), l.handler(Proc).(configkit.RichProcess), l.instance()
		x = lfact{env: e, want: []string{name(h), i}, must: true, hkey: name(h) + i}
		switch k {
		case 19:
			x.f, x.must = fact.ProcessInstanceLoaded{Handler: h, InstanceID: i, Envelope: e}, false
		case 20:
			x.f, x.must = fact.ProcessInstanceNotFound{Handler: h, InstanceID: i, Envelope: e}, false
		case 21:
			x.f = fact.ProcessInstanceBegun{Handler: h, InstanceID: i, Envelope: e}
		case 22:
			x.f = fact.ProcessInstanceEnded{Handler: h, InstanceID: i, Envelope: e}
		case 23:
			x.f = fact.ProcessInstanceEndingReverted{Handler: h, InstanceID: i, Envelope: e}
		case 24:
			x.f, x.want, x.hkey = fact.ProcessEventIgnored{Handler: h, Envelope: e}, []string{name(h)}, ""
		case 25:
			x.f = fact.ProcessTimeoutIgnored{Handler: h, InstanceID: i, Envelope: e}
		case 26:
			e := l.env(CA.make(Base{Tag: "cmd"}), CD.make(Base{Tag: "pcmd"}))
			x.f, x.env, x.want, x.hkey = fact.CommandExecutedByProcess{Handler: h, InstanceID: i, Envelope: aMessage(), CommandEnvelope: e}, e, append(x.want, descOf(e.Message)...), ""
		case 27:
			e := l.env(TA.make(Base{Tag: "tmo"}), TB.make(Base{Tag: "tmo2"}))
			x.f, x.env, x.want, x.hkey = fact.TimeoutScheduledByProcess{Handler: h, InstanceID: i, Envelope: aMessage(), TimeoutEnvelope: e}, e, append(x.want, descOf(e.Message)...), ""
		case 28:
			t := l.text()
			x.f, x.want, x.hkey = fact.MessageLoggedByProcess{Handler: h, InstanceID: i, Envelope: e, LogFormat: t.f, LogArguments: t.args}, append(x.want, t.String()), ""
		}
	case 29:
		h := l.handler(Int).(configkit.RichIntegration)
		if l.c.Bool() {
			e := l.env(EA.make(Base{Tag: "ev"}), ED.make(Base{Tag: "pev"}))
			x = lfact{f: fact.EventRecordedByIntegration{Handler: h, Envelope: aMessage(), EventEnvelope: e}, env: e, want: append(descOf(e.Message), name(h)), must: true}
		} else {
			e, t := l.env(), l.text()
			x = lfact{f: fact.MessageLoggedByIntegration{Handler: h, Envelope: e, LogFormat: t.f, LogArguments: t.args}, env: e, want: []string{name(h), t.String()}, must: true}
		}
	case 30:
		h, err := l.handler(Proj).(configkit.RichProjection), l.error()
		if l.c.Bool() {
			x = lfact{f: fact.ProjectionCompactionBegun{Handler: h}, want: []string{name(h)}}
		} else {
			x = lfact{f: fact.ProjectionCompactionCompleted{Handler: h, Error: err}, want: []string{name(h)}, must: err != nil, hkey: name(h)}
			if err != nil {
				x.kind = "failed"
				x.want = append(x.want, err.Error())
			}
		}
	case 31:
		h, t := l.handler(Proj).(configkit.RichProjection), l.text()
		var e *envelope.Envelope
		if l.c.Bool() {
			e = l.env(EA.make(Base{Tag: "e"}))
		}
		x = lfact{f: fact.MessageLoggedByProjection{Handler: h, Envelope: e, LogFormat: t.f, LogArguments: t.args}, env: e, want: []string{name(h), t.String()}, must: true}
	}
	x.kind = reflect.TypeOf(x.f).Name() + x.kind
	return x
}

// logOf returns the lines a new logger emits for facts.
func logOf(fs ...fact.Fact) []string {
	var r []string
	l := fact.NewLogger(func(s string) { r = append(r, s) })
	for _, f := range fs {
		l.Notify(f)
	}
	return r
}

// check compares the lines of a fact with what they have to say.
func (x lfact) check(lines []string) string {
	if len(lines) > 1 {
		return fmt.Sprintf("%d lines", len(lines))
	}
	if len(lines) == 0 {
		if x.must {
			return "no line"
		}
		return ""
	}
	line := lines[0]
	ids := [3]string{}
	if x.env != nil {
		ids = [3]string{x.env.MessageID, x.env.CausationID, x.env.CorrelationID}
	}
	f := strings.Fields(line)
	if len(f) < 6 {
		return "no message IDs"
	}
	for i, id := range ids {
		got := f[2*i+1]
		switch {
		case id == "" && strings.Trim(got, "-") == "":
		case id != "" && strings.TrimLeft(got, "0") == strings.TrimLeft(id, "0"):
		default:
			return fmt.Sprintf("ID %d is %q, want %q", i, got, id)
		}
	}
	if f[0] == f[2] || f[2] == f[4] || f[0] == f[4] {
		return "the IDs are not distinguishable"
	}
	rest := strings.Join(f[6:], " ")
	for _, t := range x.want {
		if t = strings.Join(strings.Fields(t), " "); !strings.Contains(rest, t) {
			return fmt.Sprintf("%q is missing", t)
		}
	}
	if x.enabled != nil && !sameEnabled(rest, x.enabled) {
		return fmt.Sprintf("enabled handlers are not %q", x.enabled)
	}
	return ""
}

func newShape(c *Chooser, small bool) *logShape {
	l := &logShape{c: c, small: small,
		ids:  []string{"", "1", "07", "12", "123", "4711-x"},
		inst: []string{"inst-1", "another instance", "%s", "x"},
		errs: []error{nil, errBoom, errors.New("an error: 100%d"), errors.New("")},
		logs: []logText{{"plain", nil}, {"n=%d s=%s", []any{7, "seven"}}, {"100%%", nil}, {"%v", []any{errBoom}}, {"two\nlines", nil}},
		msgs: []dogma.Message{CA.make(Base{Tag: "a"}), ED.make(Base{Tag: "d"}), TA.make(Base{Tag: "t%d"})},
		hs:   map[HK][]configkit.RichHandler{},
	}
	if small {
		l.ids, l.inst, l.errs, l.logs, l.msgs = []string{"3"}, l.inst[:1], []error{nil, errBoom, l.errs[3]}, l.logs[1:2], l.msgs[:1]
	}
	for _, h := range logHandlers {
		l.hs[h.k] = append(l.hs[h.k], h.h)
		if small && len(l.hs[h.k]) > 1 {
			l.hs[h.k] = l.hs[h.k][:1]
		}
	}
	return l
}

type kindHandler struct {
	k HK
	h configkit.RichHandler
}

var logHandlers []kindHandler

func initLogHandlers() {
	if logHandlers != nil {
		return
	}
	spec := app(
		HSpec{Name: "agg", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
		HSpec{Name: "agg2", Kind: Agg, In: []MT{CB}, Out: []MT{EB}},
		HSpec{Name: "proc", Kind: Proc, In: []MT{EA}, Out: []MT{CA}},
		HSpec{Name: "process%d", Kind: Proc, In: []MT{EA}, Out: []MT{CA}},
		HSpec{Name: "int", Kind: Int, In: []MT{CC}},
		HSpec{Name: "integration", Kind: Int, In: []MT{CD}},
		HSpec{Name: "proj", Kind: Proj, In: []MT{EA}},
		HSpec{Name: "projection", Kind: Proj, In: []MT{EA}},
	)
	cfg := configkit.FromApplication(&TApp{spec: spec})
	for _, h := range spec.H {
		x, ok := cfg.RichHandlers().ByName(h.Name)
		if !ok {
			panic("no handler " + h.Name)
		}
		logHandlers = append(logHandlers, kindHandler{h.Kind, x})
	}
}

func init() {
	register(&Check{
		ID:          "C26",
		Rule:        "every fact type with every combination of IDs, handlers, instances, errors, texts and messages from boundary sets; all sequences of facts up to a bound; the facts of all bounded runs of a test. Lines are compared with the definition and with those of a fresh logger",
		Assumptions: []string{"a log text is what formatting the format with its arguments yields, even if it contains line breaks"},
		Cases: func(tier string) []*Case {
			initLogHandlers()
			var cs []*Case
			for k := 0; k < nLogKinds; k++ {
				cs = append(cs, &Case{Name: fmt.Sprintf("fact/%d", k), Body: func(w *Worker, c *Chooser) string {
					l := newShape(c, false)
					x := l.fact(k)
					lines := logOf(x.f)
					if d := x.check(lines); d != "" {
						return fmt.Sprintf("%s %+v: %s\nlines: %q", x.kind, x.f, d, lines)
					}
					for i := 0; i < 3; i++ {
						if again := logOf(x.f); strings.Join(again, "\n") != strings.Join(lines, "\n") {
							return fmt.Sprintf("%s: lines %q, and when logged again %q", x.kind, lines, again)
						}
					}
					m2done(w, "fact", c, strings.Join(lines, "\n"), 1, func() any { return lines })
					return ""
				}})
			}
			// Lines of different kinds of facts about the same thing differ.
			cs = append(cs, &Case{Name: "distinct", Body: func(w *Worker, c *Chooser) string {
				a, b := c.Choose(nLogKinds), c.Choose(nLogKinds)
				x, y := newShape(c, true).fact(a), newShape(c, true).fact(b)
				lx, ly := logOf(x.f), logOf(y.f)
				if x.kind != y.kind && x.hkey != "" && x.hkey == y.hkey && len(lx) == 1 && len(ly) == 1 && lx[0] == ly[0] {
					return fmt.Sprintf("the lines of %s and %s are the same: %q", x.kind, y.kind, lx[0])
				}
				m2done(w, "distinct", c, fmt.Sprint(lx, ly), 1, func() any { return []any{lx, ly} })
				return ""
			}})
			// Sequences.
			cs = append(cs, &Case{Name: "sequences", Body: func(w *Worker, c *Chooser) string {
				n := 2 + c.Choose(tierN(tier, 2, 2))
				var fs []fact.Fact
				var want []string
				var ks []string
				for i := 0; i < n; i++ {
					x := newShape(c, true).fact(c.Choose(nLogKinds))
					fs = append(fs, x.f)
					ks = append(ks, x.kind)
					want = append(want, logOf(x.f)...)
				}
				got := logOf(fs...)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					return fmt.Sprintf("facts %v: lines %q, want %q", ks, got, want)
				}
				m2done(w, "sequences", c, strings.Join(got, "\n"), n, func() any { return ks })
				return ""
			}})
			// Logs of tests.
			ops := clockOps()
			cs = append(cs, &Case{Name: "tests", Body: func(w *Worker, c *Chooser) string {
				s := newSess(appClock, 0)
				s.test.EnableHandlers("i", "v")
				s.a.onCompact = func(h *HSpec, now time.Time) error { return nil }
				s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
					sc.log("handling %s", tagOf(m))
					tag := tagOf(m)
					switch h.Name {
					case "a":
						sc.Produce(EA.make(Base{Tag: tag, Inst: "x"}), epoch)
						if tag == "p" {
							sc.end()
						}
					case "p":
						if mtOf(m) == TA {
							sc.end()
							return nil
						}
						sc.Produce(TA.make(Base{Tag: tag, Inst: "x"}), epoch.Add(time.Second))
						sc.Produce(CB.make(Base{Tag: tag, Inst: "x"}), epoch)
					case "i":
						if tag == "e" {
							return errBoom
						}
						sc.Produce(EB.make(Base{Tag: tag, Inst: "x"}), epoch)
					}
					return nil
				}
				var hist []string
				n := 1 + c.Choose(tierN(tier, 2, 3))
				lines := 0
				for i := 0; i < n; i++ {
					o := ops[c.Choose(len(ops))]
					hist = append(hist, o.name)
					s.clear()
					var seen []time.Time
					act := o.act(s, &seen)
					expect := i%2 == 0
					s.do(func() {
						if expect {
							s.test.Expect(act, &leafExp{b: lPass})
						} else {
							s.test.Prepare(act)
						}
					})
					var got []string
					for _, l := range s.t.logs {
						if !strings.HasPrefix(l, "--- ") {
							got = append(got, l)
						}
					}
					want := logOf(s.facts...)
					if strings.Join(got, "\n") != strings.Join(want, "\n") {
						return fmt.Sprintf("actions %v: the log of the last action is %q, want %q", hist, got, want)
					}
					lines += len(got)
				}
				m2done(w, "tests", c, fmt.Sprint(hist), lines, func() any { return hist })
				return ""
			}})
			return cs
		},
	})
}
