package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
)

// appExpl is the application of the failure explanations. At most one handler
// that produces messages is called for each message, as the order of the
// handlers of an event is not determined.
var appExpl = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA, CF}, Out: []MT{EA, EB}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EC, EF}},
	HSpec{Name: "q", Kind: Proc, In: []MT{EF, EB}, Out: []MT{CC, CD}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EA, EE}, Out: []MT{CB, CC, TA}},
	HSpec{Name: "j", Kind: Int, In: []MT{CC}, Out: []MT{ED}},
	HSpec{Name: "v", Kind: Proj, In: []MT{EA, EC, ED}},
)

// xprod is a message that was produced, and by whom; h is nil for a message
// the action itself gave to the command executor.
type xprod struct {
	h *HSpec
	m dogma.Message
}

// xrun is what happened during an action.
type xrun struct {
	call     bool        // the action is a call of a function
	dispatch bool        // a message was dispatched by the action
	enabled  map[HK]bool // enabled handler types, by Kind
	engaged  []*HSpec    // handler calls in order
	prod     []xprod
}

// xleaf is an expectation that can be explained.
type xleaf struct {
	name string
	t    MT
	e    testkit.Expectation
	kind byte
	crit string
	// one of:
	spec  *Base // a specific message
	typ   bool  // a message type
	match bool  // a predicate: any
	only  bool  // a predicate: all
	isT   func(dogma.Message) bool
	tname string
	// inv is true if the expectation is negated, and so never explained.
	inv bool
}

var (
	errTwo   = errors.New("two")
	errThree = errors.New("50% of <messages>, 1 events:\nsecond line")
)

// xpred is the predicate of the matching expectations.
func xpred(tag string) error {
	switch tag {
	case "1":
		return nil
	case "2":
		return errTwo
	case "3":
		return errThree
	}
	return testkit.IgnoreMessage
}

func xkind(kind byte) (message, messages, produced string) {
	if kind == kCmd {
		return "command", "commands", "executed"
	}
	return "event", "events", "recorded"
}

func produceVerb(kind byte) string {
	if kind == kCmd {
		return "execute"
	}
	return "record"
}

func xspec(t MT, tag string) xleaf {
	b := Base{Tag: tag, Inst: "x"}
	x := msgExp(t, b)
	m, _, _ := xkind(t.kind())
	return xleaf{name: x.name, t: t, e: x.e, kind: t.kind(), spec: &b,
		crit: fmt.Sprintf("%s a specific '%s' %s", produceVerb(t.kind()), t, m)}
}

func xtype(t MT, e testkit.Expectation) xleaf {
	m, _, _ := xkind(t.kind())
	return xleaf{name: "any " + t.String(), t: t, e: e, kind: t.kind(), typ: true,
		crit: fmt.Sprintf("%s any '%s' %s", produceVerb(t.kind()), t, m)}
}

func xmatch[T dogma.Message](t MT, kind byte, tname string, any, only func(func(T) error) testkit.Expectation) []xleaf {
	m, ms, _ := xkind(kind)
	pred := func(m T) error { return xpred(tagOf(m)) }
	isT := func(m dogma.Message) bool { _, ok := m.(T); return ok }
	an := "a "
	if kind == kEvt {
		an = "an "
	}
	return []xleaf{
		{name: "matching " + tname, t: t, e: any(pred), kind: kind, match: true, isT: isT, tname: tname,
			crit: produceVerb(kind) + " " + an + m + " that matches the predicate near "},
		{name: "only " + tname, t: t, e: only(pred), kind: kind, only: true, isT: isT, tname: tname,
			crit: "only " + produceVerb(kind) + " " + ms + " that match the predicate near "},
	}
}

func xleaves() []xleaf {
	r := []xleaf{
		xspec(EA, "9"), xspec(EA, "1"), xspec(EC, "9"), xspec(EB, "2"), xspec(CC, "9"), xspec(CC, "1"), xspec(CB, "9"), xspec(CD, "9"),
		xtype(EB, testkit.ToRecordEventType[Evt[tB]]()),
		xtype(EC, testkit.ToRecordEventType[Evt[tC]]()),
		xtype(CC, testkit.ToExecuteCommandType[Cmd[tC]]()),
		xtype(CD, testkit.ToExecuteCommandType[*PCmd]()),
	}
	r = append(r, xmatch(EA, kEvt, EA.String(), testkit.ToRecordEventMatching[Evt[tA]], testkit.ToOnlyRecordEventsMatching[Evt[tA]])...)
	r = append(r, xmatch(-1, kEvt, "dogma.Event", testkit.ToRecordEventMatching[dogma.Event], testkit.ToOnlyRecordEventsMatching[dogma.Event])...)
	r = append(r, xmatch(CC, kCmd, CC.String(), testkit.ToExecuteCommandMatching[Cmd[tC]], testkit.ToOnlyExecuteCommandsMatching[Cmd[tC]])...)
	r = append(r, xmatch(-1, kCmd, "dogma.Command", testkit.ToExecuteCommandMatching[dogma.Command], testkit.ToOnlyExecuteCommandsMatching[dogma.Command])...)
	return r
}

func (h *HSpec) typeName() string {
	return map[HK]string{Agg: "aggregate", Proc: "process", Int: "integration", Proj: "projection"}[h.Kind]
}

// xpl is the explanation of an unmet expectation.
type xpl struct {
	met    bool
	expl   string
	failed []string
	sugg   []string
	best   dogma.Message
}

func producers(kind byte) []HK {
	if kind == kCmd {
		return []HK{Proc}
	}
	return []HK{Agg, Int}
}

// explain returns the explanation of l.
func (r *xrun) explain(l xleaf) (x xpl, defined bool) {
	m1, ms, done := xkind(l.kind)
	var total, ofKind, ignored, matched int
	type fail struct {
		s string
		n int
	}
	var fails []*fail
	var best *xprod
	for _, p := range r.prod {
		t := mtOf(p.m)
		total++
		if t.kind() != l.kind {
			continue
		}
		ofKind++
		switch {
		case l.spec != nil:
			if t == l.t {
				best = &p
				if p.m.(hasBase).Content() == *l.spec {
					return xpl{met: true}, true
				}
			}
		case l.typ:
			if t == l.t {
				return xpl{met: true}, true
			}
		default:
			err := testkit.IgnoreMessage
			if l.isT(p.m) {
				err = xpred(tagOf(p.m))
			} else if l.only {
				err = errors.New("predicate function expected " + l.tname)
			}
			switch {
			case err == nil && l.match:
				return xpl{met: true}, true
			case err == nil:
				matched++
			case err == testkit.IgnoreMessage:
				ignored++
			default:
				s := t.String() + ": " + err.Error()
				i := slices.IndexFunc(fails, func(f *fail) bool { return f.s == s })
				if i < 0 {
					fails = append(fails, &fail{s, 0})
					i = len(fails) - 1
				}
				fails[i].n++
			}
		}
	}
	if l.only && len(fails) == 0 {
		return xpl{met: true}, true
	}
	if best != nil {
		if best.h == nil {
			x.expl = fmt.Sprintf("a similar %s was %s via a dogma.CommandExecutor", m1, done)
		} else {
			x.expl = fmt.Sprintf("a similar %s was %s by the '%s' %s message handler", m1, done, best.h.Name, best.h.typeName())
		}
		x.sugg = []string{"check the content of the message"}
		x.best = best.m
		return x, true
	}
	for _, f := range fails {
		if f.n > 1 {
			f.s += fmt.Sprintf(" (repeated %d times)", f.n)
		}
		x.failed = append(x.failed, f.s)
	}
	if ignored > 0 {
		w := ms
		if ignored == 1 {
			w = m1
		}
		x.sugg = append(x.sugg, fmt.Sprintf("verify the logic within the predicate function, it ignored %d %s", ignored, w))
	} else if len(fails) > 0 {
		x.sugg = append(x.sugg, "verify the logic within the predicate function")
	}
	if l.only {
		s := "only %[1]d of %[2]d relevant %[3]s matched the predicate"
		if matched == 0 {
			s = "none of the %[2]d relevant %[3]s matched the predicate"
		}
		defer func(s string) { x.expl = s }(fmt.Sprintf(s, matched, ofKind-ignored, ms))
	}
	var names []string
	disabled := 0
	var engaged []*HSpec
	for _, h := range r.engaged {
		if slices.Contains(producers(l.kind), h.Kind) && !slices.Contains(engaged, h) {
			engaged = append(engaged, h)
		}
	}
	if r.dispatch {
		for _, k := range producers(l.kind) {
			n := (&HSpec{Kind: k}).typeName()
			names = append(names, n)
			if !r.enabled[k] {
				disabled++
				x.sugg = append(x.sugg, "enable "+n+" handlers using the EnableHandlerType() option")
			}
		}
		if !r.call {
			if disabled == len(names) {
				x.expl = "no relevant handler types were enabled"
				return x, len(engaged) == 0
			}
			if len(engaged) == 0 {
				x.expl = fmt.Sprintf("no relevant handlers (%s) were engaged", strings.Join(names, " or "))
				x.sugg = append(x.sugg, "check the application's routing configuration")
				return x, true
			}
		}
	}
	switch {
	case total == 0:
		x.expl = "no messages were produced at all"
	case ofKind == 0:
		x.expl = fmt.Sprintf("no %s were %s at all", ms, done)
	case r.call && l.kind == kEvt:
		x.expl = "nothing recorded a matching event"
	case r.call:
		x.expl = "nothing executed a matching command"
	default:
		x.expl = fmt.Sprintf("none of the engaged handlers %s a matching %s", done, m1)
	}
	for _, h := range engaged {
		x.sugg = append(x.sugg, fmt.Sprintf("verify the logic within the '%s' %s message handler", h.Name, h.typeName()))
	}
	if r.call {
		x.sugg = append(x.sugg, "verify the logic within the code that uses the ")
	}
	return x, true
}

// xblock is the part of a report about one expectation.
type xblock struct {
	crit     string
	sections map[string][]string
}

// parseBlocks splits a report into the parts about its expectations.
func parseBlocks(rep string) []xblock {
	var r []xblock
	sec := ""
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimLeft(l, " ")
		if strings.HasPrefix(t, "✓ ") || strings.HasPrefix(t, "✗ ") {
			r = append(r, xblock{t, map[string][]string{}})
			sec = ""
			continue
		}
		t, ok := strings.CutPrefix(t, "|")
		if !ok || len(r) == 0 {
			continue
		}
		b := r[len(r)-1]
		t = strings.TrimPrefix(t, " ")
		if c, ok := strings.CutPrefix(t, "    "); ok {
			n := len(b.sections[sec])
			if item, ok := strings.CutPrefix(c, "• "); ok || n == 0 {
				b.sections[sec] = append(b.sections[sec], item)
			} else {
				b.sections[sec][n-1] += "\n" + c
			}
		} else if t != "" {
			sec = t
		}
	}
	return r
}

func sameItems(want, got []string) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if strings.HasSuffix(want[i], "that uses the ") {
			if !strings.HasPrefix(got[i], want[i]) {
				return false
			}
		} else if want[i] != got[i] {
			return false
		}
	}
	return true
}

// mismatch compares an explanation with the part of a report about it.
func (x xpl) mismatch(b xblock) string {
	if x.met {
		if len(b.sections) != 0 {
			return fmt.Sprintf("a met expectation is explained by %q", b.sections)
		}
		return ""
	}
	if e := strings.Join(b.sections["EXPLANATION"], "\n"); e != x.expl {
		return fmt.Sprintf("explanation %q, want %q", e, x.expl)
	}
	if g := b.sections["SUGGESTIONS"]; !sameItems(x.sugg, g) {
		return fmt.Sprintf("suggestions %q, want %q", g, x.sugg)
	}
	if g := b.sections["FAILED MATCHES"]; !sameItems(x.failed, g) {
		return fmt.Sprintf("failed matches %q, want %q", g, x.failed)
	}
	d := strings.Join(b.sections["MESSAGE DIFF"], "\n")
	if (d != "") != (x.best != nil) {
		return fmt.Sprintf("unexpected or missing diff %q", d)
	}
	if x.best != nil {
		side := undiff(d, "[-", "-]", "{+", "+}")
		if !strings.Contains(side, fmt.Sprintf("%q", tagOf(x.best))) {
			return fmt.Sprintf("the diff %q does not show %s", d, msgStr(x.best))
		}
	}
	return ""
}

type explAction struct {
	name string
	run  xrun
	act  func(s *Sess, prod *[]xprod) testkit.Action
}

func explActions() []explAction {
	exec := func(t MT) dogma.Command { return t.make(Base{Tag: "2", Inst: "x"}).(dogma.Command) }
	call := func(ts ...MT) explAction {
		return explAction{fmt.Sprintf("call%v", ts), xrun{call: true, dispatch: len(ts) > 0}, func(s *Sess, prod *[]xprod) testkit.Action {
			return testkit.Call(func() {
				for _, t := range ts {
					*prod = append(*prod, xprod{nil, exec(t)})
					if err := s.test.CommandExecutor().ExecuteCommand(context.Background(), exec(t)); err != nil {
						panic(err)
					}
				}
			})
		}}
	}
	cmd := func(t MT) explAction {
		return explAction{t.String(), xrun{dispatch: true}, func(*Sess, *[]xprod) testkit.Action { return testkit.ExecuteCommand(exec(t)) }}
	}
	ev := func(t MT) explAction {
		return explAction{t.String(), xrun{dispatch: true}, func(*Sess, *[]xprod) testkit.Action {
			return testkit.RecordEvent(t.make(Base{Tag: "2", Inst: "x"}).(dogma.Event))
		}}
	}
	return []explAction{
		cmd(CA), cmd(CB), ev(EA), ev(EE), ev(EC),
		{"timeout", xrun{}, func(*Sess, *[]xprod) testkit.Action { return testkit.AdvanceTime(testkit.ByDuration(time.Hour)) }},
		call(), call(CA), call(CB), call(CC), call(CC, CA), call(CA, CB, CC),
	}
}

func init() {
	register(&Check{
		ID:   "C29",
		Rule: "all actions x all enabled handler types x all messages the handlers produce up to a bound x all message expectations, alone and within trees, after other actions or none; the explanation of every unmet expectation is compared with what happened",
		Cases: func(tier string) []*Case {
			var cs []*Case
			add := func(name string, budget, max int, masks int, body func(c *Chooser, leaves []xleaf) ([]xleaf, testkit.Expectation)) {
				for _, a := range explActions() {
					for _, k := range explMasks[:masks] {
						name := name + "/" + a.name + "/" + k.name
						cs = append(cs, &Case{Name: name, Budget: budget, Body: explainBody(name, a, k, 0, max, body)})
					}
				}
			}
			single := func(c *Chooser, leaves []xleaf) ([]xleaf, testkit.Expectation) {
				l := leaves[c.Choose(len(leaves))]
				return []xleaf{l}, l.e
			}
			add("single", tierN(tier, 2, 3), 6, 9, single)
			pair := func(c *Chooser, leaves []xleaf) ([]xleaf, testkit.Expectation) {
				a, b := leaves[c.Choose(len(leaves))], leaves[c.Choose(len(leaves))]
				if c.Bool() {
					return []xleaf{a, b}, testkit.AllOf(a.e, b.e)
				}
				return []xleaf{a, b}, testkit.AnyOf(a.e, testkit.AllOf(b.e))
			}
			add("pair", tierN(tier, 1, 2), 6, tierN(tier, 3, 9), pair)
			negated := func(c *Chooser, leaves []xleaf) ([]xleaf, testkit.Expectation) {
				a, b := leaves[c.Choose(len(leaves))], leaves[c.Choose(2)]
				not := func(x xleaf) xleaf { x.inv = !x.inv; return x }
				switch c.Choose(6) {
				case 0:
					return []xleaf{not(a), b}, testkit.AllOf(testkit.NoneOf(a.e), b.e)
				case 1:
					return []xleaf{a, b}, testkit.AllOf(testkit.NoneOf(testkit.NoneOf(a.e)), b.e)
				case 2:
					return []xleaf{not(a), not(b)}, testkit.NoneOf(a.e, b.e)
				case 3:
					return []xleaf{not(a), b}, testkit.NoneOf(testkit.AnyOf(a.e), testkit.NoneOf(b.e))
				case 4:
					return []xleaf{not(b), a}, testkit.AllOf(testkit.AnyOf(testkit.NoneOf(b.e)), testkit.AllOf(a.e))
				default:
					return []xleaf{not(a), a, not(a)}, testkit.AllOf(testkit.NoneOf(a.e), a.e, testkit.NoneOf(testkit.AllOf(a.e)))
				}
			}
			add("negated", tierN(tier, 1, 2), 6, 1, negated)
			// Many messages.
			for _, n := range []int{11, 40, 130} {
				for _, a := range explActions() {
					if a.name != "timeout" {
						name := fmt.Sprintf("many/%d/%s", n, a.name)
						cs = append(cs, &Case{Name: name, Body: explainBody(name, a, explMasks[1], n, 0, single)})
					}
				}
			}
			return cs
		},
	})
}

// explMask says which handlers are enabled.
type explMask struct {
	name    string
	enabled map[HK]bool
	toggle  func(*testkit.Test)
}

var explMasks = []explMask{
	{"default", map[HK]bool{Agg: true, Proc: true}, nil},
	{"all", map[HK]bool{Agg: true, Proc: true, Int: true}, nil},
	{"by-name", map[HK]bool{Agg: true, Proc: true}, func(t *testkit.Test) { t.EnableHandlers("i") }},
	{"without-a", map[HK]bool{Agg: true, Proc: true, Int: true}, func(t *testkit.Test) { t.DisableHandlers("a") }},
	{"without-q", map[HK]bool{Agg: true, Proc: true, Int: true}, func(t *testkit.Test) { t.DisableHandlers("q") }},
	{"no-aggregates", map[HK]bool{Proc: true, Int: true}, nil},
	{"no-processes", map[HK]bool{Agg: true, Int: true}, nil},
	{"only-processes", map[HK]bool{Proc: true}, nil},
	{"only-aggregates", map[HK]bool{Agg: true}, nil},
}

// explainBody explains ls; the first handler that can produce something
// alternately produces two messages fill times before anything else.
func explainBody(name string, a explAction, k explMask, fill, max int, choose func(c *Chooser, leaves []xleaf) ([]xleaf, testkit.Expectation)) func(*Worker, *Chooser) string {
	var leaves []xleaf
	for _, l := range xleaves() {
		if l.t < 0 || a.run.call || producible(appExpl, l.t) {
			leaves = append(leaves, l)
		}
	}
	return func(w *Worker, c *Chooser) string {
		ls, exp := choose(c, leaves)
		s := newSess(appExpl, 0, testkit.WithUnsafeOperationOptions(
			engine.EnableAggregates(k.enabled[Agg]), engine.EnableProcesses(k.enabled[Proc]), engine.EnableIntegrations(k.enabled[Int])))
		if k.toggle != nil {
			k.toggle(s.test)
		}
		r := a.run
		r.enabled = k.enabled
		byName := map[string]*HSpec{}
		for _, h := range appExpl.H {
			byName[h.Name] = h
		}
		on, left := false, fill
		s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
			if tagOf(m) == "sched" && h.produces(TA) && mtOf(m).kind() == kEvt {
				sc.Produce(TA.make(Base{Tag: "2", Inst: "x"}), epoch.Add(time.Minute))
			}
			n := len(h.Out)
			produce := func(k int) {
				x := h.Out[(k-1)%n].make(Base{Tag: fmt.Sprint(1 + (k-1)/n), Inst: "x"})
				sc.Produce(x, epoch.Add(5*time.Hour))
				r.prod = append(r.prod, xprod{h, x})
			}
			if on && n > 0 && left > 0 {
				ks := [2]int{1 + c.Choose(4*n), 1 + c.Choose(4*n)}
				for ; left > 0; left-- {
					produce(ks[left%2])
				}
			}
			for on && n > 0 && len(r.prod) < fill+max {
				k := c.Dev(4*n + 1)
				if k == 0 {
					break
				}
				produce(k)
			}
			return nil
		}
		// Something that must not count, and the timeout.
		if c.Bool() || a.name == "timeout" {
			s.test.Prepare(testkit.RecordEvent(EE.make(Base{Tag: "sched", Inst: "x"}).(dogma.Event)))
		}
		s.clear()
		on = true
		s.test.Expect(a.act(s, &r.prod), exp)
		on = false
		for _, x := range s.a.calls {
			r.engaged = append(r.engaged, byName[x.H])
		}
		var desc []string
		for _, p := range r.prod {
			h := "executor"
			if p.h != nil {
				h = p.h.Name
			}
			desc = append(desc, h+":"+msgStr(p.m))
		}
		var names []string
		for _, l := range ls {
			names = append(names, l.name)
		}
		fail := func(f string, v ...any) string {
			return fmt.Sprintf("expectations %q, produced %v, called %v: %s\nreports: %q\nfatal: %q", names, desc, s.a.calls, fmt.Sprintf(f, v...), s.t.reports(), s.t.fatals)
		}
		v := s.verdict()
		if v != "pass" && v != "fail" {
			return fail("verdict %s", v)
		}
		blocks := parseBlocks(s.t.reports()[0])
		out := v
		i := 0
		for _, l := range ls {
			x, defined := r.explain(l)
			// Find the part of the report about the expectation.
			for i < len(blocks) && !strings.Contains(blocks[i].crit, l.crit) {
				i++
			}
			if i == len(blocks) {
				return fail("the report says nothing about %s", l.name)
			}
			b := blocks[i]
			i++
			if strings.HasPrefix(b.crit, "✓") != x.met {
				return fail("%s: met %v, want %v", l.name, !x.met, x.met)
			}
			out += fmt.Sprint(" ", x.met)
			if v == "pass" || !defined {
				continue
			}
			if x.met = x.met || l.inv; x.met {
				x = xpl{met: true}
			}
			if d := x.mismatch(b); d != "" {
				return fail("%s: %s", l.name, d)
			}
			out += fmt.Sprint(x.expl, x.sugg, x.failed)
		}
		m2done(w, name, c, out, len(r.prod)+len(s.a.calls), func() any {
			return map[string]any{"expectations": names, "produced": desc, "outcome": out}
		})
		return ""
	}
}
