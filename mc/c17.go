package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	other "github.com/dogmatiq/testkit/verifmc/alt/other"
)

// appMsgs is the application of the message expectations.
var appMsgs = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA, CF}, Out: []MT{EA, EB, ED, EG}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EE}, Out: []MT{CA, CB, CD, CG, TA, TB}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB, CD, CE, CG}, Out: []MT{EC, EF}},
)

// appMsgChain is an application in which messages cause further messages.
var appMsgChain = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA, CF}, Out: []MT{EA, EB, EE, EG}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EE}, Out: []MT{CA, CB, CD, CG, TA, TB}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB, CD, CE, CG}, Out: []MT{EC, ED, EF}},
)

// mexp is an expectation about messages and the condition under which it is
// met by the messages that count.
type mexp struct {
	name string
	t    MT
	e    testkit.Expectation
	ok   func(m dogma.Message, cmp func(a, b dogma.Message) bool) bool
}

func typeExp[T dogma.Message](t MT, mk func() testkit.Expectation, mk2 func() testkit.Expectation) []mexp {
	ok := func(m dogma.Message, _ func(a, b dogma.Message) bool) bool { return mtOf(m) == t }
	return []mexp{
		{"any " + t.String(), t, mk(), ok},
		{"any(deprecated) " + t.String(), t, mk2(), ok},
	}
}

func mtOf(m dogma.Message) MT { return mtByType[reflectTypeOf(m)] }

func sameMsg(a, b dogma.Message) bool {
	return mtOf(a) == mtOf(b) && a.(hasBase).Content() == b.(hasBase).Content()
}

func msgExp(t MT, b Base) mexp {
	m := t.make(b)
	x := mexp{name: "specific " + mStr(t, b), t: t}
	if t.kind() == kCmd {
		x.e = testkit.ToExecuteCommand(m.(dogma.Command))
	} else {
		x.e = testkit.ToRecordEvent(m.(dogma.Event))
	}
	x.ok = func(p dogma.Message, cmp func(a, b dogma.Message) bool) bool {
		return mtOf(p) == t && cmp(p, m)
	}
	return x
}

// msgExps returns expectations about messages of the given kind.
func msgExps(kind byte) []mexp {
	var r []mexp
	x, y := Base{Inst: "x"}, Base{Inst: "y"}
	z := Base{Inst: "z"}
	if kind == kCmd {
		r = append(r, typeExp[Cmd[tA]](CA, testkit.ToExecuteCommandType[Cmd[tA]], func() testkit.Expectation { return testkit.ToExecuteCommandOfType(Cmd[tA]{}) })...)
		r = append(r, typeExp[Cmd[tB]](CB, testkit.ToExecuteCommandType[Cmd[tB]], func() testkit.Expectation { return testkit.ToExecuteCommandOfType(Cmd[tB]{}) })...)
		r = append(r, typeExp[*PCmd](CD, testkit.ToExecuteCommandType[*PCmd], func() testkit.Expectation { return testkit.ToExecuteCommandOfType(&PCmd{}) })...)
		r = append(r, typeExp[*other.PCmd](CG, testkit.ToExecuteCommandType[*other.PCmd], func() testkit.Expectation { return testkit.ToExecuteCommandOfType(&other.PCmd{}) })...)
		r = append(r, msgExp(CG, x), msgExp(CA, x), msgExp(CA, Base{Tag: "t", Inst: "x"}), msgExp(CB, x), msgExp(CB, z), msgExp(CD, x), msgExp(CD, y))
		return r
	}
	r = append(r, typeExp[Evt[tA]](EA, testkit.ToRecordEventType[Evt[tA]], func() testkit.Expectation { return testkit.ToRecordEventOfType(Evt[tA]{}) })...)
	r = append(r, typeExp[Evt[tB]](EB, testkit.ToRecordEventType[Evt[tB]], func() testkit.Expectation { return testkit.ToRecordEventOfType(Evt[tB]{}) })...)
	r = append(r, typeExp[*PEvt](ED, testkit.ToRecordEventType[*PEvt], func() testkit.Expectation { return testkit.ToRecordEventOfType(&PEvt{}) })...)
	r = append(r, typeExp[Evt[tC]](EC, testkit.ToRecordEventType[Evt[tC]], func() testkit.Expectation { return testkit.ToRecordEventOfType(Evt[tC]{}) })...)
	r = append(r, typeExp[*other.PEvt](EG, testkit.ToRecordEventType[*other.PEvt], func() testkit.Expectation { return testkit.ToRecordEventOfType(&other.PEvt{}) })...)
	r = append(r, msgExp(EG, x), msgExp(EC, x), msgExp(EC, y), msgExp(EF, y), msgExp(EA, x), msgExp(EA, z), msgExp(EA, Base{Tag: "t", Inst: "x"}), msgExp(EB, x), msgExp(ED, x), msgExp(ED, y))
	return r
}

// mact is an action that makes a handler produce messages.
type mact struct {
	name  string
	kind  byte               // kind of messages of interest
	prods [2][]dogma.Message // what the triggered handler can produce, small and large alphabet
	setup func(s *Sess)
	// act builds the action; tag identifies what the triggered handler does.
	act func(s *Sess, tag string, exec []dogma.Command) testkit.Action
	// exec are commands the action itself can execute.
	exec []dogma.Command
	// bounds
	budget, max, nexec int
	// app is the application, appMsgs if nil.
	app *AppSpec
}

func (a *mact) spec() *AppSpec {
	if a.app != nil {
		return a.app
	}
	return appMsgs
}

// bounded returns the actions together with their bounds.
func bounded(tier string) []mact {
	var r []mact
	for _, a := range macts() {
		a.budget, a.max = 1, 3
		if a.app == appMsgChain {
			a.budget, a.max = 2, 3
			if tier != "quick" {
				a.budget, a.max = 3, 3
			}
			r = append(r, a)
			continue
		}
		if a.exec == nil {
			if tier != "quick" {
				a.budget, a.max = 2, 4
			}
			r = append(r, a)
			continue
		}
		b := a
		a.name += "/nested"
		a.budget, a.max, a.nexec = 1, 1, 2
		b.budget, b.max, b.nexec = 0, 2, 2
		if tier != "quick" {
			a.max, b.nexec = 2, 3
		}
		r = append(r, a, b)
	}
	return r
}

func mk(t MT, inst string) dogma.Message { return t.make(Base{Inst: inst}) }

func macts() []mact {
	evs := [2][]dogma.Message{
		{mk(EA, "x"), mk(EB, "x"), mk(ED, "x"), mk(EG, "x")},
		{mk(EA, "x"), mk(EA, "y"), mk(EB, "x"), mk(ED, "x"), mk(ED, "y"), mk(EG, "x")},
	}
	ievs := [2][]dogma.Message{
		{mk(EC, "x"), mk(EF, "x")},
		{mk(EC, "x"), mk(EC, "y"), mk(EF, "x"), mk(EF, "y")},
	}
	cmds := [2][]dogma.Message{
		{mk(CA, "x"), mk(CB, "x"), mk(CD, "x"), mk(CG, "x"), mk(TA, "x")},
		{mk(CA, "x"), mk(CB, "x"), mk(CB, "y"), mk(CD, "x"), mk(CD, "y"), mk(CG, "x"), mk(TA, "x"), mk(TB, "x")},
	}
	chain := [2][]dogma.Message{
		{mk(EA, "x"), mk(EE, "x"), mk(CB, "x"), mk(CG, "x"), mk(EC, "x"), mk(ED, "x")},
		{mk(EA, "x"), mk(EA, "y"), mk(EE, "x"), mk(EG, "x"), mk(CB, "x"), mk(CB, "y"), mk(CD, "x"), mk(CG, "x"), mk(EC, "x"), mk(ED, "x")},
	}
	enable := func(s *Sess) { s.test.EnableHandlers("i") }
	cmd := func(s *Sess, tag string, _ []dogma.Command) testkit.Action {
		return testkit.ExecuteCommand(CA.make(Base{Tag: tag, Inst: "x"}).(dogma.Command))
	}
	ev := func(s *Sess, tag string, _ []dogma.Command) testkit.Action {
		return testkit.RecordEvent(EE.make(Base{Tag: tag, Inst: "x"}).(dogma.Event))
	}
	icmd := func(s *Sess, tag string, _ []dogma.Command) testkit.Action {
		return testkit.ExecuteCommand(CB.make(Base{Tag: tag, Inst: "x"}).(dogma.Command))
	}
	tmo := func(s *Sess, tag string, _ []dogma.Command) testkit.Action {
		s.test.Prepare(testkit.RecordEvent(EE.make(Base{Tag: "sched:" + tag, Inst: "x"}).(dogma.Event)))
		return testkit.AdvanceTime(testkit.ByDuration(time.Hour))
	}
	call := func(s *Sess, tag string, exec []dogma.Command) testkit.Action {
		return testkit.Call(func() {
			ex := s.test.CommandExecutor()
			for _, m := range exec {
				ex.ExecuteCommand(context.Background(), m)
			}
			if tag != "" {
				ex.ExecuteCommand(context.Background(), CF.make(Base{Tag: tag, Inst: "x"}).(dogma.Command))
			}
		})
	}
	exec := []dogma.Command{mk(CA, "x").(dogma.Command), mk(CB, "x").(dogma.Command), mk(CB, "y").(dogma.Command)}
	return []mact{
		{"command", kEvt, evs, nil, cmd, nil, 0, 0, 0, nil},
		{"command-kind", kCmd, evs, nil, cmd, nil, 0, 0, 0, nil},
		{"event", kCmd, cmds, nil, ev, nil, 0, 0, 0, nil},
		{"event-kind", kEvt, cmds, nil, ev, nil, 0, 0, 0, nil},
		{"timeout", kCmd, cmds, nil, tmo, nil, 0, 0, 0, nil},
		{"integration", kEvt, ievs, enable, icmd, nil, 0, 0, 0, nil},
		{"integration-disabled", kEvt, ievs, nil, icmd, nil, 0, 0, 0, nil},
		{"chain", kEvt, chain, enable, cmd, nil, 0, 0, 0, appMsgChain},
		{"chain-kind", kCmd, chain, enable, cmd, nil, 0, 0, 0, appMsgChain},
		{"call", kEvt, evs, nil, call, exec, 0, 0, 0, nil},
		{"call-kind", kCmd, evs, enable, call, exec, 0, 0, 0, nil},
	}
}

// handleMsgs installs the behaviour of the handlers: a message tagged "t"
// produces a chosen sequence, one tagged "all" every message of the alphabet,
// and a message without a tag at most one chosen message.
func handleMsgs(s *Sess, c *Chooser, alpha, all []dogma.Message, max int) {
	ok := func(h *HSpec, m dogma.Message) bool { return h.produces(mtOf(m)) }
	s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
		tag := tagOf(m)
		if t, found := strings.CutPrefix(tag, "sched:"); found {
			sc.Produce(TB.make(Base{Tag: t, Inst: "x"}), epoch.Add(time.Minute))
			return nil
		}
		switch tag {
		case "t":
			var can []dogma.Message
			for _, x := range alpha {
				if ok(h, x) {
					can = append(can, x)
				}
			}
			for i := 0; i < max && len(can) > 0; i++ {
				k := c.Choose(len(can) + 1)
				if k == 0 {
					break
				}
				sc.Produce(can[k-1], epoch.Add(time.Hour*5))
			}
		case "all":
			for _, x := range all {
				if ok(h, x) {
					sc.Produce(x, epoch.Add(time.Hour*5))
				}
			}
		case "":
			var can []dogma.Message
			for _, x := range all {
				if ok(h, x) {
					can = append(can, x)
				}
			}
			if k := c.Dev(len(can) + 1); k > 0 {
				sc.Produce(can[k-1], epoch.Add(time.Hour*5))
			}
		}
		return nil
	}
}

func init() {
	comparators := []struct {
		name string
		opt  func(a, b dogma.Message) bool
		cmp  func(a, b dogma.Message) bool
	}{
		{"default", nil, sameMsg},
		{"always", func(a, b dogma.Message) bool { return true }, func(a, b dogma.Message) bool { return true }},
		{"never", func(a, b dogma.Message) bool { return false }, func(a, b dogma.Message) bool { return false }},
		{"tag", func(a, b dogma.Message) bool { return tagOf(a) == tagOf(b) }, func(a, b dogma.Message) bool { return tagOf(a) == tagOf(b) }},
	}
	register(&Check{
		ID:   "C17",
		Rule: "all sequences of produced messages up to a length x all actions x all expectations on a message or message type x all comparators, each followed and preceded by other actions; the verdict is compared with the definition",
		Cases: func(tier string) []*Case {
			var cs []*Case
			for _, a := range bounded(tier) {
				exps := msgExps(a.kind)
				for _, pre := range []bool{false, true} {
					cs = append(cs, &Case{Name: fmt.Sprintf("%s/pre=%v", a.name, pre), Budget: a.budget, Body: func(w *Worker, c *Chooser) string {
						x := exps[c.Choose(len(exps))]
						if a.exec == nil && !producible(a.spec(), x.t) {
							return ""
						}
						cm := comparators[0]
						if strings.HasPrefix(x.name, "specific") {
							cm = comparators[c.Choose(len(comparators))]
						}
						var opts []testkit.TestOption
						if cm.opt != nil {
							opts = append(opts, testkit.WithMessageComparator(cm.opt))
						}
						s := newSess(a.spec(), 0, opts...)
						alpha := a.prods[0]
						max := a.max
						if pre {
							alpha, max = a.prods[1], a.max-1
						}
						handleMsgs(s, c, alpha, a.prods[1], max)
						if a.setup != nil {
							a.setup(s)
						}
						var exec []dogma.Command
						for i := 0; i < a.nexec; i++ {
							k := c.Choose(len(a.exec) + 1)
							if k == 0 {
								break
							}
							exec = append(exec, a.exec[k-1])
						}
						var all []dogma.Command
						if a.exec != nil {
							all = a.exec
						}
						var out []string
						step := func(what, tag string, exec []dogma.Command) string {
							if a.name == "timeout" && what == "pre" {
								s.test.Prepare(a.act(s, tag, exec))
								s.clear()
								return ""
							}
							if what == "pre" {
								s.test.Prepare(a.act(s, tag, exec))
								return ""
							}
							act := a.act(s, tag, exec)
							s.clear()
							s.test.Expect(act, x.e)
							counted := append([]dogma.Message(nil), s.a.produced...)
							if a.exec != nil {
								for _, m := range exec {
									counted = append(counted, m)
								}
								if tag != "" {
									counted = append(counted, CF.make(Base{Tag: tag, Inst: "x"}))
								}
							}
							want := "fail"
							for _, m := range counted {
								if x.ok(m, cm.cmp) {
									want = "pass"
								}
							}
							got := s.verdict()
							out = append(out, fmt.Sprintf("%s:%s:%s", what, msgs(counted), got))
							if got != want {
								return fmt.Sprintf("action %s (%s), expectation %q, comparator %s\nmessages that count: %s\nverdict is %s, want %s\nreports: %q\nfatal: %q",
									a.name, what, x.name, cm.name, msgs(counted), got, want, s.t.reports(), s.t.fatals)
							}
							return ""
						}
						if pre {
							if d := step("pre", "all", all); d != "" {
								return d
							}
						}
						if d := step("main", "t", exec); d != "" {
							return d
						}
						if d := step("nothing", "none", nil); d != "" {
							return d
						}
						if pre {
							if d := step("everything", "all", all); d != "" {
								return d
							}
						}
						m2done(w, a.name, c, x.name+cm.name+strings.Join(out, ";"), 2, func() any {
							return map[string]any{"expectation": x.name, "comparator": cm.name, "steps": out}
						})
						return ""
					}})
				}
			}
			for _, a := range macts() {
				if a.app == nil && a.exec == nil {
					cs = append(cs, manyCase(a, 12), manyCase(a, 150))
				}
			}
			depth := 2
			if tier != "quick" {
				depth = 3
			}
			for _, last := range macts() {
				if last.app == nil {
					cs = append(cs, historyCase(last, depth))
				}
			}
			return cs
		},
	})
	registerC18()
}

// historyCase performs the action last after up to depth others, which produce
// every message of the alphabet.
func historyCase(last mact, depth int) *Case {
	exps := msgExps(last.kind)
	acts := macts()
	return &Case{Name: "history/" + last.name, Body: func(w *Worker, c *Chooser) string {
		x := exps[c.Choose(len(exps))]
		s := newSess(appMsgs, 0)
		var hist []string
		run := func(a *mact, tag string, ex []dogma.Command, e testkit.Expectation) []dogma.Message {
			handleMsgs(s, c, a.prods[1], a.prods[1], 0)
			if a.setup != nil {
				a.setup(s)
			}
			act := a.act(s, tag, ex)
			s.clear()
			if e == nil {
				s.test.Prepare(act)
				return nil
			}
			s.test.Expect(act, e)
			counted := append([]dogma.Message(nil), s.a.produced...)
			if a.exec != nil {
				for _, m := range ex {
					counted = append(counted, m)
				}
				counted = append(counted, CF.make(Base{Tag: tag, Inst: "x"}))
			}
			return counted
		}
		for n := c.Choose(depth + 1); n > 0; n-- {
			k := c.Choose(2*len(acts) - 1)
			a := &acts[k/2]
			if a.app != nil {
				return ""
			}
			if k%2 == 0 {
				hist = append(hist, "prepare "+a.name)
				run(a, "all", a.exec, nil)
			} else {
				hist = append(hist, "expect "+a.name)
				run(a, "all", a.exec, x.e)
			}
		}
		tag := []string{"all", "none"}[c.Choose(2)]
		var ex []dogma.Command
		if tag == "all" {
			ex = last.exec
		}
		counted := run(&last, tag, ex, x.e)
		want := "fail"
		for _, m := range counted {
			if x.ok(m, sameMsg) {
				want = "pass"
			}
		}
		if got := s.verdict(); got != want {
			return fmt.Sprintf("history %v, then action %s (%s), expectation %q\nmessages that count: %s\nverdict is %s, want %s\nreports: %q\nfatal: %q",
				hist, last.name, tag, x.name, msgs(counted), got, want, s.t.reports(), s.t.fatals)
		}
		m2done(w, "history/"+last.name, c, x.name+strings.Join(hist, ";")+tag+msgs(counted)+want, len(hist)+1, func() any {
			return map[string]any{"history": hist, "expectation": x.name, "tag": tag}
		})
		return ""
	}}
}

// manyAt installs the behaviour of the handlers: a message tagged "t" produces
// n messages that are the same but for one at a chosen position, if any.
func manyAt(s *Sess, c *Chooser, alpha []dogma.Message, n int) {
	s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
		if t, found := strings.CutPrefix(tagOf(m), "sched:"); found {
			sc.Produce(TB.make(Base{Tag: t, Inst: "x"}), epoch.Add(time.Minute))
		}
		if tagOf(m) != "t" {
			return nil
		}
		var can []dogma.Message
		for _, x := range alpha {
			if h.produces(mtOf(x)) {
				can = append(can, x)
			}
		}
		if len(can) == 0 {
			return nil
		}
		x, y := can[c.Choose(len(can))], can[c.Choose(len(can))]
		at := n - 1
		if n <= 16 {
			at = c.Choose(n + 1)
		} else {
			at = []int{n, 0, 1, 9, 10, 16, 31, 32, 63, 64, 99, 100, 127, 128, n - 2, n - 1}[c.Choose(16)]
		}
		for i := range n {
			if i == at {
				sc.Produce(y, epoch.Add(time.Hour*5))
			} else {
				sc.Produce(x, epoch.Add(time.Hour*5))
			}
		}
		return nil
	}
}

// manyCase makes a handler produce n messages.
func manyCase(a mact, n int) *Case {
	exps := msgExps(a.kind)
	name := fmt.Sprintf("many/%d/%s", n, a.name)
	return &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
		x := exps[c.Choose(len(exps))]
		if !producible(appMsgs, x.t) {
			return ""
		}
		s := newSess(appMsgs, 0)
		manyAt(s, c, a.prods[1], n)
		if a.setup != nil {
			a.setup(s)
		}
		act := a.act(s, "t", nil)
		s.clear()
		s.test.Expect(act, x.e)
		counted := append([]dogma.Message(nil), s.a.produced...)
		want := "fail"
		for _, m := range counted {
			if x.ok(m, sameMsg) {
				want = "pass"
			}
		}
		if got := s.verdict(); got != want {
			return fmt.Sprintf("action %s, expectation %q\nmessages that count: %s\nverdict is %s, want %s\nreports: %q\nfatal: %q",
				a.name, x.name, msgs(counted), got, want, s.t.reports(), s.t.fatals)
		}
		m2done(w, name, c, x.name+msgs(counted)+want, 1, func() any {
			return map[string]any{"expectation": x.name, "messages": len(counted), "verdict": want}
		})
		return ""
	}}
}

func producible(a *AppSpec, t MT) bool {
	for _, h := range a.H {
		if h.produces(t) {
			return true
		}
	}
	return false
}

// onlyP is implemented by pointer messages only.
type (
	cmdP interface {
		dogma.Command
		Pointer()
	}
	evtP interface {
		dogma.Event
		Pointer()
	}
)

// pexp is a predicate-matching expectation.
type pexp struct {
	name string
	kind byte
	only bool
	fits func(m dogma.Message) bool
	mk   func(f func(m dogma.Message) error) testkit.Expectation
}

func cmdExp[T dogma.Command](name string) []pexp {
	fits := func(m dogma.Message) bool { _, ok := m.(T); return ok }
	return []pexp{
		{"any " + name, kCmd, false, fits, func(f func(m dogma.Message) error) testkit.Expectation {
			return testkit.ToExecuteCommandMatching(func(m T) error { return f(m) })
		}},
		{"only " + name, kCmd, true, fits, func(f func(m dogma.Message) error) testkit.Expectation {
			return testkit.ToOnlyExecuteCommandsMatching(func(m T) error { return f(m) })
		}},
	}
}

func evtExp[T dogma.Event](name string) []pexp {
	fits := func(m dogma.Message) bool { _, ok := m.(T); return ok }
	return []pexp{
		{"any " + name, kEvt, false, fits, func(f func(m dogma.Message) error) testkit.Expectation {
			return testkit.ToRecordEventMatching(func(m T) error { return f(m) })
		}},
		{"only " + name, kEvt, true, fits, func(f func(m dogma.Message) error) testkit.Expectation {
			return testkit.ToOnlyRecordEventsMatching(func(m T) error { return f(m) })
		}},
	}
}

func registerC18() {
	var exps []pexp
	exps = append(exps, cmdExp[Cmd[tA]]("CA")...)
	exps = append(exps, cmdExp[Cmd[tB]]("CB")...)
	exps = append(exps, cmdExp[*PCmd]("CD")...)
	exps = append(exps, cmdExp[*other.PCmd]("CG")...)
	exps = append(exps, cmdExp[dogma.Command]("command")...)
	exps = append(exps, cmdExp[cmdP]("pointer command")...)
	exps = append(exps, evtExp[Evt[tA]]("EA")...)
	exps = append(exps, evtExp[Evt[tC]]("EC")...)
	exps = append(exps, evtExp[*PEvt]("ED")...)
	exps = append(exps, evtExp[*other.PEvt]("EG")...)
	exps = append(exps, evtExp[dogma.Event]("event")...)
	exps = append(exps, evtExp[evtP]("pointer event")...)
	answers := []error{nil, errors.New("first error"), testkit.IgnoreMessage, errors.New("second error")}
	register(&Check{
		ID:   "C18",
		Rule: "all sequences of produced messages up to a length x all actions x all predicate expectations (concrete, pointer and interface type parameters) x all answers of the predicate at every call; the verdict and the calls are compared with the definition",
		Cases: func(tier string) []*Case {
			var cs []*Case
			for _, a := range bounded(tier) {
				for large := 0; large < 3; large++ {
					if large == 2 && (a.app != nil || a.exec != nil) {
						continue
					}
					cs = append(cs, &Case{Name: fmt.Sprintf("%s/%d", a.name, large), Budget: a.budget, Body: func(w *Worker, c *Chooser) string {
						var can []pexp
						for _, x := range exps {
							if x.kind == a.kind {
								can = append(can, x)
							}
						}
						x := can[c.Choose(len(can))]
						s := newSess(a.spec(), 0)
						max := a.max
						if large == 1 {
							max--
						}
						if large == 2 {
							manyAt(s, c, a.prods[0], 150)
						} else {
							handleMsgs(s, c, a.prods[large], a.prods[large], max)
						}
						if a.setup != nil {
							a.setup(s)
						}
						var exec []dogma.Command
						for i := 0; i < a.nexec; i++ {
							k := c.Choose(len(a.exec) + 1)
							if k == 0 {
								break
							}
							exec = append(exec, a.exec[k-1])
						}
						var calls []dogma.Message
						var given []error
						byType := map[MT]int{}
						e := x.mk(func(m dogma.Message) error {
							calls = append(calls, m)
							n := 3
							if large == 1 {
								n = 4
							}
							k, known := 0, false
							if large == 2 {
								// The answer depends on the message.
								k, known = byType[mtOf(m)]
							}
							if !known {
								k = c.Choose(n)
								byType[mtOf(m)] = k
							}
							v := answers[k]
							given = append(given, v)
							return v
						})
						var out []string
						for round := 0; round < 2; round++ {
							tag := "t"
							if round == 1 {
								// The same expectation again, with another action.
								tag, exec = "none", nil
							}
							act := a.act(s, tag, exec)
							s.clear()
							calls, given = nil, nil
							s.test.Expect(act, e)
							var counted []dogma.Message
							if a.exec == nil {
								counted = append(counted, s.a.produced...)
							} else {
								// The exact interleaving of executed and produced
								// messages is that of the engine's facts.
								for _, f := range s.facts {
									if ev := factEv(f); ev.K == "f.DispatchCycleBegun" {
										counted = append(counted, envelopeOf(f))
									} else if ev.C.ID != "" {
										counted = append(counted, producedOf(f))
									}
								}
							}
							// The definition.
							i := 0
							decided := false
							matched, failed := false, false
							for _, m := range counted {
								if mtOf(m).kind() != x.kind {
									continue
								}
								if !x.fits(m) {
									if x.only {
										failed, decided = true, true
									}
									continue
								}
								if i >= len(calls) {
									if decided {
										continue
									}
									return fmt.Sprintf("%s, %s: predicate was not called with %s\nmessages: %s\ncalls: %s", a.name, x.name, msgStr(m), msgs(counted), msgs(calls))
								}
								if matched && !x.only {
									return fmt.Sprintf("%s, %s: predicate was called after a match\nmessages: %s\ncalls: %s", a.name, x.name, msgs(counted), msgs(calls))
								}
								if calls[i] != m {
									return fmt.Sprintf("%s, %s: predicate was called with %s instead of %s\nmessages: %s\ncalls: %s", a.name, x.name, msgStr(calls[i]), msgStr(m), msgs(counted), msgs(calls))
								}
								switch given[i] {
								case nil:
									matched = true
									if !x.only {
										decided = true
									}
								case testkit.IgnoreMessage:
								default:
									failed = true
									if x.only {
										decided = true
									}
								}
								i++
							}
							if i != len(calls) {
								return fmt.Sprintf("%s, %s: too many predicate calls\nmessages: %s\ncalls: %s", a.name, x.name, msgs(counted), msgs(calls))
							}
							want := "fail"
							if x.only && !failed || !x.only && matched {
								want = "pass"
							}
							got := s.verdict()
							if got != want {
								return fmt.Sprintf("%s, %s: verdict is %s, want %s\nmessages: %s\ncalls: %s\nanswers: %v\nreports: %q", a.name, x.name, got, want, msgs(counted), msgs(calls), given, s.t.reports())
							}
							out = append(out, fmt.Sprintf("%s %v %s", msgs(counted), given, got))
						}
						m2done(w, a.name, c, x.name+strings.Join(out, ";"), 2+len(calls), func() any {
							return map[string]any{"expectation": x.name, "rounds": out}
						})
						return ""
					}})
				}
			}
			return cs
		},
	})
}
