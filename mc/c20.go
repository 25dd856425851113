package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// Statements of a program that runs inside a user-defined expectation.
const (
	pLog = iota
	pFail
	pFailNow
	pSkipNow
	pPanic
	pLogf
	pError
	pErrorf
	pFatal
	pFatalf
	pSkip
	pSkipf
	pCleanup // registers a program as cleanup function
	pCall1   // calls a function
	pCall1H  // calls a function that marks itself as a helper
	pCall2
	pCall2H
)

var pNames = []string{"Log", "Fail", "FailNow", "SkipNow", "panic", "Logf", "Error", "Errorf", "Fatal", "Fatalf", "Skip", "Skipf", "Cleanup", "call1", "helper1", "call2", "helper2"}

type stmt struct {
	op   int
	via  bool // the call is made by a helper
	body []*stmt
	text string
}

func (s *stmt) String() string {
	r := pNames[s.op]
	if s.via {
		r += "(via helper)"
	}
	if s.text != "" {
		r += fmt.Sprintf("%q", s.text)
	}
	if s.op >= pCleanup {
		r += progStr(s.body)
	}
	return r
}

func progStr(p []*stmt) string {
	var r []string
	for _, s := range p {
		r = append(r, s.String())
	}
	return "{" + strings.Join(r, "; ") + "}"
}

// ---- execution on the real assertion object ----

// satRun executes programs and records what happens.
type satRun struct {
	t      *testkit.SatisfyT
	trace  []string
	frames []satFrame
	first  string // location of the first failure or skip, by definition
	help   map[string]bool
	facts  []fact.Fact
	runs   int
	opts   bool // the options say that dispatched messages count
}

// satFrame is a frame of the program.
type satFrame struct {
	fn   string
	line int
}

//go:noinline
func (r *satRun) at(fn string) *satRun {
	_, _, l, _ := runtime.Caller(1)
	r.frames[len(r.frames)-1] = satFrame{fn, l}
	return r
}

// here is used where direct calls a method that fails or skips.
//
//go:noinline
func (r *satRun) here() *testkit.SatisfyT {
	_, _, l, _ := runtime.Caller(1)
	r.frames[len(r.frames)-1] = satFrame{"direct", l}
	r.happened()
	return r.t
}

// happened determines where the first failure or skip has to be reported.
func (r *satRun) happened() {
	if r.first != "" {
		return
	}
	for i := len(r.frames) - 1; i >= 0; i-- {
		if !r.help[r.frames[i].fn] || i == 0 {
			r.first = fmt.Sprintf("c20.go:%d", r.frames[i].line)
			return
		}
	}
}

func (r *satRun) push()           { r.frames = append(r.frames, satFrame{}) }
func (r *satRun) pop()            { r.frames = r.frames[:len(r.frames)-1] }
func (r *satRun) ev(f string)     { r.trace = append(r.trace, f) }
func (r *satRun) helper(f string) { r.help[f] = true }

// exec executes a program. It is itself a helper.
//
//go:noinline
func (r *satRun) exec(p []*stmt) {
	r.t.Helper()
	for _, s := range p {
		r.ev("@" + strconv.FormatBool(r.t.Failed()) + strconv.FormatBool(r.t.Skipped()))
		switch s.op {
		case pCleanup:
			r.t.Cleanup(func() {
				r.ev("cleanup")
				old := r.frames
				r.frames = nil
				r.push()
				defer func() { r.frames = old; r.ev("end") }()
				r.at("cleanup").exec(s.body)
			})
		case pCall1:
			r.call1(s.body, false)
		case pCall1H:
			r.call1(s.body, true)
		case pCall2:
			r.call2(s.body, false)
		case pCall2H:
			r.call2(s.body, true)
		case pPanic:
			r.ev("panic")
			panic(UserPanic{"user " + s.text})
		default:
			r.ev(pNames[s.op])
			if s.via {
				r.t.Helper()
				r.indirect(s)
			} else {
				r.direct(s)
			}
		}
		r.ev("next")
	}
}

//go:noinline
func (r *satRun) call1(p []*stmt, h bool) {
	r.push()
	defer r.pop()
	if h {
		r.t.Helper()
		r.helper("call1")
	}
	r.at("call1").exec(p)
}

//go:noinline
func (r *satRun) call2(p []*stmt, h bool) {
	r.push()
	defer r.pop()
	if h {
		r.t.Helper()
		r.helper("call2")
	}
	r.at("call2").exec(p)
}

// direct calls a method of the assertion object; it is not a helper.
//
//go:noinline
func (r *satRun) direct(s *stmt) {
	t := r.t
	r.push()
	defer r.pop()
	switch s.op {
	case pLog:
		t.Log(s.text)
	case pLogf:
		t.Logf("%s", s.text)
	case pFail:
		r.here().Fail()
	case pFailNow:
		r.here().FailNow()
	case pSkipNow:
		r.here().SkipNow()
	case pError:
		r.here().Error(s.text)
	case pErrorf:
		r.here().Errorf("%s", s.text)
	case pFatal:
		r.here().Fatal(s.text)
	case pFatalf:
		r.here().Fatalf("%s", s.text)
	case pSkip:
		r.here().Skip(s.text)
	case pSkipf:
		r.here().Skipf("%s", s.text)
	}
}

// indirect is like direct, but a helper.
//
//go:noinline
func (r *satRun) indirect(s *stmt) {
	t := r.t
	t.Helper()
	r.happenedIf(s)
	switch s.op {
	case pLog:
		t.Log(s.text)
	case pLogf:
		t.Logf("%s", s.text)
	case pFail:
		t.Fail()
	case pFailNow:
		t.FailNow()
	case pSkipNow:
		t.SkipNow()
	case pError:
		t.Error(s.text)
	case pErrorf:
		t.Errorf("%s", s.text)
	case pFatal:
		t.Fatal(s.text)
	case pFatalf:
		t.Fatalf("%s", s.text)
	case pSkip:
		t.Skip(s.text)
	case pSkipf:
		t.Skipf("%s", s.text)
	}
}

func (r *satRun) happenedIf(s *stmt) {
	if s.op != pLog && s.op != pLogf {
		r.happened()
	}
}

// ---- the model ----

// satModel is the definition of the behaviour of a program.
type satModel struct {
	trace           []string
	failed, skipped bool
	logs            []string
	cleanup         [][]*stmt
	panics          map[string]bool
}

// run executes a program; the result says how it ended: 0, 'a' abort, 'p' panic.
func (m *satModel) run(p []*stmt) byte {
	for _, s := range p {
		m.trace = append(m.trace, "@"+strconv.FormatBool(m.failed)+strconv.FormatBool(m.skipped))
		var end byte
		switch s.op {
		case pCleanup:
			m.cleanup = append(m.cleanup, s.body)
		case pCall1, pCall1H, pCall2, pCall2H:
			end = m.run(s.body)
		default:
			m.trace = append(m.trace, pNames[s.op])
			switch s.op {
			case pPanic:
				m.panics["user "+s.text] = true
				end = 'p'
			case pLog, pLogf:
			case pFail, pError, pErrorf:
				m.failed = true
			case pFailNow, pFatal, pFatalf:
				m.failed = true
				end = 'a'
			default:
				m.skipped = true
				end = 'a'
			}
			switch s.op {
			case pLog, pLogf, pError, pErrorf, pFatal, pFatalf, pSkip, pSkipf:
				m.logs = append(m.logs, s.text)
			}
		}
		if end != 0 {
			return end
		}
		m.trace = append(m.trace, "next")
	}
	return 0
}

func (m *satModel) all(p []*stmt) {
	m.run(p)
	m.trace = append(m.trace, "returned")
	for len(m.cleanup) > 0 {
		n := len(m.cleanup) - 1
		fn := m.cleanup[n]
		m.cleanup = m.cleanup[:n]
		m.trace = append(m.trace, "cleanup")
		m.run(fn)
		m.trace = append(m.trace, "end")
	}
}

// ---- generation ----

type satGen struct {
	c     *Chooser
	ops   []int // simple statements
	via   bool  // simple statements may be made via a helper
	comp  []int // composite statements
	nodes int
	n     int
}

// prog chooses a program. The number of statements is bounded by g.nodes.
func (g *satGen) prog() []*stmt {
	var p []*stmt
	for g.nodes > 0 {
		k := g.c.Choose(1 + len(g.ops) + len(g.comp))
		if k == 0 {
			break
		}
		g.nodes--
		k--
		if k >= len(g.ops) {
			s := &stmt{op: g.comp[k-len(g.ops)]}
			s.body = g.prog()
			p = append(p, s)
			continue
		}
		g.n++
		s := &stmt{op: g.ops[k], text: fmt.Sprintf("text %d", g.n)}
		if g.via && s.op != pPanic && s.op != pLog {
			s.via = g.c.Bool()
		}
		p = append(p, s)
		switch s.op {
		case pFailNow, pSkipNow, pPanic, pFatal, pFatalf, pSkip, pSkipf:
			// What follows is not executed; one statement shows it.
			g.n++
			p = append(p, &stmt{op: pLog, text: fmt.Sprintf("unreachable %d", g.n)})
			return p
		}
	}
	return p
}

func satCheck(w *Worker, c *Chooser, name string, prog []*stmt, kind byte, wrap byte, predHelper bool) string {
	s := newTreeSess(0)
	r := &satRun{help: map[string]bool{}}
	e := testkit.ToSatisfy("do the thing", func(t *testkit.SatisfyT) {
		*r = satRun{help: map[string]bool{}, t: t, facts: append([]fact.Fact(nil), t.Facts...), runs: r.runs + 1, opts: t.Options.MatchDispatchCycleStartedFacts}
		r.push()
		defer r.ev("returned")
		if predHelper {
			t.Helper()
			r.helper("pred")
		}
		r.at("pred").exec(prog)
	})
	switch wrap {
	case '!':
		e = testkit.Not(e)
	case '0':
		e = testkit.NoneOf(e)
	case 'A':
		e = testkit.AllOf(&leafExp{b: lPass}, e)
	case 'a':
		e = testkit.AllOf(&leafExp{b: lFail}, e)
	case 'O':
		e = testkit.AnyOf(e, &leafExp{b: lPass})
	}
	m := &satModel{panics: map[string]bool{}}
	m.all(prog)
	fail := func(f string, v ...any) string {
		return fmt.Sprintf("program %s (action %c, within %q, helper %v): %s\nreports: %q\nfatal: %q", progStr(prog), kind, wrap, predHelper, fmt.Sprintf(f, v...), s.t.reports(), s.t.fatals)
	}
	for round := 1; round <= 2; round++ {
		s.clear()
		pv := s.do(func() { s.test.Expect(treeAction(kind, s), e) })
		if r.runs != round {
			return fail("the function was called %d times in %d rounds", r.runs, round)
		}
		if got, want := strings.Join(r.trace, " "), strings.Join(m.trace, " "); got != want {
			return fail("behaviour\n  %s\nwant\n  %s", got, want)
		}
		if r.opts != (kind == 'c' || kind == 'C') {
			return fail("the function was given the options of another action")
		}
		if !sameFacts(r.facts, s.facts) {
			return fail("the function saw %d facts of %d", len(r.facts), len(s.facts))
		}
		if len(m.panics) > 0 || kind == 'p' || kind == 'C' {
			if pv == nil {
				return fail("the panic did not propagate")
			}
			if len(m.panics) > 0 && kind != 'p' && kind != 'C' {
				if u, ok := pv.(UserPanic); !ok || !m.panics[u.S] {
					return fail("the panic that propagated is %v", pv)
				}
			}
			if v := s.verdict(); v != "inconsistent(fatal=0 failnow=0 reports=0)" {
				return fail("verdict %s", v)
			}
			continue
		}
		if pv != nil {
			return fail("unexpected panic %v", pv)
		}
		ok := m.skipped || !m.failed
		pass := ok
		switch wrap {
		case '!', '0':
			pass = !ok
		case 'a':
			pass = false
		case 'O':
			pass = true
		}
		want := "fail"
		if pass {
			want = "pass"
		}
		if kind == 'e' {
			want = "fatal"
		}
		if v := s.verdict(); v != want {
			return fail("verdict %s, want %s", v, want)
		}
		if kind == 'e' {
			continue
		}
		rep := s.t.reports()[0]
		if wrap == '!' {
			continue
		}
		var line string
		for _, line = range strings.Split(rep, "\n") {
			if strings.Contains(line, "do the thing") {
				break
			}
		}
		if strings.Contains(line, "skipped") != m.skipped || strings.Contains(line, "failed") != (m.failed && !m.skipped) {
			return fail("outcome %q", line)
		}
		if wrap == '0' && !ok {
			// Whether more is said about an expectation that had to fail is
			// not specified.
			continue
		}
		if strings.Contains(rep, ".go:") != (m.failed || m.skipped) {
			return fail("location")
		}
		if (m.failed || m.skipped) && !strings.Contains(rep, r.first+"\n") {
			return fail("location, want %s", r.first)
		}
		var logs []string
		if _, l, ok := strings.Cut(rep, "LOG MESSAGES\n"); ok {
			for _, l := range strings.Split(l, "\n") {
				_, t, ok := strings.Cut(l, "|     ")
				if !ok {
					break
				}
				logs = append(logs, t)
			}
		}
		if strings.Join(logs, "\n") != strings.Join(m.logs, "\n") {
			return fail("log messages %q, want %q", logs, m.logs)
		}
	}
	m2done(w, name, c, strings.Join(r.trace, " ")+r.first+strings.Join(m.logs, ","), len(r.trace), func() any {
		return map[string]any{"program": progStr(prog), "location": r.first}
	})
	return ""
}

func init() {
	register(&Check{
		ID:   "C20",
		Rule: "all programs over the assertion object up to a number of statements, with cleanup functions and (helper) function calls nested arbitrarily, x outcomes of the action; calls, order, verdict, log and location are compared with an interpreter",
		Assumptions: []string{
			"the chain of helper functions is shorter than 40 frames",
			"a cleanup function is not itself marked as a helper",
			"when several functions panic it is not specified which panic propagates",
		},
		Cases: func(tier string) []*Case {
			var cs []*Case
			simple := []int{pLog, pFail, pFailNow, pSkipNow, pPanic}
			every := []int{pLog, pFail, pFailNow, pSkipNow, pPanic, pLogf, pError, pErrorf, pFatal, pFatalf, pSkip, pSkipf}
			comp := []int{pCleanup, pCall1, pCall1H, pCall2, pCall2H}
			add := func(name string, kind, wrap byte, ph bool, mk func(c *Chooser) *satGen) {
				cs = append(cs, &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
					return satCheck(w, c, name, mk(c).prog(), kind, wrap, ph)
				}})
			}
			for _, ph := range []bool{false, true} {
				add(fmt.Sprintf("nested/helper=%v", ph), 'c', 0, ph, func(c *Chooser) *satGen {
					return &satGen{c: c, ops: simple, comp: comp, nodes: tierN(tier, 4, 5)}
				})
				add(fmt.Sprintf("via/helper=%v", ph), 'c', 0, ph, func(c *Chooser) *satGen {
					return &satGen{c: c, ops: []int{pFail, pFailNow, pSkipNow}, via: true, comp: comp[1:], nodes: tierN(tier, 4, 5)}
				})
			}
			add("cleanup", 'c', 0, false, func(c *Chooser) *satGen {
				return &satGen{c: c, ops: simple, comp: []int{pCleanup}, nodes: tierN(tier, 6, 7)}
			})
			add("flat", 'c', 0, false, func(c *Chooser) *satGen {
				return &satGen{c: c, ops: every, via: true, comp: []int{pCleanup}, nodes: tierN(tier, 3, 4)}
			})
			for _, k := range []byte("!0AaO") {
				add(fmt.Sprintf("within/%c", k), 'c', k, false, func(c *Chooser) *satGen {
					return &satGen{c: c, ops: every, comp: []int{pCleanup}, nodes: 3}
				})
			}
			for _, k := range []byte{'o', 'e', 'p', 'C', 'n'} {
				add(fmt.Sprintf("action/%c", k), k, 0, false, func(c *Chooser) *satGen {
					return &satGen{c: c, ops: simple, comp: []int{pCleanup}, nodes: 3}
				})
			}
			// Many cleanup functions, deep helper chains.
			for _, n := range []int{1, 2, 5, 10, 18} {
				cs = append(cs, &Case{Name: fmt.Sprintf("deep/%d", n), Body: func(w *Worker, c *Chooser) string {
					ops := []int{pFail, pFailNow, pSkipNow}
					inner := []*stmt{{op: ops[c.Choose(len(ops))], via: c.Bool()}}
					// Only the outermost calls differ.
					out := c.Choose(n + 1)
					for i := 0; i < n; i++ {
						op := pCall1H
						if i >= out {
							op = pCall2
						}
						inner = []*stmt{{op: op, body: inner}}
					}
					ph := c.Bool()
					return satCheck(w, c, "deep", inner, 'c', 0, ph)
				}})
				cs = append(cs, &Case{Name: fmt.Sprintf("many-facts/%d", n), Body: func(w *Worker, c *Chooser) string {
					var p []*stmt
					for i := 0; i < n*n; i++ {
						p = append(p, &stmt{op: pLog, text: fmt.Sprintf("message %d", i)})
					}
					p = append(p, &stmt{op: []int{pFail, pFailNow, pSkipNow, pLog}[c.Choose(4)], text: "last"})
					return satCheck(w, c, "many-facts", p, "moc"[c.Choose(3)], 0, false)
				}})
				cs = append(cs, &Case{Name: fmt.Sprintf("many/%d", n), Budget: 2, Body: func(w *Worker, c *Chooser) string {
					var p []*stmt
					for i := 0; i < n; i++ {
						b := []*stmt{{op: pLog, text: fmt.Sprintf("cleanup %d", i)}}
						if i < 3 || i > n-3 || i == n/2 {
							if k := c.Dev(5); k > 0 {
								b = append(b, &stmt{op: []int{pFail, pFailNow, pSkipNow, pPanic}[k-1], text: fmt.Sprint(i)})
							}
						}
						p = append(p, &stmt{op: pCleanup, body: b})
					}
					return satCheck(w, c, "many", p, 'c', 0, false)
				}})
			}
			return cs
		},
	})
}
