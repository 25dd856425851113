package main

import (
	"fmt"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
)

func registerC21(_ func(byte, byte, func(*Chooser) *treeGen, int) func(*Worker, *Chooser) string, leafOk func(*node) bool) {
	ops := []byte{'A', 'O', 'N', '!', 'R'}
	reportOf := func(name string, choose func(c *Chooser) (*treeGen, *node)) *Case {
		return &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
			g, tr := choose(c)
			s := newTreeSess(0)
			kind := byte('o')
			s.test.Expect(treeAction(kind, s), tr.build())
			ok := leafOk
			if g.msgs != nil {
				ok = func(n *node) bool {
					for _, m := range s.a.produced {
						if n.msg.ok(m, sameMsg) {
							return true
						}
					}
					return false
				}
			}
			fail := func(f string, v ...any) string {
				return fmt.Sprintf("tree %s: %s\nreports: %q\nfatal: %q", tr, fmt.Sprintf(f, v...), s.t.reports(), s.t.fatals)
			}
			want := "fail"
			if tr.eval(ok) {
				want = "pass"
			}
			if v := s.verdict(); v != want {
				return fail("verdict %s, want %s", v, want)
			}
			rep := s.t.reports()[0]
			first := strings.SplitN(rep, "\n", 2)[0]
			sym := "✗ "
			if want == "pass" {
				sym = "✓ "
			}
			if !strings.HasPrefix(first, sym) {
				return fail("the first line does not carry the verdict %s", want)
			}
			wl, gl := tr.lines(0, ok), parseReport(rep)
			if !sameLines(wl, gl) {
				return fail("verdict lines %v, want %v", gl, wl)
			}
			if s := tr.told(want == "pass", false); s != "" {
				return fail("%s", s)
			}
			if want == "pass" && g.msgs != nil {
				for _, k := range []string{"EXPLANATION", "SUGGESTIONS", "MESSAGE DIFF", "FAILED MATCHES"} {
					if strings.Contains(rep, k) {
						return fail("the report of a passing tree contains %s", k)
					}
				}
			}
			m2done(w, name, c, tr.String()+want, len(gl), func() any { return map[string]any{"tree": tr.String(), "verdict": want} })
			return ""
		}}
	}
	report := func(name string, depth int, mk func(c *Chooser) *treeGen) *Case {
		return reportOf(name, func(c *Chooser) (*treeGen, *node) {
			g := mk(c)
			return g, g.tree(depth)
		})
	}
	register(&Check{
		ID:   "C21",
		Rule: "all expectation trees up to a bound x all leaf verdicts, with the report compared line by line with the definition; all sequences of succeeding, failing and panicking actions x all ways the testing interface stops a test; all pairs of message contents in a diff",
		Cases: func(tier string) []*Case {
			var cs []*Case
			cs = append(cs, report("tree/deep", 3, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: okBehav[:2], wide: 2, nodes: 3, leafN: tierN(tier, 3, 4)}
			}))
			cs = append(cs, report("tree/wide", 2, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: okBehav[:2], wide: 3, nodes: 2, leafN: tierN(tier, 4, 5)}
			}))
			cs = append(cs, report("tree/late", 2, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: okBehav, wide: 2, nodes: 2, leafN: 3}
			}))
			x, y := Base{Tag: "o", Inst: "x"}, Base{Tag: "other", Inst: "x"}
			leaves := []mexp{msgExp(EA, x), msgExp(EA, y), msgExp(ED, x),
				{"any EB", EB, testkit.ToRecordEventType[Evt[tB]](), func(m dogma.Message, _ func(a, b dogma.Message) bool) bool { return mtOf(m) == EB }},
				{"any ED", ED, testkit.ToRecordEventType[*PEvt](), func(m dogma.Message, _ func(a, b dogma.Message) bool) bool { return mtOf(m) == ED }},
				{"no match", EA, testkit.ToRecordEventMatching(func(m Evt[tA]) error { return errBoom }), func(m dogma.Message, _ func(a, b dogma.Message) bool) bool { return false }},
			}
			cs = append(cs, report("tree/messages", 2, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, wide: 2, nodes: tierN(tier, 2, 3), leafN: 3, msgs: leaves}
			}))
			// Many children, a range of which fails.
			for _, n := range []int{5, 12, tierN(tier, 40, 130), 300} {
				cs = append(cs, reportOf(fmt.Sprintf("tree/many/%d", n), func(c *Chooser) (*treeGen, *node) {
					tr := &node{op: "AONR"[c.Choose(4)], nilIter: -1}
					var from, to int
					if n < 200 {
						from = c.Choose(n + 1)
						to = from + c.Choose(n+1-from)
					} else {
						pos := []int{0, 1, n / 2, n - 2, n - 1, n}
						i := c.Choose(len(pos))
						from, to = pos[i], pos[i+c.Choose(len(pos)-i)]
					}
					for i := 0; i < n; i++ {
						b := lPass
						if i >= from && i < to {
							b = lFail
						}
						tr.kids = append(tr.kids, &node{op: 'l', leaf: &leafExp{id: i, b: b}, nilIter: -1})
					}
					if c.Bool() {
						tr = &node{op: "N!"[c.Choose(2)], kids: []*node{tr}, nilIter: -1}
					}
					return &treeGen{}, tr
				}))
			}
			cs = append(cs, outcomes(tier)...)
			cs = append(cs, diffs(tier)...)
			return cs
		},
	})
}

// outcomes enumerates sequences of Prepare and Expect calls.
func outcomes(tier string) []*Case {
	var cs []*Case
	for _, stop := range []byte{0, 'p', 'g'} {
		cs = append(cs, &Case{Name: fmt.Sprintf("sequence/%c", '0'+stop), Body: func(w *Worker, c *Chooser) string {
			s := newTreeSess(stop)
			n := 1 + c.Choose(tierN(tier, 2, 3))
			type step struct {
				prepare []byte
				kind    byte
				leaf    byte
			}
			var steps []step
			for i := 0; i < n; i++ {
				if c.Bool() {
					st := step{}
					for k := 1 + c.Choose(tierN(tier, 2, 3)); k > 0; k-- {
						st.prepare = append(st.prepare, "oecC"[c.Choose(4)])
					}
					steps = append(steps, st)
				} else {
					steps = append(steps, step{kind: "oecC"[c.Choose(4)], leaf: []byte{lPass, lFail, lError}[c.Choose(3)]})
				}
			}
			// What has to be reported.
			var want []string
			performed := 0
			stopped, panicked := false, false
			act := func(k byte) bool { // performs an action
				performed++
				switch k {
				case 'e':
					want = append(want, "fatal")
					stopped = stop != 0
				case 'C':
					panicked = true
				}
				return !stopped && !panicked
			}
			for _, st := range steps {
				if stopped || panicked {
					break
				}
				if st.prepare != nil {
					for _, k := range st.prepare {
						if !act(k) {
							break
						}
					}
					continue
				}
				if st.leaf == lError {
					want = append(want, "fatal")
					stopped = stop != 0
					continue
				}
				if st.kind == 'e' {
					act('e')
					continue
				}
				if !act(st.kind) {
					continue
				}
				want = append(want, "report")
				if st.leaf == lFail {
					want = append(want, "failnow")
					stopped = stop != 0
				}
			}
			done, other := 0, 0
			pv := s.do(func() {
				for _, st := range steps {
					if st.prepare != nil {
						var as []testkit.Action
						for _, k := range st.prepare {
							as = append(as, &countAction{treeAction(k, s), &done})
						}
						if s.test.Prepare(as...) != s.test {
							other++
						}
						continue
					}
					if s.test.Expect(&countAction{treeAction(st.kind, s), &done}, &leafExp{b: st.leaf}) != s.test {
						other++
					}
				}
			})
			var got []string
			li := 0
			for _, k := range s.t.order {
				if k == "log" {
					if strings.HasPrefix(s.t.logs[li], "--- TEST REPORT ---\n") {
						got = append(got, "report")
					}
					li++
					continue
				}
				got = append(got, k)
			}
			if strings.Join(got, " ") != strings.Join(want, " ") || done != performed || (pv != nil) != panicked {
				return fmt.Sprintf("steps %q (stop=%q): reported %v, want %v; %d actions performed, want %d; panic %v", steps, stop, got, want, done, performed, pv)
			}
			if other > 0 {
				return fmt.Sprintf("steps %q (stop=%q): %d calls did not return the test", steps, stop, other)
			}
			m2done(w, "sequence", c, fmt.Sprint(steps, got), len(steps), func() any { return map[string]any{"steps": fmt.Sprintf("%q", steps), "reported": got} })
			return ""
		}})
	}
	return cs
}

// countAction counts how often an action is performed.
type countAction struct {
	testkit.Action
	n *int
}

func (a *countAction) Do(ctx contextT, s testkit.ActionScope) error {
	*a.n++
	return a.Action.Do(ctx, s)
}

// diffs enumerates pairs of messages shown in a diff.
func diffs(tier string) []*Case {
	long := strings.Repeat("lorem ipsum ", 30)
	contents := []string{"", "a", "b", "ab", "abc def", "été ✓", "x\ny", "  ", `quo"te`, "a's", long, long + "!", "12345678901234567890", strings.ToUpper(long)}
	return []*Case{{Name: "diff", Body: func(w *Worker, c *Chooser) string {
		t := []MT{EA, ED}[c.Choose(2)]
		want := Base{Tag: contents[c.Choose(len(contents))], Inst: "x"}
		got := Base{Tag: contents[c.Choose(len(contents))], Inst: []string{"x", "other instance"}[c.Choose(2)]}
		nest := c.Choose(3)
		if want == got {
			return ""
		}
		s := newSess(appTree, 0)
		s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
			if h.Name == "a" {
				sc.Produce(t.make(got), epoch)
			}
			return nil
		}
		e := msgExp(t, want).e
		switch nest {
		case 1:
			e = testkit.AllOf(e, testkit.ToRecordEventType[Evt[tB]]())
		case 2:
			e = testkit.ToRepeatedly("do it", 2, func(int) testkit.Expectation { return msgExp(t, want).e })
		}
		s.test.Expect(treeAction('o', s), e)
		if v := s.verdict(); v != "fail" {
			return fmt.Sprintf("expected %s, produced %s: verdict %s", mStr(t, want), mStr(t, got), v)
		}
		rep := s.t.reports()[0]
		_, d, ok := strings.Cut(rep, "MESSAGE DIFF\n")
		if !ok {
			return fmt.Sprintf("expected %s, produced %s: no diff in report %q", mStr(t, want), mStr(t, got), rep)
		}
		var lines []string
		for _, l := range strings.Split(d, "\n") {
			_, l, ok := strings.Cut(l, "|     ")
			if !ok {
				break
			}
			lines = append(lines, l)
		}
		d = strings.Join(lines, "\n")
		sides := [2]string{undiff(d, "{+", "+}", "[-", "-]"), undiff(d, "[-", "-]", "{+", "+}")}
		for i, b := range []Base{want, got} {
			for _, f := range []string{b.Tag, b.Inst} {
				if !strings.Contains(sides[i], fmt.Sprintf("%q", f)) {
					return fmt.Sprintf("expected %s, produced %s: %q is missing from side %d of the diff %q", mStr(t, want), mStr(t, got), f, i, d)
				}
			}
		}
		m2done(w, "diff", c, d, 1, func() any { return map[string]any{"expected": mStr(t, want), "produced": mStr(t, got)} })
		return ""
	}}}
}

// undiff removes one side of a diff.
func undiff(d, dropL, dropR, keepL, keepR string) string {
	var b strings.Builder
	for d != "" {
		switch {
		case strings.HasPrefix(d, dropL):
			i := strings.Index(d, dropR)
			if i < 0 {
				return b.String() + d
			}
			d = d[i+len(dropR):]
		case strings.HasPrefix(d, keepL):
			d = d[len(keepL):]
		case strings.HasPrefix(d, keepR):
			d = d[len(keepR):]
		default:
			b.WriteByte(d[0])
			d = d[1:]
		}
	}
	return b.String()
}
