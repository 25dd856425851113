package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// node is an expectation tree.
type node struct {
	op   byte // 'l' leaf, 'A' all-of, 'O' any-of, 'N' none-of, '!' not, 'R' repeatedly
	kids []*node
	leaf *leafExp
	msg  *mexp // built-in leaf
	// factory calls of a repetition, per predicate
	iter    [][]int
	nilIter int // index of a nil expectation returned by the factory, or -1
}

// Behaviours of a scripted leaf.
const (
	lPass  byte = iota // passes
	lFail              // fails
	lLate              // passes, but only once it is finalised
	lDrop              // fails, but only once it is finalised
	lError             // cannot be evaluated
	nLeaf
)

// leafExp is a user-defined expectation.
type leafExp struct {
	id    int
	b     byte
	preds []*leafPred
}

func (e *leafExp) Caption() string { return fmt.Sprintf("to meet leaf %d", e.id) }
func (e *leafExp) Predicate(s testkit.PredicateScope) (testkit.Predicate, error) {
	if e.b == lError {
		return nil, fmt.Errorf("leaf %d cannot be evaluated", e.id)
	}
	p := &leafPred{e: e}
	e.preds = append(e.preds, p)
	return p, nil
}

type leafPred struct {
	e     *leafExp
	facts []fact.Fact
	done  int
	rep   int
	ok    bool // what the report was told about the tree
	inv   bool // what the report was told about negations
	log   strings.Builder
}

func (p *leafPred) Notify(f fact.Fact) { p.facts = append(p.facts, f); p.log.WriteByte('n') }
func (p *leafPred) Ok() bool {
	switch p.e.b {
	case lPass:
		return true
	case lLate:
		return p.done > 0
	case lDrop:
		return p.done == 0
	}
	return false
}
func (p *leafPred) Done() { p.done++; p.log.WriteByte('d') }
func (p *leafPred) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	p.rep++
	p.ok, p.inv = ctx.TreeOk, ctx.IsInverted
	p.log.WriteByte('r')
	r := &testkit.Report{TreeOk: ctx.TreeOk, Ok: p.Ok(), Criteria: fmt.Sprintf("leaf %d", p.e.id)}
	if p.e.id%2 == 1 {
		r.Explanation = "some text\n✓ that looks like a report"
		r.Section("Things").AppendListItem("an item")
	}
	return r
}

func (n *node) build() testkit.Expectation {
	var kids []testkit.Expectation
	for _, k := range n.kids {
		kids = append(kids, k.build())
	}
	switch n.op {
	case 'l':
		if n.msg != nil {
			return n.msg.e
		}
		return n.leaf
	case 'A':
		return testkit.AllOf(kids...)
	case 'O':
		return testkit.AnyOf(kids...)
	case 'N':
		return testkit.NoneOf(kids...)
	case '!':
		return testkit.Not(kids[0])
	default:
		return testkit.ToRepeatedly("repeat things", len(kids), func(i int) testkit.Expectation {
			if i == 0 {
				n.iter = append(n.iter, nil)
			}
			if len(n.iter) > 0 {
				n.iter[len(n.iter)-1] = append(n.iter[len(n.iter)-1], i)
			}
			if i < 0 || i >= len(kids) || i == n.nilIter {
				return nil
			}
			return kids[i]
		})
	}
}

// told returns what is wrong with what the reports of user-defined leaves were
// told.
func (n *node) told(ok, inv bool) string {
	if n.leaf != nil {
		for _, p := range n.leaf.preds {
			if p.rep > 0 && (p.ok != ok || p.inv != inv) {
				return fmt.Sprintf("the report of leaf %d was told (tree passed %v, negated %v), want (%v, %v)", n.leaf.id, p.ok, p.inv, ok, inv)
			}
		}
	}
	if n.op == 'N' || n.op == '!' {
		inv = !inv
	}
	for _, k := range n.kids {
		if s := k.told(ok, inv); s != "" {
			return s
		}
	}
	return ""
}

// eval is the definition of the verdict.
func (n *node) eval(leaf func(n *node) bool) bool {
	pass := 0
	for _, k := range n.kids {
		if k.eval(leaf) {
			pass++
		}
	}
	switch n.op {
	case 'l':
		return leaf(n)
	case 'A', 'R':
		return pass == len(n.kids)
	case 'O':
		return pass > 0
	case 'N', '!':
		return pass == 0
	}
	panic("?")
}

// errs reports whether the tree cannot be evaluated.
func (n *node) errs() bool {
	if n.op == 'l' && n.leaf != nil && n.leaf.b == lError {
		return true
	}
	if n.op == 'R' && n.nilIter >= 0 {
		return true
	}
	for _, k := range n.kids {
		if k.errs() {
			return true
		}
	}
	return false
}

func (n *node) String() string {
	if n.op == 'l' {
		if n.msg != nil {
			return "(" + n.msg.name + ")"
		}
		return fmt.Sprintf("leaf%d:%d", n.leaf.id, n.leaf.b)
	}
	var s []string
	for _, k := range n.kids {
		s = append(s, k.String())
	}
	x := ""
	if n.op == 'R' && n.nilIter >= 0 {
		x = fmt.Sprintf("nil@%d ", n.nilIter)
	}
	return fmt.Sprintf("%c[%s%s]", n.op, x, strings.Join(s, " "))
}

func (n *node) walk(f func(n *node)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

// rline is a line of a report that carries a verdict.
type rline struct {
	depth int
	ok    bool
	text  string // for leaves
	nums  string // numbers of the outcome of a composite
}

// lines returns the verdict lines of a report on the tree.
func (n *node) lines(depth int, leaf func(n *node) bool) []rline {
	ok := n.eval(leaf)
	switch n.op {
	case 'l':
		t := ""
		if n.leaf != nil {
			t = fmt.Sprintf("leaf %d", n.leaf.id)
		}
		return []rline{{depth: depth, ok: ok, text: t}}
	case '!':
		t := ""
		if k := n.kids[0]; k.op == 'l' && k.leaf != nil {
			t = fmt.Sprintf("leaf %d", k.leaf.id)
		}
		return []rline{{depth: depth, ok: ok, text: t}}
	case 'A', 'O':
		if len(n.kids) == 1 {
			return n.kids[0].lines(depth, leaf)
		}
	case 'R':
		r := []rline{{depth, ok, "repeat things", n.outcome(ok, leaf)}}
		for _, k := range n.kids {
			if !k.eval(leaf) {
				return append(r, k.lines(depth+1, leaf)...)
			}
		}
		return r
	}
	r := []rline{{depth, ok, map[byte]string{'A': "all of", 'O': "any of", 'N': "none of"}[n.op], n.outcome(ok, leaf)}}
	for _, k := range n.kids {
		r = append(r, k.lines(depth+1, leaf)...)
	}
	return r
}

// outcome returns the numbers that the outcome of a composite mentions: how many
// children failed, or passed unexpectedly, and which one is shown.
func (n *node) outcome(ok bool, leaf func(n *node) bool) string {
	if ok {
		return ""
	}
	pass, first := 0, -1
	for i, k := range n.kids {
		if k.eval(leaf) {
			pass++
		} else if first < 0 {
			first = i
		}
	}
	switch n.op {
	case 'R':
		return fmt.Sprint([]int{len(n.kids) - pass, len(n.kids), first})
	case 'N':
		if len(n.kids) == 1 {
			return "[]"
		}
		return fmt.Sprint([]int{pass})
	}
	return fmt.Sprint([]int{len(n.kids) - pass})
}

var outcomeNumber = regexp.MustCompile("[0-9]+")

// parseReport extracts the verdict lines of a report.
func parseReport(rep string) []rline {
	var r []rline
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimLeft(l, " ")
		n := len(l) - len(t)
		var ok bool
		switch {
		case strings.HasPrefix(t, "✓ "):
			ok = true
		case strings.HasPrefix(t, "✗ "):
		default:
			continue
		}
		if n%4 != 0 {
			n = -4
		}
		nums := ""
		if _, o, ok := strings.Cut(t, " ("); ok {
			nums = fmt.Sprint(outcomeNumber.FindAllString(o, -1))
		}
		r = append(r, rline{n / 4, ok, t, nums})
	}
	return r
}

func sameLines(want, got []rline) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if want[i].depth != got[i].depth || want[i].ok != got[i].ok || !strings.Contains(got[i].text, want[i].text) || want[i].nums != got[i].nums {
			return false
		}
	}
	return true
}

// treeGen chooses expectation trees.
type treeGen struct {
	c      *Chooser
	leaves []*leafExp
	behav  []byte
	ops    []byte
	wide   int // children of a composite
	nodes  int // composites left
	leafN  int // leaves left
	share  bool
	msgs   []mexp
	nilIt  bool
}

func (g *treeGen) tree(depth int) *node {
	k := 0
	if depth > 0 && g.nodes > 0 {
		k = g.c.Choose(len(g.ops) + 1)
	}
	if k == 0 {
		return g.leaf()
	}
	n := &node{op: g.ops[k-1], nilIter: -1}
	g.nodes--
	cnt := 1
	if n.op != '!' {
		w := g.wide
		if g.leafN < w {
			w = max(g.leafN, 1)
		}
		cnt = 1 + g.c.Choose(w)
	}
	for i := 0; i < cnt; i++ {
		n.kids = append(n.kids, g.tree(depth-1))
	}
	if n.op == 'R' && g.nilIt {
		n.nilIter = g.c.Choose(cnt+1) - 1
	}
	return n
}

func (g *treeGen) leaf() *node {
	g.leafN--
	if g.msgs != nil {
		return &node{op: 'l', msg: &g.msgs[g.c.Choose(len(g.msgs))]}
	}
	if g.share && len(g.leaves) > 0 {
		if k := g.c.Choose(len(g.leaves) + 1); k > 0 {
			return &node{op: 'l', leaf: g.leaves[k-1]}
		}
	}
	l := &leafExp{id: len(g.leaves), b: g.behav[g.c.Choose(len(g.behav))]}
	g.leaves = append(g.leaves, l)
	return &node{op: 'l', leaf: l}
}

var errBoom = errors.New("boom")

// appTree is the application of the tree checks.
var appTree = app(
	HSpec{Name: "a", Kind: Agg, In: []MT{CA}, Out: []MT{EA, EB, ED}},
	HSpec{Name: "p", Kind: Proc, In: []MT{EA}, Out: []MT{CB, TA}},
	HSpec{Name: "i", Kind: Int, In: []MT{CB}, Out: []MT{EC}},
)

// treeAction returns an action; kinds: 'o' succeeds, 'e' returns an error,
// 'p' a handler panics, 'c' a call that succeeds, 'C' a call that panics, 'n'
// nothing happens.
func treeAction(kind byte, s *Sess) testkit.Action {
	switch kind {
	case 'c':
		return testkit.Call(func() { s.a.calls = append(s.a.calls, TCall{H: "call"}) })
	case 'C':
		return testkit.Call(func() { s.a.calls = append(s.a.calls, TCall{H: "call"}); panic(UserPanic{"call"}) })
	}
	return testkit.ExecuteCommand(CA.make(Base{Tag: string(kind), Inst: "x"}).(dogma.Command))
}

func newTreeSess(stop byte) *Sess {
	s := newSess(appTree, stop)
	s.test.EnableHandlers("i")
	s.a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
		tag := tagOf(m)
		switch h.Name {
		case "a":
			if tag == "n" {
				return nil
			}
			sc.Produce(EA.make(Base{Tag: tag, Inst: "x"}), epoch)
			sc.Produce(EB.make(Base{Tag: tag, Inst: "x"}), epoch)
			if tag == "m" {
				for i := 0; i < 100; i++ {
					sc.Produce(EB.make(Base{Tag: tag, Inst: "x"}), epoch)
				}
			}
		case "p":
			sc.Produce(CB.make(Base{Tag: tag, Inst: "x"}), epoch)
		case "i":
			sc.Produce(EC.make(Base{Tag: tag, Inst: "x"}), epoch)
			switch tag {
			case "e":
				return errBoom
			case "p":
				panic(UserPanic{"handler"})
			}
		}
		return nil
	}
	return s
}

var okBehav = []byte{lPass, lFail, lLate, lDrop}

func init() {
	leafOk := func(n *node) bool { return n.leaf.b == lPass || n.leaf.b == lLate }
	body := func(kind byte, stop byte, mkGen func(c *Chooser) *treeGen, depth int) func(w *Worker, c *Chooser) string {
		return func(w *Worker, c *Chooser) string {
			g := mkGen(c)
			tr := g.tree(depth)
			s := newTreeSess(stop)
			e := tr.build()
			if n := countIter(tr); n != 0 {
				return fmt.Sprintf("tree %s: factory was called %d times before the expectation is used", tr, n)
			}
			var out []string
			for round := 0; round < 2; round++ {
				s.clear()
				for _, l := range g.leaves {
					l.preds = nil
				}
				tr.walk(func(n *node) { n.iter = nil })
				pv := s.do(func() { s.test.Expect(treeAction(kind, s), e) })
				fail := func(f string, v ...any) string {
					return fmt.Sprintf("tree %s, action %c, round %d: %s\nreports: %q\nfatal: %q", tr, kind, round, fmt.Sprintf(f, v...), s.t.reports(), s.t.fatals)
				}
				performed := len(s.a.calls) > 0 || len(s.facts) > 0
				if tr.errs() {
					if performed {
						return fail("the action was performed although an expectation cannot be evaluated")
					}
					if v := s.verdict(); v != "fatal" || pv != nil {
						return fail("verdict %s (panic %v), want fatal", v, pv)
					}
					for _, l := range g.leaves {
						for _, p := range l.preds {
							if len(p.facts) != 0 || p.rep != 0 || p.done > 1 {
								return fail("leaf %d was used: %s", l.id, p.log.String())
							}
						}
					}
					out = append(out, "error")
					continue
				}
				if !performed {
					return fail("the action was not performed")
				}
				want := "fail"
				if tr.eval(leafOk) {
					want = "pass"
				}
				switch kind {
				case 'e':
					want = "fatal"
				case 'p', 'C':
					want = "inconsistent(fatal=0 failnow=0 reports=0)"
					if pv == nil {
						return fail("the panic did not propagate")
					}
				}
				if kind != 'p' && kind != 'C' && pv != nil {
					return fail("unexpected panic: %v", pv)
				}
				if v := s.verdict(); v != want {
					return fail("verdict %s, want %s", v, want)
				}
				uses := map[*leafExp]int{}
				var bad string
				tr.walk(func(n *node) {
					if n.op == 'l' {
						uses[n.leaf]++
					}
					if n.op == 'R' && n.nilIter < 0 {
						for _, it := range n.iter {
							for i, v := range it {
								if i != v {
									bad = fmt.Sprintf("the factory was called with %v", it)
								}
							}
							if len(it) != len(n.kids) {
								bad = fmt.Sprintf("the factory was called with %v", it)
							}
						}
						if len(n.iter) != 1 {
							bad = fmt.Sprintf("the factory was used %d times", len(n.iter))
						}
					}
				})
				if bad != "" {
					return fail("%s", bad)
				}
				for l, n := range uses {
					if len(l.preds) != n {
						return fail("leaf %d is used %d times but %d predicates were made", l.id, n, len(l.preds))
					}
					for _, p := range l.preds {
						if p.done != 1 {
							return fail("leaf %d was finalised %d times: %s", l.id, p.done, p.log.String())
						}
						if !sameFacts(p.facts, s.facts) {
							return fail("leaf %d saw %d facts, the action has %d (or their order differs)", l.id, len(p.facts), len(s.facts))
						}
						lg := strings.TrimLeft(p.log.String(), "n")
						if lg = strings.TrimPrefix(lg, "d"); strings.Trim(lg, "r") != "" {
							return fail("leaf %d: order of calls: %s", l.id, p.log.String())
						}
					}
				}
				out = append(out, want)
			}
			m2done(w, fmt.Sprintf("%c", kind), c, tr.String()+strings.Join(out, ","), len(out)*len(s.facts), func() any {
				return map[string]any{"tree": tr.String(), "action": string(kind), "verdicts": out}
			})
			return ""
		}
	}
	register(&Check{
		ID:   "C19",
		Rule: "all expectation trees up to a bound on nesting, composites and children x all behaviours of every leaf x all outcomes of the action, each used twice; verdict, order and number of the calls of every leaf and the facts it saw are compared with the definition",
		Cases: func(tier string) []*Case {
			q := tier == "quick"
			ops := []byte{'A', 'O', 'N', '!', 'R'}
			var cs []*Case
			add := func(name string, kind byte, stop byte, depth int, mk func(c *Chooser) *treeGen) {
				cs = append(cs, &Case{Name: name, Body: body(kind, stop, mk, depth)})
			}
			add("deep", 'o', 0, 3, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: okBehav[:2], wide: 2, nodes: 3, leafN: tierN(tier, 3, 4)}
			})
			add("wide", 'o', 0, 1, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: okBehav, wide: tierN(tier, 5, 6), nodes: 1, leafN: 6}
			})
			add("late", 'o', 0, 2, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: okBehav, wide: tierN(tier, 2, 3), nodes: 2, leafN: 3, share: !q}
			})
			add("shared", 'c', 0, 2, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: okBehav[:2], wide: 3, nodes: 2, leafN: 4, share: true}
			})
			for _, k := range []byte{'e', 'p', 'C', 'c', 'n'} {
				for _, stop := range []byte{0, 'p', 'g'} {
					add(fmt.Sprintf("action/%c/%c", k, '0'+stop), k, stop, 2, func(c *Chooser) *treeGen {
						return &treeGen{c: c, ops: ops, behav: okBehav[:2], wide: 2, nodes: 2, leafN: 2}
					})
				}
			}
			add("errors", 'o', 0, 2, func(c *Chooser) *treeGen {
				return &treeGen{c: c, ops: ops, behav: []byte{lPass, lFail, lError}, wide: 3, nodes: 2, leafN: 4, nilIt: true}
			})
			// Built-in leaves, shared and used by several actions in turn.
			cs = append(cs, &Case{Name: "stateless", Body: func(w *Worker, c *Chooser) string {
				x := Base{Tag: "o", Inst: "x"}
				leaves := []mexp{msgExp(EA, x), msgExp(CB, x), msgExp(ED, x),
					{"any EB", EB, testkit.ToRecordEventType[Evt[tB]](), func(m dogma.Message, _ func(a, b dogma.Message) bool) bool { return mtOf(m) == EB }},
					{"matching event", EB, testkit.ToRecordEventMatching(func(m dogma.Event) error { return nil }), func(m dogma.Message, _ func(a, b dogma.Message) bool) bool { return mtOf(m).kind() == kEvt }},
				}
				g := &treeGen{c: c, ops: ops, wide: 2, nodes: 2, leafN: 3, msgs: leaves}
				tr := g.tree(2)
				s := newTreeSess(0)
				e := tr.build()
				var out []string
				for _, k := range []byte{'o', 'n', 'o', 'n'} {
					s.clear()
					s.test.Expect(treeAction(k, s), e)
					want := "fail"
					if tr.eval(func(n *node) bool {
						for _, m := range s.a.produced {
							if n.msg.ok(m, sameMsg) {
								return true
							}
						}
						return false
					}) {
						want = "pass"
					}
					if v := s.verdict(); v != want {
						return fmt.Sprintf("tree %s, action %c: verdict %s, want %s\nmessages: %s\nreports: %q", tr, k, v, want, msgs(s.a.produced), s.t.reports())
					}
					out = append(out, want)
				}
				m2done(w, "stateless", c, tr.String()+strings.Join(out, ","), len(out), func() any { return map[string]any{"tree": tr.String(), "verdicts": out} })
				return ""
			}})
			// Many children.
			for _, op := range ops {
				if op == '!' {
					continue
				}
				for _, n := range []int{7, 8, 33, 100, 300} {
					cs = append(cs, &Case{Name: fmt.Sprintf("many/%c/%d", op, n), Budget: 2, Body: func(w *Worker, c *Chooser) string {
						base := []byte{lPass, lFail}[c.Choose(2)]
						tr := &node{op: op, nilIter: -1}
						for i := 0; i < n; i++ {
							b := base
							if i < 3 || i > n-4 || i == n/2 {
								if c.Dev(2) == 1 {
									b = lPass + lFail - base
								}
							}
							tr.kids = append(tr.kids, &node{op: 'l', leaf: &leafExp{id: i, b: b}})
						}
						s := newTreeSess(0)
						s.test.Expect(treeAction('o', s), tr.build())
						want := "fail"
						if tr.eval(leafOk) {
							want = "pass"
						}
						if v := s.verdict(); v != want {
							return fmt.Sprintf("tree %s: verdict %s, want %s", tr, v, want)
						}
						for _, k := range tr.kids {
							for _, p := range k.leaf.preds {
								if p.done != 1 || !sameFacts(p.facts, s.facts) {
									return fmt.Sprintf("tree %s: leaf %d saw %d facts and was finalised %d times, the action has %d facts", tr, k.leaf.id, len(p.facts), p.done, len(s.facts))
								}
							}
							if n := len(k.leaf.preds); n != 1 {
								return fmt.Sprintf("tree %s: leaf %d was evaluated by %d predicates", tr, k.leaf.id, n)
							}
						}
						m2done(w, "many", c, tr.String(), 1, func() any { return tr.String() })
						return ""
					}})
				}
			}
			return cs
		},
	})
	registerC21(body, leafOk)
}

func countIter(n *node) int {
	k := 0
	n.walk(func(n *node) { k += len(n.iter) })
	return k
}
