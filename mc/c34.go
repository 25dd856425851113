package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/fact"
)

// repLine is something added to a section.
type repLine struct {
	f    string
	args []any
	item bool
}

func (l repLine) text() string {
	s := fmt.Sprintf(l.f, l.args...)
	if l.item {
		s = "• " + s
	}
	return s
}

// repSpec describes a report.
type repSpec struct {
	ok                    bool
	crit, outcome, explan string
	adds                  []repAdd
	subs                  []*repSpec
}

type repAdd struct {
	title string
	lines []repLine
}

func (x *repSpec) build(treeOk bool) *testkit.Report {
	r := &testkit.Report{TreeOk: treeOk, Ok: x.ok, Criteria: x.crit, Outcome: x.outcome, Explanation: x.explan}
	for _, a := range x.adds {
		s := r.Section(a.title)
		for _, l := range a.lines {
			if l.item {
				s.AppendListItem(l.f, l.args...)
			} else {
				s.Append(l.f, l.args...)
			}
		}
	}
	for _, s := range x.subs {
		r.Append(s.build(treeOk))
	}
	return r
}

// lines returns the lines of the report that are not blank.
func (x *repSpec) lines(indent string) []string {
	first := "✗ "
	if x.ok {
		first = "✓ "
	}
	first += x.crit
	if x.outcome != "" {
		first += " (" + x.outcome + ")"
	}
	var r []string
	add := func(p, s string) {
		for _, l := range strings.Split(s, "\n") {
			if l = strings.TrimRight(p+l, " "); strings.Trim(l, " |") != "" {
				r = append(r, indent+l)
			}
		}
	}
	add("", first)
	if x.explan != "" {
		add("  | ", "EXPLANATION")
		add("  |     ", x.explan)
	}
	var titles []string
	content := map[string][]string{}
	for _, a := range x.adds {
		if !slices.Contains(titles, a.title) {
			titles = append(titles, a.title)
		}
		for _, l := range a.lines {
			content[a.title] = append(content[a.title], l.text())
		}
	}
	for _, t := range titles {
		if len(content[t]) > 0 {
			add("  | ", strings.ToUpper(t))
			add("  |     ", strings.Join(content[t], "\n"))
		}
	}
	for _, s := range x.subs {
		r = append(r, s.lines(indent+"    ")...)
	}
	return r
}

func notBlank(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimRight(l, " "); strings.Trim(l, " |") != "" {
			r = append(r, l)
		}
	}
	return r
}

// repGen chooses a report.
func repGen(c *Chooser, depth int) *repSpec {
	x := &repSpec{ok: c.Bool(), crit: "do it"}
	switch c.Dev(7) {
	case 1:
		x.crit = "be 100%d (done)"
	case 2:
		x.outcome = "it was not"
	case 3:
		x.outcome = "100% (of it)"
	case 4:
		x.explan = "because"
	case 5:
		x.explan = "first\n    second\n\nthird"
	case 6:
		x.explan, x.outcome = "50% | of it", "one\ntwo"
	}
	line := func() repLine {
		return []repLine{
			{f: "plain"}, {f: "item", item: true}, {f: "%d of %q", args: []any{3, "x"}}, {f: "%s", args: []any{"a\n  b\n\nc"}, item: true}, {f: "100%%"}, {f: "%v|", args: []any{"100%"}, item: true},
		}[c.Choose(6)]
	}
	for n := 0; n < 3; n++ {
		k := c.Dev(7)
		if k == 0 {
			break
		}
		a := repAdd{title: []string{"Things", "things", "Log Messages"}[(k-1)/2]}
		if (k-1)%2 == 0 {
			a.lines = append(a.lines, line())
		}
		x.adds = append(x.adds, a)
	}
	for n := 0; depth > 0 && n < 3; n++ {
		if c.Dev(2) == 0 {
			break
		}
		x.subs = append(x.subs, repGen(c, depth-1))
	}
	return x
}

// repMany chooses a large report.
func repMany(c *Chooser) *repSpec {
	x := &repSpec{ok: c.Bool(), crit: "do it"}
	num := func() int { return []int{0, 1, 33, 130}[c.Choose(4)] }
	secs, lines, subs := num(), num(), num()
	long := ""
	if c.Bool() {
		long = strings.Repeat(" and more", 50)
		x.crit, x.outcome, x.explan = "do it"+long, "done"+long, "because"+long+strings.Repeat("\nmore", 30)
	}
	for i := 0; i < secs; i++ {
		a := repAdd{title: fmt.Sprint("Section ", i)}
		for k := 0; k < lines; k++ {
			a.lines = append(a.lines, repLine{f: "line %d%s", args: []any{k, long}})
		}
		x.adds = append(x.adds, a)
	}
	for i := 0; i < subs; i++ {
		x.subs = append(x.subs, &repSpec{ok: i%3 == 0, crit: fmt.Sprint("part ", i)})
	}
	return x
}

// faultWriter fails when more than n bytes are written to it.
type faultWriter struct {
	n     int
	err   error
	got   []byte
	after int // calls after the failure
	bad   bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.bad {
		w.after++
	}
	if k := w.n - len(w.got); len(p) > k {
		w.bad = true
		w.got = append(w.got, p[:k]...)
		return k, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// repExp is an expectation with a given report.
type repExp struct{ x *repSpec }

func (e repExp) Caption() string                                             { return "to have a report" }
func (e repExp) Predicate(testkit.PredicateScope) (testkit.Predicate, error) { return e, nil }
func (e repExp) Notify(fact.Fact)                                            {}
func (e repExp) Ok() bool                                                    { return e.x.ok }
func (e repExp) Done()                                                       {}
func (e repExp) Report(ctx testkit.ReportGenerationContext) *testkit.Report {
	return e.x.build(ctx.TreeOk)
}

var errDisk = errors.New("disk full")

func init() {
	register(&Check{
		ID:   "C34",
		Rule: "all report trees up to a bound, by themselves, as the report of a test and within compositions, with the text compared line by line with the definition; all positions at which the destination of a report fails",
		Assumptions: []string{
			"blank lines and space at the beginning or end of what is added to a section are not judged",
		},
		Cases: func(tier string) []*Case {
			render := func(name string, budget, depth int, faults bool) *Case {
				return &Case{Name: name, Budget: budget, Body: func(w *Worker, c *Chooser) string {
					var x *repSpec
					if name == "many" {
						x = repMany(c)
					} else {
						x = repGen(c, depth)
					}
					want := x.lines("")
					r := x.build(c.Bool())
					fail := func(f string, v ...any) string {
						return fmt.Sprintf("report %q: %s", want, fmt.Sprintf(f, v...))
					}
					texts := map[string]bool{}
					var text string
					for i := 0; i < 2; i++ {
						b := &strings.Builder{}
						n, err := r.WriteTo(b)
						text = b.String()
						if err != nil || n != int64(len(text)) {
							return fail("%d bytes written, but the result is %d, %v", len(text), n, err)
						}
						texts[text] = true
					}
					if len(texts) != 1 {
						return fail("rendered as %q", texts)
					}
					if got := notBlank(text); strings.Join(got, "\n") != strings.Join(want, "\n") {
						return fail("rendered as %q", got)
					}
					if faults {
						for k := 0; k < len(text); k++ {
							f := &faultWriter{n: k, err: errDisk}
							n, err := r.WriteTo(f)
							if !errors.Is(err, errDisk) {
								return fail("error after %d of %d bytes: %v", k, len(text), err)
							}
							if string(f.got) != text[:k] || f.after > 0 {
								return fail("error after %d of %d bytes: %q written, %d attempts to continue", k, len(text), f.got, f.after)
							}
							if n != int64(k) {
								return fail("error after %d of %d bytes: %d bytes reported", k, len(text), n)
							}
						}
						m2done(w, name, c, text, len(text), func() any { return want })
						return ""
					}
					// In a test.
					var e testkit.Expectation = repExp{x}
					switch k := c.Choose(4); k {
					case 1:
						e = testkit.AllOf(e)
					case 2, 3:
						y := &repSpec{ok: k == 2, crit: "other"}
						e = testkit.AllOf(e, repExp{y})
						want = nil
						for _, l := range append(x.lines(""), y.lines("")...) {
							want = append(want, "    "+l)
						}
					}
					s := newTreeSess(0)
					s.test.Expect(testkit.Call(func() {}), e)
					got := notBlank(s.t.reports()[0])
					if len(got) == len(want)+1 && !strings.HasPrefix(got[0], "    ") {
						got = got[1:]
					}
					if strings.Join(got, "\n") != strings.Join(want, "\n") {
						return fail("shown in the log as %q", got)
					}
					m2done(w, name, c, text, len(want), func() any { return want })
					return ""
				}}
			}
			return []*Case{
				render("single", tierN(tier, 3, 4), 0, false),
				render("tree", tierN(tier, 3, 4), 2, false),
				render("deep", 3, 6, false),
				render("many", 0, 0, false),
				render("faults", 3, 1, true),
			}
		},
	})
}
