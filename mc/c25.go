package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
)

// appToggle has handlers with similar names.
var appToggle = app(
	HSpec{Name: "h", Kind: Agg, In: []MT{CA}, Out: []MT{EA}},
	HSpec{Name: "hh", Kind: Proc, In: []MT{EB}, Out: []MT{CC}},
	HSpec{Name: "h.h", Kind: Int, In: []MT{CB}},
	HSpec{Name: "hxh", Kind: Int, In: []MT{CC}},
	HSpec{Name: "H", Kind: Proj, In: []MT{EB}},
	HSpec{Name: "H+", Kind: Proj, In: []MT{EB}},
	HSpec{Name: "d-h", Kind: Int, In: []MT{CE}, Disabled: true},
	HSpec{Name: "d-H", Kind: Proj, In: []MT{EB}, Disabled: true},
	HSpec{Name: "d-a", Kind: Agg, In: []MT{CF}, Out: []MT{EF}, Disabled: true},
)

// toggle is a call of one of the four methods.
type toggle struct {
	like, enable bool
	args         []string
}

func (t toggle) String() string {
	n := "Disable"
	if t.enable {
		n = "Enable"
	}
	n += "Handlers"
	if t.like {
		n += "Like"
	}
	return fmt.Sprintf("%s(%q)", n, t.args)
}

func (t toggle) apply(x *testkit.Test) {
	switch {
	case t.like && t.enable:
		x.EnableHandlersLike(t.args...)
	case t.like:
		x.DisableHandlersLike(t.args...)
	case t.enable:
		x.EnableHandlers(t.args...)
	default:
		x.DisableHandlers(t.args...)
	}
}

// define applies the definition of the call to set. It returns false if the
// call must be rejected.
func (t toggle) define(a *AppSpec, set map[string]bool) bool {
	hit := map[string]bool{}
	for _, x := range t.args {
		n := 0
		if t.like {
			re, err := regexp.Compile(x)
			if err != nil {
				return false
			}
			for _, h := range a.H {
				if !h.Disabled && re.MatchString(h.Name) {
					hit[h.Name] = true
					n++
				}
			}
		} else if h := a.byName(x); h != nil && !(h.Disabled && t.enable) {
			hit[x] = true
			n++
		}
		if n == 0 {
			return false
		}
	}
	for n := range hit {
		set[n] = t.enable
	}
	return true
}

func toggles(full bool) []toggle {
	var r []toggle
	names := [][]string{{"h"}, {"hh"}, {"h.h"}, {"hxh"}, {"H"}, {"H+"}, {"d-h"}, {"d-H"}, {"x"}, {"h", "H"}, {"H", "h.h"}, {"h", "h"}, {}}
	pats := [][]string{{"h"}, {"^h$"}, {"h.h"}, {`h\.h`}, {"^H"}, {`H\+`}, {"H+"}, {"(?i)^h"}, {"d-"}, {"zz"}, {"^h$", "^H$"}, {"h.h", "hh"}, {"^h$", "zz"}, {"("}, {""}, {"^(hh|H)$"}}
	if !full {
		names = [][]string{{"h"}, {"hh"}, {"h.h"}, {"H"}, {"d-h"}}
		pats = [][]string{{"^h$"}, {"h.h"}, {"^H"}, {"(?i)^h"}, {"hh", "x"}}
	}
	for _, e := range []bool{true, false} {
		for _, n := range names {
			r = append(r, toggle{false, e, n})
		}
		for _, p := range pats {
			r = append(r, toggle{true, e, p})
		}
	}
	return r
}

func toggleCase(name string, ts []toggle, depth int, probe string) *Case {
	return toggleCaseN(name, ts, depth, 1, probe)
}

// toggleCaseN repeats the chosen sequence a number of times.
func toggleCaseN(name string, ts []toggle, depth, times int, probe string) *Case {
	return &Case{Name: name, Body: func(w *Worker, c *Chooser) string {
		// Defaults by type, possibly changed by options of the test.
		def := map[HK]bool{Agg: true, Proc: true}
		var opts []testkit.TestOption
		typ := c.Choose(5)
		switch typ {
		case 1:
			opts = append(opts, testkit.WithUnsafeOperationOptions(engine.EnableProjections(true)))
			def[Proj] = true
		case 2:
			opts = append(opts, testkit.WithUnsafeOperationOptions(engine.EnableIntegrations(true)))
			def[Int] = true
		case 3:
			opts = append(opts, testkit.WithUnsafeOperationOptions(engine.EnableAggregates(false)))
			def[Agg] = false
		case 4:
			opts = append(opts, testkit.WithUnsafeOperationOptions(engine.EnableProcesses(false)))
			def[Proc] = false
		}
		s := newSess(appToggle, 0, opts...)
		set := map[string]bool{}
		var hist []string
		n := c.Choose(depth + 1)
		fail := func(f string, v ...any) string {
			return fmt.Sprintf("type option %d, calls %s: %s\nfatal: %q", typ, strings.Join(hist, "; "), fmt.Sprintf(f, v...), s.t.fatals)
		}
		probeNow := func() string {
			want := map[string]bool{}
			for _, h := range appToggle.H {
				on, ok := set[h.Name]
				if !ok {
					on = def[h.Kind]
				}
				want[h.Name] = on && !h.Disabled
			}
			s.clear()
			for _, t := range []MT{CA, CB, CC, CE, CF} {
				act := testkit.ExecuteCommand(t.make(Base{Tag: "x", Inst: "x"}).(dogma.Command))
				if probe == "expect" {
					s.test.Expect(act, &leafExp{b: lPass})
				} else {
					s.test.Prepare(act)
				}
			}
			s.test.Prepare(testkit.RecordEvent(EB.make(Base{Tag: "x", Inst: "x"}).(dogma.Event)))
			got := map[string]int{}
			for _, cl := range s.a.calls {
				got[cl.H]++
			}
			for _, h := range appToggle.H {
				x := 0
				if want[h.Name] {
					x = 1
				}
				if got[h.Name] != x {
					return fail("handler %s was called %d times, want %d", h.Name, got[h.Name], x)
				}
			}
			return ""
		}
		if c.Bool() {
			// Actions performed before do not matter.
			if d := probeNow(); d != "" {
				return d
			}
		}
		choose := c.cyclic()
		for i := 0; i < n*times; i++ {
			choose.next(i % n)
			t := ts[choose.of(len(ts))]
			hist = append(hist, t.String())
			ok := t.define(appToggle, set)
			pv := s.do(func() { t.apply(s.test) })
			if (pv == nil) != ok {
				return fail("panic %v, want rejected = %v", pv, !ok)
			}
			if !ok {
				m2done(w, name, c, fmt.Sprint(typ, hist), n, func() any { return hist })
				return ""
			}
		}
		if d := probeNow(); d != "" {
			return d
		}
		// Nothing changes by itself.
		if d := probeNow(); d != "" {
			return d
		}
		var on []string
		for k, v := range set {
			on = append(on, fmt.Sprint(k, v))
		}
		sort.Strings(on)
		m2done(w, name, c, fmt.Sprint(typ, on), n, func() any { return hist })
		return ""
	}}
}

func init() {
	register(&Check{
		ID:          "C25",
		Rule:        "all sequences of the four toggle methods up to a bound over similar names and patterns x options that change the default of a handler type; the handlers called by later actions are compared with the definition",
		Assumptions: []string{"after a call that was rejected by panicking the test is not used any more"},
		Cases: func(tier string) []*Case {
			return []*Case{
				toggleCase("full", toggles(true), 2, "prepare"),
				toggleCaseN("repeated", toggles(true), 2, 20, "prepare"),
				toggleCase("deep", toggles(false), tierN(tier, 3, 4), "expect"),
			}
		},
	})
}
