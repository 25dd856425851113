package main

import (
	"fmt"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/location"
)

// lmark is a position in this file.
type lmark struct {
	fn, file string
	line     int
}

//go:noinline
func markCaller(skip int) lmark {
	var pc [1]uintptr
	runtime.Callers(skip+2, pc[:])
	f, _ := runtime.CallersFrames(pc[:]).Next()
	return lmark{f.Function, f.File, f.Line}
}

// here returns the position of its call.
//
//go:noinline
func here() lmark { return markCaller(1) }

func (m lmark) is(l location.Location) bool {
	return l.Func == m.fn && l.File == m.file && l.Line == m.line
}

// ---- locations of calls ----

//go:noinline
func capture() location.Location { return location.OfCall() }

func captureInl() location.Location { return location.OfCall() }

type capturer struct{ loc location.Location }

func (c *capturer) capture() location.Location { return location.OfCall() }
func (c capturer) byValue() location.Location  { return location.OfCall() }

type capturerI interface{ capture() location.Location }

// captures are the ways to capture the location of a call.
var captures = []struct {
	name string
	f    func() (location.Location, lmark)
}{
	{"function", func() (location.Location, lmark) { return capture(), here() }},
	{"inlinable function", func() (location.Location, lmark) { return captureInl(), here() }},
	{"method", func() (location.Location, lmark) { c := &capturer{}; return c.capture(), here() }},
	{"value method", func() (location.Location, lmark) { return capturer{}.byValue(), here() }},
	{"interface method", func() (location.Location, lmark) { return capturerI(&capturer{}).capture(), here() }},
	{"closure", func() (location.Location, lmark) {
		return func() location.Location { return location.OfCall() }(), here()
	}},
	{"nested closure", func() (location.Location, lmark) {
		return func() (location.Location, lmark) {
			return func() location.Location { return location.OfCall() }(), here()
		}()
	}},
	{"deferred", func() (l location.Location, m lmark) {
		defer func() { l, m = capture(), here() }()
		return
	}},
	{"execute command", func() (location.Location, lmark) {
		return testkit.ExecuteCommand(Cmd[tA]{}).Location(), here()
	}},
	{"record event", func() (location.Location, lmark) { return testkit.RecordEvent(Evt[tA]{}).Location(), here() }},
	{"advance time by", func() (location.Location, lmark) {
		return testkit.AdvanceTime(testkit.ByDuration(time.Second)).Location(), here()
	}},
	{"advance time to", func() (location.Location, lmark) {
		return testkit.AdvanceTime(testkit.ToTime(epoch)).Location(), here()
	}},
	{"call", func() (location.Location, lmark) { return testkit.Call(func() {}).Location(), here() }},
	{"call with option", func() (location.Location, lmark) {
		return testkit.Call(func() {}, testkit.InterceptCommandExecutor(func(ctx contextT, m dogma.Command, e dogma.CommandExecutor) error { return nil })).Location(), here()
	}},
}

//go:noinline
func deep(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	deep(n-1, f)
}

// ---- locations of functions ----

//go:noinline
func fnNamed() lmark { return here() }

//go:noinline
func fnGeneric[T any]() lmark { return here() }

type fnT struct{}

//go:noinline
func (fnT) ByValue() lmark { return here() }

//go:noinline
func (*fnT) ByPointer() lmark { return here() }

type fnEmbed struct{ fnT }
type fnEmbedP struct{ *fnT }

var fnGlobal = func() lmark { return here() }

// fnCase is a function or method and its definition.
type fnCase struct {
	name  string
	loc   func() location.Location
	want  func() lmark
	known bool // known finding: the compiler generates a wrapper
}

func fnCases() []fnCase {
	local := func() lmark { return here() }
	nested := func() func() lmark {
		return func() lmark { return here() }
	}()
	x := 1
	captured := func() lmark { x++; return here() }
	v, p := fnT{}, &fnT{}
	m := func(recv any, n string) func() location.Location {
		return func() location.Location { return location.OfMethod(recv, n) }
	}
	f := func(fn any) func() location.Location { return func() location.Location { return location.OfFunc(fn) } }
	return []fnCase{
		{"named function", f(fnNamed), fnNamed, false},
		{"generic function", f(fnGeneric[int]), nil, false},
		{"global closure", f(fnGlobal), fnGlobal, false},
		{"closure", f(local), local, false},
		{"nested closure", f(nested), nested, false},
		{"capturing closure", f(captured), captured, false},
		{"method expression by value", f(fnT.ByValue), v.ByValue, false},
		{"method expression by pointer", f((*fnT).ByPointer), p.ByPointer, false},
		{"value method of value", m(v, "ByValue"), v.ByValue, false},
		{"pointer method of pointer", m(p, "ByPointer"), p.ByPointer, false},
		{"value method of pointer", m(p, "ByValue"), p.ByValue, true},
		{"promoted value method", m(fnEmbed{}, "ByValue"), v.ByValue, true},
		{"promoted pointer method", m(&fnEmbed{}, "ByPointer"), p.ByPointer, true},
		{"method promoted from pointer", m(fnEmbedP{p}, "ByPointer"), p.ByPointer, true},
		{"method value", f(v.ByValue), v.ByValue, true},
	}
}

// ---- locations of panics ----

// pstate records where the statement that panics is.
type pstate struct {
	m    lmark
	arr  []int
	sink any
}

//go:noinline
func (s *pstate) mark() any { s.m = markCaller(1); return "user panic" }

//go:noinline
func (s *pstate) nilp() *int { s.m = markCaller(1); return nil }

//go:noinline
func (s *pstate) idx() int { s.m = markCaller(1); return 7 }

//go:noinline
func (s *pstate) nilMap() map[string]int { s.m = markCaller(1); return nil }

//go:noinline
func (s *pstate) val() any { s.m = markCaller(1); return 12 }

//go:noinline
func (s *pstate) zero() int { s.m = markCaller(1); return 0 }

//go:noinline
func (s *pstate) nilChan() chan int { s.m = markCaller(1); return nil }

//go:noinline
func (s *pstate) err() error { s.m = markCaller(1); return errBoom }

//go:noinline
func (s *pstate) nilFn() func() { s.m = markCaller(1); return nil }

var panicKinds = []string{"panic", "panic error", "nil dereference", "index", "nil map", "type assertion", "division", "close", "closure", "nil function", "deferred"}

//go:noinline
func (s *pstate) boom(kind int) {
	switch kind {
	case 0:
		panic(s.mark())
	case 1:
		panic(s.err())
	case 2:
		s.sink = *s.nilp()
	case 3:
		s.sink = s.arr[s.idx()]
	case 4:
		s.nilMap()["x"] = 1
	case 5:
		s.sink = s.val().(string)
	case 6:
		s.sink = 1 / s.zero()
	case 7:
		close(s.nilChan())
	case 8:
		func() { panic(s.mark()) }()
	case 9:
		s.nilFn()()
	case 10:
		defer func() { panic(s.mark()) }()
	}
}

// descend calls boom below n frames, each of which defers k functions; what
// the deferred functions of the frame in the middle do depends on mode.
//
//go:noinline
func (s *pstate) descend(n, k, kind, mode, mid int) {
	for i := 0; i < k; i++ {
		defer func() { s.sink = i }()
	}
	if n == mid {
		switch mode {
		case 1: // recovers a panic of its own
			defer func() {
				defer func() { recover() }()
				panic("inner")
			}()
		case 2: // panics again
			defer func() {
				recover()
				panic(s.mark())
			}()
		case 3: // panics without recovering
			defer func() { panic(s.mark()) }()
		case 4: // many nested calls
			defer deep(20, func() {})
		}
	}
	if n == 0 {
		s.boom(kind)
		return
	}
	s.descend(n-1, k, kind, mode, mid)
}

// recoverAt runs fn and captures the location of its panic below n frames.
//
//go:noinline
func recoverAt(n int, fn func()) (loc location.Location) {
	defer func() {
		if recover() == nil {
			return
		}
		deep(n, func() { loc = location.OfPanic() })
	}()
	fn()
	return
}

func init() {
	depths := func(tier string) []int {
		var r []int
		for i := 0; i <= 34; i++ {
			r = append(r, i)
		}
		r = append(r, 47, 48, 49, 62, 63, 64, 65, 100, 127, 128, 200, 600)
		if tier != "quick" {
			for i := 35; i < 300; i++ {
				r = append(r, i)
			}
		}
		return r
	}
	register(&Check{
		ID:   "C27",
		Rule: "all stack depths, depths of the recovering function and numbers of deferred functions from a range x all kinds of panics and of things deferred functions do; all kinds of functions and methods; all combinations of known and unknown fields; the location is compared with the position recorded by the program itself",
		Cases: func(tier string) []*Case {
			ds := depths(tier)
			var cs []*Case
			cs = append(cs, &Case{Name: "call", Body: func(w *Worker, c *Chooser) string {
				x := captures[c.Choose(len(captures))]
				d := ds[c.Choose(len(ds))]
				var l location.Location
				var m lmark
				deep(d, func() { l, m = x.f() })
				if !m.is(l) {
					return fmt.Sprintf("location of call (%s) at depth %d is %+v, want %+v", x.name, d, l, m)
				}
				if s := l.String(); !strings.HasPrefix(s, fmt.Sprintf("%s:%d", filepath.Base(m.file), m.line)) {
					return fmt.Sprintf("rendering of %+v is %q", l, s)
				}
				m2done(w, "call", c, fmt.Sprint(x.name, d), 1, func() any { return map[string]any{"kind": x.name, "depth": d, "location": l.String()} })
				return ""
			}})
			cs = append(cs, &Case{Name: "function", Body: func(w *Worker, c *Chooser) string {
				fs := fnCases()
				x := fs[c.Choose(len(fs))]
				var l location.Location
				d := ds[c.Choose(len(ds))]
				deep(d, func() { l = x.loc() })
				if x.want == nil {
					x.want = fnGeneric[int]
				}
				m := x.want()
				if filepath.Base(l.File) != filepath.Base(m.file) || l.Line != m.line || l.Func == "" {
					if x.known && l.File == "<autogenerated>" {
						w.st.Known("location-of-generated-wrapper: the location of a method for which the compiler generates a wrapper is <autogenerated>:1: " + x.name)
						return ""
					}
					return fmt.Sprintf("location of %s is %+v, want %+v", x.name, l, m)
				}
				m2done(w, "function", c, fmt.Sprint(x.name, d), 1, func() any { return map[string]any{"kind": x.name, "location": l.String()} })
				return ""
			}})
			for kind := range panicKinds {
				cs = append(cs, &Case{Name: "panic/" + panicKinds[kind], Body: func(w *Worker, c *Chooser) string {
					d := ds[c.Choose(len(ds))]
					up := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 40, 100, 300}[c.Choose(17)]
					k := []int{0, 1, 2, 7, 8, 30}[c.Choose(6)]
					mode := c.Choose(5)
					mid := 0
					if mode != 0 {
						mid = []int{0, d / 2, d}[c.Choose(3)]
					}
					s := &pstate{}
					l := recoverAt(up, func() { s.descend(d, k, kind, mode, mid) })
					if !s.m.is(l) {
						return fmt.Sprintf("panic (%s) below %d frames with %d deferred functions each (mode %d at %d), recovered with %d frames in between: location %+v, want %+v", panicKinds[kind], d, k, mode, mid, up, l, s.m)
					}
					m2done(w, "panic", c, fmt.Sprint(kind, d, up, k, mode, mid), 1, func() any {
						return map[string]any{"kind": panicKinds[kind], "depth": d, "recover depth": up, "defers": k, "location": l.String()}
					})
					return ""
				}})
			}
			cs = append(cs, &Case{Name: "render", Body: func(w *Worker, c *Chooser) string {
				fns := []string{"", "pkg.Func", "example.org/pkg.(*T).Method", "pkg.Func.func1", "pkg.Func.func2.3", "pkg.Func.func2.3.1", "pkg.glob..func1", "pkg.func1x", "pkg.G[...]", "a.b.c/d.func1.Name"}
				files := []string{"", "/a/b/c.go", "c.go", "/x/weird name.go", "C:/w/d.go"}
				lines := []int{0, 1, 77, 100000}
				l := location.Location{Func: fns[c.Choose(len(fns))], File: files[c.Choose(len(files))], Line: lines[c.Choose(len(lines))]}
				got := l.String()
				fl, ok := l.FileLine()
				bad := func(what string) string {
					return fmt.Sprintf("%+v is rendered as %q (%q, %v): %s", l, got, fl, ok, what)
				}
				if l.File != "" {
					p := fmt.Sprintf("%s:%d", filepath.Base(l.File), l.Line)
					if !ok || fl != p {
						return bad("file and line")
					}
					if !strings.HasPrefix(got, p) {
						return bad("must start with file and line")
					}
					if rest := strings.TrimPrefix(got, p); rest != "" && (l.Func == "" || !strings.Contains(rest, l.Func) || len(rest) > len(l.Func)+10) {
						return bad("something was added")
					}
				} else {
					if ok || fl != "" {
						return bad("the file is not known")
					}
					if l.Func != "" && (!strings.Contains(got, l.Func) || len(got) > len(l.Func)+10) {
						return bad("the function is known")
					}
					if l.Func == "" && !strings.Contains(got, "unknown") {
						return bad("nothing is known")
					}
				}
				m2done(w, "render", c, got, 1, func() any { return got })
				return ""
			}})
			// The predicate of a matching expectation is reported by location.
			cs = append(cs, &Case{Name: "predicate", Body: func(w *Worker, c *Chooser) string {
				d := ds[c.Choose(len(ds))]
				s := newTreeSess(0)
				var m lmark
				k := c.Choose(4)
				deep(d, func() {
					var e testkit.Expectation
					switch k {
					case 0:
						e, m = testkit.ToRecordEventMatching(func(Evt[tA]) error { return errBoom }), here()
					case 1:
						e, m = testkit.ToOnlyRecordEventsMatching(func(Evt[tA]) error { return errBoom }), here()
					case 2:
						e, m = testkit.ToExecuteCommandMatching(func(Cmd[tB]) error { return errBoom }), here()
					case 3:
						e, m = testkit.ToOnlyExecuteCommandsMatching(func(Cmd[tB]) error { return errBoom }), here()
					}
					s.test.Expect(treeAction('o', s), e)
				})
				if v := s.verdict(); v != "fail" {
					return "verdict " + v
				}
				if want := fmt.Sprintf("%s:%d", filepath.Base(m.file), m.line); !strings.Contains(s.t.reports()[0], want) {
					return fmt.Sprintf("the report does not mention the predicate at %s: %q", want, s.t.reports()[0])
				}
				m2done(w, "predicate", c, fmt.Sprint(d, k), 1, func() any { return d })
				return ""
			}})
			return cs
		},
	})
}
