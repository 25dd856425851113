package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/dogmatiq/dapper"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
)

// ---- message types ----

type cmpIn struct {
	N int
	L []int
}

// cmpS is an event with all kinds of fields.
type cmpS struct {
	S      string
	N      int
	F      float64
	L      []string
	M      map[string]int
	P      *cmpIn
	PP     **cmpIn
	I      any
	T      time.Time
	In     cmpIn
	A      [2]int
	Ls     []cmpIn
	Fn     func()
	hidden int
	hp     *cmpIn
}

func (cmpS) MessageDescription() string                { return "cmpS" }
func (cmpS) Validate(dogma.EventValidationScope) error { return nil }

// cmpS2 has the same fields as cmpS.
type cmpS2 cmpS

func (cmpS2) MessageDescription() string                { return "cmpS2" }
func (cmpS2) Validate(dogma.EventValidationScope) error { return nil }

// cmpP is an event that is used by pointer.
type cmpP cmpS

func (*cmpP) MessageDescription() string                { return "cmpP" }
func (*cmpP) Validate(dogma.EventValidationScope) error { return nil }

// cmpStr is an event that is not a structure.
type cmpStr string

func (cmpStr) MessageDescription() string                { return "cmpStr" }
func (cmpStr) Validate(dogma.EventValidationScope) error { return nil }

// cmpMap is an event that is a map.
type cmpMap map[string]any

func (cmpMap) MessageDescription() string                { return "cmpMap" }
func (cmpMap) Validate(dogma.EventValidationScope) error { return nil }

// cmpPB is a protocol buffers message.
type cmpPB struct{ *structpb.Value }

func (*cmpPB) MessageDescription() string                { return "cmpPB" }
func (*cmpPB) Validate(dogma.EventValidationScope) error { return nil }

// cmpPBS is a protocol buffers message of another kind.
type cmpPBS struct{ *structpb.Struct }

func (*cmpPBS) MessageDescription() string                { return "cmpPBS" }
func (*cmpPBS) Validate(dogma.EventValidationScope) error { return nil }

// cmpVal makes fresh values that are equal to all others of the same class.
type cmpVal struct {
	class string
	name  string
	mk    func() dogma.Event
}

type cmpAcc struct{ vs []cmpVal }

func (a *cmpAcc) add(class, name string, mk func() dogma.Event) {
	a.vs = append(a.vs, cmpVal{class, name, mk})
}

// fields lists alternatives for the content of a cmpS.
func cmpFields() []struct {
	class, name string
	set         func(*cmpS)
} {
	type alt = struct {
		class, name string
		set         func(*cmpS)
	}
	in := func(n int, l ...int) *cmpIn { return &cmpIn{n, l} }
	cyc := func() any {
		m := map[string]any{}
		m["self"] = m
		return m
	}
	return []alt{
		{"zero", "zero", func(s *cmpS) {}},
		{"zero", "negative zero", func(s *cmpS) { s.F = math.Copysign(0, -1) }},
		{"S=a", "string", func(s *cmpS) { s.S = "a" }},
		{"S=a", "string built", func(s *cmpS) { s.S = strings.Repeat("a", 1) }},
		{"S=A", "other case", func(s *cmpS) { s.S = "A" }},
		{"S=a ", "trailing space", func(s *cmpS) { s.S = "a " }},
		{"N=1", "int", func(s *cmpS) { s.N = 1 }},
		{"F=1", "float", func(s *cmpS) { s.F = 1 }},
		{"F=1+", "next float", func(s *cmpS) { s.F = math.Nextafter(1, 2) }},
		{"F=inf", "infinity", func(s *cmpS) { s.F = math.Inf(1) }},
		{"L=[]", "empty slice", func(s *cmpS) { s.L = []string{} }},
		{"L=[]", "empty slice with capacity", func(s *cmpS) { s.L = make([]string, 0, 10) }},
		{"L=[a]", "slice", func(s *cmpS) { s.L = []string{"a"} }},
		{"L=[a]", "slice with capacity", func(s *cmpS) { s.L = append(make([]string, 0, 10), "a") }},
		{"L=[ab]", "longer slice", func(s *cmpS) { s.L = []string{"a", "b"} }},
		{"L=[ba]", "reversed slice", func(s *cmpS) { s.L = []string{"b", "a"} }},
		{"M={}", "empty map", func(s *cmpS) { s.M = map[string]int{} }},
		{"M={a}", "map", func(s *cmpS) { s.M = map[string]int{"a": 0} }},
		{"M={ab}", "larger map", func(s *cmpS) { s.M = map[string]int{"a": 0, "b": 0} }},
		{"M={ab}", "larger map in other order", func(s *cmpS) { s.M = map[string]int{}; s.M["b"] = 0; s.M["a"] = 0 }},
		{"M={ab1}", "map with other value", func(s *cmpS) { s.M = map[string]int{"a": 0, "b": 1} }},
		{"P=0", "pointer to zero", func(s *cmpS) { s.P = in(0) }},
		{"P=1", "pointer", func(s *cmpS) { s.P = in(1) }},
		{"P=1,2", "pointer to slice", func(s *cmpS) { s.P = in(1, 2) }},
		{"PP=1", "pointer to pointer", func(s *cmpS) { p := in(1); s.PP = &p }},
		{"PP=nil", "pointer to nil", func(s *cmpS) { var p *cmpIn; s.PP = &p }},
		{"I=int1", "interface of int", func(s *cmpS) { s.I = 1 }},
		{"I=int64", "interface of int64", func(s *cmpS) { s.I = int64(1) }},
		{"I=in", "interface of struct", func(s *cmpS) { s.I = cmpIn{N: 1} }},
		{"I=*in", "interface of pointer", func(s *cmpS) { s.I = in(1) }},
		{"I=nil*", "interface of nil pointer", func(s *cmpS) { s.I = (*cmpIn)(nil) }},
		{"I=[]any", "interface of slice", func(s *cmpS) { s.I = []any{nil, 1} }},
		{"I=[]any2", "interface of other slice", func(s *cmpS) { s.I = []any{1, nil} }},
		{"I=map", "interface of map", func(s *cmpS) { s.I = map[any]any{1: nil, "1": 1} }},
		{"I=cyc", "cycle", func(s *cmpS) { s.I = cyc() }},
		{"I=chan", "nil channel", func(s *cmpS) { s.I = (chan int)(nil) }},
		{"T=0", "time", func(s *cmpS) { s.T = epoch }},
		{"T=1", "other time", func(s *cmpS) { s.T = epoch.Add(1) }},
		{"In=1", "nested", func(s *cmpS) { s.In = cmpIn{N: 1} }},
		{"In=[]", "nested empty slice", func(s *cmpS) { s.In = cmpIn{L: []int{}} }},
		{"A=01", "array", func(s *cmpS) { s.A = [2]int{0, 1} }},
		{"A=10", "other array", func(s *cmpS) { s.A = [2]int{1, 0} }},
		{"Ls=1", "slice of structs", func(s *cmpS) { s.Ls = []cmpIn{{N: 1}} }},
		{"Ls=1,[]", "slice of structs with empty slice", func(s *cmpS) { s.Ls = []cmpIn{{N: 1, L: []int{}}} }},
		{"hidden=1", "unexported", func(s *cmpS) { s.hidden = 1 }},
		{"hp=0", "unexported pointer", func(s *cmpS) { s.hp = in(0) }},
	}
}

func cmpValues() []cmpVal {
	a := &cmpAcc{}
	for _, f := range cmpFields() {
		mk := func() cmpS { var s cmpS; f.set(&s); return s }
		a.add("cmpS "+f.class, "cmpS "+f.name, func() dogma.Event { return mk() })
		if strings.Contains(f.class, "=") && f.class[1] != '=' || f.class == "zero" || f.class == "S=a" {
			a.add("cmpS2 "+f.class, "cmpS2 "+f.name, func() dogma.Event { return cmpS2(mk()) })
		}
		a.add("*cmpS "+f.class, "*cmpS "+f.name, func() dogma.Event { p := mk(); return &p })
		a.add("cmpP "+f.class, "cmpP "+f.name, func() dogma.Event { p := cmpP(mk()); return &p })
	}
	a.add("cmpP nil", "cmpP nil", func() dogma.Event { return (*cmpP)(nil) })
	for _, s := range []string{"", "a", "A"} {
		a.add("str "+s, "string "+s, func() dogma.Event { return cmpStr(s) })
	}
	a.add("map nil", "nil map", func() dogma.Event { return cmpMap(nil) })
	a.add("map empty", "empty map", func() dogma.Event { return cmpMap{} })
	a.add("map a", "map", func() dogma.Event { return cmpMap{"a": nil} })
	a.add("map a1", "map with value", func() dogma.Event { return cmpMap{"a": 1} })

	// Protocol buffers. The encodings of a value and the ways to build it are
	// all in one class.
	pb := func(class string, mk func() *structpb.Value) {
		a.add("pb "+class, "pb "+class, func() dogma.Event { return &cmpPB{mk()} })
		a.add("pb "+class, "pb used "+class, func() dogma.Event {
			m := &cmpPB{mk()}
			_ = m.String()
			proto.Size(m)
			return m
		})
		a.add("pb "+class, "pb decoded "+class, func() dogma.Event {
			b, err := proto.Marshal(mk())
			if err != nil {
				panic(err)
			}
			m := &cmpPB{&structpb.Value{}}
			if err := proto.Unmarshal(b, m.Value); err != nil {
				panic(err)
			}
			return m
		})
	}
	mustVal := func(v any) func() *structpb.Value {
		return func() *structpb.Value {
			x, err := structpb.NewValue(v)
			if err != nil {
				panic(err)
			}
			return x
		}
	}
	unknown := func(b ...byte) func() *structpb.Value {
		return func() *structpb.Value {
			v := &structpb.Value{}
			v.ProtoReflect().SetUnknown(b)
			return v
		}
	}
	pb("unset", func() *structpb.Value { return &structpb.Value{} })
	pb("null", mustVal(nil))
	pb("0", mustVal(0))
	pb("1", mustVal(1))
	pb("nan", mustVal(math.NaN()))
	pb("false", mustVal(false))
	pb("empty string", mustVal(""))
	pb("string", mustVal("a"))
	pb("empty list", mustVal([]any{}))
	pb("list", mustVal([]any{1, "a", nil}))
	pb("list reversed", mustVal([]any{nil, "a", 1}))
	pb("empty struct", mustVal(map[string]any{}))
	pb("struct", mustVal(map[string]any{"a": 1, "b": []any{map[string]any{"c": ""}}}))
	pb("struct other", mustVal(map[string]any{"a": 1, "b": []any{map[string]any{"c": "x"}}}))
	pb("unknown 100=1", unknown(0xa0, 0x06, 1))
	pb("unknown 100=2", unknown(0xa0, 0x06, 2))
	a.add("pb nil", "pb nil", func() dogma.Event { return &cmpPB{} })
	a.add("pb nil", "pb nil again", func() dogma.Event { return &cmpPB{(*structpb.Value)(nil)} })
	a.add("pbs nil", "pbs nil", func() dogma.Event { return &cmpPBS{} })
	a.add("pbs empty", "pbs empty", func() dogma.Event { return &cmpPBS{&structpb.Struct{}} })
	a.add("pbs empty", "pbs empty map", func() dogma.Event { return &cmpPBS{&structpb.Struct{Fields: map[string]*structpb.Value{}}} })
	a.add("pbs a", "pbs a", func() dogma.Event {
		return &cmpPBS{&structpb.Struct{Fields: map[string]*structpb.Value{"a": structpb.NewNumberValue(1)}}}
	})
	return a.vs
}

// cmpContent describes the complete content of a message.
func cmpContent(m dogma.Message) string {
	if p, ok := m.(proto.Message); ok {
		if !p.ProtoReflect().IsValid() {
			return "invalid"
		}
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(p)
		return fmt.Sprintf("%x %v %x", b, err, p.ProtoReflect().GetUnknown())
	}
	if s, ok := m.(cmpS); ok {
		if _, ok := s.I.(map[string]any); ok {
			return "cycle"
		}
	}
	if s, ok := m.(cmpS2); ok {
		if _, ok := s.I.(map[string]any); ok {
			return "cycle"
		}
	}
	if s, ok := m.(*cmpS); ok && s != nil {
		if _, ok := s.I.(map[string]any); ok {
			return "cycle"
		}
	}
	if s, ok := m.(*cmpP); ok && s != nil {
		if _, ok := s.I.(map[string]any); ok {
			return "cycle"
		}
	}
	var w bytes.Buffer
	p := dapper.NewPrinter(dapper.WithUnexportedStructFields(true))
	p.Write(&w, m)
	return w.String()
}

// ---- an application that records one event ----

type cmpInt struct {
	ev    func() dogma.Event
	route dogma.IntegrationRoute
	sent  dogma.Event
}

func (h *cmpInt) Configure(c dogma.IntegrationConfigurer) {
	c.Identity("h", "b5d9ee59-f2ce-44a4-b6d1-000000000001")
	c.Routes(dogma.HandlesCommand[Cmd[tA]](), h.route)
}
func (h *cmpInt) HandleCommand(_ context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	h.sent = h.ev()
	s.RecordEvent(h.sent)
	return nil
}

type cmpApp struct{ h *cmpInt }

func (a *cmpApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("app", "11111111-2222-4333-8444-555555555555")
	c.RegisterIntegration(a.h)
}

func cmpRoute(m dogma.Event) dogma.IntegrationRoute {
	switch m.(type) {
	case cmpS:
		return dogma.RecordsEvent[cmpS]()
	case cmpS2:
		return dogma.RecordsEvent[cmpS2]()
	case *cmpP:
		return dogma.RecordsEvent[*cmpP]()
	case cmpStr:
		return dogma.RecordsEvent[cmpStr]()
	case cmpMap:
		return dogma.RecordsEvent[cmpMap]()
	case *cmpPB:
		return dogma.RecordsEvent[*cmpPB]()
	case *cmpPBS:
		return dogma.RecordsEvent[*cmpPBS]()
	case annE:
		return dogma.RecordsEvent[annE]()
	}
	panic("unknown type")
}

func newCmpSess(ev func() dogma.Event, opts ...testkit.TestOption) (*Sess, *cmpInt) {
	h := &cmpInt{ev: ev, route: cmpRoute(ev())}
	s := &Sess{t: &mockT{}}
	s.test = testkit.Begin(s.t, &cmpApp{h}, append([]testkit.TestOption{testkit.StartTimeAt(epoch)}, opts...)...)
	s.test.EnableHandlers("h")
	return s, h
}

// ---- annotations ----

// AnnBase is embedded.
type AnnBase struct{ B string }

type annIn struct {
	N int
	S string
}

type annStr string

// annE is an event with annotated content.
type annE struct {
	AnnBase
	S  string
	S2 string
	K  annStr
	N  int
	N6 int64
	P  *annIn
	I  any
	V  annIn
	M  map[string]annIn
	MK map[annStr]any
	L  []annIn
	T  time.Duration
	PB *structpb.Value
	h  annIn
}

func (annE) MessageDescription() string                { return "annE" }
func (annE) Validate(dogma.EventValidationScope) error { return nil }

// anns are the annotations; same decides if a rendered value is the annotated
// one.
var anns = []struct {
	name string
	mk   func() any
	same func(v any) bool
}{
	{"string", func() any { return "x" }, func(v any) bool { s, ok := v.(string); return ok && s == "x" }},
	{"named string", func() any { return annStr("x") }, func(v any) bool { s, ok := v.(annStr); return ok && s == "x" }},
	{"int", func() any { return 1 }, func(v any) bool { n, ok := v.(int); return ok && n == 1 }},
	{"int64", func() any { return int64(1) }, func(v any) bool { n, ok := v.(int64); return ok && n == 1 }},
	{"struct", func() any { return annIn{1, "x"} }, func(v any) bool { x, ok := v.(annIn); return ok && x == annIn{1, "x"} }},
	{"pointer", func() any { return &annIn{1, "x"} }, func(v any) bool {
		x, ok := v.(*annIn)
		return ok && x != nil && *x == annIn{1, "x"}
	}},
	{"nil pointer", func() any { return (*annIn)(nil) }, func(v any) bool { x, ok := v.(*annIn); return ok && x == nil }},
	{"nil", func() any { return nil }, func(v any) bool { return false }},
	{"not a number", func() any { return math.NaN() }, func(v any) bool { return false }},
	{"duration", func() any { return time.Duration(1) }, func(v any) bool { d, ok := v.(time.Duration); return ok && d == 1 }},
	{"slice", func() any { return []annIn{{1, "x"}} }, func(v any) bool {
		x, ok := v.([]annIn)
		return ok && len(x) == 1 && x[0] == annIn{1, "x"}
	}},
	{"map", func() any { return map[string]annIn{"x": {1, "x"}} }, func(v any) bool {
		x, ok := v.(map[string]annIn)
		return ok && len(x) == 1 && x["x"] == annIn{1, "x"}
	}},
	{"protocol buffers", func() any { v := structpb.NewStringValue("x"); _ = v.String(); return v }, func(v any) bool {
		x, ok := v.(*structpb.Value)
		return ok && x != nil && x.GetStringValue() == "x"
	}},
	{"embedded", func() any { return AnnBase{"x"} }, func(v any) bool { x, ok := v.(AnnBase); return ok && x.B == "x" }},
	{"message", func() any { return annEvents[1].mk() }, func(v any) bool {
		x, ok := v.(annE)
		return ok && reflect.DeepEqual(x, annEvents[1].mk())
	}},
}

var annEvents = []struct {
	name string
	mk   func() dogma.Event
}{
	{"zero", func() dogma.Event { return annE{} }},
	{"strings", func() dogma.Event { return annE{S: "x", S2: "y", K: "x", AnnBase: AnnBase{"x"}} }},
	{"other strings", func() dogma.Event { return annE{S: "y", S2: "x", K: "y", AnnBase: AnnBase{"y"}} }},
	{"numbers", func() dogma.Event { return annE{N: 1, N6: 1, T: 1} }},
	{"nested", func() dogma.Event { return annE{P: &annIn{1, "x"}, V: annIn{1, "x"}, I: annIn{1, "x"}} }},
	{"interface of pointer", func() dogma.Event { return annE{I: &annIn{1, "x"}, V: annIn{1, "y"}} }},
	{"interface of int", func() dogma.Event { return annE{I: 1, h: annIn{1, "x"}} }},
	{"containers", func() dogma.Event {
		return annE{M: map[string]annIn{"x": {1, "x"}, "y": {1, "y"}}, L: []annIn{{1, "x"}, {2, "x"}, {1, "x"}}}
	}},
	{"equal containers", func() dogma.Event {
		return annE{M: map[string]annIn{"x": {1, "x"}}, L: []annIn{{1, "x"}}, I: []annIn{{1, "x"}}}
	}},
	{"map keys", func() dogma.Event { return annE{MK: map[annStr]any{"x": "x", "y": nil, "z": annStr("x")}} }},
	{"protocol buffers", func() dogma.Event { return annE{PB: structpb.NewStringValue("x"), I: structpb.NewStringValue("x")} }},
}

// annTokens lists the annotated values of a rendered message and the texts
// they have.
func annTokens(s string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		i := strings.LastIndex(l, " <<")
		if i < 0 || !strings.HasSuffix(l, ">>") {
			// An annotated map key is followed by the value.
			if i := strings.Index(l, " <<"); i >= 0 {
				r = append(r, l)
			}
			continue
		}
		v := l[:i]
		texts := strings.Split(l[i+3:len(l)-2], ", ")
		sort.Strings(texts)
		if j := strings.LastIndex(v, ": "); j >= 0 {
			v = v[j+2:]
		}
		r = append(r, v+" "+strings.Join(texts, ","))
	}
	sort.Strings(r)
	return r
}

// undiffSides returns both sides of a diff.
func undiffSides(s string) (a, b string) {
	for len(s) > 0 {
		switch {
		case strings.HasPrefix(s, "{+"):
			i := 2 + strings.Index(s[2:], "+}")
			b += s[2:i]
			s = s[i+2:]
		case strings.HasPrefix(s, "[-"):
			i := 2 + strings.Index(s[2:], "-]")
			a += s[2:i]
			s = s[i+2:]
		default:
			a += s[:1]
			b += s[:1]
			s = s[1:]
		}
	}
	return a, b
}

// messageDiff returns the section of a report with the message diff.
func messageDiff(rep string) string {
	var r []string
	in := false
	for _, l := range strings.Split(rep, "\n") {
		if in {
			r = append(r, strings.TrimPrefix(strings.TrimPrefix(l, "  | "), "    "))
		}
		if strings.Contains(l, "MESSAGE DIFF") {
			in = true
		}
	}
	return strings.TrimSpace(strings.Join(r, "\n"))
}

func init() {
	register(&Check{
		ID:   "C28",
		Rule: "all ordered pairs of a family of message values that are labelled with their equivalence classes, compared directly and by an expectation; all pairs of annotated messages x all subsets of annotations up to a bound; the annotated values are compared with those of an own traversal",
		Cases: func(tier string) []*Case {
			vals := cmpValues()
			var cs []*Case
			cs = append(cs, &Case{Name: "pairs", Body: func(w *Worker, c *Chooser) string {
				x, y := vals[c.Choose(len(vals))], vals[c.Choose(len(vals))]
				a, b := x.mk(), y.mk()
				if x.name == y.name && c.Choose(2) == 1 {
					b = a
				}
				ca, cb := cmpContent(a), cmpContent(b)
				want := x.class == y.class
				for i := 0; i < 2; i++ {
					if got := testkit.DefaultMessageComparator(a, b); got != want {
						return fmt.Sprintf("comparison %d of %q and %q is %v, want %v", i, x.name, y.name, got, want)
					}
				}
				if cmpContent(a) != ca || cmpContent(b) != cb {
					return fmt.Sprintf("comparison of %q and %q modified the messages", x.name, y.name)
				}
				m2done(w, "pairs", c, x.name+"/"+y.name, 1, func() any { return []any{x.name, y.name, want} })
				return ""
			}})
			cs = append(cs, &Case{Name: "expect", Body: func(w *Worker, c *Chooser) string {
				x := vals[c.Choose(len(vals))]
				var ys []cmpVal
				for _, y := range vals {
					if reflect.TypeOf(x.mk()) == reflect.TypeOf(y.mk()) {
						ys = append(ys, y)
					}
				}
				y := ys[c.Choose(len(ys))]
				if _, ok := x.mk().(*cmpS); ok {
					return "" // not a type of message
				}
				if strings.HasSuffix(x.class, "nil") || strings.HasSuffix(y.class, "nil") {
					return "" // not a valid message
				}
				comp := c.Choose(4)
				eq := x.class == y.class
				var opts []testkit.TestOption
				var seen []dogma.Message
				switch comp {
				case 1, 2:
					eq = comp == 1
					opts = append(opts, testkit.WithMessageComparator(func(a, b dogma.Message) bool { seen = append(seen, a, b); return eq }))
				case 3:
					opts = append(opts, testkit.WithMessageComparator(nil))
				}
				neg := c.Choose(2) == 1
				s, h := newCmpSess(x.mk, opts...)
				ey := y.mk()
				cy := cmpContent(ey)
				e := testkit.ToRecordEvent(ey)
				if neg {
					e = testkit.Not(e)
				}
				s.test.Expect(testkit.ExecuteCommand(Cmd[tA]{Base{Tag: "c"}}), e)
				want := "fail"
				if eq != neg {
					want = "pass"
				}
				if v := s.verdict(); v != want {
					return fmt.Sprintf("recorded %q, expected %q (not: %v, comparator %d): verdict %s, want %s", x.name, y.name, neg, comp, v, want)
				}
				if len(seen) > 2 || len(seen) == 2 && (cmpContent(seen[0]) != cmpContent(h.sent) || cmpContent(seen[1]) != cy) {
					return "the comparator was given other messages"
				}
				if cmpContent(ey) != cy || cmpContent(h.sent) != cmpContent(x.mk()) {
					return fmt.Sprintf("the messages %q and %q were modified", x.name, y.name)
				}
				m2done(w, "expect", c, fmt.Sprint(x.name, y.name, comp, neg), 3, func() any { return []any{x.name, y.name, comp, neg, want} })
				return ""
			}})
			max := 2
			if tier != "quick" {
				max = 3
			}
			cs = append(cs, &Case{Name: "annotate", Body: func(w *Worker, c *Chooser) string {
				x, y := annEvents[c.Choose(len(annEvents))], annEvents[c.Choose(len(annEvents))]
				s, _ := newCmpSess(x.mk)
				between := c.Choose(2) == 1
				type an struct{ a, text int }
				var as []an
				// Annotations of values that are not rendered.
				other := func(n int) {
					for i := 0; i < n; i++ {
						s.test.Annotate(fmt.Sprint("not there ", i), "ann other")
					}
				}
				texts := []string{"ann one", "ann two", ""}
				n := c.Choose(max + 1)
				prev := 0
				for i := 0; i < n; i++ {
					// In order, with repetition.
					prev += c.Choose(len(anns) - prev)
					as = append(as, an{prev, c.Choose(len(texts))})
				}
				run := func(as []an) string {
					s.clearT()
					s.test.Expect(testkit.ExecuteCommand(Cmd[tA]{Base{Tag: "c"}}), testkit.ToRecordEvent(y.mk()))
					want := "fail"
					if x.name == y.name {
						want = "pass"
					}
					if v := s.verdict(); v != want {
						return fmt.Sprintf("verdict %s, want %s", v, want)
					}
					rep := s.t.reports()[0]
					if want == "pass" {
						if strings.Contains(rep, "<<ann") {
							return "unexpected annotation: " + rep
						}
						return ""
					}
					ga, gb := undiffSides(messageDiff(rep))
					opts := []dapper.Option{dapper.WithUnexportedStructFields(false)}
					for _, a := range as {
						opts = append(opts, dapper.WithAnnotator(func(v dapper.Value) string {
							if v.Value.Kind() == reflect.Interface || !v.Value.IsValid() || !v.Value.CanInterface() {
								return ""
							}
							if anns[a.a].same(v.Value.Interface()) {
								return texts[a.text]
							}
							return ""
						}))
					}
					p := dapper.NewPrinter(opts...)
					wa, wb := annTokens(p.Format(y.mk())), annTokens(p.Format(x.mk()))
					if fmt.Sprint(wa) != fmt.Sprint(annTokens(ga)) || fmt.Sprint(wb) != fmt.Sprint(annTokens(gb)) {
						return fmt.Sprintf("annotated values %q and %q, want %q and %q in\n%s", annTokens(ga), annTokens(gb), wa, wb, rep)
					}
					return ""
				}
				var names []string
				before, after := 0, 0
				if n == 1 && !between {
					before, after = 30*c.Choose(2), 30*c.Choose(2)
				}
				other(before)
				for i, a := range as {
					if between && i == len(as)-1 {
						if e := run(as[:i]); e != "" {
							return fmt.Sprintf("recorded %q, expected %q, annotated %v: %s", x.name, y.name, names, e)
						}
					}
					names = append(names, anns[a.a].name+"="+texts[a.text])
					s.test.Annotate(anns[a.a].mk(), texts[a.text])
				}
				other(after)
				if e := run(as); e != "" {
					return fmt.Sprintf("recorded %q, expected %q, annotated %v: %s", x.name, y.name, names, e)
				}
				m2done(w, "annotate", c, fmt.Sprint(x.name, y.name, names, between, before, after), 2+n, func() any { return []any{x.name, y.name, names} })
				return ""
			}})
			return cs
		},
	})
}

// clearT forgets what was reported so far.
func (s *Sess) clearT() { *s.t = mockT{stop: s.t.stop} }
