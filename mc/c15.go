package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
	sch "github.com/dogmatiq/testkit/verifmc/sched"
)

// ---- the fact buffer ----

// bufferCase has writers that write facts, and readers that take snapshots.
func bufferCase(name string, bound int, before int, writers [][]int, readers int) *SCase {
	fct := func(k int) fact.Fact {
		return fact.DispatchBegun{Envelope: &envelope.Envelope{MessageID: fmt.Sprint(k)}}
	}
	num := func(f fact.Fact) string {
		x, ok := f.(fact.DispatchBegun)
		if !ok || x.Envelope == nil {
			return fmt.Sprintf("%T", f)
		}
		return x.Envelope.MessageID
	}
	show := func(fs []fact.Fact) string {
		var r []string
		for _, f := range fs {
			r = append(r, num(f))
		}
		return strings.Join(r, " ")
	}
	return &SCase{
		Name: name, Bound: bound,
		Deadlock: "no goroutine can continue: the use of the buffer never completes",
		Build: func() ([]func(), func([]sch.Event) (string, string)) {
			b := &fact.Buffer{}
			for i := 0; i < before; i++ {
				b.Notify(fct(-1 - i))
			}
			var fns []func()
			for _, w := range writers {
				fns = append(fns, func() {
					for _, k := range w {
						sch.Log("write", fmt.Sprint(k))
						b.Notify(fct(k))
						sch.Log("written", fmt.Sprint(k))
						sch.Point(-30)
					}
				})
			}
			type snap struct {
				facts []fact.Fact
				text  string
			}
			snaps := make([][]snap, readers)
			for i := 0; i < readers; i++ {
				fns = append(fns, func() {
					for j := 0; j < 2; j++ {
						sch.Log("read", fmt.Sprint(i, j))
						s := b.Facts()
						sch.Log("snap", fmt.Sprint(i, j))
						snaps[i] = append(snaps[i], snap{s, show(s)})
						if i == 1 && len(s) > 0 {
							// A snapshot belongs to the reader.
							s[0] = fct(1000)
							s = append(s[:len(s)-1], fct(1001))
							_ = append(s, fct(1002))
							snaps[i][j].facts = nil
						}
						sch.Point(-31)
					}
				})
			}
			return fns, func(evs []sch.Event) (string, string) {
				final := show(b.Facts())
				words := strings.Fields(final)
				// Every fact exactly once, in the order of each writer.
				var all []string
				for i := 0; i < before; i++ {
					all = append(all, fmt.Sprint(-1-i))
				}
				if !slices.Equal(words[:min(before, len(words))], all) {
					return fmt.Sprintf("facts written before are not kept: %s", final), ""
				}
				for _, w := range writers {
					var got []string
					for _, x := range words {
						for _, k := range w {
							if x == fmt.Sprint(k) {
								got = append(got, x)
							}
						}
					}
					want := strings.Trim(fmt.Sprint(w), "[]")
					if strings.Join(got, " ") != want {
						return fmt.Sprintf("the facts %s were written, but the buffer contains %q", want, final), ""
					}
				}
				total := before
				for _, w := range writers {
					total += len(w)
				}
				if len(words) != total {
					return fmt.Sprintf("%d facts were written, but the buffer contains %q", total, final), ""
				}
				// Snapshots are prefixes that contain everything written before
				// and nothing written after.
				at := map[string]int{}
				for i, e := range evs {
					at[e.Kind+" "+e.Text] = i
				}
				out := final
				for i := range snaps {
					prev := ""
					for j, s := range snaps[i] {
						if s.text != "" && !strings.HasPrefix(final+" ", s.text+" ") {
							return fmt.Sprintf("the snapshot %q is not a prefix of %q", s.text, final), ""
						}
						if s.facts != nil && show(s.facts) != s.text {
							return fmt.Sprintf("the snapshot %q changed to %q", s.text, show(s.facts)), ""
						}
						if len(s.text) < len(prev) {
							return fmt.Sprintf("the snapshot %q was taken after %q", s.text, prev), ""
						}
						prev = s.text
						n := len(strings.Fields(s.text))
						for k, w := range words {
							if k < before {
								if k >= n {
									return fmt.Sprintf("the snapshot %q lacks facts that were written before", s.text), ""
								}
								continue
							}
							if k >= n && at["written "+w] < at["read "+fmt.Sprint(i, j)] {
								return fmt.Sprintf("the snapshot %q lacks %s, which was written before", s.text, w), ""
							}
							if k < n && at["write "+w] > at["snap "+fmt.Sprint(i, j)] {
								return fmt.Sprintf("the snapshot %q contains %s, which was written later", s.text, w), ""
							}
						}
						out += fmt.Sprint("/", n)
					}
				}
				return "", out
			}
		},
	}
}

// ---- message IDs ----

func idCase(name string, bound int, gor int) *SCase {
	return &SCase{
		Name: name, Bound: bound,
		Build: func() ([]func(), func([]sch.Event) (string, string)) {
			g := &envelope.MessageIDGenerator{}
			got := make([][]string, gor)
			var fns []func()
			for i := 0; i < gor; i++ {
				fns = append(fns, func() {
					for j := 0; j < 2; j++ {
						got[i] = append(got[i], g.Next())
						sch.Point(-32)
					}
				})
			}
			return fns, func([]sch.Event) (string, string) {
				var all []string
				for _, x := range got {
					all = append(all, x...)
				}
				out := strings.Join(all, " ")
				slices.Sort(all)
				if len(slices.Compact(all)) != 2*gor {
					return fmt.Sprintf("message IDs generated concurrently are not unique: %v", got), ""
				}
				return "", out
			}
		},
	}
}

// ---- a testing interface that does not order anything ----

type quietT struct{ fails, fatals int }

func (t *quietT) Failed() bool        { return t.fails+t.fatals > 0 }
func (t *quietT) Log(args ...any)     { sch.Log("log", strings.TrimSuffix(fmt.Sprintln(args...), "\n")) }
func (t *quietT) Logf(string, ...any) {}
func (t *quietT) Fatal(args ...any)   { sch.Log("fatal", fmt.Sprint(args...)); t.fatals++ }
func (t *quietT) FailNow()            { sch.Log("failnow", ""); t.fails++ }
func (t *quietT) Helper()             {}

// ---- the command executor ----

// xaction is a Call action. Each goroutine executes some commands.
type xaction struct {
	gor    [][]string // goroutines that are joined
	late   [][]string // goroutines that are not
	own    []string   // commands executed by the function itself
	expect bool
	icept  bool
}

// sexecCase runs the actions one after another.
func sexecCase(name string, bound int, actions ...xaction) *SCase {
	return &SCase{
		Name: name, Bound: bound,
		Deadlock: "no goroutine can continue: an action or command never completes",
		Build: func() ([]func(), func([]sch.Event) (string, string)) {
			t := &quietT{}
			test := testkit.Begin(t, &sApp{sAppX}, testkit.StartTimeAt(epoch),
				testkit.WithUnsafeOperationOptions(engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
					sch.Log("notify", "")
					switch f := f.(type) {
					case fact.DispatchCycleBegun:
						sch.Log("begun", tagOf(f.Envelope.Message))
					case fact.DispatchCycleCompleted:
						sch.Log("completed", tagOf(f.Envelope.Message))
					}
					sch.Point(-33)
					sch.Log("notified", "")
				}))))
			ex := test.CommandExecutor()
			var lateWG sync.WaitGroup
			exec := func(tags []string) {
				for _, tag := range tags {
					func() {
						defer func() {
							if v := recover(); v != nil {
								sch.Log("panicked", fmt.Sprintf("%s %v", tag, v))
							}
						}()
						sch.Log("execute", tag)
						err := ex.ExecuteCommand(context.Background(), CB.make(Base{Tag: tag, Inst: "x"}).(dogma.Command))
						sch.Log("executed", fmt.Sprintf("%s %s", tag, errStr(err)))
					}()
					sch.Point(-34)
				}
			}
			main := func() {
				for i, a := range actions {
					var opts []testkit.CallOption
					if a.icept {
						opts = append(opts, testkit.InterceptCommandExecutor(func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
							sch.Log("intercepted", tagOf(m))
							return e.ExecuteCommand(ctx, m)
						}))
					}
					call := testkit.Call(func() {
						var wg sync.WaitGroup
						for _, tags := range a.gor {
							wg.Add(1)
							sch.Go(func() { defer wg.Done(); exec(tags) })
						}
						for _, tags := range a.late {
							lateWG.Add(1)
							sch.Go(func() { defer lateWG.Done(); exec(tags) })
						}
						exec(a.own)
						wg.Wait()
					}, opts...)
					sch.Log("action", fmt.Sprint(i))
					if a.expect {
						n := 0
						test.Expect(call, testkit.ToSatisfy("see every command", func(t *testkit.SatisfyT) {
							for _, f := range t.Facts {
								if _, ok := f.(fact.DispatchCycleBegun); ok {
									n++
								}
							}
						}))
						sch.Log("expected", fmt.Sprint(i, " ", n))
					} else {
						test.Prepare(call)
					}
					sch.Log("ended", fmt.Sprint(i))
					sch.Point(-35)
				}
				lateWG.Wait()
			}
			return []func(){main}, func(evs []sch.Event) (string, string) {
				return sexecJudge(actions, t, evs)
			}
		},
	}
}

func sexecJudge(actions []xaction, t *quietT, evs []sch.Event) (string, string) {
	act, notifying := -1, false
	where := map[string]int{} // action in which the command was dispatched
	state := map[string]string{}
	icept := map[string]int{}
	seen := map[int]int{}
	out := ""
	for _, e := range evs {
		f := strings.SplitN(e.Text+" ", " ", 2)
		tag, rest := f[0], strings.TrimSpace(f[1])
		switch e.Kind {
		case "action":
			fmt.Sscan(e.Text, &act)
		case "ended":
			act = -1
		case "begun":
			if act < 0 {
				return fmt.Sprintf("the command %s was dispatched outside of an action", tag), ""
			}
			if state[tag] != "execute" {
				return fmt.Sprintf("the command %s was dispatched twice or without being executed", tag), ""
			}
			state[tag] = "begun"
			where[tag] = act
			seen[act]++
			out += tag + " "
		case "completed":
			if act != where[tag] {
				return fmt.Sprintf("the command %s was still being handled after its action ended", tag), ""
			}
			state[tag] = "completed"
		case "execute":
			state[tag] = "execute"
		case "executed":
			if state[tag] != "completed" {
				return fmt.Sprintf("the execution of %s returned before it was handled (%s)", tag, state[tag]), ""
			}
			if rest != "err=nil" {
				return fmt.Sprintf("the execution of %s failed: %s", tag, rest), ""
			}
			state[tag] = "executed"
		case "panicked":
			if state[tag] != "execute" {
				return fmt.Sprintf("the execution of %s panicked after it had an effect: %s", tag, rest), ""
			}
			if !strings.Contains(rest, "cannot be called outside of a test") {
				return fmt.Sprintf("the execution of %s panicked: %s", tag, rest), ""
			}
			state[tag] = "panicked"
			out += tag + "! "
		case "intercepted":
			icept[tag]++
		case "enter", "exit":
			if act < 0 {
				return "a handler was invoked outside of an action", ""
			}
		case "notify":
			if notifying {
				return "an observer was notified by two goroutines at once", ""
			}
			notifying = true
			if act < 0 {
				return "an observer was notified outside of an action", ""
			}
		case "notified":
			notifying = false
		case "expected":
			i, n := 0, 0
			fmt.Sscan(e.Text, &i, &n)
			if n != seen[i] {
				return fmt.Sprintf("%d commands were dispatched during an action, but its expectation saw %d", seen[i], n), ""
			}
		}
	}
	if t.fatals+t.fails > 0 {
		return "the test failed", ""
	}
	for i, a := range actions {
		for k, tags := range append(append([][]string{a.own}, a.gor...), a.late...) {
			late := k > len(a.gor)
			for _, tag := range tags {
				switch {
				case state[tag] == "executed" && (late || where[tag] == i):
				case state[tag] == "panicked" && late:
				default:
					return fmt.Sprintf("the command %s was not executed during its action (%q)", tag, state[tag]), ""
				}
				want := 0
				if a.icept {
					want = 1
				}
				if !late && icept[tag] != want {
					return fmt.Sprintf("the command %s was intercepted %d times instead of %d", tag, icept[tag], want), ""
				}
			}
		}
	}
	return "", out
}

// ---- SatisfyT ----

// satCase runs goroutines that use the same SatisfyT. own are the operations of
// the predicate itself, end how it ends.
func satCase(name string, bound int, own string, end byte, gor ...string) *SCase {
	return &SCase{
		Name: name, Bound: bound,
		Deadlock: "no goroutine can continue: the expectation is never decided",
		Build: func() ([]func(), func([]sch.Event) (string, string)) {
			t := &quietT{}
			test := testkit.Begin(t, &sApp{sAppX}, testkit.StartTimeAt(epoch))
			perform := func(s *testkit.SatisfyT, g int, ops string) {
				failed := false
				for k, op := range ops {
					id := fmt.Sprintf("<%d.%d>", g, k)
					switch op {
					case 'l':
						s.Log("m", id)
					case 'f':
						s.Logf("%s%s", "m", id)
					case 'e':
						s.Error("m", id)
						failed = true
					case 'r':
						s.Errorf("%s%s", "m", id)
						failed = true
					case 'x':
						s.Fail()
						failed = true
					case '?':
						if got := s.Failed(); failed && !got {
							sch.Log("bad", "Failed() returned false after a failure")
						}
						if s.Skipped() && end != 'S' {
							sch.Log("bad", "Skipped() returned true")
						}
						if s.Name() != "satisfy" {
							sch.Log("bad", "wrong name")
						}
						s.Parallel()
					case 'h':
						s.Helper()
					case 'c':
						s.Cleanup(func() { sch.Log("cleanup", id) })
					}
					sch.Log("did", id)
					sch.Point(-36)
				}
			}
			main := func() {
				test.Expect(testkit.Call(func() {}), testkit.ToSatisfy("satisfy", func(s *testkit.SatisfyT) {
					var wg sync.WaitGroup
					for i, ops := range gor {
						wg.Add(1)
						sch.Go(func() { defer wg.Done(); perform(s, i+1, ops) })
					}
					s.Cleanup(wg.Wait)
					perform(s, 0, own)
					switch end {
					case 'F':
						s.FailNow()
					case 'T':
						s.Fatal("m<fatal>")
					case 'S':
						s.Skip("m<skip>")
					default:
						wg.Wait()
					}
				}))
			}
			return []func(){main}, func(evs []sch.Event) (string, string) {
				return satJudge(own, end, gor, t, evs)
			}
		},
	}
}

func satJudge(own string, end byte, gor []string, t *quietT, evs []sch.Event) (string, string) {
	all := append([]string{own}, gor...)
	fail := end == 'F' || end == 'T'
	for _, ops := range all {
		fail = fail || strings.ContainsAny(ops, "erx")
	}
	if end == 'S' {
		fail = false
	}
	report, cleanups := "", map[string]int{}
	for _, e := range evs {
		switch e.Kind {
		case "bad":
			return e.Text, ""
		case "log":
			if strings.Contains(e.Text, "TEST REPORT") {
				report = e.Text
			}
		case "cleanup":
			cleanups[e.Text]++
		}
	}
	if t.fatals > 0 || (t.fails > 0) != fail {
		return fmt.Sprintf("expected the failure of the expectation to be %v (failed %d times)", fail, t.fails), ""
	}
	out := ""
	pos := map[string]int{}
	// The log is only shown below the fold of the report.
	for i, l := range strings.Split(report, "\n") {
		if k := strings.Index(l, "m<"); k >= 0 {
			id := strings.TrimSpace(l[k+1:])
			if _, ok := pos[id]; ok {
				return fmt.Sprintf("the message %s was recorded twice", id), ""
			}
			pos[id] = i
			out += id
		}
	}
	n := 0
	for g, ops := range all {
		last := -1
		for k, op := range ops {
			id := fmt.Sprintf("<%d.%d>", g, k)
			if op == 'c' {
				if cleanups[id] != 1 {
					return fmt.Sprintf("the cleanup function %s was called %d times", id, cleanups[id]), ""
				}
				continue
			}
			if !strings.ContainsRune("lfer", op) {
				continue
			}
			n++
			p, ok := pos[id]
			if !ok {
				return fmt.Sprintf("the message %s was lost; the report is\n%s", id, report), ""
			}
			if p < last {
				return fmt.Sprintf("the messages of goroutine %d are recorded in the wrong order; the report is\n%s", g, report), ""
			}
			last = p
		}
	}
	if end == 'T' {
		n++
		if _, ok := pos["<fatal>"]; !ok {
			return "the message of Fatal() was lost", ""
		}
	}
	if end == 'S' {
		n++
		if _, ok := pos["<skip>"]; !ok {
			return "the message of Skip() was lost", ""
		}
	}
	if len(pos) != n {
		return fmt.Sprintf("%d messages were logged, but %d were recorded", n, len(pos)), ""
	}
	if fail && !strings.Contains(report, "called") {
		return "the report does not say where the failure was reported:\n" + report, ""
	}
	return "", out
}

// ---- compaction in parallel with handling ----

// compCase dispatches events to projections that are compacted meanwhile.
func compCase(name string, bound int, a *AppSpec, msgs ...sop) *SCase {
	var cfg configkit.RichApplication
	return &SCase{
		Name: name, Bound: bound,
		Deadlock: "no goroutine can continue: an operation never completes",
		Build: func() ([]func(), func([]sch.Event) (string, string)) {
			if cfg == nil {
				cfg = newSApp(a)
			}
			e := engine.MustNew(cfg, engine.EnableProjectionCompactionDuringHandling(true))
			var fns []func()
			for _, o := range msgs {
				fns = append(fns, func() {
					sch.Log("call", o.name)
					defer func() { sch.Log("return", o.name+" "+fmt.Sprint(recover())) }()
					opts := []engine.OperationOption{
						engine.WithCurrentTime(epoch.Add(o.at)),
						engine.EnableProjections(true),
						engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
							sch.Log("notify", sFact(f))
							sch.Point(-37)
							sch.Log("notified", "")
						})),
					}
					if o.kind == 't' {
						sch.Log("result", errStr(e.Tick(context.Background(), opts...)))
					} else {
						sch.Log("result", errStr(e.Dispatch(context.Background(), o.mt.make(o.base), opts...)))
					}
				})
			}
			return fns, func(evs []sch.Event) (string, string) { return compJudge(a, msgs, evs) }
		},
	}
}

func compJudge(a *AppSpec, msgs []sop, evs []sch.Event) (string, string) {
	ops := map[int]bool{}
	notifying := -1
	compacting := map[string]int{}
	logs := map[string][]string{}
	out := ""
	overlap := false
	handling := 0
	panics := false // the compaction that was started then goes on
	for _, o := range msgs {
		panics = panics || strings.Contains(o.base.Tag, "panic")
	}
	for _, e := range evs {
		switch e.Kind {
		case "call":
			ops[e.G] = true
		case "notify":
			if notifying >= 0 {
				return "an observer was notified by two goroutines at once", ""
			}
			if !ops[e.G] {
				return "an observer was notified by a goroutine that did not call the engine", ""
			}
			notifying = e.G
			h := ""
			if i := strings.Index(e.Text, " h="); i >= 0 {
				h = strings.Fields(e.Text[i+3:])[0]
			}
			switch {
			case strings.HasPrefix(e.Text, "f.ProjectionCompactionBegun"):
				logs[h] = nil
				out += "B" + h
			case strings.HasPrefix(e.Text, "f.MessageLoggedByProjection"):
				logs[h] = append(logs[h], e.Text)
				switch {
				case strings.Contains(e.Text, `"compacting"`):
					out += "1"
				case strings.Contains(e.Text, `"compacted"`):
					out += "2"
				default:
					out += "L"
				}
			case strings.HasPrefix(e.Text, "f.ProjectionCompactionCompleted"):
				out += "C"
				if compacting[h] != 0 && !panics {
					return "compaction was reported to be completed while it was in progress", ""
				}
				n, k := 0, 0
				for _, l := range logs[h] {
					if strings.Contains(l, `"compacting"`) {
						n++
					}
					if strings.Contains(l, `"compacted"`) {
						k++
						if n != k {
							return "the messages logged by compaction are in the wrong order", ""
						}
					}
				}
				if n != 1 || k != 1 {
					return fmt.Sprintf("messages logged by compaction were lost or duplicated: %v", logs[h]), ""
				}
			case strings.HasPrefix(e.Text, "f.HandlingCompleted"):
				out += ";"
			}
		case "notified":
			notifying = -1
		case "compact":
			compacting[e.Text]++
			overlap = overlap || handling > 0
		case "compacted":
			compacting[e.Text]--
		case "enter":
			handling++
			for _, n := range compacting {
				overlap = overlap || n > 0
			}
			if handling > 1 {
				return "handlers were invoked concurrently", ""
			}
		case "exit":
			handling--
		case "result":
			if e.Text != "err=nil" {
				return "an operation failed: " + e.Text, ""
			}
		case "return":
			out += "."
		}
	}
	// Every event was logged by every projection, exactly once.
	for _, o := range msgs {
		if o.kind == 't' {
			continue
		}
		for _, h := range a.H {
			n := 0
			for _, e := range evs {
				if e.Kind == "notify" && strings.Contains(e.Text, " h="+h.Name+" ") && strings.Contains(e.Text, `"projection of %s"`) && strings.Contains(e.Text, "args=["+o.base.Tag+"]") {
					n++
				}
			}
			if n != 1 && !strings.Contains(o.base.Tag, "panic") {
				return fmt.Sprintf("the message logged by %s for %s was reported %d times", h.Name, o.base.Tag, n), ""
			}
		}
	}
	if overlap {
		out += " parallel"
	}
	return "", out
}

var sAppX *AppSpec

func c15Cases(tier string) []*SCase {
	quick := tier == "quick"
	if sAppX == nil {
		sAppX = app(HSpec{Name: "a", Kind: Agg, In: []MT{CB}, Out: []MT{EA}})
	}
	b := func(q, t int) int {
		if quick {
			return q
		}
		return t
	}
	var cs []*SCase
	// The buffer; the slice is full, or has room for more.
	for before := 0; before < 4; before++ {
		cs = append(cs,
			bufferCase(fmt.Sprint("buffer/", before, "/2w1r"), b(3, 4), before, [][]int{{1, 2}, {3, 4}}, 1),
			bufferCase(fmt.Sprint("buffer/", before, "/1w2r"), b(3, 4), before, [][]int{{1, 2, 3}}, 2),
			bufferCase(fmt.Sprint("buffer/", before, "/3w"), b(2, 3), before, [][]int{{1, 2}, {3, 4}, {5, 6}}, 0),
			bufferCase(fmt.Sprint("buffer/", before, "/3w2r"), b(1, 2), before, [][]int{{1}, {2}, {3}}, 2),
		)
	}
	for _, before := range []int{1023, 1024, 3000} {
		cs = append(cs, bufferCase(fmt.Sprint("buffer/", before, "/1w1r"), 1, before, [][]int{{1, 2}}, 1))
	}
	cs = append(cs, idCase("ids/2", 4, 2), idCase("ids/3", b(3, 4), 3))
	// The command executor.
	s := func(x ...string) []string { return x }
	g := func(x ...[]string) [][]string { return x }
	for _, expect := range []bool{false, true} {
		n := map[bool]string{false: "prepare", true: "expect"}[expect]
		cs = append(cs,
			sexecCase("executor/"+n+"/joined", b(1, 2), xaction{gor: g(s("a1"), s("b1")), expect: expect}),
			sexecCase("executor/"+n+"/own", b(1, 2), xaction{gor: g(s("a1")), own: s("m1"), expect: expect}),
			sexecCase("executor/"+n+"/late", b(2, 3), xaction{late: g(s("a1")), expect: expect}),
			sexecCase("executor/"+n+"/latetwo", b(1, 2), xaction{late: g(s("a1"), s("b1")), expect: expect}),
			sexecCase("executor/"+n+"/latenext", b(1, 2), xaction{late: g(s("a1")), expect: expect}, xaction{own: s("m2"), expect: expect}),
			sexecCase("executor/"+n+"/next", b(1, 2), xaction{late: g(s("a1", "a2")), own: s("m1"), expect: expect}, xaction{expect: !expect}),
			sexecCase("executor/"+n+"/intercept", b(1, 2), xaction{gor: g(s("a1"), s("b1")), icept: true, expect: expect}, xaction{gor: g(s("a2")), expect: expect}),
		)
	}
	// SatisfyT.
	ops := "lerfx?hc"
	for _, x := range ops {
		for _, y := range ops {
			cs = append(cs, satCase(fmt.Sprintf("satisfy/%c/%c", x, y), b(2, 3), "", 0, string(x), string(y)))
			cs = append(cs, satCase(fmt.Sprintf("satisfy/own%c/%c", x, y), b(2, 3), string(x), 0, string(y)))
			if !quick {
				for _, z := range ops {
					cs = append(cs, satCase(fmt.Sprintf("satisfy/%c%c/%c", x, y, z), 2, "", 0, string(x)+string(y), string(z)))
				}
			}
		}
		for _, end := range "FTS" {
			cs = append(cs, satCase(fmt.Sprintf("satisfy/%c/end%c", x, end), b(2, 3), "", byte(end), string(x)))
		}
		cs = append(cs, satCase(fmt.Sprintf("satisfy/%cl/%cl", x, x), b(2, 3), "", 0, string(x)+"l", string(x)+"l"))
		cs = append(cs, satCase(fmt.Sprintf("satisfy/%c?/e?/l?", x), b(1, 2), "", 0, string(x)+"?", "e?", "l?"))
	}
	// Compaction.
	v := func(names ...string) *AppSpec {
		var hs []HSpec
		for _, n := range names {
			hs = append(hs, HSpec{Name: n, Kind: Proj, In: []MT{EA, EC}})
		}
		return app(hs...)
	}
	one, two := sdisp("e1", EA, "e1", "x"), sdisp("e2", EC, "e2", "x")
	pan := sdisp("e1", EA, "panic", "x")
	tick := sop{name: "t", kind: 't', at: 48 * time.Hour}
	cs = append(cs,
		compCase("compact/1", b(3, 5), v("v"), one),
		compCase("compact/2", b(2, 3), v("v", "w"), one),
		compCase("compact/1/2", b(2, 3), v("v"), one, two),
		compCase("compact/1/tick", b(2, 3), v("v"), one, tick),
		compCase("compact/panic", b(3, 4), v("v"), pan),
		compCase("compact/panic/2", b(2, 3), v("v"), pan, two),
	)
	return cs
}

func init() {
	registerSched(&Check{
		ID:   "C15",
		Rule: "all schedules with a bounded number of preemptions, at statement granularity, of small programs: writers and readers of a fact buffer, generators of message IDs, goroutines that execute commands during and after an action, goroutines that use the same SatisfyT, and projections that are compacted while they handle events; every program is also judged by the race detector, with a smaller bound",
	}, c15Cases)
}
