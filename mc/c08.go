package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

func selC08(e *Ev) string {
	switch e.K {
	case "proj.Compact", "f.ProjectionCompactionBegun", "f.ProjectionCompactionCompleted", "f.HandlingCompleted", "f.TickCompleted", "return":
		return e.String()
	case "proj.Handle", "f.HandlingBegun", "f.TickBegun":
		return e.K + " " + e.H + " " + e.E.Msg
	case "panic", "op":
		return e.K
	}
	return ""
}

func init() {
	apps := app(
		HSpec{Name: "v", Kind: Proj, In: []MT{EA}},
		HSpec{Name: "w", Kind: Proj, In: []MT{EA, EB}},
		HSpec{Name: "x", Kind: Proj, In: []MT{EC}, Disabled: true},
		HSpec{Name: "i", Kind: Int, In: []MT{CA}, Out: []MT{EA, EB}},
	)
	zone := time.FixedZone("somewhere", 9*3600)
	h := time.Hour
	times := []time.Time{epoch, epoch.Add(1), epoch.Add(h - 1), epoch.Add(h).In(zone), epoch.Add(h + 1), epoch.Add(2 * h), epoch.Add(2*h + 1), epoch.Add(-h)}
	off := func(o Op, n string) Op { o.En = []EnOpt{{Name: n}}; return o }
	on := func(o Op, n string) Op { o.En = []EnOpt{{Name: n, On: true}}; return o }
	ticks := []Op{tick(0), tick(1), tick(2), tick(3), tick(4), tick(5), tick(6), off(tick(3), "v"), on(tick(3), "x"), disp(EA, "", "i", 3)}
	gen := G{errs: true, proj: true, compact: true}.gen
	register(&Check{
		ID:   "C08",
		Rule: ruleEngine + "; enumerated: every sequence of ticks at times around the hourly boundary and every outcome of compaction, and every outcome of handling and compaction that run in parallel; separately every rendezvous between handling and compaction",
		Assumptions: []string{
			"engine times within an hour of the zero time are not used",
		},
		Cases: func(tier string) []*Case {
			var cs []*Case
			cs = append(cs, budgets(tierN(tier, 1, 2), func(b int) *EngGen {
				return &EngGen{name: "schedule", app: apps, times: times, sel: selC08, ops: seqOps(ticks, 4, true), gen: gen}
			})...)
			cs = append(cs, (&EngGen{name: "long", app: apps, times: times, sel: selC08, ops: seqOps(ticks[:7], tierN(tier, 5, 6), true), gen: gen}).Case())
			cs = append(cs, budgets(1, func(b int) *EngGen {
				return &EngGen{name: "any-time", app: apps, times: times, sel: selC08, ops: seqOps([]Op{tick(0), tick(2), tick(3), tick(5), tick(7), reset()}, 4, false), gen: gen}
			})...)
			cs = append(cs, budgets(tierN(tier, 3, 4), func(b int) *EngGen {
				return &EngGen{name: "during-handling", app: apps, times: times, sel: selC08, compactDH: true,
					ops: seqOps([]Op{disp(EA, "", "i", 0), disp(EB, "", "i", 3), disp(CA, "", "i", 0), tick(0), tick(3)}, 3, true), gen: gen}
			})...)
			cs = append(cs, budgets(tierN(tier, 2, 3), func(b int) *EngGen {
				return &EngGen{name: "panics", app: apps, times: times, sel: selC08, compactDH: true,
					ops: seqOps([]Op{disp(EA, "", "i", 0), disp(EB, "", "i", 3), tick(0), tick(3)}, 3, true), gen: G{errs: true, panics: true, proj: true, compact: true}.gen}
			})...)
			cs = append(cs, testCompaction(tierN(tier, 5, 6)))
			cs = append(cs, rendezvous(tier)...)
			return cs
		},
	})
}

const longWait = 40 * time.Second

// gate is a projection whose handling and compaction wait for each other.
type gate struct {
	mode                 int
	handleErr, compErr   bool
	handle, handled      chan struct{}
	comp, comped         chan struct{}
	stuck                atomic.Pointer[string]
	running, compRunning atomic.Int32
}

func (g *gate) wait(c chan struct{}, what string) {
	select {
	case <-c:
	case <-time.After(longWait):
		g.stuck.Store(&what)
	}
}

type gateProj struct {
	dogma.ProjectionMessageHandler
	cur *gate
}

func (p *gateProj) Configure(c dogma.ProjectionConfigurer) {
	c.Identity("gate", "0c2c6e2c-4ec5-4d3f-a4d3-0e0d5a9bd0c1")
	c.Routes(dogma.HandlesEventRoute{Type: mts[EA].rt})
}
func (p *gateProj) ResourceVersion(context.Context, []byte) ([]byte, error) { return nil, nil }
func (p *gateProj) CloseResource(context.Context, []byte) error             { return nil }
func (p *gateProj) HandleEvent(context.Context, []byte, []byte, []byte, dogma.ProjectionEventScope, dogma.Event) (bool, error) {
	g := p.cur
	defer close(g.handled)
	close(g.handle)
	switch g.mode {
	case 0:
		g.wait(g.comp, "handling waits for compaction to begin")
	case 1:
		g.wait(g.comped, "handling waits for compaction to finish")
	}
	if g.handleErr {
		return false, &UserErr{"handle"}
	}
	return true, nil
}
func (p *gateProj) Compact(ctx context.Context, sc dogma.ProjectionCompactScope) error {
	g := p.cur
	defer close(g.comped)
	close(g.comp)
	switch g.mode {
	case 0:
		g.wait(g.handle, "compaction waits for handling to begin")
	case 2:
		g.wait(g.handled, "compaction waits for handling to finish")
		// Give an engine that does not wait the chance to go on.
		time.Sleep(20 * time.Millisecond)
	}
	if g.compErr {
		return &UserErr{"compact"}
	}
	return nil
}

type gateApp struct{ p *gateProj }

func (a *gateApp) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("gates", "e8a8f5f5-7d8c-4f52-8dc0-9b9b3a5ae4c2")
	c.RegisterProjection(a.p)
}

func rendezvous(tier string) []*Case {
	var cs []*Case
	for mode := 0; mode < 3; mode++ {
		cs = append(cs, &Case{Name: fmt.Sprintf("rendezvous/%d", mode), Body: func(w *Worker, c *Chooser) string {
			p := &gateProj{}
			e, err := engine.New(configkit.FromApplication(&gateApp{p}), engine.EnableProjectionCompactionDuringHandling(true))
			if err != nil {
				return "engine.New: " + err.Error()
			}
			defer w.st.nontrivial.Add(1)
			var out []string
			for i := 0; i < 2; i++ {
				g := &gate{mode: mode, handle: make(chan struct{}), handled: make(chan struct{}), comp: make(chan struct{}), comped: make(chan struct{}),
					handleErr: c.Bool(), compErr: c.Bool()}
				p.cur = g
				var problem string
				var facts []string
				err := e.Dispatch(context.Background(), EA.make(Base{Tag: optag(i), Inst: "i"}),
					engine.EnableProjections(true), engine.WithCurrentTime(epoch),
					engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
						switch f.(type) {
						case fact.HandlingCompleted:
							facts = append(facts, "HandlingCompleted")
							select {
							case <-g.comped:
							default:
								problem = "the handling of the event is reported as completed while compaction is still running"
							}
						case fact.ProjectionCompactionBegun:
							facts = append(facts, "CompactionBegun")
						case fact.ProjectionCompactionCompleted:
							facts = append(facts, "CompactionCompleted")
							select {
							case <-g.comped:
							default:
								problem = "compaction is reported as completed while it is still running"
							}
						}
					})))
				w.st.transitions.Add(1)
				if s := g.stuck.Load(); s != nil {
					return "not parallel: " + *s + " without success"
				}
				if problem != "" {
					return problem
				}
				got := strings.Join(facts, " ")
				if want := "CompactionBegun CompactionCompleted HandlingCompleted"; got != want {
					return fmt.Sprintf("facts %s, want %s", got, want)
				}
				want := "nil"
				if g.handleErr {
					want = "handle"
				} else if g.compErr {
					want = "compact"
				}
				if s := errStr(err); (want == "nil") != (err == nil) || !strings.Contains(s, want) {
					return fmt.Sprintf("error %s, want %s", s, want)
				}
				out = append(out, got+errStr(err))
			}
			w.st.State(hashInts(uint64(mode), hashStr(strings.Join(out, ";"))))
			w.st.Outcome(hashStr(strings.Join(out, ";")))
			return ""
		}})
	}
	return cs
}

// testCompaction enumerates the actions of a test; events are always handled
// with compaction in parallel.
func testCompaction(n int) *Case {
	spec := app(
		HSpec{Name: "v", Kind: Proj, In: []MT{EA, EB}},
		HSpec{Name: "w", Kind: Proj, In: []MT{EA}},
	)
	return &Case{Name: "test", Budget: 1, Body: func(w *Worker, c *Chooser) string {
		s := newSess(spec, 0)
		var got, want, steps []string
		bad := 0 // compactions until one fails
		s.a.onCompact = func(h *HSpec, now time.Time) error {
			got = append(got, h.Name+"@"+tstr(now))
			if bad--; bad == 0 {
				return errBoom
			}
			return nil
		}
		on := map[string]bool{}
		last := map[string]time.Time{}
		now := epoch
		fails := 0
		expect := func(h string) {
			want = append(want, h+"@"+tstr(now))
		}
		for i := 0; i < n; i++ {
			var a testkit.Action
			got, want = nil, nil
			bad = c.Dev(2)
			k := c.Choose(7)
			steps = append(steps, fmt.Sprint(k, " fail=", bad))
			switch k {
			case 0, 1:
				h := []string{"v", "w"}[k]
				if on[h] = !on[h]; on[h] {
					s.test.EnableHandlers(h)
				} else {
					s.test.DisableHandlers(h)
				}
				continue
			case 2, 3:
				a = testkit.RecordEvent([]MT{EA, EB}[k-2].make(Base{Tag: "1", Inst: "x"}).(dogma.Event))
				for _, h := range []string{"v", "w"} {
					if on[h] && (h == "v" || k == 2) {
						expect(h)
					}
				}
			default:
				d := []time.Duration{0, 40 * time.Minute, time.Hour}[k-4]
				now = now.Add(d)
				a = testkit.AdvanceTime(testkit.ByDuration(d))
				for _, h := range []string{"v", "w"} {
					if l, ok := last[h]; on[h] && (!ok || now.Sub(l) >= time.Hour) {
						expect(h)
						last[h] = now
					}
				}
			}
			if bad == 1 && len(want) > 0 {
				fails++
			}
			s.test.Prepare(a)
			slices.Sort(got)
			if !slices.Equal(got, want) {
				return fmt.Sprintf("steps %v: compacted %v, want %v", steps, got, want)
			}
		}
		if len(s.t.fatals) != fails {
			return fmt.Sprintf("steps %v: errors %q, want %d", steps, s.t.fatals, fails)
		}
		m2done(w, "test", c, fmt.Sprint(steps, on, last), n, func() any { return map[string]any{"steps": steps} })
		return ""
	}}
}
