package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// execBubble replaces the process with one that has a virtual clock.
func execBubble() {
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir = os.TempDir()
	}
	if err := modFiles(dir); err != nil {
		fatalf("%s", err)
	}
	bin := filepath.Join(dir, "mcbubble")
	cmd := exec.Command("go", "build", "-mod=mod", "-modfile="+filepath.Join(dir, "go.mod"), "-buildvcs=false", "-o", bin, ".")
	cmd.Dir = "/verif/mc"
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOEXPERIMENT=synctest")
	if out, err := cmd.CombinedOutput(); err != nil {
		fatalf("cannot build with a virtual clock: %s\n%s", err, out)
	}
	fatalf("cannot execute %s: %v", bin, syscall.Exec(bin, append([]string{bin}, os.Args[1:]...), os.Environ()))
}

// rtick is what happens during and after a tick.
type rtick struct {
	at    time.Duration // start, since the start of the run
	now   time.Time     // engine time
	facts []string
}

type runScenario struct {
	scaled bool
	d      time.Duration
	f      float64
	epoch  time.Time
	opt    int
	ctx    int // 0 cancel, 1 deadline
	acts   []string
}

func (s *runScenario) String() string {
	return fmt.Sprintf("scaled=%v interval=%s factor=%g epoch=%s options=%s context=%d ticks=%v",
		s.scaled, s.d, s.f, s.epoch.Format(time.RFC3339Nano), runOptNames[s.opt], s.ctx, s.acts)
}

var runOptNames = []string{"none", "explicit time", "processes disabled", "handler disabled", "two observers", "explicit time last", "processes disabled, handler enabled"}

func c16Body(api int, ticks int, w *Worker, c *Chooser) (detail string) {
	s := &runScenario{f: 1}
	intervals := []time.Duration{0, time.Millisecond, 250 * time.Millisecond, time.Hour}
	long := ticks > 20
	if long {
		intervals = []time.Duration{0, time.Hour}
	}
	s.d = intervals[c.Choose(len(intervals))]
	if api == 1 {
		s.scaled = true
		fs := []float64{1, 2, 0.5, 1000, 0.001, 0, 1.0 / 3}
		if !long {
			s.f = fs[c.Choose(len(fs))]
		}
		epochs := []time.Time{
			{},
			time.Date(2030, 1, 2, 3, 4, 5, 6, time.UTC),
			time.Date(1900, 1, 2, 3, 4, 5, 999999999, time.FixedZone("x", 3600)),
			time.Time{}.In(time.FixedZone("y", -7200)),
			time.Time{}.Add(48 * time.Hour),
		}
		if long {
			s.f, s.epoch = fs[c.Choose(3)], epochs[1]
		} else {
			s.epoch = epochs[c.Choose(len(epochs))]
		}
	}
	if !long {
		s.opt = c.Choose(len(runOptNames))
		s.ctx = c.Choose(2)
	}

	func() {
		defer func() {
			if v := recover(); v != nil {
				detail = fmt.Sprintf("panic: %v", v)
			}
		}()
		bubble(func() {
			defer func() {
				if v := recover(); v != nil {
					detail = fmt.Sprintf("panic: %v", v)
				}
			}()
			detail = c16Run(s, ticks, c)
		})
	}()
	if detail != "" {
		return detail + "\n  " + s.String()
	}
	m2done(w, "run", c, fmt.Sprint(s.scaled, s.d, s.f, s.opt, s.acts), len(s.acts), func() any { return s.String() })
	return ""
}

func c16Run(s *runScenario, maxTicks int, c *Chooser) string {
	explicit := time.Date(2040, 5, 6, 7, 8, 9, 10, time.UTC)
	past := time.Time{}.Add(time.Hour)
	userErr := &UserErr{"tick failed"}

	fail, handled := false, 0
	a := &TApp{spec: c16App}
	a.on = func(h *HSpec, m dogma.Message, sc *TScope) error {
		if _, ok := m.(dogma.Event); ok {
			sc.Produce(TA.make(Base{Tag: "t"}), past.Add(time.Second))
			return nil
		}
		handled++
		if fail {
			return userErr
		}
		return nil
	}
	e := engine.MustNew(configkit.FromApplication(a))
	// schedule lets the next tick handle a timeout.
	schedule := func() {
		if err := e.Dispatch(context.Background(), EA.make(Base{Tag: "e", Inst: "x"}), engine.WithCurrentTime(past)); err != nil {
			panic(err)
		}
	}
	schedule()

	var ctx context.Context
	var cancel context.CancelFunc
	var start time.Time
	interval := s.d
	if interval == 0 {
		interval = 250 * time.Millisecond
	}
	wantErr := context.Canceled
	// The deadline is chosen up front: half an interval after the first or the
	// second tick, if no tick takes any time.
	deadline := time.Duration(-1)
	if s.ctx == 1 {
		wantErr = context.DeadlineExceeded
		deadline = interval/2 + time.Duration(c.Choose(2))*interval
	}

	var got []rtick
	next := time.Duration(0) // when the next tick is due
	ended := false
	endAt := time.Duration(0)
	var endErr error
	bad := ""
	enabled := s.opt != 2 && s.opt != 3
	end := func(err error) {
		if !ended {
			ended, endErr = true, err
			endAt = time.Since(start)
		}
	}
	var secondGot []rtick
	phase := 0
	obs := fact.ObserverFunc(func(f fact.Fact) {
		if phase != 1 {
			switch f := f.(type) {
			case fact.TickCycleBegun:
				secondGot = append(secondGot, rtick{at: time.Since(start), now: f.EngineTime})
				if len(secondGot) > 8 {
					panic("runaway execution")
				}
			}
			return
		}
		switch f := f.(type) {
		case fact.TickCycleBegun:
			t := rtick{at: time.Since(start), now: f.EngineTime}
			got = append(got, t)
			k := len(got) - 1
			if ended {
				bad = "a tick was performed although the run should have ended"
			}
			if len(got) > maxTicks+2 {
				panic("runaway execution")
			}
			if t.at != next {
				bad = fmt.Sprintf("tick %d was performed %s after the start instead of %s", k, t.at, next)
			}
			want := s.epoch
			if want.IsZero() {
				want = start
			}
			want = want.Add(time.Duration(float64(t.at) * s.f))
			if s.opt == 1 || s.opt == 5 {
				want = explicit
			}
			if diff := t.now.Sub(want); diff > 2*time.Microsecond || diff < -2*time.Microsecond {
				bad = fmt.Sprintf("the engine time of tick %d is %s instead of %s", k, t.now.Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
			}
			act := "cancel"
			if s.ctx == 1 {
				// Ticks take no time, until the deadline.
				act = []string{"ok", "fail"}[c.Choose(2)]
				if !enabled {
					act = "ok"
				}
			} else if k < maxTicks {
				alts := []string{"ok", "cancelled while waiting", "slow", "very slow", "cancelled", "cancelled late", "fail", "slow, fail"}
				if !enabled {
					alts = alts[:6]
				}
				if maxTicks > 20 {
					act = alts[c.Dev(len(alts))]
				} else {
					act = alts[c.Choose(len(alts))]
				}
			}
			s.acts = append(s.acts, act)
			switch {
			case strings.HasPrefix(act, "slow"):
				time.Sleep(interval / 4)
			case act == "very slow":
				time.Sleep(3*interval + interval/4)
			case act == "cancelled" || act == "cancel":
				cancel()
				end(context.Canceled)
			}
			fail = strings.HasSuffix(act, "fail")
		case fact.TickCycleCompleted:
			act := s.acts[len(s.acts)-1]
			if fail {
				end(userErr)
				break
			}
			next = time.Since(start) + interval
			switch act {
			case "ok", "slow", "very slow":
				time.AfterFunc(interval/2, schedule)
			case "cancelled while waiting":
				time.AfterFunc(interval/2, func() { end(context.Canceled); cancel() })
			case "cancelled late":
				time.Sleep(interval / 4)
				cancel()
				end(context.Canceled)
			}
		case fact.TickBegun:
			if k := len(got) - 1; k >= 0 {
				got[k].facts = append(got[k].facts, "begun "+f.Handler.Identity().Name)
			}
		case fact.TickSkipped:
			if k := len(got) - 1; k >= 0 {
				got[k].facts = append(got[k].facts, "skipped "+f.Handler.Identity().Name)
			}
		}
	})
	second := 0
	opts := make([]engine.OperationOption, 0, 8)
	opts = append(opts, engine.WithObserver(obs))
	switch s.opt {
	case 1:
		opts = append([]engine.OperationOption{engine.WithCurrentTime(explicit)}, opts...)
	case 2:
		opts = append(opts, engine.EnableProcesses(false))
	case 3:
		opts = append(opts, engine.EnableHandler("p", false))
	case 4:
		opts = append(opts, engine.WithObserver(fact.ObserverFunc(func(f fact.Fact) {
			if _, ok := f.(fact.TickCycleBegun); ok && phase == 1 {
				second++
			}
		})))
	case 5:
		opts = append(opts, engine.WithCurrentTime(explicit))
	case 6:
		opts = append(opts, engine.EnableProcesses(false), engine.EnableHandler("p", true))
	}

	run := func() error {
		if s.scaled {
			return engine.RunTimeScaled(ctx, e, s.d, s.f, s.epoch, opts...)
		}
		return engine.Run(ctx, e, s.d, opts...)
	}
	time.Sleep(12345 * time.Microsecond)
	start = time.Now()
	if s.ctx == 0 {
		ctx, cancel = context.WithCancel(context.Background())
	} else {
		ctx, cancel = context.WithTimeout(context.Background(), deadline)
	}
	defer cancel()
	phase = 1
	err := run()
	at := time.Since(start)
	phase = 2
	if bad != "" {
		return bad
	}
	if s.ctx == 1 && !ended {
		ended, endErr, endAt = true, wantErr, deadline
		if n := int(deadline/interval) + 1; len(got) != n {
			return fmt.Sprintf("%d ticks were performed instead of %d", len(got), n)
		}
	}
	if err == nil {
		return "the run ended without an error"
	}
	if !ended {
		return fmt.Sprintf("the run ended early, %s after the start: %s", at, err)
	}
	if !errors.Is(err, endErr) {
		return fmt.Sprintf("the run returned %v instead of %v", err, endErr)
	}
	if at != endAt {
		return fmt.Sprintf("the run ended %s after the start instead of %s", at, endAt)
	}
	want := "begun p"
	if !enabled {
		want = "skipped p"
	}
	for k, t := range got {
		if f := strings.Join(t.facts, ","); f != want {
			return fmt.Sprintf("tick %d did not respect the options: %q instead of %q", k, f, want)
		}
	}
	if n := len(got); enabled && handled != n && handled != n-1 {
		return fmt.Sprintf("%d timeouts were handled by %d ticks", handled, n)
	}
	if s.opt == 4 && second != len(got) {
		return fmt.Sprintf("an observer was notified of %d ticks instead of %d", second, len(got))
	}
	// The caller's options are not modified.
	fail = false
	time.Sleep(777 * time.Microsecond)
	check := func(what string, at time.Duration, want time.Time) string {
		if s.opt == 1 || s.opt == 5 {
			want = explicit
		}
		if len(secondGot) == 0 {
			return what + " was not observed"
		}
		if secondGot[0].at != at {
			return fmt.Sprintf("%s took place %s after the start instead of %s", what, secondGot[0].at, at)
		}
		if diff := secondGot[0].now.Sub(want); diff > 2*time.Microsecond || diff < -2*time.Microsecond {
			return fmt.Sprintf("the engine time of %s is %s instead of %s", what, secondGot[0].now.Format(time.RFC3339Nano), want.Format(time.RFC3339Nano))
		}
		return ""
	}
	if c.Choose(2) == 0 {
		// A tick with the options that were given to the run.
		start = time.Now()
		if err := e.Tick(context.Background(), opts...); err != nil {
			return "the tick after the run failed: " + err.Error()
		}
		return check("a tick after the run", 0, start)
	}
	// Another run.
	start = time.Now()
	ctx, cancel = context.WithTimeout(context.Background(), interval/2)
	defer cancel()
	s.acts = append(s.acts, "run again")
	if err := run(); err != context.DeadlineExceeded {
		return fmt.Sprintf("the second run returned %v", err)
	}
	if len(secondGot) != 1 {
		return fmt.Sprintf("the second run performed %d ticks", len(secondGot))
	}
	w := s.epoch
	if w.IsZero() {
		w = start
	}
	return check("the first tick of the second run", 0, w)
}

var c16App = app(HSpec{Name: "p", Kind: Proc, In: []MT{EA}, Out: []MT{CB, TA}})

func init() {
	register(&Check{
		ID:   "C16",
		Rule: "all combinations of interval, factor, epoch, options and context, with every sequence of what happens during the first ticks (nothing, slow, very slow, failure, cancellation during the tick or while waiting, deadline), executed with a virtual clock; a tick or another run follows",
		Assumptions: []string{
			"a context that is cancelled before the run or at the instant at which a tick is due is excluded",
			"the engine is not used by others during the run",
			"engine times are compared with a tolerance of 2 microseconds",
		},
		Bubble: true,
		Cases: func(tier string) []*Case {
			n := 3
			if tier != "quick" {
				n = 4
			}
			return []*Case{
				{Name: "run", Body: func(w *Worker, c *Chooser) string { return c16Body(0, n+1, w, c) }},
				{Name: "scaled", Body: func(w *Worker, c *Chooser) string { return c16Body(1, n, w, c) }},
				{Name: "run/long", Budget: 1, Body: func(w *Worker, c *Chooser) string { return c16Body(0, 130, w, c) }},
				{Name: "scaled/long", Budget: 1, Body: func(w *Worker, c *Chooser) string { return c16Body(1, 130, w, c) }},
			}
		},
	})
}
