package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Chooser resolves the nondeterministic choices of one execution. A choice is
// taken from the prefix that is being replayed, or is 0 once the prefix is
// exhausted; the explorer then enumerates the remaining alternatives.
type Chooser struct {
	prefix []int
	path   []int
	widths []int
	budget int
}

// Choose returns a value in [0,n).
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic("Choose: n must be positive")
	}
	v := 0
	if len(c.path) < len(c.prefix) {
		v = c.prefix[len(c.path)]
		if v >= n {
			panic(nondeterminism(fmt.Sprintf("replayed choice %d of %d at depth %d", v, n, len(c.path))))
		}
	}
	c.path = append(c.path, v)
	c.widths = append(c.widths, n)
	return v
}

// Dev chooses like Choose, but every non-zero choice consumes one unit of the
// deviation budget; without budget the result is 0.
func (c *Chooser) Dev(n int) int {
	if c.budget <= 0 || n <= 1 {
		return 0
	}
	v := c.Choose(n)
	if v != 0 {
		c.budget--
	}
	return v
}

// Bool is a free boolean choice.
func (c *Chooser) Bool() bool { return c.Choose(2) == 1 }

// cyclic makes choices for the steps of a sequence that is repeated; every
// repetition of a step makes the choices of its first occurrence.
type cyclic struct {
	c    *Chooser
	made map[int][]int
	step int
	pos  int
}

func (c *Chooser) cyclic() *cyclic { return &cyclic{c: c, made: map[int][]int{}} }

// next begins an occurrence of a step.
func (y *cyclic) next(step int) { y.step, y.pos = step, 0 }

func (y *cyclic) of(n int) int {
	m := y.made[y.step]
	if y.pos == len(m) {
		m = append(m, y.c.Choose(n))
		y.made[y.step] = m
	}
	y.pos++
	return m[y.pos-1]
}

type nondeterminism string

// Violation is a counterexample.
type Violation struct {
	Case   string
	Path   []int
	Detail string
}

// Case is an independent exploration: a program with choices.
type Case struct {
	Name   string
	Budget int
	// Body performs one execution. It returns a description of what is wrong,
	// or "". w is private to the calling worker.
	Body func(w *Worker, c *Chooser) string
	gen  *EngGen // set if there is a variant
}

// Worker holds per-goroutine caches.
type Worker struct {
	id   int
	apps map[*AppSpec]*AppInst
	st   *Stats
	seq  int64
	busy atomic.Int64
	cs   atomic.Pointer[Case]

	proj   map[uint64]uint64 // projections of events, see EngGen.outcome
	projOf *EngGen
}

// Stats are the counters of a run.
type Stats struct {
	execs       atomic.Int64 // executions compared with the implementation
	transitions atomic.Int64
	nontrivial  atomic.Int64

	shards [64]struct {
		m sync.Mutex
		s map[uint64]struct{}
	}
	outs [64]struct {
		m sync.Mutex
		s map[uint64]struct{}
	}

	sm      sync.Mutex
	samples []any
	nsample int64
	known   map[string]int64

	diverged int64 // executions that did not follow the prescribed schedule
}

// State registers a visited state.
func (s *Stats) State(key uint64) {
	sh := &s.shards[key%64]
	sh.m.Lock()
	if sh.s == nil {
		sh.s = map[uint64]struct{}{}
	}
	sh.s[key] = struct{}{}
	sh.m.Unlock()
}

// Outcome registers a distinct observable outcome.
func (s *Stats) Outcome(key uint64) {
	sh := &s.outs[key%64]
	sh.m.Lock()
	if sh.s == nil {
		sh.s = map[uint64]struct{}{}
	}
	sh.s[key] = struct{}{}
	sh.m.Unlock()
}

// Known registers a hit of a known finding.
func (s *Stats) Known(what string) {
	s.sm.Lock()
	if s.known == nil {
		s.known = map[string]int64{}
	}
	s.known[what]++
	s.sm.Unlock()
}

// Sample offers a sample; a few spread over the run are kept.
func (s *Stats) Sample(f func() any) {
	n := atomic.AddInt64(&s.nsample, 1)
	if n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000 || n == 100000 {
		v := f()
		s.sm.Lock()
		s.samples = append(s.samples, v)
		s.sm.Unlock()
	}
}

func (s *Stats) count(sel int) int64 {
	var n int64
	for i := range s.shards {
		if sel == 0 {
			n += int64(len(s.shards[i].s))
		} else {
			n += int64(len(s.outs[i].s))
		}
	}
	return n
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func hashInts(v ...uint64) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, x := range v {
		binary.LittleEndian.PutUint64(b[:], x)
		h.Write(b[:])
	}
	return h.Sum64()
}

type job struct {
	c      *Case
	prefix []int
}

type explorer struct {
	m        sync.Mutex
	cond     *sync.Cond
	jobs     []job
	idle     int
	workers  int
	done     bool
	deadline time.Time
	expired  atomic.Bool
	hungry   atomic.Bool
	viol     *Violation
	ws       []*Worker
	stop     atomic.Bool
	st       *Stats
	crash    string
}

// Explore enumerates all executions of all cases. It returns the first
// violation found and whether the enumeration was complete.
func Explore(cases []*Case, st *Stats, deadline time.Time, workers int) (*Violation, bool) {
	if workers <= 0 {
		workers = runtime.GOMAXPROCS(0)
	}
	e := &explorer{workers: workers, deadline: deadline, st: st}
	e.cond = sync.NewCond(&e.m)
	// Cases are popped from the end.
	for i := len(cases) - 1; i >= 0; i-- {
		// For development: only the cases whose names contain a text.
		if f := os.Getenv("VERIF_CASE"); f != "" && !strings.Contains(cases[i].Name, f) {
			continue
		}
		e.jobs = append(e.jobs, job{cases[i], nil})
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{id: i, apps: map[*AppSpec]*AppInst{}, st: st}
			e.m.Lock()
			e.ws = append(e.ws, w)
			e.m.Unlock()
			for {
				j, ok := e.next()
				if !ok {
					return
				}
				e.run(w, j)
			}
		}()
	}
	allDone := make(chan struct{})
	go func() { wg.Wait(); close(allDone) }()
	e.watch(allDone)
	if e.crash != "" {
		fatalf("%s", e.crash)
	}
	return e.viol, !e.expired.Load()
}

// watch waits for the workers and detects executions that hang. Ticks are
// counted, rather than time measured, so that a suspended process is not
// mistaken for a hanging one.
func (e *explorer) watch(done chan struct{}) {
	type progress struct {
		n     int64
		stuck int
	}
	seen := map[*Worker]*progress{}
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		e.m.Lock()
		for _, w := range e.ws {
			p := seen[w]
			if p == nil {
				p = &progress{}
				seen[w] = p
			}
			n := w.busy.Load()
			if n != 0 && n == p.n {
				p.stuck++
			} else {
				p.n, p.stuck = n, 0
			}
			if p.stuck > 90 {
				cs := w.cs.Load()
				if e.viol == nil {
					e.viol = &Violation{cs.Name, nil, hangPrefix + ": " + cs.Name}
				}
				e.m.Unlock()
				return
			}
		}
		e.m.Unlock()
	}
}

func (e *explorer) next() (job, bool) {
	e.m.Lock()
	defer e.m.Unlock()
	for {
		if e.stop.Load() || e.done {
			return job{}, false
		}
		if n := len(e.jobs); n > 0 {
			j := e.jobs[n-1]
			e.jobs = e.jobs[:n-1]
			e.hungry.Store(len(e.jobs) == 0)
			return j, true
		}
		e.idle++
		if e.idle == e.workers {
			e.done = true
			e.cond.Broadcast()
			return job{}, false
		}
		e.hungry.Store(true)
		e.cond.Wait()
		e.idle--
	}
}

// run explores the subtree below j.prefix depth-first.
func (e *explorer) run(w *Worker, j job) {
	base := len(j.prefix)
	prefix := append([]int(nil), j.prefix...)
	for {
		if e.stop.Load() {
			return
		}
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			e.expired.Store(true)
			e.stop.Store(true)
			e.m.Lock()
			e.cond.Broadcast()
			e.m.Unlock()
			return
		}
		c := &Chooser{prefix: prefix, budget: j.c.Budget}
		detail := e.exec(w, j.c, c)
		e.st.execs.Add(1)
		if detail != "" {
			e.m.Lock()
			if e.viol == nil {
				e.viol = &Violation{j.c.Name, append([]int(nil), c.path...), detail}
			}
			e.stop.Store(true)
			e.cond.Broadcast()
			e.m.Unlock()
			return
		}
		// Donate work when others are idle.
		if e.hungry.Load() {
			for d := base; d < len(c.path); d++ {
				if c.path[d]+1 < c.widths[d] {
					e.m.Lock()
					for alt := c.path[d] + 1; alt < c.widths[d]; alt++ {
						np := append(append([]int(nil), c.path[:d]...), alt)
						e.jobs = append(e.jobs, job{j.c, np})
					}
					e.hungry.Store(false)
					e.cond.Broadcast()
					e.m.Unlock()
					base = d + 1
					break
				}
			}
		}
		// Backtrack.
		d := len(c.path) - 1
		for d >= base && c.path[d]+1 >= c.widths[d] {
			d--
		}
		if d < base {
			return
		}
		prefix = append(prefix[:0], c.path[:d]...)
		prefix = append(prefix, c.path[d]+1)
	}
}

func (e *explorer) exec(w *Worker, cs *Case, c *Chooser) (detail string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(nondeterminism); !ok {
			// The code under test panicked where it must not.
			detail = fmt.Sprintf("unexpected panic: %v\n%s", r, debug.Stack())
			return
		}
		e.m.Lock()
		if e.crash == "" {
			e.crash = fmt.Sprintf("harness panic in case %s path %v: %v\n%s", cs.Name, c.path, r, debug.Stack())
		}
		e.stop.Store(true)
		e.cond.Broadcast()
		e.m.Unlock()
	}()
	w.cs.Store(cs)
	w.seq++
	w.busy.Store(w.seq)
	defer w.busy.Store(0)
	return cs.Body(w, c)
}
