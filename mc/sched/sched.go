// Package sched runs goroutines one at a time and decides, at the scheduling
// points that are inserted into the code under test, which of them continues.
//
// Goroutines that block in a synchronisation primitive are recognised by the
// fact that they do not reach another scheduling point although nothing else
// runs, which requires that GOMAXPROCS is 1. Any primitive can be used by the
// code under test.
package sched

import (
	"fmt"
	"iter"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

const (
	stParked  = iota // waits for its turn
	stRunning        // has its turn
	stBlocked        // is blocked in a synchronisation primitive
	stDone
)

type g struct {
	gp      uintptr
	id      int
	state   int
	site    int
	ch      chan struct{}
	adopted bool
}

const (
	maxG    = 64
	maxPath = 1 << 14
)

var (
	active atomic.Bool
	spin   atomic.Int32

	gs      [maxG]*g
	ng      int
	cur     *g
	steps   int
	streak  int // steps of cur in a row
	free    bool
	budget  int
	limit   int
	looping bool

	// The choices.
	prefix  []int32
	psig    []uint32
	path    [maxPath]int32
	widths  [maxPath]int32
	sigs    [maxPath]uint32
	npath   int
	diverge bool
)

func getg() uintptr

//go:norace
func lock() {
	for !spin.CompareAndSwap(0, 1) {
		runtime.Gosched()
	}
}

//go:norace
func unlock() { spin.Store(0) }

//go:norace
func find(gp uintptr) *g {
	for i := ng - 1; i >= 0; i-- {
		if gs[i].gp == gp && gs[i].state != stDone {
			return gs[i]
		}
	}
	return nil
}

//go:norace
func add() *g {
	if ng == maxG {
		panic("sched: too many goroutines")
	}
	x := &g{id: ng, ch: make(chan struct{}, 1)}
	gs[ng] = x
	ng++
	return x
}

// choose makes a choice among n alternatives; what identifies the situation in
// which it is made.
//
//go:norace
func choose(n int, what uint32) int {
	if free || npath >= maxPath {
		return 0
	}
	v := int32(0)
	if npath < len(prefix) {
		v = prefix[npath]
		if int(v) >= n || npath < len(psig) && psig[npath] != what {
			diverge = true
			return -1
		}
	}
	path[npath], widths[npath], sigs[npath] = v, int32(n), what
	npath++
	return int(v)
}

// situation is a hash of what can be chosen.
//
//go:norace
func situation() uint32 {
	h := uint32(2166136261)
	for i := 0; i < ng; i++ {
		x := gs[i]
		h = (h ^ uint32(x.state)) * 16777619
		if x.state == stParked || x == cur {
			h = (h ^ uint32(x.site)) * 16777619
		}
	}
	return h
}

// release lets all goroutines run freely.
//
//go:norace
func release() {
	free = true
	for i := 0; i < ng; i++ {
		if gs[i].state == stParked {
			gs[i].state = stRunning
			select {
			case gs[i].ch <- struct{}{}:
			default:
			}
		}
	}
}

// Point is a scheduling point.
//
//go:norace
func Point(site int) {
	if active.Load() {
		point(site)
	}
}

// Val is a scheduling point between the evaluation of a value and its use.
//
//go:norace
func Val[T any](v T) T {
	if active.Load() {
		point(-1)
	}
	return v
}

//go:norace
func point(site int) {
	raceOff()
	gp := getg()
	lock()
	if free {
		unlock()
		raceOn()
		return
	}
	x := find(gp)
	if x == nil {
		// Started by code that is not instrumented.
		x = add()
		x.gp = gp
		x.adopted = true
	}
	x.site = site
	if cur != x {
		x.state = stParked
		unlock()
		<-x.ch
		raceOn()
		return
	}
	steps++
	streak++
	// Let goroutines that were woken reach their next scheduling point.
	for i := 0; i < ng; i++ {
		if gs[i].state == stBlocked {
			unlock()
			for k := 0; k < 4; k++ {
				runtime.Gosched()
			}
			lock()
			break
		}
	}
	if free {
		unlock()
		raceOn()
		return
	}
	n := 0
	for i := 0; i < ng; i++ {
		if gs[i].state == stParked {
			n++
		}
	}
	if n == 0 {
		unlock()
		raceOn()
		return
	}
	k := 0
	if steps > limit {
		looping = true
		release()
		unlock()
		raceOn()
		return
	}
	if streak > 20000 {
		// Probably waiting for another goroutine.
		streak = 0
		k = 1 + steps%n
	} else if budget > 0 {
		k = choose(n+1, situation())
		if k < 0 {
			release()
			unlock()
			raceOn()
			return
		}
		if k > 0 {
			budget--
		}
	}
	if k == 0 {
		unlock()
		raceOn()
		return
	}
	y := parked(k - 1)
	x.state = stParked
	give(y)
	unlock()
	<-x.ch
	raceOn()
}

// parked returns the k-th goroutine that waits for its turn.
//
//go:norace
func parked(k int) *g {
	for i := 0; i < ng; i++ {
		if gs[i].state == stParked {
			if k == 0 {
				return gs[i]
			}
			k--
		}
	}
	panic("sched: no such goroutine")
}

//go:norace
func give(y *g) {
	cur = y
	streak = 0
	y.state = stRunning
	y.ch <- struct{}{}
}

// Go starts a goroutine.
//
//go:norace
func Go(fn func()) {
	if !active.Load() {
		go fn()
		return
	}
	raceOff()
	lock()
	x := add()
	x.state = stParked
	isFree := free
	unlock()
	raceOn()
	go start(x, fn)
	if !isFree {
		point(-2)
	}
}

//go:norace
func start(x *g, fn func()) {
	raceOff()
	lock()
	x.gp = getg()
	isFree := free
	unlock()
	if !isFree {
		<-x.ch
	}
	raceOn()
	defer exit(x)
	fn()
}

//go:norace
func exit(x *g) {
	raceOff()
	lock()
	x.state = stDone
	if cur == x {
		cur = nil
	}
	unlock()
	raceOn()
}

// Event is an entry of the log.
type Event struct {
	G    int // index of the goroutine
	Kind string
	Text string
}

const maxLog = 1 << 13

var (
	log  [maxLog]Event
	nlog int
)

// Log adds an event to the log.
//
//go:norace
func Log(kind, text string) {
	raceOff()
	lock()
	g := -1
	if x := find(getg()); x != nil {
		g = x.id
	}
	if nlog < maxLog {
		log[nlog] = Event{g, kind, text}
		nlog++
	}
	unlock()
	raceOn()
}

// Events returns the log and clears it.
//
//go:norace
func Events() []Event {
	r := append([]Event(nil), log[:nlog]...)
	nlog = 0
	return r
}

// Cur returns the index of the calling goroutine.
//
//go:norace
func Cur() int {
	raceOff()
	lock()
	x := find(getg())
	unlock()
	raceOn()
	if x == nil {
		return -1
	}
	return x.id
}

// Result is the result of an execution.
type Result struct {
	Path, Widths []int32
	Sigs         []uint32
	Steps        int
	Goroutines   int
	Diverged     bool // the prefix could not be followed
	Deadlock     bool // no goroutine can continue
	Looping      bool // the execution does not terminate
}

// Run runs fns as goroutines, following the given choices first.
//
//go:norace
func Run(pre []int32, sig []uint32, preemptions int, fns ...func()) Result {
	gs = [maxG]*g{}
	ng, cur, steps, streak, free, budget = 0, nil, 0, 0, false, preemptions
	prefix, psig, npath, diverge, looping = pre, sig, 0, false, false
	limit = 200000
	active.Store(true)
	// The goroutines are joined in a way that is visible to the race detector.
	var wg sync.WaitGroup
	for _, fn := range fns {
		x := add()
		x.state = stParked
		wg.Add(1)
		go func() {
			defer wg.Done()
			start(x, fn)
		}()
	}
	res := Result{}
	for n := 0; n < 4; n++ {
		runtime.Gosched()
	}
	idle, last, settle := 0, -1, 0
	for {
		raceOff()
		lock()
		done := true
		for i := 0; i < ng; i++ {
			if gs[i].state != stDone && !gs[i].adopted {
				done = false
			}
		}
		if done {
			unlock()
			raceOn()
			break
		}
		switch {
		case free:
			idle++
			if steps != last {
				last = steps
			}
			if idle > 200 {
				unlock()
				raceOn()
				time.Sleep(100 * time.Microsecond)
				if idle > 20000 {
					res.Deadlock = true
				}
				raceOff()
				lock()
			}
		case cur == nil:
			n, blocked := 0, false
			for i := 0; i < ng; i++ {
				if gs[i].state == stParked {
					n++
				}
				blocked = blocked || gs[i].state == stBlocked
			}
			if blocked && settle < 6 {
				// Let goroutines that were woken reach their next
				// scheduling point.
				settle++
				break
			}
			settle = 0
			if n > 0 {
				idle = 0
				k := 0
				if n > 1 {
					k = choose(n, situation()^0x5bd1e995)
				}
				if k < 0 {
					release()
				} else {
					give(parked(k))
				}
				break
			}
			idle++
			if idle > 100 {
				unlock()
				raceOn()
				time.Sleep(100 * time.Microsecond)
				raceOff()
				lock()
				if idle > 5000 {
					res.Deadlock = true
				}
			}
		default:
			if steps != last {
				idle, last = 0, steps
			} else if idle++; idle > 60 {
				if cur.state == stRunning {
					cur.state = stBlocked
					if nlog < maxLog {
						log[nlog] = Event{cur.id, "blocked", ""}
						nlog++
					}
					cur = nil
				}
				idle = 0
			}
		}
		unlock()
		raceOn()
		if res.Deadlock {
			break
		}
		runtime.Gosched()
	}
	active.Store(false)
	if !res.Deadlock {
		wg.Wait()
	}
	res.Path = append([]int32(nil), path[:npath]...)
	res.Widths = append([]int32(nil), widths[:npath]...)
	res.Sigs = append([]uint32(nil), sigs[:npath]...)
	res.Steps, res.Goroutines = steps, ng
	res.Diverged, res.Looping = diverge, looping
	return res
}

// Sorted iterates over a map in the order of its keys.
func Sorted[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		type key struct {
			k K
			s string
		}
		var keys []key
		for k := range m {
			keys = append(keys, key{k, fmt.Sprint(k)})
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].s < keys[j].s })
		for _, k := range keys {
			if v, ok := m[k.k]; ok && !yield(k.k, v) {
				return
			}
		}
	}
}
