package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	sch "github.com/dogmatiq/testkit/verifmc/sched"
)

// SCase is a concurrent program whose schedules are enumerated.
type SCase struct {
	Name  string
	Bound int // preemptions
	// NoRacePreemption limits the schedules judged by the race detector to
	// those without preemptions.
	NoRacePreemption bool
	// Build prepares an execution: it returns the goroutines and a function
	// that judges the outcome and returns a description of it.
	Build func() ([]func(), func(evs []sch.Event) (violation, outcome string))
	// Deadlock is what is wrong if no goroutine can continue.
	Deadlock string
}

// sjob is a part of the schedules of a case.
type sjob struct {
	Case   string
	Tier   string
	Check  string
	Bound  int
	Prefix []int32
	Sigs   []uint32
	Millis int
	Cold   bool // the execution is the first of its process
}

type sresult struct {
	Execs, Steps  int64
	Diverged      int64
	States        []uint64
	Outcomes      []uint64
	Violation     string
	ViolationPath []int32
	ViolationSigs []uint32
	Sample        any
	Rest          []sjob
}

var schedChecks = map[string]func(tier string) []*SCase{}

// registerSched registers a check that enumerates schedules. Every case is run
// with and without the race detector.
func registerSched(ck *Check, cases func(tier string) []*SCase) {
	schedChecks[ck.ID] = cases
	ck.Run = func(tier string, st *Stats, deadline time.Time) (*Violation, bool) {
		return schedRun(ck.ID, tier, cases(tier), st, deadline)
	}
	register(ck)
}

// ---- worker process ----

func workerMain([]string) int {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	cases := map[string]*SCase{}
	warm := map[string]bool{}
	var cur *os.File
	if p := os.Getenv("VERIF_CUR"); p != "" {
		cur, _ = os.Create(p)
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return 0
		}
		var j sjob
		if err := json.Unmarshal(line, &j); err != nil {
			return 3
		}
		key := j.Check + "/" + j.Tier + "/" + j.Case
		c := cases[key]
		if c == nil {
			for _, x := range schedChecks[j.Check](j.Tier) {
				cases[j.Check+"/"+j.Tier+"/"+x.Name] = x
			}
			c = cases[key]
		}
		if !warm[key] && !j.Cold {
			// What is initialised on first use must not affect the schedules.
			warm[key] = true
			fns, _ := c.Build()
			sch.Run(nil, nil, 0, fns...)
			sch.Events()
		}
		b, _ := json.Marshal(explorePart(c, j, cur))
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

// explorePart enumerates the schedules below a prefix until the time is up.
func explorePart(c *SCase, j sjob, cur *os.File) *sresult {
	r := &sresult{}
	start := time.Now()
	states, outs := map[uint64]bool{}, map[uint64]bool{}
	prefix, sigs := j.Prefix, j.Sigs
	base := len(prefix)
	name := hashStr(c.Name)
	retries := 0
	for n := 0; ; n++ {
		if n%64 == 0 {
			runtime.GC()
		}
		if cur != nil {
			b, _ := json.Marshal(sjob{Case: j.Case, Check: j.Check, Tier: j.Tier, Bound: j.Bound, Prefix: prefix, Sigs: sigs})
			cur.WriteAt(append(b, '\n'), 0)
		}
		fns, judge := c.Build()
		sch.Events()
		res := sch.Run(prefix, sigs, j.Bound, fns...)
		evs := sch.Events()
		r.Execs++
		r.Steps += int64(res.Steps)
		if res.Diverged {
			r.Diverged++
			if retries++; retries < 100 {
				continue
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				os.WriteFile(fmt.Sprintf("/tmp/giveup-%d-%d", os.Getpid(), n), []byte(fmt.Sprintf("%s race=%v\nprefix %d npath %d\n%v\n", c.Name, sch.RaceBuild, len(prefix), len(res.Path), prefix)), 0o644)
			}
			// Give up on the subtree.
			r.Diverged += 1 << 32
			if len(prefix) <= base {
				break
			}
			res.Path, res.Sigs = prefix, sigs
			res.Widths = make([]int32, len(prefix))
		}
		retries = 0
		if !res.Diverged {
			viol, outcome := "", ""
			switch {
			case res.Deadlock:
				viol = c.Deadlock
				if viol == "" {
					viol = "no goroutine can continue"
				}
			case res.Looping:
				viol = "the execution does not terminate"
			default:
				viol, outcome = judge(evs)
			}
			if viol != "" {
				var b strings.Builder
				fmt.Fprintf(&b, "%s\nprogram: %s\nschedule: %v\n", viol, c.Name, res.Path)
				for _, e := range evs {
					fmt.Fprintf(&b, "  goroutine %d: %s %s\n", e.G, e.Kind, e.Text)
				}
				r.Violation, r.ViolationPath, r.ViolationSigs = b.String(), res.Path, res.Sigs
				break
			}
			for i, s := range res.Sigs {
				_ = i
				states[hashInts(name, uint64(s))] = true
			}
			outs[hashInts(name, hashStr(outcome))] = true
			if r.Sample == nil {
				r.Sample = map[string]any{"program": c.Name, "schedule": res.Path, "outcome": outcome}
			}
		}
		// Backtrack.
		d := len(res.Path) - 1
		for d >= base && res.Path[d]+1 >= res.Widths[d] {
			d--
		}
		if d < base {
			break
		}
		prefix = append(append([]int32(nil), res.Path[:d]...), res.Path[d]+1)
		sigs = append([]uint32(nil), res.Sigs[:d+1]...)
		if time.Since(start) >= time.Duration(j.Millis)*time.Millisecond {
			// Return what remains: the next prefix and the untried
			// alternatives above it.
			add := func(p []int32, s []uint32) {
				x := j
				x.Prefix, x.Sigs = append([]int32(nil), p...), append([]uint32(nil), s...)
				r.Rest = append(r.Rest, x)
			}
			for alt := res.Path[d] + 1; alt < res.Widths[d]; alt++ {
				add(append(append([]int32(nil), res.Path[:d]...), alt), res.Sigs[:d+1])
			}
			for e := d - 1; e >= base; e-- {
				for alt := res.Path[e] + 1; alt < res.Widths[e]; alt++ {
					add(append(append([]int32(nil), res.Path[:e]...), alt), res.Sigs[:e+1])
				}
			}
			break
		}
	}
	for s := range states {
		r.States = append(r.States, s)
	}
	for s := range outs {
		r.Outcomes = append(r.Outcomes, s)
	}
	return r
}

// ---- parent process ----

type schedProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	cur    string
}

func startProc(bin, cur string) (*schedProc, error) {
	p := &schedProc{cur: cur, stderr: &bytes.Buffer{}}
	p.cmd = exec.Command(bin, "worker", "sched")
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=1 history_size=2", "VERIF_CUR="+cur)
	p.cmd.Stderr = p.stderr
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	return p, p.cmd.Start()
}

// do performs a job. If the process dies, crash describes how.
func (p *schedProc) do(j sjob) (r *sresult, crash string) {
	b, _ := json.Marshal(j)
	if _, err := p.in.Write(append(b, '\n')); err == nil {
		line, err := p.out.ReadBytes('\n')
		if err == nil {
			r = &sresult{}
			if err := json.Unmarshal(line, r); err == nil {
				return r, ""
			}
		}
	}
	p.cmd.Wait()
	return nil, p.stderr.String()
}

func (p *schedProc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func workDir() string {
	d := os.Getenv("VERIF_WORK")
	if d == "" {
		d = os.TempDir()
	}
	w, err := os.MkdirTemp(d, "verif-sched")
	if err != nil {
		fatalf("%s", err)
	}
	return w
}

func schedRun(id, tier string, cases []*SCase, st *Stats, deadline time.Time) (*Violation, bool) {
	dir := workDir()
	defer os.RemoveAll(dir)
	complete := true
	bins := map[bool]string{}
	for _, x := range []struct{ race, cold bool }{{true, true}, {false, false}, {true, false}} {
		if bins[x.race] == "" {
			bin, err := buildSched(dir, x.race)
			if err != nil {
				fatalf("%s", err)
			}
			bins[x.race] = bin
		}
		start := time.Now()
		v, ok := schedExplore(bins[x.race], dir, id, tier, cases, st, deadline, x.race, x.cold)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("phase", x, time.Since(start))
		}
		complete = complete && ok
		if v != nil {
			return v, false
		}
	}
	return nil, complete
}

// schedExplore enumerates the schedules of cases. If cold is true, each
// execution is the first one of a process, so that what is initialised on first
// use is initialised by the goroutines; they are not preempted.
func schedExplore(bin, dir, id, tier string, cases []*SCase, st *Stats, deadline time.Time, race, cold bool) (*Violation, bool) {
	var (
		m        sync.Mutex
		cond     = sync.NewCond(&m)
		jobs     []sjob
		busy     int
		viol     *Violation
		fatal    string
		complete = true
		stop     bool
	)
	for i := len(cases) - 1; i >= 0; i-- {
		c := cases[i]
		if f := os.Getenv("VERIF_CASE"); f != "" && !strings.Contains(c.Name, f) {
			continue
		}
		b := c.Bound
		switch {
		case cold, race && c.NoRacePreemption:
			b = 0
		case race && b > 1:
			b--
		}
		jobs = append(jobs, sjob{Case: c.Name, Check: id, Tier: tier, Bound: b, Millis: 1500, Cold: cold})
	}
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start := func() *schedProc {
				p, err := startProc(bin, filepath.Join(dir, fmt.Sprintf("cur-%v-%v-%d", race, cold, i)))
				if err != nil {
					fatalf("%s", err)
				}
				return p
			}
			p := start()
			defer func() { p.stop() }()
			for {
				m.Lock()
				for len(jobs) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(jobs) == 0 {
					m.Unlock()
					return
				}
				if time.Now().After(deadline) {
					complete, stop = false, true
					cond.Broadcast()
					m.Unlock()
					return
				}
				j := jobs[len(jobs)-1]
				jobs = jobs[:len(jobs)-1]
				switch {
				case cold:
					j.Millis = 0
				case len(jobs) < n:
					j.Millis = 200
				default:
					j.Millis = 1500
				}
				busy++
				m.Unlock()
				if cold {
					p.stop()
					p = start()
				}
				r, crash := p.do(j)
				m.Lock()
				busy--
				if r == nil {
					stop = true
					v := crashViolation(p, j, crash, race)
					if v != nil && viol == nil {
						viol = v
					} else if v == nil {
						fatal = crash
					}
					cond.Broadcast()
					m.Unlock()
					return
				}
				st.execs.Add(r.Execs)
				st.transitions.Add(r.Steps)
				for _, s := range r.States {
					st.State(s)
				}
				for _, s := range r.Outcomes {
					st.Outcome(s)
				}
				st.nontrivial.Add(r.Execs)
				if r.Sample != nil {
					st.Sample(func() any { return r.Sample })
				}
				if r.Diverged >= 1<<32 {
					complete = false
				}
				st.diverged += r.Diverged & (1<<32 - 1)
				if r.Violation != "" {
					// Executed again before it is believed.
					again := 0
					for k := 0; k < 5; k++ {
						x := j
						x.Prefix, x.Sigs, x.Millis = r.ViolationPath, r.ViolationSigs, 0
						if cold {
							p.stop()
							p = start()
						}
						if rr, _ := p.do(x); rr == nil || rr.Violation != "" {
							again++
						} else if strings.HasPrefix(r.Violation, "no goroutine can continue") {
							break
						}
					}
					detail := fmt.Sprintf("%s\nreproduced %d of 5 times", r.Violation, again)
					if viol == nil && again > 0 {
						viol = &Violation{Case: j.Case, Path: toInts(r.ViolationPath), Detail: detail}
						stop = true
					} else if again == 0 {
						complete = false
					}
				}
				jobs = append(jobs, r.Rest...)
				cond.Broadcast()
				m.Unlock()
			}
		}()
	}
	wg.Wait()
	if viol == nil && fatal != "" {
		fatalf("a worker process failed:\n%s", fatal)
	}
	return viol, complete
}

// crashViolation decides if the death of a worker process is the fault of the
// code under test.
func crashViolation(p *schedProc, j sjob, crash string, race bool) *Violation {
	what := ""
	switch {
	case race && strings.Contains(crash, "WARNING: DATA RACE"):
		what = "data race"
	case strings.Contains(crash, "panic: ") || strings.Contains(crash, "fatal error: "):
		what = "the process crashed"
	default:
		return nil
	}
	var cur sjob
	if b, err := os.ReadFile(p.cur); err == nil {
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			json.Unmarshal(b[:i], &cur)
		}
	}
	return &Violation{Case: j.Case, Path: toInts(cur.Prefix), Detail: fmt.Sprintf("%s\nprogram: %s\nschedule: %v\n%s", what, j.Case, cur.Prefix, crash)}
}

func toInts(p []int32) []int {
	r := []int{}
	for _, v := range p {
		r = append(r, int(v))
	}
	return r
}

// replaySched executes a recorded schedule again.
func replaySched(f replayFile) int {
	dir := workDir()
	defer os.RemoveAll(dir)
	race := len(f.Detail) > 0 && f.Detail[0] == "data race"
	bin, err := buildSched(dir, race)
	if err != nil {
		fatalf("%s", err)
	}
	for _, cold := range []bool{false, true} {
		p, err := startProc(bin, filepath.Join(dir, "cur"))
		if err != nil {
			fatalf("%s", err)
		}
		defer p.stop()
		j := sjob{Case: f.Case, Check: f.Property, Tier: f.Tier, Bound: 1000, Cold: cold}
		for _, v := range f.Path {
			j.Prefix = append(j.Prefix, int32(v))
		}
		r, crash := p.do(j)
		switch {
		case r == nil:
			fmt.Println(crash)
			return 1
		case r.Violation != "":
			fmt.Println(r.Violation)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}
