// Command mc is the model checker for the properties in properties.jsonl.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Check is the machinery that decides one property.
type Check struct {
	ID          string
	Rule        string // what is enumerated and what counts as nontrivial
	Assumptions []string
	Cases       func(tier string) []*Case
	Workers     int
	// Bubble checks need a virtual clock.
	Bubble bool
	// NoVariants excludes the variants of cases.
	NoVariants bool
	Run        func(tier string, st *Stats, deadline time.Time) (*Violation, bool) // instead of Cases
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func fatalf(f string, v ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", v...)
	os.Exit(3)
}

var evidenceDir = envOr("VERIF_EVIDENCE", "/verif/evidence")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 3 {
		fatalf("usage: mc check ID TIER | mc replay FILE | mc list")
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if os.Getenv("VERIF_CHILD") == "" {
			os.Exit(superviseCheck(os.Args[2], tier))
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "worker":
		os.Exit(workerMain(os.Args[2:]))
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

func deadlineFor(tier string) time.Duration {
	if s := os.Getenv("VERIF_DEADLINE"); s != "" {
		n, _ := strconv.Atoi(s)
		return time.Duration(n) * time.Second
	}
	if tier == "quick" {
		return 240 * time.Second
	}
	return 780 * time.Second
}

// superviseCheck runs the check in a process of its own. If the process crashes
// within the code under test, in a goroutine of which the check knows nothing,
// the property is violated.
func superviseCheck(id, tier string) int {
	if checks[id] == nil {
		fatalf("no check for %s", id)
	}
	self, err := os.Executable()
	if err != nil {
		fatalf("%s", err)
	}
	runtime.LockOSThread()
	crash := ""
	for range 2 {
		var out, stderr bytes.Buffer
		cmd := exec.Command(self, "check", id, tier)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
		cmd.Stdout, cmd.Stderr = &out, &stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if err == nil || code == 1 {
			os.Stdout.Write(out.Bytes())
			os.Stderr.Write(stderr.Bytes())
			return code
		}
		if crash = crashInRepo(stderr.String()); crash == "" {
			os.Stdout.Write(out.Bytes())
			os.Stderr.Write(stderr.Bytes())
			return code
		}
		// Executed again before it is believed.
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	writeJSON(filepath.Join(evidenceDir, id+".json"), map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": 0, "violations": 1,
		"assumptions": []string{},
		"coverage": map[string]any{
			"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 1, "distinct_nontrivial": 0,
			"rule": checks[id].Rule, "exhaustive": false, "samples": []any{},
		},
	})
	path := filepath.Join(evidenceDir, id+"-violation.json")
	writeJSON(path, replayFile{id, tier, "crash", nil, strings.Split(crash, "\n"), "2 of 2"})
	fmt.Printf("%s %s: the process crashed\n%s\nVIOLATION property=%s replay=%s\n", id, tier, head(crash, 60), id, path)
	return 1
}

// crashInRepo returns the report of a crash if it happened in the code under
// test.
func crashInRepo(stderr string) string {
	i := strings.Index("\n"+stderr, "\npanic: ")
	if j := strings.Index("\n"+stderr, "\nfatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return ""
	}
	crash := stderr[i:]
	// The first goroutine is the one that crashed.
	first, _, _ := strings.Cut(crash, "\n\ngoroutine ")
	if i := strings.Index(crash, "\ngoroutine "); i >= 0 {
		first, _, _ = strings.Cut(crash[i+1:], "\n\n")
	}
	for _, l := range strings.Split(first, "\n") {
		if strings.HasPrefix(l, "github.com/dogmatiq/testkit") && !strings.HasPrefix(l, "github.com/dogmatiq/testkit/verifmc") {
			return crash
		}
	}
	return ""
}

func runCheck(id, tier string) int {
	ck := checks[id]
	if ck == nil {
		fatalf("no check for %s", id)
	}
	if ck.Bubble && !hasBubble {
		execBubble()
	}
	if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	start := time.Now()
	st := &Stats{}
	deadline := start.Add(deadlineFor(tier))
	var v *Violation
	var complete bool
	if ck.Run != nil {
		v, complete = ck.Run(tier, st, deadline)
	} else {
		cases := ck.allCases(tier)
		v, complete = Explore(cases, st, deadline, ck.Workers)
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	nv := 0
	path := ""
	if v != nil {
		nv = 1
		path = writeReplay(ck, tier, v)
	}
	samples := st.samples
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s":     round2(time.Since(start).Seconds()),
		"violations": nv,
		"assumptions": append([]string{
			"all choices are enumerated by depth-first search; the seed is not used",
		}, ck.Assumptions...),
		"coverage": map[string]any{
			"states":                        st.count(0),
			"transitions":                   st.transitions.Load(),
			"traces_validated_against_impl": st.execs.Load(),
			"evaluations":                   st.execs.Load(),
			"distinct_nontrivial":           st.count(1),
			"rule":                          ck.Rule,
			"exhaustive":                    complete && v == nil,
			"samples":                       samples,
			"known_findings_hit":            st.known,
			"diverged":                      st.diverged,
		},
	}
	writeJSON(filepath.Join(evidenceDir, id+".json"), ev)
	var ks []string
	for k := range st.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d executions)\n", id, k, st.known[k])
	}
	fmt.Printf("%s %s: executions=%d states=%d transitions=%d outcomes=%d exhaustive=%v diverged=%d wall=%.1fs\n",
		id, tier, st.execs.Load(), st.count(0), st.transitions.Load(), st.count(1), complete, st.diverged, time.Since(start).Seconds())
	if v != nil {
		fmt.Println(head(v.Detail, 60))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	return 0
}

func head(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func writeJSON(p string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatalf("%s", err)
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		fatalf("%s", err)
	}
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fatalf("%s", err)
	}
}

type replayFile struct {
	Property, Tier, Case string
	Path                 []int
	Detail               []string
	Reproduced           string
}

func writeReplay(ck *Check, tier string, v *Violation) string {
	p := filepath.Join(evidenceDir, ck.ID+"-violation.json")
	f := replayFile{ck.ID, tier, v.Case, v.Path, strings.Split(v.Detail, "\n"), ""}
	writeJSON(p, f)
	if ck.hasCase(tier, v.Case) && !strings.HasPrefix(v.Detail, hangPrefix) {
		n := 0
		for i := 0; i < 5; i++ {
			if d := replayPath(ck, tier, v.Case, v.Path); d != "" {
				n++
			}
		}
		f.Reproduced = fmt.Sprintf("%d of 5", n)
		writeJSON(p, f)
	}
	return p
}

const hangPrefix = "execution does not terminate"

func replayPath(ck *Check, tier, name string, path []int) (detail string) {
	for _, c := range ck.allCases(tier) {
		if c.Name == name {
			w := &Worker{apps: map[*AppSpec]*AppInst{}, st: &Stats{}}
			defer func() {
				if r := recover(); r != nil {
					detail = fmt.Sprintf("unexpected panic: %v", r)
				}
			}()
			return c.Body(w, &Chooser{prefix: path, budget: c.Budget})
		}
	}
	fatalf("no case %s", name)
	return ""
}

func (ck *Check) hasCase(tier, name string) bool {
	if ck.Cases == nil {
		return false
	}
	for _, c := range ck.allCases(tier) {
		if c.Name == name {
			return true
		}
	}
	return false
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%s", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatalf("%s", err)
	}
	ck := checks[f.Property]
	if ck != nil && schedChecks[f.Property] != nil && !ck.hasCase(f.Tier, f.Case) {
		return replaySched(f)
	}
	if ck != nil && ck.Bubble && !hasBubble {
		execBubble()
	}
	if ck == nil || ck.Cases == nil {
		fatalf("the recorded violation cannot be replayed by path; run the check again")
	}
	d := replayPath(ck, f.Tier, f.Case, f.Path)
	if d == "" {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Println(d)
	return 1
}

func init() {
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(12 << 30)
	if runtime.GOMAXPROCS(0) < 2 {
		runtime.GOMAXPROCS(2)
	}
}
