// Command mc runs the model-checking checks of /verif.
//
//	mc -property C01 -tier quick        run a check (supervises a child process)
//	mc -replay FILE                     replay a recorded violation
//	mc -list                            list checks and scenarios
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc/checks"
	"verif/mc/engine"
)

var (
	property = flag.String("property", "", "property id")
	tier     = flag.String("tier", "", "quick or thorough (default $VERIF_TIER or quick)")
	child    = flag.Bool("child", false, "internal")
	replay   = flag.String("replay", "", "replay file")
	list     = flag.Bool("list", false, "list checks")
	root     = flag.String("root", "/verif", "verification root")
	only     = flag.String("scenario", "", "run only scenarios whose name contains this")
	budget   = flag.Duration("budget", 0, "internal deadline (0: by tier)")
	first    = flag.String("first-calls", "", "internal")
	pretend  = flag.Bool("v", false, "print per-scenario statistics")
)

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Scenario string `json:"scenario"`
	Choices  []int  `json:"choices"`
	Message  string `json:"message"`
	Case     string `json:"case"`
	Repro    string `json:"repro"`
}

func main() {
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	switch {
	case *first != "":
		os.Exit(checks.FirstCalls(*first))
	case *list:
		for _, c := range checks.All() {
			fmt.Println(c.ID, c.Title)
			for _, s := range c.Scenarios(*tier) {
				fmt.Println("   ", s.Name, "--", s.Bound)
			}
		}
	case *replay != "":
		os.Exit(doReplay(*replay))
	case *child:
		os.Exit(run(*property))
	default:
		os.Exit(supervise())
	}
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, "not a schedule file:", err)
		return 2
	}
	c := checks.Get(rf.Property)
	for _, s := range c.Scenarios(rf.Tier) {
		if s.Name == rf.Scenario {
			msg, desc, failed := engine.Replay(s, rf.Choices)
			fmt.Printf("case: %s\n", desc)
			if failed {
				fmt.Printf("violated: %s\n", msg)
				return 1
			}
			fmt.Println("holds")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "unknown scenario", rf.Scenario)
	return 2
}

// supervise runs the check in a child process so that an unrecoverable crash
// of the library (stack overflow, concurrent map access, out of memory) still
// ends in a verdict.
func supervise() int {
	args := append([]string{"-child"}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_TIER="+*tier, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var errBuf tail
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(os.Stderr, &errBuf)
	err := cmd.Run()
	if err == nil {
		return 0
	}
	ee, ok := err.(*exec.ExitError)
	if ok && ee.ExitCode() == 1 {
		return 1
	}
	trace := errBuf.String()
	if race := strings.Index(trace, "WARNING: DATA RACE"); race >= 0 && strings.Contains(trace[race:], "go-gitdiff/gitdiff.") {
		path := writeReplayText(*property, "race", trace[race:])
		fmt.Printf("VIOLATION property=%s replay=%s\n", *property, path)
		fmt.Printf("data race:\n%.3000s\n", trace[race:])
		writeEvidence(*property, nil, 1, time.Now(), nil, "stopped by a data race before statistics were complete")
		return 1
	}
	fatal := strings.Contains(trace, "fatal error:") || strings.Contains(trace, "panic:") || strings.Contains(trace, "runtime: goroutine stack exceeds")
	if fatal && strings.Contains(trace, "go-gitdiff/gitdiff.") && !strings.Contains(trace, "HARNESS ERROR") {
		path := writeReplayText(*property, "crash", trace)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *property, path)
		fmt.Printf("the library crashed the process:\n%.2000s\n", trace)
		writeEvidence(*property, nil, 1, time.Now(), nil, "the library crashed the checking process before statistics were complete")
		return 1
	}
	fmt.Fprintf(os.Stderr, "check %s: child failed: %v\n", *property, err)
	return 2
}

type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

func writeReplayText(id, kind, text string) string {
	dir := filepath.Join(*root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.txt", id, kind))
	os.WriteFile(p, []byte(text), 0o644)
	return p
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(*root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l == "" {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func run(id string) int {
	t0 := time.Now()
	c := checks.Get(id)
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	b := *budget
	if b == 0 {
		if *tier == "thorough" {
			b = 100 * time.Minute
		} else {
			b = 600 * time.Second
		}
	}
	kn := loadKnown()
	e := &engine.Explorer{Workers: runtime.NumCPU(), Deadline: t0.Add(b)}
	e.Known = func(key string) bool {
		for _, k := range kn {
			if k.Property == id && k.Fixed == "" && k.Key == key {
				return true
			}
		}
		return false
	}
	var stats []engine.ScenarioStats
	e.Hang = func(v engine.Violation) {
		emit(id, v)
		writeEvidence(id, stats, 1, t0, e, "stopped by a violation")
		os.Exit(1)
	}
	hangLimit := 150 * time.Second
	e.Watch(hangLimit, 20<<30)

	for _, s := range c.Scenarios(*tier) {
		if *only != "" && !strings.Contains(s.Name, *only) {
			continue
		}
		if e.TimedOut() || e.Stopped() {
			stats = append(stats, engine.ScenarioStats{Name: s.Name, Bound: s.Bound + " (not started)"})
			continue
		}
		st := e.Explore(s)
		stats = append(stats, st)
		if *pretend {
			fmt.Fprintf(os.Stderr, "%-34s exec=%-10d skip=%-8d states=%-9d trans=%-10d depth=%-4d %6.2fs exhaustive=%v %v\n", st.Name, st.Executions, st.Skipped, st.States, st.Transitions, st.MaxDepth, st.WallS, st.Exhaustive, st.Outcomes)
		}
	}
	vs := e.Violations()
	writeEvidence(id, stats, len(vs), t0, e, "")
	hits := e.KnownHits()
	keys := make([]string, 0, len(hits))
	for k := range hits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		what := hits[k]
		for _, x := range kn {
			if x.Property == id && x.Key == k {
				what = x.What
			}
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
	}
	if len(vs) > 0 {
		emit(id, vs[0])
		return 1
	}
	var ex, st int64
	for _, s := range stats {
		ex += s.Executions
		st += s.States
	}
	fmt.Printf("OK property=%s tier=%s executions=%d states=%d exhaustive=%v wall=%.1fs\n", id, *tier, ex, st, exhaustive(stats), time.Since(t0).Seconds())
	return 0
}

func emit(id string, v engine.Violation) {
	dir := filepath.Join(*root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+".json")
	rf := replayFile{Property: id, Tier: *tier, Scenario: v.Scenario, Choices: v.Choices, Message: v.Msg, Case: v.Case, Repro: v.Repro}
	b, _ := json.MarshalIndent(rf, "", "  ")
	os.WriteFile(path, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	fmt.Printf("scenario: %s\nkey: %q\ncase: %.3000s\nwhat: %.3000s\nrepro: %s\n", v.Scenario, v.Key, v.Case, v.Msg, v.Repro)
}

func exhaustive(stats []engine.ScenarioStats) bool {
	for _, s := range stats {
		if !s.Exhaustive {
			return false
		}
	}
	return len(stats) > 0
}

func writeEvidence(id string, stats []engine.ScenarioStats, nviol int, t0 time.Time, e *engine.Explorer, note string) {
	c := checks.Get(id)
	var states, trans, traces, execs int64
	var samples []string
	for _, s := range stats {
		states += s.States
		trans += s.Transitions
		traces += s.Traces
		execs += s.Executions
		for i, x := range s.Samples {
			if i < 2 {
				samples = append(samples, s.Name+": "+x)
			}
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"samples":    samples,
		"exhaustive": exhaustive(stats),
		"scenarios":  stats,
	}
	switch c.Level {
	case "fault_enumeration":
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = states
		cov["rule"] = c.Rule
		cov["transitions"] = trans
	default:
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = traces
		cov["executions"] = execs
	}
	if e != nil && e.StateSetCapped() {
		cov["states_note"] = "the distinct-state set reached its cap; states is a lower bound"
	}
	if note != "" {
		cov["note"] = note
	}
	ev := map[string]any{
		"property": id, "tier": *tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	dir := filepath.Join(*root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}
