// Package engine is a stateless explicit-choice model checker.
//
// A scenario is a deterministic function of a sequence of choices. Each call
// T.Choose(n) is a nondeterministic transition of the model (an operation, an
// argument, an environment answer, a scheduling decision). The explorer
// executes the scenario once for every maximal choice sequence, i.e. it
// enumerates the whole choice tree depth first, and the scenario compares the
// real library with a reference model on every execution. Nothing is sampled.
package engine

import (
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// T is one execution of a scenario.
type T struct {
	prefix  []int
	choices []int
	widths  []int
	w       *worker
	states  []uint64
	outcome string
	nTraces int
	skipped bool
	failed  bool
	msg     string
	key     string
	input   string
	desc    func() string
	replay  bool
	probe   bool
}

type skipSentinel struct{}
type failSentinel struct{}
type probeSentinel struct{}

// Choose returns the next nondeterministic choice in [0,n).
func (t *T) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("engine: Choose(%d)", n))
	}
	i := len(t.choices)
	c := 0
	if i < len(t.prefix) {
		c = t.prefix[i]
		if c >= n {
			// The scenario is deterministic apart from the library, so the
			// library answered differently for the same operations.
			t.Fail("nondeterminism", "replaying the same operations led to a different execution: choice %d was %d, now only %d alternatives", i, c, n)
		}
	}
	t.choices = append(t.choices, c)
	t.widths = append(t.widths, n)
	if t.probe && i == len(t.prefix) {
		panic(probeSentinel{})
	}
	return c
}

// Bool is a two-way choice, false first.
func (t *T) Bool() bool { return t.Choose(2) == 1 }

// Pick chooses an element of xs.
func Pick[E any](t *T, xs []E) E { return xs[t.Choose(len(xs))] }

// Skip abandons the execution: it is outside the space under check.
func (t *T) Skip() {
	t.skipped = true
	panic(skipSentinel{})
}

var seed = maphash.MakeSeed()

// State records a canonical model state for the distinct-state count.
func (t *T) State(parts ...string) {
	var h maphash.Hash
	h.SetSeed(seed)
	for _, p := range parts {
		h.WriteString(p)
		h.WriteByte(0)
	}
	t.states = append(t.states, h.Sum64())
}

// Trace counts one model trace that was replayed against the implementation.
func (t *T) Trace() { t.nTraces++ }

// Outcome labels the observed outcome class of this execution.
func (t *T) Outcome(s string) { t.outcome = s }

// Desc registers a lazily evaluated description of the case.
func (t *T) Desc(f func() string) { t.desc = f }

// Fail reports a property violation and ends the execution. The key
// identifies the violating case for the known-findings file.
func (t *T) Fail(key, format string, args ...any) {
	t.failed = true
	t.key = key
	t.msg = fmt.Sprintf(format, args...)
	panic(failSentinel{})
}

// Scenario is one enumerable space.
type Scenario struct {
	Name string
	// Bound is a human-readable statement of the enumerated space.
	Bound string
	Run   func(*T)
	// Serial scenarios run in one worker (they touch process-wide state or
	// measure process-wide counters).
	Serial bool
	// NoTotal turns a panic raised in the library into an ordinary violation
	// of the running property; that is the default.
	Setup    func()
	Teardown func()
}

// Violation is a failing execution.
type Violation struct {
	Scenario string
	Choices  []int
	Msg      string
	Key      string
	Case     string
	Repro    string
}

// ScenarioStats describes what one scenario covered.
type ScenarioStats struct {
	Name        string           `json:"name"`
	Bound       string           `json:"bound"`
	Executions  int64            `json:"executions"`
	Skipped     int64            `json:"skipped"`
	Transitions int64            `json:"transitions"`
	States      int64            `json:"states"`
	Traces      int64            `json:"traces"`
	MaxDepth    int              `json:"max_depth"`
	Exhaustive  bool             `json:"exhaustive"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Samples     []string         `json:"samples"`
	WallS       float64          `json:"wall_s"`
}

// Explorer runs scenarios.
type Explorer struct {
	Workers  int
	Deadline time.Time
	// Known reports whether a violation key is a recorded finding.
	Known func(key string) bool

	mu         sync.Mutex
	violations []Violation
	knownHits  map[string]string
	stop       atomic.Bool
	timedOut   atomic.Bool

	shards [64]struct {
		sync.Mutex
		m map[uint64]struct{}
		_ [40]byte
	}
	capped atomic.Bool

	workers []*worker
	Hang    func(v Violation)
}

type worker struct {
	id    int
	mu    sync.Mutex
	cur   atomic.Pointer[T]
	start atomic.Int64 // unix nano of the current execution, 0 if idle
	scen  string

	execs, skipped, trans, traces int64
	maxDepth                      int
	outcomes                      map[string]int64
	samples                       []string
	nextSample                    int64
}

const stateCap = 24_000_000

func (e *Explorer) addState(h uint64) bool {
	s := &e.shards[h&63]
	s.Lock()
	defer s.Unlock()
	if s.m == nil {
		s.m = make(map[uint64]struct{}, 1024)
	}
	if _, ok := s.m[h]; ok {
		return false
	}
	if len(s.m) >= stateCap/64 {
		e.capped.Store(true)
		return false
	}
	s.m[h] = struct{}{}
	return true
}

// StateSetCapped reports whether the distinct-state set hit its cap (then the
// reported number of states is a lower bound; exploration is unaffected).
func (e *Explorer) StateSetCapped() bool { return e.capped.Load() }

// Violations returns what was found.
func (e *Explorer) Violations() []Violation {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]Violation(nil), e.violations...)
}

// KnownHits returns the known findings that were reproduced (key -> message).
func (e *Explorer) KnownHits() map[string]string {
	e.mu.Lock()
	defer e.mu.Unlock()
	m := map[string]string{}
	for k, v := range e.knownHits {
		m[k] = v
	}
	return m
}

// runOne executes the scenario once.
func runOne(s *Scenario, t *T) {
	defer func() {
		r := recover()
		switch r.(type) {
		case nil, skipSentinel, failSentinel, probeSentinel:
			return
		}
		// A panic in the harness itself must not be taken for a violation.
		stack := string(debug.Stack())
		if str, ok := r.(string); ok && strings.HasPrefix(str, "engine:") {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s\n%s\n", str, stack)
			os.Exit(3)
		}
		t.failed = true
		if !strings.Contains(stack, "go-gitdiff/gitdiff.") {
			// The harness is deterministic and total over everything the
			// library may correctly return, so this too is an answer of the
			// library that breaks its contract.
			t.key = "unusable-result"
			t.msg = fmt.Sprintf("the library's answer could not be processed: %v\n%s", r, stack)
			return
		}
		t.key = "panic"
		t.msg = fmt.Sprintf("the library panicked: %v\n%s", r, trimStack(stack))
	}()
	s.Run(t)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "go-gitdiff/gitdiff.") {
			out = append(out, lines[i], lines[i+1])
			if len(out) >= 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func (e *Explorer) exec(w *worker, s *Scenario, prefix []int) *T {
	return e.execT(w, s, &T{prefix: prefix, w: w})
}

func (e *Explorer) execT(w *worker, s *Scenario, t *T) *T {
	w.cur.Store(t)
	w.start.Store(time.Now().UnixNano())
	runOne(s, t)
	w.start.Store(0)
	return t
}

func (e *Explorer) account(w *worker, s *Scenario, t *T) {
	if t.skipped {
		w.skipped++
	} else {
		w.execs++
	}
	if len(t.choices) > w.maxDepth {
		w.maxDepth = len(t.choices)
	}
	w.traces += int64(t.nTraces)
	for _, h := range t.states {
		e.addState(h)
	}
	if t.outcome != "" {
		w.outcomes[t.outcome]++
	}
	if !t.skipped && t.desc != nil && w.execs >= w.nextSample && len(w.samples) < 3 {
		w.samples = append(w.samples, clip(safeDesc(t), 400))
		w.nextSample = w.execs*97 + 5
	}
	if t.failed {
		e.report(s, t)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func safeDesc(t *T) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("(description failed: ", r, ")")
		}
	}()
	if t.desc == nil {
		return fmt.Sprintf("choices %v", t.choices)
	}
	return t.desc()
}

func (e *Explorer) report(s *Scenario, t *T) {
	if e.Known != nil && e.Known(t.key) {
		e.mu.Lock()
		if e.knownHits == nil {
			e.knownHits = map[string]string{}
		}
		if _, ok := e.knownHits[t.key]; !ok {
			e.knownHits[t.key] = t.msg
		}
		e.mu.Unlock()
		return
	}
	// Re-run the failing schedule five times.
	same := 0
	for i := 0; i < 5; i++ {
		r := &T{prefix: t.choices, replay: true}
		runOne(s, r)
		if r.failed {
			same++
		}
	}
	v := Violation{Scenario: s.Name, Choices: t.choices, Msg: t.msg, Key: t.key, Case: safeDesc(t),
		Repro: fmt.Sprintf("%d/5 replays fail", same)}
	e.mu.Lock()
	e.violations = append(e.violations, v)
	n := len(e.violations)
	e.mu.Unlock()
	if n >= 1 {
		e.stop.Store(true)
	}
}

// next advances the choice sequence of t in depth-first order, keeping the
// first min choices fixed; it returns nil when the subtree is exhausted.
func next(t *T, min int) []int {
	for i := len(t.choices) - 1; i >= min; i-- {
		if t.choices[i]+1 < t.widths[i] {
			p := make([]int, i+1)
			copy(p, t.choices[:i])
			p[i] = t.choices[i] + 1
			return p
		}
	}
	return nil
}

// Explore enumerates the whole choice tree of s.
func (e *Explorer) Explore(s Scenario) ScenarioStats {
	t0 := time.Now()
	if s.Setup != nil {
		s.Setup()
	}
	if s.Teardown != nil {
		defer s.Teardown()
	}
	nw := e.Workers
	if s.Serial {
		nw = 1
	}
	before := e.stateCount()
	e.mu.Lock()
	e.workers = nil
	for i := 0; i < nw; i++ {
		e.workers = append(e.workers, &worker{id: i, scen: s.Name, outcomes: map[string]int64{}, nextSample: 0})
	}
	workers := e.workers
	e.mu.Unlock()

	// Split the tree into subtrees by expanding the shortest prefixes. A
	// prefix that turns out to be a complete execution is accounted at once.
	tasks := [][]int{{}}
	var done [][]int
	if nw > 1 {
		for round := 0; round < 6 && len(tasks) > 0 && len(tasks) < 64*nw; round++ {
			probes := make([]*T, len(tasks))
			var at atomic.Int64
			var wg sync.WaitGroup
			for _, w := range workers {
				wg.Add(1)
				go func(w *worker) {
					defer wg.Done()
					for !e.stop.Load() {
						i := int(at.Add(1)) - 1
						if i >= len(tasks) {
							return
						}
						t := e.execT(w, &s, &T{prefix: tasks[i], w: w, probe: true})
						probes[i] = t
						if len(t.choices) == len(tasks[i]) {
							e.account(w, &s, t)
						}
					}
				}(w)
			}
			wg.Wait()
			if e.stop.Load() {
				break
			}
			var nt [][]int
			for i, p := range tasks {
				switch t := probes[i]; {
				case len(t.choices) == len(p):
					done = append(done, p)
				case len(nt) >= 4096:
					nt = append(nt, p)
				default:
					for c := 0; c < t.widths[len(p)]; c++ {
						nt = append(nt, append(append([]int{}, p...), c))
					}
				}
			}
			tasks = nt
		}
	}
	ch := make(chan []int, len(tasks))
	for _, p := range tasks {
		ch <- p
	}
	close(ch)
	var unfinished atomic.Bool
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			for p := range ch {
				if e.stop.Load() {
					unfinished.Store(true)
					return
				}
				base := len(p)
				// tree edges of this subtree: one for each choice made
				cur := p
				shared := base
				for cur != nil {
					t := e.exec(w, &s, cur)
					w.trans += int64(len(t.choices) - shared)
					e.account(w, &s, t)
					if e.stop.Load() {
						unfinished.Store(true)
						break
					}
					if w.execs&15 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
						e.timedOut.Store(true)
						unfinished.Store(true)
						return
					}
					cur = next(t, base)
					if cur != nil {
						shared = len(cur) - 1
					}
				}
				w.trans += int64(0)
			}
		}(w)
	}
	wg.Wait()
	st := ScenarioStats{Name: s.Name, Bound: s.Bound, Exhaustive: !unfinished.Load(), Outcomes: map[string]int64{}}
	st.Transitions = prefixEdges(append(done, tasks...))
	for _, w := range workers {
		st.Executions += w.execs
		st.Skipped += w.skipped
		st.Transitions += w.trans
		st.Traces += w.traces
		if w.maxDepth > st.MaxDepth {
			st.MaxDepth = w.maxDepth
		}
		for k, v := range w.outcomes {
			st.Outcomes[k] += v
		}
		st.Samples = append(st.Samples, w.samples...)
	}
	sort.Strings(st.Samples)
	if len(st.Samples) > 4 {
		n := len(st.Samples)
		st.Samples = []string{st.Samples[0], st.Samples[n/3], st.Samples[2*n/3], st.Samples[n-1]}
	}
	st.States = e.stateCount() - before
	st.WallS = time.Since(t0).Seconds()
	e.mu.Lock()
	e.workers = nil
	e.mu.Unlock()
	return st
}

// prefixEdges counts the tree edges inside the set of task prefixes.
func prefixEdges(tasks [][]int) int64 {
	seen := map[string]struct{}{}
	for _, p := range tasks {
		for i := 1; i <= len(p); i++ {
			seen[fmt.Sprint(p[:i])] = struct{}{}
		}
	}
	return int64(len(seen))
}

func (e *Explorer) stateCount() int64 {
	var n int64
	for i := range e.shards {
		e.shards[i].Lock()
		n += int64(len(e.shards[i].m))
		e.shards[i].Unlock()
	}
	return n
}

// TimedOut reports whether the deadline cut the exploration.
func (e *Explorer) TimedOut() bool { return e.timedOut.Load() }

// Stopped reports whether a violation stopped the exploration.
func (e *Explorer) Stopped() bool { return e.stop.Load() }

// Watch starts a watchdog: an execution that runs for longer than limit, or a
// process that grows beyond maxRSS bytes, is reported through e.Hang.
func (e *Explorer) Watch(limit time.Duration, maxRSS uint64) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			rss := readRSS()
			now := time.Now().UnixNano()
			e.mu.Lock()
			ws := e.workers
			e.mu.Unlock()
			var worst *worker
			var worstAge int64
			for _, w := range ws {
				if st := w.start.Load(); st != 0 && now-st > worstAge {
					worst, worstAge = w, now-st
				}
			}
			if worst == nil {
				continue
			}
			hang := worstAge > int64(limit)
			mem := rss > maxRSS
			if !hang && !mem {
				continue
			}
			t := worst.cur.Load()
			msg := fmt.Sprintf("the call did not return within %v", limit)
			key := "hang"
			if mem {
				msg = fmt.Sprintf("memory use grew to %d MiB during the call", rss>>20)
				key = "memory"
			}
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			inLib := strings.Contains(string(buf[:n]), "go-gitdiff/gitdiff.")
			if !inLib {
				msg += " (no library frame on any stack)"
			}
			e.Hang(Violation{Scenario: worst.scen, Choices: append([]int{}, t.choices...), Msg: msg + "\n" + trimStack(string(buf[:n])), Key: key, Case: safeDesc(t), Repro: "not replayed"})
			return
		}
	}()
}

func readRSS() uint64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r uint64
	fmt.Sscan(string(b), &a, &r)
	return r * uint64(os.Getpagesize())
}

// Replay runs one recorded choice sequence of s and returns its violation, if any.
func Replay(s Scenario, choices []int) (msg, desc string, failed bool) {
	if s.Setup != nil {
		s.Setup()
	}
	if s.Teardown != nil {
		defer s.Teardown()
	}
	t := &T{prefix: choices}
	runOne(&s, t)
	return t.msg, safeDesc(t), t.failed
}
