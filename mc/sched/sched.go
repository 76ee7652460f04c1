//go:build race

// Package sched runs goroutines under a controlled scheduler: exactly one runs
// at a time and control moves only where the schedule says so. It is for race
// builds: the handover between goroutines is hidden from the race detector, so
// the detector sees the goroutines of one execution as unordered and reports
// every pair of conflicting accesses, whatever the schedule.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

func getg() uintptr

// Segment lets a thread run until its Quantum-th scheduling point (counted
// from the start of the segment), or to its end if Quantum is 0.
type Segment struct {
	Thread  int
	Quantum int
}

type thread struct {
	x      *exec
	id     int
	points int
	wake   chan struct{}
	done   bool
	out    string
	panic  string
	end    chan struct{}
}

type exec struct {
	threads []*thread
	plan    []Segment
	seg     int
	left    int
	cur     int
	free    bool // control was lost: a thread blocked outside the scheduler
	ticks   int64
	live    int
	seen    int64
	stale   int
}

const slots = 512

var table [slots]struct {
	g  uintptr
	th *thread
}

var (
	runners [slots / 4]*exec
	top     int // slots below top have been used

	slotMu sync.Mutex
	unused []int
)

func init() { go monitor() }

// takeSlot returns the lowest unused slots first, Point scans all used ones.
func takeSlot() int {
	slotMu.Lock()
	defer slotMu.Unlock()
	if n := len(unused); n > 0 {
		s := unused[n-1]
		unused = unused[:n-1]
		return s
	}
	if top == len(runners) {
		panic("engine: too many executions at a time")
	}
	grow()
	return top - 1
}

//go:norace
func grow() { top++ }

func dropSlot(s int) {
	slotMu.Lock()
	defer slotMu.Unlock()
	unused = append(unused, s)
}

// Result is what one thread did.
type Result struct {
	Out    string
	Panic  string
	Points int
}

// Run executes the functions as threads under the plan and reports their
// results, and whether the plan was followed to the end.
func Run(plan []Segment, fns ...func() string) (rs []Result, controlled bool) {
	slot := takeSlot()
	x := &exec{plan: plan, live: len(fns)}
	for i := range fns {
		x.threads = append(x.threads, &thread{x: x, id: i, wake: make(chan struct{}, 4), end: make(chan struct{}, 1)})
	}
	for i, fn := range fns {
		go x.threads[i].main(slot*4+i, fn)
	}
	begin(slot, x)
	for _, th := range x.threads {
		<-th.end
	}
	finish(slot)
	for _, th := range x.threads {
		rs = append(rs, Result{th.out, th.panic, th.points})
	}
	controlled = !x.free
	dropSlot(slot)
	return rs, controlled
}

//go:norace
func begin(slot int, x *exec) {
	runtime.RaceDisable()
	runners[slot] = x
	x.seg = -1
	x.next(nil)
	runtime.RaceEnable()
}

//go:norace
func finish(slot int) {
	runners[slot] = nil
}

// next gives control to the thread of the next segment that can run. self is
// the calling thread, or nil. It reports whether control stays with self.
//
//go:norace
func (x *exec) next(self *thread) bool {
	for x.seg+1 < len(x.plan) {
		x.seg++
		s := x.plan[x.seg]
		if th := x.threads[s.Thread]; !th.done {
			x.left = s.Quantum
			x.cur = s.Thread
			if th == self {
				return true
			}
			th.wake <- struct{}{}
			return false
		}
	}
	// the plan is over: run the others to their end in order
	x.left = 0
	if self != nil && !self.done {
		x.cur = self.id
		return true
	}
	for _, th := range x.threads {
		if !th.done {
			x.cur = th.id
			th.wake <- struct{}{}
			return false
		}
	}
	return false
}

func (th *thread) main(slot int, fn func() string) {
	th.enter(slot)
	func() {
		defer func() {
			if r := recover(); r != nil {
				th.panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		th.out = fn()
	}()
	th.leave(slot)
	th.end <- struct{}{}
}

//go:norace
func (th *thread) enter(slot int) {
	runtime.RaceDisable()
	<-th.wake
	table[slot].th = th
	table[slot].g = getg()
	runtime.RaceEnable()
}

//go:norace
func (th *thread) leave(slot int) {
	runtime.RaceDisable()
	table[slot].g = 0
	table[slot].th = nil
	th.done = true
	th.x.ticks++
	if !th.x.free {
		th.x.next(th)
	}
	runtime.RaceEnable()
}

// Point is a scheduling point: the library calls it before every statement.
//
//go:norace
func Point() {
	g := getg()
	var th *thread
	for i := 0; i < top*4; i++ {
		if table[i].g == g {
			th = table[i].th
			break
		}
	}
	if th == nil {
		return
	}
	x := th.x
	th.points++
	x.ticks++
	if x.free || x.left == 0 {
		return
	}
	if x.left--; x.left > 0 {
		return
	}
	runtime.RaceDisable()
	if !x.next(th) {
		<-th.wake
	}
	runtime.RaceEnable()
}

// monitor frees executions whose running thread blocks on something that only
// another thread can provide: their threads then run uncontrolled.
//
//go:norace
func monitor() {
	runtime.RaceDisable()
	for {
		time.Sleep(20 * time.Millisecond)
		for _, x := range runners {
			if x == nil || x.free {
				continue
			}
			if x.ticks != x.seen {
				x.seen, x.stale = x.ticks, 0
				continue
			}
			if x.stale++; x.stale >= 6 {
				x.free = true
				for _, th := range x.threads {
					select {
					case th.wake <- struct{}{}:
					default:
					}
				}
			}
		}
	}
}
