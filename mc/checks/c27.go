//go:build sched

package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
	"verif/mc/sched"
)

func init() {
	gitdiff.VerifSchedHook = sched.Point
	register(&Check{
		ID: "C27", Title: "independent calls in different goroutines",
		Assumptions: []string{
			"statements of the library are atomic in the enumerated schedules; conflicts inside statements are left to the race detector, which sees the goroutines of every execution as unordered",
			"calls share files, fragments and sources, and have their own readers and destinations",
		},
		Scenarios: c27,
	})
	FirstCalls = firstCalls
}

// shared are the values that concurrent calls use together.
type shared struct {
	text, bin, lit, odd *gitdiff.File
	src, binSrc         io.ReaderAt
	lineSrc             *fixedLines
}

const (
	sharedText    = "a\nb\nc\nd\ne\n"
	sharedBinary  = "0123456789abcdef"
	sharedLiteral = "\x00literal\xff"
)

// fixedLines is an immutable source that offers line access.
type fixedLines struct{ s string }

func (f *fixedLines) ReadAt(p []byte, off int64) (int, error) {
	return strings.NewReader(f.s).ReadAt(p, off)
}

func (f *fixedLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	ls := ref.Lines(f.s)
	n := 0
	for n < len(lines) && int(off)+n < len(ls) {
		lines[n] = []byte(ls[int(off)+n])
		n++
	}
	if n < len(lines) {
		return n, io.EOF
	}
	return n, nil
}

var (
	sharedDelta   = deltaOf(int64(len(sharedBinary)), 9, 0x91, 2, 5, 4, 'x', 'y', 0, 'z')
	deflatedDelta = deflate(sharedDelta)
	deflatedLit   = deflate([]byte(sharedLiteral))
)

func newShared() *shared {
	frag := func(comment string, pos, n int64, lines ...gitdiff.Line) *gitdiff.TextFragment {
		f := &gitdiff.TextFragment{Comment: comment, OldPosition: pos, NewPosition: n, Lines: lines}
		for _, l := range lines {
			if l.Old() {
				f.OldLines++
			}
			if l.New() {
				f.NewLines++
			}
			switch l.Op {
			case gitdiff.OpAdd:
				f.LinesAdded++
			case gitdiff.OpDelete:
				f.LinesDeleted++
			}
		}
		return f
	}
	return &shared{
		text: &gitdiff.File{OldName: "f", NewName: "f", OldOIDPrefix: "12", NewOIDPrefix: "34", TextFragments: []*gitdiff.TextFragment{
			// listed out of order on purpose
			frag("x", 4, 4, gitdiff.Line{Op: gitdiff.OpAdd, Line: "D\n"}, gitdiff.Line{Op: gitdiff.OpDelete, Line: "d\n"}),
			frag("", 1, 1, gitdiff.Line{Op: gitdiff.OpDelete, Line: "a\n"}, gitdiff.Line{Op: gitdiff.OpAdd, Line: "A\n"}),
		}},
		bin: &gitdiff.File{OldName: "b", NewName: "b", IsBinary: true,
			BinaryFragment: &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(sharedDelta)), RawData: deflatedDelta}},
		lit: &gitdiff.File{NewName: "l", IsNew: true, NewMode: 0o100644, IsBinary: true,
			BinaryFragment:        &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(sharedLiteral)), RawData: deflatedLit},
			ReverseBinaryFragment: &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, RawData: deflate(nil)}},
		odd: &gitdiff.File{OldName: "q\"\xff", NewName: "t\t", IsRename: true, Score: 90, OldMode: 0o100644, NewMode: 0o100755},
		src: strings.NewReader(sharedText), binSrc: strings.NewReader(sharedBinary), lineSrc: &fixedLines{sharedText},
	}
}

type concurrentOp struct {
	name  string
	short bool
	run   func(sh *shared) string
}

func showApply(src io.ReaderAt, f *gitdiff.File) string {
	var b bytes.Buffer
	err := gitdiff.Apply(&b, src, f)
	return fmt.Sprintf("%q %v", b.String(), err)
}

const parallelText = "pre\ndiff --git a/f b/f\nindex 1..2 100644\n--- a/f\n+++ b/f\n@@ -1 +1 @@ x\n-a\n+b\n"

var parallelBinary = "diff --git a/b b/b\nnew file mode 100644\nindex 0..1\nGIT binary patch\n" + encodeBinary("literal", 2, deflate([]byte("hi")))

func showFiles(files []*gitdiff.File, pre string, err error) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %v", pre, err)
	for _, f := range files {
		g := *f
		g.TextFragments, g.BinaryFragment, g.ReverseBinaryFragment = nil, nil, nil
		fmt.Fprintf(&b, "\n%+v", g)
		for _, fr := range f.TextFragments {
			fmt.Fprintf(&b, "%+v", *fr)
		}
		if f.BinaryFragment != nil {
			fmt.Fprintf(&b, "%+v", *f.BinaryFragment)
		}
	}
	return b.String()
}

func showHeader(h *gitdiff.PatchHeader, err error) string {
	if h == nil {
		return fmt.Sprint(err)
	}
	g := *h
	s := fmt.Sprint(g.Author != nil, g.Committer != nil)
	if g.Author != nil {
		s += fmt.Sprintf("%+v", *g.Author)
	}
	g.Author, g.Committer = nil, nil
	return fmt.Sprintf("%+v %s %v", g, s, err)
}

func (sh *shared) files() []*gitdiff.File {
	return []*gitdiff.File{sh.text, sh.bin, sh.lit, sh.odd}
}

var concurrentOps = []concurrentOp{
	{"apply text", false, func(sh *shared) string { return showApply(sh.src, sh.text) }},
	{"apply text to line source", false, func(sh *shared) string { return showApply(sh.lineSrc, sh.text) }},
	{"apply text, conflict", true, func(sh *shared) string { return showApply(sh.binSrc, sh.text) }},
	{"apply delta", true, func(sh *shared) string { return showApply(sh.binSrc, sh.bin) }},
	{"apply delta, conflict", true, func(sh *shared) string { return showApply(sh.src, sh.bin) }},
	{"apply literal", true, func(sh *shared) string { return showApply(sh.src, sh.lit) }},
	{"apply no change", true, func(sh *shared) string { return showApply(sh.src, sh.odd) }},
	{"appliers", false, func(sh *shared) string {
		var b bytes.Buffer
		a := gitdiff.NewTextApplier(&b, sh.src)
		err := a.ApplyFragment(sh.text.TextFragments[0])
		err2 := a.Close()
		return fmt.Sprintf("%q %v %v", b.String(), err, err2)
	}},
	{"format text", false, func(sh *shared) string { return sh.text.String() + sh.text.TextFragments[0].Header() }},
	{"format binary", false, func(sh *shared) string { return sh.lit.String() }},
	{"format names", false, func(sh *shared) string { return sh.odd.String() }},
	{"validate", true, func(sh *shared) string {
		return fmt.Sprint(sh.text.TextFragments[0].Validate(), sh.text.TextFragments[1].Validate())
	}},
	{"read data", true, func(sh *shared) string {
		b, err := io.ReadAll(sh.bin.BinaryFragment.Data())
		return fmt.Sprintf("%q %v", b, err)
	}},
	{"parse text", false, func(sh *shared) string { return showFiles(gitdiff.Parse(strings.NewReader(parallelText))) }},
	{"parse binary", false, func(sh *shared) string { return showFiles(gitdiff.Parse(strings.NewReader(parallelBinary))) }},
	{"parse failure", false, func(sh *shared) string {
		return showFiles(gitdiff.Parse(strings.NewReader("--- \"\\a\"\n+++ y\n@@ -1 +1 @@\n-x\n")))
	}},
	{"parse pretty header", false, func(sh *shared) string {
		h, err := gitdiff.ParsePatchHeader("commit 12 (x)\nAuthor: \"A\" <a@b>\nDate: 2020-04-11 00:00:00 +0200\n\n    t\n    u\n\n    b\n")
		return showHeader(h, err)
	}},
	{"parse mail header", false, func(sh *shared) string {
		h, err := gitdiff.ParsePatchHeader("From 12 M\nFrom: =?UTF-8?q?J=C3=B6?= <a@b>\nDate: 5 -0100\nSubject: [PATCH] =?UTF-8?q?=C3=B6?=\n\nb\n---\nx\n")
		return showHeader(h, err)
	}},
	{"read fields", true, func(sh *shared) string { return diffFileLists(sh.files(), newShared().files()) }},
}

// alone is what an operation does when it runs alone.
type alone struct {
	out    string
	points int
}

var aloneResults onceMap[int, alone]

func runAlone(op int) alone {
	return aloneResults.get(op, func() alone {
		sh := newShared()
		var r []sched.Result
		for i := 0; i < 2; i++ {
			// the first run may initialise something, the second counts
			r, _ = sched.Run(nil, func() string { return concurrentOps[op].run(sh) })
		}
		return alone{r[0].Out, r[0].Points}
	})
}

// together runs operations under a schedule and compares the results.
func together(t *engine.T, ops []int, plan []sched.Segment) {
	sh := newShared()
	var fns []func() string
	for _, op := range ops {
		fns = append(fns, func() string { return concurrentOps[op].run(sh) })
	}
	rs, controlled := sched.Run(plan, fns...)
	t.Trace()
	for i, r := range rs {
		name := concurrentOps[ops[i]].name
		if r.Panic != "" {
			t.Fail("panic", "%s panicked: %s", name, r.Panic)
		}
		if want := runAlone(ops[i]).out; r.Out != want {
			t.Fail("result", "%s gave a different result than alone\n got %s\nwant %s", name, r.Out, want)
		}
	}
	if d := diffFileLists(sh.files(), newShared().files()); d != "" {
		t.Fail("modified", "the shared files changed: %s", d)
	}
	if controlled {
		t.Outcome("followed")
	} else {
		t.Outcome("a call waited for another one, finished without control")
	}
}

func describePlan(t *engine.T, ops []int, plan []sched.Segment) {
	t.Desc(func() string {
		var b strings.Builder
		for i, op := range ops {
			fmt.Fprintf(&b, "T%d: %s; ", i, concurrentOps[op].name)
		}
		for _, s := range plan {
			if s.Quantum > 0 {
				fmt.Fprintf(&b, "T%d for %d statements, ", s.Thread, s.Quantum-1)
			} else {
				fmt.Fprintf(&b, "T%d to its end, ", s.Thread)
			}
		}
		return b.String()
	})
	t.State(fmt.Sprint(ops, plan))
}

// choosePlan chooses a schedule of n threads with at most preemptions
// preemptions: a first thread, and for every preemption the statement before
// which it happens and the thread that goes on.
func choosePlan(t *engine.T, ops []int, preemptions int) []sched.Segment {
	var plan []sched.Segment
	// places left per thread, counted from where it was preempted last
	left := make([]int, len(ops))
	for i, op := range ops {
		left[i] = runAlone(op).points
	}
	cur := t.Choose(len(ops))
	for p := 0; p < preemptions && left[cur] > 0; p++ {
		k := t.Choose(left[cur] + 1)
		if k == 0 {
			break
		}
		plan = append(plan, sched.Segment{Thread: cur, Quantum: k})
		left[cur] -= k - 1 // it stops in front of its k-th statement
		next := t.Choose(len(ops) - 1)
		if next >= cur {
			next++
		}
		cur = next
	}
	plan = append(plan, sched.Segment{Thread: cur})
	return plan
}

func c27(tier string) []engine.Scenario {
	var ss []engine.Scenario
	n := len(concurrentOps)
	ss = append(ss, engine.Scenario{
		Name:  "first calls",
		Bound: fmt.Sprintf("all %d ordered pairs of %d operations as the first calls of a fresh process, the second unordered after the first", n*n, n),
		Run: func(t *engine.T) {
			a, b := t.Choose(n), t.Choose(n)
			describePlan(t, []int{a, b}, nil)
			cmd := exec.Command(os.Args[0], "-first-calls", fmt.Sprintf("%d,%d", a, b))
			out, err := cmd.CombinedOutput()
			t.Trace()
			if err == nil {
				t.Outcome("agree")
				return
			}
			if s := string(out); strings.Contains(s, "go-gitdiff/gitdiff.") || strings.Contains(s, "DIFFERENT") {
				t.Fail("first", "%v: %s", err, s)
			}
			panic(fmt.Sprintf("engine: %v: %s", err, out))
		},
	})
	pairs := func(name string, list []int, preemptions int) {
		ss = append(ss, engine.Scenario{
			Name:  name,
			Bound: fmt.Sprintf("all unordered pairs of %d operations sharing files and source, all schedules with at most %d preemptions between statements", len(list), preemptions),
			Run: func(t *engine.T) {
				i := t.Choose(len(list))
				j := i + t.Choose(len(list)-i)
				ops := []int{list[i], list[j]}
				plan := choosePlan(t, ops, preemptions)
				describePlan(t, ops, plan)
				together(t, ops, plan)
			},
		})
	}
	triples := func(name string, list []int, preemptions int) {
		ss = append(ss, engine.Scenario{
			Name:  name,
			Bound: fmt.Sprintf("all multisets of 3 of %d operations sharing files and source, all schedules with at most %d preemptions between statements", len(list), preemptions),
			Run: func(t *engine.T) {
				i := t.Choose(len(list))
				j := i + t.Choose(len(list)-i)
				k := j + t.Choose(len(list)-j)
				ops := []int{list[i], list[j], list[k]}
				plan := choosePlan(t, ops, preemptions)
				describePlan(t, ops, plan)
				together(t, ops, plan)
			},
		})
	}
	all := upTo(n - 1)
	var short []int // operations of few statements
	for i, op := range concurrentOps {
		if op.short {
			short = append(short, i)
		}
	}
	pairs("pairs, one preemption", all, 1)
	pairs("short pairs, two preemptions", short, 2)
	if tier == "thorough" {
		triples("triples, one preemption", all, 1)
		pairs("pairs, two preemptions", all, 2)
	}
	return ss
}

// firstCalls runs two operations as the first calls of this process.
func firstCalls(spec string) int {
	var a, b int
	fmt.Sscanf(spec, "%d,%d", &a, &b)
	sh := newShared()
	ops := []int{a, b}
	rs, _ := sched.Run([]sched.Segment{{Thread: 0}, {Thread: 1}},
		func() string { return concurrentOps[a].run(sh) },
		func() string { return concurrentOps[b].run(sh) })
	for i, r := range rs {
		again := concurrentOps[ops[i]].run(newShared())
		if r.Panic != "" || r.Out != again {
			fmt.Printf("DIFFERENT: %s: first %s %s\nlater %s\n", concurrentOps[ops[i]].name, r.Out, r.Panic, again)
			return 1
		}
	}
	return 0
}
