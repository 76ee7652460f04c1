package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C39", Title: "what git apply applies in place",
		Assumptions: []string{
			"the installed git (2.43) stands for git; without git nothing is explored",
			"git apply --unidiff-zero, because git otherwise takes missing context for the start or end of the file",
		},
		Scenarios: c39,
	})
}

var applyDirs atomic.Int64

// gitApplied asks git apply for the result of a patch of the file f. ok is
// false if git refuses it, and moved reports that git found a hunk elsewhere.
func gitApplied(g *gitEnv, src, patch string, exists bool) (out string, ok, moved bool) {
	dir := g.sub(fmt.Sprintf("a%d", applyDirs.Add(1)))
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "f")
	if exists {
		if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
			panic("engine: " + err.Error())
		}
	}
	c := g.in(dir).cmd("apply", "--unidiff-zero", "--whitespace=nowarn", "-v", "-")
	c.Stdin = strings.NewReader(patch)
	var msg bytes.Buffer
	c.Stderr = &msg
	if err := c.Run(); err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) || ee.ExitCode() < 0 {
			panic("engine: git apply: " + err.Error())
		}
		return "", false, false
	}
	b, err := os.ReadFile(name)
	if err != nil && !os.IsNotExist(err) {
		panic("engine: " + err.Error())
	}
	return string(b), true, strings.Contains(msg.String(), "succeeded at")
}

type posHunk struct {
	old, new int
	lines    []string // with operator and line feed or without
}

func (h posHunk) text() string {
	var o, n int
	var b strings.Builder
	for _, l := range h.lines {
		if l[0] != '+' {
			o++
		}
		if l[0] != '-' {
			n++
		}
		b.WriteString(l)
		if !strings.HasSuffix(l, "\n") {
			b.WriteString("\n\\ No newline at end of file\n")
		}
	}
	return fmt.Sprintf("@@ -%d,%d +%d,%d @@\n", h.old, o, h.new, n) + b.String()
}

func (h posHunk) counts() (o, n int) {
	for _, l := range h.lines {
		if l[0] != '+' {
			o++
		}
		if l[0] != '-' {
			n++
		}
	}
	return
}

const changeHead = "diff --git a/f b/f\n--- a/f\n+++ b/f\n"

func verifyGitApply(t *engine.T, g *gitEnv, src, head string, hs []posHunk) {
	t.Trace()
	patch := head
	for _, h := range hs {
		patch += h.text()
	}
	show := func() string { return q(src) + "\n" + patch }
	t.Desc(show)
	t.State(src + "\x00" + patch)
	files, _, err := gitdiff.Parse(strings.NewReader(patch))
	if err == nil && len(files) != 1 {
		t.Fail("files", "%d files\n%s", len(files), show())
	}
	want, ok, moved := gitApplied(g, src, patch, src != "" || !strings.Contains(head, "new file"))
	got := ""
	if err == nil {
		got, err = applyTo(src, files[0])
	}
	for _, h := range hs {
		for _, l := range h.lines {
			if strings.HasSuffix(l, "\n") {
				continue
			}
			if o, _ := h.counts(); l[0] != '+' && (strings.HasSuffix(src, "\n") || h.old-1+o != strings.Count(src, "\n")+1) {
				moved = true // git takes any line that begins so
			}
		}
		if _, n := h.counts(); ok && (n == 0 || h.old == 0 && src != "") {
			moved = true // git looks one line too early first; position 0 stands for a new file
		}
	}
	switch {
	case err == nil && !ok:
		t.Fail("applied", "git apply refuses, Apply gives %s\n%s", q(got), show())
	case err != nil && ok && !moved:
		t.Fail("refused", "git apply gives %s, Apply: %v\n%s", q(want), err, show())
	case err == nil && !moved && got != want:
		t.Fail("result", "git apply gives %s, Apply %s\n%s", q(want), q(got), show())
	case err == nil:
		t.Outcome("applied")
	case moved:
		t.Outcome("applied elsewhere by git only")
	default:
		t.Outcome("refused")
	}
}

func c39(tier string) []engine.Scenario {
	var ss []engine.Scenario
	add := func(name, bound string, run func(t *engine.T, g *gitEnv)) {
		var g *gitEnv
		ss = append(ss, engine.Scenario{
			Name: name, Bound: bound,
			Setup: func() {
				if e, ok := newGit(); ok {
					g = e
				}
			},
			Teardown: func() { g.close(); g = nil },
			Run: func(t *engine.T) {
				if g == nil {
					t.Skip()
				}
				run(t, g)
			},
		})
	}
	source := func(t *engine.T, max int, lines []string) string {
		s := ""
		for i, n := 0, t.Choose(max+1); i < n; i++ {
			s += engine.Pick(t, lines)
		}
		if s != "" && t.Bool() {
			s = strings.TrimSuffix(s, "\n")
		}
		return s
	}
	// only the last old and the last new line may be incomplete
	body := func(t *engine.T, max int, lines []string) (ls []string) {
		for i, n := 0, 1+t.Choose(max); i < n; i++ {
			ls = append(ls, engine.Pick(t, []string{" ", "-", "+"})+engine.Pick(t, lines))
		}
		last := map[byte]int{}
		for i, l := range ls {
			last[l[0]] = i + 1
		}
		if n := last[' ']; n == len(ls) {
			if t.Bool() {
				ls[n-1] = strings.TrimSuffix(ls[n-1], "\n")
			}
			return
		}
		for _, op := range "-+" {
			if n := last[byte(op)]; n > last[' '] && t.Bool() {
				ls[n-1] = strings.TrimSuffix(ls[n-1], "\n")
			}
		}
		return
	}
	ab := []string{"a\n", "b\n"}
	// follow gives a hunk its new position, off lines after the old one
	follow := func(t *engine.T, h *posHunk, off int) int {
		o, n := h.counts()
		h.new = h.old + off
		if o == 0 {
			h.new++
		}
		if n == 0 {
			h.new--
		}
		if h.new < 0 {
			t.Skip()
		}
		return off + n - o
	}
	nl := sel(tier, 3, 4)
	add("one hunk", fmt.Sprintf("every source of up to 3 of 2 lines and every hunk of up to %d lines of them at positions 0..3, with and without the last line feeds", nl), func(t *engine.T, g *gitEnv) {
		src := source(t, 3, ab)
		h := posHunk{old: t.Choose(4), lines: body(t, nl, ab)}
		follow(t, &h, 0)
		verifyGitApply(t, g, src, changeHead, []posHunk{h})
	})
	bodies := [][]string{{"+x\n"}, {"-a\n"}, {" a\n"}, {"-a\n", "+b\n"}, {" a\n", "+x\n"}, {" b\n", "-a\n", "+x\n"}, {"+a\n", " b\n"}, {" a\n", "-b\n", " a\n"}, {"-b\n", "-a\n", "+x\n"}}
	nb, ns := sel(tier, 6, len(bodies)), sel(tier, 4, 5)
	add("two hunks", fmt.Sprintf("every source of up to %d of 2 lines and every two of %d hunks at any two places", ns, nb), func(t *engine.T, g *gitEnv) {
		src := source(t, ns, ab)
		h := [2]posHunk{{lines: bodies[t.Choose(nb)]}, {lines: bodies[t.Choose(nb)]}}
		h[0].old = 1 + t.Choose(ns)
		o, _ := h[0].counts()
		h[1].old = h[0].old + o + t.Choose(ns)
		if h[1].old > ns+1 {
			t.Skip()
		}
		follow(t, &h[1], follow(t, &h[0], 0))
		verifyGitApply(t, g, src, changeHead, h[:])
	})
	white := []string{"a\n", "a\r\n", "a \n", "\ta\n", "A\n", "\n", "\r\n", " \n", "a\x00\n", "\xe4\n", "\u00e4\n"}
	add("similar lines", fmt.Sprintf("every source and hunk of two lines, one or both of %d that differ in white space, case, or bytes", len(white)), func(t *engine.T, g *gitEnv) {
		i, j, k := t.Choose(len(white)), t.Choose(len(white)), t.Choose(len(white))
		src := white[i] + "x\n" + white[k]
		if t.Bool() {
			src = strings.TrimSuffix(src, "\n")
		}
		h := posHunk{old: 1, lines: []string{engine.Pick(t, []string{" ", "-"}) + white[j], " x\n", "+" + white[k], "-" + white[k]}}
		if h.lines[3] != "-" && !strings.HasSuffix(src, "\n") {
			h.lines[3] = strings.TrimSuffix(h.lines[3], "\n")
		}
		follow(t, &h, 0)
		verifyGitApply(t, g, src, changeHead, []posHunk{h})
	})
	abn := []string{"a\n", "b\n", "\n"}
	add("new and deleted files", fmt.Sprintf("every source of up to 3 of 3 lines or none and every hunk of up to %d lines of them at positions 0..3, as a new or deleted file", nl-1), func(t *engine.T, g *gitEnv) {
		src := source(t, 3, abn)
		h := posHunk{old: t.Choose(4), lines: body(t, nl-1, abn)}
		follow(t, &h, 0)
		head := "diff --git a/f b/f\nnew file mode 100644\n--- /dev/null\n+++ b/f\n"
		if t.Bool() {
			head = "diff --git a/f b/f\ndeleted file mode 100644\n--- a/f\n+++ /dev/null\n"
		}
		if h.old != 0 && h.new != 0 {
			t.Skip() // not such a file
		}
		verifyGitApply(t, g, src, head, []posHunk{h})
	})
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x80, 0x81, 0x90, 0x91, 0x94, 0xb0, 0xc0, 0xff}
	nd := sel(tier, 3, 4)
	add("deltas", fmt.Sprintf("every string of up to %d of %d instruction bytes with declared result sizes 0..3 and sources of 0..3 bytes; one byte less with other declared sizes of the source", nd, len(alpha)), func(t *engine.T, g *gitEnv) {
		src := "abc"[:t.Choose(4)]
		n, nd := int64(len(src)), nd
		if t.Bool() {
			n, nd = engine.Pick(t, []int64{0, n + 1}), nd-1
		}
		d := append(deltaSize(n), deltaSize(int64(t.Choose(4)))...)
		for i := 0; i < nd; i++ {
			k := t.Choose(len(alpha) + 1)
			if k == 0 {
				break
			}
			d = append(d, alpha[k-1])
		}
		if len(d) < 4 {
			t.Skip() // git takes no shorter deltas
		}
		verifyGitBinary(t, g, src, "delta", int64(len(d)), d, string(ref.RunDelta(ref.Bytes(src), d).Out))
	})
	add("literals", "every content of up to 3 of 3 bytes over every source of up to 2, with declared sizes up to one less or two more", func(t *engine.T, g *gitEnv) {
		b := ""
		for i, n := 0, t.Choose(4); i < n; i++ {
			b += engine.Pick(t, []string{"\x00", "\n", "a"})
		}
		src := engine.Pick(t, []string{"", "x", "\x00y"})
		verifyGitBinary(t, g, src, "literal", int64(len(b)-1+t.Choose(4)), []byte(b), b)
	})
	return ss
}

// verifyGitBinary applies a binary patch with git and the library.
func verifyGitBinary(t *engine.T, g *gitEnv, src, method string, size int64, data []byte, result string) {
	t.Trace()
	id := func(s string) string { return gitEntry{0o100644, s}.objectID() }
	patch := fmt.Sprintf("diff --git a/f b/f\nindex %s..%s 100644\nGIT binary patch\n%s %d\n%s\n", id(src), id(result), method, size, ref.EncodeBinaryLines(deflate(data)))
	show := func() string { return fmt.Sprintf("source %s, data % x, declared %d\n%s", q(src), data, size, patch) }
	t.Desc(show)
	t.State(src, patch)
	want, ok, _ := gitApplied(g, src, patch, true)
	files, _, err := gitdiff.Parse(strings.NewReader(patch))
	if err == nil && len(files) != 1 {
		t.Fail("files", "%d files\n%s", len(files), show())
	}
	got := ""
	if err == nil {
		got, err = applyTo(src, files[0])
	}
	switch {
	case err == nil && !ok:
		t.Fail("binary-applied", "git apply refuses, Apply gives %s\n%s", q(got), show())
	case err != nil && ok:
		t.Fail("binary-refused", "git apply gives %s, Apply: %v\n%s", q(want), err, show())
	case err == nil && got != want:
		t.Fail("binary-result", "git apply gives %s, Apply %s\n%s", q(want), q(got), show())
	}
	t.Outcome(fmt.Sprintf("binary applied: %v", ok))
}
