package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os/exec"
	"regexp"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C34", Title: "input accepted by git apply",
		Assumptions: []string{
			"the installed git (2.43) stands for git; without git nothing is explored",
		},
		Scenarios: c34,
	})
}

// gitNumstat asks git apply what it reads in a patch. ok is false if git
// rejects it.
func gitNumstat(g *gitEnv, strip int, text string) (files []string, ok bool) {
	c := g.cmd("apply", "--numstat", "-z", fmt.Sprintf("-p%d", strip), "--unsafe-paths", "-")
	c.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	c.Stdout = &out
	if err := c.Run(); err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) || ee.ExitCode() < 0 {
			panic("engine: git apply: " + err.Error())
		}
		return nil, false
	}
	for _, s := range strings.Split(out.String(), "\x00") {
		if s != "" && !strings.HasPrefix(s, "0\t0\t") { // headers without changes are skipped by git in some spellings
			files = append(files, s)
		}
	}
	return files, true
}

func libNumstat(f *gitdiff.File) string {
	name := f.NewName
	if name == "" {
		name = f.OldName
	}
	if f.IsBinary {
		return "-\t-\t" + name
	}
	a, d := int64(0), int64(0)
	for _, fr := range f.TextFragments {
		a += fr.LinesAdded
		d += fr.LinesDeleted
	}
	return fmt.Sprintf("%d\t%d\t%s", a, d, name)
}

// cutPrefixDir removes the first directory of a name, which git apply strips
// from the names of traditional patches and the library keeps.
func cutPrefixDir(s string) string {
	i := strings.LastIndexByte(s, '\t') + 1
	if j := strings.IndexByte(s[i:], '/'); j >= 0 {
		return s[:i] + s[i+j+1:]
	}
	return s
}

// loneHeader reports whether a file header is not followed by any line of a
// header: git takes it for text, the library for a header without changes, or
// refuses it if the names differ.
func loneHeader(text string) bool {
	lines := ref.Lines(text)
	for i, l := range lines {
		if strings.HasPrefix(l, "diff --git ") {
			if i+1 == len(lines) || !strings.HasSuffix(l, "\n") || !headerLine.MatchString(lines[i+1]) {
				return true
			}
		}
	}
	return false
}

var headerLine = regexp.MustCompile(`^(old mode|new mode|deleted file|new file|copy|rename|similarity|dissimilarity|index|---|\+\+\+) `)

// verifyAccepted compares Parse with git apply. strict: what git refuses is
// refused by Parse, too.
func verifyAccepted(t *engine.T, g *gitEnv, strict bool, text string) {
	t.Trace()
	show := func() string { return q(text) }
	t.Desc(show)
	t.State(text)
	want, ok := gitNumstat(g, 1, text)
	files, _, err := gitdiff.Parse(strings.NewReader(text))
	if ref.ParsePatch(text).Unspecified != "" || loneHeader(text) {
		t.Outcome("unspecified")
		return
	}
	if !ok {
		if strict && err == nil {
			t.Fail("accepted", "git apply refuses what Parse reads as %v\n%s", files, show())
		}
		t.Outcome(fmt.Sprintf("git rejects, parsed %v", err == nil))
		return
	}
	if err != nil {
		t.Fail("refused", "git apply reads %q, Parse: %v\n%s", want, err, show())
	}
	var got []string
	for _, f := range files {
		if s := libNumstat(f); !strings.HasPrefix(s, "0\t0\t") {
			got = append(got, s)
		}
	}
	same := len(got) == len(want)
	for i := range got {
		same = same && (got[i] == want[i] || cutPrefixDir(got[i]) == want[i])
	}
	if !same {
		t.Fail("files", "git apply reads %q, Parse %q\n%s", want, got, show())
	}
	t.Outcome("accepted")
}

func c34(tier string) []engine.Scenario {
	var ss []engine.Scenario
	add := func(name, bound string, run func(t *engine.T, g *gitEnv)) {
		var g *gitEnv
		ss = append(ss, engine.Scenario{
			Name: name, Bound: bound,
			Setup: func() {
				if e, ok := newGit(); ok {
					g = e
				}
			},
			Teardown: func() { g.close(); g = nil },
			Run: func(t *engine.T) {
				if g == nil {
					t.Skip()
				}
				run(t, g)
			},
		})
	}
	heads := []string{
		"old mode 100644\n", "new mode 100755\n", "deleted file mode 100644\n", "new file mode 100644\n", "similarity index 90%\n", "dissimilarity index 60%\n",
		"rename from f\n", "rename to g\n", "copy from f\n", "copy to g\n", "index 1234567..89abcde\n", "index 1234567..89abcde 100644\n",
		"--- a/f\n", "+++ b/f\n", "+++ b/g\n", "--- /dev/null\n", "+++ /dev/null\n", "\n", "junk\n",
	}
	bodies := []string{"", "@@ -1 +1 @@\n-a\n+b\n", "@@ -0,0 +1 @@\n+b\n", "@@ -1 +0,0 @@\n-a\n", "Binary files a/f and b/f differ\n", "GIT binary patch\nliteral 1\nIcmZPo000310RR91\n\n"}
	depth := sel(tier, 3, 4)
	add("git headers", fmt.Sprintf("every sequence of up to %d of %d header lines after a file header of equal or different names, with each of %d contents", depth, len(heads), len(bodies)),
		func(t *engine.T, g *gitEnv) {
			s := engine.Pick(t, []string{"diff --git a/f b/f\n", "diff --git a/f b/g\n"})
			for i := 0; i < depth; i++ {
				k := t.Choose(len(heads) + 1)
				if k == 0 {
					break
				}
				s += heads[k-1]
			}
			verifyAccepted(t, g, false, s+engine.Pick(t, bodies))
		})
	lines := []string{" a\n", "-a\n", "+a\n", "\n", "\\ No newline at end of file\n", "@@ -1 +1 @@\n", "x\n", "diff --git a/g b/g\n", "--- a\n"}
	hdepth := sel(tier, 4, 5)
	add("hunks", fmt.Sprintf("every hunk header with counts 0..2 (or omitted) and every sequence of up to %d of %d lines after it", hdepth, len(lines)),
		func(t *engine.T, g *gitEnv) {
			s := "diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1"
			s += engine.Pick(t, []string{"", ",0", ",1", ",2"}) + " +1" + engine.Pick(t, []string{"", ",0", ",1", ",2"}) + " @@\n"
			for i := 0; i < hdepth; i++ {
				k := t.Choose(len(lines) + 1)
				if k == 0 {
					break
				}
				s += lines[k-1]
			}
			verifyAccepted(t, g, true, s)
		})
	kinds := []string{"", "new file mode 100644\n", "deleted file mode 100755\n", "old mode 100644\nnew mode 100755\n", "rename from f\nrename to g\n", "copy from f\ncopy to g\n"}
	texts := []string{"+a\n", "-a\n", "-a\n+b\n", " a\n-b\n", "+a\n+b\n", "+a\n\\ No newline at end of file\n"}
	add("positions", fmt.Sprintf("%d kinds of change, with and without file names, with one or two hunks: all positions 0..2 and counts 0..2 (or omitted) and %d bodies", len(kinds), len(texts)),
		func(t *engine.T, g *gitEnv) {
			k := t.Choose(len(kinds))
			s := "diff --git a/f b/f\n"
			if k > 3 {
				s = "diff --git a/f b/g\n"
			}
			s += kinds[k]
			if t.Bool() {
				switch k {
				case 1:
					s += "--- /dev/null\n+++ b/f\n"
				case 2:
					s += "--- a/f\n+++ /dev/null\n"
				case 4, 5:
					s += "--- a/f\n+++ b/g\n"
				default:
					s += "--- a/f\n+++ b/f\n"
				}
			}
			rng := func() string {
				return fmt.Sprint(t.Choose(3)) + engine.Pick(t, []string{"", ",0", ",1", ",2"})
			}
			second := t.Bool()
			s += "@@ -" + rng() + " +" + rng() + " @@\n" + engine.Pick(t, texts)
			if second {
				s += engine.Pick(t, []string{"@@ -7,0 +8 @@\n+z\n", "@@ -7 +6,0 @@\n-z\n", "@@ -7 +7 @@\n-y\n+z\n", "@@ -1 +1 @@\n-y\n+z\n"})
			}
			verifyAccepted(t, g, true, s)
		})
	add("binary markers", "every line made of one of 10 beginnings, 5 middles and 9 ends after 4 kinds of file header, followed by nothing, text, a hunk or another file",
		func(t *engine.T, g *gitEnv) {
			s := engine.Pick(t, []string{
				"diff --git a/f b/f\nindex 1234567..89abcde 100644\n", "diff --git a/f b/f\nnew file mode 100644\nindex 0000000..89abcde\n",
				"diff --git a/f b/g\nrename from f\nrename to g\nindex 1234567..89abcde\n", "diff --git a/f b/f\nold mode 100644\nnew mode 100755\nindex 1234567..89abcde\n",
			})
			s += engine.Pick(t, []string{"Binary files ", "Files ", "Binary file ", "binary files ", " Binary files ", "The Files ", "BinaryFiles ", "Binary filesystem", "Filesystem ", "GIT binary patch"})
			s += engine.Pick(t, []string{"a/f and b/f", "", "a", "/dev/null and b/f differ", "GIT binary patch"})
			s += engine.Pick(t, []string{" differ\n", "differ\n", " differ.\n", " differ \n", " differ\r\n", " differs\n", " are identical\n", "\n", " differ"})
			if strings.HasSuffix(s, "\n") {
				s += engine.Pick(t, []string{"", "text\n", "literal 1\nIcmZPo000310RR91\n\n", "@@ -1 +1 @@\n-a\n+b\n", "diff --git a/h b/h\nindex 1234567..89abcde 100644\n--- a/h\n+++ b/h\n@@ -1 +1 @@\n-a\n+b\n", " differ\n"})
			}
			verifyAccepted(t, g, false, s)
		})
	before := []string{"", "Index: f\n" + strings.Repeat("=", 67) + "\n", "diff -r 0123456789ab f\n", "diff -u a/f b/f\n", "Only in a: x\n", "*** a/f\n", "--- a/x\n", "+++ b/x\n", "--- a/x\n+++ b/x\n", "@@ -1 +1 @\n", "@ -1 +1 @@\n", "commit 1\n\n    --- x\n", "diff --git\n"}
	ends := []string{"", "\t", "\t(revision 1)", "\t(working copy)", "\t2020-01-02 03:04:05.000000000 +0000", "\t2020-01-02 03:04:05 -0130", "\tThu Jan 02 03:04:05 2020 +0000", "\t1970-01-01 00:00:00 +0000", "\t1970-01-01 01:00:00.000 +01:00", "\tThu Jan  1 00:00:00 1970", "\t1.1\t2020/01/02", "~", ".orig", "\t1969-12-31 23:00:00 -0100", "\t1970-01-01"}
	add("traditional headers", fmt.Sprintf("%d kinds of text before %d x %d kinds of ends of the lines with the names, with %d names and 3 hunks", len(before), len(ends), len(ends), 6),
		func(t *engine.T, g *gitEnv) {
			s := engine.Pick(t, before)
			names := engine.Pick(t, [][2]string{{"x/f", "x/f"}, {"a/f", "b/f"}, {"a/d e", "b/d e"}, {"a/\"q", "b/\"q"}, {"\"a/x\\\\y\"", "\"b/x\\\\y\""}, {"/dev/null", "b/f"}})
			oldEnd, newEnd := engine.Pick(t, ends), engine.Pick(t, ends)
			backup := func(s string) bool { return s == "~" || s == ".orig" }
			if (backup(oldEnd) || backup(newEnd)) && (names[0] != names[1] || oldEnd != "" && newEnd != "") {
				t.Skip() // git compares the names without their first directories and before the times
			}
			s += "--- " + names[0] + oldEnd + "\n+++ " + names[1] + newEnd + "\n"
			verifyAccepted(t, g, false, s+engine.Pick(t, []string{"@@ -1 +1 @@\n-a\n+b\n", "@@ -0,0 +1 @@\n+b\n", "@@ -1 +0,0 @@\n-a\n"}))
		})
	bases := []string{
		"diff --git a/f b/f\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/f\n@@ -1,3 +1,3 @@ fn\n a\n-b\n+c\n d\n@@ -8,2 +8,3 @@\n x\n+y\n z\n\\ No newline at end of file\n",
		"diff --git a/n b/n\nnew file mode 100644\nindex 0000000..89abcde\n--- /dev/null\n+++ b/n\n@@ -0,0 +1,2 @@\n+a\n+b\ndiff --git a/d b/d\ndeleted file mode 100755\nindex 1234567..0000000\n--- a/d\n+++ /dev/null\n@@ -1 +0,0 @@\n-a\n\\ No newline at end of file\n",
		"diff --git a/f b/g\nold mode 100644\nnew mode 100755\nsimilarity index 80%\nrename from f\nrename to g\nindex 1234567..89abcde\n--- a/f\n+++ b/g\n@@ -1 +1 @@\n-a\n+b\ndiff --git a/c b/e\nsimilarity index 100%\ncopy from c\ncopy to e\n",
		"--- a/f\t2020-01-01 00:00:00.000000000 +0000\n+++ b/f\t2020-01-01 00:00:00.000000000 +0000\n@@ -1,2 +1,2 @@\n a\n-b\n+c\n--- a/g\n+++ b/g\n@@ -1 +1,2 @@\n a\n+b\n",
		"diff --git a/b b/b\nindex 1111111111111111111111111111111111111111..2222222222222222222222222222222222222222 100644\nGIT binary patch\nliteral 1\nIcmZPo000310RR91\n\nliteral 0\nHcmV?d00001\n\ndiff --git a/t b/t\nindex 1234567..89abcde 100644\n--- a/t\n+++ b/t\n@@ -1 +1 @@\n-a\n+b\n",
	}
	extra := []string{"\n", "junk\n", " a\n", "-a\n", "+a\n", "@@ -1 +1 @@\n", "diff --git a/z b/z\n", "--- a/z\n", "+++ b/z\n", "\\ No newline at end of file\n", "-- \n", "Binary files a/x and b/x differ\n"}
	short := []string{
		"diff --git a/f b/f\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/f\n@@ -1,2 +1,2 @@\n a\n-b\n+c\n",
		"--- a/f\n+++ b/f\n@@ -1,2 +1,3 @@\n a\n+b\n c\n",
		"diff --git a/f b/g\nrename from f\nrename to g\n--- a/f\n+++ b/g\n@@ -1 +1 @@\n-a\n+b\n",
	}
	edited := func(name string, bases, extra []string, edits int) {
		add(name, fmt.Sprintf("%d patches, %d times: a line removed, repeated, exchanged with the next, replaced by or followed by one of %d lines, or the input cut after it, with or without the line feed", len(bases), edits, len(extra)),
			func(t *engine.T, g *gitEnv) {
				lines := ref.Lines(engine.Pick(t, bases))
				for n := 0; n < edits && len(lines) > 0; n++ {
					i := t.Choose(len(lines))
					switch t.Choose(7) {
					case 0:
						lines = append(append([]string{}, lines[:i]...), lines[i+1:]...)
					case 1:
						lines = append(append(append([]string{}, lines[:i+1]...), lines[i]), lines[i+1:]...)
					case 2:
						if i+1 == len(lines) {
							t.Skip()
						}
						lines[i], lines[i+1] = lines[i+1], lines[i]
					case 3:
						lines[i] = engine.Pick(t, extra)
					case 4:
						lines = append(append(append([]string{}, lines[:i+1]...), engine.Pick(t, extra)), lines[i+1:]...)
					case 5:
						lines = lines[:i+1]
					case 6:
						if !strings.ContainsAny(lines[i][:1], " +-\\") || strings.HasPrefix(lines[i], "--- ") || strings.HasPrefix(lines[i], "+++ ") {
							t.Skip() // git does not read a header line that is cut short
						}
						lines = lines[:i+1]
						lines[i] = strings.TrimSuffix(lines[i], "\n")
						n = edits // nothing can follow
					}
				}
				verifyAccepted(t, g, false, strings.Join(lines, ""))
			})
	}
	edited("edited patches", bases, extra, 1)
	edited("patches edited twice", short, extra[2:6], 2)
	if tier == "thorough" {
		edited("any two edits", short, extra, 2)
		edited("patches edited three times", short[1:2], extra[2:5], 3)
	}
	return ss
}
