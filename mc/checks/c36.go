//go:build steps

package checks

import (
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C36", Title: "work grows in proportion to the input",
		Assumptions: []string{
			"work is the number of statements of the library that are executed and the bytes it allocates; the time spent inside standard library calls is only bounded by the clock, on inputs of a million characters",
			"inputs that grow in more than two places, or by units longer than the enumerated ones, are not explored",
		},
		Scenarios: c36,
	})
}

// stepAllowance and allocAllowance are what every further byte may cost
// whatever the growth from the smallest to the middle size says.
const (
	stepAllowance  = 8
	allocAllowance = 256
	growth         = 1.6
)

// load is one call or sequence of calls on an input of a size that depends on
// n. It returns the bytes that it reads and writes.
type load func(n int) (func() int64, string)

// cost runs a load once.
func cost(t *engine.T, n int, l load) (size, steps, alloc int64) {
	run, _ := l(n)
	var a, b runtime.MemStats
	gitdiff.VerifStepLimit = 1 << 27
	gitdiff.VerifStepsExceeded = func() {
		t.Fail("steps", "more than %d statements for a unit repeated %d times", int64(1)<<27, n)
	}
	runtime.ReadMemStats(&a)
	gitdiff.VerifSteps = 0
	size = run()
	steps = gitdiff.VerifSteps
	runtime.ReadMemStats(&b)
	gitdiff.VerifStepLimit = math.MaxInt64
	return size, steps, int64(b.TotalAlloc - a.TotalAlloc)
}

// verifyGrowth compares the work for three sizes.
func verifyGrowth(t *engine.T, n int, l load) {
	var size, steps, alloc [3]int64
	for i := range size {
		t.Trace()
		size[i], steps[i], alloc[i] = cost(t, n<<(2*i), l)
	}
	if size[2] <= size[1] || size[1] <= size[0] {
		panic(fmt.Sprintf("engine: sizes %v do not grow", size))
	}
	per := func(x [3]int64, i int) float64 { return float64(x[i+1]-x[i]) / float64(size[i+1]-size[i]) }
	check := func(what string, x [3]int64, allowance float64) {
		first, second := per(x, 0), per(x, 1)
		if second > growth*max(first, 0)+allowance {
			_, small := l(1)
			t.Fail(what, "%v %s for %v bytes: each further byte costs %.1f, then %.1f\nthe unit once: %s", x, what, size, first, second, small)
		}
	}
	check("statements", steps, stepAllowance)
	check("bytes allocated", alloc, allocAllowance)
	t.Outcome("proportional")
}

// work uses everything a patch gives; it counts bytes in and out.
func work(r io.Reader, in int) int64 {
	size := int64(in)
	files, pre, _ := gitdiff.Parse(r)
	for _, f := range files {
		size += int64(len(f.String()))
		for _, fr := range f.TextFragments {
			_ = fr.Validate()
			size += int64(len(fr.Header()))
		}
		if f.BinaryFragment != nil {
			n, _ := io.Copy(io.Discard, f.BinaryFragment.Data())
			size += n
		}
	}
	_, _ = gitdiff.ParsePatchHeader(pre)
	return size
}

func parseLoad(text func(n int) string, k int) load {
	return func(n int) (func() int64, string) {
		s := text(n)
		return func() int64 {
			if k == 0 {
				return work(strings.NewReader(s), len(s))
			}
			return work(&pieces{s, k}, len(s))
		}, q(s)
	}
}

func callLoad(text func(n int) string, call func(s string)) load {
	return func(n int) (func() int64, string) {
		s := text(n)
		return func() int64 { call(s); return int64(len(s)) }, q(s)
	}
}

func parseHeader(mode gitdiff.SubjectCleanMode) func(string) {
	return func(s string) {
		if h, err := gitdiff.ParsePatchHeader(s, gitdiff.WithSubjectCleanMode(mode)); err == nil && h != nil {
			_ = h.Message()
		}
	}
}

// growSlot is a place where text of any length may stand.
type growSlot struct {
	name  string
	input func(s string) string
	call  func(s string) // nil: parse a patch
}

func patchSlot(name, format string) growSlot {
	return growSlot{name, func(s string) string { return strings.ReplaceAll(format, "%", s) }, nil}
}

func headerSlot(name, format string, mode gitdiff.SubjectCleanMode) growSlot {
	return growSlot{name, func(s string) string { return strings.ReplaceAll(format, "%", s) }, parseHeader(mode)}
}

func growSlots() []growSlot {
	hunk := "@@ -1 +1 @@\n-a\n+b\n"
	pretty := "commit 61f5cd90bed4d204ee3feb3aa41ee91d4734855b\nAuthor: A <a@b>\nDate:   Sat Apr 11 15:21:23 2020 -0700\n\n"
	mail := "From 61f5cd90bed4d204ee3feb3aa41ee91d4734855b Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\n"
	return []growSlot{
		patchSlot("text", "%"),
		patchSlot("git header", "diff --git %\n"+hunk),
		patchSlot("git header names", "diff --git a/% b/%\nold mode 100644\nnew mode 100755\n"),
		patchSlot("git header quoted names", "diff --git \"a/%\" \"b/%\"\nold mode 100644\nnew mode 100755\n"),
		patchSlot("git header one quoted name", "diff --git \"a/%\" b/%\nold mode 100644\nnew mode 100755\n"),
		patchSlot("old name", "diff --git a/f b/f\n--- %\n+++ b/f\n"+hunk),
		patchSlot("both names", "diff --git a/% b/%\n--- a/%\n+++ b/%\n"+hunk),
		patchSlot("rename", "diff --git a/f b/g\nsimilarity index 100%\nrename from %\nrename to %\n"),
		patchSlot("index", "diff --git a/f b/f\nindex %\n--- a/f\n+++ b/f\n"+hunk),
		patchSlot("object ids", "diff --git a/f b/f\nindex %..% 100644\n--- a/f\n+++ b/f\n"+hunk),
		patchSlot("mode", "diff --git a/f b/f\nold mode %\nnew mode 100644\n"),
		patchSlot("header line", "diff --git a/f b/f\n%\nold mode 100644\nnew mode 100755\n"),
		patchSlot("traditional names", "--- %\n+++ %\n"+hunk),
		patchSlot("traditional stamps", "--- f\t%\n+++ f\t%\n"+hunk),
		patchSlot("hunk header", "--- f\n+++ f\n@@ -%\n-a\n+b\n"),
		patchSlot("hunk numbers", "--- f\n+++ f\n@@ -1,% +1,% @@\n-a\n+b\n"),
		patchSlot("hunk comment", "--- f\n+++ f\n@@ -1 +1 @@%\n-a\n+b\n"),
		patchSlot("hunk lines", "--- f\n+++ f\n@@ -1,2 +1,2 @@\n %\n-%\n+%\n"),
		patchSlot("marker", "--- f\n+++ f\n@@ -1 +1 @@\n-a\n\\%\n+b\n"),
		patchSlot("binary size", binHeader+"literal %\n"),
		patchSlot("binary data", binHeader+"literal 5\n%\n\n"),
		patchSlot("binary marker", "diff --git a/f b/f\nBinary files % and % differ\n"),
		patchSlot("preamble", "%\n"+gitHead+hunk),
		patchSlot("last line", gitHead+hunk+"%"),
		{"identity", func(s string) string { return s }, func(s string) { id, _ := gitdiff.ParsePatchIdentity(s); _ = id.String() }},
		{"identity name", func(s string) string { return s + " <e>" }, func(s string) { id, _ := gitdiff.ParsePatchIdentity(s); _ = id.String() }},
		{"identity email", func(s string) string { return "N <" + s + ">" }, func(s string) { id, _ := gitdiff.ParsePatchIdentity(s); _ = id.String() }},
		{"identity quoted", func(s string) string { return "\"" + s + "\" <e>" }, func(s string) { id, _ := gitdiff.ParsePatchIdentity(s); _ = id.String() }},
		{"identity comment", func(s string) string { return "N (" + s + ") <e>" }, func(s string) { id, _ := gitdiff.ParsePatchIdentity(s); _ = id.String() }},
		{"date", func(s string) string { return s }, func(s string) { _, _ = gitdiff.ParsePatchDate(s) }},
		headerSlot("commit line", "commit %\nAuthor: A <a@b>\n\n    t\n", 0),
		headerSlot("pretty author", strings.Replace(pretty, "A <a@b>", "%", 1)+"    t\n", 0),
		headerSlot("pretty date", strings.Replace(pretty, "Sat Apr", "%", 1)+"    t\n", 0),
		headerSlot("pretty title", pretty+"    %\n\n    b\n", 0),
		headerSlot("pretty title and body", pretty+"    %\n    %\n\n    %\n\n    %\n", 0),
		headerSlot("pretty indentation", pretty+"%t\n%u\n\n%b\n", 0),
		headerSlot("mail from", strings.Replace(mail, "A <a@b>", "%", 1)+"Subject: t\n\nb\n", 0),
		headerSlot("mail date", strings.Replace(mail, "Sat, 11", "%", 1)+"Subject: t\n\nb\n", 0),
		headerSlot("mail subject", mail+"Subject: %\n\nb\n", gitdiff.SubjectCleanAll),
		headerSlot("mail subject, patch only", mail+"Subject: [PATCH %\n\nb\n", gitdiff.SubjectCleanPatchOnly),
		headerSlot("mail subject, whitespace", mail+"Subject: %\n\nb\n", gitdiff.SubjectCleanWhitespace),
		headerSlot("mail subject prefix", mail+"Subject: [%] t\n\nb\n", gitdiff.SubjectCleanAll),
		headerSlot("mail encoded subject", mail+"Subject: =?UTF-8?q?%?=\n\nb\n", gitdiff.SubjectCleanAll),
		headerSlot("mail folded subject", mail+"Subject: t\n %\n %\n\nb\n", gitdiff.SubjectCleanAll),
		headerSlot("mail other field", mail+"X-Y: %\nSubject: t\n\nb\n", 0),
		headerSlot("mail body", mail+"Subject: t\n\n%\n---\n%\n", 0),
		headerSlot("no header", "%", 0),
		{"file names", func(s string) string { return s }, func(s string) {
			f := &gitdiff.File{OldName: s, NewName: s + "x", IsRename: true}
			_ = f.String()
		}},
	}
}

func growUnits() []string {
	return []string{"a", " ", "\"", "\\", "/", "\t", "0", "7", "\xc3\xa9", "\xff", "[", "]", "(", ")", "<", ">", "@", ":", "=", "?", "_", "-", "+", ".", ",", "\r", "\x00", "\n"}
}

var growTokens = []string{"a/x b/x ", " b/", "a ", "\n ", "\r\n", "=?", "?=", "=?UTF-8?q?a?=", "=?UTF-8?q?a?= ", "[PATCH] ", "[a] ", "Re: ", "re:", "\\303\\251", "\\\"", "\\n", "\" \"", "(\"", "\")", "(\\", "\n\n", "\n\n    ", "    ", "\n---\n", "/dev/null", "../", "a/", "//", "e@f ", "<>", "1970-01-01 ", "+0000", "..", ",1"}

// applyLoads are patches and sources that grow.
func applyLoads(t *engine.T) (string, load) {
	kinds := []string{"-", "+", "-+", "+-", " -", "-+ ", "+ ", "  -+  ", "--", "- + "}
	sources := []string{"io.ReaderAt", "lines"}
	what := engine.Pick(t, []string{"hunks", "long hunk", "long lines", "far hunk", "far mismatch", "delta", "literal"})
	apply := func(src string, f *gitdiff.File, lines bool) func() int64 {
		var r io.ReaderAt = strings.NewReader(src)
		if lines {
			r = &envLineSource{envSource{data: src}, ref.Lines(src)}
		}
		return func() int64 {
			w := &countSink{}
			_ = gitdiff.Apply(w, r, f)
			size := w.n + int64(len(src)+len(f.String()))
			return size
		}
	}
	switch what {
	case "hunks", "long hunk":
		kind := engine.Pick(t, kinds)
		order := 0
		if what == "hunks" {
			order = t.Choose(4)
		}
		width := engine.Pick(t, []int{0, 1, 60})
		lines := engine.Pick(t, sources)
		return fmt.Sprintf("%s of %q, order %d, lines of %d bytes, %s", what, kind, order, width, lines), func(n int) (func() int64, string) {
			text := strings.Repeat("x", width) + "\n"
			var hs []*ref.Hunk
			var script []ref.Op
			for i := 0; i < n; i++ {
				for _, k := range kind {
					script = append(script, ref.Op{Kind: byte(k), Text: text})
				}
				if what == "hunks" {
					script = append(script, ref.Op{Kind: ' ', Text: "between\n"}, ref.Op{Kind: ' ', Text: "between\n"})
				}
			}
			in, brk := make([]bool, len(script)), make([]bool, len(script))
			for i := range in {
				in[i] = script[i].Text == text
			}
			hs = ref.Group(script, in, brk)
			f := fileOf(hs)
			fs := f.TextFragments
			switch order {
			case 1:
				for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
					fs[i], fs[j] = fs[j], fs[i]
				}
			case 2: // even ones, then odd ones
				var a, b []*gitdiff.TextFragment
				for i, x := range fs {
					if i%2 == 0 {
						a = append(a, x)
					} else {
						b = append(b, x)
					}
				}
				f.TextFragments = append(a, b...)
			case 3: // last one first
				f.TextFragments = append(append([]*gitdiff.TextFragment{}, fs[len(fs)-1]), fs[:len(fs)-1]...)
			}
			return apply(ref.OldText(script), f, lines == "lines"), hunksString(hs)
		}
	case "long lines":
		lines := engine.Pick(t, sources)
		kind := engine.Pick(t, kinds)
		unit := engine.Pick(t, []string{"x", "\r", "\x00", "\xff", " "})
		return fmt.Sprintf("lines of n %q, %q, %s", unit, kind, lines), func(n int) (func() int64, string) {
			var script []ref.Op
			for _, k := range kind {
				script = append(script, ref.Op{Kind: byte(k), Text: strings.Repeat(unit, n) + "\n"})
			}
			hs := ref.ContextGroup(script, 3)
			return apply(ref.OldText(script), fileOf(hs), lines == "lines"), hunksString(hs)
		}
	case "far hunk", "far mismatch":
		lines := engine.Pick(t, sources)
		line := engine.Pick(t, []string{"\n", "x\n", strings.Repeat("y", 70) + "\n"})
		back := t.Choose(3)
		return fmt.Sprintf("%s, %d lines before the end, source lines %q, %s", what, back, line, lines), func(n int) (func() int64, string) {
			src := strings.Repeat(line, n+3)
			old := line
			if what != "far hunk" {
				old = "other\n"
			}
			h := &ref.Hunk{OldPos: int64(n + 3 - back), NewPos: int64(n + 3 - back), Body: []ref.Op{{Kind: '-', Text: old}, {Kind: '+', Text: "z\n"}}}
			h.Count()
			return apply(src, fileOf([]*ref.Hunk{h}), lines == "lines"), hunksString([]*ref.Hunk{h})
		}
	case "delta":
		instr := []string{"\x90\x01", "\x91\x07\x01", "\x91\x0f\x01", "\x90\x10", "\x01a", "\x03abc", "\x7f" + strings.Repeat("z", 127), "\xb0\x10\x00", "\x93\x07\x00\x05"}
		makes := map[string]int64{"": 0, instr[0]: 1, instr[1]: 1, instr[2]: 1, instr[3]: 16, instr[4]: 1, instr[5]: 3, instr[6]: 127, instr[7]: 16, instr[8]: 5}
		a, b := engine.Pick(t, instr), ""
		if c := t.Choose(len(instr) + 1); c > 0 {
			b = instr[c-1]
		}
		level := engine.Pick(t, []int{0, 9})
		return fmt.Sprintf("delta of %q%q, level %d", a, b, level), func(n int) (func() int64, string) {
			full := append(deltaOf(int64(len(sharedBinarySource)), int64(n)*(makes[a]+makes[b])), strings.Repeat(a+b, n)...)
			f := growBinFile(gitdiff.BinaryPatchDelta, full, level)
			return apply(sharedBinarySource, f, false), q(string(full))
		}
	default:
		unit := engine.Pick(t, []string{"x", "\x00", "ab\n"})
		level := engine.Pick(t, []int{0, 9})
		chunk := engine.Pick(t, []int{0, 1, 7})
		return fmt.Sprintf("literal of n %q, level %d, read by %d", unit, level, chunk), func(n int) (func() int64, string) {
			data := strings.Repeat(unit, n)
			f := growBinFile(gitdiff.BinaryPatchLiteral, []byte(data), level)
			run := apply("", f, false)
			return func() int64 {
				size := run()
				if chunk > 0 {
					r := f.BinaryFragment.Data()
					p := make([]byte, chunk)
					for {
						k, err := r.Read(p)
						size += int64(k)
						if err != nil {
							break
						}
					}
				}
				return size + int64(len(data))
			}, q(data)
		}
	}
}

const sharedBinarySource = "0123456789abcdef"

func growBinFile(m gitdiff.BinaryPatchMethod, data []byte, level int) *gitdiff.File {
	return &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: &gitdiff.BinaryFragment{Method: m, Size: int64(len(data)), RawData: deflateLevel(data, level)}}
}

// growParts are parts of a patch of which any two may grow together.
var growParts = []string{"preamble lines", "preamble length", "name", "header lines", "hunks", "hunk lines", "line length", "comment", "files", "binary lines", "trailing lines"}

func grown(a, b, n int) string {
	at := func(i int) int {
		if i == a || i == b {
			return n
		}
		return 1
	}
	var s strings.Builder
	for i := 0; i < at(0); i++ {
		s.WriteString("pre" + strings.Repeat("x", at(1)/at(0)) + "\n")
	}
	files := at(8)
	for k := 0; k < files; k++ {
		share := func(i int) int { return max(at(i)/files, 1) }
		name := strings.Repeat("n ", share(2))
		fmt.Fprintf(&s, "diff --git a/%s b/%s\n", name, name)
		for i := 0; i < share(3); i++ {
			s.WriteString("index 1..2\n")
		}
		if b == 9 || a == 9 {
			s.WriteString("GIT binary patch\nliteral 5\n")
			for i := 0; i < share(9); i++ {
				s.WriteString("Ac-jFr\n")
			}
			s.WriteString("\n")
			continue
		}
		fmt.Fprintf(&s, "--- a/%s\t\n+++ b/%s\t\n", name, name)
		hunks := share(4)
		for i := 0; i < hunks; i++ {
			m := max(share(5)/hunks, 1)
			fmt.Fprintf(&s, "@@ -%d,%d +%d,%d @@ %s\n", 1+i*(m+9), m, 1+i*(m+9), m, strings.Repeat("c", max(share(7)/hunks, 1)))
			for j := 0; j < m; j++ {
				line := strings.Repeat("l", max(share(6)/(hunks*m), 1))
				s.WriteString("-" + line + "\n+" + line + "2\n")
			}
		}
	}
	for i := 0; i < at(10); i++ {
		s.WriteString("after\n")
	}
	return s.String()
}

func c36(tier string) []engine.Scenario {
	var ss []engine.Scenario
	slots := growSlots()
	units := growUnits()
	all := append(append([]string{}, units...), growTokens...)
	wraps := [][2]string{{"", ""}, {"\"", "\""}}
	if tier == "thorough" {
		wraps = append(wraps, [2]string{"<", ">"}, [2]string{"(", ")"}, [2]string{"x ", " x"}, [2]string{"=?", "?="}, [2]string{"[", "]"}, [2]string{"a/x", " b/x"})
	}
	second := units
	if tier == "thorough" {
		second = all
	}
	ss = append(ss, engine.Scenario{
		Name:   "repeated characters",
		Bound:  fmt.Sprintf("%d places of patches, commit headers, mails, identities, dates and names x %d units (%d characters and tokens, alone and followed by one of %d) x %d enclosures, repeated 64, 256 and 1024 times: the statements executed and the bytes allocated for each further byte do not grow", len(slots), len(all)*(len(second)+1), len(all), len(second), len(wraps)),
		Serial: true,
		Run: func(t *engine.T) {
			sl := engine.Pick(t, slots)
			u := engine.Pick(t, all)
			if c := t.Choose(len(second) + 1); c > 0 {
				u += second[c-1]
			}
			wrap := engine.Pick(t, wraps)
			text := func(n int) string { return sl.input(wrap[0] + strings.Repeat(u, n) + wrap[1]) }
			t.Desc(func() string { return fmt.Sprintf("%s: %q repeated in %q", sl.name, u, wrap) })
			t.State(text(1))
			if sl.call == nil {
				verifyGrowth(t, 64, parseLoad(text, 0))
			} else {
				verifyGrowth(t, 64, callLoad(text, sl.call))
			}
		},
	})
	lines := []string{
		"diff --git a/f b/f\n", "diff --git \"a/f\" b/f\n", "--- a/f\n", "+++ b/f\n", "--- /dev/null\n", "--- f\t1970-01-01 00:00:00 +0000\n", "old mode 100644\n", "new mode 100755\n", "new file mode 100644\n", "deleted file mode 100644\n",
		"rename from f\n", "rename to g\n", "similarity index 5%\n", "index 1..2 100644\n", "@@ -1 +1 @@\n", "@@ -1,2 +1,0 @@ c\n", "@@ -0,0 +1 @@\n", "@@ -1,\n",
		" a\n", "-a\n", "+a\n", "\n", "\\ No newline at end of file\n", "GIT binary patch\n", "Binary files a and b differ\n", "literal 1\n", "literal 5\n", "delta 1\n", "Ac-jFr\n", "zABC\n", "x", "x\n", "-- \n", "---\n",
		"commit 61f5cd90bed4d204ee3feb3aa41ee91d4734855b\n", "Author: A <a@b>\n", "Date:   Sat Apr 11 15:21:23 2020 -0700\n", "From: A <a@b>\n", "Subject: [PATCH] t\n", "From 61f5cd90bed4d204ee3feb3aa41ee91d4734855b Mon Sep 17 00:00:00 2001\n", "    t\n", "\tt\n", " \r\n",
	}
	contexts := []string{"", gitHead, "diff --git a/f b/f\n", "diff --git a/f b/f\nnew file mode 100644\n--- /dev/null\n+++ b/f\n@@ -0,0 +1,99999 @@\n", gitHead + "@@ -1,99999 +1,99999 @@\n", binHeader, binHeader + "literal 99999\n", "commit 61f5cd90bed4d204ee3feb3aa41ee91d4734855b\nAuthor: A <a@b>\n\n    t\n\n", "From 61f5cd90bed4d204ee3feb3aa41ee91d4734855b Mon Sep 17 00:00:00 2001\nSubject: t\n"}
	ends := []string{"", gitHead + "@@ -1 +1 @@\n-a\n+b\n"}
	ss = append(ss, engine.Scenario{
		Name:   "repeated lines",
		Bound:  fmt.Sprintf("%d contexts x all sequences of <=%d of %d lines, repeated 32, 128 and 512 times, with and without a complete file after them", len(contexts), sel(tier, 2, 2), len(lines)),
		Serial: true,
		Run: func(t *engine.T) {
			c := engine.Pick(t, contexts)
			u := engine.Pick(t, lines)
			if k := t.Choose(len(lines) + 1); k > 0 {
				u += lines[k-1]
			}
			e := engine.Pick(t, ends)
			t.Desc(func() string { return fmt.Sprintf("%q, then %q repeated, then %q", c, u, e) })
			t.State(c, u, e)
			verifyGrowth(t, 32, parseLoad(func(n int) string { return c + strings.Repeat(u, n) + e }, 0))
		},
	})
	blocks := []string{
		"@@ -1 +1 @@\n-a\n+b\n", "@@ -1,2 +1,2 @@ c\n a\n-a\n+b\n\\ No newline at end of file\n",
		"--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n", gitHead + "@@ -1 +1 @@\n-a\n+b\n", "diff --git a/f b/f\nold mode 100644\nnew mode 100755\n",
		"diff --git a/f b/g\nsimilarity index 100%\nrename from f\nrename to g\n", binHeader + "literal 5\nMc$~{f&B@6J00t}q6#xJL\n\n", "diff --git a/f b/f\nBinary files a/f and b/f differ\n",
	}
	blocks = append(blocks, lines...)
	ss = append(ss, engine.Scenario{
		Name:   "many lines",
		Bound:  fmt.Sprintf("%d contexts x %d lines, hunks and files repeated 1024, 4096 and 16384 times", len(contexts), len(blocks)),
		Serial: true,
		Run: func(t *engine.T) {
			c := engine.Pick(t, contexts)
			u := engine.Pick(t, blocks)
			t.Desc(func() string { return fmt.Sprintf("%q, then %q repeated", c, u) })
			t.State(c, u)
			verifyGrowth(t, 1024, parseLoad(func(n int) string { return c + strings.Repeat(u, n) + ends[1] }, 0))
		},
	})
	ss = append(ss, engine.Scenario{
		Name:   "two growing parts",
		Bound:  fmt.Sprintf("every pair of %d parts of a patch (%s), growing together from 64 to 1024, read at once, by 1 and by 7 bytes, and from 1024 to 16384,", len(growParts), strings.Join(growParts, ", ")),
		Serial: true,
		Run: func(t *engine.T) {
			a := t.Choose(len(growParts))
			b := a + t.Choose(len(growParts)-a)
			k := engine.Pick(t, []int{0, 1, 7, -1})
			t.Desc(func() string { return fmt.Sprintf("%s and %s, read by %d", growParts[a], growParts[b], k) })
			t.State(fmt.Sprint(a, b, k))
			if k < 0 {
				verifyGrowth(t, 1024, parseLoad(func(n int) string { return grown(a, b, n) }, 0))
				return
			}
			verifyGrowth(t, 64, parseLoad(func(n int) string { return grown(a, b, n) }, k))
		},
	})
	ss = append(ss, engine.Scenario{
		Name:   "applying",
		Bound:  "growing numbers of hunks (10 kinds, in and out of order), lines of hunks, line lengths, distances to a hunk or a mismatch, delta instructions (all pairs of 9) and literals, from 512 to 8192, with both kinds of sources",
		Serial: true,
		Run: func(t *engine.T) {
			name, l := applyLoads(t)
			t.Desc(func() string { return name })
			t.State(name)
			verifyGrowth(t, 512, l)
		},
	})
	const million = 1 << 20
	ss = append(ss, engine.Scenario{
		Name:   "a million characters",
		Bound:  fmt.Sprintf("%d places x %d units repeated to a million characters are done in less than %v", len(slots), len(all), slowest),
		Serial: true,
		Run: func(t *engine.T) {
			sl := engine.Pick(t, slots)
			u := engine.Pick(t, all)
			s := sl.input(strings.Repeat(u, million/len(u)/max(1, strings.Count(sl.input("%"), "%"))))
			t.Desc(func() string { return fmt.Sprintf("%s: %q repeated to a million characters", sl.name, u) })
			t.State(sl.name, u)
			inTime(t, func() {
				if sl.call == nil {
					work(strings.NewReader(s), len(s))
				} else {
					sl.call(s)
				}
			})
		},
	})
	ss = append(ss, engine.Scenario{
		Name:   "a million characters of lines",
		Bound:  fmt.Sprintf("%d contexts x %d lines repeated to a million characters, and %d pairs of parts that grow to 2^16, are done in less than %v", len(contexts), len(lines), len(growParts)*(len(growParts)+1)/2, slowest),
		Serial: true,
		Run: func(t *engine.T) {
			var s, name string
			if t.Bool() {
				c := engine.Pick(t, contexts)
				u := engine.Pick(t, lines)
				s = c + strings.Repeat(u, million/len(u)) + ends[1]
				name = fmt.Sprintf("%q, then %q repeated to a million characters", c, u)
			} else {
				a := t.Choose(len(growParts))
				b := a + t.Choose(len(growParts)-a)
				s = grown(a, b, 1<<16)
				name = growParts[a] + " and " + growParts[b]
			}
			t.Desc(func() string { return name })
			t.State(name)
			inTime(t, func() { work(strings.NewReader(s), len(s)) })
		},
	})
	ss = append(ss, engine.Scenario{
		Name:   "applying much",
		Bound:  fmt.Sprintf("the patches of \"applying\" with 2^%d repetitions are applied in less than %v", sel(tier, 13, 16), slowest),
		Serial: true,
		Run: func(t *engine.T) {
			name, l := applyLoads(t)
			t.Desc(func() string { return name })
			t.State(name)
			run, _ := l(1 << sel(tier, 13, 16))
			inTime(t, func() { run() })
		},
	})
	return ss
}

// inTime runs f, up to three times if it is slow.
func inTime(t *engine.T, f func()) {
	best := time.Duration(math.MaxInt64)
	for try := 0; try < 3; try++ {
		t.Trace()
		t0 := time.Now()
		f()
		best = min(best, time.Since(t0))
		if best < slowest {
			t.Outcome("in time")
			return
		}
	}
	t.Fail("time", "it takes %v", best)
}

const slowest = 6 * time.Second
