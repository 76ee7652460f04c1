package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C19", Title: "round trip through formatting",
		Assumptions: []string{"paths git can store (relative, no empty components)", "patches as git or a unified diff tool writes them"},
		Scenarios:   c19,
	})
}

// verifyRoundTrip parses text and checks every file it holds.
func verifyRoundTrip(t *engine.T, text string) {
	files, _, err := gitdiff.Parse(strings.NewReader(text))
	if err != nil {
		t.Fail("refused", "valid patch rejected: %v\n%s", err, q(text))
	}
	for _, f := range files {
		verifyFileRoundTrip(t, f)
	}
	if len(files) == 0 {
		t.Fail("lost", "no files\n%s", q(text))
	}
}

func verifyFileRoundTrip(t *engine.T, f *gitdiff.File) {
	t.Trace()
	out := f.String()
	again, pre, err := gitdiff.Parse(strings.NewReader(out))
	if err != nil {
		t.Fail("reparse", "formatted file rejected: %v\n%s", err, q(out))
	}
	if len(again) != 1 {
		t.Fail("count", "formatted file parses to %d files\n%s", len(again), q(out))
	}
	if pre != "" {
		t.Fail("preamble", "formatted file has preamble %s\n%s", q(pre), q(out))
	}
	if d := diffFiles(again[0], f); d != "" {
		t.Fail("changed", "formatted and parsed again (got versus want): %s\n%s", d, q(out))
	}
	if o2 := again[0].String(); o2 != out {
		t.Fail("unstable", "formats as %s then as %s", q(out), q(o2))
	}
	// the parts are parts of the whole
	var tail strings.Builder
	for _, fr := range f.TextFragments {
		s := fr.String()
		if h := fr.Header(); !strings.HasPrefix(s, h+"\n") || strings.Contains(h, "\n") {
			t.Fail("header", "Header %s is not the first line of %s", q(h), q(s))
		}
		var body strings.Builder
		for _, l := range fr.Lines {
			ls := l.String()
			if !strings.HasPrefix(ls, l.Op.String()) {
				t.Fail("line", "operator %q of line %s", l.Op.String(), q(ls))
			}
			body.WriteString(ls)
			if l.NoEOL() {
				body.WriteString("\n")
			}
		}
		if got := withoutMarkers(s[len(fr.Header())+1:]); got != body.String() {
			t.Fail("lines", "lines %s, the fragment has %s", q(body.String()), q(got))
		}
		tail.WriteString(s)
	}
	if b := f.BinaryFragment; b != nil {
		tail.WriteString("GIT binary patch\n" + b.String())
	}
	if b := f.ReverseBinaryFragment; b != nil {
		tail.WriteString(b.String())
	}
	if !strings.HasSuffix(out, tail.String()) {
		t.Fail("parts", "fragment strings %s are not the end of %s", q(tail.String()), q(out))
	}
	// and parse as such
	if len(f.TextFragments) > 0 {
		fs, _, err := gitdiff.Parse(strings.NewReader("--- x\n+++ x\n" + tail.String()))
		if err != nil || len(fs) != 1 {
			t.Fail("part-parse", "fragment strings do not parse: %v, %d files\n%s", err, len(fs), q(tail.String()))
		}
		g := *f
		g.TextFragments = fs[0].TextFragments
		if d := diffFiles(&g, f); d != "" {
			t.Fail("part-changed", "fragment strings parse to something else: %s\n%s", d, q(tail.String()))
		}
	}
	t.Outcome("round trip")
}

// withoutMarkers removes the marks of missing newlines from the body of a hunk.
func withoutMarkers(s string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		if !strings.HasPrefix(l, "\\") {
			b.WriteString(l)
		}
	}
	return b.String()
}

func c19(tier string) []engine.Scenario {
	var ss []engine.Scenario
	full := genOptions{
		names:    [][2]string{{"f", "g"}, {"dir/sub/f.txt", "dir/sub/g.txt"}, {"a b", "c d"}, {"q\"x", "\\"}, {"\xc3\xbc", "n\tm"}, {"b/f", "a/f"}, {"f b/f", "f a/f"}},
		prefixes: [][2]string{{"a/", "b/"}},
		modes:    []uint32{0o100644, 0o100755, 0o120000, 0o160000},
		oids:     [][2]string{{"0123456", "789abcd"}, {"0000000000000000000000000000000000000000", "89abcdef0123456789abcdef0123456789abcdef"}, {"1", "abcd"}},
		scores:   []int{0, 1, 57, 99, 100}, bodies: allBodies, kinds: allKinds, oldNew: true, quoteHi: []bool{true, false},
	}
	ss = append(ss, engine.Scenario{
		Name:  "git changes",
		Bound: fmt.Sprintf("6 kinds of change x %d name pairs x %d modes (and changes between them) x %d object id pairs x %d scores x %d bodies", len(full.names), len(full.modes), len(full.oids), len(full.scores), len(allBodies)),
		Run: func(t *engine.T) {
			g := gitChangeOf(t, full)
			s := g.text()
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyRoundTrip(t, s)
		},
	})
	comments := []string{"", "c", "func f() {", "a @@ b", "@@ -1 +1 @@", "x\t\ty", "\x00\xff", "1,2 +3", "\\ No newline at end of file", "-", "+"}
	maxSeq := sel(tier, 6, 9)
	ss = append(ss, engine.Scenario{
		Name:  "hunks",
		Bound: fmt.Sprintf("all kind sequences of up to %d lines x final newline states x %d comments x positions x header style x second hunk", maxSeq, len(comments)),
		Run: func(t *engine.T) {
			ops := kindSequence(t, maxSeq)
			pos := engine.Pick(t, []int64{1, 0, 1 << 40})
			h := hunkOf(ops, pos, pos)
			if h.Changes() == 0 || pos == 0 && h.OldN > 0 && h.NewN > 0 {
				t.Skip()
			}
			if pos == 0 && h.OldN > 0 {
				h.OldPos = 1
			}
			if pos == 0 && h.NewN > 0 {
				h.NewPos = 1
			}
			m := t.Choose(4)
			for k := len(ops) - 1; k >= 0; k-- {
				if m&1 == 1 && ops[k].Old() {
					ops[k].Text = strings.TrimSuffix(ops[k].Text, "\n")
					m &^= 1
					if ops[k].New() {
						m &^= 2
					}
				}
				if m&2 == 2 && ops[k].New() {
					ops[k].Text = strings.TrimSuffix(ops[k].Text, "\n")
					m &^= 2
				}
			}
			h.Comment = engine.Pick(t, comments)
			s := engine.Pick(t, []string{gitHead, patchHeads[2]}) + ref.HunkText(h, t.Bool())
			if pos == 1 && t.Bool() {
				s += "@@ -50,2 +60 @@\n a\n-b\n"
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyRoundTrip(t, s)
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "bytes",
		Bound: "every pair of bytes in a comment, and as (or inside) a context, deleted or added line, with or without final newline",
		Run: func(t *engine.T) {
			x := string([]byte{byte(t.Choose(256)), byte(t.Choose(256))})
			if strings.Contains(x, "\n") {
				t.Skip()
			}
			ops := []ref.Op{{Kind: ' ', Text: "c\n"}, {Kind: '-', Text: "a\n"}, {Kind: '+', Text: "b\n"}}
			h := hunkOf(ops, 3, 3)
			switch k := t.Choose(5); k {
			case 3:
				h.Comment = x
			case 4:
				ops[1].Text, ops[2].Text = "a"+x, "b"+x
			default:
				ops[k].Text = x + "\n"
			}
			s := gitHead + ref.HunkText(h, false)
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyRoundTrip(t, s)
		},
	})
	names := []string{"f", "f~", "dir/f", "./f", "../f", "x y", "\"q\\\"x\"", "\"t\\tb\"", "\"\\377\"", "a/f", "b/f", "f b/f", "dev/null", "\"\\\\\""}
	stamps := []string{"", "\t1970-01-01 00:00:00.000000000 +0000", "\t2020-01-02 03:04:05.000000000 +0000"}
	ss = append(ss, engine.Scenario{
		Name:  "traditional patches",
		Bound: fmt.Sprintf("%d x %d names (or /dev/null) x %d x %d stamps x 3 bodies", len(names), len(names), len(stamps), len(stamps)),
		Run: func(t *engine.T) {
			a, b := engine.Pick(t, names), engine.Pick(t, names)
			sa, sb := t.Choose(len(stamps)+1), t.Choose(len(stamps)+1)
			body := 0
			line := func(n string, k int) string {
				if k == len(stamps) {
					return "/dev/null"
				}
				return n + stamps[k]
			}
			isNew := sa == 1 || sa == len(stamps)
			isDel := !isNew && (sb == 1 || sb == len(stamps))
			if isNew && sb == len(stamps) {
				t.Skip()
			}
			if isNew {
				body = 1
			} else if isDel {
				body = 2
			}
			s := "--- " + line(a, sa) + "\n+++ " + line(b, sb) + "\n" + []string{"@@ -1,2 +1 @@\n a\n-b\n", "@@ -0,0 +1 @@\n+b\n", "@@ -1 +0,0 @@\n-b\n"}[body]
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyRoundTrip(t, s)
		},
	})
	bmax := sel(tier, 320, 2000)
	ss = append(ss, engine.Scenario{
		Name:  "binary",
		Bound: fmt.Sprintf("encoded data of every length 0..%d, either method, extreme sizes, with and without reverse data, for modified, new and deleted files", bmax),
		Run: func(t *engine.T) {
			n := t.Choose(bmax + 1)
			data := make([]byte, n)
			for i := range data {
				data[i] = byte(i*i*7 + n)
			}
			size := engine.Pick(t, []int64{0, 7, 1<<63 - 1})
			m := engine.Pick(t, []string{"literal", "delta"})
			s := engine.Pick(t, []string{"diff --git a/f b/f\nindex 1..2 100644\n", "diff --git a/f b/f\nnew file mode 100644\nindex 0..2\n", "diff --git a/f b/f\ndeleted file mode 100644\nindex 1..0\n"}) +
				"GIT binary patch\n" + encodeBinary(m, size, data)
			switch t.Choose(3) {
			case 1:
				s += encodeBinary("literal", 5, data[:n/2])
			case 2:
				s += encodeBinary("delta", 6, data)
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyRoundTrip(t, s)
		},
	})
	depth := sel(tier, 3, 4)
	ss = append(ss, engine.Scenario{
		Name:  "files in context",
		Bound: fmt.Sprintf("all sequences of up to %d of %d file patches and %d texts; each parsed file is formatted and parsed", depth, len(fileParts), 8),
		Run: func(t *engine.T) {
			s := ""
			parts := append(append([]string{}, fileParts...), junkParts[:8]...)
			for i := 0; i < depth; i++ {
				c := t.Choose(len(parts) + 1)
				if c == 0 {
					break
				}
				if i > 0 && strings.HasPrefix(parts[c-1], "--- ") {
					s += "\n"
				}
				s += parts[c-1]
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			files, _, err := gitdiff.Parse(strings.NewReader(s))
			if err != nil {
				t.Fail("refused", "valid sequence rejected: %v\n%s", err, q(s))
			}
			var all strings.Builder
			for _, f := range files {
				verifyFileRoundTrip(t, f)
				all.WriteString(f.String())
			}
			// the formatted files together parse to the same list
			again, pre, err := gitdiff.Parse(strings.NewReader(all.String()))
			if err != nil || pre != "" || diffFileLists(again, files) != "" {
				t.Fail("list", "formatted list: error %v, preamble %s, %s\n%s", err, q(pre), diffFileLists(again, files), q(all.String()))
			}
		},
	})
	lens := append(boundaries(6, sel(tier, 16, 20)), 1, 51, 52, 53, 104)
	ss = append(ss, engine.Scenario{
		Name:  "sizes",
		Bound: fmt.Sprintf("%d lengths up to 2^%d of lines, comments, names and binary data; %d hunk and line counts", len(lens), sel(tier, 16, 20), len(lens)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, lens)
			x := strings.Repeat("x", n)
			var s string
			switch t.Choose(6) {
			case 0:
				s = gitHead + "@@ -1 +1 @@\n-" + x + "\n+" + x + "y\n\\ No newline at end of file\n"
			case 1:
				s = gitHead + "@@ -1 +1 @@ " + x + "\n-a\n+b\n"
			case 2:
				s = "diff --git a/" + x + " b/" + x + "\nold mode 100644\nnew mode 100755\n"
			case 3:
				s = binHeader + encodeBinary("literal", int64(n), []byte(x))
			case 4:
				var b strings.Builder
				b.WriteString(gitHead)
				for i := 0; i < min(n, 1<<13); i++ {
					fmt.Fprintf(&b, "@@ -%d +%d,2 @@ c%d\n-a\n+b\n+c\n", 10*i+1, 11*i+1, i)
				}
				s = b.String()
			case 5:
				m := min(n, 1<<15)
				s = gitHead + fmt.Sprintf("@@ -5,%d +5,%d @@\n", m, m+1) + strings.Repeat(" c\n", m) + "+d\n"
			}
			t.Desc(func() string { return q(s) })
			t.State(fmt.Sprint(n), s[:min(len(s), 200)])
			verifyRoundTrip(t, s)
		},
	})
	return ss
}
