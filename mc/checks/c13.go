package checks

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C13", Title: "parsing of text hunks",
		Assumptions: []string{"a no-newline marker before any body line and Go-only escape sequences are outside the claim", "reference: ref.ParsePatch, an independent line-array parser"},
		Scenarios:   c13,
	})
}

const gitHead = "diff --git a/f b/f\nindex 0123456..789abcd 100644\n--- a/f\n+++ b/f\n"

var patchHeads = []string{gitHead, "diff --git a/f b/f\n--- a/f\n+++ b/f\n", "--- f\t2020-01-02 03:04:05.000000000 +0000\n+++ f\t2020-01-02 03:04:06.000000000 +0000\n"}

// kindSequence chooses a sequence of line kinds of length 1..max.
func kindSequence(t *engine.T, max int) []ref.Op {
	n := 1 + t.Choose(max)
	ops := make([]ref.Op, n)
	for i := range ops {
		ops[i] = ref.Op{Kind: " -+"[t.Choose(3)], Text: fmt.Sprintf("l%d\n", i)}
	}
	return ops
}

func hunkOf(ops []ref.Op, oldPos, newPos int64) *ref.Hunk {
	h := &ref.Hunk{OldPos: oldPos, NewPos: newPos, Body: ops}
	h.Count()
	return h
}

// c13tokens explores all line sequences over a menu, after a header.
func c13tokens(name string, head string, headers, body []string, depth int) engine.Scenario {
	return engine.Scenario{
		Name:  name,
		Bound: fmt.Sprintf("%d hunk header lines x all sequences of up to %d of %d body, header and marker lines", len(headers), depth, len(body)),
		Run: func(t *engine.T) {
			var b strings.Builder
			b.WriteString(head)
			b.WriteString(engine.Pick(t, headers))
			for i := 0; i < depth; i++ {
				c := t.Choose(len(body) + 1)
				if c == 0 {
					break
				}
				b.WriteString(body[c-1])
			}
			s := b.String()
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	}
}

func c13(tier string) []engine.Scenario {
	headers := []string{
		"@@ -1 +1 @@\n", "@@ -1,2 +1,2 @@ c\n", "@@ -0,0 +1,2 @@\n", "@@ -1,2 +0,0 @@\n", "@@ -3,2 +3 @@\n", "@@ -3,1 +4,3 @@\n", "@@ -5,0 +6,1 @@ f() {\n", "@@ -0,0 +0,0 @@\n",
		"@@ -1,1 1,1 @@\n", "@@ -1,x +1 @@\n", "@@ -1 +1\n", "@@ --1 +1 @@\n",
	}
	body := []string{" a\n", "-a\n", "+a\n", "\n", "\\ No newline at end of file\n", "\\ No\n", "@@ -9 +9 @@\n", "+++ b/g\n", "x\n", "-- \n"}
	var ss []engine.Scenario
	ss = append(ss, c13tokens("line tokens", gitHead, headers, body, sel(tier, 5, 6)))
	ss = append(ss, c13tokens("line tokens, two hunks", gitHead+"@@ -1 +1 @@\n-q\n+r\n", headers[:6], body, sel(tier, 5, 6)))
	ss = append(ss, c13tokens("line tokens, traditional", patchHeads[2], headers[:8], append([]string{"--- x\n"}, body...), sel(tier, 4, 6)))

	maxSeq := sel(tier, 8, 11)
	ss = append(ss, engine.Scenario{
		Name:  "kinds",
		Bound: fmt.Sprintf("all sequences of up to %d line kinds x omitted counts x final newline states x header style", maxSeq),
		Run: func(t *engine.T) {
			ops := kindSequence(t, maxSeq)
			h := hunkOf(ops, 3, 4)
			// the last old and the last new line may lack their newline
			m := t.Choose(4)
			if m&1 == 1 {
				k := -1
				for i, o := range ops {
					if o.Old() {
						k = i
					}
				}
				if k < 0 {
					t.Skip()
				}
				ops[k].Text = "o"
			}
			if m&2 == 2 {
				k := -1
				for i, o := range ops {
					if o.New() {
						k = i
					}
				}
				if k < 0 {
					t.Skip()
				}
				ops[k].Text = "n"
			}
			head := engine.Pick(t, patchHeads)
			tail := engine.Pick(t, []string{"", "junk\n", "@@ -40 +40 @@\n-a\n+b\n", "diff --git a/g b/g\nold mode 100644\nnew mode 100755\n"})
			s := head + ref.HunkText(h, t.Bool()) + tail
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})

	cntSeq := sel(tier, 5, 7)
	ss = append(ss, engine.Scenario{
		Name:  "declared counts",
		Bound: fmt.Sprintf("all kind sequences up to %d x declared counts off by -2..+3 on either side x what follows", cntSeq),
		Run: func(t *engine.T) {
			ops := kindSequence(t, cntSeq)
			h := hunkOf(ops, 3, 4)
			h.OldN += int64(t.Choose(6) - 2)
			h.NewN += int64(t.Choose(6) - 2)
			if h.OldN < 0 || h.NewN < 0 {
				t.Skip()
			}
			tail := engine.Pick(t, []string{"", "\n", " x\n", "-x\n", "+x\n", "\\ No newline at end of file\n", "@@ -40 +40 @@\n-a\n+b\n", "diff --git a/g b/g\nold mode 100644\nnew mode 100755\n", "--- g\n+++ g\n@@ -1 +1 @@\n-a\n+b\n"})
			s := gitHead + ref.HunkText(h, false) + tail
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})

	// Header grammar: a template with slots, a bounded number of which deviate.
	nums := []string{"1", "0", "7", "10", "", "x", "+1", "-1", "9223372036854775807", "9223372036854775808", "18446744073709551617", "1_0", "0x1", "01", " 1", "1 ", "１", "1e1"}
	cnts := []string{"", ",1", ",0", ",2", ",01", ",", ",x", ",1,1", ",-1", ",+1", ", 1", " ,1", ",-0", ",9223372036854775807", ",9223372036854775808", ",18446744073709551617", ",1_0"}
	slots := [][]string{
		{"@@ -", "@@ ", "@@-", "@@  -", "@ -", " @@ -", "@@@ -"},
		nums, cnts,
		{" +", " ", "+", "  +", " + ", " -", "\t+", " + +"},
		nums, cnts,
		{" @@", "@@", " @", " @@@", "", " @ @", "\t@@"},
		{"", " c", " ", "  c  ", " a @@ b", " +1 @@", "c", "\tc\t", " \xff", " c\r", "@@ -1 +1 @@", " -5,6 +7,8 @@", "\u00a0c", " \x00"},
		{"\n", "\r\n", ""},
		{"-a\n+b\n", "-a\n", "+b\n", "-a\n-b\n+c\n", "-a\n+b\n+c\n", "", " a\n-b\n+c\n", "@@ -1 +1 @@\n-a\n+b\n"},
	}
	dev := sel(tier, 3, 4)
	ss = append(ss, engine.Scenario{
		Name:  "header grammar",
		Bound: fmt.Sprintf("header template of %d slots, all combinations of up to %d deviating slots, x 2 file headers", len(slots), dev),
		Run: func(t *engine.T) {
			v := make([]int, len(slots))
			at := 0
			for d := 0; d < dev; d++ {
				k := t.Choose(len(slots) - at + 1)
				if k == 0 {
					break
				}
				at += k
				v[at-1] = 1 + t.Choose(len(slots[at-1])-1)
				if at == len(slots) {
					break
				}
			}
			var b strings.Builder
			b.WriteString([]string{gitHead, patchHeads[2]}[t.Choose(2)])
			for i, s := range slots {
				b.WriteString(s[v[i]])
			}
			s := b.String()
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})

	ss = append(ss, engine.Scenario{
		Name:  "line bytes",
		Bound: "every pair of bytes as the start of a body line, at three positions of the hunk",
		Run: func(t *engine.T) {
			l := string([]byte{byte(t.Choose(256)), byte(t.Choose(256))}) + "z\n"
			var s string
			switch t.Choose(3) {
			case 0:
				s = gitHead + "@@ -1,2 +1,2 @@\n" + l + "-b\n+c\n"
			case 1:
				s = gitHead + "@@ -1,2 +1,2 @@\n-b\n+c\n" + l
			default:
				s = gitHead + "@@ -1 +1 @@\n-b\n+c\n" + l
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "line content",
		Bound: "every pair of bytes inside a context, deleted and added line, with and without final newline",
		Run: func(t *engine.T) {
			x := string([]byte{byte(t.Choose(256)), byte(t.Choose(256))})
			if strings.Contains(x, "\n") {
				t.Skip()
			}
			h := hunkOf([]ref.Op{{Kind: ' ', Text: x + "\n"}, {Kind: '-', Text: x + "\n"}, {Kind: '+', Text: "c" + x + "\n"}}, 1, 1)
			switch t.Choose(3) {
			case 1:
				h.Body[1].Text = x
			case 2:
				h.Body[2].Text = "c" + x
			}
			s := gitHead + ref.HunkText(h, false)
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "markers",
		Bound: "no-newline markers of every length 0..68 in several texts, with \\n, \\r\\n or end of input, after every line of two hunks",
		Run: func(t *engine.T) {
			n := t.Choose(69)
			text := engine.Pick(t, []string{"\\ No newline at end of file (and a long localized remark that goes on and on and on)", "\\ \u041d\u0435\u0442 \u043d\u043e\u0432\u043e\u0439 \u0441\u0442\u0440\u043e\u043a\u0438 \u0432 \u043a\u043e\u043d\u0446\u0435 \u0444\u0430\u0439\u043b\u0430 abcdefghijkl", "\\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ \\ ", "\\No newline at end of file aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"})[:n]
			nl := engine.Pick(t, []string{"\n", "\r\n", ""})
			lines := []string{" a\n", "-b\n", "-b2\n", "+c\n", "+c2\n", " d\n"}
			at := t.Choose(len(lines) + 2)
			var b strings.Builder
			b.WriteString(gitHead + "@@ -1,4 +1,4 @@\n")
			for i, l := range lines {
				if at == i {
					b.WriteString(text + nl)
				}
				b.WriteString(l)
			}
			if at == len(lines) {
				b.WriteString(text + nl)
			}
			if at == len(lines)+1 { // twice
				b.WriteString(text + "\n" + text + nl)
			}
			s := b.String()
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})

	lens := append(boundaries(5, sel(tier, 17, 21)), 0, 1, 4090, 4091, 4092, 4093, 4094, 4098, 4099, 8190, 8189)
	ss = append(ss, engine.Scenario{
		Name:  "long lines",
		Bound: fmt.Sprintf("line and comment lengths %d values up to 2^%d, in a header comment and each line kind, x preceding offset 0..2", len(lens), sel(tier, 17, 21)),
		Run: func(t *engine.T) {
			long := strings.Repeat("x", engine.Pick(t, lens))
			h := hunkOf([]ref.Op{{Kind: ' ', Text: "a\n"}, {Kind: '-', Text: "b\n"}, {Kind: '+', Text: "c\n"}, {Kind: ' ', Text: "d\n"}}, 1, 1)
			switch t.Choose(6) {
			case 0:
				h.Body[0].Text = long + "\n"
			case 1:
				h.Body[1].Text = long + "\n"
			case 2:
				h.Body[2].Text = long + "\n"
			case 3:
				h.Body = h.Body[:3]
				h.Count()
				h.Body[2].Text = long
			case 4:
				h.Comment = long
			case 5:
				for i := range h.Body {
					h.Body[i].Text = long + "\n"
				}
			}
			s := strings.Repeat("p", t.Choose(3)) + "\n" + gitHead + ref.HunkText(h, false) + "@@ -40 +40 @@\n-a\n+b\n"
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	counts := append(boundaries(2, sel(tier, 14, 18)), 1, 2, 10, 100, 1000)
	ss = append(ss, engine.Scenario{
		Name:  "many lines and hunks",
		Bound: fmt.Sprintf("%d sizes up to 2^%d of hunk bodies (each kind and mixes) and of hunk lists", len(counts), sel(tier, 14, 18)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, counts)
			var b strings.Builder
			b.WriteString(gitHead)
			switch c := t.Choose(5); c {
			case 4:
				for i := 0; i < n; i++ {
					ref.WriteHunk(&b, hunkOf([]ref.Op{{Kind: '-', Text: "a\n"}, {Kind: '+', Text: fmt.Sprintf("b%d\n", i)}}, int64(10*i+1), int64(10*i+1)), i%2 == 0)
				}
			default:
				ops := make([]ref.Op, 0, n+1)
				for i := 0; i < n; i++ {
					k := " -+"[i%3]
					if c < 3 {
						k = " -+"[c]
					}
					ops = append(ops, ref.Op{Kind: k, Text: fmt.Sprintf("l%d\n", i)})
				}
				ops = append(ops, ref.Op{Kind: '+', Text: "end\n"})
				ref.WriteHunk(&b, hunkOf(ops, 5, 5), false)
			}
			s := b.String()
			t.Desc(func() string { return q(s) })
			t.State(fmt.Sprint(n), s[:min(len(s), 4000)])
			verifyParse(t, s)
		},
	})
	return ss
}
