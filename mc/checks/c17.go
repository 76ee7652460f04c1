package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C17", Title: "splitting patches into files",
		Assumptions: []string{"text between patches does not itself continue a header or a hunk", "reference: ref.ParsePatch; the files of a sequence are also compared with parsing each part alone"},
		Scenarios:   c17,
	})
}

// fileParts are patches of one file each, of every kind.
var fileParts = []string{
	"diff --git a/m b/m\nindex 123..456 100644\n--- a/m\n+++ b/m\n@@ -1,3 +1,3 @@ fn\n a\n-b\n+c\n d\n@@ -20 +20 @@\n-x\n+y\n",
	"diff --git a/e b/e\nnew file mode 100644\nindex 0000000..e69de29\n",
	"--- t\t2020-01-01 00:00:00 +0000\n+++ t\t2020-01-01 00:00:01 +0000\n@@ -1 +1 @@\n-a\n+b\n",
	"diff --git a/p b/p\nold mode 100644\nnew mode 100755\n",
	"diff --git a/r b/s\nsimilarity index 100%\nrename from r\nrename to s\n",
	"diff --git a/bin b/bin\nindex 123..456 100644\nGIT binary patch\n" + encodeBinary("literal", 3, deflate([]byte("abc"))) + encodeBinary("literal", 0, deflate(nil)),
	"diff --git a/n b/n\nnew file mode 100644\nindex 0000000..123\n--- /dev/null\n+++ b/n\n@@ -0,0 +1 @@\n+n\n\\ No newline at end of file\n",
	"diff --git a/bd b/bd\nindex 123..456 100644\nBinary files a/bd and b/bd differ\n",
	"diff --git a/d b/d\ndeleted file mode 100644\nindex 123..000\n--- a/d\n+++ /dev/null\n@@ -1 +0,0 @@\n-n\n",
	"--- /dev/null\n+++ tn\t2020-01-01 00:00:01 +0000\n@@ -0,0 +1 @@\n+x\n",
	"diff --git a/c1 b/c2\nsimilarity index 90%\ncopy from c1\ncopy to c2\nindex 1..2 100644\n--- a/c1\n+++ b/c2\n@@ -1 +1 @@\n-a\n+b\n",
	"diff --git \"a/q\\\"\" \"b/q\\\"\"\nold mode 100644\nnew mode 100755\nindex 1..2\n--- \"a/q\\\"\"\n+++ \"b/q\\\"\"\n@@ -1 +1 @@\n-a\n+b\n",
}

var junkParts = []string{
	"junk\n", "\n", "-- \n2.43.0\n\n", "From 0123456789abcdef0123456789abcdef01234567 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nSubject: [PATCH] s\n\nbody\n---\n f | 2 +-\n 1 file changed\n\n",
	"diff -u a b\n", "Index: f\n=======\n", " context\n", "diff --cc f\n", "\x00\xff\n", "+added\n", "-deleted\n", "Only in a: b\n", "diff --gitx a/f b/f\n", "\r\n",
	// the rest may continue the file before it
	"--- a/x\n", "+++ b/x\n", "--- a\n+++ b\nnot a hunk\n", "@@ bad @@\n", "@@ -x +y @@\n", "\\ No newline at end of file\n", "--- a/x\n--- a/y\n",
}

var badParts = []string{
	"@@ -1 +1 @@\n-a\n+b\n",
	"diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n",
	"diff --git a/f b/g\n",
	"diff --git a/f b/f\nold mode 9\n",
	"diff --git a/f b/f\nindex 1..2\nGIT binary patch\nliteral x\n\n",
	"--- f\n+++ f\n@@ -1 +1 @@\n-a\n*b\n",
	"diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1 +1 @@\n-a\n+b\n@@ -9,x +9 @@\n-a\n+b\n",
	"diff --git \"a/f b/f\n",
	"--- f\n+++ \"f\n@@ -1 +1 @@\n-a\n+b\n",
	"diff --git a/f b/f\nindex 1..2\nGIT binary patch\nliteral 0\nHcmV?d00001\n",
	"diff --git a/f b/f\nindex 1..2\nGIT binary patch\n",
}

func c17(tier string) []engine.Scenario {
	alone := func(part string) []*gitdiff.File {
		fs, _, _ := gitdiff.Parse(strings.NewReader(part))
		return fs
	}
	all := append(append(append([]string{}, fileParts...), junkParts...), badParts...)
	depth := sel(tier, 4, 5)
	var ss []engine.Scenario
	ss = append(ss, engine.Scenario{
		Name:  "part sequences",
		Bound: fmt.Sprintf("all sequences of up to %d of %d file patches, %d junk texts and %d malformed parts", depth, len(fileParts), len(junkParts), len(badParts)),
		Run: func(t *engine.T) {
			s := ""
			for i := 0; i < depth; i++ {
				c := t.Choose(len(all) + 1)
				if c == 0 {
					break
				}
				s += all[c-1]
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	safeJunk := junkParts[:sel(tier, 8, 14)]
	flen := sel(tier, 3, 4)
	ss = append(ss, engine.Scenario{
		Name:  "composition",
		Bound: fmt.Sprintf("all sequences of up to %d file patches with one of %d texts before, between and after; the result must be the files of each part parsed alone", flen, len(safeJunk)+1),
		Run: func(t *engine.T) {
			var want []*gitdiff.File
			gap := func() string {
				c := t.Choose(len(safeJunk) + 1)
				if c == 0 {
					return ""
				}
				return safeJunk[c-1]
			}
			pre := gap()
			s := pre
			n := 1 + t.Choose(flen)
			for i := 0; i < n; i++ {
				p := engine.Pick(t, fileParts)
				if i > 0 && strings.HasPrefix(p, "--- ") {
					s += "diff -u x y\n" // would continue a header without content
				}
				s += p
				want = append(want, alone(p)...)
				if i < n-1 && n < 4 || i == 1 || i == n-1 && n < 3 {
					s += gap()
				}
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			t.Trace()
			got, preamble, err := gitdiff.Parse(strings.NewReader(s))
			if err != nil {
				t.Fail("refused", "valid sequence rejected: %v\n%s", err, q(s))
			}
			if len(want) != n {
				t.Fail("alone", "parts alone give %d files, want %d", len(want), n)
			}
			if d := diffFileLists(got, want); d != "" {
				t.Fail("composition", "sequence versus parts alone: %s\n%s", d, q(s))
			}
			if preamble != pre {
				t.Fail("preamble", "preamble %s, want %s\n%s", q(preamble), q(pre), q(s))
			}
			t.Outcome("accepted")
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "partial results",
		Bound: fmt.Sprintf("all sequences of up to 3 file patches followed by each of %d malformed parts and 3 kinds of trailing text", len(badParts)),
		Run: func(t *engine.T) {
			s := ""
			var want []*gitdiff.File
			for i := 0; i < 3; i++ {
				c := t.Choose(len(fileParts) + 1)
				if c == 0 {
					break
				}
				if strings.HasPrefix(fileParts[c-1], "--- ") {
					s += "diff -u x y\n"
				}
				s += fileParts[c-1]
				want = append(want, alone(fileParts[c-1])...)
			}
			k := t.Choose(len(badParts))
			if s != "" {
				s += "junk\n"
			}
			s += badParts[k] + engine.Pick(t, []string{"", "junk\n", fileParts[0]})
			t.Desc(func() string { return q(s) })
			t.State(s)
			t.Trace()
			got, _, err := gitdiff.Parse(strings.NewReader(s))
			if err == nil {
				t.Fail("accepted", "malformed sequence accepted\n%s", q(s))
			}
			if d := diffFileLists(got, want); d != "" {
				t.Fail("partial", "files returned with the error: %s\n%s", d, q(s))
			}
			t.Outcome("rejected")
		},
	})
	alpha := []string{"a", "\n", "-", "+", "@", " ", "d", "\r", "\x00"}
	plen := sel(tier, 5, 7)
	ss = append(ss, engine.Scenario{
		Name:  "preamble characters",
		Bound: fmt.Sprintf("all preambles of up to %d of %d characters, before a git patch, a traditional patch, no patch, or a stray hunk", plen, len(alpha)),
		Run: func(t *engine.T) {
			s := ""
			for i := 0; i < plen; i++ {
				c := t.Choose(len(alpha) + 1)
				if c == 0 {
					break
				}
				s += alpha[c-1]
			}
			s += engine.Pick(t, []string{"", "\n" + fileParts[3], "\n" + fileParts[2], "\n" + badParts[0], fileParts[3]})
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	sizes := append(boundaries(0, sel(tier, 17, 22)), 4090, 8190)
	ss = append(ss, engine.Scenario{
		Name:  "long preambles",
		Bound: fmt.Sprintf("preambles of %d sizes as one line, many lines or without final newline", len(sizes)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, sizes)
			s := strings.Repeat(engine.Pick(t, []string{"x", "\n", "ab\n", "- \n"}), n)
			s += engine.Pick(t, []string{"\n" + fileParts[0], "\n", "", "\n" + fileParts[2]})
			t.Desc(func() string { return q(s) })
			t.State(fmt.Sprint(n), s[:min(len(s), 100)], s[max(0, len(s)-300):])
			verifyParse(t, s)
		},
	})
	headerLines := []string{"--- a/f\n", " --- a/f\n", "---a/f\n", "---\n", "-- a/f\n", "+++ b/f\n", " +++ b/f\n", "+++b/f\n", "+++\n", "x\n", "@@ -1 +1 @@\n-a\n+b\n", " @@ -1 +1 @@\n-a\n+b\n", "@@ -3 +3 @@ fn\n-c\n+d\n", "\n", "diff --git a/f b/f\n", " diff --git a/f b/f\n"}
	hlen := sel(tier, 4, 5)
	ss = append(ss, engine.Scenario{
		Name:  "almost headers",
		Bound: fmt.Sprintf("all sequences of up to %d of %d lines and hunks that are or look like parts of a file header", hlen, len(headerLines)),
		Run: func(t *engine.T) {
			s := ""
			for i := 0; i < hlen; i++ {
				c := t.Choose(len(headerLines) + 1)
				if c == 0 {
					break
				}
				s += headerLines[c-1]
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	counts := append(boundaries(1, sel(tier, 11, 15)), 1, 10, 100, 1000)
	ss = append(ss, engine.Scenario{
		Name:  "many files",
		Bound: fmt.Sprintf("%d list lengths up to 2^%d of each kind of file and of mixes, optionally malformed at the end", len(counts), sel(tier, 11, 15)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, counts)
			k := t.Choose(len(fileParts) + 1)
			var b strings.Builder
			for i := 0; i < n; i++ {
				if k < len(fileParts) {
					b.WriteString(fileParts[k])
				} else {
					b.WriteString(fileParts[i*7%len(fileParts)])
				}
			}
			if t.Bool() {
				b.WriteString(badParts[1])
			}
			s := b.String()
			t.Desc(func() string { return q(s) })
			t.State(fmt.Sprint(n, k), s[max(0, len(s)-200):])
			verifyParse(t, s)
		},
	})
	return ss
}
