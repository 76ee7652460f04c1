package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C14", Title: "parsing of git extended headers",
		Assumptions: []string{"repeated header lines, contradicting kinds of change, scores above 100 and /dev/null without a new/deleted line are outside the claim", "reference: the generator's own model file, and ref.ParsePatch for arbitrary line sequences"},
		Scenarios:   c14,
	})
}

// verifyExact parses text, which must be exactly the given files.
func verifyExact(t *engine.T, text, preamble string, want ...*ref.File) {
	t.Trace()
	files, pre, err := gitdiff.Parse(strings.NewReader(text))
	if err != nil {
		t.Fail("refused", "valid patch rejected: %v\n%s", err, q(text))
	}
	wf := make([]*gitdiff.File, len(want))
	for i, m := range want {
		wf[i] = libFile(m)
	}
	if d := diffFileLists(files, wf); d != "" {
		t.Fail("content", "parsed content (got versus want): %s\n%s", d, q(text))
	}
	if pre != preamble {
		t.Fail("preamble", "preamble %s, want %s\n%s", q(pre), q(preamble), q(text))
	}
	t.Outcome("accepted")
}

var abPrefix = [][2]string{{"a/", "b/"}}

func c14(tier string) []engine.Scenario {
	oids := [][2]string{{"0123456", "789abcd"}, {"0000000000000000000000000000000000000000", "89abcdef0123456789abcdef0123456789abcdef"}, {"e69de29bb2d1d6434b8b29ae775ad8c2e48c5391e69de29bb2d1d6434b8b29ae", "0000000000000000000000000000000000000000000000000000000000000000"}, {"1", "abcd"}}
	tails := []string{"", "\n", "-- \n2.43.0\n", "diff --git a/z b/z\nold mode 100644\nnew mode 100755\n"}
	zfile := &ref.File{OldName: "z", NewName: "z", OldMode: 0o100644, NewMode: 0o100755}
	run := func(o genOptions, permute bool) func(t *engine.T) {
		return func(t *engine.T) {
			g := gitChangeOf(t, o)
			if permute {
				if len(g.ext) > sel(tier, 5, 6) {
					t.Skip()
				}
				g.permute(t)
			}
			s := g.text()
			want := []*ref.File{g.want}
			if !permute {
				k := t.Choose(len(tails))
				s += tails[k]
				if k == 3 {
					want = append(want, zfile)
				}
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyExact(t, s, "", want...)
		}
	}
	full := genOptions{
		names:    [][2]string{{"f", "g"}, {"dir/sub/f.txt", "dir/sub/g.txt"}, {"a b", "c d"}, {"q\"x", "\\"}, {"\xc3\xbc", "n\tm"}, {"b/f", "a/f"}, {"f b/f", "f a/f"}},
		prefixes: [][2]string{{"a/", "b/"}, {"i/", "w/"}, {"old/", "n/"}},
		modes:    []uint32{0o100644, 0o100755, 0o120000, 0o160000, 0o100600},
		oids:     oids, scores: []int{0, 1, 50, 99, 100}, bodies: allBodies, kinds: allKinds, oldNew: true, quoteHi: []bool{true, false},
	}
	if tier != "thorough" {
		full.oids = oids[:3]
		full.scores = []int{1, 57, 100}
		full.modes = full.modes[:4]
		full.quoteHi = []bool{true}
	}
	perm := genOptions{
		names: [][2]string{{"f", "g"}, {"x y", "q\"x"}}, prefixes: abPrefix, modes: []uint32{0o100644, 0o100755}, oids: oids[:2],
		scores: []int{57}, bodies: allBodies, kinds: allKinds, oldNew: true, quoteHi: []bool{true},
	}
	var ss []engine.Scenario
	ss = append(ss, engine.Scenario{
		Name:  "git headers",
		Bound: fmt.Sprintf("6 kinds of change x %d name pairs x %d prefixes x %d modes (and changes between them) x %d object id pairs (or none, with or without mode) x %d scores x 2 rename spellings x 8 bodies x 4 continuations", len(full.names), len(full.prefixes), len(full.modes), len(full.oids), len(full.scores)),
		Run:   run(full, false),
	})
	ss = append(ss, engine.Scenario{
		Name:  "header orders",
		Bound: fmt.Sprintf("all permutations of the extended header lines (up to %d) of every kind of change", sel(tier, 5, 6)),
		Run:   run(perm, true),
	})
	ss = append(ss, engine.Scenario{
		Name:  "numbers",
		Bound: "every score 0..100, every octal mode value of 6 digits from a file type and any permission bits, every object id length 1..64",
		Run: func(t *engine.T) {
			w := &ref.File{OldName: "f", NewName: "f"}
			var s string
			switch t.Choose(6) {
			case 0:
				w.Score = t.Choose(101)
				w.IsRename, w.NewName = true, "g"
				s = fmt.Sprintf("diff --git a/f b/g\nsimilarity index %d%%\nrename from f\nrename to g\n", w.Score)
			case 1:
				w.Score = t.Choose(101)
				w.OldOID, w.NewOID = "1", "2"
				s = fmt.Sprintf("diff --git a/f b/f\ndissimilarity index %d%%\nindex 1..2\n", w.Score)
			case 2:
				w.OldMode = uint32(t.Choose(16)<<12 | t.Choose(4096))
				w.NewMode = 0o100755
				s = fmt.Sprintf("diff --git a/f b/f\nold mode %06o\nnew mode 100755\n", w.OldMode)
			case 3:
				w.NewMode = uint32(t.Choose(16)<<12 | t.Choose(4096))
				w.IsNew, w.OldName = true, ""
				s = fmt.Sprintf("diff --git a/f b/f\nnew file mode %06o\nindex 1..2\n", w.NewMode)
				w.OldOID, w.NewOID = "1", "2"
			case 4:
				w.OldMode = uint32(t.Choose(16)<<12 | t.Choose(4096))
				w.OldOID, w.NewOID = "1", "2"
				s = fmt.Sprintf("diff --git a/f b/f\nindex 1..2 %06o\n", w.OldMode)
			case 5:
				hex := strings.Repeat("0123456789abcdef", 4)
				w.OldOID, w.NewOID = hex[:1+t.Choose(64)], hex[64-1-t.Choose(64):]
				s = fmt.Sprintf("diff --git a/f b/f\nindex %s..%s\n", w.OldOID, w.NewOID)
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyExact(t, s, "", w)
		},
	})
	// Malformed values, in every place they can appear.
	type bad struct{ old, new string }
	badNum := []string{"", "x", "8", "100648", "100644x", "-1", "+1", "-100644", "+100644", "0x1", "1 2", "0o17", "1_0", "99999999999999999999", "77777777777777777777777", "1.5", "\xd9\xa1"}
	badScore := []string{"", "%", "x%", "1x%", "-1%", "+1%", "5 %", "0x5%", "1_0%", "5.5%", "99999999999%", "99999999999999999999999%", "5%%", "--5%", "-100%"}
	ss = append(ss, engine.Scenario{
		Name:  "malformed values",
		Bound: fmt.Sprintf("%d bad modes in 5 places, %d bad scores in 2, bad index lines, bad names in 8 places, each with text, binary or no content", len(badNum), len(badScore)),
		Run: func(t *engine.T) {
			var s string
			base := map[int]string{}
			_ = base
			hdr := "diff --git a/f b/f\n"
			switch t.Choose(6) {
			case 0:
				n := engine.Pick(t, badNum)
				s = hdr + []string{"old mode " + n + "\nnew mode 100755\n", "old mode 100644\nnew mode " + n + "\n", "new file mode " + n + "\n", "deleted file mode " + n + "\n", "index 123..456 " + n + "\n"}[t.Choose(5)]
			case 1:
				n := engine.Pick(t, badScore)
				s = "diff --git a/f b/g\n" + []string{"similarity index " + n + "\nrename from f\nrename to g\n", "similarity index " + n + "\ncopy from f\ncopy to g\n"}[t.Choose(2)]
			case 2:
				n := engine.Pick(t, badScore)
				s = hdr + "dissimilarity index " + n + "\n"
			case 3:
				s = hdr + engine.Pick(t, []string{"index \n", "index 123\n", "index 123.456\n", "index 123 456\n", "index 123 456..789\n", "index 123 100644\n", "index 12..34 \n", "index 12..34 100644 \x00\n", "index 12..34 100644 7\n", "index . .\n"})
			case 4:
				n := engine.Pick(t, []string{"", "\"\"", "\"", "\"a/f", "\"a/f\\\"", "\"a/\\q\"", "\"a/\\\xff\"", "\"a/\\\xc3\xbc\"", "\"a/\\4\"", "\"a/\\400\"", "\"a/\\8\"", "\"a/\\1\"", "\"a/\\12\""})
				s = []string{
					"diff --git a/f b/g\nsimilarity index 90%\nrename from " + n + "\nrename to g\n",
					"diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to " + n + "\n",
					"diff --git a/f b/g\nsimilarity index 90%\ncopy from " + n + "\ncopy to g\n",
					"diff --git a/f b/g\nsimilarity index 90%\ncopy from f\ncopy to " + n + "\n",
					"diff --git a/f b/g\nrename old " + n + "\nrename new g\n",
					"diff --git a/f b/g\nrename old f\nrename new " + n + "\n",
					hdr + "--- " + n + "\n+++ b/f\n", hdr + "--- a/f\n+++ " + n + "\n",
				}[t.Choose(8)]
			case 5:
				// contradictions and missing names
				s = engine.Pick(t, []string{
					"diff --git a/f b/g\n", "diff --git a/f b/g\nold mode 100644\nnew mode 100755\n", "diff --git a/f b/g\nnew file mode 100644\n", "diff --git a/f b/g\ndeleted file mode 100644\n",
					"diff --git a/f b/g\nindex 123..456 100644\n", "diff --git a/f b/g\nrename from f\n", "diff --git a/f b/g\nrename to g\n", "diff --git a/f b/g\ncopy from f\n", "diff --git a/f b/g\ncopy to g\n",
					"diff --git a/f b/g\n--- a/f\n", "diff --git a/f b/g\n+++ b/g\n",
					"diff --git a/f b/f\nnew file mode 100644\n--- a/f\n+++ b/f\n", "diff --git a/f b/f\nnew file mode 100644\n--- /dev/null\n+++ b/g\n", "diff --git a/f b/f\nnew file mode 100644\n--- /dev/null\n+++ /dev/null\n",
					"diff --git a/f b/f\ndeleted file mode 100644\n--- a/f\n+++ b/f\n", "diff --git a/f b/f\ndeleted file mode 100644\n--- a/g\n+++ /dev/null\n", "diff --git a/f b/f\ndeleted file mode 100644\n--- /dev/null\n+++ /dev/null\n",
					"diff --git a/f b/g\nrename from f\nrename to g\n--- a/x\n+++ b/g\n", "diff --git a/f b/g\nrename from f\nrename to g\n--- a/f\n+++ b/x\n", "diff --git a/f b/g\ncopy from f\ncopy to g\n--- a/x\n+++ b/g\n", "diff --git a/f b/g\ncopy from f\ncopy to g\n--- a/f\n+++ b/f\n",
					"diff --git a/f b/g\nrename from f\nrename to g\n--- a/g\n+++ b/f\n", "diff --git a/f b/g\nrename old f\nrename new g\n--- a/f/\n+++ b/g\n", "diff --git a/f b/g\ncopy from f\ncopy to g\n--- /dev/null\n+++ b/g\n",
				})
			}
			s += engine.Pick(t, []string{"", "@@ -1 +1 @@\n-a\n+b\n", "Binary files a/f and b/f differ\n", "index 12..34\n"})
			before := t.Bool()
			full := s
			if before {
				full = tails[3] + s
			}
			t.Desc(func() string { return q(full) })
			t.State(full)
			t.Trace()
			if p := ref.ParsePatch(full); p.Unspecified == "" && !p.Err {
				panic("engine: reference accepts " + full)
			} else if p.Unspecified != "" {
				t.Outcome("unspecified: " + p.Unspecified)
				return
			}
			files, _, err := gitdiff.Parse(strings.NewReader(full))
			if err == nil {
				t.Fail("accepted", "malformed header accepted as %d files\n%s", len(files), q(full))
			}
			if before && (len(files) != 1 || diffFiles(files[0], libFile(zfile)) != "") || !before && len(files) != 0 {
				t.Fail("partial", "files before the malformed header: %d\n%s", len(files), q(full))
			}
			t.Outcome("rejected")
		},
	})
	tokens := []string{
		"old mode 100644\n", "new mode 100755\n", "new file mode 100644\n", "deleted file mode 100644\n", "similarity index 90%\n", "dissimilarity index 5%\n",
		"rename from f\n", "rename to g\n", "rename old f\n", "copy from f\n", "copy to g\n", "index 123..456\n", "index 123..456 100755\n",
		"--- a/f\n", "+++ b/f\n", "+++ b/g\n", "--- /dev/null\n", "+++ /dev/null\n", "@@ -1 +1 @@\n-a\n+b\n", "@@ -0,0 +1 @@\n+b\n", "@@ -1 +0,0 @@\n-b\n", "Binary files a/f and b/f differ\n", "GIT binary patch\nliteral 0\nHcmV?d00001\n\n", "x\n",
		"new  mode 100644\n", "rename  from f\n", "index\n", "similarity index 200%\n", "old mode\n",
	}
	ss = append(ss, engine.Scenario{
		Name:  "header line sequences",
		Bound: fmt.Sprintf("2 first lines x all sequences of up to %d of %d header and content lines", sel(tier, 4, 5), len(tokens)),
		Run: func(t *engine.T) {
			s := engine.Pick(t, []string{"diff --git a/f b/f\n", "diff --git a/f b/g\n"})
			for i := 0; i < sel(tier, 4, 5); i++ {
				c := t.Choose(len(tokens) + 1)
				if c == 0 {
					break
				}
				s += tokens[c-1]
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	return ss
}
