package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C26", Title: "no panic and no hang",
		Assumptions: []string{
			"a call that takes longer than the watchdog (150 s) hangs; readers and writers themselves make progress",
			"subject clean modes are one of the defined modes",
		},
		Scenarios: c26,
	})
}

// useEverything drives all of the library with one input. The engine turns a
// panic into a violation.
func useEverything(t *engine.T, in string, srcs []string) {
	t.Trace()
	files, pre, err := gitdiff.Parse(strings.NewReader(in))
	out := "rejected"
	if err == nil {
		out = "accepted"
	}
	if err != nil && err.Error() == "" {
		t.Fail("error", "error without text\n%s", q(in))
	}
	gitdiff.ParsePatchHeader(pre)
	for _, f := range files {
		if f == nil {
			t.Fail("nil", "nil file\n%s", q(in))
		}
		useFile(t, f, srcs)
		again, _, _ := gitdiff.Parse(strings.NewReader(f.String()))
		for _, g := range again {
			_ = g.String()
		}
	}
	t.Outcome(out)
}

func useFile(t *engine.T, f *gitdiff.File, srcs []string) {
	_ = f.String()
	for _, fr := range f.TextFragments {
		useFragment(fr)
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b == nil {
			continue
		}
		_ = b.String()
		r := b.Data()
		n, err := io.Copy(io.Discard, r)
		if err == nil && n != b.Size {
			t.Fail("size", "%d bytes of data without an error, size %d", n, b.Size)
		}
		r.Read(make([]byte, 1))
		r.Read(nil)
	}
	for _, src := range srcs {
		err := gitdiff.Apply(io.Discard, strings.NewReader(src), f)
		if err != nil {
			_ = err.Error()
		}
		ta := gitdiff.NewTextApplier(io.Discard, strings.NewReader(src))
		for _, fr := range f.TextFragments {
			ta.ApplyFragment(fr)
		}
		ta.Close()
		ba := gitdiff.NewBinaryApplier(io.Discard, strings.NewReader(src), gitdiff.WithMaxBinaryFragmentBytes(1<<16))
		ba.ApplyFragment(f.BinaryFragment)
		ba.Close()
	}
}

func useFragment(fr *gitdiff.TextFragment) {
	_ = fr.Validate()
	_ = fr.String()
	_ = fr.Header()
	for _, l := range fr.Lines {
		_, _, _, _, _ = l.String(), l.Old(), l.New(), l.NoEOL(), l.Op.String()
	}
}

var plainSources = []string{"", "a\n", "a\nb\nc\nd", "\x00bin\xff\n\n"}

// corpus are valid inputs of every kind, to be damaged.
func corpus() []string {
	out := append([]string{}, fileParts...)
	out = append(out,
		binHeader+encodeBinary("delta", int64(len(deltaOf(4, 4, 0x90, 4))), deflate(deltaOf(4, 4, 0x90, 4))),
		junkParts[3]+fileParts[0],
		"diff --git a/w b/w\ndissimilarity index 99%\nindex 123..456 100644\n--- a/w\n+++ b/w\n@@ -1 +1 @@\n-a\n\\ No newline at end of file\n+b\n",
	)
	return out
}

var headerCorpus = []string{
	"commit 61f5cd90bed4d204ee3feb3aa41ee91d4734855b (HEAD -> m)\nMerge: a b\nAuthor: A U <a@b>\nAuthorDate: Sat Apr 11 15:21:23 2020 -0700\nCommit: C <c@d>\nCommitDate: 2020-04-11\n\n    title\n    more\n\n     body\n\tx\n",
	"From 61f5cd90bed4d204ee3feb3aa41ee91d4734855b Mon Sep 17 00:00:00 2001\nFrom: =?UTF-8?q?J=C3=B6?= \"x\\\"y\" <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: [PATCH 1/2] Re: [x] =?UTF-8?q?a=C3=B6?=\n =?UTF-8?q?b?=\nMIME-Version: 1.0\n\nbody\n---\n f | 1 +\n",
	"From: a@b (c)\nSubject: [x\n\n",
}

func c26(tier string) []engine.Scenario {
	var ss []engine.Scenario
	lines := []string{
		"diff --git a/f b/f\n", "diff --git \"a/f\" b/f\n", "diff --git \n", "diff --git a b c\"\n", "--- a/f\n", "+++ b/f\n", "--- \n", "--- /dev/null\n", "+++ \"\n", "old mode 100644\n", "new mode \n", "new file mode 100644\n", "deleted file mode 1\n",
		"rename from f\n", "rename to \"\n", "copy to g\n", "similarity index 5%\n", "similarity index \n", "index 1..2 100644\n", "index ..\n", "index  \n", "@@ -1 +1 @@\n", "@@ -1,2 +1,0 @@ c\n", "@@ - + @@\n", "@@ -0,0 +1 @@\n", "@@ -9223372036854775807,9223372036854775807 +1 @@\n", "@@ -\n",
		" a\n", "-a\n", "+a\n", "\n", "\\ No newline at end of file\n", "\\\n", "GIT binary patch\n", "Binary files a and b differ\n", "literal 1\n", "delta 1\n", "literal 9223372036854775807\n", "Ac-jFr\n", "zABC\n", "\x00\n", "x", "-- \n",
	}
	depth := sel(tier, 3, 4)
	ss = append(ss, engine.Scenario{
		Name:  "patch lines",
		Bound: fmt.Sprintf("all sequences of up to %d of %d lines; everything parsed is formatted, validated, read and applied to %d sources", depth, len(lines), len(plainSources)),
		Run: func(t *engine.T) {
			s := ""
			for i := 0; i < depth; i++ {
				c := t.Choose(len(lines) + 1)
				if c == 0 {
					break
				}
				s += lines[c-1]
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			useEverything(t, s, plainSources)
		},
	})
	bodyLines := []string{" a\n", "-a\n", "+a\n", "\n", "\\ No newline at end of file\n", "\\\n", "-", "@@ -1 +1 @@\n", "@@ -3,2 +1,9 @@\n", "diff --git a/f b/f\n", "x\n"}
	bdepth := sel(tier, 5, 6)
	ss = append(ss, engine.Scenario{
		Name:  "hunk lines",
		Bound: fmt.Sprintf("a header, 4 hunk headers and all sequences of up to %d of %d lines", bdepth, len(bodyLines)),
		Run: func(t *engine.T) {
			s := engine.Pick(t, []string{gitHead, "diff --git a/f b/f\nnew file mode 100644\n", patchHeads[2]})
			s += engine.Pick(t, []string{"@@ -1,2 +1,2 @@\n", "@@ -0,0 +1,2 @@\n", "@@ -2,1 +0,0 @@\n", "@@ -1,0 +5,0 @@\n"})
			for i := 0; i < bdepth; i++ {
				c := t.Choose(len(bodyLines) + 1)
				if c == 0 {
					break
				}
				s += bodyLines[c-1]
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			useEverything(t, s, plainSources)
		},
	})
	nums := []string{"0", "1", "2", "5", "9223372036854775807", "9223372036854775806", "4611686018427387904", "2147483648", "9223372036854775808", "", "-1", "00", "1e9"}
	ss = append(ss, engine.Scenario{
		Name:  "hunk numbers",
		Bound: fmt.Sprintf("all %d^4 combinations of extreme hunk header numbers, 4 bodies", len(nums)),
		Run: func(t *engine.T) {
			s := patchHeads[t.Choose(2)] + fmt.Sprintf("@@ -%s,%s +%s,%s @@\n", engine.Pick(t, nums), engine.Pick(t, nums), engine.Pick(t, nums), engine.Pick(t, nums))
			s += engine.Pick(t, []string{"", "-a\n+b\n", "+b\n", " a\n-b\n"})
			t.Desc(func() string { return q(s) })
			t.State(s)
			useEverything(t, s, plainSources[:3])
		},
	})
	cs := corpus()
	subst := []byte{0, '\t', '\n', '\r', ' ', '"', '+', ',', '-', '.', '/', '0', '1', '9', ':', '@', 'A', '\\', 'z', '~', 0x7f, 0x80, 0xff}
	if tier == "thorough" {
		subst = nil
		for i := 0; i < 256; i++ {
			subst = append(subst, byte(i))
		}
	}
	ss = append(ss, engine.Scenario{
		Name:  "damaged patches",
		Bound: fmt.Sprintf("each of %d valid patches, cut at every byte, with every byte removed, doubled or replaced by each of %d bytes, and with every line removed or doubled", len(cs), len(subst)),
		Run: func(t *engine.T) {
			s := damage(t, engine.Pick(t, cs), subst)
			t.Desc(func() string { return q(s) })
			t.State(s)
			useEverything(t, s, plainSources)
		},
	})
	if tier == "thorough" {
		ss = append(ss, engine.Scenario{
			Name:  "twice damaged patches",
			Bound: fmt.Sprintf("each of %d valid patches with every pair of lines removed, doubled, or cut in the middle", len(cs)),
			Run: func(t *engine.T) {
				ls := ref.Lines(engine.Pick(t, cs))
				for k := 0; k < 2; k++ {
					i := t.Choose(len(ls))
					switch t.Choose(4) {
					case 0:
						ls = append(ls[:i:i], ls[i+1:]...)
					case 1:
						ls = append(ls[:i+1:i+1], ls[i:]...)
					case 2:
						ls = append([]string{}, ls...)
						ls[i] = ls[i][:len(ls[i])/2]
					case 3:
						ls = append([]string{}, ls...)
						j := t.Choose(len(ls))
						ls[i], ls[j] = ls[j], ls[i]
					}
					if len(ls) == 0 {
						break
					}
				}
				s := strings.Join(ls, "")
				t.Desc(func() string { return q(s) })
				t.State(s)
				useEverything(t, s, plainSources)
			},
		})
	}
	short := []byte{0, '\t', '\n', ' ', '"', '+', '-', '/', '0', '@', 'a', '\\', 0xff}
	slen := sel(tier, 4, 5)
	heads := []string{"", "diff --git ", "diff --git a/f b/f\n", "--- ", "--- a\n+++ b\n", "--- a\n+++ b\n@@ -", "--- a\n+++ b\n@@ -1 +1 @@\n", binHeader, binHeader + "literal 1\n", "diff --git a/f b/f\nrename from ", "diff --git a/f b/f\nindex ", "diff --git a/f b/f\n--- ", "\\ "}
	ss = append(ss, engine.Scenario{
		Name:  "short strings",
		Bound: fmt.Sprintf("%d beginnings followed by all strings of up to %d of %d bytes", len(heads), slen, len(short)),
		Run: func(t *engine.T) {
			s := engine.Pick(t, heads)
			n := slen
			if s == binHeader {
				n-- // fewer lines are possible there
			}
			for i := 0; i < n; i++ {
				c := t.Choose(len(short) + 1)
				if c == 0 {
					break
				}
				s += string(short[c-1 : c])
			}
			t.Desc(func() string { return q(s) })
			useEverything(t, s, plainSources[2:3])
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "binary lines",
		Bound: "data lines with every length byte and 0..15 characters from 4 classes, followed by nothing, a newline or a blank line",
		Run: func(t *engine.T) {
			lb := string([]byte{byte(t.Choose(256))})
			n := t.Choose(16)
			s := binHeader + engine.Pick(t, []string{"literal 3\n", "delta 0\n"}) + lb + strings.Repeat(engine.Pick(t, []string{"0", "~", "\"", "\xff"}), n) + engine.Pick(t, []string{"", "\n", "\n\n"})
			t.Desc(func() string { return q(s) })
			t.State(s)
			useEverything(t, s, plainSources[:1])
		},
	})
	instr := []byte{0, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0x90, 0xff}
	dlen := sel(tier, 4, 6)
	ss = append(ss, engine.Scenario{
		Name:  "delta bytes",
		Bound: fmt.Sprintf("all delta strings of up to %d of %d bytes, sources of 0, 1 and 3 bytes, and zlib streams cut short", dlen, len(instr)),
		Run: func(t *engine.T) {
			var d []byte
			for i := 0; i < dlen; i++ {
				c := t.Choose(len(instr) + 1)
				if c == 0 {
					break
				}
				d = append(d, instr[c-1])
			}
			z := deflate(d)
			if k := t.Choose(3); k > 0 {
				z = z[:len(z)-3*k]
			}
			f := binFile(&gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: z})
			t.Desc(func() string { return fmt.Sprintf("delta %x", d) })
			t.State(string(d))
			t.Trace()
			useFile(t, f, []string{"", "a", "abc"})
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "fragments made by hand",
		Bound: "text fragments with extreme positions and counts and every line list of up to 2 from 6, nil fragments, binary fragments of 4 methods, 5 sizes and 5 data strings",
		Run: func(t *engine.T) {
			ex := []int64{0, 1, 2, math.MaxInt64, math.MinInt64, -1}
			if t.Bool() {
				b := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchMethod(t.Choose(4) - 1), Size: engine.Pick(t, append(ex, 5))}
				b.RawData = engine.Pick(t, [][]byte{nil, {}, {0x78}, deflate(nil), deflate([]byte("abc")), {0x78, 0x9c, 0xff}, {0, 0, 0}})
				t.Trace()
				useFile(t, &gitdiff.File{IsBinary: t.Bool(), BinaryFragment: b}, plainSources)
				return
			}
			ls := []gitdiff.Line{{Op: gitdiff.OpContext, Line: "a\n"}, {Op: gitdiff.OpDelete, Line: "a\n"}, {Op: gitdiff.OpAdd, Line: "b\n"}, {Op: gitdiff.OpAdd}, {Op: 7, Line: "x"}, {Op: gitdiff.OpDelete}}
			fr := &gitdiff.TextFragment{OldPosition: engine.Pick(t, ex), NewPosition: engine.Pick(t, ex[:4])}
			for i := 0; i < 2; i++ {
				if c := t.Choose(len(ls) + 1); c > 0 {
					fr.Lines = append(fr.Lines, ls[c-1])
				}
			}
			h := &ref.Hunk{}
			for _, l := range fr.Lines {
				h.Body = append(h.Body, ref.Op{Kind: kindOf(l.Op), Text: l.Line})
			}
			h.Count()
			g := fragmentOfLoose(h)
			fr.OldLines, fr.NewLines = g.OldLines, g.NewLines
			fr.LinesAdded, fr.LinesDeleted, fr.LeadingContext, fr.TrailingContext = g.LinesAdded, g.LinesDeleted, g.LeadingContext, g.TrailingContext
			if c := t.Choose(len(ex) + 1); c > 0 {
				fr.OldLines = ex[c-1]
			}
			if c := t.Choose(len(ex) + 1); c > 0 {
				fr.NewLines = ex[c-1]
			}
			frs := []*gitdiff.TextFragment{fr}
			t.Trace()
			useFile(t, &gitdiff.File{TextFragments: frs}, plainSources[:3])
		},
	})
	hl := []string{"From x y\n", "From: a@b\n", "From \n", "commit x\n", "commit \n", "Author: A <a@b>\n", "Author: \n", "Date: 2020-01-01\n", "Date: x\n", "Subject: [x] =?UTF-8?q?=C3?= y\n", "Subject:\n", " folded\n", "\n", "    title\n", "---\n", ":\n", "x: \xff\n", "\x00"}
	hdepth := sel(tier, 4, 5)
	ss = append(ss, engine.Scenario{
		Name:  "header lines",
		Bound: fmt.Sprintf("all sequences of up to %d of %d header lines, in every clean mode", hdepth, len(hl)),
		Run: func(t *engine.T) {
			s := ""
			for i := 0; i < hdepth; i++ {
				c := t.Choose(len(hl) + 1)
				if c == 0 {
					break
				}
				s += hl[c-1]
			}
			t.Desc(func() string { return q(s) })
			t.State(s)
			useHeader(t, s)
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "damaged headers",
		Bound: fmt.Sprintf("each of %d valid headers, cut at every byte, with every byte removed, doubled or replaced by each of %d bytes, and with every line removed or doubled, in every clean mode", len(headerCorpus), len(subst)),
		Run: func(t *engine.T) {
			s := damage(t, engine.Pick(t, headerCorpus), subst)
			t.Desc(func() string { return q(s) })
			t.State(s)
			useHeader(t, s)
		},
	})
	idBytes := []byte{' ', '\t', '"', '(', ')', '<', '>', '@', '\\', 'a', ',', 0xff}
	ilen := sel(tier, 5, 6)
	ss = append(ss, engine.Scenario{
		Name:  "identities, dates and subjects",
		Bound: fmt.Sprintf("all strings of up to %d of %d bytes as identity; of up to %d of 12 as date and as subject", ilen, len(idBytes), ilen-1),
		Run: func(t *engine.T) {
			kind := t.Choose(3)
			alpha, n := idBytes, ilen
			if kind == 1 {
				alpha, n = []byte(" -+:0129TZJ\xff"), ilen-1
			} else if kind == 2 {
				alpha, n = []byte("[]rReE: =?P\xff"), ilen-1
			}
			s := ""
			for i := 0; i < n; i++ {
				c := t.Choose(len(alpha) + 1)
				if c == 0 {
					break
				}
				s += string(alpha[c-1 : c])
			}
			t.Desc(func() string { return q(s) })
			t.Trace()
			switch kind {
			case 0:
				id, err := gitdiff.ParsePatchIdentity(s)
				if err == nil && id.Name == "" && id.Email == "" {
					t.Fail("identity", "neither an identity nor an error for %s", q(s))
				}
				_ = id.String()
			case 1:
				d, err := gitdiff.ParsePatchDate(s)
				if err == nil && s != "" && d.Equal(time.Time{}) {
					t.Fail("date", "neither a date nor an error for %s", q(s))
				}
			case 2:
				useHeader(t, "From: a@b\nSubject: "+s+"\n\nx\n")
			}
		},
	})
	big := sel(tier, 1<<20, 1<<22)
	long := append(append([]string{}, heads...), "diff --git a/x", "diff --git a/x b/", "diff --git \"a/", gitHead+"@@ -1 +1 @@\n-a\n+", "diff --git a/x b/x\nrename from x\nrename to \"")
	bigs := []string{"a", " ", "\n", "\x00", "\"", "\\", "(", "[", "[]", "Re:", "/", "@@ -", "diff --git ", "=?UTF-8?q?a?= ", "@", "<", "+", "\t", "a/", ",", "\\\"", "\r"}
	ss = append(ss, engine.Scenario{
		Name:  "long repetitions",
		Bound: fmt.Sprintf("%d strings repeated to %d and %d bytes, alone and after each of %d beginnings, as patch, header, identity and date", len(bigs), big/64, big, len(long)),
		Run: func(t *engine.T) {
			r := engine.Pick(t, bigs)
			n := engine.Pick(t, []int{big / 64, big})
			if strings.HasPrefix(r, "\n") && n > 1<<17 {
				n = 1 << 17
			}
			s := strings.Repeat(r, n/len(r))
			h := t.Choose(len(long) + 1)
			t.Desc(func() string { return fmt.Sprintf("%q x %d after %d", r, n/len(r), h) })
			t.Trace()
			if h == len(long) {
				useHeader(t, s)
				useHeader(t, "From: "+s)
				useHeader(t, "From: a\nSubject: "+s)
				useHeader(t, "commit "+s)
				useHeader(t, "commit a\n\n    "+s)
				gitdiff.ParsePatchIdentity(s)
				gitdiff.ParsePatchDate(s)
				return
			}
			useEverything(t, long[h]+s, plainSources[:1])
		},
	})
	return ss
}

// fragmentOfLoose is fragmentOf for hunks with unknown line kinds.
func fragmentOfLoose(h *ref.Hunk) *gitdiff.TextFragment {
	g := &ref.Hunk{}
	for _, o := range h.Body {
		if o.Kind != '?' {
			g.Body = append(g.Body, o)
		}
	}
	g.Count()
	return fragmentOf(g)
}

func useHeader(t *engine.T, s string) {
	t.Trace()
	for _, m := range []gitdiff.SubjectCleanMode{gitdiff.SubjectCleanAll, gitdiff.SubjectCleanPatchOnly, gitdiff.SubjectCleanWhitespace} {
		h, err := gitdiff.ParsePatchHeader(s, gitdiff.WithSubjectCleanMode(m))
		if err == nil && h == nil {
			t.Fail("header", "neither a header nor an error for %s", q(s))
		}
		_ = h.Message()
		if err != nil {
			t.Outcome("rejected")
			_ = err.Error()
		} else {
			t.Outcome("accepted")
		}
	}
}

// damage changes a valid input in one chosen place.
func damage(t *engine.T, s string, subst []byte) string {
	switch t.Choose(3) {
	case 0: // cut
		return s[:t.Choose(len(s))]
	case 1:
		i := t.Choose(len(s))
		switch c := t.Choose(len(subst) + 2); c {
		case 0:
			return s[:i] + s[i+1:]
		case 1:
			return s[:i+1] + s[i:]
		default:
			b := []byte(s)
			b[i] = subst[c-2]
			return string(b)
		}
	default:
		ls := ref.Lines(s)
		i := t.Choose(len(ls))
		var b bytes.Buffer
		double := t.Bool()
		for k, l := range ls {
			if k != i {
				b.WriteString(l)
			} else if double {
				b.WriteString(l + l)
			}
		}
		return b.String()
	}
}
