package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// confusable line contents: they differ from each other in case, blanks, line
// ending, and length only.
var confusable = []string{"a\n", "A\n", "a \n", " a\n", "a\r\n", "\n", "b\n", "a\t\n", "aa\n", "a\x00\n", "\u00e4\n"}

// chooseSource enumerates sources of up to maxLines lines over texts, the last
// of which may lack its newline.
func chooseSource(t *engine.T, maxLines int, texts []string) string {
	n := t.Choose(maxLines + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		l := texts[t.Choose(len(texts))]
		if i == n-1 && t.Bool() {
			l = strings.TrimSuffix(l, "\n")
			if l == "" {
				t.Skip()
			}
		}
		b.WriteString(l)
	}
	return b.String()
}

// chooseHunk enumerates a hunk body of up to maxOps ops over texts (last old
// and new line with or without newline) at a position up to maxPos.
func chooseHunk(t *engine.T, maxPos, maxOps int, texts []string) *ref.Hunk {
	h := &ref.Hunk{}
	n := t.Choose(maxOps) + 1
	kinds := []byte{' ', '-', '+'}
	for i := 0; i < n; i++ {
		c := t.Choose(3 * len(texts))
		h.Body = append(h.Body, ref.Op{Kind: kinds[c%3], Text: texts[c/3]})
	}
	switch t.Choose(3) {
	case 1:
		trimEOL(&h.Body[n-1])
	case 2:
		if n < 2 {
			t.Skip()
		}
		trimEOL(&h.Body[n-2])
	}
	if h.Changes() == 0 {
		t.Skip()
	}
	h.Count()
	h.OldPos = int64(t.Choose(maxPos + 1))
	if h.OldPos == 0 && h.OldN > 0 {
		t.Skip() // rejected by Validate, see C21
	}
	h.NewPos = h.OldPos
	if h.NewN == 0 {
		// the position of an empty new side: 0 promises an empty result
		h.NewPos = int64(t.Choose(2)) * h.OldPos
	} else if h.NewPos == 0 {
		h.NewPos = 1
	}
	return h
}

// verifyApply compares one application with the model. If loc is set, error
// type and location are compared too.
func verifyApply(t *engine.T, src string, hs []*ref.Hunk, f *gitdiff.File, loc bool) {
	want := ref.ApplyHunks(src, hs)
	t.Trace()
	var dst bytes.Buffer
	err := gitdiff.Apply(&dst, strings.NewReader(src), f)
	ctx := func() string {
		return fmt.Sprintf("source %s\nhunks %s\nexpected %+v", q(src), hunksString(hs), clipResult(want))
	}
	if want.OK {
		t.Outcome("applies")
		if err != nil {
			t.Fail("false-conflict", "matching hunk refused: %v\n%s", err, ctx())
		}
		if dst.String() != want.Out {
			t.Fail("output", "wrong output %s\n%s", q(dst.String()), ctx())
		}
		return
	}
	t.Outcome(want.Why)
	if err == nil {
		t.Fail("accepted", "hunk that does not match the source was applied, output %s\n%s", q(dst.String()), ctx())
	}
	if !isConflict(err) {
		t.Fail("not-conflict", "error %v (%T) is not a Conflict\n%s", err, err, ctx())
	}
	if !loc {
		return
	}
	var ae *gitdiff.ApplyError
	if !errors.As(err, &ae) {
		t.Fail("type", "error %T is not an *ApplyError\n%s", err, ctx())
	}
	if _, ok := err.(*gitdiff.ApplyError); !ok {
		t.Fail("type", "error %T is not itself an *ApplyError\n%s", err, ctx())
	}
	if ae.Fragment != want.Frag {
		t.Fail("fragment", "Fragment is %d, want %d\n%s", ae.Fragment, want.Frag, ctx())
	}
	switch want.Why {
	case "line differs":
		if ae.Line != want.Line || ae.FragmentLine != want.FragLine {
			t.Fail("location", "location is line %d, fragment line %d; want %d, %d\n%s", ae.Line, ae.FragmentLine, want.Line, want.FragLine, ctx())
		}
	case "source too short":
		if ae.Line != want.Line {
			t.Fail("location", "location is line %d; want first missing line %d\n%s", ae.Line, want.Line, ctx())
		}
	}
}

func clipResult(r ref.Result) ref.Result {
	r.Out = clip(r.Out)
	r.Written = clip(r.Written)
	return r
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// mutateLine produces every near miss of a line.
var lineMutations = []struct {
	name string
	f    func(string) string
}{
	{"first byte", func(l string) string { return "X" + l[1:] }},
	{"last byte", func(l string) string { return l[:len(l)-2] + "X\n" }},
	{"middle byte", func(l string) string { m := (len(l) - 1) / 2; return l[:m] + "X" + l[m+1:] }},
	{"case", func(l string) string { return strings.ToUpper(l) }},
	{"trailing blank", func(l string) string { return l[:len(l)-1] + " \n" }},
	{"leading blank", func(l string) string { return " " + l }},
	{"cr", func(l string) string { return l[:len(l)-1] + "\r\n" }},
	{"shorter", func(l string) string { return l[:len(l)-2] + "\n" }},
	{"longer", func(l string) string { return l[:len(l)-1] + "x\n" }},
	{"empty", func(l string) string { return "\n" }},
	{"doubled", func(l string) string { return l[:len(l)-1] + l }},
	{"high bit", func(l string) string { return string([]byte{l[0] | 0x80}) + l[1:] }},
	{"nul", func(l string) string { return l[:len(l)-1] + "\x00\n" }},
}

func textMatchScenarios(tier string, loc bool) []engine.Scenario {
	run := func(t *engine.T, src string, hs []*ref.Hunk, parsed bool) {
		var f *gitdiff.File
		if parsed {
			f = parseOne(t, patchText(hs, 0, true))
		} else {
			f = fileOf(hs)
		}
		t.State(src, hunksString(hs))
		t.Desc(func() string { return fmt.Sprintf("source %s hunks %s", q(src), hunksString(hs)) })
		verifyApply(t, src, hs, f, loc)
	}
	return []engine.Scenario{
		{
			Name:  "confusable",
			Bound: fmt.Sprintf("all sources of <=2 lines and all hunks of <=2 ops over %d near-identical line contents, positions 0..3, final newline choices", len(confusable)),
			Run: func(t *engine.T) {
				texts := confusable[:sel(tier, 7, len(confusable))]
				h := chooseHunk(t, 3, 2, texts)
				src := chooseSource(t, 2, texts)
				run(t, src, []*ref.Hunk{h}, false)
			},
		},
		{
			Name:  "small-two-letter",
			Bound: fmt.Sprintf("all sources of <=%d lines and all hunks of <=%d ops over two contents, positions 0..4", sel(tier, 3, 4), sel(tier, 3, 4)),
			Run: func(t *engine.T) {
				h := chooseHunk(t, 4, sel(tier, 3, 4), []string{"a\n", "b\n"})
				src := chooseSource(t, sel(tier, 3, 4), []string{"a\n", "b\n"})
				run(t, src, []*ref.Hunk{h}, false)
			},
		},
		{
			Name:  "two-hunks",
			Bound: "all pairs of hunks of <=2 ops over one content, positions 0..4, against all sources of <=4 lines over two contents",
			Run: func(t *engine.T) {
				h1 := chooseHunk(t, 3, 2, []string{"a\n"})
				h2 := chooseHunk(t, sel(tier, 4, 5), 2, []string{"a\n"})
				if h2.OldPos <= h1.OldPos {
					t.Skip() // order is C03's subject
				}
				src := chooseSource(t, sel(tier, 4, 5), []string{"a\n", "b\n"})
				run(t, src, []*ref.Hunk{h1, h2}, false)
			},
		},
		{
			Name:  "mutations",
			Bound: fmt.Sprintf("a diff over n lines (n<=%d; and 33, 64, 65, 300), one source line at every position replaced by each of %d near misses or removed or duplicated, contexts 0..all", sel(tier, 12, 24), len(lineMutations)),
			Run: func(t *engine.T) {
				n := Pick(t, append(upTo(sel(tier, 13, 25))[1:], 33, 64, 65, 300))
				shape := t.Choose(4)
				ctx := Pick(t, []int{0, 1, 3, 1000})
				var s []ref.Op
				for i := 0; i < n; i++ {
					l := fmt.Sprintf("line%d end\n", i)
					k := byte(' ')
					switch shape {
					case 0:
						if i == n/2 {
							k = '-'
						}
					case 1:
						if i%3 == 1 {
							k = '-'
						}
					case 2:
						k = '-'
					case 3:
						if i == n-1 {
							k = '-'
						}
					}
					s = append(s, ref.Op{Kind: k, Text: l})
					if k == '-' && shape != 2 {
						s = append(s, ref.Op{Kind: '+', Text: "replacement\n"})
					}
				}
				hs := ref.ContextGroup(s, ctx)
				if len(hs) == 0 {
					t.Skip()
				}
				lines := ref.Lines(ref.OldText(s))
				var posns []int
				if n <= 65 {
					posns = upTo(n)
				} else {
					posns = []int{0, 1, n / 2, n - 2, n - 1, 31, 32, 33, 63, 64, 127, 128, 255, 256}
				}
				at := Pick(t, posns)
				m := t.Choose(len(lineMutations) + 5)
				mut := append([]string(nil), lines...)
				name := ""
				switch {
				case m < len(lineMutations):
					name = lineMutations[m].name
					mut[at] = lineMutations[m].f(mut[at])
				case m == len(lineMutations):
					name = "removed"
					mut = append(mut[:at:at], mut[at+1:]...)
				case m == len(lineMutations)+1:
					name = "duplicated"
					mut = append(mut[:at+1:at+1], lines[at:]...)
				case m == len(lineMutations)+2:
					name = "truncated"
					mut = mut[:at]
				case m == len(lineMutations)+3:
					name = "no final newline"
					mut[len(mut)-1] = strings.TrimSuffix(mut[len(mut)-1], "\n")
				case m == len(lineMutations)+4:
					name = "swapped"
					o := (at + 1) % len(mut)
					mut[at], mut[o] = mut[o], mut[at]
				}
				src := strings.Join(mut, "")
				t.State(src, hunksString(hs))
				t.Desc(func() string { return fmt.Sprintf("%d lines shape %d ctx %d, line %d %s", n, shape, ctx, at+1, name) })
				verifyApply(t, src, hs, parseOne(t, patchText(hs, 0, false)), loc)
			},
		},
		{
			Name:  "long-files",
			Bound: "files around 1024, 4096 and 8192 lines: hunk at start, middle, end or covering everything; the source differs, ends or continues at each of 20 boundary lines",
			Run: func(t *engine.T) {
				n := Pick(t, []int{1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193})
				shape := t.Choose(5)
				var h *ref.Hunk
				body := func(from, to int, k byte) (ops []ref.Op) {
					for i := from; i < to; i++ {
						ops = append(ops, ref.Op{Kind: k, Text: fmt.Sprintf("l%d\n", i)})
					}
					return
				}
				switch shape {
				case 0:
					h = &ref.Hunk{OldPos: 1, NewPos: 1, Body: append([]ref.Op{{Kind: '+', Text: "x\n"}}, body(0, 3, ' ')...)}
				case 1:
					h = &ref.Hunk{OldPos: int64(n - 3), NewPos: int64(n - 3), Body: append(append(body(n-4, n-2, ' '), body(n-2, n-1, '-')...), body(n-1, n, ' ')...)}
				case 2:
					h = &ref.Hunk{OldPos: 1, NewPos: 1, Body: append(body(0, n-1, ' '), body(n-1, n, '-')...)}
				case 3:
					h = &ref.Hunk{OldPos: 1, NewPos: 0, Body: body(0, n, '-')}
				case 4:
					h = &ref.Hunk{OldPos: int64(n), NewPos: int64(n) + 1, Body: []ref.Op{{Kind: '+', Text: "x\n"}}}
				}
				h.Count()
				var lines []string
				for i := 0; i < n; i++ {
					lines = append(lines, fmt.Sprintf("l%d\n", i))
				}
				at := Pick(t, []int{0, 1, 2, 3, 31, 32, 1022, 1023, 1024, 4094, 4095, 4096, 4097, 8190, 8191, 8192, n - 4, n - 3, n - 2, n - 1})
				if at >= n {
					t.Skip()
				}
				m := t.Choose(6)
				switch m {
				case 1:
					lines[at] = "different\n"
				case 2:
					lines = lines[:at]
				case 3:
					lines = append(lines, "more\n")
				case 4:
					lines[n-1] = strings.TrimSuffix(lines[n-1], "\n")
				case 5:
					lines[at] += "extra\n"
				}
				src := strings.Join(lines, "")
				t.State(fmt.Sprint(n, shape, at, m))
				t.Desc(func() string { return fmt.Sprintf("%d lines, hunk shape %d, source change %d at %d", n, shape, m, at) })
				verifyApply(t, src, []*ref.Hunk{h}, fileOf([]*ref.Hunk{h}), loc)
			},
		},
		{
			Name:  "long lines",
			Bound: "a deleted or context line of 8 lengths up to 70000 bytes, second of three lines, against a source line with one byte changed at every position (first and last 70 and around the middle and powers of two for the longer ones), one byte less or one more",
			Run: func(t *engine.T) {
				n := Pick(t, []int{33, 65, 130, 260, 520, 1100, 5000, 70000})
				long := strings.Repeat("abcdefghij", n/10+1)[:n]
				k := Pick(t, []byte{'-', ' '})
				h := &ref.Hunk{OldPos: 1, NewPos: 1, Body: []ref.Op{{Kind: '-', Text: "a\n"}, {Kind: k, Text: long + "\n"}, {Kind: '-', Text: "c\n"}}}
				h.Count()
				at := upTo(n - 1)
				if n > 1100 {
					at = append(upTo(70), around(127, 255, 511, 512, 1023, 1024, 2048, 4095, n/2)...)
					for i := 1; i <= 70; i++ {
						at = append(at, n-i)
					}
				}
				var line, what string
				if c := t.Choose(len(at) + 3); c < len(at) {
					b := []byte(long)
					b[at[c]] = 'X'
					line, what = string(b), fmt.Sprint("byte ", at[c], " differs")
				} else {
					line, what = []string{long, long[:n-1], long + "x"}[c-len(at)], []string{"same", "shorter", "longer"}[c-len(at)]
				}
				t.State(fmt.Sprint(n, k, what))
				t.Desc(func() string { return fmt.Sprintf("line of %d bytes (%c), %s", n, k, what) })
				src := "a\n" + line + "\nc\n"
				verifyApply(t, src, []*ref.Hunk{h}, fileOf([]*ref.Hunk{h}), loc)
			},
		},
		{
			Name:  "create-delete",
			Bound: "creation hunks of 1..3 lines against sources of every length 0..70 and boundary lengths up to 64 KiB (with and without newlines), full deletions of n lines against sources with 0..3 more bytes or lines",
			Run: func(t *engine.T) {
				var src string
				h := &ref.Hunk{}
				if t.Bool() {
					l := Pick(t, append(upTo(71), boundaries(8, 16)...))
					c := Pick(t, []string{"a", "\n", "\x00", "a\n"})
					src = strings.Repeat(c, l/len(c)+1)[:l]
					h.OldPos, h.NewPos = 0, 1
					for i := t.Choose(3); i >= 0; i-- {
						h.Body = append(h.Body, ref.Op{Kind: '+', Text: "n\n"})
					}
				} else {
					n := Pick(t, append(upTo(40)[1:], 1023, 1024, 1025, 4095, 4096, 4097))
					h.OldPos, h.NewPos = 1, 0
					for i := 0; i < n; i++ {
						h.Body = append(h.Body, ref.Op{Kind: '-', Text: "o\n"})
						src += "o\n"
					}
					src += Pick(t, []string{"", "\n", "x", "o\n", "o", "o\no\n", "\x00", " "})
				}
				if t.Bool() {
					trimEOL(&h.Body[len(h.Body)-1])
				}
				h.Count()
				run(t, src, []*ref.Hunk{h}, t.Bool())
			},
		},
		{
			Name:  "extreme-positions",
			Bound: "hunks at positions around every power of two up to 2^63-1 with 0..3 old lines against sources of 0..3 lines",
			Run: func(t *engine.T) {
				k := t.Choose(64)
				pos := int64(1)<<uint(k) - 2 + int64(t.Choose(4))
				if k == 63 {
					pos = 1<<63 - 1 - int64(t.Choose(5))
				}
				if pos < 1 {
					t.Skip()
				}
				h := &ref.Hunk{OldPos: pos, NewPos: pos}
				for i := t.Choose(4); i > 0; i-- {
					h.Body = append(h.Body, ref.Op{Kind: '-', Text: "a\n"})
				}
				if t.Bool() || len(h.Body) == 0 {
					h.Body = append(h.Body, ref.Op{Kind: '+', Text: "b\n"})
				}
				h.Count()
				src := strings.Repeat("a\n", t.Choose(4))
				f := fileOf([]*ref.Hunk{h})
				if t.Bool() {
					f = parseOne(t, patchText([]*ref.Hunk{h}, 0, false))
				}
				t.State(src, hunksString([]*ref.Hunk{h}))
				t.Desc(func() string { return fmt.Sprintf("%d source lines, hunk %s", len(src)/2, hunksString([]*ref.Hunk{h})) })
				// A hunk whose end is not representable is an invalid
				// fragment rather than a conflict.
				if start := h.Start(); h.OldN > 1<<63-1-start {
					out, err := applyTo(src, f)
					t.Trace()
					t.Outcome("overflow")
					if err == nil {
						t.Fail("accepted", "hunk beyond the largest position was applied, output %s", q(out))
					}
					return
				}
				verifyApply(t, src, []*ref.Hunk{h}, f, loc)
			},
		},
	}
}

func init() {
	register(&Check{
		ID: "C02", Title: "strict matching",
		Assumptions: []string{"line contents outside the enumerated alphabets are not explored"},
		Scenarios:   func(tier string) []engine.Scenario { return textMatchScenarios(tier, false) },
	})
}
