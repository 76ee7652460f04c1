package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// script enumerates an edit script of up to maxLen ops over the given line
// bodies. Bodies carry no newline; the last line of either side may lack one.
func chooseScript(t *engine.T, maxLen int, bodies []string) []ref.Op {
	n := t.Choose(maxLen) + 1
	script := make([]ref.Op, n)
	kinds := []byte{' ', '-', '+'}
	for i := range script {
		c := t.Choose(len(kinds) * len(bodies))
		script[i] = ref.Op{Kind: kinds[c%3], Text: bodies[c/3] + "\n"}
	}
	chooseEOL(t, script)
	return script
}

// chooseEOL drops the final newline of the old side, the new side, both or
// neither, as far as that is consistent.
func chooseEOL(t *engine.T, script []ref.Op) {
	lastOld, lastNew := -1, -1
	for i, o := range script {
		if o.Old() {
			lastOld = i
		}
		if o.New() {
			lastNew = i
		}
	}
	switch {
	case lastOld == lastNew:
		if lastOld >= 0 && t.Bool() {
			trimEOL(&script[lastOld])
		}
	default:
		// A shared final line cannot lack its newline on one side only.
		if lastOld >= 0 && script[lastOld].Kind == '-' && t.Bool() {
			trimEOL(&script[lastOld])
		}
		if lastNew >= 0 && script[lastNew].Kind == '+' && t.Bool() {
			trimEOL(&script[lastNew])
		}
	}
}

func trimEOL(o *ref.Op) { o.Text = strings.TrimSuffix(o.Text, "\n") }

// chooseGrouping enumerates every way to cut a script into hunks: each context
// line is inside or outside a hunk, and adjacent lines may be in different
// hunks.
func chooseGrouping(t *engine.T, script []ref.Op) []*ref.Hunk {
	in := make([]bool, len(script))
	brk := make([]bool, len(script))
	prev := false
	for i, o := range script {
		if o.Kind == ' ' {
			in[i] = t.Bool()
		} else {
			in[i] = true
		}
		if in[i] && prev {
			brk[i] = t.Bool()
		}
		prev = in[i]
	}
	hs := ref.Group(script, in, brk)
	if len(hs) == 0 {
		t.Skip()
	}
	// Two hunks that name the same old position have no defined order.
	for i := 1; i < len(hs); i++ {
		if hs[i].OldPos == hs[i-1].OldPos {
			t.Skip()
		}
	}
	return hs
}

// ambiguousStart reports whether the diff uses position zero in a way that is
// indistinguishable from file creation or full deletion.
func ambiguousStart(src string, hs []*ref.Hunk) bool {
	for _, h := range hs {
		if h.OldPos == 0 && src != "" {
			return true
		}
		if h.NewPos == 0 && h.NewN == 0 && h.OldN < int64(len(ref.Lines(src))) {
			return true
		}
	}
	return false
}

// checkDiff applies hs (a diff from a to b) in the given style and compares.
func checkDiff(t *engine.T, a, b string, hs []*ref.Hunk, style int, short bool) {
	var f *gitdiff.File
	if style < 0 {
		f = fileOf(hs)
	} else {
		f = parseOne(t, patchText(hs, style, short))
	}
	t.Trace()
	got, err := applyTo(a, f)
	if err != nil {
		if ambiguousStart(a, hs) && isConflict(err) {
			t.Outcome("refused-at-start")
			return
		}
		t.Fail("error", "diff does not apply to its own source: %v\nsource %s\ntarget %s\nhunks %s", err, q(a), q(b), hunksString(hs))
	}
	if got != b {
		t.Fail("output", "wrong result\nsource %s\ntarget %s\ngot    %s\nhunks %s", q(a), q(b), q(got), hunksString(hs))
	}
	t.Outcome(fmt.Sprintf("applied-%dhunks", min(len(hs), 3)))
}

func sumKey(parts ...string) string {
	return strings.Join(parts, "\x00")
}

// oddBodies are line contents that look like patch syntax or stress bytes.
var oddBodies = func() []string {
	out := []string{"", " ", "  ", "\t", "\r", "a\r", "\\ No newline at end of file", "\\", "@@ -1 +1 @@", "@@ -1,2 +1,2 @@ x", "-- a/f", "++ b/f", "--- a/f", "+++ b/f", "-- ", "-", "+", "++", "--",
		"diff --git a/x b/x", "GIT binary patch", "Binary files a and b differ", "index 0123456..789abcd 100644", "From 0123", "From: a <b@c>", "---", "commit 0123456", "é", "日本", "\xff\xfe", "\xc3\x28", "\u2028", "\ufeffx", "\x00", "a\x00b", "\x1b[31m", "\"q\"", "%s%d%v", "$1", "a\vb", "a\fb", "\u0085", "\u00a0"}
	for c := 0; c < 256; c++ {
		if c != '\n' {
			out = append(out, string([]byte{byte(c)}))
		}
	}
	return out
}()

func init() {
	register(&Check{
		ID: "C01", Title: "text diff application",
		Assumptions: []string{"line contents outside the enumerated alphabets and files above 4 MiB are not explored", "two hunks that name the same old position are outside the space (their order is undefined)"},
		Scenarios: func(tier string) []engine.Scenario {
			return []engine.Scenario{
				{
					Name:  "scripts",
					Bound: fmt.Sprintf("all edit scripts of <=%d ops over 2 line contents, all final-newline choices, all hunk partitions; parsed from git style", sel(tier, 6, 7)),
					Run: func(t *engine.T) {
						s := chooseScript(t, sel(tier, 6, 7), []string{"a", "b"})
						hs := chooseGrouping(t, s)
						a, b := ref.OldText(s), ref.NewText(s)
						t.State(a, b, hunksString(hs))
						t.Desc(func() string { return fmt.Sprintf("A=%s B=%s hunks=%s", q(a), q(b), hunksString(hs)) })
						checkDiff(t, a, b, hs, 0, false)
					},
				},
				{
					Name:  "scripts-one-letter",
					Bound: fmt.Sprintf("all edit scripts of <=%d ops over one line content, all partitions, 4 syntaxes", sel(tier, 7, 9)),
					Run: func(t *engine.T) {
						s := chooseScript(t, sel(tier, 7, 9), []string{"x"})
						hs := chooseGrouping(t, s)
						style := t.Choose(4) - 1
						a, b := ref.OldText(s), ref.NewText(s)
						t.State(a, b, hunksString(hs), fmt.Sprint(style))
						t.Desc(func() string { return fmt.Sprintf("A=%s B=%s hunks=%s style=%d", q(a), q(b), hunksString(hs), style) })
						checkDiff(t, a, b, hs, style, style > 0)
					},
				},
				{
					Name:  "contents",
					Bound: fmt.Sprintf("%d line contents (all byte values, patch look-alikes) as context, deleted, added and unrelated lines, in 6 layouts, with all final-newline choices and contexts 0..2", len(oddBodies)),
					Run: func(t *engine.T) {
						body := oddBodies[t.Choose(len(oddBodies))] + "\n"
						other := "z\n"
						layouts := [][]ref.Op{
							{{Kind: ' ', Text: body}, {Kind: '-', Text: other}, {Kind: '+', Text: "y\n"}, {Kind: ' ', Text: body}},
							{{Kind: '-', Text: body}, {Kind: '+', Text: other}},
							{{Kind: '-', Text: other}, {Kind: '+', Text: body}},
							{{Kind: ' ', Text: other}, {Kind: '+', Text: body}, {Kind: '+', Text: body}, {Kind: ' ', Text: other}},
							{{Kind: ' ', Text: other}, {Kind: '-', Text: body}, {Kind: ' ', Text: body}, {Kind: '-', Text: body}, {Kind: ' ', Text: other}},
							{{Kind: ' ', Text: body}, {Kind: ' ', Text: body}, {Kind: ' ', Text: other}, {Kind: ' ', Text: body}, {Kind: '+', Text: "y\n"}, {Kind: ' ', Text: body}, {Kind: ' ', Text: body}, {Kind: ' ', Text: body}},
						}
						src := layouts[t.Choose(len(layouts))]
						s := append([]ref.Op(nil), src...)
						chooseEOL(t, s)
						for _, o := range s {
							// A line without newline must not be empty.
							if o.Text == "" {
								t.Skip()
							}
						}
						hs := ref.ContextGroup(s, t.Choose(3))
						a, b := ref.OldText(s), ref.NewText(s)
						style := t.Choose(2) * 2
						t.State(a, b, hunksString(hs))
						t.Desc(func() string { return fmt.Sprintf("A=%s B=%s hunks=%s", q(a), q(b), hunksString(hs)) })
						checkDiff(t, a, b, hs, style, true)
					},
				},
				{
					Name:  "lengths",
					Bound: "files of 0..72 and boundary line counts up to 8200, an edit (insert, delete, replace, replace-many) at every position (boundary positions for long files), contexts 0..5, with and without final newline",
					Run: func(t *engine.T) {
						counts := append(upTo(sel(tier, 41, 73)), append(around(64, 128, 256), around(1024, 4096, 8192)...)...)
						n := Pick(t, counts)
						var posns []int
						if n <= 73 {
							posns = upTo(n + 1)
						} else {
							for _, p := range []int{0, 1, 31, 32, 33, 63, 64, 65, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193} {
								if p <= n {
									posns = append(posns, p)
								}
							}
							posns = append(posns, n-1, n)
						}
						at := Pick(t, posns)
						kind := t.Choose(5)
						ctx := Pick(t, []int{0, 1, 3, 5})
						if n > 73 {
							ctx = Pick(t, []int{0, 3, 4200})
						}
						noeol := t.Bool()
						var s []ref.Op
						line := func(i int) string { return fmt.Sprintf("line %d\n", i) }
						for i := 0; i < n; i++ {
							if i == at {
								switch kind {
								case 0:
									s = append(s, ref.Op{Kind: '+', Text: "new\n"})
								case 1:
									s = append(s, ref.Op{Kind: '-', Text: line(i)})
									continue
								case 2:
									s = append(s, ref.Op{Kind: '-', Text: line(i)}, ref.Op{Kind: '+', Text: "new\n"})
									continue
								case 3:
									for k := 0; k < 40; k++ {
										s = append(s, ref.Op{Kind: '+', Text: "new\n"})
									}
								}
							}
							k := byte(' ')
							if kind == 4 && i > at && i < at+40 {
								k = '-'
							}
							s = append(s, ref.Op{Kind: k, Text: line(i)})
						}
						if at == n {
							s = append(s, ref.Op{Kind: '+', Text: "end\n"})
						}
						if noeol {
							trimEOL(&s[len(s)-1])
							if s[len(s)-1].Kind != ' ' {
								// keep the other side well formed
								for i := len(s) - 2; i >= 0; i-- {
									if s[i].Kind == ' ' || s[i].Kind != s[len(s)-1].Kind {
										break
									}
								}
							}
						}
						hs := ref.ContextGroup(s, ctx)
						if len(hs) == 0 {
							t.Skip()
						}
						a, b := ref.OldText(s), ref.NewText(s)
						t.State(fmt.Sprint(n, at, kind, ctx, noeol))
						t.Desc(func() string {
							return fmt.Sprintf("%d lines, edit kind %d at %d, context %d, noeol %v", n, kind, at, ctx, noeol)
						})
						checkDiff(t, a, b, hs, 0, true)
					},
				},
				{
					Name:  "line-lengths",
					Bound: "line lengths 0..200 and every power of two +-1 up to 256 KiB for the line before, inside, added by and after the hunk, final newline present or not",
					Run: func(t *engine.T) {
						lens := append(upTo(sel(tier, 131, 201)), boundaries(8, sel(tier, 17, 20))...)
						l := Pick(t, lens)
						big := strings.Repeat("0123456789abcde\t", l/16+1)[:l] + "\n"
						where := t.Choose(6)
						tx := []string{"p\n", "c\n", "old\n", "new\n", "c2\n", "q\n"}
						tx[where] = big
						s := []ref.Op{{Kind: ' ', Text: tx[0]}, {Kind: ' ', Text: tx[1]}, {Kind: '-', Text: tx[2]}, {Kind: '+', Text: tx[3]}, {Kind: ' ', Text: tx[4]}, {Kind: ' ', Text: tx[5]}}
						if t.Bool() {
							trimEOL(&s[5])
						}
						if s[5].Text == "" {
							t.Skip()
						}
						hs := ref.ContextGroup(s, t.Choose(3))
						a, b := ref.OldText(s), ref.NewText(s)
						t.State(fmt.Sprint(l, where, len(a)), hunksString(hs))
						t.Desc(func() string { return fmt.Sprintf("line %d has %d bytes, hunks %.100s", where, l, hunksString(hs)) })
						checkDiff(t, a, b, hs, 0, true)
					},
				},
				{
					Name:  "hunk-sizes",
					Bound: "hunks of 1..80 and boundary (32, 64, 1024, 4096 +-1) deleted, added and context lines, and distances between two hunks of the same sizes",
					Run: func(t *engine.T) {
						sizes := append(upTo(sel(tier, 40, 81)), append(around(64, 128, 1024, 4096), 8192, 8193)...)
						n := Pick(t, sizes)
						what := t.Choose(5)
						var s []ref.Op
						add := func(k byte, n int, tag string) {
							for i := 0; i < n; i++ {
								s = append(s, ref.Op{Kind: k, Text: fmt.Sprintf("%s%d\n", tag, i)})
							}
						}
						add(' ', 2, "pre")
						switch what {
						case 0:
							add('-', n, "del")
						case 1:
							add('+', n, "add")
						case 2:
							add('-', n, "del")
							add('+', n, "add")
						case 3: // interleaved
							for i := 0; i < n; i++ {
								add('-', 1, fmt.Sprint("d", i, "_"))
								add(' ', 1, fmt.Sprint("k", i, "_"))
							}
						case 4: // two hunks n apart
							add('-', 1, "d")
							add(' ', n, "gap")
							add('+', 1, "e")
						}
						add(' ', 2, "post")
						hs := ref.ContextGroup(s, t.Choose(4))
						if len(hs) == 0 {
							t.Skip()
						}
						for i := 1; i < len(hs); i++ {
							if hs[i].OldPos == hs[i-1].OldPos {
								t.Skip()
							}
						}
						a, b := ref.OldText(s), ref.NewText(s)
						t.State(fmt.Sprint(n, what), hunksString(hs))
						t.Desc(func() string { return fmt.Sprintf("hunk kind %d size %d", what, n) })
						checkDiff(t, a, b, hs, 0, false)
					},
				},
				{
					Name:  "many-hunks",
					Bound: "1..40 and boundary counts up to 1025 of hunks per file, three hunk shapes, contexts 0..2",
					Run: func(t *engine.T) {
						n := Pick(t, append(upTo(41)[1:], around(64, 128, 256, 1024)...))
						shape := t.Choose(4)
						ctx := t.Choose(3)
						var s []ref.Op
						for i := 0; i < n; i++ {
							for k := 0; k < 6; k++ {
								s = append(s, ref.Op{Kind: ' ', Text: fmt.Sprintf("c%d.%d\n", i, k)})
							}
							sh := shape
							if sh == 3 {
								sh = i % 3
							}
							if sh != 1 {
								s = append(s, ref.Op{Kind: '-', Text: fmt.Sprintf("old%d\n", i)})
							}
							if sh != 0 {
								s = append(s, ref.Op{Kind: '+', Text: fmt.Sprintf("new%d\n", i)}, ref.Op{Kind: '+', Text: "more\n"})
							}
						}
						hs := ref.ContextGroup(s, ctx)
						a, b := ref.OldText(s), ref.NewText(s)
						t.State(fmt.Sprint(n, shape, ctx))
						t.Desc(func() string { return fmt.Sprintf("%d hunks of shape %d, context %d", len(hs), shape, ctx) })
						checkDiff(t, a, b, hs, 2*t.Choose(2), true)
					},
				},
				{
					Name:  "two-edits",
					Bound: "all pairs of edit positions in files of <=12 lines, 9 pairs of edit kinds, contexts 0..3",
					Run: func(t *engine.T) {
						n := t.Choose(sel(tier, 12, 20)) + 2
						i := t.Choose(n)
						j := i + 1 + t.Choose(n-i)
						ki, kj := t.Choose(3), t.Choose(3)
						ctx := t.Choose(4)
						noeol := t.Bool()
						var s []ref.Op
						emit := func(k, x int) {
							l := fmt.Sprintf("line %d\n", x)
							if k != 1 && x < n {
								s = append(s, ref.Op{Kind: '-', Text: l})
							}
							if k != 0 {
								s = append(s, ref.Op{Kind: '+', Text: "new\n"})
							}
							if k == 1 && x < n {
								s = append(s, ref.Op{Kind: ' ', Text: l})
							}
						}
						for x := 0; x <= n; x++ {
							switch {
							case x == i:
								emit(ki, x)
							case x == j:
								emit(kj, x)
							case x < n:
								s = append(s, ref.Op{Kind: ' ', Text: fmt.Sprintf("line %d\n", x)})
							}
						}
						if noeol && s[len(s)-1].Kind == ' ' {
							trimEOL(&s[len(s)-1])
						}
						hs := ref.ContextGroup(s, ctx)
						if len(hs) == 0 {
							t.Skip()
						}
						for i := 1; i < len(hs); i++ {
							if hs[i].OldPos == hs[i-1].OldPos {
								t.Skip()
							}
						}
						a, b := ref.OldText(s), ref.NewText(s)
						t.State(a, hunksString(hs))
						t.Desc(func() string { return fmt.Sprintf("A=%s hunks %s", q(a), hunksString(hs)) })
						checkDiff(t, a, b, hs, 0, true)
					},
				},
			}
		},
	})
}

// Pick is engine.Pick.
func Pick[E any](t *engine.T, xs []E) E { return engine.Pick(t, xs) }
