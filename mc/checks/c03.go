package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// hunkAt builds one of several hunk shapes at the zero-based source line i of
// a source whose line k is "l<k>\n". It returns the hunk and the number of
// source lines it covers.
func hunkAt(shape, i int) (*ref.Hunk, int) {
	l := func(k int) string { return fmt.Sprintf("l%d\n", k) }
	n := func(k int) string { return fmt.Sprintf("n%d\n", k) }
	h := &ref.Hunk{}
	switch shape {
	case 0: // replace one line
		h.Body = []ref.Op{{Kind: '-', Text: l(i)}, {Kind: '+', Text: n(i)}}
	case 1: // insert between context
		h.Body = []ref.Op{{Kind: ' ', Text: l(i)}, {Kind: '+', Text: n(i)}, {Kind: ' ', Text: l(i + 1)}}
	case 2: // delete
		h.Body = []ref.Op{{Kind: '-', Text: l(i)}, {Kind: '-', Text: l(i + 1)}}
	case 3: // insert after line i without context
		h.Body = []ref.Op{{Kind: '+', Text: n(i)}, {Kind: '+', Text: n(i)}}
	case 4: // context, replace, context
		h.Body = []ref.Op{{Kind: ' ', Text: l(i)}, {Kind: '-', Text: l(i + 1)}, {Kind: '+', Text: n(i)}, {Kind: ' ', Text: l(i + 2)}}
	}
	h.Count()
	h.OldPos = int64(i) + 1
	h.NewPos = h.OldPos
	return h, int(h.OldN)
}

func numbered(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "l%d\n", i)
	}
	return b.String()
}

// permutation enumerates all orders of xs.
func permutation[E any](t *engine.T, xs []E) []E {
	rest := append([]E(nil), xs...)
	var out []E
	for len(rest) > 0 {
		i := t.Choose(len(rest))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

// positionsDistinct reports that no two hunks name the same old position;
// such ties have no defined order.
func positionsDistinct(hs []*ref.Hunk) bool {
	seen := map[int64]bool{}
	for _, h := range hs {
		if seen[h.OldPos] {
			return false
		}
		seen[h.OldPos] = true
	}
	return true
}

func verifyOrder(t *engine.T, src string, sorted, listed []*ref.Hunk, parsed bool) {
	want := ref.ApplyHunks(src, sorted)
	var f *gitdiff.File
	if parsed {
		f = parseOne(t, patchText(listed, 0, false))
	} else {
		f = fileOf(listed)
	}
	before := cloneFile(f)
	order := append([]*gitdiff.TextFragment(nil), f.TextFragments...)
	t.Trace()
	for round := 0; round < 2; round++ {
		out, err := applyTo(src, f)
		if want.OK {
			t.Outcome("applies")
			if err != nil {
				t.Fail("order", "round %d: hunks in listed order refused: %v\nlisted %s", round, err, hunksString(listed))
			}
			if out != want.Out {
				t.Fail("order", "round %d: got %s want %s\nlisted %s", round, q(out), q(want.Out), hunksString(listed))
			}
		} else {
			t.Outcome(want.Why)
			if err == nil {
				t.Fail("order-accepted", "round %d: expected a conflict (%s), output %s\nlisted %s", round, want.Why, q(out), hunksString(listed))
			}
			if !isConflict(err) {
				t.Fail("order-kind", "round %d: error %v is not a conflict (%s)\nlisted %s", round, err, want.Why, hunksString(listed))
			}
		}
		if d := diffFiles(before, f); d != "" {
			t.Fail("mutated", "Apply changed the patch: %s\nlisted %s", d, hunksString(listed))
		}
		for i := range order {
			if order[i] != f.TextFragments[i] {
				t.Fail("mutated", "Apply reordered the hunks of the patch: index %d\nlisted %s", i, hunksString(listed))
			}
		}
	}
}

// A use is one read-only operation on a patch. It returns a description of
// what was observed; the same operation must always observe the same.
type use struct {
	name string
	run  func(f *gitdiff.File, srcs []string) string
}

func describe(out string, err error) string {
	if err == nil {
		return "ok " + q(out)
	}
	if isConflict(err) {
		return "conflict: " + err.Error()
	}
	return "error: " + err.Error()
}

var uses = []use{
	{"apply", func(f *gitdiff.File, s []string) string { return describe(applyTo(s[0], f)) }},
	{"apply-other", func(f *gitdiff.File, s []string) string { return describe(applyTo(s[1], f)) }},
	{"apply-empty", func(f *gitdiff.File, s []string) string { return describe(applyTo("", f)) }},
	{"string", func(f *gitdiff.File, s []string) string { return f.String() }},
	{"parts", func(f *gitdiff.File, s []string) string {
		var b strings.Builder
		for _, fr := range f.TextFragments {
			fmt.Fprintln(&b, fr.Validate(), fr.Header(), fr.String())
			for _, l := range fr.Lines {
				fmt.Fprintln(&b, l.String(), l.Old(), l.New(), l.NoEOL())
			}
		}
		if f.BinaryFragment != nil {
			fmt.Fprintln(&b, f.BinaryFragment.String())
		}
		if f.ReverseBinaryFragment != nil {
			fmt.Fprintln(&b, f.ReverseBinaryFragment.String())
		}
		return b.String()
	}},
	{"data", func(f *gitdiff.File, s []string) string {
		var b strings.Builder
		for _, bf := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if bf != nil {
				fmt.Fprintln(&b, describe(readAll(bf.Data())))
			}
		}
		return b.String()
	}},
	{"applier", func(f *gitdiff.File, s []string) string {
		var dst bytes.Buffer
		if f.IsBinary {
			a := gitdiff.NewBinaryApplier(&dst, strings.NewReader(s[0]))
			err := a.ApplyFragment(f.BinaryFragment)
			return describe(dst.String(), err) + fmt.Sprint(a.Close())
		}
		a := gitdiff.NewTextApplier(&dst, strings.NewReader(s[0]))
		var d string
		for _, fr := range f.TextFragments {
			d += fmt.Sprint(a.ApplyFragment(fr), ";")
		}
		return d + fmt.Sprint(a.Close(), dst.String())
	}},
	{"other-side", func(f *gitdiff.File, s []string) string {
		if f.ReverseBinaryFragment == nil {
			return ""
		}
		var dst bytes.Buffer
		a := gitdiff.NewBinaryApplier(&dst, strings.NewReader(s[1]))
		err := a.ApplyFragment(f.ReverseBinaryFragment)
		return describe(dst.String(), err) + fmt.Sprint(a.Close())
	}},
}

// useFiles are patches to use repeatedly, with two sources each: one the
// patch applies to and one it does not (or the other side).
func useFiles() (files []*gitdiff.File, srcs [][]string, names []string) {
	add := func(name, patch string, ss ...string) {
		fs, _, err := gitdiff.Parse(strings.NewReader(patch))
		if err != nil || len(fs) != 1 {
			panic(fmt.Sprintf("%s: %v %d", name, err, len(fs)))
		}
		files = append(files, fs[0])
		srcs = append(srcs, ss)
		names = append(names, name)
	}
	src := numbered(30)
	var hs []*ref.Hunk
	for _, i := range []int{20, 4, 12, 0, 27} {
		h, _ := hunkAt(i%5, i)
		hs = append(hs, h)
	}
	add("text", patchText(hs, 1, true), src, numbered(12))
	add("overlap", patchText([]*ref.Hunk{hs[1], hs[0], func() *ref.Hunk {
		h, _ := hunkAt(2, 20+0)
		h.OldPos--
		h.Body[0].Text = "l19\n"
		h.Body[1].Text = "l20\n"
		return h
	}()}, 0, false), src, src+"x")
	add("new", "diff --git a/f b/f\nnew file mode 100755\nindex 0000000..1234567\n--- /dev/null\n+++ b/f\n@@ -0,0 +1,2 @@\n+a\n+b\n\\ No newline at end of file\n", "", "x")
	add("delete", "diff --git a/f b/f\ndeleted file mode 100644\nindex 1234567..0000000\n--- a/f\n+++ /dev/null\n@@ -1,2 +0,0 @@\n-a\n-b\n", "a\nb\n", "a\nb\nc\n")
	add("rename", "diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to g\n", "anything", "")
	add("literal", "diff --git a/f b/f\nindex 1234567..89abcde 100644\nGIT binary patch\n"+encodeBinary("literal", 5, deflate([]byte("\x00abc\n")))+encodeBinary("literal", 3, deflate([]byte("old"))), "old", "\x00abc\n")
	delta := func(from, to string) string {
		d := append(deltaSize(int64(len(from))), deltaSize(int64(len(to)))...)
		d = append(d, 0x80|0x10, 2, byte(len(to)-2))
		d = append(d, to[2:]...)
		return encodeBinary("delta", int64(len(d)), deflate(d))
	}
	add("delta", "diff --git a/f b/f\nindex 1234567..89abcde 100644\nGIT binary patch\n"+delta("aXold", "aXnewer")+delta("aXnewer", "aXold"), "aXold", "aXnewer")
	add("no-data", "diff --git a/f b/f\nindex 1234567..89abcde 100644\nBinary files a/f and b/f differ\n", "x", "y")
	return
}

func init() {
	register(&Check{
		ID: "C03", Title: "order and immutability",
		Assumptions: []string{"hunks that name the same old position have no defined order and are not mixed"},
		Scenarios: func(tier string) []engine.Scenario {
			uf, us, un := useFiles()
			return []engine.Scenario{
				{
					Name:  "permutations",
					Bound: fmt.Sprintf("every set of <=%d hunks of 5 shapes with every gap in -1..2 (negative: overlapping) in every order, built directly and parsed; up to 3 hunks also with decreasing and with equal new positions", sel(tier, 4, 5)),
					Run: func(t *engine.T) {
						k := 1 + t.Choose(sel(tier, 4, 5))
						shapes := 5
						if k >= 4 {
							shapes = sel(tier, 3, 4)
						}
						at := t.Choose(2)
						var hs []*ref.Hunk
						for i := 0; i < k; i++ {
							h, used := hunkAt(t.Choose(shapes), at)
							hs = append(hs, h)
							if i < k-1 {
								gaps := 4
								if k >= 4 {
									gaps = 3
								}
								at += used + []int{0, 1, -1, 2}[t.Choose(gaps)]
							}
							if at < 0 {
								t.Skip()
							}
						}
						if !positionsDistinct(hs) {
							t.Skip()
						}
						sorted := append([]*ref.Hunk(nil), hs...)
						sortHunks(sorted)
						if k <= 3 {
							// positions in the new file that do not follow the
							// order in the old one
							switch t.Choose(3) {
							case 1:
								for i, h := range hs {
									h.NewPos = int64(20 - i)
								}
							case 2:
								for _, h := range hs {
									h.NewPos = 1
								}
							}
						}
						listed := permutation(t, hs)
						src := numbered(24)
						t.State(hunksString(sorted))
						t.Desc(func() string { return "listed " + hunksString(listed) })
						verifyOrder(t, src, sorted, listed, t.Bool())
					},
				},
				{
					Name:  "many-hunks",
					Bound: "n hunks for every n in 2..40 (and 64, 100, 200), listed reversed, rotated by every amount, with every pair transposed, interleaved, or zig-zag",
					Run: func(t *engine.T) {
						n := 2 + t.Choose(42)
						if n > 40 {
							n = []int{64, 100, 200}[n-41]
						}
						var hs []*ref.Hunk
						at := 0
						for i := 0; i < n; i++ {
							h, used := hunkAt(i%5, at)
							hs = append(hs, h)
							at += used + i%3
							if h.OldN == 0 {
								at++
							}
						}
						if !positionsDistinct(hs) {
							panic("engine: positions")
						}
						listed := append([]*ref.Hunk(nil), hs...)
						kind := t.Choose(5)
						switch kind {
						case 0:
							for i := range listed {
								listed[i] = hs[n-1-i]
							}
						case 1:
							r := t.Choose(n)
							for i := range listed {
								listed[i] = hs[(i+r)%n]
							}
						case 2:
							i := t.Choose(n - 1)
							lim := n - 1 - i
							if n > 40 || (tier != "thorough" && n > 16) {
								lim = min(lim, 2)
							}
							j := i + 1 + t.Choose(lim)
							listed[i], listed[j] = listed[j], listed[i]
						case 3:
							s := 2 + t.Choose(min(n, 6))
							k := 0
							for off := 0; off < s; off++ {
								for i := off; i < n; i += s {
									listed[k] = hs[i]
									k++
								}
							}
						case 4:
							for i := range listed {
								if i%2 == 0 {
									listed[i] = hs[i/2]
								} else {
									listed[i] = hs[n-1-i/2]
								}
							}
						}
						src := numbered(at + 3)
						t.State(fmt.Sprint(n, kind, hunksOrder(listed)))
						t.Desc(func() string { return fmt.Sprintf("%d hunks, order kind %d", n, kind) })
						verifyOrder(t, src, hs, listed, false)
					},
				},
				{
					Name:  "near sources",
					Bound: fmt.Sprintf("all hunks of up to %d lines, the last line of each side with and without newline, alone and between other lines, applied to the source, to each of its near variants (a byte, a line or a line end added, removed or changed) and to the source again", sel(tier, 4, 5)),
					Run:   func(t *engine.T) { nearSources(t, sel(tier, 4, 5)) },
				},
				{
					Name:  "uses",
					Bound: fmt.Sprintf("every sequence of %d of the %d read-only uses of each of %d patches; each use observes what it observes on a fresh patch and changes no field", sel(tier, 3, 4), len(uses), len(uf)),
					Run: func(t *engine.T) {
						i := t.Choose(len(uf))
						f := cloneFile(uf[i])
						var seq []string
						t.Desc(func() string { return fmt.Sprint(un[i], " ", seq) })
						for d := 0; d < sel(tier, 3, 4); d++ {
							u := uses[t.Choose(len(uses))]
							seq = append(seq, u.name)
							t.State(fmt.Sprint(un[i], seq))
							want := u.run(cloneFile(uf[i]), us[i])
							t.Trace()
							if got := u.run(f, us[i]); got != want {
								t.Fail("result", "%s: after %v the result is %s, on a fresh patch %s", un[i], seq, q(got), q(want))
							}
							if diff := diffFiles(uf[i], f); diff != "" {
								t.Fail("mutated", "%s: %v changed the patch: %s", un[i], seq, diff)
							}
						}
						t.Outcome(un[i])
					},
				},
			}
		},
	})
}

// nearSources applies a hunk to its source and to a source that differs from
// it a little. Whether the latter is refused is not the question here.
func nearSources(t *engine.T, depth int) {
	var script []ref.Op
	n := 1 + t.Choose(depth)
	changes := false
	for i := 0; i < n; i++ {
		k := engine.Pick(t, []byte{' ', '-', '+'})
		changes = changes || k != ' '
		script = append(script, ref.Op{Kind: k, Text: fmt.Sprintf("l%d\n", i)})
	}
	if !changes {
		t.Skip()
	}
	between := t.Bool()
	if !between {
		// the last lines of the two sides
		for _, side := range []byte{'-', '+'} {
			for i := n - 1; i >= 0; i-- {
				if o := &script[i]; o.Kind == side || o.Kind == ' ' {
					if o.Kind == side || i == n-1 && side == '-' {
						if t.Bool() {
							o.Text = strings.TrimSuffix(o.Text, "\n")
						}
					}
					break
				}
			}
		}
	}
	h := &ref.Hunk{Body: script, OldPos: 1, NewPos: 1}
	h.Count()
	if h.OldN == 0 {
		h.OldPos = 0
	}
	if h.NewN == 0 {
		h.NewPos = 0
	}
	src := ref.OldText(script)
	if between {
		src = "before\n" + src + "after\n"
		h.OldPos, h.NewPos = 2, 2
		if h.OldN == 0 {
			h.OldPos = 1
		}
		if h.NewN == 0 {
			h.NewPos = 1
		}
	}
	near := []string{"", src + "\n", src + "x", src + "x\n", "x\n" + src, strings.ReplaceAll(src, "\n", "\r\n"), strings.ReplaceAll(src, "\n", "")}
	if src != "" {
		near = append(near, src[:len(src)-1], src[1:])
	}
	lines := ref.Lines(src)
	for i, l := range lines {
		a, z := strings.Join(lines[:i], ""), strings.Join(lines[i+1:], "")
		body := strings.TrimSuffix(l, "\n")
		for _, x := range []string{"", l + l, body, body + " \n", body + "\r\n", " " + l, strings.ToUpper(l), "\n", body + "\x00\n", body + "y" + l} {
			near = append(near, a+x+z)
		}
	}
	f := fileOf([]*ref.Hunk{h})
	if t.Bool() {
		f = parseOne(t, patchText([]*ref.Hunk{h}, 0, false))
	}
	other := engine.Pick(t, near)
	before := cloneFile(f)
	t.Desc(func() string {
		return fmt.Sprintf("%s on %s, %s and again", hunksString([]*ref.Hunk{h}), q(src), q(other))
	})
	t.State(hunksString([]*ref.Hunk{h}), src, other)
	wants := map[string]string{}
	for i, s := range []string{other, src, other, src} {
		t.Trace()
		got := describe(applyTo(s, f))
		if d := diffFiles(before, f); d != "" {
			t.Fail("mutated", "applying to %s changed the patch: %s", q(s), d)
		}
		if want, ok := wants[s]; ok && got != want {
			t.Fail("result", "application %d, to %s: %s, first %s", i+1, q(s), got, want)
		}
		wants[s] = got
	}
	t.Outcome(strings.SplitN(wants[other], " ", 2)[0])
}

func sortHunks(hs []*ref.Hunk) {
	for i := 1; i < len(hs); i++ {
		for j := i; j > 0 && hs[j].OldPos < hs[j-1].OldPos; j-- {
			hs[j], hs[j-1] = hs[j-1], hs[j]
		}
	}
}

func hunksOrder(hs []*ref.Hunk) string {
	var b strings.Builder
	for _, h := range hs {
		fmt.Fprint(&b, h.OldPos, " ")
	}
	return b.String()
}
