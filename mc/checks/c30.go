package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C30", Title: "hunks locate their lines in both files",
		Assumptions: []string{
			"line contents outside the enumerated alphabets are not explored",
			"git 2.43 and GNU diff, where present, stand for the tools; without them only the generated diffs are explored",
		},
		Scenarios: c30,
	})
}

// verifySides checks that the hunks of f, a diff from a to b, say where their
// lines are in both.
func verifySides(t *engine.T, a, b string, f *gitdiff.File) {
	t.Trace()
	la, lb := ref.Lines(a), ref.Lines(b)
	show := func() string { return fmt.Sprintf("old %s\nnew %s\n%s", q(a), q(b), q(f.String())) }
	oldAt, newAt := int64(0), int64(0)
	added, deleted := int64(0), int64(0)
	equal := func(what string, oldTo, newTo int64) {
		if oldTo < oldAt || newTo < newAt || oldTo > int64(len(la)) || newTo > int64(len(lb)) {
			t.Fail("range", "%s: lines %d..%d and %d..%d of files of %d and %d lines\n%s", what, oldAt, oldTo, newAt, newTo, len(la), len(lb), show())
		}
		if strings.Join(la[oldAt:oldTo], "") != strings.Join(lb[newAt:newTo], "") {
			t.Fail("outside", "%s: the lines differ\n%s", what, show())
		}
		oldAt, newAt = oldTo, newTo
	}
	for i, fr := range f.TextFragments {
		start := func(pos, n int64) int64 {
			if n == 0 { // the line before
				return pos
			}
			return pos - 1
		}
		equal(fmt.Sprintf("before hunk %d", i+1), start(fr.OldPosition, fr.OldLines), start(fr.NewPosition, fr.NewLines))
		oldEnd, newEnd := oldAt+fr.OldLines, newAt+fr.NewLines
		for j, ln := range fr.Lines {
			side := func(name string, in bool, lines []string, at *int64, end int64) {
				if !in {
					return
				}
				if *at >= end || *at >= int64(len(lines)) || lines[*at] != ln.Line {
					t.Fail(name+" line", "hunk %d line %d is not %s line %d\n%s", i+1, j+1, name, *at+1, show())
				}
				if ln.NoEOL() != !strings.HasSuffix(lines[*at], "\n") {
					t.Fail("newline", "hunk %d line %d: NoEOL is %v\n%s", i+1, j+1, ln.NoEOL(), show())
				}
				*at++
			}
			side("old", ln.Old(), la, &oldAt, oldEnd)
			side("new", ln.New(), lb, &newAt, newEnd)
			switch {
			case ln.Old() && ln.New():
				if ln.Op != gitdiff.OpContext || ln.String() != " "+ln.Line {
					t.Fail("op", "hunk %d line %d: context line %q\n%s", i+1, j+1, ln.String(), show())
				}
			case ln.Old():
				deleted++
				if ln.Op != gitdiff.OpDelete || ln.String() != "-"+ln.Line {
					t.Fail("op", "hunk %d line %d: deleted line %q\n%s", i+1, j+1, ln.String(), show())
				}
			case ln.New():
				added++
				if ln.Op != gitdiff.OpAdd || ln.String() != "+"+ln.Line {
					t.Fail("op", "hunk %d line %d: added line %q\n%s", i+1, j+1, ln.String(), show())
				}
			default:
				t.Fail("op", "hunk %d line %d is on no side\n%s", i+1, j+1, show())
			}
		}
		if oldAt != oldEnd || newAt != newEnd {
			t.Fail("counts", "hunk %d ends at %d and %d, its header says %d and %d\n%s", i+1, oldAt, newAt, oldEnd, newEnd, show())
		}
	}
	equal("after the last hunk", int64(len(la)), int64(len(lb)))
	sumA, sumD := int64(0), int64(0)
	for _, fr := range f.TextFragments {
		sumA += fr.LinesAdded
		sumD += fr.LinesDeleted
	}
	if sumA != added || sumD != deleted || sumA-sumD != int64(len(lb)-len(la)) {
		t.Fail("sums", "%d lines added and %d deleted, want %d and %d\n%s", sumA, sumD, added, deleted, show())
	}
	t.Outcome(fmt.Sprintf("%d hunks", min(len(f.TextFragments), 3)))
}

func c30(tier string) []engine.Scenario {
	n2, n1 := sel(tier, 5, 7), sel(tier, 7, 9)
	scripts := func(name string, n int, bodies []string) engine.Scenario {
		return engine.Scenario{
			Name:  name,
			Bound: fmt.Sprintf("all edit scripts of <=%d ops over the line contents %q, all final-newline choices, all hunk partitions, git and traditional headers, omitted counts of one", n, bodies),
			Run: func(t *engine.T) {
				s := chooseScript(t, n, bodies)
				for _, o := range s {
					if o.Text == "" { // no line
						t.Skip()
					}
				}
				hs := chooseGrouping(t, s)
				a, b := ref.OldText(s), ref.NewText(s)
				short := t.Bool()
				style := 0
				if short {
					style = 2
				}
				t.State(a, b, hunksString(hs))
				t.Desc(func() string { return fmt.Sprintf("A=%s B=%s hunks=%s", q(a), q(b), hunksString(hs)) })
				verifySides(t, a, b, parseOne(t, patchText(hs, style, short)))
			},
		}
	}
	ss := []engine.Scenario{
		scripts("scripts", n2, []string{"a", "b"}),
		scripts("scripts with one content", n1, []string{"x"}),
		scripts("scripts with blank lines", sel(tier, 4, 6), []string{"", " ", "-"}),
		{
			Name:  "odd lines",
			Bound: fmt.Sprintf("%d line contents in 4 layouts, contexts 0..2, all final-newline choices", len(oddBodies)),
			Run: func(t *engine.T) {
				x, y := engine.Pick(t, oddBodies)+"\n", "z\n"
				s := append([]ref.Op(nil), [][]ref.Op{
					{{Kind: ' ', Text: x}, {Kind: '-', Text: y}, {Kind: '+', Text: x}, {Kind: ' ', Text: x}},
					{{Kind: '-', Text: x}, {Kind: '+', Text: x + ""}, {Kind: '+', Text: y}},
					{{Kind: ' ', Text: y}, {Kind: ' ', Text: x}, {Kind: ' ', Text: y}, {Kind: '-', Text: x}, {Kind: ' ', Text: y}, {Kind: '+', Text: x}},
					{{Kind: '+', Text: x}, {Kind: '+', Text: x}},
				}[t.Choose(4)]...)
				chooseEOL(t, s)
				for _, o := range s {
					if o.Text == "" {
						t.Skip()
					}
				}
				hs := ref.ContextGroup(s, t.Choose(3))
				if len(hs) == 0 {
					t.Skip()
				}
				a, b := ref.OldText(s), ref.NewText(s)
				t.State(a, b, hunksString(hs))
				t.Desc(func() string { return fmt.Sprintf("A=%s B=%s hunks=%s", q(a), q(b), hunksString(hs)) })
				verifySides(t, a, b, parseOne(t, patchText(hs, 0, true)))
			},
		},
		{
			Name:  "far positions",
			Bound: "two edits (insert, delete, replace, grow) at every pair of the lines 1, 2, 9..11, 99..101, 999..1001 and the last of a file of 1 to 1100 lines, contexts 0..3",
			Run: func(t *engine.T) {
				at := []int{0, 1, 8, 9, 10, 98, 99, 100, 998, 999, 1000}
				n := engine.Pick(t, []int{1, 2, 10, 11, 100, 1001, 1100})
				i := engine.Pick(t, at)
				j := engine.Pick(t, append(at, n-1))
				if i >= j || j >= n {
					t.Skip()
				}
				ki, kj := t.Choose(4), t.Choose(4)
				var s []ref.Op
				for x := 0; x < n; x++ {
					k := -1
					if x == i {
						k = ki
					} else if x == j {
						k = kj
					}
					l := fmt.Sprintf("line %d\n", x)
					if k == 0 || k == 3 {
						s = append(s, ref.Op{Kind: '+', Text: "new\n"})
					}
					if k == 3 {
						for m := 0; m < 9; m++ {
							s = append(s, ref.Op{Kind: '+', Text: "more\n"})
						}
					}
					if k == 1 || k == 2 {
						s = append(s, ref.Op{Kind: '-', Text: l})
					} else {
						s = append(s, ref.Op{Kind: ' ', Text: l})
					}
					if k == 2 {
						s = append(s, ref.Op{Kind: '+', Text: "new\n"})
					}
				}
				hs := ref.ContextGroup(s, t.Choose(4))
				a, b := ref.OldText(s), ref.NewText(s)
				t.State(fmt.Sprint(n, i, j, ki, kj), hunksString(hs))
				t.Desc(func() string { return fmt.Sprintf("%d lines, edits %d at %d and %d at %d", n, ki, i, kj, j) })
				verifySides(t, a, b, parseOne(t, patchText(hs, 0, true)))
			},
		},
	}
	// diffs by git
	add := func(name, bound string, gen func() []treeChange, opts ...[]string) {
		var r *gitRepo
		var shown []string
		for _, o := range opts {
			shown = append(shown, strings.Join(o, " "))
		}
		ss = append(ss, engine.Scenario{
			Name: name, Bound: bound + "; git diff-tree -p with each of: " + strings.Join(shown, " | "),
			Setup:    func() { r = newRepo(gen()) },
			Teardown: func() { r.close(); r = nil },
			Run: func(t *engine.T) {
				c, i, args := chooseChange(t, r, opts)
				_, patch := r.diff(i, args)
				t.Desc(func() string { return fmt.Sprintf("git diff %v of %v\n%s", args, c, q(patch)) })
				t.State(patch)
				files, _, err := gitdiff.Parse(strings.NewReader(patch))
				if err != nil || len(files) != 1 {
					t.Fail("parse", "%d files, error %v\n%s", len(files), err, q(patch))
				}
				verifySides(t, c.old["f"].data, c.new["f"].data, files[0])
			},
		})
	}
	o := func(s ...string) []string { return s }
	lines := sel(tier, 3, 4)
	add("git diffs of short texts", fmt.Sprintf("all pairs of texts of up to %d lines from \"a\", \"b\", with and without final newlines", lines),
		func() []treeChange { return pairs("f", lineTexts([]string{"a", "b"}, lines)) }, o("-U0"), o("-U1"), o("-U3", "--patience"))
	sites, kinds := sel(tier, 4, 5), sel(tier, 4, 5)
	add("git diffs with several hunks", fmt.Sprintf("a text of 40 lines with each of %d sites kept or edited in %d ways, with and without function lines", sites, kinds-1),
		func() []treeChange { return siteChanges(40, sites, kinds) }, o("-U0"), o("-U2"), o("-U5", "--inter-hunk-context=3"), o("--function-context"))
	return ss
}
