package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C21", Title: "Validate accepts exactly consistent fragments",
		Assumptions: []string{"context lines before the first change (all of them if there is none) are leading context"},
		Scenarios:   c21,
	})
}

// consistent is the specification of Validate.
func consistent(f *gitdiff.TextFragment) (bool, string) {
	if f == nil {
		return false, "nil"
	}
	var ops []byte
	for _, l := range f.Lines {
		k := kindOf(l.Op)
		if k == '?' {
			return false, "operation"
		}
		ops = append(ops, k)
	}
	count := func(set string) (n int64) {
		for _, k := range ops {
			if strings.IndexByte(set, k) >= 0 {
				n++
			}
		}
		return
	}
	body := string(ops)
	lead := int64(len(body) - len(strings.TrimLeft(body, " ")))
	trail := int64(len(body) - len(strings.TrimRight(body, " ")))
	if lead == int64(len(body)) {
		trail = 0
	}
	switch {
	case f.OldLines != count(" -"):
		return false, "old lines"
	case f.NewLines != count(" +"):
		return false, "new lines"
	case f.LinesAdded != count("+"):
		return false, "added"
	case f.LinesDeleted != count("-"):
		return false, "deleted"
	case f.LeadingContext != lead:
		return false, "leading"
	case f.TrailingContext != trail:
		return false, "trailing"
	case f.OldPosition < 0 || f.NewPosition < 0:
		return false, "negative position"
	case f.OldPosition == 0 && f.OldLines != 0:
		return false, "position zero"
	}
	return true, ""
}

func verifyValidate(t *engine.T, f *gitdiff.TextFragment, apply bool) {
	t.Trace()
	want, why := consistent(f)
	before := cloneText(f)
	err := f.Validate()
	if want {
		t.Outcome("consistent")
	} else {
		t.Outcome("inconsistent: " + why)
	}
	if (err == nil) != want {
		t.Fail("verdict", "Validate says %v, but consistent=%v (%s)", err, want, why)
	}
	if d := diffFiles(&gitdiff.File{TextFragments: []*gitdiff.TextFragment{f}}, &gitdiff.File{TextFragments: []*gitdiff.TextFragment{before}}); d != "" {
		t.Fail("modified", "Validate changed the fragment: %s", d)
	}
	if want || !apply {
		return
	}
	src := "l1\nl2\nl3\nl4\n"
	check := func(what string, err error, out string) {
		if err == nil {
			t.Fail("applied", "%s: inconsistent fragment (%s) applied", what, why)
		}
		if isConflict(err) {
			t.Fail("conflict", "%s: inconsistent fragment (%s) reported as a conflict: %v", what, why, err)
		}
		var ae *gitdiff.ApplyError
		if !errors.As(err, &ae) {
			t.Fail("type", "%s: error is %T", what, err)
		}
		if out != "" {
			t.Fail("written", "%s: inconsistent fragment (%s) wrote %q", what, why, out)
		}
	}
	for _, s := range []string{src, ""} {
		var b bytes.Buffer
		a := gitdiff.NewTextApplier(&b, strings.NewReader(s))
		check("ApplyFragment", a.ApplyFragment(f), b.String())
		out, err := applyTo(s, &gitdiff.File{TextFragments: []*gitdiff.TextFragment{f}})
		check("Apply", err, out)
	}
	// after an applied fragment nothing more may be written
	var b bytes.Buffer
	a := gitdiff.NewTextApplier(&b, strings.NewReader(src))
	ok := &gitdiff.TextFragment{OldPosition: 1, OldLines: 1, NewPosition: 1, NewLines: 0, LinesDeleted: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "l1\n"}}}
	if err := a.ApplyFragment(ok); err != nil {
		t.Fail("good", "valid fragment refused: %v", err)
	}
	n := b.Len()
	err = a.ApplyFragment(f)
	check("second ApplyFragment", err, b.String()[n:])
}

func c21(tier string) []engine.Scenario {
	type field struct {
		name string
		p    func(f *gitdiff.TextFragment) *int64
	}
	fields := []field{
		{"OldPosition", func(f *gitdiff.TextFragment) *int64 { return &f.OldPosition }},
		{"OldLines", func(f *gitdiff.TextFragment) *int64 { return &f.OldLines }},
		{"NewPosition", func(f *gitdiff.TextFragment) *int64 { return &f.NewPosition }},
		{"NewLines", func(f *gitdiff.TextFragment) *int64 { return &f.NewLines }},
		{"LinesAdded", func(f *gitdiff.TextFragment) *int64 { return &f.LinesAdded }},
		{"LinesDeleted", func(f *gitdiff.TextFragment) *int64 { return &f.LinesDeleted }},
		{"LeadingContext", func(f *gitdiff.TextFragment) *int64 { return &f.LeadingContext }},
		{"TrailingContext", func(f *gitdiff.TextFragment) *int64 { return &f.TrailingContext }},
	}
	show := func(f *gitdiff.TextFragment) func() string {
		return func() string { return fmt.Sprintf("%+v", *f) }
	}
	build := func(t *engine.T, maxLines int) *gitdiff.TextFragment {
		ops := kindSequence(t, maxLines)
		return fragmentOf(hunkOf(ops, 2, 2))
	}
	var ss []engine.Scenario
	n1 := sel(tier, 7, 10)
	ss = append(ss, engine.Scenario{
		Name:  "one wrong field",
		Bound: fmt.Sprintf("all kind sequences of 0..%d lines x each of 8 numeric fields x 13 values, with application of every inconsistent fragment", n1),
		Run: func(t *engine.T) {
			f := build(t, n1)
			k := t.Choose(len(fields) + 1)
			if k > 0 {
				p := fields[k-1].p(f)
				vals := []int64{*p - 1, *p + 1, 0, 1, 2, 3, -1, -*p, *p * 2, int64(len(f.Lines)), math.MaxInt64, math.MinInt64, 1<<32 + *p}
				*p = engine.Pick(t, vals)
			}
			t.Desc(show(f))
			t.State(fmt.Sprintf("%+v", *f))
			verifyValidate(t, f, true)
		},
	})
	n2 := sel(tier, 4, 6)
	ss = append(ss, engine.Scenario{
		Name:  "two or three wrong fields",
		Bound: fmt.Sprintf("all kind sequences of 0..%d lines x every pair and triple of fields x deltas -1, +1 (errors that could cancel out)", n2),
		Run: func(t *engine.T) {
			f := build(t, n2)
			i := t.Choose(len(fields))
			j := t.Choose(len(fields))
			k := t.Choose(len(fields) + 1)
			if j <= i || k < len(fields) && k <= j {
				t.Skip()
			}
			for _, x := range []int{i, j, k} {
				if x < len(fields) {
					*fields[x].p(f) += int64(2*t.Choose(2) - 1)
				}
			}
			t.Desc(show(f))
			t.State(fmt.Sprintf("%+v", *f))
			verifyValidate(t, f, n2 <= 4)
		},
	})
	n3 := sel(tier, 4, 5)
	ss = append(ss, engine.Scenario{
		Name:  "every small assignment of the counts",
		Bound: fmt.Sprintf("all kind sequences of 0..%d lines x all values 0..%d of the six counts", n3, n3),
		Run: func(t *engine.T) {
			f := build(t, n3)
			for _, k := range []int{1, 3, 4, 5, 6, 7} {
				*fields[k].p(f) = int64(t.Choose(n3 + 1))
			}
			t.Desc(show(f))
			verifyValidate(t, f, false)
		},
	})
	n4 := sel(tier, 5, 7)
	ss = append(ss, engine.Scenario{
		Name:  "operations",
		Bound: fmt.Sprintf("all sequences of 0..%d lines with operations context, delete, add, 3, -1, 256 and extreme values, counts as if unknown ones were absent or context", n4),
		Run: func(t *engine.T) {
			f := &gitdiff.TextFragment{OldPosition: 2, NewPosition: 2}
			ops := []gitdiff.LineOp{gitdiff.OpContext, gitdiff.OpDelete, gitdiff.OpAdd, 3, -1, 256, math.MaxInt, math.MinInt, ' ', '+', '-'}
			n := t.Choose(n4 + 1)
			unknown := 0
			for i := 0; i < n; i++ {
				// at most two unknown operations
				m := len(ops)
				if unknown == 2 {
					m = 3
				}
				op := ops[t.Choose(m)]
				if kindOf(op) == '?' {
					unknown++
				}
				f.Lines = append(f.Lines, gitdiff.Line{Op: op, Line: fmt.Sprintf("l%d\n", i+2)})
			}
			as := gitdiff.OpAdd
			if unknown > 0 {
				as = gitdiff.LineOp(t.Choose(4)) // 3: not counted
			}
			changed := false
			for _, l := range f.Lines {
				op := l.Op
				if kindOf(op) == '?' {
					op = as
				}
				switch op {
				case gitdiff.OpContext:
					f.OldLines++
					f.NewLines++
					if changed {
						f.TrailingContext++
					} else {
						f.LeadingContext++
					}
				case gitdiff.OpDelete:
					f.OldLines++
					f.LinesDeleted++
					changed, f.TrailingContext = true, 0
				case gitdiff.OpAdd:
					f.NewLines++
					f.LinesAdded++
					changed, f.TrailingContext = true, 0
				}
			}
			t.Desc(show(f))
			t.State(fmt.Sprintf("%+v", *f))
			verifyValidate(t, f, true)
		},
	})
	n5 := sel(tier, 5, 7)
	pos := []int64{0, 1, 2, -1, -2, math.MinInt64, math.MaxInt64}
	ss = append(ss, engine.Scenario{
		Name:  "positions",
		Bound: fmt.Sprintf("all kind sequences of 0..%d lines x %d x %d positions; the nil fragment", n5, len(pos), len(pos)),
		Run: func(t *engine.T) {
			if t.Bool() {
				verifyValidate(t, nil, true)
				return
			}
			f := build(t, n5)
			f.OldPosition, f.NewPosition = engine.Pick(t, pos), engine.Pick(t, pos)
			t.Desc(show(f))
			t.State(fmt.Sprintf("%+v", *f))
			verifyValidate(t, f, true)
		},
	})
	cases := []string{"f", "f\n", "", "\n", "x\ny\n"}
	ss = append(ss, engine.Scenario{
		Name:  "line content is irrelevant",
		Bound: "up to 3 lines with any of 5 texts (with, without and with several newlines), every comment state, large line counts",
		Run: func(t *engine.T) {
			ops := kindSequence(t, 3)
			f := fragmentOf(hunkOf(ops, 2, 2))
			for i := range f.Lines {
				f.Lines[i].Line = engine.Pick(t, cases)
			}
			f.Comment = engine.Pick(t, []string{"", "c", "\n"})
			t.Desc(show(f))
			verifyValidate(t, f, true)
		},
	})
	sizes := boundaries(4, sel(tier, 14, 17))
	ss = append(ss, engine.Scenario{
		Name:  "many lines",
		Bound: fmt.Sprintf("%d line counts, three shapes, each count field off by -1, 0, +1", len(sizes)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, sizes)
			f := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1}
			shape := t.Choose(3)
			for i := 0; i < n; i++ {
				op := gitdiff.OpContext
				if shape == 0 && i == 0 || shape == 1 && i == n-1 || shape == 2 {
					op = gitdiff.OpAdd
				}
				f.Lines = append(f.Lines, gitdiff.Line{Op: op, Line: "x\n"})
			}
			N := int64(n)
			switch shape {
			case 0:
				f.OldLines, f.NewLines, f.LinesAdded, f.TrailingContext = N-1, N, 1, N-1
			case 1:
				f.OldLines, f.NewLines, f.LinesAdded, f.LeadingContext = N-1, N, 1, N-1
			case 2:
				f.NewLines, f.LinesAdded = N, N
			}
			k := t.Choose(7)
			d := int64(0)
			if k > 0 {
				d = int64(2*t.Choose(2) - 1)
				*fields[[]int{1, 3, 4, 5, 6, 7}[k-1]].p(f) += d
			}
			t.Desc(func() string { return fmt.Sprintf("n=%d shape=%d field=%d delta=%d", n, shape, k, d) })
			verifyValidate(t, f, false)
		},
	})
	return ss
}
