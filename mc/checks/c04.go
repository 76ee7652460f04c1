package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// requireApplyError checks the shape shared by all apply errors.
func requireApplyError(t *engine.T, err error, conflict bool, what string) *gitdiff.ApplyError {
	if err == nil {
		t.Fail("accepted", "%s: expected an error, got success", what)
	}
	ae, ok := err.(*gitdiff.ApplyError)
	if !ok {
		t.Fail("type", "%s: error %v is a %T, not an *ApplyError", what, err, err)
	}
	if ae == nil {
		t.Fail("type", "%s: nil *ApplyError returned as an error", what)
	}
	if errors.Unwrap(err) == nil {
		t.Fail("cause", "%s: error %v has no cause", what, err)
	}
	if isConflict(err) != conflict {
		t.Fail("conflict-class", "%s: error %q matches Conflict: %v, want %v", what, err, !conflict, conflict)
	}
	var c *gitdiff.Conflict
	if errors.As(err, &c) != conflict {
		t.Fail("conflict-class", "%s: error %q holds a *Conflict: %v, want %v", what, err, !conflict, conflict)
	}
	if s, cause := err.Error(), errors.Unwrap(err).Error(); !strings.Contains(s, cause) || s == "" {
		t.Fail("text", "%s: error %q does not name its cause %q", what, s, cause)
	}
	if errors.Unwrap(err) == io.EOF || errors.Is(err, errForeign) {
		t.Fail("class", "%s: error %q matches io.EOF or an error of somebody else", what, err)
	}
	if conflict {
		if !errors.Is(err, c) {
			t.Fail("conflict-class", "%s: error %q does not match its own conflict", what, err)
		}
		for _, o := range otherConflicts() {
			if same := o.Error() == c.Error(); errors.Is(err, o) != same {
				t.Fail("conflict-class", "%s: error %q matches the conflict %q: %v", what, err, o, !same)
			}
		}
	}
	return ae
}

var errForeign = errors.New("somebody else")

// otherConflicts are conflicts with different reasons.
var otherConflicts = sync.OnceValue(func() (cs []*gitdiff.Conflict) {
	for _, patch := range []string{
		"--- f\n+++ f\n@@ -1 +1 @@\n-x\n+y\n",
		"--- f\n+++ f\n@@ -9 +9 @@\n-x\n+y\n",
		"--- /dev/null\n+++ f\n@@ -0,0 +1 @@\n+y\n",
		"--- f\n+++ f\n@@ -1 +1 @@\n-a\n+y\n@@ -1 +1 @@\n-a\n+y\n",
		"--- f\n+++ /dev/null\n@@ -1 +0,0 @@\n-a\n",
	} {
		files, _, err := gitdiff.Parse(strings.NewReader(patch))
		if err != nil || len(files) != 1 {
			continue
		}
		var c *gitdiff.Conflict
		if errors.As(gitdiff.Apply(io.Discard, strings.NewReader("a\nb\n"), files[0]), &c) && c != nil {
			cs = append(cs, c)
		}
	}
	return
})

// badFragments lists fragments Validate rejects.
func badFragments() (frs []*gitdiff.TextFragment, names []string) {
	base := func() *gitdiff.TextFragment {
		h := &ref.Hunk{OldPos: 2, NewPos: 2, Body: []ref.Op{{Kind: ' ', Text: "l1\n"}, {Kind: '-', Text: "l2\n"}, {Kind: '+', Text: "n\n"}, {Kind: ' ', Text: "l3\n"}}}
		h.Count()
		return fragmentOf(h)
	}
	add := func(n string, f func(*gitdiff.TextFragment)) {
		b := base()
		f(b)
		frs, names = append(frs, b), append(names, n)
	}
	for _, d := range []int64{-1, 1, 2, -2, 1 << 40} {
		d := d
		add(fmt.Sprint("OldLines", d), func(f *gitdiff.TextFragment) { f.OldLines += d })
		add(fmt.Sprint("NewLines", d), func(f *gitdiff.TextFragment) { f.NewLines += d })
		add(fmt.Sprint("LinesAdded", d), func(f *gitdiff.TextFragment) { f.LinesAdded += d })
		add(fmt.Sprint("LinesDeleted", d), func(f *gitdiff.TextFragment) { f.LinesDeleted += d })
		add(fmt.Sprint("LeadingContext", d), func(f *gitdiff.TextFragment) { f.LeadingContext += d })
		add(fmt.Sprint("TrailingContext", d), func(f *gitdiff.TextFragment) { f.TrailingContext += d })
	}
	add("op", func(f *gitdiff.TextFragment) { f.Lines[1].Op = 3 })
	add("op-1", func(f *gitdiff.TextFragment) { f.Lines[1].Op = -1 })
	add("zero position", func(f *gitdiff.TextFragment) { f.OldPosition = 0 })
	add("negative old position", func(f *gitdiff.TextFragment) { f.OldPosition = -1 })
	add("negative new position", func(f *gitdiff.TextFragment) { f.NewPosition = -1 })
	add("empty", func(f *gitdiff.TextFragment) { f.Lines = nil })
	frs, names = append(frs, nil), append(names, "nil")
	return
}

// corruptBinaries lists binary fragments that are corrupt (conflict=false) or
// do not match the source "0123456789" (conflict=true).
type binCase struct {
	name     string
	f        *gitdiff.BinaryFragment
	conflict bool
	opts     []gitdiff.ApplyOption
}

func binFrag(m gitdiff.BinaryPatchMethod, content []byte) *gitdiff.BinaryFragment {
	return &gitdiff.BinaryFragment{Method: m, Size: int64(len(content)), RawData: deflate(content)}
}

func deltaOf(srcSize, dstSize int64, instr ...byte) []byte {
	d := append(ref.DeltaSize(srcSize), ref.DeltaSize(dstSize)...)
	return append(d, instr...)
}

func badBinaries() []binCase {
	lit, del := gitdiff.BinaryPatchLiteral, gitdiff.BinaryPatchDelta
	cut := func(f *gitdiff.BinaryFragment, n int) *gitdiff.BinaryFragment {
		f.RawData = f.RawData[:len(f.RawData)-n]
		return f
	}
	flip := func(f *gitdiff.BinaryFragment, i int) *gitdiff.BinaryFragment {
		if i < 0 {
			i += len(f.RawData)
		}
		f.RawData[i] ^= 0x55
		return f
	}
	size := func(f *gitdiff.BinaryFragment, d int64) *gitdiff.BinaryFragment { f.Size += d; return f }
	ok := deltaOf(10, 4, 0x90, 4)
	return []binCase{
		{"literal truncated", cut(binFrag(lit, []byte("hello")), 3), false, nil},
		{"literal empty", &gitdiff.BinaryFragment{Method: lit, Size: 3}, false, nil},
		{"literal header", flip(binFrag(lit, []byte("hello")), 0), false, nil},
		{"literal checksum", flip(binFrag(lit, []byte("hello")), -1), false, nil},
		{"literal short", size(binFrag(lit, []byte("hello")), 1), false, nil},
		{"literal long", size(binFrag(lit, []byte("hello")), -1), false, nil},
		{"delta truncated", cut(binFrag(del, ok), 3), false, nil},
		{"delta checksum", flip(binFrag(del, ok), -1), false, nil},
		{"delta size", size(binFrag(del, ok), 1), false, nil},
		{"delta source size", binFrag(del, deltaOf(9, 4, 0x90, 4)), true, nil},
		{"delta source size 11", binFrag(del, deltaOf(11, 4, 0x90, 4)), true, nil},
		{"delta source size 0", binFrag(del, deltaOf(0, 1, 1, 'x')), true, nil},
		{"delta opcode 0", binFrag(del, deltaOf(10, 4, 0)), false, nil},
		{"delta copy outside", binFrag(del, deltaOf(10, 4, 0x91, 8, 4)), false, nil},
		{"delta copy after end", binFrag(del, deltaOf(10, 4, 0x91, 200, 4)), false, nil},
		{"delta copy incomplete", binFrag(del, deltaOf(10, 4, 0x91, 8)), false, nil},
		{"delta insert incomplete", binFrag(del, deltaOf(10, 4, 4, 'x')), false, nil},
		{"delta too little", binFrag(del, deltaOf(10, 5, 0x90, 4)), false, nil},
		{"delta too much", binFrag(del, deltaOf(10, 3, 0x90, 4)), false, nil},
		{"delta no headers", binFrag(del, nil), false, nil},
		{"delta one header", binFrag(del, []byte{10}), false, nil},
		{"delta open header", binFrag(del, []byte{10, 0x80}), false, nil},
		{"method 2", binFrag(2, []byte("x")), false, nil},
		{"method -1", binFrag(-1, []byte("x")), false, nil},
		{"literal limit", binFrag(lit, []byte("hello")), false, []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(4)}},
		{"delta limit", binFrag(del, ok), false, []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(3)}},
		{"delta result limit", binFrag(del, deltaOf(10, 20, 0x90, 10, 0x90, 10)), false, []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(15)}},
	}
}

func errorScenarios(tier string) []engine.Scenario {
	frs, names := badFragments()
	bins := badBinaries()
	return []engine.Scenario{
		{
			Name:  "invalid-fragments",
			Bound: fmt.Sprintf("%d invalid fragments in every position among 0..2 valid ones, through Apply and through an applier", len(frs)),
			Run: func(t *engine.T) {
				i := t.Choose(len(frs))
				before := t.Choose(2)
				through := t.Choose(2)
				t.Desc(func() string { return names[i] })
				t.State(fmt.Sprint("inv", i, before, through))
				t.Trace()
				src := numbered(9)
				good, _ := hunkAt(0, 0)
				if through == 0 {
					if frs[i] == nil {
						t.Skip()
					}
					f := &gitdiff.File{OldName: "f", NewName: "f"}
					f.TextFragments = append(f.TextFragments, frs[i])
					n := 1
					if before == 1 && frs[i].OldPosition > 1 {
						f.TextFragments = append(f.TextFragments, fragmentOf(good))
						n = 2
					} else if before == 1 {
						t.Skip()
					}
					_, err := applyTo(src, f)
					ae := requireApplyError(t, err, false, names[i])
					if ae.Fragment != n {
						t.Fail("fragment", "%s: Fragment %d, want %d", names[i], ae.Fragment, n)
					}
					return
				}
				var dst bytes.Buffer
				a := gitdiff.NewTextApplier(&dst, strings.NewReader(src))
				if before == 1 {
					if err := a.ApplyFragment(fragmentOf(good)); err != nil {
						t.Fail("refused", "valid fragment refused: %v", err)
					}
				}
				requireApplyError(t, a.ApplyFragment(frs[i]), false, names[i])
			},
		},
		{
			Name:  "binary-errors",
			Bound: fmt.Sprintf("%d corrupt, mismatching or over-limit binary fragments, through Apply and through an applier", len(bins)),
			Run: func(t *engine.T) {
				c := bins[t.Choose(len(bins))]
				t.Desc(func() string { return c.name })
				t.State("bin", c.name)
				t.Trace()
				if t.Bool() {
					f := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: c.f}
					_, err := applyTo("0123456789", f, c.opts...)
					requireApplyError(t, err, c.conflict, c.name)
				} else {
					var dst bytes.Buffer
					a := gitdiff.NewBinaryApplier(&dst, strings.NewReader("0123456789"), c.opts...)
					requireApplyError(t, a.ApplyFragment(c.f), c.conflict, c.name)
				}
				t.Outcome(fmt.Sprint("conflict=", c.conflict))
			},
		},
		{
			Name:  "misuse",
			Bound: "every misuse of Apply and the appliers: closed appliers, a second binary fragment, nil fragments, files that mix text and binary content",
			Run: func(t *engine.T) {
				h, _ := hunkAt(0, 0)
				tf := fragmentOf(h)
				bf := binFrag(gitdiff.BinaryPatchLiteral, []byte("x"))
				src := strings.NewReader(numbered(3))
				var dst bytes.Buffer
				var err error
				what := t.Choose(9)
				switch what {
				case 0:
					a := gitdiff.NewTextApplier(&dst, src)
					a.Close()
					err = a.ApplyFragment(tf)
				case 1:
					a := gitdiff.NewBinaryApplier(&dst, src)
					a.Close()
					err = a.ApplyFragment(bf)
				case 2:
					a := gitdiff.NewBinaryApplier(&dst, src)
					a.ApplyFragment(bf)
					err = a.ApplyFragment(bf)
				case 3:
					err = gitdiff.NewBinaryApplier(&dst, src).ApplyFragment(nil)
				case 4:
					err = gitdiff.NewTextApplier(&dst, src).ApplyFragment(nil)
				case 5:
					err = gitdiff.Apply(&dst, src, &gitdiff.File{IsBinary: true, BinaryFragment: bf, TextFragments: []*gitdiff.TextFragment{tf}})
				case 6:
					err = gitdiff.Apply(&dst, src, &gitdiff.File{IsBinary: true})
				case 7:
					err = gitdiff.Apply(&dst, src, &gitdiff.File{BinaryFragment: bf})
				case 8:
					err = gitdiff.Apply(&dst, src, &gitdiff.File{TextFragments: []*gitdiff.TextFragment{nil}})
				}
				t.State(fmt.Sprint("misuse", what))
				t.Trace()
				requireApplyError(t, err, false, fmt.Sprint("misuse ", what))
			},
		},
		{
			Name:  "io-failures",
			Bound: "every read or write of Apply over 8 kinds of patch fails in turn (3 error values): an *ApplyError that holds the failure and is not a conflict",
			Run: func(t *engine.T) {
				uf, us, un := faultFiles()
				i := t.Choose(len(uf))
				kind := t.Choose(3)
				clean := &env{failAt: -1}
				gitdiff.Apply(&envWriter{e: clean}, &envSource{e: clean, data: us[i]}, uf[i])
				e := &env{failAt: t.Choose(clean.calls), kind: kind}
				t.Desc(func() string { return fmt.Sprint(un[i], " call ", e.failAt, e.log) })
				t.State(fmt.Sprint("io", i, kind, e.failAt))
				t.Trace()
				err := gitdiff.Apply(&envWriter{e: e}, &envSource{e: e, data: us[i]}, uf[i])
				requireApplyError(t, err, false, un[i])
				if !hasFault(err) {
					t.Fail("cause", "%s: %v does not hold the failure (%v)", un[i], err, e.log)
				}
			},
		},
	}
}

func init() {
	register(&Check{
		ID: "C04", Title: "apply errors",
		Assumptions: []string{"for hunks that overlap or create over existing content no line is defined, only class and hunk number are checked"},
		Scenarios: func(tier string) []engine.Scenario {
			return append(textMatchScenarios(tier, true), errorScenarios(tier)...)
		},
	})
}
