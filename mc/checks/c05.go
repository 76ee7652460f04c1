package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// lifecycle menu for text appliers. Line k of the source is "l<k>\n".
type textAction struct {
	name string
	h    *ref.Hunk
	f    *gitdiff.TextFragment
	// free: if the fragment is refused, what has been written of it is not
	// specified (it was refused after changed lines were reached).
	free bool
	bad  bool // Validate rejects it
}

func textActions(n int, tier string) []textAction {
	var as []textAction
	add := func(name string, pos int64, free bool, ops ...string) {
		h := &ref.Hunk{OldPos: pos, NewPos: pos}
		for _, o := range ops {
			h.Body = append(h.Body, ref.Op{Kind: o[0], Text: o[1:] + "\n"})
		}
		h.Count()
		if h.NewN > 0 && h.NewPos == 0 {
			h.NewPos = 1
		}
		as = append(as, textAction{name: name, h: h, f: fragmentOf(h), free: free})
	}
	add("replace l0", 1, false, "-l0", "+n0")
	add("insert before l2", 2, false, " l1", "+n1", " l2")
	add("insert after l2, no context", 3, false, "+n2")
	add("delete l3", 4, false, "-l3")
	add("replace l4..l5", 5, false, "-l4", "+n4", "-l5", "+n5")
	add("mismatch on first line", 3, false, "-x", "+n")
	add("mismatch after context", 2, false, " l1", " x", "+n")
	add("mismatch after a change", 2, true, "-l1", "+n1", "-x")
	add("past the end", int64(n)+2, false, "-l", "+n")
	add("insert past the end", int64(n)+3, false, "+n")
	add("create", 0, false, "+n")
	add("overlong", int64(n), false, "-l"+fmt.Sprint(n-1), "-more")
	inv := func(name string, pos int64, m func(*gitdiff.TextFragment)) {
		h := &ref.Hunk{OldPos: pos, NewPos: pos, Body: []ref.Op{{Kind: '-', Text: "l4\n"}, {Kind: '+', Text: "n4\n"}}}
		h.Count()
		f := fragmentOf(h)
		m(f)
		as = append(as, textAction{name: name, h: h, f: f, bad: true})
	}
	inv("miscounted", 5, func(f *gitdiff.TextFragment) { f.OldLines++ })
	inv("miscounted added", 5, func(f *gitdiff.TextFragment) { f.LinesAdded++ })
	as = append(as, textAction{name: "nil", bad: true})
	return as
}

func init() {
	register(&Check{
		ID: "C05", Title: "applier lifecycle",
		Assumptions: []string{"what has been written of a fragment refused after its first changed line is not specified"},
		Scenarios: func(tier string) []engine.Scenario {
			depth := sel(tier, 4, 5)
			long := numbered(9000)
			return []engine.Scenario{
				{
					Name:  "text",
					Bound: fmt.Sprintf("every sequence of <=%d ApplyFragment/Close calls from 15 fragments (valid, mismatching, overlapping, too long, invalid, nil) over sources of 0, 6, 7 and 70 lines, with and without final newline, as io.ReaderAt or with line access", depth),
					Run: func(t *engine.T) {
						lines := Pick(t, []int{6, 7, 0, 70})
						src := numbered(lines)
						if lines == 7 {
							src = strings.TrimSuffix(src, "\n")
						}
						as := textActions(max(lines, 6), tier)
						w := &envWriter{}
						var a *gitdiff.TextApplier
						if t.Bool() {
							a = gitdiff.NewTextApplier(w, &envLineSource{envSource{data: src}, ref.Lines(src)})
						} else {
							a = gitdiff.NewTextApplier(w, strings.NewReader(src))
						}
						d := depth
						if lines == 70 || lines == 0 {
							d--
						}
						runTextLifecycle(t, a, w, src, as, d)
					},
				},
				{
					Name:  "failing endpoints",
					Bound: fmt.Sprintf("every sequence of <=%d ApplyFragment/Close calls from 4 text or 3 binary fragments where one of the first %d reads or writes fails, for a moment or for good: after Close nothing is written or accepted, and a binary applier takes one fragment", depth+1, sel(tier, 12, 24)),
					Run: func(t *engine.T) {
						runFailingLifecycle(t, depth+1, sel(tier, 12, 24))
					},
				},
				{
					Name:  "binary",
					Bound: fmt.Sprintf("every sequence of <=%d ApplyFragment/Close calls from 9 binary fragments over 3 sources", depth),
					Run: func(t *engine.T) {
						src := Pick(t, []string{"0123456789", "", long})
						runBinaryLifecycle(t, src, depth)
					},
				},
			}
		},
	})
}

func runTextLifecycle(t *engine.T, a *gitdiff.TextApplier, w *envWriter, src string, as []textAction, depth int) {
	var applied []*ref.Hunk
	var seq []string
	closed, free, fuzzy := false, false, false
	var end int64
	t.Desc(func() string { return fmt.Sprintf("%d byte source: %v", len(src), seq) })
	final := func() string { return ref.ApplyHunks(src, applied).Out }
	fail := func(key, f string, args ...any) {
		t.Fail(key, "after %v: "+f+"\nwritten %s", append(append([]any{seq}, args...), q(string(w.out)))...)
	}
	for i := 0; i < depth; i++ {
		c := t.Choose(len(as) + 2)
		if c == len(as)+1 {
			break // stop here
		}
		before := len(w.out)
		calls := w.calls
		t.Trace()
		if c == len(as) {
			seq = append(seq, "Close")
			if err := a.Close(); err != nil {
				fail("close", "Close failed: %v", err)
			}
			if closed && w.calls != calls {
				fail("closed-writes", "repeated Close wrote")
			}
			closed = true
			if !free && string(w.out) != final() {
				fail("output", "closed applier wrote something else than %s", q(final()))
			}
			t.State(fmt.Sprint(len(src), seq))
			continue
		}
		act := as[c]
		seq = append(seq, act.name)
		t.State(fmt.Sprint(len(src), seq))
		err := a.ApplyFragment(act.f)
		wrote := len(w.out) != before
		if closed {
			if err == nil {
				fail("closed-accepts", "ApplyFragment succeeded on a closed applier")
			}
			if wrote {
				fail("closed-writes", "ApplyFragment wrote on a closed applier")
			}
			continue
		}
		if act.bad {
			if err == nil {
				fail("invalid-accepted", "invalid fragment accepted")
			}
			if wrote {
				fail("invalid-writes", "invalid fragment wrote data")
			}
			continue
		}
		if act.h.Start() < end {
			if err == nil {
				fail("overlap-accepted", "fragment that starts before the end of an applied one accepted")
			}
			if !isConflict(err) {
				fail("overlap-kind", "overlap reported as %v, not a conflict", err)
			}
			if wrote {
				fail("overlap-writes", "refused overlapping fragment wrote data")
			}
			continue
		}
		res := ref.ApplyHunks(src, append(applied[:len(applied):len(applied)], act.h))
		switch {
		case err == nil && !res.OK:
			fail("accepted", "fragment accepted although %s", res.Why)
		case err == nil:
			applied = append(applied[:len(applied):len(applied)], act.h)
			end = act.h.Start() + act.h.OldN
			t.Outcome(fmt.Sprintf("applied %d", len(applied)))
		case res.OK:
			if !fuzzy && !free {
				fail("refused", "applicable fragment refused: %v", err)
			}
		default:
			if !isConflict(err) {
				fail("kind", "%s reported as %v, not a conflict", res.Why, err)
			}
			if act.free {
				free = true
			}
			if res.Why == "line differs" {
				fuzzy = true
			}
		}
		if !free && !strings.HasPrefix(final(), string(w.out)) {
			fail("output", "what was written is no prefix of the expected %s", q(final()))
		}
	}
}

func runBinaryLifecycle(t *engine.T, src string, depth int) {
	n := int64(len(src))
	type act struct {
		name string
		f    *gitdiff.BinaryFragment
		out  string
		ok   bool
	}
	lit, del := gitdiff.BinaryPatchLiteral, gitdiff.BinaryPatchDelta
	bad := binFrag(lit, []byte("corrupt"))
	bad.RawData[len(bad.RawData)-1] ^= 1
	big := binFrag(lit, []byte("x"))
	big.Size = 1 << 40
	as := []act{
		{"literal", binFrag(lit, []byte("lit")), "lit", true},
		{"empty literal", binFrag(lit, nil), "", true},
		{"delta", binFrag(del, deltaOf(n, 3, 3, 'a', 'b', 'c')), "abc", true},
		{"empty delta", binFrag(del, deltaOf(n, 0)), "", true},
		{"mismatch", binFrag(del, deltaOf(n+1, 1, 1, 'x')), "", false},
		{"corrupt", bad, "", false},
		{"corrupt delta", binFrag(del, deltaOf(n, 2, 1, 'x', 0)), "", false},
		{"oversize", big, "", false},
		{"unknown method", binFrag(7, nil), "", false},
	}
	w := &envWriter{}
	a := gitdiff.NewBinaryApplier(w, strings.NewReader(src))
	var seq []string
	closed, attempted, failed := false, false, false
	want := ""
	t.Desc(func() string { return fmt.Sprintf("%d byte source: %v", len(src), seq) })
	fail := func(key, f string, args ...any) {
		t.Fail(key, "after %v: "+f+"\nwritten %s", append(append([]any{seq}, args...), q(string(w.out)))...)
	}
	for i := 0; i < depth; i++ {
		c := t.Choose(len(as) + 3)
		if c == len(as)+2 {
			break
		}
		before := len(w.out)
		t.Trace()
		if c == len(as) {
			seq = append(seq, "Close")
			t.State("bin", fmt.Sprint(len(src), seq))
			if err := a.Close(); err != nil {
				fail("close", "Close failed: %v", err)
			}
			if closed && len(w.out) != before {
				fail("closed-writes", "repeated Close wrote")
			}
			closed = true
			if !attempted {
				want = src
			}
			if !failed && string(w.out) != want {
				fail("output", "closed applier wrote something else than %s", q(want))
			}
			continue
		}
		if c == len(as)+1 {
			seq = append(seq, "nil")
			if err := a.ApplyFragment(nil); err == nil {
				fail("nil-accepted", "nil fragment accepted")
			}
			if len(w.out) != before {
				fail("nil-writes", "nil fragment wrote data")
			}
			if !attempted && !closed {
				// whether a nil fragment counts as an attempt is not specified
				break
			}
			continue
		}
		act := as[c]
		seq = append(seq, act.name)
		t.State("bin", fmt.Sprint(len(src), seq))
		err := a.ApplyFragment(act.f)
		switch {
		case closed:
			if err == nil {
				fail("closed-accepts", "ApplyFragment succeeded on a closed applier")
			}
			if len(w.out) != before {
				fail("closed-writes", "ApplyFragment wrote on a closed applier")
			}
		case attempted:
			if err == nil {
				fail("second-accepted", "a second fragment was accepted")
			}
			if len(w.out) != before {
				fail("second-writes", "a second fragment wrote data")
			}
		default:
			attempted = true
			if act.ok {
				want = act.out
				if err != nil {
					fail("refused", "valid fragment refused: %v", err)
				}
				if string(w.out) != want {
					fail("output", "wrote something else than %s", q(want))
				}
				t.Outcome("applied")
			} else {
				failed = true
				if err == nil {
					fail("accepted", "bad fragment accepted")
				}
				t.Outcome("refused")
			}
		}
	}
}

// runFailingLifecycle checks what a lifecycle promises even after failures of
// the source or destination.
func runFailingLifecycle(t *engine.T, depth, calls int) {
	binary := t.Bool()
	e := &env{failAt: t.Choose(calls), sticky: t.Bool()}
	w := &envWriter{e: e}
	src := numbered(6)
	s := &envSource{e: e, data: src}
	var apply []func() error
	var close func() error
	var names []string
	if binary {
		a := gitdiff.NewBinaryApplier(w, s)
		close = a.Close
		n := int64(len(src))
		for _, f := range []*gitdiff.BinaryFragment{
			binFrag(gitdiff.BinaryPatchLiteral, []byte("lit")),
			binFrag(gitdiff.BinaryPatchDelta, deltaOf(n, 6, 3, 'a', 'b', 'c', 0x90, 3)),
			binFrag(gitdiff.BinaryPatchDelta, deltaOf(n+1, 3, 3, 'a', 'b', 'c')),
		} {
			apply = append(apply, func() error { return a.ApplyFragment(f) })
		}
		names = []string{"literal", "delta", "mismatch"}
	} else {
		a := gitdiff.NewTextApplier(w, s)
		close = a.Close
		as := textActions(6, "")
		for _, i := range []int{0, 1, 4, 5} {
			apply = append(apply, func() error { return a.ApplyFragment(as[i].f) })
			names = append(names, as[i].name)
		}
	}
	var seq []string
	t.Desc(func() string { return fmt.Sprintf("binary=%v, %v, permanent=%v: %v", binary, e.log, e.sticky, seq) })
	closed, attempted := false, false
	for i := 0; i < depth; i++ {
		c := t.Choose(len(apply) + 2)
		if c == len(apply)+1 {
			break
		}
		before, writes := len(w.out), w.calls
		t.Trace()
		if c == len(apply) {
			seq = append(seq, "Close")
			err := close()
			if closed && err != nil {
				t.Fail("close", "after %v: repeated Close returned %v", seq, err)
			}
			if closed && w.calls != writes {
				t.Fail("closed-writes", "after %v: repeated Close wrote", seq)
			}
			if binary && attempted && w.calls != writes {
				t.Fail("close-writes", "after %v: Close wrote after a fragment was tried", seq)
			}
			closed = true
			continue
		}
		seq = append(seq, names[c])
		err := apply[c]()
		if closed || (binary && attempted) {
			if err == nil {
				t.Fail("accepted", "after %v: the fragment was accepted", seq)
			}
			if len(w.out) != before || w.calls != writes {
				t.Fail("writes", "after %v: the fragment was written", seq)
			}
		}
		attempted = true
	}
	if e.fired == 0 {
		t.Skip() // the call that should fail was not made
	}
	t.State("failing", fmt.Sprint(binary, e.failAt, e.sticky, seq))
	t.Outcome(fmt.Sprint("failed, binary=", binary))
}
