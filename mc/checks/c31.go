package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C31", Title: "reverse data of binary patches",
		Assumptions: []string{
			"git 2.43, where present, stands for git; without it only the generated patches are explored",
			"contents above 300 KiB are not explored",
		},
		Scenarios: c31,
	})
}

// reverseOf is the change that undoes a binary one, as a client writes it.
func reverseOf(f *gitdiff.File) *gitdiff.File {
	return &gitdiff.File{
		OldName: f.NewName, NewName: f.OldName, OldMode: f.NewMode, NewMode: f.OldMode, IsNew: f.IsDelete, IsDelete: f.IsNew,
		IsRename: f.IsRename || f.IsCopy,
		IsBinary: true, BinaryFragment: f.ReverseBinaryFragment, ReverseBinaryFragment: f.BinaryFragment,
	}
}

// binaryApply applies one fragment in one of three ways.
func binaryApply(way int, src string, f *gitdiff.File) (string, error) {
	var out bytes.Buffer
	var err error
	switch way {
	case 0:
		err = gitdiff.Apply(&out, strings.NewReader(src), f)
	case 1:
		a := gitdiff.NewBinaryApplier(&out, strings.NewReader(src))
		if err = a.ApplyFragment(f.BinaryFragment); err == nil {
			err = a.Close()
		}
	case 2: // through the text form of the reversed file
		fs, _, perr := gitdiff.Parse(strings.NewReader(f.String()))
		if perr != nil || len(fs) != 1 || fs[0].BinaryFragment == nil || (fs[0].ReverseBinaryFragment == nil) != (f.ReverseBinaryFragment == nil) {
			return "", fmt.Errorf("formatted as a patch with %d files, error %v:\n%s", len(fs), perr, f)
		}
		err = gitdiff.Apply(&out, strings.NewReader(src), fs[0])
	}
	return out.String(), err
}

// undoDelta encodes a delta from a to b in one of several ways.
func undoDelta(a, b string, kind int) []byte {
	d := append(deltaSize(int64(len(a))), deltaSize(int64(len(b)))...)
	add := func(s string) {
		for len(s) > 0 {
			n := min(len(s), 127)
			d = append(append(d, byte(n)), s[:n]...)
			s = s[n:]
		}
	}
	cp := func(off, n int) {
		for n > 0 {
			m := min(n, 0xffffff)
			op, args := byte(0x80), []byte(nil)
			for i := 0; i < 4; i++ {
				if v := byte(off >> (8 * i)); v != 0 {
					op |= 1 << i
					args = append(args, v)
				}
			}
			if m != 0x10000 {
				for i := 0; i < 3; i++ {
					if v := byte(m >> (8 * i)); v != 0 {
						op |= 16 << i
						args = append(args, v)
					}
				}
			}
			d = append(append(d, op), args...)
			off, n = off+m, n-m
		}
	}
	switch kind {
	case 0: // nothing shared
		add(b)
	case 1: // the common start and end are copied
		p := 0
		for p < len(a) && p < len(b) && a[p] == b[p] {
			p++
		}
		s := 0
		for s < len(a)-p && s < len(b)-p && a[len(a)-1-s] == b[len(b)-1-s] {
			s++
		}
		cp(0, p)
		add(b[p : len(b)-s])
		cp(len(a)-s, s)
	case 2: // byte by byte, copied from anywhere
		for i := 0; i < len(b); i++ {
			if k := strings.IndexByte(a, b[i]); k >= 0 {
				cp(k, 1)
			} else {
				add(b[i : i+1])
			}
		}
	}
	return d
}

// binarySection writes the data that turns a into b.
func binarySection(a, b string, kind int) string {
	if kind == 3 {
		return encodeBinary("literal", int64(len(b)), deflate([]byte(b)))
	}
	d := undoDelta(a, b, kind)
	return encodeBinary("delta", int64(len(d)), deflate(d))
}

const reverseKinds = 4

func verifyUndo(t *engine.T, a, b string, f *gitdiff.File, show func() string) {
	t.Trace()
	if !f.IsBinary || f.BinaryFragment == nil || f.ReverseBinaryFragment == nil {
		t.Fail("missing", "binary %v, forward %v, reverse %v\n%s", f.IsBinary, f.BinaryFragment != nil, f.ReverseBinaryFragment != nil, show())
	}
	rev := reverseOf(f)
	for way := 0; way < 3; way++ {
		if out, err := binaryApply(way, a, f); err != nil || out != b {
			t.Fail("forward", "way %d: %v, wrote %s, want %s\n%s", way, err, q(out), q(b), show())
		}
		if out, err := binaryApply(way, b, rev); err != nil || out != a {
			t.Fail("reverse", "way %d: %v, wrote %s, want %s\n%s", way, err, q(out), q(a), show())
		}
	}
	// a delta belongs to sources of one size
	for _, x := range []struct {
		f   *gitdiff.File
		src string
	}{{f, a}, {rev, b}} {
		for _, wrong := range []string{x.src + "x", strings.TrimSuffix(x.src, x.src[max(0, len(x.src)-1):])} {
			if wrong == x.src || x.f.BinaryFragment.Method == gitdiff.BinaryPatchLiteral {
				continue
			}
			if out, err := binaryApply(0, wrong, x.f); !isConflict(err) || out != "" {
				t.Fail("mismatch", "on a source of %d instead of %d bytes: %v, wrote %s\n%s", len(wrong), len(x.src), err, q(out), show())
			}
		}
	}
	t.Outcome(fmt.Sprintf("undone %v/%v", f.BinaryFragment.Method, f.ReverseBinaryFragment.Method))
}

func c31(tier string) []engine.Scenario {
	var ss []engine.Scenario
	sizes := sel(tier, []int{0, 1, 4, 51, 52, 53, 105, 1000, 8000, 70000}, []int{0, 1, 2, 3, 4, 5, 51, 52, 53, 103, 104, 105, 1000, 4096, 8000, 8191, 65535, 65536, 65537, 70000, 300000})
	var r *gitRepo
	opts := [][]string{{"--binary"}, {"--binary", "--full-index", "-M", "-C", "-C"}, {"--binary", "-B"}}
	ss = append(ss, engine.Scenario{
		Name:  "git patches",
		Bound: fmt.Sprintf("git diff-tree --binary between all pairs of contents of %d sizes (noise, zeros, noise with a tail, noise with an insertion), creations, deletions and mode changes, with 3 sets of options", len(sizes)),
		Setup: func() {
			cs := pairs("f", binaryTexts(sizes))
			for _, b := range binaryTexts(sizes) {
				cs = append(cs, treeChange{gitTree{}, gitTree{"f": textEntry(b)}}, treeChange{gitTree{"f": textEntry(b)}, gitTree{}},
					treeChange{gitTree{"f": textEntry(b)}, gitTree{"f": gitEntry{0o100755, b + "\x00more"}}},
					treeChange{gitTree{"g": textEntry(b)}, gitTree{"f": textEntry(b + "\x00more")}})
			}
			var bin []treeChange
			for _, c := range cs {
				if strings.Contains(c.old["f"].data+c.old["g"].data+c.new["f"].data, "\x00") {
					bin = append(bin, c)
				}
			}
			r = newRepo(bin)
		},
		Teardown: func() { r.close(); r = nil },
		Run: func(t *engine.T) {
			c, i, args := chooseChange(t, r, opts)
			_, patch := r.diff(i, args)
			show := func() string { return fmt.Sprintf("git diff %v of %v\n%s", args, c, q(patch)) }
			t.Desc(show)
			t.State(patch)
			files, _, err := gitdiff.Parse(strings.NewReader(patch))
			if err != nil || len(files) == 0 {
				t.Fail("parse", "%d files, error %v\n%s", len(files), err, show())
			}
			for _, f := range files {
				a, b := c.old[f.OldName].data, c.new[f.NewName].data
				if f.IsRename && f.Score == 100 || a == b && f.BinaryFragment == nil {
					continue
				}
				verifyUndo(t, a, b, f, show)
			}
		},
	})
	// generated sections
	contents := []string{"", "a", "ab", "ba", "abc\x00", "\x00\x00\x00", strings.Repeat("ab\x00c", 30), strings.Repeat("x", 200) + "\x00" + strings.Repeat("y", 70000), strings.Repeat("x", 199) + strings.Repeat("y", 65536), "z" + strings.Repeat("y", 65536)}
	head := "diff --git a/f b/f\nindex 1111111..2222222 100644\nGIT binary patch\n"
	tails := []string{"", "-- \n2.43.0\n\n", "diff --git a/g b/g\nold mode 100644\nnew mode 100755\n", "\n", "literal\n", "delta x\n\n", "literally 3\n", "Binary files a/f and b/f differ\n", "--- f\n+++ f\n@@ -1 +1 @@\n-a\n+b\n"}
	ss = append(ss, engine.Scenario{
		Name:  "generated patches",
		Bound: fmt.Sprintf("all pairs of %d contents, forward and reverse data each as a literal or one of 3 deltas, followed by each of %d texts", len(contents), 4),
		Run: func(t *engine.T) {
			a, b := engine.Pick(t, contents), engine.Pick(t, contents)
			kf, kr := t.Choose(reverseKinds), t.Choose(reverseKinds)
			if len(a) > 1000 && kr == 2 || len(b) > 1000 && kf == 2 {
				t.Skip()
			}
			tail := engine.Pick(t, tails[:4])
			text := head + binarySection(a, b, kf) + binarySection(b, a, kr) + tail
			show := func() string { return q(text) }
			t.Desc(show)
			t.State(text)
			files, _, err := gitdiff.Parse(strings.NewReader(text))
			if err != nil || len(files) != 1+strings.Count(tail, "diff --git") {
				t.Fail("parse", "%d files, error %v\n%s", len(files), err, show())
			}
			verifyUndo(t, a, b, files[0], show)
		},
	}, engine.Scenario{
		Name:  "absent or malformed reverse data",
		Bound: fmt.Sprintf("a file with only forward data followed by each of %d texts, or with a reverse section cut after every byte or with any one byte replaced by one of 12, alone or before another file: as the reference says", len(tails)),
		Run: func(t *engine.T) {
			a, b := contents[4], contents[6]
			text := "diff --git a/e b/e\nold mode 100644\nnew mode 100755\n" + head + binarySection(a, b, t.Choose(reverseKinds))
			if t.Bool() {
				rev := binarySection(b, a, []int{1, 3}[t.Choose(2)])
				i := t.Choose(len(rev) + 1)
				if t.Bool() {
					text += rev[:i]
				} else {
					if i == len(rev) {
						t.Skip()
					}
					text += rev[:i] + string("\n 0Az~\"+,-9\x00"[t.Choose(12)]) + rev[i+1:]
				}
				text += engine.Pick(t, tails[:3])
			} else {
				text += engine.Pick(t, tails)
			}
			t.Desc(func() string { return q(text) })
			t.State(text)
			verifyParse(t, text)
		},
	})
	// histories
	vs := []string{"", "one\x00", "one\x00two", "\x00two", strings.Repeat("three\x00", 40)}
	depth := sel(tier, 4, 6)
	files := onceMap[int, *gitdiff.File]{}
	ss = append(ss, engine.Scenario{
		Name:  "histories",
		Bound: fmt.Sprintf("all sequences of %d applied or undone changes between %d versions, from the first; each change parsed once and used again", depth, len(vs)),
		Run: func(t *engine.T) {
			at, content := 0, vs[0]
			var steps []string
			t.Desc(func() string { return strings.Join(steps, ", ") })
			for i := 0; i < depth; i++ {
				to := t.Choose(len(vs))
				if to == at {
					t.Skip()
				}
				undo := t.Bool()
				x, y := at, to
				if undo {
					x, y = to, at
				}
				f := files.get(x*len(vs)+y, func() *gitdiff.File {
					k := (x*3 + y) % reverseKinds
					return parseOne(t, head+binarySection(vs[x], vs[y], k)+binarySection(vs[y], vs[x], (k+1+x)%reverseKinds))
				})
				steps = append(steps, fmt.Sprintf("%d->%d undo=%v", at, to, undo))
				if undo {
					f = reverseOf(f)
				}
				out, err := binaryApply(t.Choose(2), content, f)
				t.State(fmt.Sprint(at, to, undo), content)
				t.Trace()
				if err != nil || out != vs[to] {
					t.Fail("history", "%s: error %v, content %s, want %s", strings.Join(steps, ", "), err, q(out), q(vs[to]))
				}
				at, content = to, out
			}
			t.Outcome("replayed")
		},
	})
	return ss
}
