package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C29", Title: "declared sizes do not drive memory use",
		Assumptions: []string{
			fmt.Sprintf("the bound checked is %d MiB plus %d bytes allocated in total (freed or not) for each byte of patch, source, inflated data and output", memAllowance>>20, memFactor),
			"allocations are those the Go runtime counts during the calls",
		},
		Scenarios: c29,
	})
}

const (
	memAllowance = 40 << 20
	memFactor    = 128
)

// allocated measures the bytes allocated while f runs.
func allocated(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

type countSink struct{ n int64 }

func (w *countSink) Write(p []byte) (int, error) { w.n += int64(len(p)); return len(p), nil }

// spend runs f and compares its allocations with the bytes it may account for.
func spend(t *engine.T, what string, present func() int64, f func()) {
	got := allocated(f)
	limit := int64(memAllowance) + memFactor*present()
	if got > limit {
		t.Fail("memory "+what, "%s allocated %d bytes (%d MiB) for %d bytes of input and output", what, got, got>>20, present())
	}
}

// measure parses a patch, formats, validates and reads it, and applies it to
// the sources, and checks what each step allocates.
func measure(t *engine.T, patch string, srcs []io.ReaderAt, size func(int) int64) {
	t.Trace()
	var files []*gitdiff.File
	var err error
	spend(t, "Parse", func() int64 { return int64(len(patch)) }, func() { files, _, err = gitdiff.Parse(strings.NewReader(patch)) })
	if err != nil {
		t.Outcome("rejected")
	} else {
		t.Outcome("parsed")
	}
	for _, f := range files {
		measureFile(t, f, int64(len(patch)), srcs, size)
	}
}

func measureFile(t *engine.T, f *gitdiff.File, patch int64, srcs []io.ReaderAt, size func(int) int64) {
	spend(t, "formatting and Validate", func() int64 { return 4 * patch }, func() {
		_ = f.String()
		for _, fr := range f.TextFragments {
			_ = fr.Validate()
		}
	})
	inflated := int64(0)
	if b := f.BinaryFragment; b != nil {
		spend(t, "Data", func() int64 { return patch + inflated }, func() { inflated, _ = io.Copy(io.Discard, b.Data()) })
	}
	for i, src := range srcs {
		for _, limit := range []int64{-1, 100 << 20} {
			w := &countSink{}
			var err error
			spend(t, "Apply", func() int64 { return patch + inflated + size(i) + w.n }, func() {
				err = gitdiff.Apply(w, src, f, gitdiff.WithMaxBinaryFragmentBytes(limit))
			})
			if err == nil {
				t.Outcome("applied")
			}
			if f.BinaryFragment == nil {
				break
			}
		}
	}
}

func c29(tier string) []engine.Scenario {
	var ss []engine.Scenario
	var mags []int64
	for k := 0; k < 63; k++ {
		mags = append(mags, 1<<k)
		if tier == "thorough" {
			mags = append(mags, 1<<k+1, 3<<k/2)
		}
	}
	mags = append(mags, math.MaxInt64)
	small := func(ss ...string) ([]io.ReaderAt, func(int) int64) {
		var rs []io.ReaderAt
		for _, s := range ss {
			rs = append(rs, strings.NewReader(s))
		}
		return rs, func(i int) int64 { return int64(len(ss[i])) }
	}
	text := "a\n" + strings.Repeat("line\n", 5000)
	templates := []string{
		"@@ -%d,1 +1 @@\n-a\n+b\n", "@@ -1,%d +1 @@\n-a\n+b\n", "@@ -1 +%d @@\n-a\n+b\n", "@@ -1 +1,%d @@\n-a\n+b\n", "@@ -%[1]d,%[1]d +%[1]d,%[1]d @@\n-a\n+b\n", "@@ -1,%[1]d +1,%[1]d @@\n a\n",
		"@@ -0,0 +1,%d @@\n+b\n", "@@ -1,%d +0,0 @@\n-a\n", "@@ -1,%[1]d +1,%[1]d @@\n", "@@ -%d,0 +1 @@\n+b\n", "@@ -0,0 +%d @@\n+b\n", "@@ -1 +1 @@\n-a\n+b\n@@ -%d +1 @@\n-line\n+b\n", "@@ -%d,2 +1 @@\n line\n-line\n",
	}
	ss = append(ss, engine.Scenario{
		Name: "hunk header numbers", Serial: true,
		Bound: fmt.Sprintf("%d header templates x %d magnitudes of a number, parsed, formatted, validated, and applied to sources of 0, 2 and %d bytes", len(templates), len(mags), len(text)),
		Run: func(t *engine.T) {
			s := patchHeads[t.Choose(len(patchHeads))] + fmt.Sprintf(engine.Pick(t, templates), engine.Pick(t, mags))
			t.Desc(func() string { return q(s) })
			t.State(s)
			srcs, size := small("", "a\n", text)
			measure(t, s, srcs, size)
		},
	})
	ss = append(ss, engine.Scenario{
		Name: "fragments made by hand", Serial: true,
		Bound: fmt.Sprintf("each number of a text fragment with %d magnitudes, alone and together", len(mags)),
		Run: func(t *engine.T) {
			h := hunkOf([]ref.Op{{Kind: ' ', Text: "a\n"}, {Kind: '-', Text: "line\n"}, {Kind: '+', Text: "b\n"}}, 1, 1)
			fr := fragmentOf(h)
			fields := []*int64{&fr.OldPosition, &fr.OldLines, &fr.NewPosition, &fr.NewLines, &fr.LinesAdded, &fr.LinesDeleted, &fr.LeadingContext, &fr.TrailingContext}
			k := t.Choose(len(fields) + 2)
			v := engine.Pick(t, mags)
			for i, p := range fields {
				if i == k || k == len(fields) || k == len(fields)+1 && i < 4 {
					*p = v
				}
			}
			srcs, size := small("", "a\nline\n", text)
			t.Desc(func() string { return fmt.Sprintf("%+v", *fr) })
			t.Trace()
			measureFile(t, &gitdiff.File{TextFragments: []*gitdiff.TextFragment{fr}}, 100, srcs, size)
		},
	})
	ss = append(ss, engine.Scenario{
		Name: "binary sizes", Serial: true,
		Bound: fmt.Sprintf("the declared size of literals and deltas, source and result sizes of deltas, in %d magnitudes, with data of 0, 1 and 1000 bytes, correct and cut short", len(mags)),
		Run: func(t *engine.T) {
			v := engine.Pick(t, mags)
			n := engine.Pick(t, []int{0, 1, 1000})
			var f *gitdiff.BinaryFragment
			switch t.Choose(6) {
			case 0:
				f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: v, RawData: deflate(make([]byte, n))}
			case 1:
				f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: v, RawData: deflate(deltaOf(4, 1, 1, 'x'))}
			case 2:
				f = binFrag(gitdiff.BinaryPatchDelta, deltaOf(v, 1, 1, 'x'))
			case 3:
				f = binFrag(gitdiff.BinaryPatchDelta, deltaOf(4, v, 1, 'x'))
			case 4:
				f = binFrag(gitdiff.BinaryPatchDelta, deltaOf(v, v, 0x90, 4))
			case 5: // sizes with as many zero digits as the value has bits
				d := append(bytes.Repeat([]byte{0x80}, min(int(v&0xff)+n, 4000)), 4, 1, 1, 'x')
				f = binFrag(gitdiff.BinaryPatchDelta, d)
			}
			if t.Bool() {
				f.RawData = f.RawData[:len(f.RawData)/2]
			}
			srcs, size := small("", "abcd")
			t.Desc(func() string { return fmt.Sprintf("%v size %d data %x", f.Method, f.Size, f.RawData) })
			t.Trace()
			s := (&gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: f}).String()
			measure(t, s, srcs, size)
			measureFile(t, binFile(f), int64(len(s)), srcs, size)
		},
	})
	szBits := sel(tier, []int{0, 8, 16, 20, 22, 23}, upTo(24))
	offBits := sel(tier, []int{0, 12, 24, 31}, upTo(32))
	counts := sel(tier, []int{1, 2, 8, 64}, []int{1, 2, 8, 64, 1000})
	ss = append(ss, engine.Scenario{
		Name: "delta copies", Serial: true,
		Bound: fmt.Sprintf("copies of sizes around 2^k, k in %v, from offset 0 and offsets 2^k, k in %v, repeated %v times, with result sizes that fit or do not, from sources of 0, 4 and 20 MiB", szBits, offBits, counts),
		Run: func(t *engine.T) {
			sz := int64(1)<<engine.Pick(t, szBits) | int64(t.Choose(2))
			off := int64(0)
			if c := t.Choose(len(offBits) + 1); c > 0 {
				off = 1 << offBits[c-1]
			}
			n := engine.Pick(t, counts)
			src := engine.Pick(t, []int64{0, 4, 20 << 20})
			fits := t.Choose(3)
			in, ok := copyInstr(off, sz, 0x7f)
			if !ok {
				t.Skip()
			}
			dst := sz * int64(n)
			if fits == 1 {
				dst = 3
			} else if fits == 2 {
				dst = math.MaxInt64
			}
			if fits != 1 && off+sz <= src && dst > 64<<20 && n > 8 {
				t.Skip() // that much output is really written
			}
			f := binFrag(gitdiff.BinaryPatchDelta, deltaOf(src, dst, bytes.Repeat(in, n)...))
			t.Desc(func() string {
				return fmt.Sprintf("%d copies of %d at %d from %d bytes, result size %d", n, sz, off, src, dst)
			})
			t.Trace()
			measureFile(t, binFile(f), int64(len(f.RawData)), []io.ReaderAt{virtual(src)}, func(int) int64 { return src })
		},
	})
	lens := boundaries(8, sel(tier, 20, 24))
	ss = append(ss, engine.Scenario{
		Name: "real contents", Serial: true,
		Bound: fmt.Sprintf("%d lengths up to 2^%d of lines, hunks, names, comments, preambles, binary data and sources: allocations stay within the multiple of the bytes that are present", len(lens), sel(tier, 20, 24)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, lens)
			x := strings.Repeat("x", n)
			lines := func(mark, l string) string { return strings.Repeat(mark+l+"\n", n/(len(l)+2)) }
			c := n / 2
			var s string
			srcText := ""
			switch t.Choose(11) {
			case 0:
				s = gitHead + fmt.Sprintf("@@ -0,0 +1,%d @@\n", c) + lines("+", "")
			case 1:
				s = gitHead + fmt.Sprintf("@@ -1,%d +1,%d @@\n", c, c+1) + lines(" ", "") + "+b\n"
				srcText = strings.Repeat("\n", c)
			case 2:
				s = gitHead + fmt.Sprintf("@@ -1,%d +0,0 @@\n", c) + lines("-", "")
				srcText = strings.Repeat("\n", c)
			case 3:
				s = gitHead + "@@ -1 +1 @@\n-" + x + "\n+" + x + "y\n"
				srcText = x + "\n"
			case 4:
				s = "diff --git a/" + x + " b/" + x + "\nold mode 100644\nnew mode 100755\n"
			case 5:
				s = gitHead + "@@ -1 +1 @@ " + x + "\n-a\n+b\n"
			case 6:
				s = x + "\n" + lines("", "junk") + gitHead + "@@ -1 +1 @@\n-a\n+b\n"
			case 7:
				s = binHeader + encodeBinary("literal", int64(n), store([]byte(x)))
			case 8:
				s = gitHead + fmt.Sprintf("@@ -%d +%d @@\n-x\n+y\n", n/2, n/2)
				srcText = strings.Repeat("x\n", n)
			case 9:
				var b strings.Builder
				b.WriteString(gitHead)
				for i := 0; i < n/32; i++ {
					fmt.Fprintf(&b, "@@ -%d +%d @@\n-x\n+y\n", 2*i+1, 2*i+1)
				}
				s = b.String()
				srcText = strings.Repeat("x\n", n/16)
			case 10: // well compressed data
				s = binHeader + encodeBinary("literal", int64(n)*16, deflate(make([]byte, n*16)))
			}
			t.Desc(func() string { return q(s) })
			t.State(fmt.Sprint(n), s[:min(len(s), 100)])
			srcs, size := small(srcText)
			measure(t, s, srcs, size)
		},
	})
	return ss
}
