package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// countWriter remembers only how much was written, and a checksum.
type countWriter struct {
	n   int64
	sum uint64
}

func (w *countWriter) Write(p []byte) (int, error) {
	for _, b := range p {
		w.sum = w.sum*1099511628211 + uint64(b) + 1
	}
	w.n += int64(len(p))
	return len(p), nil
}

func init() {
	register(&Check{
		ID: "C10", Title: "binary size limits",
		Assumptions: []string{"where a delta both exceeds the limit and does not match the source, any error is accepted"},
		Scenarios: func(tier string) []engine.Scenario {
			const src = "0123456789"
			type frag struct {
				name   string
				f      *gitdiff.BinaryFragment
				result int64 // declared result size (literal: Size)
				mism   bool
			}
			var frags []frag
			maxN := int64(sel(tier, 24, 60))
			for n := int64(0); n <= maxN; n++ {
				data := []byte(strings.Repeat("ab\x00d", int(n)/4+1)[:n])
				frags = append(frags, frag{fmt.Sprintf("literal %d", n), binFrag(gitdiff.BinaryPatchLiteral, data), n, false})
				bad := binFrag(gitdiff.BinaryPatchLiteral, data)
				bad.RawData = bad.RawData[:len(bad.RawData)-2]
				frags = append(frags, frag{fmt.Sprintf("corrupt literal %d", n), bad, n, false})
				over := binFrag(gitdiff.BinaryPatchLiteral, append(data, "and more"...))
				over.Size = n
				frags = append(frags, frag{fmt.Sprintf("understated literal %d", n), over, n, false})
			}
			for _, res := range []int64{0, 1, 2, 5, 7, 8, 9, 10, 11, 12, 13, 20, 40} {
				var ins []byte
				for left := res; left > 0; {
					k := min(left, 10)
					ins = append(ins, 0x90, byte(k))
					left -= k
				}
				for _, rec := range []int64{10, 11} {
					d := deltaOf(rec, res, ins...)
					frags = append(frags, frag{fmt.Sprintf("delta of %d bytes making %d, source size %d", len(d), res, rec), binFrag(gitdiff.BinaryPatchDelta, d), res, rec != 10})
				}
				// result made of inserts: the instructions are longer than the result
				ins = nil
				for i := int64(0); i < res; i++ {
					ins = append(ins, 1, 'x')
				}
				d := deltaOf(10, res, ins...)
				frags = append(frags, frag{fmt.Sprintf("delta of %d bytes making %d by inserts", len(d), res), binFrag(gitdiff.BinaryPatchDelta, d), res, false})
			}
			apply := func(f *gitdiff.BinaryFragment, through bool, opts ...gitdiff.ApplyOption) (string, error) {
				if through {
					return applyTo(src, binFile(f), opts...)
				}
				var dst bytes.Buffer
				a := gitdiff.NewBinaryApplier(&dst, strings.NewReader(src), opts...)
				err := a.ApplyFragment(f)
				if err == nil {
					err = a.Close()
				}
				return dst.String(), err
			}
			const def = 100 << 20
			return []engine.Scenario{
				{
					Name:  "small limits",
					Bound: fmt.Sprintf("%d valid, corrupt, understated and mismatching fragments of <=%d bytes under every limit 0..%d, -1 and the extreme values, through Apply and an applier; within the limit the run is compared with the unlimited run", len(frags), maxN, maxN+3),
					Run: func(t *engine.T) {
						fr := frags[t.Choose(len(frags))]
						limits := []int64{-1, math.MinInt64, math.MaxInt64, -2}
						for n := int64(0); n <= maxN+3; n++ {
							limits = append(limits, n)
						}
						l := Pick(t, limits)
						through := t.Bool()
						t.State(fr.name, fmt.Sprint(l))
						t.Desc(func() string { return fmt.Sprintf("%s under limit %d", fr.name, l) })
						t.Trace()
						out, err := apply(fr.f, through, gitdiff.WithMaxBinaryFragmentBytes(l))
						over := l >= 0 && (fr.f.Size > l || (fr.f.Method == gitdiff.BinaryPatchDelta && fr.result > l))
						if over {
							t.Outcome("over")
							if err == nil {
								t.Fail("accepted", "%s accepted under limit %d", fr.name, l)
							}
							if out != "" {
								t.Fail("wrote", "%s wrote %d bytes under limit %d before it was rejected", fr.name, len(out), l)
							}
							if isConflict(err) && !(fr.mism && fr.f.Size <= l) {
								t.Fail("kind", "%s over limit %d is reported as a conflict: %v", fr.name, l, err)
							}
							return
						}
						t.Outcome("within")
						out2, err2 := apply(fr.f, through, gitdiff.WithMaxBinaryFragmentBytes(-1))
						if out != out2 || (err == nil) != (err2 == nil) || isConflict(err) != isConflict(err2) {
							t.Fail("differs", "%s under limit %d: %s, %v; without a limit: %s, %v", fr.name, l, q(out), err, q(out2), err2)
						}
					},
				},
				{
					Name:  "text unaffected",
					Bound: "text patches of every kind under limits -1, 0, 1, 5, 100",
					Run: func(t *engine.T) {
						uf, us, un := faultFiles()
						i := t.Choose(len(uf))
						if uf[i].IsBinary {
							t.Skip()
						}
						l := Pick(t, []int64{-1, 0, 1, 5, 100})
						t.State(un[i], fmt.Sprint(l))
						t.Desc(func() string { return fmt.Sprint(un[i], " limit ", l) })
						t.Trace()
						want, werr := applyTo(us[i], uf[i])
						got, gerr := applyTo(us[i], uf[i], gitdiff.WithMaxBinaryFragmentBytes(l))
						if got != want || (werr == nil) != (gerr == nil) {
							t.Fail("text", "%s: limit %d changes the result: %v versus %v", un[i], l, gerr, werr)
						}
						var dst bytes.Buffer
						a := gitdiff.NewTextApplier(&dst, strings.NewReader(us[i]), gitdiff.WithMaxBinaryFragmentBytes(l))
						for _, fr := range uf[i].TextFragments {
							if err := a.ApplyFragment(fr); err != nil {
								t.Fail("text", "%s: limit %d: %v", un[i], l, err)
							}
						}
						if err := a.Close(); err != nil || dst.String() != want {
							t.Fail("text", "%s: limit %d: %v", un[i], l, err)
						}
					},
				},
				{
					Name:   "default limit",
					Bound:  "fragments and delta results of exactly 100 MiB and one byte more or less, with no option, with -1 and with explicit limits just below and above",
					Serial: false,
					Run: func(t *engine.T) {
						kind := t.Choose(4)
						over := int64(t.Choose(3)) - 1
						opt := t.Choose(3)
						var opts []gitdiff.ApplyOption
						limit := int64(def)
						if kind > 1 && opt == 2 {
							t.Skip()
						}
						switch opt {
						case 1:
							opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(-1))
							limit = math.MaxInt64
						case 2:
							opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(def+1))
							limit = def + 1
						}
						n := def + over
						var f *gitdiff.BinaryFragment
						var s io.ReaderAt = strings.NewReader(src)
						want := n
						wantOK := n <= limit
						switch kind {
						case 0: // only declared; the data is tiny, so it never succeeds
							f = binFrag(gitdiff.BinaryPatchLiteral, []byte("tiny"))
							f.Size = n
							wantOK = false
						case 1: // delta that makes n bytes
							const ss = 0xfffff1
							d := deltaOf(ss, n)
							for left := n; left > 0; {
								k := min(left, ss)
								b, _ := copyInstr(0, k, 0x70)
								d = append(d, b...)
								left -= k
							}
							f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: store(d)}
							s = zeros(ss)
						case 2: // literal of n bytes
							f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: n, RawData: bigStream(n, 0)}
						case 3: // delta instructions of n bytes
							f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: n, RawData: bigStream(n, 1)}
							want = bigDeltaResult(n)
						}
						t.State("default", fmt.Sprint(kind, over, opt))
						t.Desc(func() string { return fmt.Sprintf("kind %d, size 100MiB%+d, option %d", kind, over, opt) })
						t.Trace()
						var w countWriter
						err := gitdiff.Apply(&w, s, binFile(f), opts...)
						if wantOK {
							t.Outcome("within")
							if err != nil {
								t.Fail("refused", "kind %d: size 100MiB%+d refused under limit %d: %v", kind, over, limit, err)
							}
							if w.n != want {
								t.Fail("output", "kind %d: wrote %d bytes, want %d", kind, w.n, want)
							}
							return
						}
						if err == nil {
							t.Fail("accepted", "kind %d: size 100MiB%+d accepted under limit %d", kind, over, limit)
						}
						if isConflict(err) {
							t.Fail("kind", "kind %d: reported as a conflict: %v", kind, err)
						}
						if n > limit && w.n != 0 {
							t.Fail("wrote", "kind %d: %d bytes written before the rejection", kind, w.n)
						}
						t.Outcome("over")
					},
				},
			}
		},
	})
}

// zeros is a source of n zero bytes.
type zeros int64

func (v zeros) ReadAt(p []byte, off int64) (int, error) {
	n := int64(len(p))
	var err error
	if off >= int64(v) {
		return 0, io.EOF
	}
	if off+n > int64(v) {
		n, err = int64(v)-off, io.EOF
	}
	clear(p[:n])
	return int(n), err
}

var bigStreams = onceMap[[2]int64, []byte]{}

// bigStream compresses n bytes: zeros (kind 0) or a delta for the 10 byte
// source that consists of inserts (kind 1).
func bigStream(n int64, kind int64) []byte {
	return bigStreams.get([2]int64{n, kind}, func() []byte {
		data := make([]byte, n)
		if kind == 1 {
			copy(data, deltaOf(10, bigDeltaResult(n)))
			i := int64(len(deltaOf(10, bigDeltaResult(n))))
			for left := n - i; left > 0; {
				k := min(left-1, 127)
				if left-1-k == 1 {
					k-- // never leave a single byte
				}
				data[i] = byte(k)
				i += k + 1
				left -= k + 1
			}
		}
		return deflateLevel(data, 1)
	})
}

func bigDeltaResult(n int64) int64 {
	// headers take 1+4 bytes; every instruction adds one byte
	left := n - 1 - int64(len(ref.DeltaSize(n-n/128)))
	var out int64
	for left > 0 {
		k := min(left-1, 127)
		if left-1-k == 1 {
			k--
		}
		out += k
		left -= k + 1
	}
	return out
}
