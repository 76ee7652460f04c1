package checks

import (
	"compress/zlib"
	"fmt"
	"io"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

// readSession reads r to its end with the sizes next gives, checking the
// io.Reader contract and the promises of Data. good tells whether content is
// the exact result; otherwise an error is expected.
func readSession(t *engine.T, r io.Reader, next func() int, content []byte, good bool, size int64, desc func() string) {
	var got []byte
	buf := make([]byte, 1<<16)
	idle := 0
	var err error
	for {
		n := next()
		for i := range buf[:n] {
			buf[i] = 0xEE
		}
		var k int
		k, err = r.Read(buf[:n])
		if k < 0 || k > n {
			t.Fail("count", "Read of %d bytes returned %d\n%s", n, k, desc())
		}
		got = append(got, buf[:k]...)
		if int64(len(got)) > size+1 {
			t.Fail("excess", "%d bytes delivered, size is %d\n%s", len(got), size, desc())
		}
		if err != nil {
			break
		}
		if k == 0 && n > 0 {
			if idle++; idle > 20 {
				t.Fail("no-progress", "20 reads without progress after %d bytes\n%s", len(got), desc())
			}
		} else if k > 0 {
			idle = 0
		}
	}
	t.Trace()
	if good {
		t.Outcome("exact")
		if err != io.EOF {
			t.Fail("refused", "intact stream failed with %v after %d bytes\n%s", err, len(got), desc())
		}
		if string(got) != string(content) {
			t.Fail("content", "delivered %s, want %s\n%s", q(string(got)), q(string(content)), desc())
		}
		for i := 0; i < 3; i++ {
			if k, err := r.Read(buf[:1+i]); k != 0 || err != io.EOF {
				t.Fail("after-end", "read after the end returned %d, %v\n%s", k, err, desc())
			}
		}
		return
	}
	t.Outcome("error")
	if err == io.EOF {
		t.Fail("accepted", "defective data ended with io.EOF after %d bytes\n%s", len(got), desc())
	}
	for i := 0; i < 3; i++ {
		k, err := r.Read(buf[:1+i*7])
		if err == nil || err == io.EOF {
			t.Fail("after-error", "read after the error returned %d, %v\n%s", k, err, desc())
		}
		got = append(got, buf[:k]...)
		if int64(len(got)) > size+1 {
			t.Fail("excess", "%d bytes delivered, size is %d\n%s", len(got), size, desc())
		}
	}
}

func init() {
	register(&Check{
		ID: "C11", Title: "binary fragment data",
		Assumptions: []string{"compress/zlib read in one go decides whether a stream is intact and what it holds"},
		Scenarios: func(tier string) []engine.Scenario {
			payload := func(n, kind int) []byte {
				b := make([]byte, n)
				for i := range b {
					if kind == 1 {
						b[i] = vbyte(int64(i))
					} else {
						b[i] = "ab"[i%2]
					}
				}
				return b
			}
			raws := func(b []byte) [][]byte {
				out := [][]byte{deflate(b), store(b), deflateLevel(b, zlib.BestSpeed), deflateLevel(b, zlib.HuffmanOnly)}
				// several stored blocks, also empty ones, so that the data
				// arrives in pieces
				if len(b) >= 2 {
					out = append(out, storeBlocks(b, 1), storeBlocks(b, 2))
				}
				return out
			}
			oracle := func(raw []byte, size int64) ([]byte, bool) {
				c, err := inflate(raw)
				return c, err == nil && int64(len(c)) == size
			}
			frag := func(raw []byte, size int64, m gitdiff.BinaryPatchMethod) *gitdiff.BinaryFragment {
				return &gitdiff.BinaryFragment{Method: m, Size: size, RawData: raw}
			}
			return []engine.Scenario{
				{
					Name:  "read sizes",
					Bound: fmt.Sprintf("payloads of 0..%d bytes in 4..6 encodings, declared size off by -2..2, every sequence of %d read sizes from {0,1,2,3,100}, the last repeated to the end", sel(tier, 6, 9), sel(tier, 4, 6)),
					Run: func(t *engine.T) {
						n := t.Choose(sel(tier, 7, 10))
						b := payload(n, 1)
						rs := raws(b)
						e := t.Choose(len(rs))
						size := int64(n) - 2 + int64(t.Choose(5))
						if size < 0 {
							t.Skip()
						}
						f := frag(rs[e], size, gitdiff.BinaryPatchLiteral)
						c, good := oracle(rs[e], size)
						var sizes []int
						next := func() int {
							if len(sizes) < sel(tier, 4, 6) {
								k := Pick(t, []int{1, 2, 3, 100, 0})
								sizes = append(sizes, k)
								return k
							}
							return max(sizes[len(sizes)-1], 1)
						}
						desc := func() string {
							return fmt.Sprintf("payload %d, encoding %d, declared %d, reads %v", n, e, size, sizes)
						}
						t.Desc(desc)
						readSession(t, f.Data(), next, c, good, size, desc)
						t.State(fmt.Sprint(n, e, size, sizes))
					},
				},
				{
					Name:  "large",
					Bound: "payloads around 512, 4 KiB, 32 KiB, 64 KiB (and 1 MiB), declared size off by -1..1, read sizes 1 (small payloads), 7, 512, 4096, 65536 or io.ReadAll pattern",
					Run: func(t *engine.T) {
						n := Pick(t, append(boundaries(9, 9), append(boundaries(12, 12), append(boundaries(15, 16), sel(tier, 1<<17, 1<<20))...)...))
						kind := t.Choose(2)
						b := payload(n, kind)
						rs := raws(b)
						e := t.Choose(4)
						size := int64(n) - 1 + int64(t.Choose(3))
						k := Pick(t, []int{1, 7, 512, 4096, 65536, 0})
						if k == 1 && n > 5000 {
							t.Skip()
						}
						c, good := oracle(rs[e], size)
						grow := 1
						next := func() int {
							if k > 0 {
								return k
							}
							if grow < 1<<15 {
								grow *= 2
							}
							return grow
						}
						desc := func() string {
							return fmt.Sprintf("payload %d/%d, encoding %d, declared %d, reads of %d", n, kind, e, size, k)
						}
						t.Desc(desc)
						readSession(t, frag(rs[e], size, gitdiff.BinaryPatchDelta).Data(), next, c, good, size, desc)
						t.State(fmt.Sprint(n, kind, e, size, k))
					},
				},
				{
					Name:  "damage",
					Bound: "streams of 4 payloads in 4 encodings: cut at every byte, every byte xor every single bit and 0xff, every byte dropped, bytes appended; declared size right or off by one; read sizes 1, 3, 4096",
					Run: func(t *engine.T) {
						n := Pick(t, []int{0, 1, 5, 40})
						rs := raws(payload(n, 1))
						e := t.Choose(4)
						raw := append([]byte(nil), rs[e]...)
						what := t.Choose(4)
						at := 0
						switch what {
						case 0:
							at = t.Choose(len(raw) + 1)
							raw = raw[:at]
						case 1:
							at = t.Choose(len(raw))
							x := t.Choose(9)
							if x == 8 {
								raw[at] ^= 0xff
							} else {
								raw[at] ^= 1 << x
							}
						case 2:
							at = t.Choose(len(raw))
							raw = append(raw[:at], raw[at+1:]...)
						case 3:
							raw = append(raw, Pick(t, []string{"\x00", "x", string(rs[e])})...)
						}
						size := int64(n) - 1 + int64(t.Choose(3))
						if size < 0 {
							t.Skip()
						}
						k := Pick(t, []int{1, 3, 4096})
						c, good := oracle(raw, size)
						desc := func() string {
							return fmt.Sprintf("payload %d, encoding %d, damage %d at %d, declared %d, reads of %d: % x", n, e, what, at, size, k, raw)
						}
						t.Desc(desc)
						readSession(t, frag(raw, size, gitdiff.BinaryPatchLiteral).Data(), func() int { return k }, c, good, size, desc)
						t.State(string(raw), fmt.Sprint(size, k))
					},
				},
				{
					Name:  "raw strings",
					Bound: fmt.Sprintf("every byte string of <=%d bytes over 8 values as compressed data", sel(tier, 4, 5)),
					Run: func(t *engine.T) {
						n := t.Choose(sel(tier, 5, 6))
						raw := make([]byte, n)
						for i := range raw {
							raw[i] = Pick(t, []byte{0x78, 0x01, 0x9c, 0x00, 0x03, 0xff, 0x08, 0x1d})
						}
						c, good := oracle(raw, 0)
						desc := func() string { return fmt.Sprintf("compressed data % x", raw) }
						t.Desc(desc)
						readSession(t, frag(raw, 0, gitdiff.BinaryPatchLiteral).Data(), func() int { return 8 }, c, good, 0, desc)
						t.State(string(raw))
					},
				},
				{
					Name:  "declared sizes",
					Bound: "payloads of 0..3 bytes with declared sizes around every power of two up to 2^63-1",
					Run: func(t *engine.T) {
						n := t.Choose(4)
						k := t.Choose(63)
						size := int64(1)<<k - 1 + int64(t.Choose(3))
						if k == 62 {
							size = 1<<63 - 1 - int64(t.Choose(3))
						}
						raw := deflate(payload(n, 0))
						c, good := oracle(raw, size)
						desc := func() string { return fmt.Sprintf("payload %d declared %d", n, size) }
						t.Desc(desc)
						bound := size
						if bound == 1<<63-1 {
							bound--
						}
						readSession(t, frag(raw, size, gitdiff.BinaryPatchLiteral).Data(), func() int { return 64 }, c, good, bound, desc)
						t.State(fmt.Sprint(n, size))
					},
				},
				{
					Name:  "independent readers",
					Bound: fmt.Sprintf("every interleaving of %d steps over three readers of the same fragment (read 2 bytes, restart)", sel(tier, 7, 9)),
					Run: func(t *engine.T) {
						good := t.Bool()
						b := payload(5, 1)
						f := frag(deflate(b), 5, gitdiff.BinaryPatchLiteral)
						if !good {
							f.RawData[len(f.RawData)-1] ^= 1
						}
						rs := [3]io.Reader{f.Data(), f.Data(), f.Data()}
						var at [3]int
						var seq []int
						t.Desc(func() string { return fmt.Sprint("steps ", seq) })
						for i := 0; i < sel(tier, 7, 9); i++ {
							c := t.Choose(4)
							seq = append(seq, c)
							if c == 3 {
								rs[0], at[0] = f.Data(), 0
								continue
							}
							p := make([]byte, 2)
							k, err := rs[c].Read(p)
							if string(p[:k]) != string(b[at[c]:min(at[c]+k, 5)]) {
								t.Fail("content", "steps %v: reader %d delivered % x at %d", seq, c, p[:k], at[c])
							}
							at[c] += k
							if at[c] < 5 && err != nil {
								t.Fail("early", "steps %v: reader %d failed at %d: %v", seq, c, at[c], err)
							}
							if err == io.EOF && !good {
								t.Fail("accepted", "steps %v: reader %d ended normally on a bad checksum", seq, c)
							}
							if err != nil && err != io.EOF && good {
								t.Fail("refused", "steps %v: reader %d failed: %v", seq, c, err)
							}
						}
						t.Trace()
						t.State(fmt.Sprint(good, seq))
					},
				},
			}
		},
	})
}

// storeBlocks makes stored blocks of k bytes each, with empty blocks between.
func storeBlocks(b []byte, k int) []byte {
	whole := store(b)
	out := []byte{0x78, 0x01}
	for i := 0; i < len(b); i += k {
		n := min(k, len(b)-i)
		out = append(out, 0, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
		out = append(out, b[i:i+n]...)
		out = append(out, 0, 0, 0, 0xff, 0xff)
	}
	out = append(out, 1, 0, 0, 0xff, 0xff)
	return append(out, whole[len(whole)-4:]...)
}
