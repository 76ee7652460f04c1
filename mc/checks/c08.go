package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// virtual is a source of any size without memory: byte i is a function of i.
type virtual int64

func vbyte(i int64) byte { return byte(uint64(i)*0x9E3779B97F4A7C15>>56) ^ byte(i) }

func (v virtual) Size() int64 { return int64(v) }
func (v virtual) Range(off, n int64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vbyte(off + int64(i))
	}
	return b
}

func (v virtual) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset")
	}
	n := int64(len(p))
	var err error
	if off >= int64(v) {
		return 0, io.EOF
	}
	if off+n > int64(v) {
		n, err = int64(v)-off, io.EOF
	}
	for i := int64(0); i < n; i++ {
		p[i] = vbyte(off + i)
	}
	return int(n), err
}

func binFile(f *gitdiff.BinaryFragment) *gitdiff.File {
	return &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: f}
}

// expectDelta applies a delta and compares with the reference interpreter.
func expectDelta(t *engine.T, src io.ReaderAt, rs ref.Source, d []byte, raw []byte, desc func() string) {
	want := ref.RunDelta(rs, d)
	f := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(d)), RawData: raw}
	if raw == nil {
		f.RawData = store(d)
	}
	var dst bytes.Buffer
	t.Trace()
	err := gitdiff.Apply(&dst, src, binFile(f))
	switch {
	case want.OK:
		t.Outcome("applies")
		if err != nil {
			t.Fail("refused", "valid delta refused: %v\n%s", err, desc())
		}
		if !bytes.Equal(dst.Bytes(), want.Out) {
			t.Fail("output", "delta wrote %s, want %s\n%s", q(dst.String()), q(string(want.Out)), desc())
		}
		return
	case err == nil:
		t.Fail("accepted", "bad delta applied: mismatch=%v defect=%q, wrote %s\n%s", want.Mismatch, want.Defect, q(dst.String()), desc())
	}
	switch {
	case want.Mismatch && want.Defect != "":
		t.Outcome("mismatch and " + want.Defect)
	case want.Mismatch:
		t.Outcome("mismatch")
		if !isConflict(err) {
			t.Fail("kind", "source size mismatch reported as %v, not a conflict\n%s", err, desc())
		}
	default:
		t.Outcome(want.Defect)
		if isConflict(err) {
			t.Fail("kind", "defect %q reported as the conflict %v\n%s", want.Defect, err, desc())
		}
	}
	limit := want.Declared
	if limit < 0 {
		limit = 0
	}
	if int64(dst.Len()) > limit {
		t.Fail("excess", "%d bytes written, %d declared (%s)\n%s", dst.Len(), want.Declared, want.Defect, desc())
	}
}

// store makes an uncompressed zlib stream; it is much cheaper than deflate.
func store(b []byte) []byte {
	out := make([]byte, 0, len(b)+16)
	out = append(out, 0x78, 0x01)
	rest := b
	for {
		n := min(len(rest), 65535)
		final := byte(0)
		if n == len(rest) {
			final = 1
		}
		out = append(out, final, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
		out = append(out, rest[:n]...)
		rest = rest[n:]
		if final == 1 {
			break
		}
	}
	a, c := uint32(1), uint32(0)
	for _, x := range b {
		a = (a + uint32(x)) % 65521
		c = (c + a) % 65521
	}
	return append(out, byte(c>>8), byte(c), byte(a>>8), byte(a))
}

// copyInstr encodes a copy with exactly the bytes selected by mask (bit 0..3
// offset, 4..6 size) where the value has to be representable.
func copyInstr(off, n int64, mask byte) ([]byte, bool) {
	if n == 65536 && mask>>4 == 0 {
		n = 0
	}
	if n == 65536 && mask>>6&1 == 0 {
		n = 0 // size bytes that are all zero also mean 64 KiB
	}
	b := []byte{0x80 | mask}
	for bit := 0; bit < 7; bit++ {
		var v byte
		if bit < 4 {
			v = byte(off >> (8 * bit))
		} else {
			v = byte(n >> (8 * (bit - 4)))
		}
		if mask>>bit&1 == 1 {
			b = append(b, v)
		} else if v != 0 {
			return nil, false
		}
	}
	return b, true
}

func init() {
	register(&Check{
		ID: "C08", Title: "binary application",
		Assumptions: []string{"Go's compress/zlib inflates correctly; streams are built by it and by an independent stored-block encoder"},
		Scenarios: func(tier string) []engine.Scenario {
			return []engine.Scenario{
				{
					Name:  "delta sequences",
					Bound: fmt.Sprintf("sources of 0..4 bytes, every sequence of <=%d instructions: every copy range in 2 encodings, inserts of 1..2 bytes", sel(tier, 4, 5)),
					Run: func(t *engine.T) {
						n := int64(t.Choose(sel(tier, 4, 5)))
						src := "abcde"[:n]
						var instr []byte
						var res int64
						k := t.Choose(sel(tier, 5, 6))
						for i := 0; i < k; i++ {
							ranges := n * (n + 1) / 2
							c := int64(t.Choose(int(2*ranges + 2)))
							if c >= 2*ranges {
								c -= 2 * ranges
								instr = append(instr, byte(c+1))
								instr = append(instr, "xy"[:c+1]...)
								res += c + 1
								continue
							}
							var off, ln int64
							for idx := c / 2; ; off++ {
								if idx < n-off {
									ln = idx + 1
									break
								}
								idx -= n - off
							}
							mask := byte(0x11)
							if c%2 == 1 {
								mask = 0x7f
							}
							b, _ := copyInstr(off, ln, mask)
							instr = append(instr, b...)
							res += ln
						}
						d := deltaOf(n, res, instr...)
						t.State(src, string(d))
						desc := func() string { return fmt.Sprintf("source %q delta % x", src, d) }
						t.Desc(desc)
						expectDelta(t, strings.NewReader(src), ref.Bytes(src), d, nil, desc)
					},
				},
				{
					Name:  "copy opcodes",
					Bound: fmt.Sprintf("all 127 copy opcodes, every present offset byte and low size byte from %d values, the high size byte from %d, over a source of 2^32+2^25 bytes", sel(tier, 3, 5), sel(tier, 2, 3)),
					Run: func(t *engine.T) {
						const size = 1<<32 + 1<<25
						op := byte(t.Choose(128))
						vals := sel(tier, []byte{0, 1, 0xff}, []byte{0, 1, 0x7f, 0x80, 0xff})
						high := sel(tier, []byte{0, 1}, []byte{0, 1, 3})
						instr := []byte{0x80 | op}
						var off, n int64
						for bit := 0; bit < 7; bit++ {
							if op>>bit&1 == 0 {
								continue
							}
							v := byte(0)
							if bit == 6 {
								v = Pick(t, high)
							} else {
								v = Pick(t, vals)
							}
							instr = append(instr, v)
							if bit < 4 {
								off |= int64(v) << (8 * bit)
							} else {
								n |= int64(v) << (8 * (bit - 4))
							}
						}
						if n == 0 {
							n = 65536
						}
						d := deltaOf(size, n, instr...)
						t.State(string(d))
						desc := func() string { return fmt.Sprintf("copy instruction % x", instr) }
						t.Desc(desc)
						expectDelta(t, virtual(size), virtual(size), d, nil, desc)
					},
				},
				{
					Name:  "large copies",
					Bound: "copies of 2^k-1, 2^k, 2^k+1 bytes for k<=24 and 0xffffff at offsets around 2^j for j<=32, each in every encoding that represents them",
					Run: func(t *engine.T) {
						const size = 1<<33 + 5
						n := Pick(t, append(boundaries(1, sel(tier, 20, 23)), 0xfffffe, 0xffffff))
						if n > 0xffffff || n == 0 {
							t.Skip()
						}
						offs := []int64{0, 1<<32 - 1}
						for _, j := range []uint{8, 16, 24, 31} {
							offs = append(offs, 1<<j-1, 1<<j)
						}
						if n > 1<<16+1 {
							offs = []int64{0, 1<<32 - 1, 1 << 24}
						}
						off := Pick(t, offs)
						var instr []byte
						if n <= 1<<12 {
							b, ok := copyInstr(off, int64(n), byte(t.Choose(128)))
							if !ok {
								t.Skip()
							}
							instr = b
						} else {
							masks := []byte{0x7f, 0x6f, 0x4f, 0x3f, 0x0f}
							b, ok := copyInstr(off, int64(n), Pick(t, masks))
							if !ok {
								t.Skip()
							}
							instr = b
						}
						d := deltaOf(size, int64(n), instr...)
						t.State(string(d))
						desc := func() string { return fmt.Sprintf("copy %d bytes at %d as % x", n, off, instr) }
						t.Desc(desc)
						expectDelta(t, virtual(size), virtual(size), d, nil, desc)
					},
				},
				{
					Name:  "inserts",
					Bound: "an insert of every length 1..127 with every first byte value, alone and between copies",
					Run: func(t *engine.T) {
						n := 1 + t.Choose(127)
						first := byte(t.Choose(256))
						between := t.Bool()
						data := make([]byte, n)
						for i := range data {
							data[i] = first + byte(i*7)
						}
						ins := append([]byte{byte(n)}, data...)
						src := "source"
						d := deltaOf(6, int64(n), ins...)
						if between {
							d = deltaOf(6, int64(n)+5, append(append([]byte{0x90, 3}, ins...), 0x91, 4, 2)...)
						}
						t.State(string(d))
						desc := func() string {
							return fmt.Sprintf("insert %d bytes from 0x%02x, between copies: %v", n, first, between)
						}
						t.Desc(desc)
						expectDelta(t, strings.NewReader(src), ref.Bytes(src), d, nil, desc)
					},
				},
				{
					Name:  "size headers",
					Bound: "source sizes around every 2^(7k) up to 2^56 and result sizes around 2^7, 2^14, 2^21, each header minimal or padded with 1..3 (and up to 9) redundant bytes",
					Run: func(t *engine.T) {
						k := 7 * t.Choose(9)
						ss := int64(1)<<k - 1 + int64(t.Choose(3))
						rs := Pick(t, []int64{0, 1, 127, 128, 129, 16383, 16384, 16385, 1<<21 - 1, 1 << 21, 1<<21 + 1})
						pad := func(b []byte, n int) []byte {
							if n > 0 {
								b[len(b)-1] |= 0x80
								for ; n > 1; n-- {
									b = append(b, 0x80)
								}
								b = append(b, 0)
							}
							return b
						}
						pads := []int{0, 1, 2, 9}
						d := pad(ref.DeltaSize(ss), Pick(t, pads))
						d = append(d, pad(ref.DeltaSize(rs), Pick(t, pads))...)
						left := rs
						for left > 0 && ss > 0 {
							n := min(left, 0xffffff, ss)
							b, _ := copyInstr(0, n, 0x70)
							if n == 65536 {
								b, _ = copyInstr(0, n, 0x40)
							}
							d = append(d, b...)
							left -= n
							if len(d) > 1<<12 {
								t.Skip() // tiny source, large result: covered by inserts
							}
						}
						for left > 0 {
							n := min(left, 127)
							d = append(d, byte(n))
							d = append(d, make([]byte, n)...)
							left -= n
						}
						t.State(string(d[:min(len(d), 64)]), fmt.Sprint(ss, rs, len(d)))
						desc := func() string {
							return fmt.Sprintf("source size %d, result size %d, headers % x", ss, rs, d[:min(len(d), 30)])
						}
						t.Desc(desc)
						expectDelta(t, virtual(ss), virtual(ss), d, nil, desc)
					},
				},
				{
					Name:  "literals",
					Bound: fmt.Sprintf("literals of every size 0..%d and around every power of two up to 2^%d, 3 contents, every compression level and stored blocks, over 3 sources", sel(tier, 300, 2000), sel(tier, 20, 24)),
					Run: func(t *engine.T) {
						n := Pick(t, append(upTo(sel(tier, 301, 2001)), boundaries(9, sel(tier, 20, 24))...))
						kind := t.Choose(3)
						data := make([]byte, n)
						for i := range data {
							switch kind {
							case 1:
								data[i] = vbyte(int64(i))
							case 2:
								data[i] = "line\n"[i%5]
							}
						}
						levels := 13
						if n > 300 {
							levels = 3
						}
						l := t.Choose(levels)
						var raw []byte
						if l == 0 {
							raw = store(data)
						} else {
							raw = deflateLevel(data, []int{0, 6, 1, 2, 3, 4, 5, 7, 8, 9, -1, -2, 9}[l])
						}
						src := Pick(t, []string{"", "old content", "l0\nl1\n"})
						t.State(fmt.Sprint(n, kind, l, len(src)))
						t.Desc(func() string { return fmt.Sprintf("literal of %d bytes, content %d, compression %d", n, kind, l) })
						t.Trace()
						f := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(n), RawData: raw}
						out, err := applyTo(src, binFile(f))
						if err != nil {
							t.Fail("refused", "literal of %d bytes refused: %v", n, err)
						}
						if out != string(data) {
							t.Fail("output", "literal of %d bytes wrote %d bytes: %s", n, len(out), q(out))
						}
						t.Outcome("applies")
					},
				},
				{
					Name:  "whole patches",
					Bound: "literal and delta patches with forward and reverse sections as text, parsed and applied in both directions, payload sizes 0..120 and around multiples of 52",
					Run: func(t *engine.T) {
						n := t.Choose(sel(tier, 121, 400))
						m := t.Choose(4)
						old, new := numbered(20), string(virtual(9000).Range(int64(n), int64(n)))
						dl := func(a, b string) []byte {
							d := deltaOf(int64(len(a)), int64(len(b)))
							for len(b) > 0 {
								k := min(len(b), 127)
								d = append(append(d, byte(k)), b[:k]...)
								b = b[k:]
							}
							return d
						}
						sec := func(delta bool, a, b string) string {
							if delta {
								d := dl(a, b)
								return encodeBinary("delta", int64(len(d)), deflate(d))
							}
							return encodeBinary("literal", int64(len(b)), deflate([]byte(b)))
						}
						patch := "diff --git a/f b/f\nindex 1111111..2222222 100644\nGIT binary patch\n" + sec(m&1 == 1, old, new) + sec(m&2 == 2, new, old)
						t.State(patch)
						t.Desc(func() string { return fmt.Sprintf("payload %d, methods %d", n, m) })
						t.Trace()
						f := parseOne(t, patch)
						out, err := applyTo(old, f)
						if err != nil || out != new {
							t.Fail("forward", "forward section: %v, wrote %s want %s", err, q(out), q(new))
						}
						if f.ReverseBinaryFragment == nil {
							t.Fail("reverse", "no reverse section")
						}
						out, err = applyTo(new, binFile(f.ReverseBinaryFragment))
						if err != nil || out != old {
							t.Fail("reverse", "reverse section: %v, wrote %s want %s", err, q(out), q(old))
						}
						t.Outcome("applies")
					},
				},
			}
		},
	})
}
