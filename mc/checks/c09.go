package checks

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C09", Title: "rejection of bad deltas",
		Assumptions: []string{"where a delta has both a size mismatch and another defect, either report is accepted"},
		Scenarios: func(tier string) []engine.Scenario {
			run := func(t *engine.T, src string, d []byte) {
				t.State(src, string(d))
				desc := func() string { return fmt.Sprintf("source of %d bytes, delta % x", len(src), clip(string(d))) }
				t.Desc(desc)
				expectDelta(t, strings.NewReader(src), ref.Bytes(src), d, nil, desc)
			}
			// valid deltas to damage
			long := numbered(3000)
			var valid [][]byte
			var vsrc []string
			add := func(src string, res int64, instr ...byte) {
				valid = append(valid, deltaOf(int64(len(src)), res, instr...))
				vsrc = append(vsrc, src)
			}
			add("abc", 3, 0x90, 3)
			add("abcdef", 9, 0x91, 2, 4, 3, 'x', 'y', 'z', 0x90, 2)
			add(long, 300, 0xb1, 7, 44, 1)
			add(long, 258, 0xb3, 0x10, 2, 2, 1)
			add(long[:65536%len(long)], 2, 2, 'a', 'b')
			add("", 3, 1, 'a', 1, 'b', 1, 'c')
			add(strings.Repeat("x", 65536), 65537, 0x80, 1, 'y')
			add("abcdef", 12, 0xff, 1, 0, 0, 0, 5, 0, 0, 0xff, 0, 0, 0, 0, 6, 0, 0, 1, 'z')
			return []engine.Scenario{
				{
					Name:  "byte strings",
					Bound: fmt.Sprintf("every instruction string of <=%d bytes over 13 byte values, declared result size 0..4, sources of 0..3 bytes", sel(tier, 4, 5)),
					Run: func(t *engine.T) {
						src := "abc"[:t.Choose(4)]
						ds := int64(t.Choose(5))
						alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x80, 0x81, 0x90, 0x91, 0x94, 0xb0, 0xc0, 0xff}
						n := t.Choose(sel(tier, 5, 6))
						b := make([]byte, n)
						for i := range b {
							b[i] = Pick(t, alpha)
						}
						run(t, src, deltaOf(int64(len(src)), ds, b...))
					},
				},
				{
					Name:  "whole strings",
					Bound: fmt.Sprintf("every delta string of <=%d bytes over 9 byte values, including its headers, sources of 0..3 bytes", sel(tier, 5, 6)),
					Run: func(t *engine.T) {
						src := "abc"[:t.Choose(4)]
						alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x80, 0x81, 0x83, 0x90, 0xff}
						n := t.Choose(sel(tier, 6, 7))
						b := make([]byte, n)
						for i := range b {
							b[i] = Pick(t, alpha)
						}
						run(t, src, b)
					},
				},
				{
					Name:  "damage",
					Bound: fmt.Sprintf("%d valid deltas: cut at every byte, every byte replaced by every value, every byte dropped or doubled, followed by every byte value", len(valid)),
					Run: func(t *engine.T) {
						i := t.Choose(len(valid))
						d := append([]byte(nil), valid[i]...)
						switch t.Choose(4) {
						case 0:
							d = d[:t.Choose(len(d)+1)]
						case 1:
							j := t.Choose(len(d))
							d[j] = byte(t.Choose(256))
						case 2:
							j := t.Choose(len(d))
							if t.Bool() {
								d = append(d[:j], d[j+1:]...)
							} else {
								d = append(d[:j+1], valid[i][j:]...)
							}
						case 3:
							d = append(d, byte(t.Choose(256)))
						}
						run(t, vsrc[i], d)
					},
				},
				{
					Name:  "double damage",
					Bound: "four short valid deltas with every pair of bytes replaced by every pair of 12 values",
					Run: func(t *engine.T) {
						i := Pick(t, []int{0, 1, 3, 5})
						d := append([]byte(nil), valid[i]...)
						vals := []byte{0, 1, 2, 3, 4, 6, 0x7f, 0x80, 0x81, 0x90, 0x91, 0xff}
						a := t.Choose(len(d))
						b := t.Choose(len(d))
						if b <= a {
							t.Skip()
						}
						d[a], d[b] = Pick(t, vals), Pick(t, vals)
						run(t, vsrc[i], d)
					},
				},
				{
					Name:  "size mismatch",
					Bound: "sources of 0..40, 127..129, 16383..16385 and 65535..65537 bytes against recorded sizes within 3, and 0, 1, 128, 2^31, 2^32, 2^63-1",
					Run: func(t *engine.T) {
						n := Pick(t, append(upTo(41), 127, 128, 129, 1023, 1024, 1025, 16383, 16384, 16385, 65535, 65536, 65537))
						var rec int64
						if c := t.Choose(14); c < 7 {
							rec = int64(n) - 3 + int64(c)
						} else {
							rec = []int64{0, 1, 128, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 14}[c-7]
						}
						if rec < 0 {
							t.Skip()
						}
						run(t, sourceOfSize(n, true), deltaOf(rec, 2, 2, 'x', 'y'))
					},
				},
				{
					Name:  "headers",
					Bound: "both size headers with 0..12 continuation bytes of 4 values and 6 final bytes or none",
					Run: func(t *engine.T) {
						hdr := func() []byte {
							var b []byte
							first := byte(0x80)
							if t.Bool() {
								first = 0x82
							}
							k := t.Choose(13)
							fill := Pick(t, []byte{0x80, 0xff, 0x81})
							for i := 0; i < k; i++ {
								if i == 0 {
									b = append(b, first)
								} else {
									b = append(b, fill)
								}
							}
							switch c := t.Choose(6); c {
							case 5:
							default:
								b = append(b, []byte{0, 1, 2, 0x7f, 0x40}[c])
							}
							return b
						}
						d := append(hdr(), hdr()...)
						if t.Bool() {
							d = append(d, 2, 'x', 'y')
						}
						run(t, "ab", d)
					},
				},
				{
					Name:  "copy ranges",
					Bound: "copies with offset and length around the end of sources of 0..6, 255..257 and 65535..65537 bytes, declared size right or off by one",
					Run: func(t *engine.T) {
						n := int64(Pick(t, []int{0, 1, 2, 3, 4, 5, 6, 255, 256, 257, 65535, 65536, 65537}))
						off := n - 3 + int64(t.Choose(6))
						if t.Bool() {
							off = int64(t.Choose(3))
						}
						if off < 0 {
							t.Skip()
						}
						ln := Pick(t, []int64{0, 1, 2, 3, 4, n - 1, n, n + 1, 65536, 65537, 0xffffff})
						if ln < 0 {
							t.Skip()
						}
						enc := ln
						if ln == 65536 {
							enc = 0
						}
						real := ln
						if ln == 0 {
							real = 65536
						}
						b, ok := copyInstr(off, enc, 0x7f)
						if !ok {
							t.Skip()
						}
						ds := real - 1 + int64(t.Choose(3))
						run(t, sourceOfSize(int(n), true), deltaOf(n, ds, b...))
					},
				},
			}
		},
	})
}
