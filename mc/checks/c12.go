package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

const binHeader = "diff --git a/f b/f\nindex 1111111..2222222 100644\nGIT binary patch\n"

// verifyBinaryText parses binHeader+body and compares with the reference.
func verifyBinaryText(t *engine.T, body string) {
	t.Trace()
	lines := ref.Lines(body)
	fwd, n, present, ok, unspec := ref.ParseBinarySection(lines)
	wantErr := !present || !ok
	var rev ref.BinarySection
	hasRev := false
	if !wantErr {
		var rok, u2 bool
		var m int
		rev, m, hasRev, rok, u2 = ref.ParseBinarySection(lines[n:])
		unspec = unspec || u2
		n += m
		if hasRev && !rok {
			wantErr = true
		}
	}
	if unspec {
		t.Outcome("unspecified")
		return
	}
	if !wantErr {
		for _, l := range lines[n:] {
			if strings.HasPrefix(l, "diff --git ") || strings.HasPrefix(l, "@@ -") || strings.HasPrefix(l, "--- ") {
				t.Outcome("unspecified")
				return // another file or a stray hunk follows
			}
		}
	}
	fs, _, err := gitdiff.Parse(strings.NewReader(binHeader + body))
	if wantErr {
		t.Outcome("rejected")
		if err == nil {
			t.Fail("accepted", "malformed binary patch accepted:\n%s", q(body))
		}
		return
	}
	t.Outcome("accepted")
	if err != nil {
		t.Fail("refused", "valid binary patch rejected: %v\n%s", err, q(body))
	}
	if len(fs) != 1 || !fs[0].IsBinary || fs[0].BinaryFragment == nil || len(fs[0].TextFragments) != 0 {
		t.Fail("shape", "expected one binary file with data\n%s", q(body))
	}
	cmp := func(side string, f *gitdiff.BinaryFragment, s ref.BinarySection) {
		if (f.Method == gitdiff.BinaryPatchDelta) != (s.Method == "delta") || (f.Method == gitdiff.BinaryPatchLiteral) != (s.Method == "literal") {
			t.Fail("method", "%s: method %v for %s\n%s", side, f.Method, s.Method, q(body))
		}
		if f.Size != s.Size {
			t.Fail("size", "%s: size %d, want %d\n%s", side, f.Size, s.Size, q(body))
		}
		if string(f.RawData) != string(s.Data) {
			t.Fail("data", "%s: data %x, want %x\n%s", side, f.RawData, s.Data, q(body))
		}
	}
	cmp("forward", fs[0].BinaryFragment, fwd)
	if hasRev != (fs[0].ReverseBinaryFragment != nil) {
		t.Fail("reverse", "reverse section: %v, want %v\n%s", !hasRev, hasRev, q(body))
	}
	if hasRev {
		cmp("reverse", fs[0].ReverseBinaryFragment, rev)
	}
}

// verifyBinaryRoundTrip formats fragments, compares the text with git's
// encoding and parses it back.
func verifyBinaryRoundTrip(t *engine.T, f *gitdiff.BinaryFragment, rev *gitdiff.BinaryFragment, hdr *gitdiff.File) {
	t.Trace()
	name := func(m gitdiff.BinaryPatchMethod) string {
		if m == gitdiff.BinaryPatchDelta {
			return "delta"
		}
		return "literal"
	}
	want := encodeBinary(name(f.Method), f.Size, f.RawData)
	if got := f.String(); got != want {
		t.Fail("text", "fragment formats as %s, git writes %s", q(got), q(want))
	}
	if rev != nil {
		want += encodeBinary(name(rev.Method), rev.Size, rev.RawData)
	}
	file := *hdr
	file.IsBinary, file.BinaryFragment, file.ReverseBinaryFragment = true, f, rev
	text := file.String()
	if !strings.HasSuffix(text, "GIT binary patch\n"+want) {
		t.Fail("text", "file formats as %s, expected it to end with %s", q(text), q(want))
	}
	fs, _, err := gitdiff.Parse(strings.NewReader(text))
	if err != nil || len(fs) != 1 {
		t.Fail("parse", "formatted patch: %d files, %v\n%s", len(fs), err, q(text))
	}
	g := *fs[0]
	for _, p := range []struct{ a, b *gitdiff.BinaryFragment }{{f, g.BinaryFragment}, {rev, g.ReverseBinaryFragment}} {
		if (p.a == nil) != (p.b == nil) {
			t.Fail("lost", "fragment lost or invented\n%s", q(text))
		}
		if p.a == nil {
			continue
		}
		if p.a.Method != p.b.Method || p.a.Size != p.b.Size || string(p.a.RawData) != string(p.b.RawData) {
			t.Fail("round-trip", "fragment changed: %v %d %x -> %v %d %x", p.a.Method, p.a.Size, p.a.RawData, p.b.Method, p.b.Size, p.b.RawData)
		}
	}
	t.Outcome("round trip")
}

func init() {
	register(&Check{
		ID: "C12", Title: "binary patch text",
		Assumptions: []string{"padding bytes of the last group need not be zero (git does not check them either)"},
		Scenarios: func(tier string) []engine.Scenario {
			hdr := &gitdiff.File{OldName: "f", NewName: "f", OldMode: 0o100644, OldOIDPrefix: "1111111", NewOIDPrefix: "2222222"}
			methods := []gitdiff.BinaryPatchMethod{gitdiff.BinaryPatchLiteral, gitdiff.BinaryPatchDelta}
			data := func(n, kind int) []byte {
				b := make([]byte, n)
				for i := range b {
					switch kind {
					case 1:
						b[i] = 0xff
					case 2:
						b[i] = vbyte(int64(i))
					case 3:
						b[i] = byte(i)
					}
				}
				return b
			}
			sample := encodeBinary("literal", 70, data(70, 2)) + encodeBinary("delta", 9, data(9, 2))
			short := encodeBinary("literal", 3, data(6, 2))
			return []engine.Scenario{
				{
					Name:  "lengths",
					Bound: fmt.Sprintf("payloads of every length 0..%d and around powers of two up to 2^%d, 4 contents, both methods, with and without a reverse section", sel(tier, 320, 1100), sel(tier, 16, 20)),
					Run: func(t *engine.T) {
						n := Pick(t, append(upTo(sel(tier, 321, 1101)), boundaries(11, sel(tier, 16, 20))...))
						k := t.Choose(4)
						m := Pick(t, methods)
						f := &gitdiff.BinaryFragment{Method: m, Size: int64(n) * 3, RawData: data(n, k)}
						var rev *gitdiff.BinaryFragment
						if t.Bool() {
							rev = &gitdiff.BinaryFragment{Method: methods[1-int(m)%2], Size: 7, RawData: data(n/2+1, 3-k)}
						}
						t.State(fmt.Sprint(n, k, m, rev == nil))
						t.Desc(func() string {
							return fmt.Sprintf("payload of %d bytes, content %d, method %d, reverse %v", n, k, m, rev != nil)
						})
						verifyBinaryRoundTrip(t, f, rev, hdr)
					},
				},
				{
					Name:  "byte values",
					Bound: "payloads of 1..9 bytes (and 49..53) with every byte value at every position on two backgrounds; every pair of bytes from 16 values for 2..4 byte payloads",
					Run: func(t *engine.T) {
						n := 1 + t.Choose(14)
						if n > 9 {
							n += 39
						}
						b := data(n, t.Choose(2))
						if n <= 4 && n >= 2 && t.Bool() {
							vals := []byte{0, 1, 2, 0x10, 0x54, 0x55, 0x56, 0x7f, 0x80, 0x81, 0xa9, 0xaa, 0xab, 0xfe, 0xff, 0x0a}
							i := t.Choose(n - 1)
							b[i], b[i+1] = Pick(t, vals), Pick(t, vals)
						} else {
							b[t.Choose(n)] = byte(t.Choose(256))
						}
						t.State(string(b))
						t.Desc(func() string { return fmt.Sprintf("payload % x", b) })
						verifyBinaryRoundTrip(t, &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(n), RawData: b}, nil, hdr)
					},
				},
				{
					Name:  "sizes",
					Bound: "declared sizes around every power of two and of ten up to 2^63-1, both methods",
					Run: func(t *engine.T) {
						var s int64
						if t.Bool() {
							k := t.Choose(63)
							s = int64(1)<<k - 2 + int64(t.Choose(4))
							if k == 62 {
								s = 1<<63 - 1 - int64(t.Choose(3))
							}
						} else {
							s = 1
							for i := t.Choose(19); i > 0; i-- {
								s *= 10
							}
							s += int64(t.Choose(3)) - 1
						}
						if s < 0 {
							t.Skip()
						}
						t.State(fmt.Sprint(s))
						t.Desc(func() string { return fmt.Sprint("declared size ", s) })
						verifyBinaryRoundTrip(t, &gitdiff.BinaryFragment{Method: Pick(t, methods), Size: s, RawData: data(5, 2)}, nil, hdr)
					},
				},
				{
					Name:  "size text",
					Bound: "29 spellings of the size",
					Run: func(t *engine.T) {
						s := Pick(t, []string{"0", "1", "007", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999", "-1", "-0", "", " ", "5 ", " 5", "5x", "x5", "0x5", "5.0", "1e3", "1_0", "5\t", "\t5", "5,", "５", "nan", "5-", "--5", "0b1", "5 5", "5\r"})
						m := Pick(t, []string{"literal", "delta"})
						body := m + " " + s + "\n" + ref.EncodeBinaryLines(data(5, 2)) + "\n"
						if t.Bool() {
							body = encodeBinary("literal", 1, data(3, 1)) + body
						}
						t.State(body)
						t.Desc(func() string { return q(body) })
						if s == "-0" || s == "5 " || s == "5\t" || s == "5\r" {
							t.Skip()
						}
						verifyBinaryText(t, body)
					},
				},
				{
					Name:  "line shapes",
					Bound: "a data line with every length byte (256) and 0..70 characters of 3 kinds, followed by the blank line, another line, or the end of the input",
					Run: func(t *engine.T) {
						c := byte(t.Choose(256))
						n := t.Choose(71)
						line := string([]byte{c}) + strings.Repeat(Pick(t, []string{"0", "~", "z"}), n) + "\n"
						if c == '\n' {
							t.Skip()
						}
						body := "literal 5\n" + line + Pick(t, []string{"\n", "A00000\n\n", ""})
						t.State(body)
						t.Desc(func() string { return q(body) })
						verifyBinaryText(t, body)
					},
				},
				{
					Name:  "groups",
					Bound: "five-character groups around 2^32 (every pair of the last two characters for 6 prefixes; every character at every position of 3 groups), as the first, last, or only group",
					Run: func(t *engine.T) {
						g := []byte("00000")
						if t.Bool() {
							copy(g, Pick(t, []string{"|Ns", "|Nt", "|Nr", "|O0", "}00", "000"}))
							g[3] = ref.Alphabet85[t.Choose(85)]
							g[4] = ref.Alphabet85[t.Choose(85)]
						} else {
							copy(g, Pick(t, []string{"|NsC0", "00000", "~~~~~"}))
							g[t.Choose(5)] = byte(t.Choose(256))
						}
						if strings.IndexByte(string(g), '\n') >= 0 {
							t.Skip()
						}
						body := "literal 5\n" + Pick(t, []string{"D" + string(g), "A" + string(g), "B" + string(g), "F00000" + string(g), "F" + string(g) + "00000", "H" + string(g) + string(g)}) + "\n\n"
						t.State(body)
						t.Desc(func() string { return q(body) })
						verifyBinaryText(t, body)
					},
				},
				{
					Name:  "damage",
					Bound: "a patch with a forward and a reverse section: cut at every byte, every byte replaced by every value, dropped, doubled, and every line dropped, doubled or swapped with the next",
					Run: func(t *engine.T) {
						body := sample
						switch t.Choose(5) {
						case 0:
							body = body[:t.Choose(len(body)+1)]
						case 1:
							i := t.Choose(len(body))
							body = body[:i] + string([]byte{byte(t.Choose(256))}) + body[i+1:]
						case 2:
							i := t.Choose(len(body))
							body = body[:i] + body[i+1:]
						case 3:
							i := t.Choose(len(body))
							body = body[:i+1] + body[i:]
						case 4:
							l := ref.Lines(body)
							i := t.Choose(len(l))
							switch t.Choose(3) {
							case 0:
								l = append(l[:i:i], l[i+1:]...)
							case 1:
								l = append(l[:i+1:i+1], l[i:]...)
							case 2:
								if i+1 < len(l) {
									l[i], l[i+1] = l[i+1], l[i]
								}
							}
							body = strings.Join(l, "")
						}
						t.State(body)
						t.Desc(func() string { return q(body) })
						verifyBinaryText(t, body)
					},
				},
				{
					Name:  "line sequences",
					Bound: fmt.Sprintf("every sequence of <=%d lines from 12 after the binary marker", sel(tier, 5, 6)),
					Run: func(t *engine.T) {
						menu := []string{"literal 4\n", "delta 4\n", "\n", "D00000\n", "H0000000000\n", "A00000\n", "E00000\n", "D0000\n", "literal\n", "-- \n", " \n", "z" + strings.Repeat("0", 65) + "\n"}
						n := t.Choose(sel(tier, 5, 6) + 1)
						var b strings.Builder
						for i := 0; i < n; i++ {
							b.WriteString(Pick(t, menu))
						}
						body := b.String()
						t.State(body)
						t.Desc(func() string { return q(body) })
						verifyBinaryText(t, body)
					},
				},
				{
					Name:  "double damage",
					Bound: "a short section with every pair of characters replaced by every pair from 10 values",
					Run: func(t *engine.T) {
						b := []byte(short)
						i, j := t.Choose(len(b)), t.Choose(len(b))
						if j <= i {
							t.Skip()
						}
						vals := []byte("A0z~| \n-\"1")
						b[i], b[j] = Pick(t, vals), Pick(t, vals)
						t.State(string(b))
						t.Desc(func() string { return q(string(b)) })
						verifyBinaryText(t, string(b))
					},
				},
			}
		},
	})
}
