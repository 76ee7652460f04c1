package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// An applyCase is a patch with a source and the model's verdict.
type applyCase struct {
	name     string
	src      string
	f        *gitdiff.File
	ok       bool
	out      string
	conflict bool
}

// sourceOfSize builds a source of exactly n bytes out of short lines.
func sourceOfSize(n int, eol bool) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "l%d\n", i)
	}
	s := b.String()[:n]
	if eol && n > 0 {
		s = s[:n-1] + "\n"
	} else if n > 0 && s[n-1] == '\n' {
		s = s[:n-1] + "x"
	}
	return s
}

func textCase(name, src string, hs ...*ref.Hunk) applyCase {
	r := ref.ApplyHunks(src, hs)
	return applyCase{name: name, src: src, f: fileOf(hs), ok: r.OK, out: r.Out, conflict: !r.OK}
}

func deltaCase(name, src string, d []byte) applyCase {
	r := ref.RunDelta(ref.Bytes(src), d)
	f := &gitdiff.File{OldName: "f", NewName: "f", IsBinary: true, BinaryFragment: binFrag(gitdiff.BinaryPatchDelta, d)}
	return applyCase{name: name, src: src, f: f, ok: r.OK, out: string(r.Out), conflict: !r.OK && r.Mismatch}
}

// applyCases lists patches whose reads touch the end of the source in every
// way, for the given source sizes.
func applyCases(sizes []int) (out []applyCase) {
	hunk := func(pos, npos int64, ops ...ref.Op) *ref.Hunk {
		h := &ref.Hunk{OldPos: pos, NewPos: npos, Body: ops}
		h.Count()
		return h
	}
	for _, n := range sizes {
		for _, eol := range []bool{true, false} {
			if n == 0 && !eol {
				continue
			}
			src := sourceOfSize(n, eol)
			lines := ref.Lines(src)
			k := len(lines)
			name := fmt.Sprintf("%d bytes, %d lines, eol=%v: ", n, k, eol)
			add := func(what string, hs ...*ref.Hunk) { out = append(out, textCase(name+what, src, hs...)) }
			if k > 0 {
				last := lines[k-1]
				add("replace first line", hunk(1, 1, ref.Op{Kind: '-', Text: lines[0]}, ref.Op{Kind: '+', Text: "n\n"}))
				add("replace last line", hunk(int64(k), int64(k), ref.Op{Kind: '-', Text: last}, ref.Op{Kind: '+', Text: "n\n"}))
				add("append after last line", hunk(int64(k), int64(k)+1, ref.Op{Kind: '+', Text: "n\n"}))
				add("context at end", hunk(int64(k), int64(k), ref.Op{Kind: '+', Text: "n\n"}, ref.Op{Kind: ' ', Text: last}))
				add("mismatch at end", hunk(int64(k), int64(k), ref.Op{Kind: '-', Text: last + "x"}))
				add("past the end", hunk(int64(k)+1, int64(k)+1, ref.Op{Kind: '-', Text: "x\n"}))
				add("last line and past the end", hunk(int64(k), int64(k), ref.Op{Kind: '-', Text: last}, ref.Op{Kind: '-', Text: "x\n"}))
				if k > 2 {
					add("two hunks", hunk(1, 1, ref.Op{Kind: '-', Text: lines[0]}), hunk(int64(k)-1, int64(k)-2, ref.Op{Kind: ' ', Text: lines[k-2]}, ref.Op{Kind: '-', Text: last}))
					add("middle", hunk(int64(k/2)+1, int64(k/2)+1, ref.Op{Kind: '-', Text: lines[k/2]}, ref.Op{Kind: '+', Text: "n\n"}))
				}
				var del []ref.Op
				for _, l := range lines {
					del = append(del, ref.Op{Kind: '-', Text: l})
				}
				add("delete all", hunk(1, 0, del...))
				if k > 1 {
					add("delete all but one", hunk(1, 0, del[:k-1]...))
				}
			}
			add("create", hunk(0, 1, ref.Op{Kind: '+', Text: "n\n"}))
			out = append(out, applyCase{name: name + "no change", src: src, f: &gitdiff.File{OldName: "a", NewName: "b", IsCopy: true}, ok: true, out: src})
			out = append(out, applyCase{name: name + "literal", src: src, ok: true, out: "lit\x00eral",
				f: &gitdiff.File{IsBinary: true, BinaryFragment: binFrag(gitdiff.BinaryPatchLiteral, []byte("lit\x00eral"))}})
			delta := func(what string, d []byte) { out = append(out, deltaCase(name+what, src, d)) }
			m := int64(n)
			cp := func(off, sz int64) []byte {
				return []byte{0xff, byte(off), byte(off >> 8), byte(off >> 16), byte(off >> 24), byte(sz), byte(sz >> 8), byte(sz >> 16)}
			}
			if n > 0 {
				delta("copy all", deltaOf(m, m, cp(0, m)...))
				delta("copy last byte", deltaOf(m, 1, cp(m-1, 1)...))
				delta("copy and one more", deltaOf(m, m+1, cp(0, m+1)...))
				delta("copy tail twice", deltaOf(m, 2*(m-m/2)+1, append(append(cp(m/2, m-m/2), 1, 'x'), cp(m/2, m-m/2)...)...))
				if n == 65536 {
					delta("implied size", deltaOf(m, m, 0x80))
				}
			}
			delta("insert only", deltaOf(m, 2, 2, 'x', 'y'))
			delta("source one larger", deltaOf(m+1, 2, 2, 'x', 'y'))
			if n > 0 {
				delta("source one smaller", deltaOf(m-1, 2, 2, 'x', 'y'))
			}
		}
	}
	return out
}

// largeCases lists patches for sources of more than a million bytes.
func largeCases(bits int) (out []func() applyCase) {
	source := onceMap[int, string]{}
	for _, n := range []int{1<<20 - 1, 1<<20 + 1, 1<<23 + 1, 1 << 24, 1<<bits + 1} {
		src := func() string {
			return source.get(n, func() string {
				line := strings.Repeat("0123456789", 100)
				var b strings.Builder
				for i := 0; b.Len() < n; i++ {
					b.WriteString(fmt.Sprintf("%d %s", i, line)[:999] + "\n")
				}
				return b.String()[:n]
			})
		}
		out = append(out,
			func() applyCase {
				return applyCase{name: fmt.Sprint(n, " bytes: no change"), src: src(), f: &gitdiff.File{OldName: "a", NewName: "b", IsCopy: true}, ok: true, out: src()}
			},
			func() applyCase {
				return applyCase{name: fmt.Sprint(n, " bytes: literal"), src: "old", ok: true, out: src(), f: &gitdiff.File{IsBinary: true, BinaryFragment: binFrag(gitdiff.BinaryPatchLiteral, []byte(src()))}}
			},
			func() applyCase {
				var d []byte
				for at := 0; at < n; at += 0xf00000 {
					sz := min(0xf00000, n-at)
					d = append(d, 0xff, byte(at), byte(at>>8), byte(at>>16), byte(at>>24), byte(sz), byte(sz>>8), byte(sz>>16))
				}
				return deltaCase(fmt.Sprint(n, " bytes: copy"), src(), deltaOf(int64(n), int64(n), d...))
			})
		for _, at := range []int{0, 1, 2} {
			out = append(out, func() applyCase {
				lines := ref.Lines(src())
				k := []int{0, len(lines) / 2, len(lines) - 1}[at]
				h := &ref.Hunk{OldPos: int64(k) + 1, NewPos: int64(k) + 1, Body: []ref.Op{{Kind: '-', Text: lines[k]}, {Kind: '+', Text: "n\n"}}}
				h.Count()
				return textCase(fmt.Sprintf("%d bytes: replace line %d", n, k+1), src(), h)
			})
		}
	}
	return out
}

// countedLines counts the calls for lines.
type countedLines struct {
	envLineSource
	calls int
}

func (s *countedLines) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	s.calls++
	return s.envLineSource.ReadLinesAt(lines, off)
}

var sourceFiles onceMap[string, string]

// sourceFile opens a file with the content.
func sourceFile(content string) *os.File {
	name := sourceFiles.get(content, func() string {
		f, err := os.CreateTemp(os.Getenv("VERIF_WORK"), "src")
		if err != nil {
			panic("engine: " + err.Error())
		}
		defer f.Close()
		if _, err := f.WriteString(content); err != nil {
			panic("engine: " + err.Error())
		}
		return f.Name()
	})
	f, err := os.Open(name)
	if err != nil {
		panic("engine: " + err.Error())
	}
	return f
}

func init() {
	register(&Check{
		ID: "C06", Title: "independence of endpoints",
		Assumptions: []string{"a line source returns no error together with a full read (the interface leaves that open)"},
		Scenarios: func(tier string) []engine.Scenario {
			sizes := append(upTo(9), 16, 255, 1023, 1024, 1025, 2047, 2048, 2049, 32767, 32768, 32769)
			if tier == "thorough" {
				sizes = append(append(upTo(40), sizes[9:]...), 3072, 4095, 4096, 4097, 65535, 65536, 65537, 98304)
			} else {
				sizes = append(sizes, 65536)
			}
			cases := applyCases(sizes)
			check := func(t *engine.T, c applyCase, out string, err error, how string) {
				t.Trace()
				if c.ok {
					t.Outcome("applies")
					if err != nil {
						t.Fail("refused", "%s with %s: %v", c.name, how, err)
					}
					if out != c.out {
						t.Fail("output", "%s with %s: wrote %s, want %s", c.name, how, q(out), q(c.out))
					}
					return
				}
				t.Outcome(fmt.Sprint("fails, conflict=", c.conflict))
				if err == nil {
					t.Fail("accepted", "%s with %s: succeeded", c.name, how)
				}
				if isConflict(err) != c.conflict {
					t.Fail("kind", "%s with %s: error %v, conflict wanted: %v", c.name, how, err, c.conflict)
				}
			}
			endpoints := func(t *engine.T, c applyCase, si, wi int) {
				t.State(c.name, fmt.Sprint(si, wi))
				t.Desc(func() string { return fmt.Sprint(c.name, " source ", si, " destination ", wi) })
				var s io.ReaderAt
				switch si {
				case 0:
					s = bytes.NewReader([]byte(c.src))
				case 1:
					s = strings.NewReader(c.src)
				case 2:
					s = &envSource{data: c.src}
				case 3:
					s = &envLineSource{envSource{data: c.src}, ref.Lines(c.src)}
				case 4:
					s = io.NewSectionReader(strings.NewReader("before"+c.src+"after"), 6, int64(len(c.src)))
				case 5:
					r := bytes.NewReader([]byte(c.src))
					io.CopyN(io.Discard, r, int64(len(c.src)/2+1))
					s = r
				case 6:
					r := io.NewSectionReader(strings.NewReader("before"+c.src+"after"), 6, int64(len(c.src)))
					io.Copy(io.Discard, r)
					s = r
				case 7, 8:
					f := sourceFile(c.src)
					defer f.Close()
					if si == 8 {
						io.CopyN(io.Discard, f, int64(len(c.src)/2+1))
					}
					s = f
				}
				var out string
				var err error
				switch wi {
				case 0:
					w := &envWriter{}
					err = gitdiff.Apply(w, s, c.f)
					out = string(w.out)
				case 1:
					w := &stringWriter{}
					err = gitdiff.Apply(w, s, c.f)
					out = string(w.out)
				case 2:
					var w bytes.Buffer
					err = gitdiff.Apply(&w, s, c.f)
					out = w.String()
				case 3:
					var b bytes.Buffer
					w := bufio.NewWriterSize(&b, 16)
					err = gitdiff.Apply(w, s, c.f)
					w.Flush()
					out = b.String()
				case 4:
					var b, b2 bytes.Buffer
					err = gitdiff.Apply(io.MultiWriter(&b, &b2), s, c.f)
					out = b.String()
					if b2.String() != out {
						t.Fail("output", "writers disagree")
					}
				case 5:
					pr, pw := io.Pipe()
					done := make(chan string)
					go func() { b, _ := io.ReadAll(pr); done <- string(b) }()
					err = gitdiff.Apply(pw, s, c.f)
					pw.Close()
					out = <-done
				}
				check(t, c, out, err, fmt.Sprintf("source %d, destination %d", si, wi))
			}
			large := largeCases(sel(tier, 24, 26))
			return []engine.Scenario{
				{
					Name:  "end-of-input answers",
					Bound: fmt.Sprintf("%d patches (source sizes 0..8 and around 1K, 2K, 32K, 64K; hunks, copies and checks that touch the end): at every read that ends exactly at the end of the source, io.EOF is or is not returned together with the data, in every combination", len(cases)),
					Run: func(t *engine.T) {
						c := cases[t.Choose(len(cases))]
						var answers []bool
						s := &envSource{data: c.src, eof: func() bool { b := t.Bool(); answers = append(answers, b); return b }}
						var w envWriter
						t.Desc(func() string { return fmt.Sprintf("%s, answers %v", c.name, answers) })
						err := gitdiff.Apply(&w, s, c.f)
						t.State(c.name, fmt.Sprint(answers))
						check(t, c, string(w.out), err, fmt.Sprintf("io.EOF answers %v", answers))
					},
				},
				{
					Name:  "endpoints",
					Bound: "the same patches with every combination of 9 sources (bytes.Reader, strings.Reader, minimal io.ReaderAt, line access, io.SectionReader, os.File; bytes.Reader, io.SectionReader and os.File from which something was read before) and 6 destinations (minimal writer, string writer, bytes.Buffer, bufio.Writer of 16 bytes, io.MultiWriter, pipe)",
					Run: func(t *engine.T) {
						c := cases[t.Choose(len(cases))]
						si, wi := t.Choose(9), t.Choose(6)
						if len(c.src) > 4000 && wi == 5 {
							t.Skip() // rendezvous per write; covered with small sources
						}
						endpoints(t, c, si, wi)
					},
				},
				{
					Name:  "large sources",
					Bound: fmt.Sprintf("%d patches for sources of up to 2^%d bytes in lines of 1000 (no change, first, middle and last line, copies, literals), with 4 sources and 5 destinations", len(large), sel(tier, 24, 26)),
					Run: func(t *engine.T) {
						endpoints(t, large[t.Choose(len(large))](), engine.Pick(t, []int{0, 2, 3, 7}), t.Choose(5))
					},
				},
				{
					Name:  "applier endpoints",
					Bound: "the same text patches through a TextApplier with end-of-input answers in every combination",
					Run: func(t *engine.T) {
						c := cases[t.Choose(len(cases))]
						if len(c.f.TextFragments) == 0 {
							t.Skip()
						}
						var answers []bool
						s := &envSource{data: c.src, eof: func() bool { b := t.Bool(); answers = append(answers, b); return b }}
						var w stringWriter
						t.Desc(func() string { return fmt.Sprintf("%s, answers %v", c.name, answers) })
						a := gitdiff.NewTextApplier(&w, s)
						var err error
						for _, fr := range c.f.TextFragments {
							if err == nil {
								err = a.ApplyFragment(fr)
							}
						}
						if err == nil {
							err = a.Close()
						}
						t.State("applier", c.name, fmt.Sprint(answers))
						check(t, c, string(w.out), err, fmt.Sprintf("io.EOF answers %v", answers))
					},
				},
				{
					Name:  "line access",
					Bound: "the same text patches from a source with line access: hunks with old lines read their lines through it",
					Run: func(t *engine.T) {
						c := cases[t.Choose(len(cases))]
						if len(c.f.TextFragments) == 0 || c.f.TextFragments[0].OldLines == 0 {
							t.Skip()
						}
						t.Desc(func() string { return c.name })
						s := &countedLines{envLineSource: envLineSource{envSource{data: c.src}, ref.Lines(c.src)}}
						var w envWriter
						err := gitdiff.Apply(&w, s, c.f)
						t.State("lines", c.name)
						check(t, c, string(w.out), err, "line access")
						if s.calls == 0 {
							t.Fail("unused", "%s: the lines of a source with line access were never asked for", c.name)
						}
						// the lines are what is read, not the bytes
						masked := strings.Map(func(r rune) rune {
							if r == '\n' {
								return r
							}
							return '#'
						}, c.src)
						s = &countedLines{envLineSource: envLineSource{envSource{data: masked}, ref.Lines(c.src)}}
						w = envWriter{}
						err = gitdiff.Apply(&w, s, c.f)
						t.State("masked", c.name)
						check(t, c, string(w.out), err, "lines only")
					},
				},
			}
		},
	})
}
