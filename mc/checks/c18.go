package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C18", Title: "readers and read errors while parsing",
		Assumptions: []string{"readers conform to io.Reader; readers with ReadString conform to bufio.Reader.ReadString", "for malformed inputs the malformation may be reported instead of a later read error"},
		Scenarios:   c18,
	})
}

// step is one answer of a scripted reader.
type step struct {
	data string
	err  error
}

// scriptReader answers Read calls from a script, then forever with last.
type scriptReader struct {
	steps []step
	last  error
	calls int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.steps) == 0 {
		return 0, r.last
	}
	s := &r.steps[0]
	n := copy(p, s.data)
	s.data = s.data[n:]
	if s.data != "" {
		return n, nil
	}
	err := s.err
	r.steps = r.steps[1:]
	return n, err
}

// lineScript offers ReadString (and a Read that must not be needed) over a
// sequence of segments; each call returns up to the delimiter or up to the
// end of a failing segment.
type lineScript struct{ scriptReader }

func (r *lineScript) ReadString(delim byte) (string, error) {
	var b strings.Builder
	for {
		if len(r.steps) == 0 {
			return b.String(), r.last
		}
		s := &r.steps[0]
		if i := strings.IndexByte(s.data, delim); i >= 0 {
			b.WriteString(s.data[:i+1])
			s.data = s.data[i+1:]
			if s.data == "" && s.err == nil {
				r.steps = r.steps[1:]
			}
			return b.String(), nil
		}
		b.WriteString(s.data)
		err := s.err
		r.steps = r.steps[1:]
		if err != nil {
			return b.String(), err
		}
	}
}

type parsed struct {
	files []*gitdiff.File
	pre   string
	err   error
}

func c18inputs() []string {
	long := strings.Repeat("x", 5000)
	ins := []string{
		"", "\n", "x", "just text\nand more",
		fileParts[0], fileParts[2], fileParts[5], fileParts[6],
		"pre\r\n\r\n" + fileParts[4] + "mid\n" + fileParts[8] + "tail",
		fileParts[3] + fileParts[1] + fileParts[9],
		badParts[0], badParts[1], badParts[4], fileParts[3] + badParts[6], "a\n" + badParts[2],
		"--- f\n+++ f\n@@ -1 +1 @@\n-a\n+b", "diff --git a/f b/f\nold mode 100644\nnew mode 100755",
		"diff --git a/f b/f\n--- a/f\n+++ b/f\n@@ -1,2 +1,2 @@\n " + long + "\n-a\n+b\n" + fileParts[10],
		fileParts[7] + "x\n@@ -1,2 +3 @\n@@ -5\ny\n" + fileParts[11],
	}
	return ins
}

func plainParse(in string) parsed {
	f, p, e := gitdiff.Parse(strings.NewReader(in))
	return parsed{f, p, e}
}

func c18(tier string) []engine.Scenario {
	inputs := c18inputs()
	var cache onceMap[string, parsed]
	base := func(in string) parsed {
		return cache.get(in, func() parsed { return plainParse(in) })
	}
	same := func(t *engine.T, in string, r io.Reader) {
		t.Trace()
		want := base(in)
		f, p, err := gitdiff.Parse(r)
		if (err == nil) != (want.err == nil) {
			t.Fail("status", "error %v, from a plain reader %v\n%s", err, want.err, q(in))
		}
		if d := diffFileLists(f, want.files); d != "" {
			t.Fail("files", "files differ from a plain reader: %s\n%s", d, q(in))
		}
		if p != want.pre {
			t.Fail("preamble", "preamble %s, from a plain reader %s", q(p), q(want.pre))
		}
		if err != nil {
			t.Outcome("error")
		} else {
			t.Outcome("accepted")
		}
	}
	// cuts returns the pieces of in for chosen cut positions.
	short := func(max int) []string {
		var out []string
		for _, in := range inputs {
			if len(in) <= max {
				out = append(out, in)
			}
		}
		return out
	}
	var ss []engine.Scenario
	kinds := []string{"reader", "reader, empty reads", "reader, data with EOF", "ReadString reader", "bufio of 16"}
	build := func(kind int, pieces []string) io.Reader {
		var st []step
		for _, p := range pieces {
			if kind == 1 {
				st = append(st, step{})
			}
			st = append(st, step{data: p})
		}
		switch kind {
		case 2:
			if len(st) > 0 {
				st[len(st)-1].err = io.EOF
			}
		case 3:
			return &lineScript{scriptReader{steps: st, last: io.EOF}}
		case 4:
			return bufio.NewReaderSize(&scriptReader{steps: st, last: io.EOF}, 16)
		}
		return &scriptReader{steps: st, last: io.EOF}
	}
	ncut := sel(tier, 2, 3)
	ss = append(ss, engine.Scenario{
		Name:  "cuts",
		Bound: fmt.Sprintf("%d inputs x every choice of up to %d cut positions (third cut within 40 bytes) x %d reader kinds", len(short(400)), ncut, len(kinds)),
		Run: func(t *engine.T) {
			in := engine.Pick(t, short(400))
			kind := t.Choose(len(kinds))
			var pieces []string
			rest := in
			for c := 0; c < ncut && len(rest) > 0; c++ {
				w := len(rest)
				if c == 2 && w > 40 {
					w = 40
				}
				k := t.Choose(w)
				if k == 0 {
					break
				}
				pieces = append(pieces, rest[:k])
				rest = rest[k:]
			}
			if rest != "" {
				pieces = append(pieces, rest)
			}
			t.Desc(func() string { return fmt.Sprintf("%s %q", kinds[kind], pieces) })
			t.State(fmt.Sprint(kind), strings.Join(pieces, "\x01"))
			same(t, in, build(kind, pieces))
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "chunk sizes",
		Bound: fmt.Sprintf("%d inputs x every fixed chunk size 1..130 and around 4096 x %d reader kinds, bytes.Buffer, and bufio readers of every size 16..80", len(inputs), len(kinds)),
		Run: func(t *engine.T) {
			in := engine.Pick(t, inputs)
			mode := t.Choose(3)
			var r io.Reader
			desc := ""
			switch mode {
			case 0:
				kind := t.Choose(len(kinds))
				sizes := append(upTo(131)[1:], 4095, 4096, 4097)
				n := engine.Pick(t, sizes)
				var pieces []string
				for rest := in; rest != ""; {
					k := min(n, len(rest))
					pieces = append(pieces, rest[:k])
					rest = rest[k:]
				}
				r = build(kind, pieces)
				desc = fmt.Sprintf("%s chunks of %d", kinds[kind], n)
			case 1:
				r = bytes.NewBufferString(in)
				desc = "bytes.Buffer"
			case 2:
				n := 16 + t.Choose(65)
				r = bufio.NewReaderSize(strings.NewReader(in), n)
				desc = fmt.Sprintf("bufio of %d", n)
			}
			t.Desc(func() string { return desc + " " + q(in) })
			t.State(desc, in)
			same(t, in, r)
		},
	})
	// All partitions of a small patch suffix (the head comes in one piece).
	bits := sel(tier, 14, 18)
	ss = append(ss, engine.Scenario{
		Name:  "all partitions",
		Bound: fmt.Sprintf("all 2^%d partitions of a %d-byte window at every 7th offset of 3 patches", bits, bits+1),
		Run: func(t *engine.T) {
			in := engine.Pick(t, []string{fileParts[0], fileParts[2] + "\n" + fileParts[3], badParts[1]})
			off := 7 * t.Choose(sel(tier, 4, 8))
			if off+bits+1 > len(in) {
				t.Skip()
			}
			m := t.Choose(1 << bits)
			pieces := []string{in[:off]}
			cur := ""
			for i := 0; i <= bits; i++ {
				cur += in[off+i : off+i+1]
				if i < bits && m>>i&1 == 1 {
					pieces = append(pieces, cur)
					cur = ""
				}
			}
			pieces = append(pieces, cur, in[off+bits+1:])
			t.Desc(func() string { return fmt.Sprintf("%q", pieces) })
			t.State(strings.Join(pieces, "\x01"))
			same(t, in, build(0, pieces))
		},
	})
	sizes := append(boundaries(10, sel(tier, 18, 24)), 4090, 8190)
	ss = append(ss, engine.Scenario{
		Name:  "long lines",
		Bound: fmt.Sprintf("%d line lengths in preamble, name, comment and body x 4 reader kinds", len(sizes)),
		Run: func(t *engine.T) {
			x := strings.Repeat("y", engine.Pick(t, sizes))
			in := []string{
				x + "\n" + fileParts[0],
				"diff --git a/" + x + " b/" + x + "\nold mode 100644\nnew mode 100755\n",
				"--- f\n+++ f\n@@ -1 +1 @@ " + x + "\n-a\n+b\n",
				"--- f\n+++ f\n@@ -1 +1 @@\n-a\n+" + x,
			}[t.Choose(4)]
			kind := t.Choose(len(kinds))
			t.State(in[:20], fmt.Sprint(len(in), kind))
			n := 1000
			var pieces []string
			for rest := in; rest != ""; {
				k := min(n, len(rest))
				pieces = append(pieces, rest[:k])
				rest = rest[k:]
			}
			t.Desc(func() string { return kinds[kind] + " " + q(in) })
			// here the plain reader itself is compared with the reference
			verifyParse(t, in)
			same(t, in, build(kind, pieces))
		},
	})
	errBoom := errors.New("boom")
	faults := []error{errBoom, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), io.ErrNoProgress}
	ss = append(ss, engine.Scenario{
		Name:  "read errors",
		Bound: fmt.Sprintf("%d inputs x every byte position (0..len) x %d error values x permanent or transient x error with or after data x plain or ReadString reader x chunking before it", len(inputs), len(faults)),
		Run: func(t *engine.T) {
			in := engine.Pick(t, inputs)
			step0 := 1
			if len(in) > 1000 {
				step0 = 97
			}
			pos := t.Choose(len(in)/step0+1) * step0
			boom := engine.Pick(t, faults)
			transient := t.Bool()
			withData := t.Bool()
			readString := t.Bool()
			prefix := 0
			if !readString {
				prefix = t.Choose(2)
			}
			var st []step
			head := in[:pos]
			if prefix == 1 { // line by line
				for {
					i := strings.IndexByte(head, '\n')
					if i < 0 || i+1 == len(head) {
						break
					}
					st = append(st, step{data: head[:i+1]})
					head = head[i+1:]
				}
			}
			if withData {
				st = append(st, step{data: head, err: boom})
			} else {
				st = append(st, step{data: head}, step{err: boom})
			}
			last := io.EOF
			if transient {
				st = append(st, step{data: in[pos:]})
			} else {
				last = boom
			}
			var r io.Reader = &scriptReader{steps: st, last: last}
			if readString {
				r = &lineScript{scriptReader{steps: st, last: last}}
			}
			desc := fmt.Sprintf("error %v at %d transient=%v withData=%v readString=%v byLine=%v", boom, pos, transient, withData, readString, prefix == 1)
			t.Desc(func() string { return desc + " " + q(in) })
			t.State(desc, in)
			t.Trace()
			want := base(in)
			f, _, err := gitdiff.Parse(r)
			if err == nil {
				t.Fail("swallowed", "%s: Parse succeeded with %d files\n%s", desc, len(f), q(in))
			}
			if want.err == nil && !errors.Is(err, boom) {
				// The text before the failure may itself be cut short, but the
				// failure must still be named.
				t.Fail("hidden", "%s: Parse reports %v instead of the read error\n%s", desc, err, q(in))
			}
			if errors.Is(err, boom) {
				t.Outcome("read error")
			} else {
				t.Outcome("malformed")
			}
			if len(f) > len(want.files) || diffFileLists(f, want.files[:len(f)]) != "" {
				t.Fail("invented", "%s: files returned are not among those of the input\n%s", desc, q(in))
			}
		},
	})
	return ss
}
