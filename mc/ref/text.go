// Package ref holds the reference models: small, direct specifications of
// what the library's documentation and git's formats promise. They share no
// code with the library.
package ref

import (
	"fmt"
	"strings"
)

// Lines splits text after every newline.
func Lines(s string) []string {
	var out []string
	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			out = append(out, s)
			break
		}
		out = append(out, s[:i+1])
		s = s[i+1:]
	}
	return out
}

// Op is one line of a hunk: Kind is ' ', '-' or '+'; Text includes its newline
// if it has one.
type Op struct {
	Kind byte
	Text string
}

func (o Op) Old() bool { return o.Kind != '+' }
func (o Op) New() bool { return o.Kind != '-' }

// Hunk is a unified diff hunk.
type Hunk struct {
	OldPos, OldN int64
	NewPos, NewN int64
	Comment      string
	Body         []Op
}

// Count sets OldN and NewN from the body.
func (h *Hunk) Count() {
	h.OldN, h.NewN = 0, 0
	for _, o := range h.Body {
		if o.Old() {
			h.OldN++
		}
		if o.New() {
			h.NewN++
		}
	}
}

// Changes counts added and deleted lines.
func (h *Hunk) Changes() (n int) {
	for _, o := range h.Body {
		if o.Kind != ' ' {
			n++
		}
	}
	return n
}

// Start is the zero-based index of the first source line the hunk covers. A
// hunk without old lines names the line it follows.
func (h *Hunk) Start() int64 {
	if h.OldN == 0 || h.OldPos == 0 {
		return h.OldPos
	}
	return h.OldPos - 1
}

// Result is the outcome of applying hunks.
type Result struct {
	OK       bool
	Out      string
	Written  string // what has been written when the conflict is met
	Why      string
	Line     int64 // one-based source line of the disagreement, 0 if none is defined
	Frag     int   // one-based hunk
	FragLine int   // one-based line in the hunk, 0 if none is defined
}

// ApplyHunks is the specification of strict application: hunks are carried
// out in the given order on the lines of src.
func ApplyHunks(src string, hunks []*Hunk) Result {
	lines := Lines(src)
	n := int64(len(lines))
	next := int64(0)
	var out strings.Builder
	for hi, h := range hunks {
		fail := func(why string, line int64, fl int) Result {
			return Result{Written: out.String(), Why: why, Line: line, Frag: hi + 1, FragLine: fl}
		}
		start := h.Start()
		if start < next {
			return fail("overlap", 0, 0)
		}
		if h.OldPos == 0 && len(src) > 0 {
			return fail("create over non-empty source", 0, 0)
		}
		if n-start < h.OldN {
			// first line the hunk needs and the source does not have
			return fail("source too short", n+1, 0)
		}
		for _, l := range lines[next:start] {
			out.WriteString(l)
		}
		next = start
		for bi, o := range h.Body {
			if o.Old() && lines[next] != o.Text {
				return fail("line differs", next+1, bi+1)
			}
			if o.New() {
				out.WriteString(o.Text)
			}
			if o.Old() {
				next++
			}
		}
		if h.NewPos == 0 && h.NewN == 0 && next < n {
			return fail("content left after full delete", next+1, 0)
		}
	}
	for _, l := range lines[next:] {
		out.WriteString(l)
	}
	return Result{OK: true, Out: out.String(), Written: out.String()}
}

// WriteHunk prints a hunk the way unified diff tools do. If short is set a
// count of one is omitted.
func WriteHunk(b *strings.Builder, h *Hunk, short bool) {
	rng := func(p, n int64) string {
		if short && n == 1 {
			return fmt.Sprint(p)
		}
		return fmt.Sprintf("%d,%d", p, n)
	}
	b.WriteString("@@ -" + rng(h.OldPos, h.OldN) + " +" + rng(h.NewPos, h.NewN) + " @@")
	if h.Comment != "" {
		b.WriteString(" " + h.Comment)
	}
	b.WriteByte('\n')
	for _, o := range h.Body {
		b.WriteByte(o.Kind)
		b.WriteString(o.Text)
		if !strings.HasSuffix(o.Text, "\n") {
			b.WriteString("\n\\ No newline at end of file\n")
		}
	}
}

// HunkText is WriteHunk to a string.
func HunkText(h *Hunk, short bool) string {
	var b strings.Builder
	WriteHunk(&b, h, short)
	return b.String()
}

// Group turns an edit script into hunks. in[i] tells whether context line i of
// the script belongs to a hunk, brk[i] whether a new hunk starts at op i.
// It returns nil if some hunk would have no change.
func Group(script []Op, in, brk []bool) []*Hunk {
	var hs []*Hunk
	var cur *Hunk
	oldAt, newAt := int64(0), int64(0) // lines before the current op
	for i, o := range script {
		inside := o.Kind != ' ' || in[i]
		if !inside {
			cur = nil
		} else {
			if cur == nil || brk[i] {
				cur = &Hunk{OldPos: oldAt, NewPos: newAt}
				hs = append(hs, cur)
			}
			cur.Body = append(cur.Body, o)
		}
		if o.Old() {
			oldAt++
		}
		if o.New() {
			newAt++
		}
	}
	for _, h := range hs {
		if h.Changes() == 0 {
			return nil
		}
		h.Count()
		if h.OldN > 0 {
			h.OldPos++
		}
		if h.NewN > 0 {
			h.NewPos++
		}
	}
	return hs
}

// OldText and NewText are the two sides of a script.
func OldText(script []Op) string {
	var b strings.Builder
	for _, o := range script {
		if o.Old() {
			b.WriteString(o.Text)
		}
	}
	return b.String()
}

func NewText(script []Op) string {
	var b strings.Builder
	for _, o := range script {
		if o.New() {
			b.WriteString(o.Text)
		}
	}
	return b.String()
}

// ContextGroup groups a script with the usual rule: every change keeps up to
// ctx lines of context on both sides and hunks whose context meets are merged.
func ContextGroup(script []Op, ctx int) []*Hunk {
	in := make([]bool, len(script))
	brk := make([]bool, len(script))
	for i, o := range script {
		if o.Kind == ' ' {
			continue
		}
		// walk outwards over ctx context lines
		for d, k := 0, i-1; k >= 0 && d < ctx; k-- {
			if script[k].Kind == ' ' {
				in[k] = true
				d++
			} else {
				break
			}
		}
		for d, k := 0, i+1; k < len(script) && d < ctx; k++ {
			if script[k].Kind == ' ' {
				in[k] = true
				d++
			} else {
				break
			}
		}
	}
	return Group(script, in, brk)
}
