package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C35", Title: "patches edited in code apply as edited",
		Assumptions: []string{
			"edits outside the enumerated ones, and sequences longer than the bound, are not explored",
			"a new line that lacks its newline in the middle of a file, and two hunks that name the same old position, are outside the space",
		},
		Scenarios: c35,
	})
}

// editModel is a text, its changed version and the hunks between them.
type editModel struct {
	ops []ref.Op
	in  []bool // context line i is in a hunk
	brk []bool // a new hunk starts at i
}

func (m *editModel) clone() *editModel {
	return &editModel{append([]ref.Op(nil), m.ops...), append([]bool(nil), m.in...), append([]bool(nil), m.brk...)}
}

func (m *editModel) inside(i int) bool { return m.ops[i].Kind != ' ' || m.in[i] }

// owner gives the hunk of each line, -1 for none.
func (m *editModel) owner() []int {
	out := make([]int, len(m.ops))
	h := -1
	open := false
	for i := range m.ops {
		if !m.inside(i) {
			open = false
			out[i] = -1
			continue
		}
		if !open || m.brk[i] {
			h++
		}
		open = true
		out[i] = h
	}
	return out
}

func (m *editModel) hunks() []*ref.Hunk { return ref.Group(m.ops, m.in, m.brk) }

// valid tells if the model is in the space: every hunk changes something, hunks
// have distinct old positions and only last lines lack their newline.
func (m *editModel) valid() bool {
	changes := map[int]int{}
	for i, h := range m.owner() {
		if h >= 0 {
			changes[h] += 0
			if m.ops[i].Kind != ' ' {
				changes[h]++
			}
		}
	}
	for _, n := range changes {
		if n == 0 {
			return false
		}
	}
	hs := m.hunks()
	for i := 1; i < len(hs); i++ {
		if hs[i].OldPos == hs[i-1].OldPos {
			return false
		}
	}
	oldEnd, newEnd := false, false
	for _, o := range m.ops {
		if o.Old() && oldEnd || o.New() && newEnd {
			return false
		}
		open := !strings.HasSuffix(o.Text, "\n")
		oldEnd = oldEnd || o.Old() && open
		newEnd = newEnd || o.New() && open
	}
	return true
}

func (m *editModel) remove(i int) {
	// the hunk that starts here starts with the next line
	if m.brk[i] && i+1 < len(m.ops) {
		m.brk[i+1] = m.brk[i+1] || m.inside(i+1)
	}
	m.ops = append(m.ops[:i], m.ops[i+1:]...)
	m.in = append(m.in[:i], m.in[i+1:]...)
	m.brk = append(m.brk[:i], m.brk[i+1:]...)
}

func (m *editModel) insert(i int, o ref.Op, in, brk bool) {
	m.ops = append(m.ops[:i], append([]ref.Op{o}, m.ops[i:]...)...)
	m.in = append(m.in[:i], append([]bool{in}, m.in[i:]...)...)
	m.brk = append(m.brk[:i], append([]bool{brk}, m.brk[i:]...)...)
}

// patchEdit is one edit: what it makes of the model, and how it rearranges the
// list of fragments, whose fields then follow the model.
type patchEdit struct {
	name   string
	to     *editModel
	list   func(fs []*gitdiff.TextFragment) []*gitdiff.TextFragment
	keep   bool // positions in the changed file are left as they were
	header func(f *gitdiff.File)
}

func without(h int) func([]*gitdiff.TextFragment) []*gitdiff.TextFragment {
	return func(fs []*gitdiff.TextFragment) []*gitdiff.TextFragment {
		return append(fs[:h], fs[h+1:]...)
	}
}

func withNew(h int) func([]*gitdiff.TextFragment) []*gitdiff.TextFragment {
	return func(fs []*gitdiff.TextFragment) []*gitdiff.TextFragment {
		out := append([]*gitdiff.TextFragment(nil), fs[:h]...)
		return append(append(out, &gitdiff.TextFragment{}), fs[h:]...)
	}
}

// settle turns the changes of hunk h to unchanged lines: those of the old file
// (done false), or of the new one (done true).
func (m *editModel) settle(h int, done bool) {
	own := m.owner()
	for i := len(m.ops) - 1; i >= 0; i-- {
		if own[i] != h {
			continue
		}
		gone := byte('+')
		if done {
			gone = '-'
		}
		if m.ops[i].Kind == gone {
			next := i+1 < len(m.ops) && m.brk[i+1]
			m.remove(i)
			if i < len(m.ops) {
				m.brk[i] = next
			}
			own = append(own[:i], own[i+1:]...)
			continue
		}
		m.ops[i].Kind, m.in[i], m.brk[i] = ' ', false, false
	}
}

// edits lists the edits that lead from m to a model in the space.
func (m *editModel) edits() []patchEdit {
	var out []patchEdit
	add := func(e patchEdit) {
		if e.to.valid() {
			out = append(out, e)
		}
	}
	own := m.owner()
	n := 0
	count := map[int]int{}
	for i, h := range own {
		n = max(n, h+1)
		if h >= 0 && m.ops[i].Kind != ' ' {
			count[h]++
		}
	}
	for i, o := range m.ops {
		h := own[i]
		if o.Kind != ' ' {
			if count[h] > 1 {
				c := m.clone()
				if o.Kind == '+' {
					c.remove(i)
				} else {
					c.ops[i].Kind, c.in[i] = ' ', true
				}
				add(patchEdit{name: fmt.Sprintf("leave out change %d", i), to: c})
			}
			if o.Kind == '+' && o.Text != "c\n" {
				c := m.clone()
				c.ops[i].Text = "c\n"
				add(patchEdit{name: fmt.Sprintf("reword line %d", i), to: c})
			}
			c := m.clone()
			c.insert(i+1, ref.Op{Kind: '+', Text: "d\n"}, true, false)
			add(patchEdit{name: fmt.Sprintf("add a line after line %d", i), to: c})
		}
		if i > 0 && h >= 0 && own[i-1] >= 0 {
			c := m.clone()
			c.brk[i] = !c.brk[i]
			if own[i-1] == h {
				add(patchEdit{name: fmt.Sprintf("split before line %d", i), to: c, list: withNew(h + 1)})
			} else {
				add(patchEdit{name: fmt.Sprintf("join at line %d", i), to: c, list: without(h)})
			}
		}
		if o.Kind == ' ' && h >= 0 && (i == 0 || own[i-1] != h || i+1 == len(own) || own[i+1] != h) {
			c := m.clone()
			c.in[i], c.brk[i] = false, false
			add(patchEdit{name: fmt.Sprintf("drop context line %d", i), to: c})
		}
		if h < 0 {
			before := i > 0 && own[i-1] >= 0
			after := i+1 < len(own) && own[i+1] >= 0
			if before {
				c := m.clone()
				c.in[i] = true
				if after {
					c.brk[i+1] = true
				}
				add(patchEdit{name: fmt.Sprintf("more context after: line %d", i), to: c})
			}
			if after {
				c := m.clone()
				c.in[i], c.brk[i] = true, true
				c.brk[i+1] = false
				add(patchEdit{name: fmt.Sprintf("more context before: line %d", i), to: c})
			}
			c := m.clone()
			c.ops[i].Kind = '-'
			c.brk[i] = true
			if after {
				c.brk[i+1] = true
			}
			at := 0
			for _, x := range own[:i] {
				at = max(at, x+1)
			}
			add(patchEdit{name: fmt.Sprintf("also delete line %d", i), to: c, list: withNew(at)})
		}
	}
	for h := 0; h < n; h++ {
		for _, keep := range []bool{true, false} {
			c := m.clone()
			c.settle(h, false)
			add(patchEdit{name: fmt.Sprintf("drop hunk %d (positions as they were: %v)", h, keep), to: c, list: without(h), keep: keep})
		}
		c := m.clone()
		c.settle(h, true)
		add(patchEdit{name: fmt.Sprintf("hunk %d is in the source already", h), to: c, list: without(h)})
	}
	c := m.clone()
	c.insert(0, ref.Op{Kind: ' ', Text: "p\n"}, false, false)
	if len(own) > 0 {
		c.brk[1] = false
	}
	add(patchEdit{name: "a line more in front", to: c})
	c = m.clone()
	c.insert(len(c.ops), ref.Op{Kind: ' ', Text: "s\n"}, false, false)
	add(patchEdit{name: "a line more at the end", to: c})
	c = m.clone()
	for i := range c.ops {
		switch c.ops[i].Kind {
		case '-':
			c.ops[i].Kind = '+'
		case '+':
			c.ops[i].Kind = '-'
		}
	}
	add(patchEdit{name: "reverse", to: c, header: func(f *gitdiff.File) {
		f.OldName, f.NewName = f.NewName, f.OldName
		if f.NewMode != 0 { // zero: not changed
			f.OldMode, f.NewMode = f.NewMode, f.OldMode
		}
		f.OldOIDPrefix, f.NewOIDPrefix = f.NewOIDPrefix, f.OldOIDPrefix
	}})
	return out
}

// carryOut edits the fragments in place.
func (e *patchEdit) carryOut(f *gitdiff.File) {
	if e.header != nil {
		e.header(f)
	}
	if e.list != nil {
		f.TextFragments = e.list(f.TextFragments)
	}
	hs := e.to.hunks()
	if len(hs) != len(f.TextFragments) {
		panic(fmt.Sprintf("engine: %s: %d hunks for %d fragments", e.name, len(hs), len(f.TextFragments)))
	}
	for i, fr := range f.TextFragments {
		x := fragmentOf(hs[i])
		fr.OldPosition, fr.OldLines, fr.NewLines = x.OldPosition, x.OldLines, x.NewLines
		if !e.keep {
			fr.NewPosition = x.NewPosition
		}
		fr.LinesAdded, fr.LinesDeleted = x.LinesAdded, x.LinesDeleted
		fr.LeadingContext, fr.TrailingContext = x.LeadingContext, x.TrailingContext
		fr.Lines = append(fr.Lines[:0], x.Lines...)
	}
}

// verifyEdited checks that f, in the state of the model, does what the model
// says. It returns false where the start of the file is ambiguous.
func verifyEdited(t *engine.T, m *editModel, f *gitdiff.File, done []string, full bool) bool {
	a, b := ref.OldText(m.ops), ref.NewText(m.ops)
	hs := m.hunks()
	fail := func(key, format string, args ...any) {
		t.Fail(key, "after %v: "+format+"\nsource %s\ntarget %s\nhunks %s", append(append([]any{done}, args...), q(a), q(b), hunksString(hs))...)
	}
	t.Trace()
	for i, fr := range f.TextFragments {
		if err := fr.Validate(); err != nil {
			fail("validate", "hunk %d is refused: %v", i, err)
		}
	}
	got, err := applyTo(a, f)
	if err != nil {
		if ambiguousStart(a, hs) && isConflict(err) {
			t.Outcome("refused-at-start")
			return false
		}
		fail("error", "the patch does not apply: %v", err)
	}
	if got != b {
		fail("output", "the result is %s", q(got))
	}
	_ = f.String()
	if !full {
		return true
	}
	var w bytes.Buffer
	ap := gitdiff.NewTextApplier(&w, strings.NewReader(a))
	for i, fr := range f.TextFragments {
		if err := ap.ApplyFragment(fr); err != nil {
			fail("applier", "hunk %d is refused by an applier: %v", i, err)
		}
	}
	if err := ap.Close(); err != nil || w.String() != b {
		fail("applier", "an applier gives %s, %v", q(w.String()), err)
	}
	if len(f.TextFragments) > 0 {
		s := f.String()
		files, _, err := gitdiff.Parse(strings.NewReader(s))
		if err != nil || len(files) != 1 {
			fail("format", "the formatted patch gives %d files, %v:\n%s", len(files), err, s)
		}
		if d := diffFiles(f, files[0]); d != "" {
			fail("format", "the formatted patch gives another file: %s\n%s", d, s)
		}
	}
	t.Outcome(fmt.Sprintf("%d hunks", min(len(hs), 4)))
	return true
}

func c35(tier string) []engine.Scenario {
	small := func(maxLen int, bodies []string) func(t *engine.T) *editModel {
		return func(t *engine.T) *editModel {
			script := chooseScript(t, maxLen, bodies)
			m := &editModel{ops: script, in: make([]bool, len(script)), brk: make([]bool, len(script))}
			for i, o := range script {
				if o.Kind == ' ' {
					m.in[i] = t.Bool()
				}
				if i > 0 && m.inside(i) && m.inside(i-1) {
					m.brk[i] = t.Bool()
				}
			}
			return m
		}
	}
	// three hunks in a file of some lines
	large := func(t *engine.T) *editModel {
		m := &editModel{}
		ctx := t.Choose(2)
		for i := 0; i < 14; i++ {
			text := fmt.Sprintf("l%d\n", i)
			at := i % 5
			switch {
			case at != 2:
				m.insert(len(m.ops), ref.Op{Kind: ' ', Text: text}, at > 0 && at < 4 && ctx == 1, false)
				continue
			}
			k := t.Choose(3)
			if k != 1 {
				m.insert(len(m.ops), ref.Op{Kind: '-', Text: text}, true, false)
			}
			if k != 0 {
				m.insert(len(m.ops), ref.Op{Kind: '+', Text: "new\n"}, true, false)
			}
			if k == 2 {
				m.insert(len(m.ops), ref.Op{Kind: '+', Text: "new\n"}, true, false)
			}
		}
		if t.Bool() {
			trimEOL(&m.ops[len(m.ops)-1])
		}
		return m
	}
	run := func(depth int, initial func(t *engine.T) *editModel) func(t *engine.T) {
		return func(t *engine.T) {
			var done []string
			m := initial(t)
			script := m.ops
			if !m.valid() || len(m.hunks()) == 0 {
				t.Skip()
			}
			hs := m.hunks()
			for i, h := range hs {
				h.Comment = []string{"", "f()"}[i%2]
			}
			var f *gitdiff.File
			if style := t.Choose(2); style == 0 {
				f = parseOne(t, patchText(hs, 1, false))
			} else {
				f = fileOf(hs)
			}
			t.Desc(func() string {
				return fmt.Sprintf("A=%s B=%s hunks %s edits %v", q(ref.OldText(script)), q(ref.NewText(script)), hunksString(hs), done)
			})
			for d := 0; ; d++ {
				t.State(fmt.Sprint(m.ops), fmt.Sprint(m.in), fmt.Sprint(m.brk), fmt.Sprint(d))
				es := m.edits()
				c := len(es)
				if d < depth {
					c = t.Choose(len(es) + 1)
				}
				// what follows a state is explored with its own stop
				if !verifyEdited(t, m, f, done, c == len(es)) || c == len(es) {
					return
				}
				done = append(done, es[c].name)
				es[c].carryOut(f)
				m = es[c].to
			}
		}
	}
	return []engine.Scenario{
		{
			Name:  "larger files",
			Bound: "files of 14 lines with 3 hunks, each an insertion, deletion or replacement, with and without context x every sequence of <=2 of these edits",
			Run:   run(2, large),
		},
		{
			Name:  "edit sequences",
			Bound: fmt.Sprintf("every diff of <=%d lines over one line content, in every partition into hunks, parsed or built, x every sequence of <=%d edits in place (leave out a change, drop a hunk with and without moving the others, treat it as applied, split, join, more and less context, further lines and hunks, other text, source grown in front and at the end, reversal), applied, validated and formatted after every edit", sel(tier, 3, 4), 3),
			Run:   run(3, small(sel(tier, 3, 4), []string{"a"})),
		},
		{
			Name:  "edit pairs",
			Bound: fmt.Sprintf("every diff of <=%d lines over one line content x every sequence of <=2 of these edits", sel(tier, 4, 5)),
			Run:   run(2, small(sel(tier, 4, 5), []string{"a"})),
		},
		{
			Name:  "single edits",
			Bound: fmt.Sprintf("every diff of <=%d lines over two line contents x every one of these edits", sel(tier, 4, 5)),
			Run:   run(1, small(sel(tier, 4, 5), []string{"a", "b"})),
		},
	}
}
