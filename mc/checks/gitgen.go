package checks

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/ref"
)

// gitChange is a generated git file patch: the model file and its text.
type gitChange struct {
	want *ref.File
	ext  []string // extended header lines
	head string
	tail string // ---/+++ lines and content
}

func (g *gitChange) text() string { return g.head + strings.Join(g.ext, "") + g.tail }

// genOptions restrict what gitChangeOf enumerates.
type genOptions struct {
	names    [][2]string
	prefixes [][2]string
	modes    []uint32
	oids     [][2]string
	scores   []int
	bodies   []string
	kinds    []string
	oldNew   bool // use the old "rename old/new" spelling too
	quoteHi  []bool
}

var allBodies = []string{"none", "text", "text2", "binary", "binary+reverse", "delta+reverse", "differ", "files-differ"}
var allKinds = []string{"modify", "rewrite", "new", "delete", "rename", "copy"}

func smallBinary() (lit, delta *ref.BinarySection) {
	payload := []byte("some\x00binary\xffpayload")
	z := deflate(payload)
	lit = &ref.BinarySection{Method: "literal", Size: int64(len(payload)), Data: z}
	d := append(append(deltaSize(20), deltaSize(3)...), 3, 'x', 'y', 'z')
	delta = &ref.BinarySection{Method: "delta", Size: int64(len(d)), Data: deflate(d)}
	return
}

// gitChangeOf chooses one change as git would write it.
func gitChangeOf(t *engine.T, o genOptions) *gitChange {
	g := &gitChange{want: &ref.File{}}
	w := g.want
	kind := engine.Pick(t, o.kinds)
	names := engine.Pick(t, o.names)
	pre := engine.Pick(t, o.prefixes)
	hi := engine.Pick(t, o.quoteHi)
	oldName, newName := names[0], names[1]
	if kind != "rename" && kind != "copy" {
		newName = oldName
	}
	body := engine.Pick(t, o.bodies)
	if (kind == "new" || kind == "delete") && strings.HasPrefix(body, "delta") {
		t.Skip()
	}
	if kind == "rewrite" && body != "text" {
		t.Skip()
	}
	add := func(f string, a ...any) { g.ext = append(g.ext, fmt.Sprintf(f, a...)+"\n") }
	qn := func(n string) string { return ref.Quote(n, hi) }
	g.head = "diff --git " + qn(pre[0]+oldName) + " " + qn(pre[1]+newName) + "\n"
	w.OldName, w.NewName = oldName, newName
	mode := engine.Pick(t, o.modes)
	modeChange := false
	switch kind {
	case "new":
		w.OldName, w.IsNew = "", true
		w.NewMode = mode
		add("new file mode %06o", mode)
	case "delete":
		w.NewName, w.IsDelete = "", true
		w.OldMode = mode
		add("deleted file mode %06o", mode)
	default:
		if len(o.modes) > 1 && t.Bool() {
			m2 := engine.Pick(t, o.modes)
			if m2 == mode {
				t.Skip()
			}
			modeChange = true
			w.OldMode, w.NewMode = mode, m2
			add("old mode %06o", mode)
			add("new mode %06o", m2)
		}
	}
	switch kind {
	case "rewrite":
		w.Score = engine.Pick(t, o.scores)
		add("dissimilarity index %d%%", w.Score)
	case "rename", "copy":
		w.Score = engine.Pick(t, o.scores)
		if body == "none" {
			w.Score = 100
		}
		add("similarity index %d%%", w.Score)
		if kind == "copy" {
			w.IsCopy = true
			add("copy from %s", qn(oldName))
			add("copy to %s", qn(newName))
		} else {
			w.IsRename = true
			old := o.oldNew && t.Bool()
			if old {
				add("rename old %s", qn(oldName))
				add("rename new %s", qn(newName))
			} else {
				add("rename from %s", qn(oldName))
				add("rename to %s", qn(newName))
			}
		}
	}
	if body == "none" && !modeChange && kind == "modify" {
		t.Skip() // nothing to say
	}
	content := body != "none" || kind == "new" || kind == "delete"
	if content {
		switch c := t.Choose(len(o.oids) + 1); c {
		case 0:
		default:
			w.OldOID, w.NewOID = o.oids[c-1][0], o.oids[c-1][1]
			m := ""
			if kind != "new" && kind != "delete" && !modeChange && t.Bool() {
				m = fmt.Sprintf(" %06o", mode)
				w.OldMode = mode
			}
			add("index %s..%s%s", w.OldOID, w.NewOID, m)
		}
	}
	var b strings.Builder
	nameLine := func(mark, pre, n string) {
		if n == "" {
			b.WriteString(mark + "/dev/null\n")
			return
		}
		s := qn(pre + n)
		if s[0] != '"' && strings.ContainsAny(s, " ") {
			s += "\t"
		}
		b.WriteString(mark + s + "\n")
	}
	lit, delta := smallBinary()
	bin := func(s *ref.BinarySection) string { return encodeBinary(s.Method, s.Size, s.Data) }
	side := func(pre, n string) string {
		if n == "" {
			return "/dev/null"
		}
		return qn(pre + n)
	}
	switch body {
	case "text", "text2":
		nameLine("--- ", pre[0], w.OldName)
		nameLine("+++ ", pre[1], w.NewName)
		for i := 0; i < len(body)-3 && i < 2; i++ {
			var h *ref.Hunk
			switch kind {
			case "new":
				h = hunkOf([]ref.Op{{Kind: '+', Text: "a\n"}, {Kind: '+', Text: "b"}}, 0, 1)
			case "delete":
				h = hunkOf([]ref.Op{{Kind: '-', Text: "a\n"}, {Kind: '-', Text: "b"}}, 1, 0)
			default:
				h = hunkOf([]ref.Op{{Kind: ' ', Text: "c\n"}, {Kind: '-', Text: "a\n"}, {Kind: '+', Text: "b\n"}, {Kind: ' ', Text: "d\n"}}, int64(3+20*i), int64(3+20*i))
				h.Comment = []string{"", "func f() {"}[i%2]
			}
			w.Hunks = append(w.Hunks, h)
			ref.WriteHunk(&b, h, i%2 == 0)
			if body == "text" || kind == "new" || kind == "delete" {
				break
			}
		}
	case "binary", "binary+reverse", "delta+reverse":
		w.IsBinary = true
		b.WriteString("GIT binary patch\n")
		w.Fwd = lit
		if body == "delta+reverse" {
			w.Fwd = delta
		}
		b.WriteString(bin(w.Fwd))
		if strings.HasSuffix(body, "+reverse") {
			w.Rev = lit
			b.WriteString(bin(w.Rev))
		}
	case "differ":
		w.IsBinary = true
		b.WriteString("Binary files " + side(pre[0], w.OldName) + " and " + side(pre[1], w.NewName) + " differ\n")
	case "files-differ":
		w.IsBinary = true
		b.WriteString("Files " + side(pre[0], w.OldName) + " and " + side(pre[1], w.NewName) + " differ\n")
	}
	g.tail = b.String()
	return g
}

// permute reorders the extended header lines in a chosen way.
func (g *gitChange) permute(t *engine.T) {
	n := len(g.ext)
	rest := append([]string(nil), g.ext...)
	for i := 0; i < n; i++ {
		k := t.Choose(len(rest))
		g.ext[i] = rest[k]
		rest = append(rest[:k], rest[k+1:]...)
	}
}
