package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C15", Title: "file names",
		Assumptions: []string{"names git can store: no NUL, no empty component", "quoting as in git's quote_c_style, with and without core.quotePath"},
		Scenarios:   c15,
	})
}

func storable(n string) bool {
	return n != "" && n[0] != '/' && n[len(n)-1] != '/' && !strings.Contains(n, "//") && !strings.Contains(n, "\x00")
}

// namePlacements lists header positions for an old and a new name.
var namePlacements = []string{"default", "default new", "default delete", "text", "text new", "text delete", "rename", "rename old", "copy", "rename text", "traditional", "traditional new", "traditional delete", "binary"}

// namePatch writes a patch with names in a position; quote writes one name.
func namePatch(place, a, b string, quote func(string) string) (string, *ref.File) {
	const m = "old mode 100644\nnew mode 100755\n"
	w := &ref.File{OldName: a, NewName: a}
	hdr := "diff --git " + quote("a/"+a) + " " + quote("b/"+a) + "\n"
	hdr2 := "diff --git " + quote("a/"+a) + " " + quote("b/"+b) + "\n"
	line := func(mark, n string) string {
		n = quote(n)
		if n[0] != '"' && strings.Contains(n, " ") {
			n += "\t"
		}
		return mark + n + "\n"
	}
	mod := func() string {
		h := hunkOf([]ref.Op{{Kind: '-', Text: "a\n"}, {Kind: '+', Text: "b\n"}}, 1, 1)
		w.Hunks = []*ref.Hunk{h}
		return ref.HunkText(h, true)
	}
	switch place {
	case "default":
		w.OldMode, w.NewMode = 0o100644, 0o100755
		return hdr + m, w
	case "default new":
		w.OldName, w.IsNew, w.NewMode = "", true, 0o100644
		return hdr + "new file mode 100644\nindex 0000000..e69de29\n", setOIDs(w, "0000000", "e69de29")
	case "default delete":
		w.NewName, w.IsDelete, w.OldMode = "", true, 0o100644
		return hdr + "deleted file mode 100644\nindex e69de29..0000000\n", setOIDs(w, "e69de29", "0000000")
	case "binary":
		w.IsBinary = true
		return hdr + "index 1..2\nBinary files " + quote("a/"+a) + " and " + quote("b/"+a) + " differ\n", setOIDs(w, "1", "2")
	case "text":
		return hdr + line("--- ", "a/"+a) + line("+++ ", "b/"+a) + mod(), w
	case "text new", "traditional new":
		h := hunkOf([]ref.Op{{Kind: '+', Text: "b\n"}}, 0, 1)
		w.Hunks = []*ref.Hunk{h}
		w.OldName, w.IsNew = "", true
		if place == "traditional new" {
			return "--- /dev/null\t2020-01-01 00:00:00.000000000 +0000\n+++ " + quote(a) + "\t2020-01-01 00:00:00.000000000 +0000\n" + ref.HunkText(h, true), w
		}
		w.NewMode = 0o100644
		return hdr + "new file mode 100644\n--- /dev/null\n" + line("+++ ", "b/"+a) + ref.HunkText(h, true), w
	case "text delete", "traditional delete":
		h := hunkOf([]ref.Op{{Kind: '-', Text: "b\n"}}, 1, 0)
		w.Hunks = []*ref.Hunk{h}
		w.NewName, w.IsDelete = "", true
		if place == "traditional delete" {
			return "--- " + quote(a) + "\t2020-01-01 00:00:00.000000000 +0000\n+++ /dev/null\n" + ref.HunkText(h, true), w
		}
		w.OldMode = 0o100644
		return hdr + "deleted file mode 100644\n" + line("--- ", "a/"+a) + "+++ /dev/null\n" + ref.HunkText(h, true), w
	case "rename":
		w.NewName, w.IsRename, w.Score = b, true, 100
		return hdr2 + "similarity index 100%\nrename from " + quote(a) + "\nrename to " + quote(b) + "\n", w
	case "rename old":
		w.NewName, w.IsRename = b, true
		return hdr2 + "rename old " + quote(a) + "\nrename new " + quote(b) + "\n", w
	case "copy":
		w.NewName, w.IsCopy, w.Score = b, true, 100
		return hdr2 + "similarity index 100%\ncopy from " + quote(a) + "\ncopy to " + quote(b) + "\n", w
	case "rename text":
		w.NewName, w.IsRename, w.Score = b, true, 90
		return hdr2 + "similarity index 90%\nrename from " + quote(a) + "\nrename to " + quote(b) + "\n" + line("--- ", "a/"+a) + line("+++ ", "b/"+b) + mod(), w
	case "traditional":
		if strings.HasPrefix(b, a) {
			w.NewName = a
		} else {
			w.OldName, w.NewName = b, b
		}
		return "--- " + quote(a) + "\t2020-01-01 00:00:00.000000000 +0000\n+++ " + quote(b) + "\t2020-01-01 00:00:00.000000000 +0000\n" + mod(), w
	}
	panic("engine: placement " + place)
}

func setOIDs(w *ref.File, a, b string) *ref.File {
	w.OldOID, w.NewOID = a, b
	return w
}

// verifyNames parses a patch with the names and checks that formatting the
// parsed file restores them.
func verifyNames(t *engine.T, text string, w *ref.File) {
	t.Trace()
	files, _, err := gitdiff.Parse(strings.NewReader(text))
	if err != nil || len(files) != 1 {
		t.Fail("parse", "%d files, error %v, want name %q -> %q\n%s", len(files), err, w.OldName, w.NewName, q(text))
	}
	if files[0].OldName != w.OldName || files[0].NewName != w.NewName {
		t.Fail("names", "parsed %q -> %q, want %q -> %q\n%s", files[0].OldName, files[0].NewName, w.OldName, w.NewName, q(text))
	}
	if d := diffFiles(files[0], libFile(w)); d != "" {
		t.Fail("content", "parsed content (got versus want): %s\n%s", d, q(text))
	}
	out := files[0].String()
	again, _, err := gitdiff.Parse(strings.NewReader(out))
	if err != nil || len(again) != 1 {
		t.Fail("format", "formatted file does not parse: %d files, error %v\n%s", len(again), err, q(out))
	}
	if again[0].OldName != w.OldName || again[0].NewName != w.NewName {
		t.Fail("format-names", "formatted file parses to %q -> %q, want %q -> %q\n%s", again[0].OldName, again[0].NewName, w.OldName, w.NewName, q(out))
	}
}

func c15(tier string) []engine.Scenario {
	styles := []func(string) string{
		func(n string) string { return ref.Quote(n, true) },
		func(n string) string { return ref.Quote(n, false) },
	}
	names := func(name string, bound string, gen func(*engine.T) string) engine.Scenario {
		return engine.Scenario{
			Name: name, Bound: bound + fmt.Sprintf(", x %d header positions x 2 quoting styles", len(namePlacements)),
			Run: func(t *engine.T) {
				n := gen(t)
				if !storable(n) {
					t.Skip()
				}
				place := engine.Pick(t, namePlacements)
				a, b := n, n
				if strings.HasPrefix(place, "rename") || place == "copy" || place == "traditional" {
					switch t.Choose(3) {
					case 0:
						b = "g"
					case 1:
						a = "g"
					case 2:
						b = n + "2"
					}
				}
				text, w := namePatch(place, a, b, styles[t.Choose(2)])
				t.Desc(func() string { return q(text) })
				t.State(text)
				verifyNames(t, text, w)
				t.Outcome(place)
			},
		}
	}
	var ss []engine.Scenario
	ss = append(ss, names("short names", "all names of one or two bytes", func(t *engine.T) string {
		n := string([]byte{byte(1 + t.Choose(255))})
		if c := t.Choose(256); c > 0 {
			n += string([]byte{byte(c)})
		}
		return n
	}))
	alpha := []string{"a", " ", "\"", "\\", "\t", "\n", "/", "\xff", "\u00fc", "0", "n", "\x7f", "b/"}
	depth := sel(tier, 4, 5)
	ss = append(ss, names("token names", fmt.Sprintf("all names of up to %d tokens of %q", depth, alpha), func(t *engine.T) string {
		n := engine.Pick(t, alpha)
		for i := 1; i < depth; i++ {
			c := t.Choose(len(alpha) + 1)
			if c == 0 {
				break
			}
			n += alpha[c-1]
		}
		return n
	}))
	deep := []string{"a", "\\", "\"", " ", "/"}
	dd := sel(tier, 6, 8)
	ss = append(ss, names("escape runs", fmt.Sprintf("all names of up to %d tokens of %q", dd, deep), func(t *engine.T) string {
		n := engine.Pick(t, deep)
		for i := 1; i < dd; i++ {
			c := t.Choose(len(deep) + 1)
			if c == 0 {
				break
			}
			n += deep[c-1]
		}
		return n
	}))
	pairs := []string{"f", "a b", "a  b", " f", "f ", "q\"", "\\", "f\\", "\\\"", "t\tb", "\xff", "\u00fc", "a/f", "b/f", "f b/f", "d/e", "dev/null", "\"", "x\\\\", "a b/a", "\xe2\x82", "\n", ".", "a\rb", "f~", "f.orig", "-", "--", "@@", "c d/c"}
	ss = append(ss, engine.Scenario{
		Name:  "name pairs",
		Bound: fmt.Sprintf("all pairs of %d names x %d positions x quoting styles chosen per side", len(pairs), len(namePlacements)),
		Run: func(t *engine.T) {
			a, b := engine.Pick(t, pairs), engine.Pick(t, pairs)
			place := engine.Pick(t, namePlacements)
			two := strings.HasPrefix(place, "rename") || place == "copy" || place == "traditional"
			if !two && a != b {
				t.Skip()
			}
			if two && a == b && place != "traditional" {
				t.Skip()
			}
			text, w := namePatch(place, a, b, styles[t.Choose(2)])
			t.Desc(func() string { return q(text) })
			t.State(text)
			verifyNames(t, text, w)
			t.Outcome(place)
		},
	})
	lens := append(boundaries(3, sel(tier, 13, 17)), 40, 4070, 4080)
	ss = append(ss, engine.Scenario{
		Name:  "long names",
		Bound: fmt.Sprintf("%d name lengths x 4 contents x %d positions", len(lens), len(namePlacements)),
		Run: func(t *engine.T) {
			n := strings.Repeat(engine.Pick(t, []string{"x", "d/", "\"", "\xff", " y"}), engine.Pick(t, lens)) + "e"
			text, w := namePatch(engine.Pick(t, namePlacements), n, n+"2", styles[t.Choose(2)])
			t.Desc(func() string { return q(text) })
			t.State(text)
			verifyNames(t, text, w)
		},
	})
	// Formatting files that were built rather than parsed.
	ss = append(ss, engine.Scenario{
		Name:  "format built files",
		Bound: "all names of one or two bytes x 6 kinds of change x side, formatted and parsed",
		Run: func(t *engine.T) {
			n := string([]byte{byte(1 + t.Choose(255))})
			if c := t.Choose(256); c > 0 {
				n += string([]byte{byte(c)})
			}
			if !storable(n) {
				t.Skip()
			}
			f := &gitdiff.File{OldName: n, NewName: n}
			switch t.Choose(7) {
			case 0:
				f.OldMode, f.NewMode = 0o100644, 0o100755
			case 1:
				f.OldName, f.IsNew, f.NewMode = "", true, 0o100644
			case 2:
				f.NewName, f.IsDelete, f.OldMode = "", true, 0o100644
			case 3:
				f.NewName, f.IsRename = "new", true
			case 4:
				f.OldName, f.IsCopy = "old", true
			case 5:
				f.TextFragments = fileOf([]*ref.Hunk{hunkOf([]ref.Op{{Kind: '-', Text: "a\n"}}, 1, 0)}).TextFragments
			case 6:
				f.OldName, f.IsNew, f.NewMode = "", true, 0o100644
				f.TextFragments = fileOf([]*ref.Hunk{hunkOf([]ref.Op{{Kind: '+', Text: "a\n"}}, 0, 1)}).TextFragments
			}
			out := f.String()
			t.Desc(func() string { return q(out) })
			t.State(out)
			t.Trace()
			again, _, err := gitdiff.Parse(strings.NewReader(out))
			if err != nil || len(again) != 1 {
				t.Fail("format", "formatted file does not parse: %d files, error %v\n%s", len(again), err, q(out))
			}
			if again[0].OldName != f.OldName || again[0].NewName != f.NewName {
				t.Fail("format-names", "formatted file parses to %q -> %q, want %q -> %q\n%s", again[0].OldName, again[0].NewName, f.OldName, f.NewName, q(out))
			}
		},
	})
	return ss
}
