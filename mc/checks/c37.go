package checks

import (
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C37", Title: "parse errors name the line",
		Assumptions: []string{
			"the number of the line follows the word \"line\" in the text of the error",
			"where no single line is at fault, every line from the header of the hunk, or the start of the damaged part, to the first line after it is accepted",
		},
		Scenarios: c37,
	})
}

var errLine = regexp.MustCompile(`\bline (\d+)\b`)

// lineOf cuts an error into the number of its line and the rest.
func lineOf(t *engine.T, err error, text string) (int, string) {
	s := err.Error()
	m := errLine.FindStringSubmatchIndex(s)
	if m == nil {
		t.Fail("no line", "the error names no line: %v\n%s", err, q(text))
	}
	n, aerr := strconv.Atoi(s[m[2]:m[3]])
	if aerr != nil {
		t.Fail("no line", "the error names no line: %v\n%s", err, q(text))
	}
	return n, s[:m[2]] + "N" + s[m[3]:]
}

// before are texts that may precede a patch. Each consists of whole lines.
var before = []struct{ name, text string }{
	{"nothing", ""},
	{"a line", "note\n"},
	{"empty lines", "\n\n"},
	{"a commit", "commit 61f5cd90bed4d204ee3feb3aa41ee91d4734855b\nAuthor: A <a@b>\nDate:   Sat Apr 11 15:21:23 2020 -0700\n\n    t\n\n"},
	{"a text file", "diff --git a/p b/p\n--- a/p\n+++ b/p\n@@ -1,2 +1,3 @@\n x\n-y\n+z\n+w\n"},
	{"a file without newline", "diff --git a/p b/p\n--- a/p\n+++ b/p\n@@ -1,1 +1,1 @@\n-y\n\\ No newline at end of file\n+z\n\\ No newline at end of file\n"},
	{"a mode change", "diff --git a/p b/p\nold mode 100644\nnew mode 100755\nnote\n"},
	{"a binary file", "diff --git a/p b/p\nindex 1234567..89abcde 100644\nGIT binary patch\nliteral 5\nMc$~{f&B@6J00t}q6#xJL\n\nliteral 0\nHcmV?d00001\n\n"},
	{"a binary marker", "diff --git a/p b/p\nindex 1234567..89abcde 100644\nBinary files a/p and b/p differ\n"},
	{"a traditional file", "--- p\n+++ p\n@@ -1,1 +1,1 @@\n-y\n+z\n"},
	{"two files", "diff --git a/p b/p\n--- a/p\n+++ b/p\n@@ -1,1 +1,1 @@\n-y\n+z\n@@ -5,2 +5,1 @@\n-y\n z\nnote\ndiff --git a/r b/s\nrename from r\nrename to s\nnote\n"},
}

func parseAs(text string, how int) ([]*gitdiff.File, error) {
	var r io.Reader
	switch how {
	case 0:
		r = strings.NewReader(text)
	case 1:
		r = &pieces{text, 1}
	default:
		r = &pieces{text, 7}
	}
	files, _, err := gitdiff.Parse(r)
	return files, err
}

// wantLine parses a patch with an error between the lines lo and hi.
func wantLine(t *engine.T, text string, lo, hi, how int) {
	t.Trace()
	_, err := parseAs(text, how)
	if err == nil {
		t.Fail("accepted", "no error, want one at line %d to %d\n%s", lo, hi, q(text))
	}
	if n, _ := lineOf(t, err, text); n < lo || n > hi {
		t.Fail("wrong line", "error at line %d, want %d to %d: %v\n%s", n, lo, hi, err, q(text))
	}
}

// faultLines finds the lines of a text patch to which an error may point, 0 if
// there is none. File headers are expected to be valid.
func faultLines(text string) (lo, hi int) {
	lines := ref.Lines(text)
	line := func(i int) string {
		if i < len(lines) {
			return lines[i]
		}
		return ""
	}
	marker := func(s string) bool { return len(s) >= 12 && strings.HasPrefix(s, "\\ ") }
	inFile := false
	for i := 0; i < len(lines); {
		l := lines[i]
		switch {
		case strings.HasPrefix(l, "diff --git "):
			inFile = true
			i++
			for strings.HasPrefix(line(i), "index ") || strings.HasPrefix(line(i), "--- ") || strings.HasPrefix(line(i), "+++ ") {
				i++
			}
		case strings.HasPrefix(l, "--- ") && strings.HasPrefix(line(i+1), "+++ ") && strings.HasPrefix(line(i+2), "@@ -"):
			inFile = true
			i += 2
		case strings.HasPrefix(l, "@@ -"):
			h := i + 1
			if !inFile {
				return h, h
			}
			var op, ol, np, nl int
			if n, err := fmt.Sscanf(l, "@@ -%d,%d +%d,%d @@", &op, &ol, &np, &nl); n != 4 || err != nil {
				panic("engine: header of a hunk: " + l)
			}
			i++
			if i == len(lines) {
				return h, h + 1
			}
			changes := 0
			for (ol > 0 || nl > 0) && i < len(lines) {
				switch b := lines[i]; {
				case b[0] == ' ' || b[0] == '\n':
					ol, nl = ol-1, nl-1
				case b[0] == '-':
					ol, changes = ol-1, changes+1
				case b[0] == '+':
					nl, changes = nl-1, changes+1
				case marker(b):
				default:
					return i + 1, i + 1
				}
				i++
			}
			if ol != 0 || nl != 0 {
				return h, h
			}
			if changes == 0 {
				return h, i + 1
			}
			if marker(line(i)) {
				i++
			}
		default:
			inFile = false
			i++
		}
	}
	return 0, 0
}

func c37(tier string) []engine.Scenario {
	quick := tier == "quick"
	heads := []string{
		"diff --git a/f b/f\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/f\n",
		"--- f\n+++ f\n",
	}
	maxLen := 4
	if !quick {
		maxLen = 6
	}
	counts := func(body []byte) (o, n int) {
		for _, k := range body {
			if k != '+' {
				o++
			}
			if k != '-' {
				n++
			}
		}
		return
	}
	body := func(t *engine.T, min, max int) []byte {
		n := min + t.Choose(max-min+1)
		b := make([]byte, n)
		for i := range b {
			b[i] = engine.Pick(t, []byte{' ', '-', '+'})
		}
		return b
	}
	after := []string{
		"",
		"\n",
		"note\n",
		"-- \n2.43.0\n\n",
		"@@ -9,2 +9,2 @@\n y\n-z\n+w\n",
		"@@ -9,2 +9,2 @@\n y\n-z\n",
		"diff --git a/g b/g\n--- a/g\n+++ b/g\n@@ -1,1 +1,1 @@\n-y\n+z\n",
		"--- g\n+++ g\n@@ -1,1 +1,1 @@\n-y\n+z\n",
	}
	hunk := func(b []byte, o, n int, replace map[int]string) string {
		var s strings.Builder
		fmt.Fprintf(&s, "@@ -1,%d +1,%d @@ c\n", o, n)
		for i, k := range b {
			if r, ok := replace[i]; ok {
				s.WriteString(r)
				continue
			}
			fmt.Fprintf(&s, "%c%c\n", k, 'a'+i)
		}
		return s.String()
	}
	invalid := []string{"!x\n", "x\n", "\\ short\n", "\\\\ No newline at end of file\n", "@\n", "d\n", "\t\n", "\r\n", "\x00\n", "\\ No newline at end of file\n", "\n"}

	verify := func(t *engine.T, text string, how int) {
		lo, hi := faultLines(text)
		if lo == 0 {
			t.Skip()
		}
		wantLine(t, text, lo, hi, how)
	}

	scenarios := []engine.Scenario{
		{
			Name:  "counts of hunks",
			Bound: fmt.Sprintf("2 file headers x every body of 0..%d lines x counts off by -2..2 on either side x %d texts after the hunk x %d texts before the patch", maxLen, len(after), len(before)),
			Run: func(t *engine.T) {
				head := engine.Pick(t, heads)
				b := body(t, 0, maxLen)
				o, n := counts(b)
				o += t.Choose(5) - 2
				n += t.Choose(5) - 2
				if o < 0 || n < 0 {
					t.Skip()
				}
				tail := engine.Pick(t, after)
				pre := engine.Pick(t, before).text
				verify(t, pre+head+hunk(b, o, n, nil)+tail, 0)
			},
		},
		{
			Name:  "lines of hunks",
			Bound: fmt.Sprintf("2 file headers x every body of 1..%d lines x each line replaced by or preceded by one of %d lines x the hunk alone or after another x %d texts after the hunk x %d texts before the patch x 3 readers", min(maxLen, 4), len(invalid), 3, len(before)),
			Run: func(t *engine.T) {
				head := engine.Pick(t, heads)
				b := body(t, 1, min(maxLen, 4))
				o, n := counts(b)
				i := t.Choose(len(b))
				l := engine.Pick(t, invalid)
				if t.Bool() {
					l += fmt.Sprintf("%c%c\n", b[i], 'a'+i)
				}
				first := ""
				if t.Bool() {
					first = "@@ -1,2 +1,3 @@\n a\n-b\n\\ No newline at end of file\n+c\n+d\n\\ No newline at end of file\n"
				}
				tail := engine.Pick(t, []string{"", "note\n", after[6]})
				pre := engine.Pick(t, before).text
				how := t.Choose(3)
				verify(t, pre+head+first+hunk(b, o, n, map[int]string{i: l})+tail, how)
			},
		},
	}

	// patches with one line at fault
	type fault struct {
		name string
		text string // the line after the mark is at fault
	}
	git := "diff --git a/f b/f\n"
	hunk1 := "@@ -1,2 +1,2 @@\n a\n-b\n+c\n"
	bin := git + "index 1234567..89abcde 100644\nGIT binary patch\n"
	var faults []fault
	add := func(name, text string) {
		if strings.Count(text, "%%") != 1 {
			panic("engine: fault without mark: " + text)
		}
		faults = append(faults, fault{name, text})
	}
	for _, h := range []string{"@@ -1,2 +1,2\n", "@@ -x,2 +1,2 @@\n", "@@ -1,x +1,2 @@\n", "@@ -1,2 +x,2 @@\n", "@@ -1,2 +1,x @@\n", "@@ -1,2 @@ xxxx\n", "@@ -1,2 +1,2 +1 @@\n", "@@ --1,2 +1,2 @@\n", "@@ -1,-2 +1,2 @@\n", "@@ -1,2 +1,+2 @@\n", "@@ -99999999999999999999,2 +1,2 @@\n", "@@ -1,99999999999999999999 +1,2 @@\n", "@@ -,2 +1,2 @@\n", "@@ - +1,2 @@  x\n", "@@ -1,2,3 +1,2 @@\n"} {
		for _, head := range heads {
			add("header of a hunk "+q(h), head+"%%"+h+" a\n-b\n+c\n")
			add("header of a second hunk "+q(h), head+hunk1+"%%"+h+" a\n-b\n+c\n")
			add("header of a hunk after a marker "+q(h), head+"@@ -1,2 +1,2 @@\n a\n-b\n\\ No newline at end of file\n+c\n\\ No newline at end of file\n%%"+h+" a\n-b\n+c\n")
		}
	}
	add("hunk without a file", "%%"+hunk1)
	add("hunk without a file, after text", "note\n%%"+hunk1)
	add("hunk after a text", heads[0]+hunk1+"note\n%%"+hunk1)
	add("hunk after an empty line", heads[1]+hunk1+"\n%%"+hunk1)
	add("hunk of a binary file", bin+"literal 5\nMc$~{f&B@6J00t}q6#xJL\n\n%%"+hunk1)
	add("last line is a hunk without a file", "note\n%%@@ -1 +1 @@\n")
	add("last line is a hunk without a file or newline", "note\n%%@@ -1 +1 @@")
	add("new file with old lines", git+"new file mode 100644\n--- /dev/null\n+++ b/f\n%%"+hunk1)
	add("new file with old lines, second hunk", git+"new file mode 100644\n--- /dev/null\n+++ b/f\n@@ -0,0 +1,2 @@\n+a\n+b\n%%"+hunk1)
	add("deleted file with new lines", git+"deleted file mode 100644\n--- a/f\n+++ /dev/null\n%%"+hunk1)
	add("deleted file with new lines, second hunk", git+"deleted file mode 100644\n--- a/f\n+++ /dev/null\n@@ -1,2 +0,0 @@\n-a\n-b\n%%"+hunk1)
	add("new traditional file with old lines", "--- /dev/null\n+++ f\n%%"+hunk1)
	for _, l := range []string{
		"old mode x\n", "new mode 10064x\n", "new file mode\t9\n", "deleted file mode 888888\n", "new mode +100644\n", "index 1234567\n",
		"index 1234567..89abcde 10x\n", "similarity index x%\n", "dissimilarity index 99999999999%\n", "similarity index -5%\n",
		"rename from \"g\n", "rename to \"g\n", "copy from \"g\n", "copy to \"\\q\"\n", "--- \"a/f\n", "+++ \"a/f\n", "--- \n",
	} {
		if l == "new file mode\t9\n" {
			l = "new file mode 9\n"
		}
		add("extended header "+q(l), git+"%%"+l+"index 1234567..89abcde 100644\n--- a/f\n+++ b/f\n"+hunk1)
		if !strings.HasPrefix(l, "---") && !strings.HasPrefix(l, "+++") && !strings.HasPrefix(l, "index") {
			add("extended header after an index "+q(l), git+"index 1234567..89abcde 100644\n%%"+l+"--- a/f\n+++ b/f\n"+hunk1)
		}
		if !strings.HasPrefix(l, "index") {
			add("extended header at the end "+q(l), git+"old mode 100644\n%%"+strings.TrimSuffix(l, "\n"))
		}
	}
	add("name differs from the rename", "diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to g\nindex 1234567..89abcde 100644\n%%--- a/h\n+++ b/g\n"+hunk1)
	add("new name differs from the rename", "diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to g\nindex 1234567..89abcde 100644\n--- a/f\n%%+++ b/h\n"+hunk1)
	add("new file with an old name", git+"new file mode 100644\nindex 0000000..89abcde\n%%--- a/f\n+++ b/f\n@@ -0,0 +1,1 @@\n+a\n")
	add("deleted file with a new name", git+"deleted file mode 100644\nindex 1234567..0000000\n--- a/f\n%%+++ b/f\n@@ -1,1 +0,0 @@\n-a\n")
	for _, l := range []string{"\"a/f b/f\n", "\"a/f\" \"b/f\n", "\"a/\\q\" b/f\n", "a/f\"b/f\"\n", "a/f \"b/f\n"} {
		add("names of a file "+q(l), "%%diff --git "+l+"old mode 100644\nnew mode 100755\n")
	}
	for _, l := range []string{"\"f\n", "\"f\\q\"\n", "\"\n"} {
		add("old name "+q(l), "%%--- "+l+"+++ f\n"+hunk1)
		add("new name "+q(l), "--- f\n%%+++ "+l+hunk1)
	}
	for _, s := range []string{"literal", "delta"} {
		for _, l := range []string{"x", "-1", "99999999999999999999", "", " 5", "5 "} {
			add("binary size "+s+" "+q(l), bin+"%%"+s+" "+l+"\nMc$~{f&B@6J00t}q6#xJL\n\n")
			add("binary size of the reverse "+s+" "+q(l), bin+"literal 5\nMc$~{f&B@6J00t}q6#xJL\n\n%%"+s+" "+l+"\nMc$~{f&B@6J00t}q6#xJL\n\n")
		}
		for _, l := range []string{"x", "Mc$~{f&B@6J00t}q6#xJ", "1c$~{f&B@6J00t}q6#xJL", "Bc$~{f&B@6J00t}q6#xJL", "zc$~{f&B@6J00t}q6#xJL", "Mc$~{f&B@6J00t}q6#xJ\"", "M~~~~~&B@6J00t}q6#xJL", " Mc$~{f&B@6J00t}q6#xJL", "Mc$~{f&B@6J00t}q6#xJL ", "-cmZQ"} {
			add("binary data "+s+" "+q(l), bin+s+" 5\n%%"+l+"\n\n")
			add("second line of binary data "+s+" "+q(l), bin+s+" 5\nMc$~{f&B@6J00t}q6#xJL\n%%"+l+"\n\n")
			add("binary data of the reverse "+s+" "+q(l), bin+"literal 5\nMc$~{f&B@6J00t}q6#xJL\n\n"+s+" 5\n%%"+l+"\n\n")
		}
	}
	scenarios = append(scenarios, engine.Scenario{
		Name:  "one line at fault",
		Bound: fmt.Sprintf("%d patches with a line at fault x %d texts before x 3 texts after x 3 readers", len(faults), len(before)),
		Run: func(t *engine.T) {
			f := engine.Pick(t, faults)
			pre := engine.Pick(t, before)
			tail := engine.Pick(t, []string{"", "note\n", after[6]})
			how := t.Choose(3)
			first, second, _ := strings.Cut(f.text, "%%")
			if strings.HasPrefix(second, "@@ -") && (first == "" || first == "note\n") && strings.Contains(pre.name, "file") && first == "" {
				t.Skip() // one more hunk of the file before
			}
			if !strings.HasSuffix(f.text, "\n") && tail != "" {
				t.Skip()
			}
			t.Desc(func() string { return f.name + " after " + pre.name })
			n := strings.Count(pre.text+first, "\n") + 1
			wantLine(t, pre.text+first+second+tail, n, n, how)
		},
	})

	// parts that are missing
	gaps := []string{
		git + "index 1234567..89abcde 100644\n--- a/f\n+++ b/f\n%%@@ -1,2 +1,2 @@\n",
		git + "index 1234567..89abcde 100644\n%%GIT binary patch\n",
		git + "index 1234567..89abcde 100644\n%%GIT binary patch\n\n",
		bin + "%%literal 5\n",
		bin + "literal 5\n%%Mc$~{f&B@6J00t}q6#xJL\n",
		bin + "literal 5\nMc$~{f&B@6J00t}q6#xJL\n\nliteral 0\n%%HcmV?d00001\n",
		bin + "literal 5\nMc$~{f&B@6J00t}q6#xJL\n\n%%literal 0\n",
		"%%diff --git a/f b/g\nold mode 100644\nnew mode 100755\n",
		"%%diff --git a/f b/g\nold mode 100644\nnew mode 100755\nnote\n",
		"%%diff --git a/f b/g\nindex 1234567..89abcde 100644\nBinary files a/f and b/g differ\n",
		"%%diff --git a/f b/g\nsimilarity index 90%\nrename from f\n",
		"%%diff --git a/f b/g\nsimilarity index 90%\nrename to g\nnote\n",
	}
	scenarios = append(scenarios, engine.Scenario{
		Name:  "missing parts",
		Bound: fmt.Sprintf("%d patches cut short or without names x %d texts before x 3 readers", len(gaps), len(before)),
		Run: func(t *engine.T) {
			g := engine.Pick(t, gaps)
			pre := engine.Pick(t, before)
			how := t.Choose(3)
			first, second, _ := strings.Cut(g, "%%")
			n := strings.Count(pre.text+first, "\n") + 1
			text := pre.text + first + second
			wantLine(t, text, n, n+strings.Count(second, "\n"), how)
		},
	})

	// whatever is wrong: the text before moves the number and nothing else
	bases := []string{
		heads[0] + hunk1 + "@@ -9,2 +9,1 @@ c\n y\n-z\n",
		heads[1] + hunk1 + "\\ No newline at end of file\n",
		bin + "literal 5\nMc$~{f&B@6J00t}q6#xJL\n\nliteral 0\nHcmV?d00001\n\n",
		"diff --git a/f b/g\nsimilarity index 90%\nrename from f\nrename to g\nindex 1234567..89abcde 100644\n--- a/f\n+++ b/g\n" + hunk1,
		git + "new file mode 100644\nindex 0000000..89abcde\n--- /dev/null\n+++ b/f\n@@ -0,0 +1,2 @@\n+a\n+b\n",
		git + "deleted file mode 100644\nindex 1234567..0000000\n--- a/f\n+++ /dev/null\n@@ -1,2 +0,0 @@\n-a\n-b\n",
		"diff --git \"a/\\303\\251\" \"b/\\303\\251\"\nold mode 100644\nnew mode 100755\n" + git + "index 1234567..89abcde 100644\nBinary files a/f and b/f differ\n",
	}
	pool := map[string]bool{}
	var lines []string
	for _, b := range bases {
		for _, l := range ref.Lines(b) {
			if !pool[l] {
				pool[l] = true
				lines = append(lines, l)
			}
		}
	}
	lines = append(lines, "!\n", "@@ -1 @@\n", "literal x\n", "old mode x\n", "rename from \"\n", "--- \"\n", "+++ \"\n", "diff --git \"\n", "\\\n")
	edits := 1
	if !quick {
		edits = 2
	}
	scenarios = append(scenarios, engine.Scenario{
		Name:  "shift",
		Bound: fmt.Sprintf("%d patches x up to %d edits (a line deleted, cut short, or replaced or preceded by one of %d lines; the patch cut short) x every text before", len(bases), edits, len(lines)),
		Run: func(t *engine.T) {
			ls := ref.Lines(engine.Pick(t, bases))
			for range edits {
				if len(ls) == 0 {
					break
				}
				i := t.Choose(len(ls))
				ls = append([]string(nil), ls...)
				switch t.Choose(5) {
				case 0:
					ls = append(ls[:i], ls[i+1:]...)
				case 1:
					ls[i] = ls[i][:len(ls[i])/2] + "\n"
				case 2:
					ls = ls[:i]
				case 3:
					ls[i] = engine.Pick(t, lines)
				case 4:
					ls = append(ls[:i], append([]string{engine.Pick(t, lines)}, ls[i:]...)...)
				}
			}
			text := strings.Join(ls, "")
			_, err := parseAs(text, 0)
			if err == nil {
				t.Skip()
			}
			t.Trace()
			n, msg := lineOf(t, err, text)
			if total := strings.Count(text, "\n") + 1; n < 1 || n > total {
				t.Fail("no such line", "error at line %d of %d: %v\n%s", n, total, err, q(text))
			}
			for _, pre := range before[1:] {
				if strings.Contains(pre.text, "diff --git") || strings.HasPrefix(pre.text, "---") {
					if !strings.HasPrefix(text, "diff --git ") {
						continue // may go on with the file before
					}
				}
				_, err := parseAs(pre.text+text, 0)
				if err == nil {
					t.Fail("accepted", "after %s: no error, without it %s\n%s", pre.name, msg, q(text))
				}
				n2, msg2 := lineOf(t, err, pre.text+text)
				if want := n + strings.Count(pre.text, "\n"); n2 != want {
					t.Fail("wrong shift", "after %s: error at line %d, want %d: %v\n%s", pre.name, n2, want, err, q(pre.text+text))
				}
				if msg2 != msg {
					t.Fail("other error", "after %s: %s, without it %s\n%s", pre.name, msg2, msg, q(text))
				}
			}
			for how := 1; how < 3; how++ {
				if _, err2 := parseAs(text, how); err2 == nil || err2.Error() != err.Error() {
					t.Fail("reader", "error %v in pieces, else %v\n%s", err2, err, q(text))
				}
			}
		},
	})
	return scenarios
}
