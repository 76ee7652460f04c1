package ref

import (
	"regexp"
	"strconv"
	"strings"
	"time"
)

// File is the model of one file change of a patch.
type File struct {
	OldName, NewName                  string
	IsNew, IsDelete, IsCopy, IsRename bool
	OldMode, NewMode                  uint32
	OldOID, NewOID                    string
	Score                             int
	Hunks                             []*Hunk
	IsBinary                          bool
	Fwd, Rev                          *BinarySection

	startLine int
}

// Patch is the outcome of parsing.
type Patch struct {
	Files    []*File
	Preamble string
	// Err: the input is malformed; Files holds the files before that point.
	Err bool
	Why string
	// Unspecified: the input uses a spelling whose meaning is not fixed by
	// the formats; nothing may be concluded from the library's answer.
	Unspecified string
}

var hunkRE = regexp.MustCompile(`^@@ -([0-9]+)(?:,([0-9]+))? \+([0-9]+)(?:,([0-9]+))? @@`)

// ParseHunkHeader reads one @@ line; ok is false if it is not well formed.
func ParseHunkHeader(line string) (h *Hunk, ok bool) {
	m := hunkRE.FindStringSubmatch(line)
	if m == nil {
		return nil, false
	}
	h = &Hunk{Comment: strings.TrimSpace(line[len(m[0]):])}
	num := func(s string, def int64) int64 {
		if s == "" {
			return def
		}
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			ok = false
		}
		return v
	}
	ok = true
	h.OldPos, h.OldN = num(m[1], 0), num(m[2], 1)
	h.NewPos, h.NewN = num(m[3], 0), num(m[4], 1)
	return h, ok
}

func isMarker(l string) bool { return len(l) >= 12 && strings.HasPrefix(l, `\ `) }

// parseHunk reads the hunk at lines[0], which starts with "@@ -". It returns
// the number of lines used; why is set if the hunk is malformed.
func parseHunk(lines []string) (h *Hunk, n int, why, unspec string) {
	h, ok := ParseHunkHeader(lines[0])
	if !ok {
		return nil, 0, "malformed hunk header", ""
	}
	n = 1
	var old, new int64
	unterminated := func() {
		if k := len(h.Body); k > 0 {
			h.Body[k-1].Text = strings.TrimSuffix(h.Body[k-1].Text, "\n")
		} else {
			unspec = "no-newline marker before any line"
		}
	}
	for old < h.OldN || new < h.NewN {
		if n >= len(lines) {
			return nil, 0, "hunk ends early", unspec
		}
		l := lines[n]
		if isMarker(l) {
			unterminated()
			n++
			continue
		}
		op := Op{Kind: l[0], Text: l[1:]}
		switch l[0] {
		case '\n':
			op = Op{' ', "\n"}
		case ' ', '-', '+':
		default:
			return nil, 0, "bad line prefix", unspec
		}
		h.Body = append(h.Body, op)
		if op.Old() {
			old++
		}
		if op.New() {
			new++
		}
		n++
	}
	if old != h.OldN || new != h.NewN {
		return nil, 0, "hunk body exceeds its counts", unspec
	}
	if h.Changes() == 0 {
		return nil, 0, "hunk without changes", unspec
	}
	if n < len(lines) && isMarker(lines[n]) {
		unterminated()
		n++
	}
	return h, n, "", unspec
}

// unquote reads a C-quoted string at the start of s.
func unquote(s string) (out string, n int, ok, odd bool) {
	var b strings.Builder
	for n = 1; n < len(s); n++ {
		c := s[n]
		if c == '"' {
			return b.String(), n + 1, true, odd
		}
		if c == '\n' {
			return "", 0, false, odd
		}
		if c != '\\' {
			b.WriteByte(c)
			continue
		}
		n++
		if n >= len(s) {
			return "", 0, false, odd
		}
		if k := strings.IndexByte(`abtnvfr"\`, s[n]); k >= 0 {
			b.WriteByte("\a\b\t\n\v\f\r\"\\"[k])
			continue
		}
		if s[n] >= '0' && s[n] <= '3' && n+2 < len(s) && s[n+1] >= '0' && s[n+1] <= '7' && s[n+2] >= '0' && s[n+2] <= '7' {
			b.WriteByte((s[n]-'0')<<6 | (s[n+1]-'0')<<3 | (s[n+2] - '0'))
			n += 2
			continue
		}
		if strings.IndexByte("xuU", s[n]) >= 0 {
			odd = true // Go escapes, which no diff tool writes
		}
		return "", 0, false, odd
	}
	return "", 0, false, odd
}

// Unquote reads a C-quoted name at the start of s.
func Unquote(s string) (name string, n int, ok bool) {
	name, n, ok, _ = unquote(s)
	return
}

// Quote writes a name the way git does with core.quotePath set (hi) or not.
func Quote(name string, hi bool) string {
	var b strings.Builder
	need := false
	for i := 0; i < len(name); i++ {
		c := name[i]
		if k := strings.IndexByte("\a\b\t\n\v\f\r\"\\", c); k >= 0 {
			b.WriteByte('\\')
			b.WriteByte(`abtnvfr"\`[k])
			need = true
		} else if c < 0x20 || c == 0x7f || hi && c >= 0x80 {
			b.WriteByte('\\')
			b.WriteByte('0' + c>>6)
			b.WriteByte('0' + c>>3&7)
			b.WriteByte('0' + c&7)
			need = true
		} else {
			b.WriteByte(c)
		}
	}
	if !need {
		return name
	}
	return `"` + b.String() + `"`
}

// name reads a name from a header line (without its newline). ok is false if
// there is none.
func (p *patchParser) name(s string, tab bool, strip bool) (string, bool) {
	var name string
	if strings.HasPrefix(s, `"`) {
		n, _, ok, odd := unquote(s)
		if odd {
			p.unspec("escape sequence")
		}
		if !ok {
			return "", false
		}
		name = n
	} else {
		name = s
		if tab {
			name, _, _ = strings.Cut(name, "\t")
		}
	}
	if name == "" {
		return "", false
	}
	if name == "/dev/null" {
		return name, true
	}
	if strings.Contains(name, "//") {
		p.unspec("empty path component")
	}
	if strip {
		_, rest, ok := strings.Cut(name, "/")
		if !ok || rest == "" || name[0] == '/' {
			p.unspec("name without prefix")
		}
		name = rest
	}
	return name, true
}

// defaultName is the common name of both sides of a "diff --git" line.
func (p *patchParser) defaultName(s string) (string, bool) {
	strip := func(n string) string {
		_, rest, ok := strings.Cut(n, "/")
		if !ok {
			p.unspec("name without prefix")
		}
		return rest
	}
	if s == "" {
		p.unspec("no names")
		return "", true
	}
	if !strings.Contains(s, `"`) {
		// A name N prefixed on both sides: P1/N P2/N with equal halves.
		for i := 0; i < len(s); i++ {
			if s[i] != ' ' {
				continue
			}
			_, a, ok1 := strings.Cut(s[:i], "/")
			_, b, ok2 := strings.Cut(s[i+1:], "/")
			if ok1 && ok2 && a == b && a != "" {
				return a, true
			}
		}
		if strings.Count(s, "/") == 0 || strings.ContainsAny(s, "\t") {
			p.unspec("name without prefix")
		}
		return "", true
	}
	var first, second string
	if s[0] == '"' {
		f, n, ok, odd := unquote(s)
		if odd {
			p.unspec("escape sequence")
		}
		if !ok {
			return "", false
		}
		if n >= len(s) || s[n] != ' ' {
			p.unspec("separator")
			return "", true
		}
		first = f
		s = s[n+1:]
		if strings.HasPrefix(s, " ") {
			p.unspec("separator")
		}
	} else {
		i := strings.IndexByte(s, '"')
		if s[i-1] != ' ' {
			if i > 0 && s[i-1] == '\t' {
				p.unspec("separator")
			}
			return "", false
		}
		first, s = s[:i-1], s[i:]
	}
	if strings.HasPrefix(s, `"`) {
		f, n, ok, odd := unquote(s)
		if odd {
			p.unspec("escape sequence")
		}
		if !ok {
			return "", false
		}
		if n != len(s) {
			p.unspec("text after name")
		}
		second = f
	} else {
		second = s
	}
	if a := strip(first); a == strip(second) {
		return a, true
	}
	return "", true
}

type patchParser struct {
	lines []string
	at    int
	out   *Patch
}

func (p *patchParser) unspec(why string) {
	if p.out.Unspecified == "" {
		p.out.Unspecified = why
	}
}

func (p *patchParser) line(d int) string {
	if p.at+d < len(p.lines) {
		return p.lines[p.at+d]
	}
	return ""
}

// ParsePatch is the specification of Parse.
func ParsePatch(text string) *Patch {
	p := &patchParser{lines: Lines(text), out: &Patch{}}
	start := 0
	fail := func(why string) *Patch {
		p.out.Err, p.out.Why = true, why
		return p.out
	}
	for {
		f, why := p.findHeader()
		if len(p.out.Files) == 0 {
			p.out.Preamble = strings.Join(p.lines[start:p.headerAt(f)], "")
		}
		if why != "" {
			return fail(why)
		}
		if f == nil {
			return p.out
		}
		n := 0
		for strings.HasPrefix(p.line(0), "@@ -") {
			h, k, why, unspec := parseHunk(p.lines[p.at:])
			if unspec != "" {
				p.unspec(unspec)
			}
			if h0, ok := ParseHunkHeader(p.line(0)); ok && (f.IsNew && h0.OldN > 0 || f.IsDelete && h0.NewN > 0) {
				p.unspec("hunk contradicts the kind of change")
			}
			if why != "" {
				return fail(why)
			}
			f.Hunks = append(f.Hunks, h)
			p.at += k
			n++
		}
		if n == 0 {
			if why := p.binary(f); why != "" {
				return fail(why)
			}
		}
		p.out.Files = append(p.out.Files, f)
	}
}

func (p *patchParser) headerAt(f *File) int {
	if f == nil {
		return p.at
	}
	return f.startLine
}

func (p *patchParser) findHeader() (*File, string) {
	for ; p.at < len(p.lines); p.at++ {
		l := p.line(0)
		switch {
		case strings.HasPrefix(l, "@@ -"):
			if _, ok := ParseHunkHeader(l); ok {
				return nil, "hunk without file header"
			}
		case strings.HasPrefix(l, "diff --git "):
			return p.gitHeader()
		case strings.HasPrefix(l, "--- ") && strings.HasPrefix(p.line(1), "+++ ") && strings.HasPrefix(p.line(2), "@@ -"):
			if _, ok := ParseHunkHeader(p.line(2)); !ok {
				p.unspec("no hunk header after ---/+++")
			}
			return p.traditional()
		}
	}
	return nil, ""
}

func chomp(s string) string { return strings.TrimSuffix(s, "\n") }

func (p *patchParser) traditional() (*File, string) {
	f := &File{startLine: p.at}
	oldLine, newLine := chomp(p.line(0)), chomp(p.line(1))
	old, ok := p.name(oldLine[4:], true, false)
	if !ok {
		return nil, "bad old name"
	}
	new, ok := p.name(newLine[4:], true, false)
	if !ok {
		return nil, "bad new name"
	}
	switch {
	case old == "/dev/null" || epochStamp(oldLine):
		f.IsNew, f.NewName = true, new
		if new == "/dev/null" {
			p.unspec("both sides missing")
		}
	case new == "/dev/null" || epochStamp(newLine):
		f.IsDelete, f.OldName = true, old
	case strings.HasPrefix(new, old):
		f.OldName, f.NewName = old, old
	default:
		f.OldName, f.NewName = new, new
	}
	p.at += 2
	return f, ""
}

var epochRE = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)(\.\d+)? ([-+])(\d\d):?(\d\d)$`)

// epochStamp reports whether a ---/+++ line carries the time of the epoch.
func epochStamp(line string) bool {
	_, ts, ok := strings.Cut(line, "\t")
	if !ok {
		return false
	}
	m := epochRE.FindStringSubmatch(ts)
	if m == nil {
		return false
	}
	t, err := time.Parse("2006-01-02 15:04:05", m[1])
	if err != nil {
		return false
	}
	if strings.Trim(m[2], ".0") != "" {
		return false
	}
	hh, _ := strconv.Atoi(m[4])
	mm, _ := strconv.Atoi(m[5])
	off := int64(hh*3600 + mm*60)
	if m[3] == "-" {
		off = -off
	}
	return t.Unix() == off
}

func (p *patchParser) gitHeader() (*File, string) {
	f := &File{startLine: p.at}
	def, ok := p.defaultName(chomp(p.line(0)[len("diff --git "):]))
	if !ok {
		return nil, "bad names"
	}
	p.at++
	oldSeen, newSeen := "", "" // names on the ---/+++ lines
	seen := map[string]bool{}
	once := func(k string) {
		if seen[k] {
			p.unspec("repeated header line " + k)
		}
		seen[k] = true
	}
	for ; p.at < len(p.lines); p.at++ {
		l := chomp(p.line(0))
		k, rest := "", ""
		for _, x := range []string{"--- ", "+++ ", "old mode ", "new mode ", "deleted file mode ", "new file mode ", "copy from ", "copy to ", "rename old ", "rename new ", "rename from ", "rename to ", "similarity index ", "dissimilarity index ", "index "} {
			if strings.HasPrefix(l, x) {
				k, rest = x, l[len(x):]
			}
		}
		if k == "" {
			break
		}
		if (oldSeen != "" || newSeen != "") && k != "--- " && k != "+++ " {
			p.unspec("extended header after ---/+++")
		}
		why := ""
		mode := func(s string) uint32 {
			t := strings.TrimSpace(s)
			if t != s {
				p.unspec("space around mode")
			}
			if t == "" || strings.Trim(t, "01234567") != "" {
				why = "bad mode"
				return 0
			}
			v, err := strconv.ParseUint(t, 8, 64)
			if err != nil || v > 0o17777777777 {
				why = "bad mode"
			} else if v > 0o177777 {
				p.unspec("large mode")
			}
			return uint32(v)
		}
		nm := func(tab, strip bool) string {
			n, ok := p.name(rest, tab, strip)
			if !ok {
				why = "bad name"
			}
			return n
		}
		switch k {
		case "--- ":
			once("---")
			oldSeen = nm(true, true)
		case "+++ ":
			once("+++")
			newSeen = nm(true, true)
		case "old mode ":
			once("old mode")
			f.OldMode = mode(rest)
		case "new mode ":
			once("new mode")
			f.NewMode = mode(rest)
		case "deleted file mode ":
			once("old mode")
			f.IsDelete = true
			f.OldMode = mode(rest)
		case "new file mode ":
			once("new mode")
			f.IsNew = true
			f.NewMode = mode(rest)
		case "copy from ", "rename from ", "rename old ":
			once("from")
			f.OldName = nm(false, false)
			f.IsCopy = f.IsCopy || k == "copy from "
			f.IsRename = f.IsRename || k != "copy from "
		case "copy to ", "rename to ", "rename new ":
			once("to")
			f.NewName = nm(false, false)
			f.IsCopy = f.IsCopy || k == "copy to "
			f.IsRename = f.IsRename || k != "copy to "
		case "similarity index ", "dissimilarity index ":
			once("score")
			num := strings.TrimSuffix(rest, "%")
			if num == rest {
				p.unspec("score without %")
			}
			if num == "" || strings.Trim(num, "0123456789") != "" {
				why = "bad score"
				break
			}
			v, err := strconv.ParseUint(num, 10, 31)
			if err != nil {
				why = "bad score"
			} else if v > 100 {
				p.unspec("score above 100")
			}
			f.Score = int(v)
		case "index ":
			once("index")
			ids, m, hasMode := strings.Cut(rest, " ")
			a, b, ok := strings.Cut(ids, "..")
			if !ok {
				why = "bad index line"
				break
			}
			if a == "" || b == "" {
				p.unspec("empty object id")
			}
			if hasMode {
				once("old mode")
			}
			f.OldOID, f.NewOID = a, b
			if hasMode {
				f.OldMode = mode(m)
			}
		}
		if why != "" {
			return nil, why
		}
	}
	if f.IsCopy && f.IsRename || f.IsNew && f.IsDelete || (f.IsNew || f.IsDelete) && (f.IsCopy || f.IsRename) {
		p.unspec("several kinds of change")
	}
	if (f.IsNew || f.IsDelete) && (seen["old mode"] && seen["new mode"]) {
		p.unspec("contradicting modes")
	}
	// names
	const null = "/dev/null"
	if f.IsNew {
		if oldSeen != "" && oldSeen != null {
			return nil, "old name of a new file"
		}
		if newSeen == null && def == "" {
			p.unspec("new file called /dev/null")
		}
		if newSeen == null || newSeen != "" && def != "" && newSeen != def {
			return nil, "contradicting new name"
		}
		f.NewName = def
		if newSeen != "" {
			f.NewName = newSeen
		}
		if f.NewName == "" {
			return nil, "no name"
		}
		return f, ""
	}
	if f.IsDelete {
		if newSeen != "" && newSeen != null {
			return nil, "new name of a deleted file"
		}
		if oldSeen == null && def == "" {
			p.unspec("deleted file called /dev/null")
		}
		if oldSeen == null || oldSeen != "" && def != "" && oldSeen != def {
			return nil, "contradicting old name"
		}
		f.OldName = def
		if oldSeen != "" {
			f.OldName = oldSeen
		}
		if f.OldName == "" {
			return nil, "no name"
		}
		return f, ""
	}
	if oldSeen == null || newSeen == null {
		// without a new/deleted line this contradicts the header, but git
		// does not write it and its reading is not fixed
		p.unspec("/dev/null without new or deleted file line")
	}
	if oldSeen != "" && f.OldName != "" && oldSeen != f.OldName {
		return nil, "contradicting old name"
	}
	if newSeen != "" && f.NewName != "" && newSeen != f.NewName {
		return nil, "contradicting new name"
	}
	if oldSeen != "" && newSeen != "" && def != "" && (oldSeen != def || newSeen != def) && !f.IsCopy && !f.IsRename {
		p.unspec("names differ from the first line")
	}
	if f.OldName == "" {
		f.OldName = oldSeen
	}
	if f.NewName == "" {
		f.NewName = newSeen
	}
	if f.OldName == "" && f.NewName == "" {
		f.OldName, f.NewName = def, def
	}
	if f.OldName == "" || f.NewName == "" {
		return nil, "no name"
	}
	return f, ""
}

func (p *patchParser) binary(f *File) string {
	l := p.line(0)
	if strings.HasSuffix(l, " differ\n") && (strings.HasPrefix(l, "Binary files ") || strings.HasPrefix(l, "Files ")) {
		f.IsBinary = true
		p.at++
		return ""
	}
	if l != "GIT binary patch\n" {
		return ""
	}
	f.IsBinary = true
	p.at++
	s, n, present, ok, odd := ParseBinarySection(p.lines[p.at:])
	if odd {
		p.unspec("size spelling")
	}
	if !present || !ok {
		return "bad binary data"
	}
	f.Fwd = &s
	p.at += n
	r, n, present, ok, odd := ParseBinarySection(p.lines[p.at:])
	if odd {
		p.unspec("size spelling")
	}
	if present {
		if !ok {
			return "bad binary data"
		}
		f.Rev = &r
		p.at += n
	}
	return ""
}
