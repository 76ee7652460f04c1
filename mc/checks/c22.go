package checks

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C22", Title: "commit headers of git log and show",
		Assumptions: []string{
			"names and addresses as in C25, dates as in C24",
			"no notes or signatures are shown after the message",
			"white space is space, tab, CR; other Unicode space at the ends of lines is not judged",
		},
		Scenarios: c22,
	})
}

// commitModel is what a header is written from.
type commitModel struct {
	sha, deco            string
	extra                []string // unknown header lines
	extraAt              int
	author, committer    gitdiff.PatchIdentity
	aSec, aOff           int64
	cSec, cOff           int64
	message              string
	form                 string // date form
	blank                string // how blank message lines look
	lineEnd, lead, trail string
}

const sampleSHA = "61f5cd90bed4d204ee3feb3aa41ee91d4734855b"

func sampleCommit() *commitModel {
	return &commitModel{
		sha:    sampleSHA,
		author: gitdiff.PatchIdentity{Name: "Au Thor", Email: "au@th.or"}, committer: gitdiff.PatchIdentity{Name: "Com Mitter", Email: "com@mit.ter"},
		aSec: 1586643683, aOff: -420, cSec: 1586730000, cOff: 330,
		message: "title\n\nbody\n", form: "default", blank: "    ", lineEnd: "\n", trail: "\n",
	}
}

func rtrim(s string) string { return strings.TrimRight(s, " \t\r\n") }

// expandTabs is git's tab expansion for ASCII text before tabs.
func expandTabs(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		if c == '\t' {
			b.WriteString(strings.Repeat(" ", 8-b.Len()%8))
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

var prettyFormats = []string{"short", "medium", "full", "fuller"}

// pretty writes the commit as git log does.
func (c *commitModel) pretty(format string) string {
	id := func(p gitdiff.PatchIdentity) string { return p.Name + " <" + p.Email + ">" }
	lines := []string{"commit " + c.sha + c.deco}
	switch format {
	case "short":
		lines = append(lines, "Author: "+id(c.author))
	case "medium":
		lines = append(lines, "Author: "+id(c.author), "Date:   "+gitDate(c.form, c.aSec, c.aOff))
	case "full":
		lines = append(lines, "Author: "+id(c.author), "Commit: "+id(c.committer))
	case "fuller":
		lines = append(lines, "Author:     "+id(c.author), "AuthorDate: "+gitDate(c.form, c.aSec, c.aOff),
			"Commit:     "+id(c.committer), "CommitDate: "+gitDate(c.form, c.cSec, c.cOff))
	}
	at := min(1+c.extraAt, len(lines))
	lines = append(lines[:at], append(append([]string{}, c.extra...), lines[at:]...)...)
	var msg []string
	for _, l := range strings.Split(c.message, "\n") {
		l = rtrim(l)
		if l == "" {
			if len(msg) == 0 {
				continue
			}
			if format == "short" {
				break
			}
			msg = append(msg, c.blank)
			continue
		}
		if format != "short" { // git expands tabs in the other formats
			l = expandTabs(l)
		}
		msg = append(msg, "    "+l)
	}
	for len(msg) > 0 && strings.TrimSpace(msg[len(msg)-1]) == "" {
		msg = msg[:len(msg)-1]
	}
	if len(msg) > 0 {
		lines = append(lines, "")
		lines = append(lines, msg...)
	}
	return c.lead + strings.Join(lines, c.lineEnd) + c.trail
}

// expectMessage gives title and body of a commit message.
func expectMessage(message, format string) (title, body string) {
	lines := strings.Split(message, "\n")
	i := 0
	for i < len(lines) && rtrim(lines[i]) == "" {
		i++
	}
	var t []string
	for ; i < len(lines) && rtrim(lines[i]) != ""; i++ {
		t = append(t, strings.Trim(lines[i], " \t\r"))
	}
	if format == "short" {
		return strings.Join(t, " "), ""
	}
	return strings.Join(t, " "), squeeze(lines[i:], true)
}

// squeeze drops trailing white space and collapses blank runs.
func squeeze(lines []string, tabs bool) string {
	var b []string
	gap := false
	for _, l := range lines {
		l = rtrim(l)
		if tabs {
			l = expandTabs(l)
		}
		if l == "" {
			gap = true
			continue
		}
		if gap && len(b) > 0 {
			b = append(b, "")
		}
		gap = false
		b = append(b, l)
	}
	return strings.Join(b, "\n")
}

func (c *commitModel) expect(format string) *gitdiff.PatchHeader {
	h := &gitdiff.PatchHeader{SHA: c.sha}
	a, m := c.author, c.committer
	h.Author = &a
	if format == "full" || format == "fuller" {
		h.Committer = &m
	}
	at := func(sec, off int64) time.Time {
		if c.form == "short" {
			y, m, d := civil(floorDiv(sec+off*60, 86400))
			return time.Date(int(y), time.Month(m), int(d), 0, 0, 0, 0, time.Local)
		}
		if c.form == "default-local" {
			x := time.Unix(sec+off*60, 0).UTC()
			return time.Date(x.Year(), x.Month(), x.Day(), x.Hour(), x.Minute(), x.Second(), 0, time.Local)
		}
		return time.Unix(sec, 0)
	}
	if format == "medium" || format == "fuller" {
		h.AuthorDate = at(c.aSec, c.aOff)
	}
	if format == "fuller" {
		h.CommitterDate = at(c.cSec, c.cOff)
	}
	h.Title, h.Body = expectMessage(c.message, format)
	return h
}

func identityString(p *gitdiff.PatchIdentity) string {
	if p == nil {
		return "(none)"
	}
	return fmt.Sprintf("%q %q", p.Name, p.Email)
}

// sameHeader compares headers field by field.
func sameHeader(t *engine.T, in string, got, want *gitdiff.PatchHeader) {
	if got == nil {
		t.Fail("nil", "no header and no error for %s", q(in))
	}
	cmp := func(f, a, b string) {
		if a != b {
			t.Fail("field "+f, "%s is %s, want %s\n%s", f, q(a), q(b), q(in))
		}
	}
	cmp("SHA", got.SHA, want.SHA)
	cmp("Author", identityString(got.Author), identityString(want.Author))
	cmp("Committer", identityString(got.Committer), identityString(want.Committer))
	if !got.AuthorDate.Equal(want.AuthorDate) {
		t.Fail("field AuthorDate", "author date %v, want %v\n%s", got.AuthorDate, want.AuthorDate, q(in))
	}
	if !got.CommitterDate.Equal(want.CommitterDate) {
		t.Fail("field CommitterDate", "committer date %v, want %v\n%s", got.CommitterDate, want.CommitterDate, q(in))
	}
	cmp("SubjectPrefix", got.SubjectPrefix, want.SubjectPrefix)
	cmp("Title", got.Title, want.Title)
	cmp("Body", got.Body, want.Body)
	cmp("BodyAppendix", got.BodyAppendix, want.BodyAppendix)
	msg := want.Title
	if want.Body != "" {
		msg += "\n\n" + want.Body
	}
	cmp("Message()", got.Message(), msg)
}

func verifyPretty(t *engine.T, c *commitModel, format string, opts ...gitdiff.PatchHeaderOption) {
	in := c.pretty(format)
	t.Desc(func() string { return q(in) })
	t.Trace()
	got, err := gitdiff.ParsePatchHeader(in, opts...)
	if err != nil {
		t.Fail("refused", "%s header refused: %v\n%s", format, err, q(in))
	}
	sameHeader(t, in, got, c.expect(format))
}

var messageTokens = []string{"", "w", "  in", "two  words x", "---", "\tt", "Author: x <y@z>", "commit 1", "w \t", " \t", "Date: never", "* item"}

func messageOf(t *engine.T, tokens []string, max int) string {
	var b strings.Builder
	n := t.Choose(max + 1)
	for i := 0; i < n; i++ {
		b.WriteString(engine.Pick(t, tokens))
		if i < n-1 || t.Bool() {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// gitLog holds what git printed for each message.
type gitLog struct {
	messages []string
	models   []*commitModel
	out      map[string][]string // per format
	err      string
}

// stamp writes authors, dates and the message for git fast-import.
func (c *commitModel) stamp(b *bytes.Buffer) {
	who := func(who string, p gitdiff.PatchIdentity, sec, off int64) {
		sign := "+"
		if off < 0 {
			sign, off = "-", -off
		}
		fmt.Fprintf(b, "%s %s <%s> %d %s%02d%02d\n", who, p.Name, p.Email, sec, sign, off/60, off%60)
	}
	who("author", c.author, c.aSec, c.aOff)
	who("committer", c.committer, c.cSec, c.cOff)
	fmt.Fprintf(b, "data %d\n%s\n", len(c.message), c.message)
}

// fastImport writes a linear or unrelated set of commits.
func fastImport(cs []*commitModel, linear bool) []byte {
	var b bytes.Buffer
	b.WriteString("feature done\n")
	for i, c := range cs {
		if !linear {
			b.WriteString("reset refs/heads/m\n\n")
		}
		fmt.Fprintf(&b, "commit refs/heads/m\nmark :%d\n", i+1)
		c.stamp(&b)
		if linear {
			body := fmt.Sprintf("line %d\n", i)
			fmt.Fprintf(&b, "M 100644 inline f\ndata %d\n%s\n", len(body), body)
		}
		b.WriteString("\n")
	}
	b.WriteString("done\n")
	return b.Bytes()
}

// sequences lists all token sequences up to a length.
func sequences(tokens []string, max int) []string {
	out := []string{""}
	cur := []string{""}
	for i := 0; i < max; i++ {
		var next []string
		for _, p := range cur {
			for _, k := range tokens {
				next = append(next, p+k+"\n")
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func loadGitLog(messages []string) *gitLog {
	l := &gitLog{messages: messages, out: map[string][]string{}}
	g, ok := newGit()
	if !ok {
		l.err = "git is not available"
		return l
	}
	defer g.close()
	g.must(nil, "init", "-q", "--bare", "-b", "m", ".")
	ids := []gitdiff.PatchIdentity{{Name: "Au Thor", Email: "au@th.or"}, {Name: "J\xc3\xb6rg", Email: "j@x"}, {Name: "dependabot[bot]", Email: "1+d[bot]@y.z"}, {Name: "u@h", Email: "r@x"}}
	for i, m := range messages {
		c := sampleCommit()
		c.message = m
		c.author, c.committer = ids[i%len(ids)], ids[i/3%len(ids)]
		c.aSec += int64(i) * 86400 * 3
		c.aOff = []int64{0, -420, 330, 840}[i%4]
		c.cSec += int64(i) * 3601
		c.cOff = []int64{60, -210}[i%2]
		l.models = append(l.models, c)
	}
	g.must(fastImport(l.models, false), "fast-import", "--quiet", "--done", "--export-marks=marks")
	data := readFile(g.dir + "/marks")
	sha := map[string]string{}
	for _, ln := range strings.Split(strings.TrimSpace(data), "\n") {
		m, s, _ := strings.Cut(ln, " ")
		sha[m] = s
	}
	var list bytes.Buffer
	for i, c := range l.models {
		c.sha = sha[fmt.Sprintf(":%d", i+1)]
		list.WriteString(c.sha + "\n")
	}
	for _, f := range prettyFormats {
		// identical commits share an id, so they are printed once each
		out := g.must(list.Bytes(), "log", "--no-walk=unsorted", "--stdin", "-z", "--no-decorate", "--pretty="+f)
		byID := map[string]string{}
		for _, blk := range strings.Split(out, "\x00") {
			if len(blk) > 47 {
				byID[blk[7:47]] = blk
			}
		}
		for _, c := range l.models {
			l.out[f] = append(l.out[f], byID[c.sha])
		}
	}
	return l
}

var gitLogs onceMap[string, *gitLog]

func c22(tier string) []engine.Scenario {
	var ss []engine.Scenario
	n := sel(tier, 5, 6)
	ss = append(ss, engine.Scenario{
		Name:  "messages",
		Bound: fmt.Sprintf("all messages of up to %d of %d line tokens, with and without final newline, x 4 formats x 2 spellings of blank lines", n, len(messageTokens)),
		Run: func(t *engine.T) {
			c := sampleCommit()
			c.message = messageOf(t, messageTokens, n)
			t.State(c.message)
			for _, b := range []string{"    ", ""} {
				c.blank = b
				for _, f := range prettyFormats {
					verifyPretty(t, c, f)
				}
			}
		},
	})
	ids := []gitdiff.PatchIdentity{{Name: "Au Thor", Email: "au@th.or"}, {Name: "x", Email: ""}, {Name: "J\xc3\xb6rg O'N", Email: "j@x"}, {Name: "loc", Email: "loc"}}
	decos := []string{"", " (HEAD -> main)", " (tag: v1, origin/x)", " 1234567", " 1234567 89abcde (x)"}
	extras := []string{"Merge: 1234567 89abcde", "Reflog: HEAD@{0} (A <a@b>)", "Reflog message: commit: x", "gpg: Signature made Thu", "Unknown: Date: x", "x", "  Author: no", "author: no", "Committer: C <c@d>", "\tDate: no", "DateX: no", "Author"}
	ne := sel(tier, 2, 3)
	ss = append(ss, engine.Scenario{
		Name:  "header lines",
		Bound: fmt.Sprintf("4 formats x %d decorations x up to %d of %d unknown lines at every place x %d date forms x %d x %d identities", len(decos), ne, len(extras), len(dateForms), len(ids), len(ids)),
		Run: func(t *engine.T) {
			c := sampleCommit()
			f := engine.Pick(t, prettyFormats)
			c.deco = engine.Pick(t, decos)
			if k := t.Choose(ne + 1); k > 0 {
				for i := 0; i < k; i++ {
					c.extra = append(c.extra, engine.Pick(t, extras))
				}
				c.extraAt = t.Choose(5)
			}
			if len(c.extra) < 2 {
				c.author = engine.Pick(t, ids)
				c.committer = engine.Pick(t, ids)
				c.form = engine.Pick(t, dateForms)
			}
			t.State(c.pretty(f))
			verifyPretty(t, c, f)
		},
	})
	shas := []string{sampleSHA, strings.Repeat("ab12", 16), "61f5cd9", "0", strings.Repeat("f", 40)}
	leads := []string{"", "\n", "\n   \n\n", " \t\n"}
	trails := []string{"", "\n", "\n\n", "\n    \n\n", " "}
	msgs := []string{"", "t", "t\nu", "t\n\nb", "  t\n\n  b\n\n\n   c\nd", "\n\nt\n\n\n\nb\n\n"}
	ss = append(ss, engine.Scenario{
		Name:  "surroundings",
		Bound: "4 formats x 5 ids, plain and with 3 kinds of decoration x leading and trailing white space x 6 messages x 3 clean modes (which do not apply), directly and as the preamble of a patch",
		Run: func(t *engine.T) {
			c := sampleCommit()
			f := engine.Pick(t, prettyFormats)
			c.sha, c.lead, c.trail = engine.Pick(t, shas), engine.Pick(t, leads), engine.Pick(t, trails)
			c.deco = engine.Pick(t, []string{"", " (HEAD -> main, tag: v1)", " (from " + strings.Repeat("cd34", 16) + ")", " " + strings.Repeat("cd34", 16)})
			c.message = engine.Pick(t, msgs)
			in := c.pretty(f)
			t.State(in)
			switch k := t.Choose(4); k {
			case 3:
				if c.trail == "" || c.trail == " " {
					t.Skip()
				}
				s := in + fileParts[0]
				t.Desc(func() string { return q(s) })
				_, pre, err := gitdiff.Parse(strings.NewReader(s))
				if err != nil || pre != in {
					t.Fail("preamble", "preamble %s, error %v, want %s", q(pre), err, q(in))
				}
			default:
				verifyPretty(t, c, f, gitdiff.WithSubjectCleanMode(gitdiff.SubjectCleanMode(k)))
			}
			verifyPretty(t, c, f)
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "fields",
		Bound: "every subset of the fields of the formats (author, one or no author date, committer, committer date), in every order, with and without a message",
		Run: func(t *engine.T) {
			c := sampleCommit()
			h := &gitdiff.PatchHeader{SHA: c.sha}
			all := c.expect("fuller")
			var fields []string
			line := func(l string, set func()) {
				if t.Bool() {
					fields = append(fields, l)
					set()
				}
			}
			line("Author: Au Thor <au@th.or>", func() { h.Author = all.Author })
			line("Commit: Com Mitter <com@mit.ter>", func() { h.Committer = all.Committer })
			line("CommitDate: "+gitDate(c.form, c.cSec, c.cOff), func() { h.CommitterDate = all.CommitterDate })
			if d := t.Choose(3); d > 0 {
				fields = append(fields, []string{"", "Date:   ", "AuthorDate: "}[d]+gitDate(c.form, c.aSec, c.aOff))
				h.AuthorDate = all.AuthorDate
			}
			in := strings.Join(append([]string{"commit " + c.sha}, permutation(t, fields)...), "\n")
			if t.Bool() {
				in += "\n\n    title\n\n    body"
				h.Title, h.Body = "title", "body"
			}
			in += engine.Pick(t, []string{"", "\n", "\n\n"})
			t.Desc(func() string { return q(in) })
			t.State(in)
			t.Trace()
			got, err := gitdiff.ParsePatchHeader(in)
			if err != nil {
				t.Fail("refused", "%v for %s", err, q(in))
			}
			sameHeader(t, in, got, h)
			t.Outcome("equal")
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "every byte",
		Bound: "every pair of bytes inside a title line and inside or at the start of a body line",
		Run: func(t *engine.T) {
			x := string([]byte{byte(t.Choose(256)), byte(t.Choose(256))})
			if strings.ContainsAny(x, "\n\t\x00") {
				t.Skip()
			}
			c := sampleCommit()
			c.message = "a" + x + "z\n\na" + x + "z\n" + x + "y\n"
			t.State(x)
			verifyPretty(t, c, "medium")
			// the title may start with any character
			if y := "a"; x[0] > ' ' && x[0] < 0x80 && x[1] != ' ' && x[1] != '\r' && x[1] > ' ' {
				c.message = x + y + "\n\n  b\n"
				verifyPretty(t, c, "medium")
			}
		},
	})
	lens := append(boundaries(8, sel(tier, 18, 22)), 65531, 65532, 65533, 65530)
	ss = append(ss, engine.Scenario{
		Name:  "long lines and messages",
		Bound: fmt.Sprintf("%d lengths up to 2^%d of title, body line, blank run, number of lines, decoration, unknown line, name", len(lens), sel(tier, 18, 22)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, lens)
			x := strings.Repeat("x", n)
			c := sampleCommit()
			switch t.Choose(8) {
			case 0:
				c.message = x + "\n\nb\n"
			case 1:
				c.message = "t\n\n" + x + "\nc\n"
			case 2:
				c.message = "t" + strings.Repeat("\n", n) + "\nb" + strings.Repeat("\n", n) + "\nc\n"
			case 3:
				c.message = "t\n\n" + strings.Repeat("l\n", min(n, 1<<16))
			case 4:
				c.message = strings.Repeat("l\n", min(n, 1<<16)) + "\nb"
			case 5:
				c.deco = " (" + x + ")"
			case 6:
				c.extra = []string{"Unknown: " + x}
			case 7:
				c.author.Name = x
			}
			t.State(fmt.Sprint(n), c.message[:min(len(c.message), 50)])
			verifyPretty(t, c, engine.Pick(t, prettyFormats))
		},
	})
	toks := []string{"", "w", "  in", "two  x", "\tt", "---", "w \t", " * \xc3\xbc", "Author: x", "commit 1"}
	gd := sel(tier, 3, 4)
	ss = append(ss, engine.Scenario{
		Name:  "git's own output",
		Bound: fmt.Sprintf("all messages of up to %d of %d line tokens committed to a repository and printed by git log in 4 formats; each is also compared with the model's text", gd, len(toks)),
		Run: func(t *engine.T) {
			l := gitLogs.get(tier, func() *gitLog { return loadGitLog(sequences(toks, gd)) })
			if l.err != "" {
				t.Outcome(l.err)
				return
			}
			i := t.Choose(len(l.messages))
			f := engine.Pick(t, prettyFormats)
			c := l.models[i]
			text := l.out[f][i]
			t.Desc(func() string { return q(text) })
			t.State(f, text)
			model := *c
			if rtrim(model.pretty(f)) != rtrim(text) {
				panic("engine: model of git log differs from git: " + q(model.pretty(f)) + " versus " + q(text))
			}
			t.Trace()
			got, err := gitdiff.ParsePatchHeader(text)
			if err != nil {
				t.Fail("refused", "git's %s header refused: %v\n%s", f, err, q(text))
			}
			w := c.expect(f)
			for _, id := range []*gitdiff.PatchIdentity{w.Author, w.Committer} {
				if id != nil && strings.Contains(id.Name, "@") {
					id.Name = id.Email
				}
			}
			sameHeader(t, text, got, w)
			t.Outcome("git agrees")
		},
	})
	return ss
}
