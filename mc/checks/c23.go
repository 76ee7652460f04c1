package checks

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C23", Title: "mail headers of git format-patch",
		Assumptions: []string{
			"names and addresses as in C25, dates as in C24",
			"encoded words as git writes them (UTF-8, Q encoding)",
			"runs of spaces at the place where a header line is folded are not judged",
		},
		Scenarios: c23,
	})
}

var (
	cleanAll   = regexp.MustCompile(`^(?:[ \t:]|[rR][eE]:|\[[^\]]*\])*`)
	cleanPatch = regexp.MustCompile(`^(?:[ \t:]|[rR][eE]:|\[[^\]]*?PATCH[^\]]*\])*`)
)

// expectSubject is the specification of subject cleaning. Subjects hold no
// encoded words except as given by enc (raw to decoded).
func expectSubject(s string, mode gitdiff.SubjectCleanMode, enc ...string) (prefix, title string) {
	decode := func(x string) string { return strings.NewReplacer(enc...).Replace(x) }
	switch mode {
	case gitdiff.SubjectCleanWhitespace:
		return "", strings.Trim(decode(strings.Trim(s, " \t")), " \t")
	case gitdiff.SubjectCleanAll:
		prefix = cleanAll.FindString(s)
	case gitdiff.SubjectCleanPatchOnly:
		prefix = cleanPatch.FindString(s)
	}
	return strings.TrimLeft(prefix, " \t"), strings.TrimRight(decode(s[len(prefix):]), " \t")
}

var cleanModes = []gitdiff.SubjectCleanMode{gitdiff.SubjectCleanAll, gitdiff.SubjectCleanPatchOnly, gitdiff.SubjectCleanWhitespace}

type mailModel struct {
	mbox    string // first line or ""
	from    string
	author  gitdiff.PatchIdentity
	date    string
	when    time.Time
	subject string // raw header value, possibly folded
	extra   []string
	order   []int // order of From, Date, Subject, extra
	body    string
	noBlank bool
}

func sampleMail() *mailModel {
	return &mailModel{
		mbox: "From " + sampleSHA + " Mon Sep 17 00:00:00 2001",
		from: "Au Thor <au@th.or>", author: gitdiff.PatchIdentity{Name: "Au Thor", Email: "au@th.or"},
		date: "Sat, 11 Apr 2020 15:21:23 -0700", when: time.Unix(1586643683, 0),
		subject: "[PATCH] title", body: "body\n",
	}
}

func (m *mailModel) text() string {
	var b strings.Builder
	if m.mbox != "" {
		b.WriteString(m.mbox + "\n")
	}
	fields := []string{"From: " + m.from, "", "Subject: " + m.subject, strings.Join(m.extra, "\n")}
	if m.date != "" {
		fields[1] = "Date: " + m.date
	}
	order := m.order
	if order == nil {
		order = []int{0, 1, 2, 3}
	}
	for _, i := range order {
		if fields[i] != "" {
			b.WriteString(fields[i] + "\n")
		}
	}
	if !m.noBlank {
		b.WriteString("\n" + m.body)
	}
	return b.String()
}

// expectMailBody splits the body of a mail.
func expectMailBody(body string) (text, appendix string) {
	lines := strings.Split(body, "\n")
	for i, l := range lines {
		if rtrim(l) == "---" {
			return squeeze(lines[:i], false), squeeze(lines[i+1:], false)
		}
	}
	return squeeze(lines, false), ""
}

// verifyMail parses text in every clean mode. subject is the unfolded subject.
func verifyMail(t *engine.T, text, subject string, want *gitdiff.PatchHeader, enc ...string) {
	t.Desc(func() string { return q(text) })
	for i := -1; i < len(cleanModes); i++ {
		t.Trace()
		var got *gitdiff.PatchHeader
		var err error
		mode := cleanModes[0]
		if i < 0 {
			got, err = gitdiff.ParsePatchHeader(text)
		} else {
			mode = cleanModes[i]
			got, err = gitdiff.ParsePatchHeader(text, gitdiff.WithSubjectCleanMode(mode))
		}
		if err != nil {
			t.Fail("refused", "mail header refused: %v\n%s", err, q(text))
		}
		w := *want
		w.SubjectPrefix, w.Title = expectSubject(subject, mode, enc...)
		sameHeader(t, fmt.Sprintf("mode %d: %s", mode, text), got, &w)
	}
}

func (m *mailModel) verify(t *engine.T, subject string, enc ...string) {
	w := &gitdiff.PatchHeader{Author: &m.author}
	if m.mbox != "" {
		w.SHA = strings.Fields(m.mbox)[1]
	}
	if m.date != "" {
		w.AuthorDate = m.when
	}
	if !m.noBlank {
		w.Body, w.BodyAppendix = expectMailBody(m.body)
	}
	verifyMail(t, m.text(), subject, w, enc...)
}

// formatPatches holds the mails git wrote for a chain of commits.
type formatPatches struct {
	models   []*commitModel
	subjects []string
	mails    []string // from format-patch
	email    []string // from log --pretty=email
	err      string
}

func loadFormatPatches(messages []string, authors []gitdiff.PatchIdentity, args ...string) *formatPatches {
	l := &formatPatches{}
	g, ok := newGit()
	if !ok {
		l.err = "git is not available"
		return l
	}
	defer g.close()
	g.must(nil, "init", "-q", "--bare", "-b", "m", ".")
	for i, m := range messages {
		c := sampleCommit()
		c.message = m
		c.author = authors[i%len(authors)]
		c.aSec += int64(i) * 86400 * 3
		c.aOff = []int64{0, -420, 330, 840}[i%4]
		l.models = append(l.models, c)
	}
	g.must(fastImport(l.models, true), "fast-import", "--quiet", "--done", "--export-marks=marks")
	sha := map[string]string{}
	for _, ln := range strings.Split(strings.TrimSpace(readFile(g.dir+"/marks")), "\n") {
		m, s, _ := strings.Cut(ln, " ")
		sha[m] = s
	}
	var list bytes.Buffer
	for i, c := range l.models {
		c.sha = sha[fmt.Sprintf(":%d", i+1)]
		list.WriteString(c.sha + "\n")
	}
	out := g.must(nil, append(append([]string{"format-patch", "--stdout", "--root"}, args...), "m")...)
	byID := map[string]string{}
	const mark = " Mon Sep 17 00:00:00 2001\n"
	for _, p := range strings.Split("\n"+out, "\nFrom ") {
		if len(p) > 40+len(mark) && p[40:40+len(mark)] == mark {
			byID[p[:40]] = "From " + p + "\n"
		}
	}
	for _, c := range l.models {
		l.mails = append(l.mails, byID[c.sha])
	}
	out = g.must(list.Bytes(), "log", "--no-walk=unsorted", "--stdin", "-z", "--pretty=email")
	l.email = strings.Split(out, "\x00")
	return l
}

var patchMails onceMap[string, *formatPatches]

// formatSubject is git's one-line title.
func formatSubject(message string) (title, rest string) {
	lines := strings.Split(message, "\n")
	i := 0
	for i < len(lines) && rtrim(lines[i]) == "" {
		i++
	}
	var t []string
	for ; i < len(lines) && rtrim(lines[i]) != ""; i++ {
		t = append(t, rtrim(lines[i]))
	}
	return strings.Join(t, " "), strings.Join(lines[i:], "\n")
}

// qWords writes text as git's encoded words of at most n payload bytes.
func qWords(s string, n int) (raw string) {
	var words []string
	cur := ""
	for _, r := range s {
		e := ""
		for _, c := range []byte(string(r)) {
			if c <= ' ' || c >= 0x7f || c == '=' || c == '?' || c == '_' {
				e += fmt.Sprintf("=%02X", c)
			} else {
				e += string(c)
			}
		}
		if cur != "" && len(cur)+len(e) > n {
			words = append(words, cur)
			cur = ""
		}
		cur += e
	}
	words = append(words, cur)
	for i := range words {
		words[i] = "=?UTF-8?q?" + words[i] + "?="
	}
	return strings.Join(words, "\n ")
}

func c23(tier string) []engine.Scenario {
	var ss []engine.Scenario
	toks := []string{"w", " ", "[PATCH]", "[PATCH v3 5/17]", "[TAG]", "Re:", "re:", "RE:", "rE:", ":", "[", "]", "\t", "r", "e:", "[xPATCHx]", "[]", "PATCH", "[patch]", "R:"}
	n := sel(tier, 4, 5)
	m0 := sampleMail()
	ss = append(ss, engine.Scenario{
		Name:  "subject tokens",
		Bound: fmt.Sprintf("all subjects of up to %d of %d tokens x 3 clean modes and the default", n, len(toks)),
		Run: func(t *engine.T) {
			s := ""
			for i, k := 0, t.Choose(n+1); i < k; i++ {
				s += engine.Pick(t, toks)
			}
			m := *m0
			m.subject = s
			t.State(s)
			m.verify(t, strings.Trim(s, " \t"))
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "subject bytes",
		Bound: "every pair of bytes at the start, inside, and at the end of a subject, plain and after a tag",
		Run: func(t *engine.T) {
			x := string([]byte{byte(t.Choose(256)), byte(t.Choose(256))})
			if strings.ContainsAny(x, "\n\r\x00\v\f") || x == "\u0085" || x == "\u00a0" {
				t.Skip()
			}
			t.State(x)
			for _, s := range []string{x + "w", "w" + x + "w", "w" + x, "[PATCH] " + x + "w", "[P" + x + "PATCH]w", "Re" + x + "w"} {
				m := *m0
				m.subject = s
				m.verify(t, strings.Trim(s, " \t"))
			}
		},
	})
	// encoded subjects
	runes := []string{"\xc3\xbc", "a", " ", "=", "?", "_", "[", "]", "\xf0\x9f\xa4\x96", ":", "=?", "\t", "Re:", "]PATCH"}
	ne := sel(tier, 4, 5)
	ss = append(ss, engine.Scenario{
		Name:  "encoded subjects",
		Bound: fmt.Sprintf("all titles of 1..%d of %d pieces in encoded words of 1 to 3 pieces, folded, behind each of 6 prefixes x 3 clean modes", ne, len(runes)),
		Run: func(t *engine.T) {
			s := ""
			for i, k := 0, 1+t.Choose(ne); i < k; i++ {
				s += engine.Pick(t, runes)
			}
			if strings.Trim(s, " \t") != s {
				t.Skip()
			}
			t.State(s)
			for _, w := range sel(tier, []int{1, 60}, []int{1, 8, 60}) {
				raw := qWords(s, w)
				for _, pre := range []string{"", "[PATCH] ", "Re: ", "[RFC PATCH 1/2]", "[TAG] ", "[PATCH] [TAG] "} {
					m := *m0
					m.subject = pre + raw
					one := strings.ReplaceAll(raw, "\n ", " ")
					m.verify(t, pre+one, one, s)
				}
			}
		},
	})
	// folding of plain subjects
	ss = append(ss, engine.Scenario{
		Name:  "folded subjects",
		Bound: "subjects of up to 5 words with each gap a space, a fold with a space, or a fold with a tab; tags and reply markers among the words",
		Run: func(t *engine.T) {
			k := 1 + t.Choose(5)
			raw, one := "", ""
			for i := 0; i < k; i++ {
				if i > 0 {
					raw += engine.Pick(t, []string{" ", "\n ", "\n\t", "\n  "})
					one += " "
				}
				w := engine.Pick(t, []string{"word", "[PATCH]", "Re:", "[a"})
				raw += w
				one += w
			}
			m := *m0
			m.subject = raw
			t.State(raw)
			m.verify(t, one)
		},
	})
	bodyToks := []string{"", "w", "---", "  in", " f | 2 +-", "--- ", "w \t", "----", " ---", "\tt", "From: x <y@z>", "--", "-- "}
	nb := sel(tier, 5, 6)
	ss = append(ss, engine.Scenario{
		Name:  "bodies",
		Bound: fmt.Sprintf("all bodies of up to %d of %d line tokens, with and without final newline", nb, len(bodyToks)),
		Run: func(t *engine.T) {
			m := *m0
			m.body = messageOf(t, bodyToks, nb)
			t.State(m.body)
			in := m.text()
			t.Desc(func() string { return q(in) })
			t.Trace()
			got, err := gitdiff.ParsePatchHeader(in)
			if err != nil {
				t.Fail("refused", "mail refused: %v\n%s", err, q(in))
			}
			w := &gitdiff.PatchHeader{SHA: sampleSHA, Author: &m.author, AuthorDate: m.when, SubjectPrefix: "[PATCH] ", Title: "title"}
			w.Body, w.BodyAppendix = expectMailBody(m.body)
			sameHeader(t, in, got, w)
		},
	})
	froms := []struct {
		raw string
		id  gitdiff.PatchIdentity
	}{
		{"Au Thor <au@th.or>", gitdiff.PatchIdentity{Name: "Au Thor", Email: "au@th.or"}},
		{`"d[bot]" <1+d[bot]@x>`, gitdiff.PatchIdentity{Name: "d[bot]", Email: "1+d[bot]@x"}},
		{`"A \"B\" C" <a@b>`, gitdiff.PatchIdentity{Name: `A "B" C`, Email: "a@b"}},
		{"a@b", gitdiff.PatchIdentity{Name: "a@b", Email: "a@b"}},
		{"<a@b>", gitdiff.PatchIdentity{Name: "a@b", Email: "a@b"}},
		{"=?UTF-8?q?J=C3=B6rg=20M=C3=BCller?= <j@x>", gitdiff.PatchIdentity{Name: "J\xc3\xb6rg M\xc3\xbcller", Email: "j@x"}},
		{"=?UTF-8?q?J=C3=B6rg?=\n =?UTF-8?q?=20M=2E=20\"M=C3=BCller?= <j@x>", gitdiff.PatchIdentity{Name: "J\xc3\xb6rg M. M\xc3\xbcller", Email: "j@x"}},
		{"Long\n Name <l@n>", gitdiff.PatchIdentity{Name: "Long Name", Email: "l@n"}},
	}
	froms[6].raw = "=?UTF-8?q?J=C3=B6rg?=\n =?UTF-8?q?=20M=2E=20M=C3=BCller?= <j@x>"
	extraLines := []string{"MIME-Version: 1.0", "Content-Type: text/plain; charset=UTF-8", "Content-Transfer-Encoding: 8bit", "In-Reply-To: <x@y>", "To: b@c,\n d@e", "X-From: no", "Message-ID: <1>"}
	mboxes := []string{"From " + sampleSHA + " Mon Sep 17 00:00:00 2001", "", "From 0123abc Mon Sep 17 00:00:00 2001", "From " + strings.Repeat("ab", 32) + " Thu Jan 1 00:00:00 1970"}
	ss = append(ss, engine.Scenario{
		Name:  "mail fields",
		Bound: fmt.Sprintf("%d mbox lines x %d authors x %d date forms (or no date) x every order of the fields x up to 2 of %d other fields, with and without body", len(mboxes), len(froms), len(dateForms), len(extraLines)),
		Run: func(t *engine.T) {
			m := *m0
			m.mbox = engine.Pick(t, mboxes)
			f := engine.Pick(t, froms)
			m.from, m.author = f.raw, f.id
			form := ""
			if k := t.Choose(len(dateForms) + 1); k > 0 {
				form = dateForms[k-1]
				c := &commitModel{form: form, aSec: 1586643683, aOff: -420}
				m.date = gitDate(form, c.aSec, c.aOff)
				m.when = c.expect("medium").AuthorDate
			} else {
				m.date = ""
			}
			rest := []int{0, 1, 2, 3}
			m.order = nil
			for len(rest) > 0 {
				i := t.Choose(len(rest))
				m.order = append(m.order, rest[i])
				rest = append(append([]int{}, rest[:i]...), rest[i+1:]...)
			}
			if m.mbox == "" && m.order[0] != 0 {
				t.Skip() // starts with From: or From
			}
			if form == "" || form == "rfc" {
				for i, k := 0, t.Choose(3); i < k; i++ {
					m.extra = append(m.extra, engine.Pick(t, extraLines))
				}
			}
			m.noBlank = t.Bool()
			t.State(m.text())
			m.verify(t, "[PATCH] title")
		},
	})
	lens := append(boundaries(8, sel(tier, 16, 20)), 75, 76, 77, 78, 79, 80, 150, 990, 998, 1000, 65530, 65533)
	ss = append(ss, engine.Scenario{
		Name:  "long lines",
		Bound: fmt.Sprintf("%d lengths up to 2^%d of subject (plain, folded, encoded), tag, body line, appendix line, other field, name", len(lens), sel(tier, 16, 20)),
		Run: func(t *engine.T) {
			n := engine.Pick(t, lens)
			x := strings.Repeat("x", n)
			m := *m0
			one := ""
			var enc []string
			switch t.Choose(9) {
			case 0:
				m.subject = "[PATCH] " + x
			case 1:
				m.subject = "[PATCH] " + strings.Repeat("word\n ", n/8) + "end"
				one = strings.ReplaceAll(m.subject, "\n", "")
			case 2:
				s := strings.Repeat("\xc3\xbc", n/4)
				m.subject = "[PATCH] " + qWords(s, 48)
				one = "[PATCH] " + strings.ReplaceAll(qWords(s, 48), "\n", "")
				enc = []string{one[8:], s}
				if s == "" {
					t.Skip()
				}
			case 3:
				m.subject = "[PATCH " + x + "] w"
			case 4:
				m.body = x + "\nb\n---\nc"
			case 5:
				m.body = "b\n---\n" + x + "\nc"
			case 6:
				m.extra = []string{"X-Other: " + x}
			case 7:
				m.from, m.author.Name = x+" <au@th.or>", x
			case 8:
				m.body = strings.Repeat("l\n", min(n, 1<<16)) + "---\n" + strings.Repeat("k\n", min(n, 1<<16))
			}
			if one == "" {
				one = m.subject
			}
			t.State(fmt.Sprint(n, len(m.subject), len(m.body), len(m.from)))
			m.verify(t, one, enc...)
		},
	})
	// git's own output
	gt := []string{"", "w", "  in", "\xc3\xbc x", "[TAG] y", "w \t", "Re: z", "a=?b", strings.TrimSpace(strings.Repeat("long w\xc3\xb6rd ", 12)), strings.TrimSpace(strings.Repeat("plain words ", 12)), "w_?=x\xf0\x9f\xa4\x96"}
	gd := sel(tier, 3, 4)
	authors := []gitdiff.PatchIdentity{{Name: "Au Thor", Email: "au@th.or"}, {Name: "J\xc3\xb6rg M\xc3\xbcller", Email: "j@x"}, {Name: "d[bot]", Email: "1+d[bot]@y.z"}, {Name: "A \"B\\C\" D", Email: "a@b"}, {Name: "u@h", Email: "r@x"}, {Name: "M. Long " + strings.Repeat("Name ", 15) + "End", Email: "l@n"}, {Name: "\xe5\xb1\xb1" + strings.Repeat("\xe7\x94\xb0\xe5\xa4\xaa\xe9\x83\x8e", 12), Email: "y@z"}, {Name: "O'Neil, J. (x) y", Email: "o@n"}}
	argSets := [][]string{nil, {"-N"}, {"--subject-prefix=RFC PATCH"}, {"-k"}, {"--subject-prefix=T"}, {"-v3", "--no-stat"}}
	if tier != "thorough" {
		argSets = argSets[:5]
	}
	for i, args := range argSets {
		i, args := i, args
		depth := gd
		if i > 0 {
			depth = gd - 1
		}
		ss = append(ss, engine.Scenario{
			Name:  fmt.Sprintf("git format-patch %s", strings.Join(args, " ")),
			Bound: fmt.Sprintf("all messages of up to %d of %d line tokens with %d authors committed to a repository and written by git format-patch (with diff) and git log --pretty=email, x 3 clean modes", depth, len(gt), len(authors)),
			Run: func(t *engine.T) {
				l := patchMails.get(fmt.Sprint(tier, args), func() *formatPatches { return loadFormatPatches(sequences(gt, depth), authors, args...) })
				if l.err != "" {
					t.Outcome(l.err)
					return
				}
				k := t.Choose(len(l.models))
				c := l.models[k]
				patch := l.mails[k]
				t.Desc(func() string { return q(patch) })
				files, text, err := gitdiff.Parse(strings.NewReader(patch))
				if err != nil || len(files) != 1 {
					t.Fail("patch", "format-patch output does not parse: %v, %d files\n%s", err, len(files), q(patch))
				}
				full, rest := formatSubject(c.message)
				if len(args) > 0 && args[0] == "-k" && strings.Contains(strings.Split(strings.TrimLeft(c.message, " \t\n"), "\n\n")[0], "\n") {
					t.Skip() // -k keeps the line breaks of a title, in a form of its own
				}
				a := c.author
				if strings.Contains(a.Name, "@") {
					a.Name = a.Email
				}
				a.Name = collapse(a.Name)
				w := &gitdiff.PatchHeader{SHA: c.sha, Author: &a, AuthorDate: time.Unix(c.aSec, 0)}
				w.Body, _ = expectMailBody(rest)
				// the subject as git wrote it
				hdr, _, _ := strings.Cut(text, "\n\n")
				_, subj, ok := strings.Cut(hdr+"\nX:", "\nSubject:")
				if !ok {
					t.Fail("subject", "no subject in %s", q(text))
				}
				for _, end := range []string{"\nX:", "\nMIME-Version:"} {
					subj, _, _ = strings.Cut(subj, end)
				}
				subj = strings.TrimSpace(strings.ReplaceAll(subj, "\n ", " "))
				pre := ""
				if j := strings.Index(subj, "=?UTF-8?q?"); j >= 0 {
					pre = subj[:j]
				}
				var enc []string
				if strings.Contains(subj, "=?UTF-8?q?") {
					enc = []string{subj[len(pre):], full}
					t.Outcome("encoded")
				} else {
					t.Outcome("plain")
					if !strings.HasSuffix(subj, collapse(full)) && !strings.HasSuffix(collapse(subj), collapse(full)) {
						panic("engine: subject " + q(subj) + " does not hold the title " + q(full))
					}
				}
				t.State(text)
				for mi := -1; mi < len(cleanModes); mi++ {
					t.Trace()
					mode := cleanModes[0]
					var got *gitdiff.PatchHeader
					if mi < 0 {
						got, err = gitdiff.ParsePatchHeader(text)
					} else {
						mode = cleanModes[mi]
						got, err = gitdiff.ParsePatchHeader(text, gitdiff.WithSubjectCleanMode(mode))
					}
					if err != nil {
						t.Fail("refused", "mail header refused: %v\n%s", err, q(text))
					}
					x := *w
					x.SubjectPrefix, x.Title = expectSubject(subj, mode, enc...)
					x.BodyAppendix = got.BodyAppendix
					if !strings.Contains(text, "\n---\n") != (got.BodyAppendix == "") || strings.Contains(text, "| ") && !strings.Contains(got.BodyAppendix, "1 file changed") {
						t.Fail("appendix", "appendix is %s\n%s", q(got.BodyAppendix), q(text))
					}
					sameHeader(t, fmt.Sprintf("mode %d: %s", mode, text), got, &x)
				}
				if i == 0 && k < len(l.email) {
					got, err := gitdiff.ParsePatchHeader(l.email[k])
					if err != nil {
						t.Fail("refused", "email format refused: %v\n%s", err, q(l.email[k]))
					}
					if got.SHA != c.sha {
						panic("engine: log order")
					}
					x := *w
					s2 := strings.TrimPrefix(subj, "[PATCH")
					_, s2, _ = strings.Cut(s2, "]")
					x.SubjectPrefix, x.Title = expectSubject("[PATCH]"+s2, cleanModes[0], enc...)
					sameHeader(t, l.email[k], got, &x)
				}
			},
		})
	}
	return ss
}
