package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C38", Title: "mails are read as git mailinfo reads them",
		Assumptions: []string{
			"the installed git (2.43) stands for git; without git nothing is explored",
			"runs of white space inside a name or subject are not judged, nor are empty subjects",
			"quotes and parentheses balance, an address holds an @, a field occurs once; a body holds no fields at its start and no patch but after a line of three hyphens",
		},
		Scenarios: c38,
	})
}

// mailInfo is what git mailinfo reads in a mail.
type mailInfo struct {
	author, email, subject string
	body, rest             string // before and after the start of the patch
}

func gitMailinfo(g *gitEnv, text string, args ...string) (m mailInfo, ok bool) {
	c := g.cmd(append(append([]string{"mailinfo"}, args...), "/dev/fd/3", "/dev/fd/4")...)
	c.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	c.Stdout = &out
	var rd [2]*os.File
	for i := range rd {
		r, w, err := os.Pipe()
		if err != nil {
			panic("engine: " + err.Error())
		}
		defer r.Close()
		defer w.Close()
		rd[i] = r
		c.ExtraFiles = append(c.ExtraFiles, w)
	}
	if err := c.Run(); err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) || ee.ExitCode() < 0 {
			panic("engine: git mailinfo: " + err.Error())
		}
		return m, false
	}
	for i, w := range c.ExtraFiles { // small enough for the pipe
		w.Close()
		b, err := io.ReadAll(rd[i])
		if err != nil {
			panic("engine: " + err.Error())
		}
		if i == 0 {
			m.body = string(b)
		} else {
			m.rest = string(b)
		}
	}
	for _, l := range strings.Split(out.String(), "\n") {
		k, v, _ := strings.Cut(l, ": ")
		switch k {
		case "Author":
			m.author = v
		case "Email":
			m.email = v
		case "Subject":
			m.subject = v
		}
	}
	return m, true
}

// oneSpace collapses runs of white space.
func oneSpace(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\r\n\v\f", r) }), " ")
}

type mailText struct {
	from, subject, body string
	fields              []string // instead of from and subject
}

func (m mailText) text() string {
	f := m.fields
	if f == nil {
		f = []string{"From: " + m.from, "Date: Sat, 11 Apr 2020 15:21:23 -0700", "Subject: " + m.subject}
	}
	return "From " + sampleSHA + " Mon Sep 17 00:00:00 2001\n" + strings.Join(f, "\n") + "\n\n" + m.body
}

func verifyMailinfo(t *engine.T, g *gitEnv, text string, mode gitdiff.SubjectCleanMode) {
	t.Trace()
	show := func() string { return fmt.Sprintf("mode %d: %s", mode, q(text)) }
	t.Desc(show)
	t.State(show())
	var args []string
	switch mode {
	case gitdiff.SubjectCleanWhitespace:
		args = []string{"-k"}
	case gitdiff.SubjectCleanPatchOnly:
		args = []string{"-b"}
	}
	want, ok := gitMailinfo(g, text, args...)
	h, err := gitdiff.ParsePatchHeader(text, gitdiff.WithSubjectCleanMode(mode))
	if !ok {
		t.Outcome("git fails")
		return
	}
	if want.author == "" || want.email == "" {
		t.Outcome("git reads no author")
		return
	}
	if err != nil {
		t.Fail("refused", "git reads %+v, ParsePatchHeader: %v\n%s", want, err, show())
	}
	if h.Title != "" && oneSpace(h.Title) != oneSpace(want.subject) {
		t.Fail("subject", "git reads %s, the title is %s\n%s", q(want.subject), q(h.Title), show())
	}
	var id gitdiff.PatchIdentity
	if h.Author != nil {
		id = *h.Author
	}
	if oneSpace(id.Name) != oneSpace(want.author) || oneSpace(id.Email) != oneSpace(want.email) {
		t.Fail("author", "git reads %s and %s, the author is %q\n%s", q(want.author), q(want.email), id, show())
	}
	if w := squeeze(strings.Split(want.body, "\n"), false); h.Body != w {
		t.Fail("body", "git reads %s, the body is %s\n%s", q(w), q(h.Body), show())
	}
	w := ""
	if lines := strings.Split(want.rest, "\n"); rtrim(lines[0]) == "---" {
		w = squeeze(lines[1:], false)
	}
	if h.BodyAppendix != w {
		t.Fail("appendix", "git reads %s, the appendix is %s\n%s", q(w), q(h.BodyAppendix), show())
	}
	t.Outcome("same")
}

func c38(tier string) []engine.Scenario {
	var ss []engine.Scenario
	add := func(name, bound string, run func(t *engine.T, g *gitEnv)) {
		var g *gitEnv
		ss = append(ss, engine.Scenario{
			Name: name, Bound: bound,
			Setup: func() {
				if e, ok := newGit(); ok {
					g = e
				}
			},
			Teardown: func() { g.close(); g = nil },
			Run: func(t *engine.T) {
				if g == nil {
					t.Skip()
				}
				run(t, g)
			},
		})
	}
	seq := func(t *engine.T, n int, toks []string) string {
		s := ""
		for i := 0; i < n; i++ {
			k := t.Choose(len(toks) + 1)
			if k == 0 {
				break
			}
			s += toks[k-1]
		}
		return s
	}
	sample := mailText{from: "Au Thor <au@th.or>", subject: "[PATCH] title", body: "body\n"}
	subj := []string{"w", " ", "[PATCH]", "[x]", "Re:", "rE: ", ":", "[", "]", "\n ", "\t", "=?UTF-8?q?=C3=B6?="}
	ns := sel(tier, 4, 5)
	add("subjects", fmt.Sprintf("every subject of up to %d of %d tokens", ns, len(subj)), func(t *engine.T, g *gitEnv) {
		m := sample
		m.subject = seq(t, ns, subj)
		verifyMailinfo(t, g, m.text(), gitdiff.SubjectCleanAll)
	})
	add("subjects kept", fmt.Sprintf("every subject of up to %d of %d tokens, nothing removed", ns-1, len(subj)), func(t *engine.T, g *gitEnv) {
		m := sample
		m.subject = seq(t, ns-1, subj)
		verifyMailinfo(t, g, m.text(), gitdiff.SubjectCleanWhitespace)
	})
	psubj := []string{"w", " ", "[PATCH]", "[PATCH v2 3/4]", "[RFC PATCH] ", "Re:", "rE: ", ":", "=?UTF-8?q?=C3=B6?="}
	add("subjects with patch brackets", fmt.Sprintf("every subject of up to %d of %d tokens, only patch brackets removed, followed by nothing or other brackets", ns, len(psubj)), func(t *engine.T, g *gitEnv) {
		m := sample
		m.subject = seq(t, ns, psubj) + engine.Pick(t, []string{"", "[x]", "[x] w", "[", "w [x]"})
		verifyMailinfo(t, g, m.text(), gitdiff.SubjectCleanPatchOnly)
	})
	words := []string{"=?UTF-8?q?=C3=B6?=", "=?utf-8?Q?a_b?=", "=?UTF-8?B?w7Y=?=", "=?utf-8?b?YWLDtg==?=", "=?ISO-8859-1?Q?=F6?=", "=?iso-8859-1?B?9g==?=", "=?us-ascii?q?x?=", "w", " ", "\n ", "=?", "?=", "=C3", "_"}
	nw := sel(tier, 4, 5)
	add("encoded words", fmt.Sprintf("every sequence of up to %d of %d tokens of encoded words in the subject and the name", nw, len(words)), func(t *engine.T, g *gitEnv) {
		m := sample
		s := seq(t, nw, words)
		m.subject = "[PATCH] " + s
		m.from = s + " <au@th.or>"
		verifyMailinfo(t, g, m.text(), gitdiff.SubjectCleanAll)
	})
	atoms := []string{"A", "Bo C", "J.", "O'N", `"q, r"`, `"d\"e"`, "=?UTF-8?q?J=C3=B6?=", "(x)", `"(y)"`, `"\\"`, "-", "\xc3\xb6", `"<"`, "<>", ",", `\\`, "[x]", ";", "(a (b) c)", `(\\))`}
	addrs := []string{"a@b", "a+b.c@d-e.f", "1+d[bot]@x", "a_b@c", "a@b@c"}
	gaps := []string{" ", "  ", "\n ", "\t"}
	na := sel(tier, 2, 3)
	add("senders", fmt.Sprintf("names of up to %d of %d parts with %d kinds of space and %d addresses, in angle brackets after the name, or before the name in parentheses", na, len(atoms), len(gaps), len(addrs)), func(t *engine.T, g *gitEnv) {
		m := sample
		name := ""
		for i := 0; i < na; i++ {
			k := t.Choose(len(atoms) + 1)
			if k == 0 {
				break
			}
			if i > 0 {
				if i == 1 {
					name += engine.Pick(t, gaps)
				} else {
					name += " "
				}
			}
			name += atoms[k-1]
		}
		addr := engine.Pick(t, addrs)
		switch t.Choose(5) {
		case 0:
			m.from = name + " <" + addr + ">"
		case 1:
			m.from = addr + " (" + name + ")"
		case 2:
			m.from = name + "<" + addr + ">"
		case 3:
			m.from = name + " <" + addr + "> (comment)"
		case 4:
			m.from = "<" + addr + "> " + name
		}
		verifyMailinfo(t, g, m.text(), gitdiff.SubjectCleanAll)
	})
	lines := []string{"", "w", "---", "  in", " f | 2 +-", "--- ", "w \t", "----", " ---", "\tt", "--", "-- ", "---\t", "+++ b/f", "@@ -1 +1 @@", "Signed-off-by: A <a@b>", "commit 123", "--x"}
	nb := sel(tier, 3, 4)
	add("bodies", fmt.Sprintf("every body of up to %d of %d lines, with and without the last line feed", nb, len(lines)), func(t *engine.T, g *gitEnv) {
		m := sample
		m.body = messageOf(t, lines, nb)
		if !strings.HasSuffix(m.body, "\n") && strings.HasSuffix(rtrim(m.body), "---") {
			t.Skip() // git starts a patch at a complete line only
		}
		verifyMailinfo(t, g, m.text(), gitdiff.SubjectCleanAll)
	})
	fields := []string{"From: A <a@b>", "from: C <c@d>", "Subject: [PATCH] t", "SUBJECT: u", "Date: Sat, 11 Apr 2020 15:21:23 -0700", "To: x@y", "Content-Type: text/plain; charset=UTF-8", "MIME-Version: 1.0", "X-Long: a\n From: z@z", "Cc: p@q,\n\tr@s", "Subject:", "From: a@b"}
	nf := sel(tier, 4, 5)
	add("fields", fmt.Sprintf("every sequence of up to %d of %d header fields", nf, len(fields)), func(t *engine.T, g *gitEnv) {
		m := sample
		m.fields = []string{}
		for i := 0; i < nf; i++ {
			k := t.Choose(len(fields) + 1)
			if k == 0 {
				break
			}
			for _, f := range m.fields {
				if a, _, _ := strings.Cut(f, ":"); len(a) <= len(fields[k-1]) && strings.EqualFold(a, fields[k-1][:len(a)]) {
					t.Skip() // a field occurs once
				}
			}
			m.fields = append(m.fields, fields[k-1])
		}
		if len(m.fields) == 0 {
			t.Skip()
		}
		verifyMailinfo(t, g, m.text(), gitdiff.SubjectCleanAll)
	})
	return ss
}
