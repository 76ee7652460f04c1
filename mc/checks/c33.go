package checks

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

func init() {
	register(&Check{
		ID: "C33", Title: "commits printed by git, as a whole",
		Assumptions: []string{
			"the installed git (2.43) stands for git; without git nothing is explored",
			"messages of mails hold no line that starts a file or a hunk: git cuts mails there, too",
			"statistics before the patch are not part of the body of a mail; after pretty headers title and body are not judged then",
			"combined diffs of merges are outside the claim",
		},
		Scenarios: c33,
	})
}

// newHistory makes a linear history of trees. Ids are set in the models.
func newHistory(trees []gitTree, models []*commitModel) *gitRepo {
	r := &gitRepo{models: models}
	g, ok := newGit()
	if !ok {
		r.why = "git is not available"
		return r
	}
	r.g = g
	g.must(nil, "init", "-q", "--bare", "-b", "m", ".")
	var b bytes.Buffer
	b.WriteString("feature done\n")
	prev := gitTree{}
	for i, t := range trees {
		r.changes = append(r.changes, treeChange{prev, t})
		prev = t
		fmt.Fprintf(&b, "commit refs/heads/m\nmark :%d\n", i+1)
		models[i].stamp(&b)
		importTree(&b, t)
	}
	b.WriteString("done\n")
	r.load(&b)
	return r
}

// importTree writes the files of a commit.
func importTree(b *bytes.Buffer, t gitTree) {
	b.WriteString("deleteall\n")
	for _, p := range t.paths() {
		e := t[p]
		fmt.Fprintf(b, "M %06o inline %s\ndata %d\n%s\n", e.mode, ref.Quote(p, true), len(e.data), e.data)
	}
	b.WriteString("\n")
}

// load runs fast-import and sets the ids of the commits marked 1, 2, ...
func (r *gitRepo) load(b *bytes.Buffer) {
	r.g.must(b.Bytes(), "fast-import", "--quiet", "--done", "--force", "--export-marks=marks")
	r.ids = make([]string, len(r.models))
	for _, ln := range strings.Split(strings.TrimSpace(readFile(r.g.dir+"/marks")), "\n") {
		m, s, _ := strings.Cut(ln, " ")
		n, err := strconv.Atoi(strings.TrimPrefix(m, ":"))
		if err != nil || n < 1 {
			panic("engine: bad mark " + ln)
		}
		r.ids[n-1] = s
		r.models[n-1].sha = s
	}
}

// commitText is what git printed about a commit, and its raw output.
type commitText struct{ text, raw string }

// printed returns what git log says about a commit.
func (r *gitRepo) printed(i int, format string, args []string) commitText {
	c := i / repoChunk
	out := r.printedBy.get(fmt.Sprint(c, format, args), func() []commitText {
		ids := r.ids[c*repoChunk : min(len(r.ids), (c+1)*repoChunk)]
		in := []byte(strings.Join(ids, "\n") + "\n")
		word := "commit "
		if format == "email" {
			word = "From "
		}
		out := "\n" + r.g.must(in, append([]string{"log", "--no-walk=unsorted", "--stdin", "-p", "--no-decorate", "--pretty=" + format}, args...)...)
		texts := make([]string, len(ids))
		at := 0
		for k, id := range ids {
			n := strings.Index(out[at:], "\n"+word+id)
			if n < 0 {
				panic("engine: no commit " + id + " in git's output")
			}
			if k > 0 {
				texts[k-1] = out[at : at+n+1]
			}
			at += n + 1
		}
		texts[len(ids)-1] = out[at:]
		raws := splitAt(r.g.must(in, append([]string{"diff-tree", "--stdin", "--root", "-r", "--raw", "-z"}, rawOptions(args)...)...), ids, "\x00")
		res := make([]commitText, len(ids))
		for k := range ids {
			res[k] = commitText{texts[k], raws[k]}
		}
		return res
	})
	return out[i%repoChunk]
}

// verifyPreamble checks that the preamble ends where the first file starts.
func verifyPreamble(t *engine.T, text, pre string, files int, show func() string) {
	want := len(text)
	if strings.HasPrefix(text, "diff --git ") {
		want = 0
	} else if k := strings.Index(text, "\ndiff --git "); k >= 0 {
		want = k + 1
	}
	if files == 0 {
		want = len(text)
	}
	if pre != text[:want] {
		t.Fail("preamble", "preamble %s, want %s\n%s", q(pre), q(text[:want]), show())
	}
}

func hasStat(args []string) bool {
	for _, a := range args {
		if strings.Contains(a, "stat") || a == "--summary" {
			return true
		}
	}
	return false
}

// expectMail is the header of a mail by git.
func (c *commitModel) expectMail(mode gitdiff.SubjectCleanMode, appendix string) *gitdiff.PatchHeader {
	a := c.author
	h := &gitdiff.PatchHeader{SHA: c.sha, Author: &a, AuthorDate: time.Unix(c.aSec, 0), BodyAppendix: appendix}
	full, rest := formatSubject(c.message)
	h.SubjectPrefix, h.Title = expectSubject(strings.TrimRight("[PATCH] "+full, " "), mode)
	h.Body, _ = expectMailBody(rest)
	return h
}

func verifyCommit(t *engine.T, c *commitModel, change treeChange, ct commitText, format string, args []string) {
	text := ct.text
	show := func() string { return fmt.Sprintf("git log --pretty=%s %v of %v\n%s", format, args, change, q(text)) }
	t.Desc(show)
	t.State(text)
	t.Trace()
	files, pre, err := gitdiff.Parse(strings.NewReader(text))
	if err != nil {
		t.Fail("parse", "git's output rejected: %v\n%s", err, show())
	}
	verifyGitFiles(t, files, change, parseRaw(ct.raw), args, show)
	if format == "email" {
		verifyPreamble(t, text, pre, len(files), show)
		for _, mode := range cleanModes {
			h, err := gitdiff.ParsePatchHeader(pre, gitdiff.WithSubjectCleanMode(mode))
			if err != nil {
				t.Fail("header", "header refused: %v\n%s", err, show())
			}
			w := c.expectMail(mode, h.BodyAppendix)
			if hasStat(args) && !strings.Contains(c.message, "---") && strings.Contains(h.BodyAppendix, "changed") != (ct.raw != "") {
				t.Fail("appendix", "appendix is %s\n%s", q(h.BodyAppendix), show())
			}
			sameHeader(t, text, h, w)
		}
		return
	}
	if ct.raw == "" && pre != text || ct.raw != "" && (!strings.HasPrefix(text, pre) || !strings.HasPrefix(text[len(pre):], "diff --git ")) {
		t.Fail("preamble", "preamble %s\n%s", q(pre), show())
	}
	h, err := gitdiff.ParsePatchHeader(pre)
	if err != nil {
		t.Fail("header", "header refused: %v\n%s", err, show())
	}
	w := c.expect(format)
	if hasStat(args) && h != nil {
		h.Title, h.Body, w.Title, w.Body = "", "", "", ""
	}
	sameHeader(t, text, h, w)
}

// commitChanges are the changes that are combined with messages.
func commitChanges() []treeChange {
	x, x2, _, y := similarTexts()
	f := func(kv ...string) gitTree {
		t := gitTree{}
		for i := 0; i < len(kv); i += 2 {
			t[kv[i]] = textEntry(kv[i+1])
		}
		return t
	}
	return []treeChange{
		{f("f", x), f("f", x2)}, {gitTree{}, f("a b", "x\n", "g", "")}, {f("f", x), f("g", x)}, {f("f", x, "k", "-- a\n"), f("g", x2, "k", "++ b\n", "l", y)},
		{f("f", "commit 1\nAuthor: x\n"), gitTree{}}, {f("f", x), gitTree{"f": {0o100755, x}}}, {f("f", "a\x00b"), f("f", "a\x00c")}, {f("f", x), f("f", x)},
		{f("f", "-- \n"), f("f", "2.43.0\n")},
	}
}

func c33(tier string) []engine.Scenario {
	var ss []engine.Scenario
	o := func(s ...string) []string { return s }
	people := []gitdiff.PatchIdentity{{Name: "Au Thor", Email: "au@th.or"}, {Name: "O'Neil", Email: "o@n"}, {Name: "x y z", Email: "1+x@y.z"}}
	model := func(i int, message string) *commitModel {
		c := sampleCommit()
		c.message = message
		c.author, c.committer = people[i%len(people)], people[i/3%len(people)]
		c.aSec += int64(i) * 86400 * 3
		c.aOff = []int64{0, -420, 330, 840}[i%4]
		c.cSec += int64(i) * 3601
		c.cOff = []int64{60, -210}[i%2]
		return c
	}
	product := func(objects string, messages []string) *gitRepo {
		var changes []treeChange
		var models []*commitModel
		for _, m := range messages {
			for _, c := range commitChanges() {
				models = append(models, model(len(models), m))
				changes = append(changes, c)
			}
		}
		return newCommitsIn(objects, changes, models)
	}
	objects := "sha1"
	log := func(name, bound string, messages func() []string, formats []string, opts ...[]string) {
		objects := objects
		var r *gitRepo
		ss = append(ss, engine.Scenario{
			Name: name, Bound: fmt.Sprintf("%s, each with %d changes (of text, names, modes and binary files, and none), printed by git log -p in the formats %v with each of the options %v", bound, len(commitChanges()), formats, opts),
			Setup:    func() { r = product(objects, messages()) },
			Teardown: func() { r.close(); r = nil },
			Run: func(t *engine.T) {
				if r == nil || r.why != "" {
					t.Skip()
				}
				i := t.Choose(len(r.ids))
				format := engine.Pick(t, formats)
				args := engine.Pick(t, opts)
				verifyCommit(t, r.models[i], r.changes[i], r.printed(i, format, args), format, args)
			},
		})
	}
	depth := 3
	toks := []string{"w", "", "diff --git a/f b/f", "--- a/f", "+++ b/f", "@@ -1 +1 @@", "-a", "GIT binary patch", "index 12..34", "commit 123", "Author: z", "---"}
	log("messages with patches", fmt.Sprintf("all messages of up to %d of %d lines that look like patches or headers", depth, len(toks)),
		func() []string { return sequences(toks, depth) }, prettyFormats, o("-M"), o("--stat", "-U0", "--binary", "-M"))
	patches := []string{"diff --git a/f b/f\n", "index 1234567..89abcde 100644\n", "--- a/f\n", "+++ b/f\n", "@@ -1 +1 @@\n", "-a\n", "+b\n"}
	log("messages with a whole patch", "every message of a title and a contiguous part of a patch, also indented and as the title",
		func() []string {
			var out []string
			for i := range patches {
				for j := i + 1; j <= len(patches); j++ {
					part := strings.Join(patches[i:j], "")
					out = append(out, "title\n\n"+part, part, "title\n\n    "+strings.ReplaceAll(part, "\n", "\n    ")+"\n\nend\n")
				}
			}
			return out
		}, prettyFormats, o("-C", "-C"), o("--full-index", "--summary", "--shortstat", "-M"))
	mtoks := []string{"w", "", "-- ", "> diff --git a/f b/f", " diff --git a/x b/x", "-a", "+b", "index 12..34", "--- x", "+++ y", "Binary files a and b differ", "rename from x", "GIT binary patch", "---", "  --- a", "Subject: x", "commit 123", "@@ -1"}
	log("mails", fmt.Sprintf("all messages of up to %d of %d lines", depth, len(mtoks)),
		func() []string { return sequences(mtoks, depth) }, []string{"email"}, o("-M"), o("--stat", "--binary", "-M"))

	objects = "sha256"
	log("repositories with SHA-256", "all messages of up to 2 of 4 lines", func() []string { return sequences([]string{"w", "", "diff --git a/f b/f", "---"}, 2) }, prettyFormats, o("-M"), o("-M", "--full-index", "--binary"))
	log("mails of repositories with SHA-256", "all messages of up to 2 of 3 lines", func() []string { return sequences([]string{"w", "", "---"}, 2) }, []string{"email"}, o("-M"))

	// linear histories printed as one text
	var h *gitRepo
	wmax := sel(tier, 3, 5)
	hopts := [][]string{o("-M"), o("-C", "-C", "--binary", "--full-index"), o("--no-renames", "-U0")}
	history := func() *gitRepo {
		x, x2, _, y := similarTexts()
		var trees []gitTree
		var models []*commitModel
		es := []gitEntry{textEntry(x), textEntry(x2), textEntry("b\x00" + y)}
		if tier == "thorough" {
			es = append(es, gitEntry{0o100755, y})
		}
		msgs := []string{"title\n", "title\n\nbody\n", "t\n\n- a\n\n+ b\n", "one\ntwo\n\nindex 1\n"}
		for i, c := range chainOf(fileSets([]string{"p", "q/r"}, es)) {
			if c.old != nil && (treeChange{c.old, c.new}).String() == (treeChange{c.new, c.old}).String() {
				continue
			}
			trees = append(trees, c.new)
			models = append(models, model(i, msgs[i%len(msgs)]))
		}
		return newHistory(trees, models)
	}
	verifySlices := func(t *engine.T, files []*gitdiff.File, r *gitRepo, order []int, args []string, show func() string) {
		for _, i := range order {
			raw := r.rawOf(i, args)
			n := len(wantFiles(parseRaw(raw)))
			if n > len(files) {
				t.Fail("count", "too few files\n%s", show())
			}
			verifyGitFiles(t, files[:n], r.changes[i], parseRaw(raw), args, show)
			files = files[n:]
		}
		if len(files) > 0 {
			t.Fail("count", "%d files too many\n%s", len(files), show())
		}
	}
	ss = append(ss, engine.Scenario{
		Name:     "histories",
		Bound:    fmt.Sprintf("a history through every change between assignments of contents to two paths: every run of up to %d commits printed as one text by git log -p in 4 formats and by format-patch --stdout", wmax),
		Setup:    func() { h = history() },
		Teardown: func() { h.close(); h = nil },
		Run: func(t *engine.T) {
			if h == nil || h.why != "" {
				t.Skip()
			}
			from := t.Choose(len(h.ids))
			n := t.Choose(wmax) + 1
			if from+n > len(h.ids) {
				t.Skip()
			}
			args := engine.Pick(t, hopts)
			format := engine.Pick(t, append([]string{"format-patch"}, prettyFormats...))
			var text string
			var order []int
			last := h.ids[from+n-1]
			if format == "format-patch" {
				text = h.g.must(nil, append([]string{"format-patch", "-k", "--stdout", fmt.Sprintf("-%d", n), last}, args...)...)
				for i := from; i < from+n; i++ {
					order = append(order, i)
				}
			} else {
				text = h.g.must(nil, append([]string{"log", "-p", "--no-decorate", "--pretty=" + format, "-n", fmt.Sprint(n), last}, args...)...)
				for i := from + n - 1; i >= from; i-- {
					order = append(order, i)
				}
			}
			show := func() string { return fmt.Sprintf("%s %v\n%s", format, args, q(text)) }
			t.Desc(show)
			t.State(text)
			t.Trace()
			files, pre, err := gitdiff.Parse(strings.NewReader(text))
			if err != nil {
				t.Fail("parse", "git's output rejected: %v\n%s", err, show())
			}
			verifyPreamble(t, text, pre, len(files), show)
			hd, err := gitdiff.ParsePatchHeader(pre)
			c := h.models[order[0]]
			if err != nil || hd.SHA != c.sha || hd.Author == nil || *hd.Author != c.author || format != "format-patch" && sameMessage(hd, c.expect(format)) != "" {
				t.Fail("header", "header %+v, error %v\n%s", hd, err, show())
			}
			verifySlices(t, files, h, order, args, show)
			t.Outcome(format)
		},
	})
	// merges
	var mr *gitRepo
	mopts := [][]string{o("--first-parent"), o("-m"), o("--diff-merges=separate", "-M"), o("--diff-merges=1", "-U0"), o()}
	mes := sel(tier, 2, 3)
	ss = append(ss, engine.Scenario{
		Name:     "merges",
		Bound:    fmt.Sprintf("every merge of two commits with every choice of %d contents for two paths in the parents and the merge, printed by git log -p in 4 formats with the options %v", mes, mopts),
		Setup:    func() { mr = mergeRepo(mes, model) },
		Teardown: func() { mr.close(); mr = nil },
		Run: func(t *engine.T) {
			if mr == nil || mr.why != "" {
				t.Skip()
			}
			i := 3 * t.Choose(len(mr.ids)/3)
			format := engine.Pick(t, prettyFormats)
			args := engine.Pick(t, mopts)
			text := mr.g.must(nil, append([]string{"log", "-p", "-1", "--no-decorate", "--pretty=" + format, mr.ids[i+2]}, args...)...)
			show := func() string { return fmt.Sprintf("%s %v\n%s", format, args, q(text)) }
			t.Desc(show)
			t.State(text)
			t.Trace()
			files, pre, err := gitdiff.Parse(strings.NewReader(text))
			if err != nil {
				t.Fail("parse", "git's output rejected: %v\n%s", err, show())
			}
			parents := []int{i, i + 1}
			switch {
			case len(args) == 0:
				parents = nil
			case args[0] == "--first-parent" || args[0] == "--diff-merges=1":
				parents = parents[:1]
			}
			shown, first := files, ""
			for _, p := range parents {
				raw := mr.g.must(nil, append(append([]string{"diff-tree", "-r", "--raw", "-z"}, rawOptions(args)...), mr.ids[p], mr.ids[i+2])...)
				if raw != "" && first == "" {
					first = mr.ids[p]
				}
				n := len(wantFiles(parseRaw(raw)))
				if n > len(shown) {
					t.Fail("count", "too few files\n%s", show())
				}
				verifyGitFiles(t, shown[:n], treeChange{mr.changes[p].new, mr.changes[i+2].new}, parseRaw(raw), args, show)
				shown = shown[n:]
			}
			if len(shown) > 0 {
				t.Fail("count", "%d files too many\n%s", len(shown), show())
			}
			if text == "" {
				t.Outcome("nothing shown")
				return
			}
			verifyPreamble(t, text, pre, len(files), show)
			hd, err := gitdiff.ParsePatchHeader(pre)
			c := mr.models[i+2]
			if err != nil || hd.SHA != c.sha || hd.Author == nil || *hd.Author != c.author {
				t.Fail("header", "header %+v, error %v\n%s", hd, err, show())
			}
			if strings.Count(pre, "\ncommit ") == 0 {
				if d := sameMessage(hd, c.expect(format)); d != "" {
					t.Fail("header", "%s: header %+v\n%s", d, hd, show())
				}
			}
			t.Outcome(fmt.Sprintf("%d parents", len(parents)))
		},
	})
	return ss
}

// sameMessage tells how titles and bodies differ.
func sameMessage(got, want *gitdiff.PatchHeader) string {
	if got.Title != want.Title {
		return "title"
	}
	if got.Body != want.Body {
		return "body"
	}
	return ""
}

// rawOf is git's raw output about a commit and its parent.
func (r *gitRepo) rawOf(i int, args []string) string {
	return r.chunks.get(fmt.Sprint("raw", args), func() [][2]string {
		out := splitAt(r.g.must([]byte(strings.Join(r.ids, "\n")+"\n"), append([]string{"diff-tree", "--stdin", "--root", "-r", "--raw", "-z"}, rawOptions(args)...)...), r.ids, "\x00")
		res := make([][2]string, len(out))
		for k := range out {
			res[k][0] = out[k]
		}
		return res
	})[i][0]
}

// mergeRepo holds triples of commits: two parents and their merge.
func mergeRepo(contents int, model func(int, string) *commitModel) *gitRepo {
	x, x2, x3, _ := similarTexts()
	es := []gitEntry{textEntry(x), textEntry(x2), textEntry(x3)}[:contents]
	var trees []gitTree
	for _, a := range es {
		for _, b := range es {
			trees = append(trees, gitTree{"p": a, "q": b})
		}
	}
	r := &gitRepo{}
	g, ok := newGit()
	if !ok {
		r.why = "git is not available"
		return r
	}
	r.g = g
	g.must(nil, "init", "-q", "--bare", "-b", "m", ".")
	var b bytes.Buffer
	b.WriteString("feature done\n")
	for _, ta := range trees {
		for _, tb := range trees {
			for _, tm := range trees {
				n := len(r.models)
				for k, tr := range []gitTree{ta, tb, tm} {
					m := model(n/3, []string{"one\n", "two\n", "Merge branch 'x'\n\n# Conflicts:\n#\tp\n"}[k])
					r.models = append(r.models, m)
					r.changes = append(r.changes, treeChange{nil, tr})
					if k < 2 {
						b.WriteString("reset refs/heads/m\n\n")
					}
					fmt.Fprintf(&b, "commit refs/heads/m\nmark :%d\n", n+k+1)
					m.stamp(&b)
					if k == 2 {
						fmt.Fprintf(&b, "from :%d\nmerge :%d\n", n+1, n+2)
					}
					importTree(&b, tr)
				}
			}
		}
	}
	b.WriteString("done\n")
	r.load(&b)
	return r
}
