package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C28", Title: "patches written by git",
		Assumptions: []string{
			"the installed git (2.43) stands for git; without git nothing is explored",
			"hunks without context at the very start of a file (position 0) may be refused as a conflict, as in C01",
			"binary changes are applied only if the patch has their data (--binary)",
		},
		Scenarios: c28,
	})
}

// wantFile is what git's raw output says about one File.
func wantFiles(es []rawEntry) []rawEntry {
	var out []rawEntry
	for _, e := range es {
		if e.status == 'T' { // shown as a deletion and a creation
			e.score = 0
			d, a := e, e
			d.status, d.newMode, d.newID = 'D', 0, strings.Repeat("0", len(e.newID))
			a.status, a.oldMode, a.oldID = 'A', 0, strings.Repeat("0", len(e.oldID))
			out = append(out, d, a)
			continue
		}
		out = append(out, e)
	}
	return out
}

// verifyGitFiles compares parsed files with git's own account of a change.
func verifyGitFiles(t *engine.T, files []*gitdiff.File, c treeChange, raw []rawEntry, args []string, show func() string) {
	want := wantFiles(raw)
	if len(files) != len(want) {
		t.Fail("count", "%d files parsed, git has %d\n%s", len(files), len(want), show())
	}
	has := func(o string) bool {
		for _, a := range args {
			if a == o {
				return true
			}
		}
		return false
	}
	for i, f := range files {
		e := want[i]
		t.Trace()
		bad := func(what string, got, want any) {
			t.Fail("header "+what, "file %d (%q %q): %s is %v, git says %v\n%s", i, e.oldPath, e.newPath, what, got, want, show())
		}
		changed := e.oldID != e.newID
		oldName, newName := e.oldPath, e.newPath
		oldMode, newMode := uint32(0), uint32(0)
		switch e.status {
		case 'A':
			oldName, newMode = "", e.newMode
		case 'D':
			newName, oldMode = "", e.oldMode
		default:
			if e.oldMode != e.newMode {
				oldMode, newMode = e.oldMode, e.newMode
			} else if changed {
				oldMode = e.oldMode
			}
		}
		if f.OldName != oldName {
			bad("old name", q(f.OldName), q(oldName))
		}
		if f.NewName != newName {
			bad("new name", q(f.NewName), q(newName))
		}
		for _, k := range []struct {
			n string
			g bool
			s byte
		}{{"new", f.IsNew, 'A'}, {"delete", f.IsDelete, 'D'}, {"rename", f.IsRename, 'R'}, {"copy", f.IsCopy, 'C'}} {
			if k.g != (e.status == k.s) {
				bad(k.n+" flag", k.g, string(e.status))
			}
		}
		if uint32(f.OldMode) != oldMode {
			bad("old mode", fmt.Sprintf("%o", f.OldMode), fmt.Sprintf("%o", oldMode))
		}
		if uint32(f.NewMode) != newMode {
			bad("new mode", fmt.Sprintf("%o", f.NewMode), fmt.Sprintf("%o", newMode))
		}
		if f.Score != e.score {
			bad("score", f.Score, e.score)
		}
		if !changed {
			if f.OldOIDPrefix != "" || f.NewOIDPrefix != "" {
				bad("object ids", f.OldOIDPrefix+".."+f.NewOIDPrefix, "none")
			}
		} else if n := len(f.OldOIDPrefix); n < 4 || !strings.HasPrefix(e.oldID, f.OldOIDPrefix) || len(f.NewOIDPrefix) < 4 || !strings.HasPrefix(e.newID, f.NewOIDPrefix) ||
			has("--full-index") && (n != len(e.oldID) || len(f.NewOIDPrefix) != n) {
			bad("object ids", f.OldOIDPrefix+".."+f.NewOIDPrefix, e.oldID+".."+e.newID)
		}
		// contents
		src, dst := c.old[e.oldPath].data, c.new[e.newPath].data
		if e.status == 'A' {
			src = ""
		}
		if e.status == 'D' {
			dst = ""
		}
		if f.IsBinary && f.BinaryFragment == nil {
			if !strings.Contains(src+dst, "\x00") {
				t.Fail("binary", "text change parsed as binary\n%s", show())
			}
			t.Outcome("binary without data")
			continue
		}
		out, err := applyTo(src, f)
		if err != nil {
			if startsAtZero(f) && src != "" && isConflict(err) {
				t.Outcome("refused at the start of the file")
				continue
			}
			t.Fail("apply", "apply to git's old content failed: %v\nold %s\n%s", err, q(src), show())
		}
		if out != dst {
			t.Fail("content", "apply wrote %s, git's new content is %s\n%s", q(out), q(dst), show())
		}
		if rev := f.ReverseBinaryFragment; rev != nil {
			out, err := applyTo(dst, &gitdiff.File{OldName: f.NewName, NewName: f.OldName, IsBinary: true, BinaryFragment: rev})
			if err != nil || out != src {
				t.Fail("reverse", "reverse data gives %s, error %v, want %s\n%s", q(out), err, q(src), show())
			}
		}
		t.Outcome("status " + string(e.status))
	}
}

// startsAtZero tells if a hunk is at position zero on a side without lines.
func startsAtZero(f *gitdiff.File) bool {
	for _, fr := range f.TextFragments {
		if fr.LeadingContext == 0 && fr.TrailingContext == 0 && (fr.OldPosition == 0 || fr.NewPosition == 0) {
			return true
		}
	}
	return false
}

func verifyGitChange(t *engine.T, r *gitRepo, opts [][]string) {
	c, i, args := chooseChange(t, r, opts)
	raw, patch := r.diff(i, args)
	for _, a := range args {
		if a == "-R" {
			c = treeChange{c.new, c.old}
		}
	}
	show := func() string { return fmt.Sprintf("git diff %v of %v\n%s", args, c, q(patch)) }
	t.Desc(show)
	t.State(patch)
	es := parseRaw(raw)
	if len(es) == 0 && c.String() != (treeChange{c.new, c.old}).String() {
		panic("engine: git sees no difference in " + c.String())
	}
	files, pre, err := gitdiff.Parse(strings.NewReader(patch))
	if err != nil {
		t.Fail("parse", "git's patch rejected: %v\n%s", err, show())
	}
	if pre != "" {
		t.Fail("preamble", "preamble %s of a patch that starts with a file\n%s", q(pre), show())
	}
	verifyGitFiles(t, files, c, es, args, show)
}

// mailRun holds the patches of a linear history.
type mailRun struct{ texts, raws []string }

// mail returns the i-th patch of git format-patch over the linear history of
// all trees, and git's raw account of it.
func (r *gitRepo) mail(i int, args []string) (text, raw string) {
	m := r.mails.get(fmt.Sprint(args), func() *mailRun {
		in := bytes.Buffer{}
		in.WriteString("feature done\n")
		for k, c := range r.chain {
			fmt.Fprintf(&in, "commit refs/heads/chain\nmark :%d\ncommitter A U Thor <a@u.thor> %d +0000\ndata 13\ntitle\n\nbody\n\n\n", k+1, 1700000000+k)
			in.WriteString("deleteall\n")
			for _, p := range c.new.paths() {
				e := c.new[p]
				if e.mode == 0o160000 {
					fmt.Fprintf(&in, "M 160000 %s %s\n", e.objectID(), p)
					continue
				}
				fmt.Fprintf(&in, "M %06o inline %s\ndata %d\n%s\n", e.mode, p, len(e.data), e.data)
			}
			in.WriteString("\n")
		}
		in.WriteString("done\n")
		r.g.must(in.Bytes(), "fast-import", "--quiet", "--done", "--force", "--export-marks=chain-marks")
		ids := make([]string, len(r.chain))
		for _, ln := range strings.Split(strings.TrimSpace(readFile(r.g.dir+"/chain-marks")), "\n") {
			var n int
			var s string
			fmt.Sscanf(ln, ":%d %s", &n, &s)
			ids[n-1] = s
		}
		out := "\n" + r.g.must(nil, append([]string{"format-patch", "--stdout", "--root", "refs/heads/chain"}, args...)...)
		texts := make([]string, len(ids))
		last := -1
		for k, id := range ids { // in order, commits without changes may be missing
			at := strings.Index(out[:min(len(out), 1<<20)], "\nFrom "+id+" ")
			if at < 0 {
				continue
			}
			if last >= 0 {
				texts[last] = out[:at+1]
			}
			out = out[at+1:]
			last = k
		}
		if last >= 0 {
			texts[last] = out
		}
		raws := splitAt(r.g.must([]byte(strings.Join(ids, "\n")+"\n"), append([]string{"diff-tree", "--stdin", "--root", "-r", "--raw", "-z"}, rawOptions(args)...)...), ids, "\x00")
		return &mailRun{texts, raws}
	})
	return m.texts[i], m.raws[i]
}

func verifyMailedChange(t *engine.T, r *gitRepo, opts [][]string) {
	if r == nil || r.why != "" {
		t.Skip()
	}
	i := t.Choose(len(r.chain))
	args := engine.Pick(t, opts)
	text, raw := r.mail(i, args)
	if text == "" {
		t.Skip()
	}
	c := r.chain[i]
	show := func() string { return fmt.Sprintf("git format-patch %v of %v\n%s", args, c, q(text)) }
	t.Desc(show)
	t.State(text)
	files, pre, err := gitdiff.Parse(strings.NewReader(text))
	if err != nil {
		t.Fail("parse", "git's patch rejected: %v\n%s", err, show())
	}
	if raw == "" {
		if len(files) != 0 || pre != text {
			t.Fail("empty", "%d files and preamble %s in a mail without a diff", len(files), q(pre))
		}
		t.Outcome("no diff")
		return
	}
	if !strings.HasPrefix(text, pre) || !strings.HasPrefix(text[len(pre):], "diff --git ") || strings.Contains(pre, "\ndiff --git ") {
		t.Fail("preamble", "preamble %s\n%s", q(pre), show())
	}
	h, err := gitdiff.ParsePatchHeader(pre)
	if err != nil || h.Title != "title" || h.Body != "body" || h.Author == nil || h.Author.Email != "a@u.thor" || len(h.SHA) != 40 {
		t.Fail("header", "header %+v, error %v\n%s", h, err, show())
	}
	verifyGitFiles(t, files, c, parseRaw(raw), args, show)
}

// chainOf makes the linear history through the new trees of changes.
func chainOf(cs []treeChange) []treeChange {
	out := []treeChange{}
	prev := gitTree{}
	for _, c := range cs {
		for _, next := range []gitTree{c.old, c.new} {
			out = append(out, treeChange{prev, next})
			prev = next
		}
	}
	return out
}

func c28(tier string) []engine.Scenario {
	var ss []engine.Scenario
	add := func(name, bound string, gen func() []treeChange, opts ...[]string) {
		var r *gitRepo
		var shown []string
		for _, o := range opts {
			shown = append(shown, strings.Join(o, " "))
		}
		ss = append(ss, engine.Scenario{
			Name: name, Bound: bound + "; git diff-tree -p with each of: " + strings.Join(shown, " | "),
			Setup:    func() { r = newRepo(gen()) },
			Teardown: func() { r.close(); r = nil },
			Run:      func(t *engine.T) { verifyGitChange(t, r, opts) },
		})
	}
	o := func(s ...string) []string { return s }
	abc, maxLines := []string{"a", "b"}, sel(tier, 3, 4)
	if tier == "thorough" {
		abc = []string{"a", "b", ""}
	}
	add("texts", fmt.Sprintf("all pairs of texts of up to %d lines from %q, with and without final newlines", maxLines, abc),
		func() []treeChange { return pairs("f", lineTexts(abc, maxLines)) },
		o("-U0"), o("-U1"), o("-U3"), o("-U0", "-c diff.suppressBlankEmpty=true"), o("-U2", "-c diff.suppressBlankEmpty=true", "--patience"))
	add("odd lines", fmt.Sprintf("%d lines that look like patch syntax or are blank, binary or not UTF-8: each pair replaced, inserted, deleted and as context, at the start, inside and at the end", len(oddLines)),
		func() []treeChange {
			var cs []treeChange
			for _, a := range oddLines {
				for _, b := range append([]string{"plain"}, oddLines...) {
					for _, p := range [][2]string{
						{"c\n" + a + "\nd\n", "c\n" + b + "\nd\n"}, {a + "\n", a + "\n" + b + "\n"}, {a, b}, {a + "\n" + b + "\n", a + "\n"},
						{a + "\n" + b + "\nz\n", a + "\n" + b + "\nw\n"}, {b + "\n" + a, b + "\n" + a + "\n"},
					} {
						if p[0] != p[1] {
							cs = append(cs, treeChange{gitTree{"f": textEntry(p[0])}, gitTree{"f": textEntry(p[1])}})
						}
					}
				}
			}
			return cs
		},
		o("--binary", "--full-index"), o("-U0", "--text"), o("-U1", "--text", "-c diff.suppressBlankEmpty=true"), o())
	sites, kinds := sel(tier, 4, 5), sel(tier, 4, 5)
	add("edits at several places", fmt.Sprintf("a text of 40 lines with each of %d sites kept, deleted, replaced or inserted at, with and without function lines", sites),
		func() []treeChange { return siteChanges(40, sites, kinds) },
		o("-U0"), o("-U1"), o("-U3"), o("-U5", "--inter-hunk-context=3"), o("-U10"), o("--function-context"), o("--unified=1000"), o("--minimal"), o("--histogram", "-U2"))
	add("entries", "every pair of entries at one path: absent, file, executable, link and submodule, empty, text and binary",
		modeChanges, o(), o("--binary"), o("--full-index"), o("--binary", "--full-index", "-U0"), o("-M"), o("-C", "-C", "--binary"), o("-B", "--binary"), o("-B", "-M", "--full-index"))
	x, x2, x3, y := similarTexts()
	es := []gitEntry{textEntry(x), textEntry(x2), textEntry(y)}
	if tier == "thorough" {
		es = append(es, gitEntry{0o100755, x3})
	}
	ren := [][]string{o("-M"), o("-C"), o("-C", "-C"), o("-B"), o("-B", "-M"), o("-B", "-C", "-C", "--full-index"), o("-M100%"), o("-M", "-B30%/30%"), o("--no-renames")}
	add("renames and copies", fmt.Sprintf("every change between assignments of %d similar contents (or none) to three paths", len(es)),
		func() []treeChange { return fileSets([]string{"p", "q/r", "s t"}, es) }, ren...)
	mixed := []gitEntry{textEntry("b\x00" + x), {0o100755, "b\x00" + x2}, {0o100755, x}, {0o120000, "q"}, textEntry("")}
	add("renames of binary, executable, empty files and links", fmt.Sprintf("every change between assignments of %d contents (or none) to two paths", len(mixed)),
		func() []treeChange { return fileSets([]string{"p", "q"}, mixed) }, append(ren[:6:6], o("-M", "--binary"), o("-B", "-M", "--binary"), o("-C", "-C", "--binary", "--full-index"))...)
	add("files and directories", "every change between assignments of 2 contents (or none) to the paths p, p/x, p/x/y, p.c",
		func() []treeChange {
			return fileSets([]string{"p", "p/x", "p/x/y", "p.c"}, []gitEntry{textEntry(x), textEntry(x2)})
		}, o(), o("-M"), o("-C", "-C", "-B"))
	add("names", fmt.Sprintf("16 changes of files with each of %d odd names, renamed or copied to %s other names", len(oddPaths), sel(tier, "3", "all")),
		func() []treeChange {
			if tier == "thorough" {
				return nameChanges(allNamePairs(oddPaths))
			}
			return nameChanges(namePairs(oddPaths))
		}, o("-M"), o("-C", "-C", "-c core.quotePath=false"), o("--binary", "-M", "-c core.quotePath=false"), o("-B", "-M", "--binary", "--full-index"))
	bytesMax := 256
	add("bytes in names and contents", "every byte value in a name (changed, created, removed, renamed) and in a changed line",
		func() []treeChange {
			var cs []treeChange
			for i := 1; i < bytesMax; i++ {
				b := string([]byte{byte(i)})
				if b != "/" && b != "." {
					cs = append(cs, nameChanges([][2]string{{b, "x" + b + "y"}, {"d" + b + "/" + b + "f", "e" + b}})...)
				}
				cs = append(cs, treeChange{gitTree{"f": textEntry("c\n" + b + "\nd\n")}, gitTree{"f": textEntry("c\n" + b + b + "\nd" + b)}})
			}
			return cs
		}, o("-M", "--binary"), o("-M", "-c core.quotePath=false"))
	sizes := sel(tier, []int{0, 1, 4, 51, 52, 53, 105, 1000, 8000, 70000}, []int{0, 1, 2, 3, 4, 5, 51, 52, 53, 103, 104, 105, 1000, 4096, 8000, 8191, 65535, 65536, 65537, 70000, 300000})
	add("binary contents", fmt.Sprintf("all pairs of contents of %d sizes: noise, zeros, noise with a tail, noise with an insertion, and one text", len(sizes)),
		func() []treeChange {
			return pairs("f", append(binaryTexts(sizes), x))
		}, o("--binary"), o("--binary", "--full-index"))
	step := sel(tier, 6, 1)
	add("rewrites", fmt.Sprintf("texts of 60 lines of which every %d. share is kept, the rest replaced by as many, more or fewer lines: alone, with a mode change, without a final newline, moved or swapped with another path, as text and as binary", step),
		func() []treeChange { return rewriteChanges(60, step) },
		o("-B"), o("-B", "-U0"), o("-B1%/1%"), o("-B20%/80%", "-M"), o("-B", "-M", "-C", "-C", "--binary"), o("-B30%/1%", "--binary", "--full-index"), o("-M10%"), o())
	several := func() []treeChange {
		cs := siteChanges(12, 2, 4)
		cs = append(cs, nameChanges(namePairs(oddPaths[:6]))...)
		cs = append(cs, fileSets([]string{"p", "q/r"}, mixed)...)
		cs = append(cs, rewriteChanges(60, 20)...)
		return append(cs, pairs("f", binaryTexts([]int{0, 51, 1000}))...)
	}
	add("reversed and with other prefixes", "edits, odd names, renames, rewrites and binary contents of the scenarios above", func() []treeChange { return append(several(), modeChanges()...) },
		o("-R", "-M"), o("-R", "-B", "-M", "--binary"), o("-R", "-C", "-C", "-U0"), o("--src-prefix=i/", "--dst-prefix=w/", "-M", "--binary"), o("--src-prefix=old version/", "--dst-prefix=\"new\"/", "-B", "-M"), o("--src-prefix=b/", "--dst-prefix=a/", "-M", "--binary"), o("-R", "--src-prefix=b/", "--dst-prefix=b/", "-M"), o("--abbrev=4"), o("--abbrev=64"))
	ss = append(ss, func() engine.Scenario {
		var r *gitRepo
		opts := [][]string{o("-M"), o("-B", "-M", "--binary", "--full-index"), o("-C", "-C", "--binary"), o("-R", "-M", "--full-index")}
		return engine.Scenario{
			Name: "repositories with SHA-256", Bound: fmt.Sprintf("edits, odd names, renames, rewrites and binary contents of the scenarios above, with each of the options %v", opts),
			Setup:    func() { r = newCommitsIn("sha256", several(), nil) },
			Teardown: func() { r.close(); r = nil },
			Run:      func(t *engine.T) { verifyGitChange(t, r, opts) },
		}
	}())
	// mails
	var r *gitRepo
	mailOpts := [][]string{o("-M"), o("--binary", "--no-renames"), o("-C", "-C", "--full-index", "--binary"), o("-B", "-M", "-U0"), o("-M", "--no-stat")}
	chained := sel(tier, es, append(mixed, es...))
	ss = append(ss, engine.Scenario{
		Name:  "format-patch",
		Bound: "git format-patch (and parsing its header) over a linear history through all entries of the scenario above and through assignments of contents to two paths, with 5 sets of options",
		Setup: func() {
			r = newRepo(nil)
			r.chain = chainOf(append(modeChanges(), fileSets([]string{"p", "q/r"}, chained)...))
		},
		Teardown: func() { r.close(); r = nil },
		Run:      func(t *engine.T) { verifyMailedChange(t, r, mailOpts) },
	})
	return ss
}
