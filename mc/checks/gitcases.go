package checks

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/mc/engine"
	"verif/mc/ref"
)

// gitEntry is one path of a tree.
type gitEntry struct {
	mode uint32
	data string
}

type gitTree map[string]gitEntry

// treeChange is a change between two trees.
type treeChange struct{ old, new gitTree }

func (c treeChange) String() string {
	var b strings.Builder
	for _, s := range []struct {
		n string
		t gitTree
	}{{"old", c.old}, {" new", c.new}} {
		b.WriteString(s.n + "{")
		for _, p := range s.t.paths() {
			fmt.Fprintf(&b, "%q:%o:%.80q ", p, s.t[p].mode, s.t[p].data)
		}
		b.WriteString("}")
	}
	return b.String()
}

func (t gitTree) paths() []string {
	var ps []string
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

const subPrefix = "Subproject commit "

// objectID is the id git gives to the entry.
func (e gitEntry) objectID() string {
	if e.mode == 0o160000 {
		return strings.TrimSuffix(strings.TrimPrefix(e.data, subPrefix), "\n")
	}
	h := sha1.New()
	fmt.Fprintf(h, "blob %d\x00%s", len(e.data), e.data)
	return fmt.Sprintf("%x", h.Sum(nil))
}

// gitRepo holds a list of changes, each as a commit and its parent.
type gitRepo struct {
	g         *gitEnv
	why       string // why there is no repository
	changes   []treeChange
	models    []*commitModel // or nil
	ids       []string
	chain     []treeChange // the linear history through all trees
	chunks    onceMap[string, [][2]string]
	printedBy onceMap[string, []commitText]
	mails     onceMap[string, *mailRun]
}

func newRepo(changes []treeChange) *gitRepo { return newCommits(changes, nil) }

// newCommits is newRepo with authors, dates and messages of the commits. Ids
// are set in the models.
func newCommits(changes []treeChange, models []*commitModel) *gitRepo {
	return newCommitsIn("sha1", changes, models)
}

// newCommitsIn is newCommits with a choice of the object format.
func newCommitsIn(format string, changes []treeChange, models []*commitModel) *gitRepo {
	r := &gitRepo{changes: changes, models: models}
	g, ok := newGit()
	if !ok {
		r.why = "git is not available"
		return r
	}
	r.g = g
	g.must(nil, "init", "-q", "--bare", "-b", "m", "--object-format="+format, ".")
	if len(changes) == 0 {
		return r
	}
	var b bytes.Buffer
	b.WriteString("feature done\n")
	tree := func(t gitTree) {
		b.WriteString("deleteall\n")
		for _, p := range t.paths() {
			e := t[p]
			name := ref.Quote(p, true)
			if strings.HasPrefix(p, " ") || strings.HasSuffix(p, " ") {
				name = `"` + p + `"`
			}
			if e.mode == 0o160000 {
				fmt.Fprintf(&b, "M 160000 %s %s\n", e.objectID(), name)
				continue
			}
			fmt.Fprintf(&b, "M %06o inline %s\ndata %d\n%s\n", e.mode, name, len(e.data), e.data)
		}
		b.WriteString("\n")
	}
	for i, c := range changes {
		fmt.Fprintf(&b, "reset refs/heads/m\n\ncommit refs/heads/m\nmark :%d\ncommitter A U Thor <a@u.thor> %d +0000\ndata 4\nold\n\n", 2*i+1, 1700000000+2*i)
		tree(c.old)
		fmt.Fprintf(&b, "commit refs/heads/m\nmark :%d\n", 2*i+2)
		if models != nil {
			models[i].stamp(&b)
		} else {
			fmt.Fprintf(&b, "committer A U Thor <a@u.thor> %d +0000\ndata 4\nnew\n\n", 1700000001+2*i)
		}
		fmt.Fprintf(&b, "from :%d\n", 2*i+1)
		tree(c.new)
	}
	b.WriteString("done\n")
	g.must(b.Bytes(), "fast-import", "--quiet", "--done", "--force", "--export-marks=marks")
	r.ids = make([]string, len(changes))
	for _, ln := range strings.Split(strings.TrimSpace(readFile(g.dir+"/marks")), "\n") {
		m, s, _ := strings.Cut(ln, " ")
		n, err := strconv.Atoi(strings.TrimPrefix(m, ":"))
		if err != nil || n < 1 {
			panic("engine: bad mark " + ln)
		}
		if n%2 == 0 {
			r.ids[n/2-1] = s
			if models != nil {
				models[n/2-1].sha = s
			}
		}
	}
	return r
}

func (r *gitRepo) close() {
	if r != nil && r.g != nil {
		r.g.close()
	}
}

const repoChunk = 128

// diff returns the raw output and the patch of one change. Arguments that
// start with "-c " are configuration.
func (r *gitRepo) diff(i int, args []string) (raw, patch string) {
	c := i / repoChunk
	out := r.chunks.get(fmt.Sprint(c, args), func() [][2]string {
		lo, hi := c*repoChunk, min(len(r.ids), (c+1)*repoChunk)
		ids := r.ids[lo:hi]
		in := []byte(strings.Join(ids, "\n") + "\n")
		var conf, opts []string
		for _, a := range args {
			if v, ok := strings.CutPrefix(a, "-c "); ok {
				conf = append(conf, "-c", v)
			} else {
				opts = append(opts, a)
			}
		}
		run := func(opts []string, extra ...string) string {
			return r.g.must(in, append(append(append(append([]string{}, conf...), "diff-tree", "--stdin", "-r"), opts...), extra...)...)
		}
		raws := splitAt(run(rawOptions(opts), "--raw", "-z"), ids, "\x00")
		patches := splitAt(run(opts, "-p"), ids, "\n")
		res := make([][2]string, len(ids))
		for k := range ids {
			res[k] = [2]string{raws[k], patches[k]}
		}
		return res
	})
	return out[i%repoChunk][0], out[i%repoChunk][1]
}

// rawOptions keeps the options that matter to the raw output; many others
// would turn the patch on.
func rawOptions(args []string) (out []string) {
	for _, a := range args {
		if strings.HasPrefix(a, "-M") || strings.HasPrefix(a, "-C") || strings.HasPrefix(a, "-B") || a == "--no-renames" || a == "-R" {
			out = append(out, a)
		}
	}
	return
}

// splitAt cuts output at the commit ids, which come in order; commits without
// any difference are left out by git. Equal ids in a row are printed each time.
func splitAt(out string, ids []string, end string) []string {
	res := make([]string, len(ids))
	last := -1
	for k, id := range ids {
		mark := id + end
		at := -1
		if last < 0 {
			if strings.HasPrefix(out, mark) {
				at = 0
			}
		} else if strings.HasPrefix(out, mark) { // previous is empty
			at = 0
		} else if p := strings.Index(out, end+mark); p >= 0 {
			at = p + len(end)
		}
		if at < 0 {
			continue
		}
		if last >= 0 {
			res[last] = out[:at]
		}
		out = out[at+len(mark):]
		last = k
	}
	if last >= 0 {
		res[last] = out
	}
	return res
}

// rawEntry is one line of git's raw output.
type rawEntry struct {
	oldMode, newMode uint32
	oldID, newID     string
	status           byte
	score            int
	oldPath, newPath string
}

func parseRaw(raw string) []rawEntry {
	var out []rawEntry
	parts := strings.Split(raw, "\x00")
	for i := 0; i < len(parts) && parts[i] != ""; {
		f := strings.Fields(strings.TrimPrefix(parts[i], ":"))
		if len(f) != 5 || i+1 >= len(parts) {
			panic(fmt.Sprintf("engine: bad raw output %q", raw))
		}
		var e rawEntry
		a, _ := strconv.ParseUint(f[0], 8, 32)
		b, _ := strconv.ParseUint(f[1], 8, 32)
		e.oldMode, e.newMode, e.oldID, e.newID = uint32(a), uint32(b), f[2], f[3]
		e.status = f[4][0]
		e.score, _ = strconv.Atoi(f[4][1:])
		e.oldPath, e.newPath = parts[i+1], parts[i+1]
		i += 2
		if e.status == 'R' || e.status == 'C' {
			e.newPath = parts[i]
			i++
		}
		out = append(out, e)
	}
	return out
}

// ---- families of changes ----

func textEntry(s string) gitEntry { return gitEntry{0o100644, s} }

func pairs(path string, contents []string) []treeChange {
	var out []treeChange
	for _, a := range contents {
		for _, b := range contents {
			if a != b {
				out = append(out, treeChange{gitTree{path: textEntry(a)}, gitTree{path: textEntry(b)}})
			}
		}
	}
	return out
}

// lineTexts lists all texts of up to max of the lines, with and without the
// final newline.
func lineTexts(lines []string, max int) []string {
	var out []string
	for _, s := range sequences(lines, max) {
		out = append(out, s)
		if s != "" {
			out = append(out, strings.TrimSuffix(s, "\n"))
		}
	}
	seen := map[string]bool{}
	uniq := out[:0]
	for _, s := range out {
		if !seen[s] {
			seen[s] = true
			uniq = append(uniq, s)
		}
	}
	return uniq
}

var oddLines = []string{
	"", " ", "\t", "-", "+", "--", "-- ", "---", "--- a/f", "+++ b/f", "@@ -1 +1 @@", "\\ No newline at end of file", "\\",
	"diff --git a/f b/f", "index 1..2", "GIT binary patch", "Binary files a and b differ", "\r", "x\r", "\xff\xfe", "\xc3\xa9", "x\x00", "\x0c", "\v", "literal 3", "new file mode 100644", "a \t",
	"-- \n2.43.0", "From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001",
}

// siteChanges edits a text of many lines in every way at some sites.
func siteChanges(lines, sites, kinds int) []treeChange {
	var out []treeChange
	total := 1
	for i := 0; i < sites; i++ {
		total *= kinds
	}
	for _, fn := range []bool{false, true} {
		line := func(i int) string {
			if fn && i%7 == 0 {
				return fmt.Sprintf("func f%d() {\n", i)
			}
			return fmt.Sprintf("%sline %d\n", []string{"", "\t"}[i%2], i)
		}
		var old strings.Builder
		for i := 0; i < lines; i++ {
			old.WriteString(line(i))
		}
		for n := 1; n < total; n++ {
			ops := make([]int, sites)
			for i, k := 0, n; i < sites; i, k = i+1, k/kinds {
				ops[i] = k % kinds
			}
			var b strings.Builder
			gap := (lines - 1) / max(1, sites-1)
			for i := 0; i < lines; i++ {
				op := 0
				if i%gap == 0 && i/gap < sites {
					op = ops[i/gap]
				}
				l := line(i)
				switch op {
				case 0:
					b.WriteString(l)
				case 1: // delete
				case 2:
					b.WriteString("changed " + l)
				case 3:
					b.WriteString(l + "inserted\n")
				case 4:
					b.WriteString("one\ntwo\n" + l)
				}
			}
			out = append(out, treeChange{gitTree{"f": textEntry(old.String())}, gitTree{"f": textEntry(b.String())}})
		}
	}
	return out
}

// modeChanges go between all kinds of entries.
func modeChanges() []treeChange {
	var es []gitEntry
	for _, m := range []uint32{0o100644, 0o100755, 0o120000} {
		for _, d := range []string{"", "x\n", "y", "b\x00in"} {
			if m == 0o120000 && (d == "" || strings.Contains(d, "\x00")) {
				continue
			}
			es = append(es, gitEntry{m, d})
		}
	}
	for _, id := range []string{"1111111111111111111111111111111111111111", "2222222222222222222222222222222222222222"} {
		es = append(es, gitEntry{0o160000, subPrefix + id + "\n"})
	}
	var out []treeChange
	for i := -1; i < len(es); i++ {
		for j := -1; j < len(es); j++ {
			if i == j {
				continue
			}
			c := treeChange{gitTree{}, gitTree{}}
			if i >= 0 {
				c.old["d/f"] = es[i]
			}
			if j >= 0 {
				c.new["d/f"] = es[j]
			}
			out = append(out, c)
		}
	}
	return out
}

// fileSets go between all assignments of contents to paths.
func fileSets(paths []string, es []gitEntry) []treeChange {
	var sets []gitTree
	total := 1
	for range paths {
		total *= len(es) + 1
	}
	for n := 0; n < total; n++ {
		t := gitTree{}
		ok := true
		for i, k := 0, n; i < len(paths); i, k = i+1, k/(len(es)+1) {
			if c := k % (len(es) + 1); c > 0 {
				t[paths[i]] = es[c-1]
			}
		}
		for p := range t { // a file is not a directory
			for o := range t {
				ok = ok && !strings.HasPrefix(o, p+"/")
			}
		}
		if ok {
			sets = append(sets, t)
		}
	}
	var out []treeChange
	for i, a := range sets {
		for j, b := range sets {
			if i != j {
				out = append(out, treeChange{a, b})
			}
		}
	}
	return out
}

// rewriteChanges keep every share of a text that is long enough for git to
// call the change a rewrite, alone, with a mode change, as binary, and with
// the old text moved to another path.
func rewriteChanges(lines, step int) []treeChange {
	text := func(keep, n int, word string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i < keep {
				fmt.Fprintf(&b, "the same line number %d\n", i)
			} else {
				fmt.Fprintf(&b, "%s text at line %d\n", word, i*7919)
			}
		}
		return b.String()
	}
	var out []treeChange
	for keep := 0; keep <= lines; keep += step {
		for _, n := range []int{lines, lines * 2, lines/2 + keep/2} {
			a, b := text(keep, lines, "old"), text(keep, n, "new")
			if a == b {
				continue
			}
			for _, cut := range []string{"", "\x00"} {
				ta, tb := textEntry(cut+a), textEntry(cut+b)
				out = append(out,
					treeChange{gitTree{"f": ta}, gitTree{"f": tb}},
					treeChange{gitTree{"f": ta}, gitTree{"f": gitEntry{0o100755, tb.data}}},
					treeChange{gitTree{"f": ta}, gitTree{"f": tb, "g": ta}},
					treeChange{gitTree{"f": ta, "g": tb}, gitTree{"f": tb, "g": ta}},
					treeChange{gitTree{"f": ta}, gitTree{"f": textEntry(strings.TrimSuffix(tb.data, "\n"))}})
			}
		}
	}
	return out
}

func similarTexts() (x, x2, x3, y string) {
	x = "alpha\nbravo\ncharlie\ndelta\necho\nfoxtrot\ngolf\nhotel\n"
	x2 = strings.Replace(x, "delta", "DELTA", 1)
	x3 = strings.Replace(x2, "alpha\n", "", 1)
	y = "one\ntwo\nthree\nfour\nfive\nsix\nseven\neight\nnine\n"
	return
}

var oddPaths = []string{
	"f", "f.txt", "dir/f", "a b", " lead", "trail ", "two  gap", "tab\tx", "q\"uote", "\"", "back\\slash", "end\\", "nl\nx", "cr\r", "\x01\x7f", "\xc3\xa9t\xc3\xa9", "\xff\xfe", "a/f", "b/f", "a/b/f", "x b/x", "x a/x b/x",
	"dev/null", "--- a", "+++ b", "@@ -1 +1 @@", "-", "~", "f~", "x y b/x y", "d ir/f ile", "a/x b/x", "index 1..2", ".x", "x\t", "\tx", "a\\\"b", "\\303\\251",
}

// nameChanges make, change, remove, rename and copy files of every name.
func nameChanges(names [][2]string) []treeChange {
	x, x2, _, _ := similarTexts()
	var out []treeChange
	for _, p := range names {
		a, b := p[0], p[1]
		tx, tx2 := textEntry(x), textEntry(x2)
		ex := gitEntry{0o100755, x}
		bin, bin2 := textEntry("b\x00"+x), textEntry("b\x00"+x2)
		out = append(out,
			treeChange{gitTree{a: tx}, gitTree{a: tx2}},
			treeChange{gitTree{a: tx}, gitTree{a: ex}},
			treeChange{gitTree{}, gitTree{a: tx}},
			treeChange{gitTree{}, gitTree{a: textEntry("")}},
			treeChange{gitTree{a: tx}, gitTree{}},
			treeChange{gitTree{a: textEntry("")}, gitTree{}},
			treeChange{gitTree{a: bin}, gitTree{a: bin2}},
			treeChange{gitTree{}, gitTree{a: bin}},
			treeChange{gitTree{a: bin}, gitTree{}},
		)
		if a != b && !strings.HasPrefix(a, b+"/") && !strings.HasPrefix(b, a+"/") {
			out = append(out,
				treeChange{gitTree{a: tx}, gitTree{b: tx}},
				treeChange{gitTree{a: tx}, gitTree{b: tx2}},
				treeChange{gitTree{a: tx}, gitTree{b: ex}},
				treeChange{gitTree{a: bin}, gitTree{b: bin2}},
				treeChange{gitTree{a: tx}, gitTree{a: tx2, b: tx}},
				treeChange{gitTree{a: tx}, gitTree{a: tx, b: tx2}},
				treeChange{gitTree{a: bin}, gitTree{a: bin2, b: bin}},
			)
		}
	}
	return out
}

func namePairs(names []string) [][2]string {
	var out [][2]string
	for i, a := range names {
		for _, b := range []string{names[(i+1)%len(names)], a + "2", "p"} {
			out = append(out, [2]string{a, b})
		}
	}
	return out
}

func allNamePairs(names []string) [][2]string {
	var out [][2]string
	for _, a := range names {
		for _, b := range names {
			out = append(out, [2]string{a, b})
		}
	}
	return out
}

// binaryTexts lists contents that git treats as binary (or not).
func binaryTexts(sizes []int) []string {
	var out []string
	for _, n := range sizes {
		zeros := strings.Repeat("\x00", n)
		noise := make([]byte, n)
		s := uint32(12345 + n)
		for i := range noise {
			s = s*1664525 + 1013904223
			noise[i] = byte(s >> 24)
		}
		if n > 0 {
			noise[0] = 0
		}
		out = append(out, string(noise))
		if n > 0 {
			out = append(out, zeros, "\x00"+string(noise)+"tail", string(noise[:n/2])+"mid\x00dle"+string(noise[n/2:]))
		}
	}
	return out
}

// chooseChange picks one change and one set of options.
func chooseChange(t *engine.T, r *gitRepo, opts [][]string) (c treeChange, i int, args []string) {
	if r == nil || r.why != "" {
		t.Skip()
	}
	i = t.Choose(len(r.changes))
	args = engine.Pick(t, opts)
	return r.changes[i], i, args
}
