package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C32", Title: "patches written by GNU diff",
		Assumptions: []string{
			"the installed GNU diff (3.10) stands for GNU diff; without it nothing is explored",
			"hunks without context at the very start of a file (position 0) may be refused as a conflict, as in C01",
			"options that change the text of lines (-T, -t) or ignore differences (-w, -b, -i, -I, -E, -Z, -B) are outside the claim",
		},
		Scenarios: c32,
	})
}

// diffRun holds pairs of directories and what GNU diff says about them.
type diffRun struct {
	dir   string
	why   string
	cases []treeChange
	outs  onceMap[string, []string]
}

var diffTimes = []time.Time{
	time.Unix(1700000000, 123456789), time.Unix(-86400*365, 0), time.Unix(1, 0), time.Unix(0, 1), time.Unix(946684800, 999999999), time.Unix(86400, 0),
}

func newDiffRun(cases []treeChange) *diffRun {
	r := &diffRun{cases: cases}
	if _, err := exec.LookPath("diff"); err != nil {
		r.why = "diff is not available"
		return r
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "verif-diff.")
	if err != nil {
		panic("engine: " + err.Error())
	}
	r.dir = dir
	write := func(side string, i int, tr gitTree) {
		base := filepath.Join(dir, side, fmt.Sprintf("c%05d", i))
		must(os.MkdirAll(base, 0o755))
		for k, p := range tr.paths() {
			name := filepath.Join(base, p)
			must(os.MkdirAll(filepath.Dir(name), 0o755))
			must(os.WriteFile(name, []byte(tr[p].data), 0o644))
			st := diffTimes[(i+k+len(side+p)*len(tr[p].data))%len(diffTimes)]
			must(os.Chtimes(name, st, st))
		}
	}
	for i, c := range cases {
		write("old", i, c.old)
		write("new", i, c.new)
	}
	return r
}

func must(err error) {
	if err != nil {
		panic("engine: " + err.Error())
	}
}

func (r *diffRun) close() {
	if r != nil && r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

var diffCase = regexp.MustCompile(`(?:old|new)/c(\d{5})[/:]`)

// run is one call of diff.
func (r *diffRun) run(zone string, args ...string) string {
	c := exec.Command("diff", args...)
	c.Dir = r.dir
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "LC_ALL=C", "TZ=" + zone}
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	var ee *exec.ExitError
	// diff exits with 2 also if binary files differ
	if err != nil && (!errors.As(err, &ee) || ee.ExitCode() > 2 || errb.Len() > 0) {
		panic(fmt.Sprintf("engine: diff %v: %v: %s", args, err, errb.String()))
	}
	return out.String()
}

// tree compares all pairs of directories in one run and gives the part of the
// output that belongs to each.
func (r *diffRun) tree(zone string, args []string) []string {
	return r.outs.get(fmt.Sprint(zone, args), func() []string {
		out := r.run(zone, append(append([]string{"-r"}, args...), "old", "new")...)
		res := make([]string, len(r.cases))
		at := 0
		for _, ln := range strings.SplitAfter(out, "\n") {
			if ln == "" {
				continue
			}
			// lines of hunks start with one of " +-\@" or are empty
			if strings.HasPrefix(ln, "diff ") || strings.HasPrefix(ln, "Only in ") || strings.HasPrefix(ln, "Binary files ") || strings.HasPrefix(ln, "File ") {
				m := diffCase.FindStringSubmatch(ln)
				if m == nil {
					panic("engine: unexpected line of diff: " + ln)
				}
				at, _ = strconv.Atoi(m[1])
			}
			res[at] += ln
		}
		return res
	})
}

func has(args []string, xs ...string) bool {
	for _, a := range args {
		for _, x := range xs {
			if a == x {
				return true
			}
		}
	}
	return false
}

// verifyDiffTree checks the files of one pair of directories.
func verifyDiffTree(t *engine.T, r *diffRun, zones []string, opts [][]string) {
	if r == nil || r.why != "" {
		t.Skip()
	}
	i := t.Choose(len(r.cases))
	args := engine.Pick(t, opts)
	zone := engine.Pick(t, zones)
	c := r.cases[i]
	text := r.tree(zone, args)[i]
	show := func() string { return fmt.Sprintf("TZ=%s diff -r %v of %v\n%s", zone, args, c, q(text)) }
	t.Desc(show)
	t.State(text)
	files, pre, err := gitdiff.Parse(strings.NewReader(text))
	if err != nil {
		t.Fail("parse", "GNU diff's patch rejected: %v\n%s", err, show())
	}
	if at := strings.Index("\n"+text, "\n--- "); at < 0 && pre != text || at >= 0 && pre != text[:at] {
		t.Fail("preamble", "preamble %s\n%s", q(pre), show())
	}
	both := has(args, "-N")
	binary := func(s string) bool { return strings.Contains(s, "\x00") && !has(args, "-a") }
	type change struct {
		name, a, b   string
		isNew, isDel bool
	}
	var want []change
	for _, p := range append(c.old.paths(), c.new.paths()...) {
		o, inOld := c.old[p]
		n, inNew := c.new[p]
		if inOld && inNew && len(want) > 0 && seen(want, func(w change) bool {
			return strings.HasSuffix(w.name, "/"+p) && w.name == fmt.Sprintf("new/c%05d/%s", i, p)
		}) {
			continue
		}
		if o.data == n.data && inOld == inNew || binary(o.data) || binary(n.data) {
			continue
		}
		if (!inOld || !inNew) && !both {
			continue
		}
		if o.data == n.data { // an empty file beside an absent one
			continue
		}
		w := change{name: fmt.Sprintf("new/c%05d/%s", i, p), a: o.data, b: n.data, isNew: !inOld, isDel: !inNew}
		if w.isDel {
			w.name = fmt.Sprintf("old/c%05d/%s", i, p)
		}
		want = append(want, w)
	}
	if len(files) != len(want) {
		t.Fail("count", "%d files, want %d\n%s", len(files), len(want), show())
	}
	for _, w := range want {
		t.Trace()
		var f *gitdiff.File
		for _, x := range files {
			if x.OldName == w.name || x.NewName == w.name {
				f = x
			}
		}
		if f == nil {
			t.Fail("names", "no file is named %s, the first is %q, %q\n%s", q(w.name), files[0].OldName, files[0].NewName, show())
		}
		oldName, newName := w.name, w.name
		if w.isNew {
			oldName = ""
		}
		if w.isDel {
			newName = ""
		}
		verifyDiffFile(t, f, oldName, newName, w.isNew, w.isDel, w.a, w.b, show)
	}
	t.Outcome(fmt.Sprintf("%d files", len(want)))
}

func seen[E any](xs []E, f func(E) bool) bool {
	for _, x := range xs {
		if f(x) {
			return true
		}
	}
	return false
}

func verifyDiffFile(t *engine.T, f *gitdiff.File, oldName, newName string, isNew, isDel bool, a, b string, show func() string) {
	if f.OldName != oldName || f.NewName != newName {
		t.Fail("names", "names %s and %s, want %s and %s\n%s", q(f.OldName), q(f.NewName), q(oldName), q(newName), show())
	}
	if f.IsNew != isNew || f.IsDelete != isDel || f.IsRename || f.IsCopy || f.IsBinary {
		t.Fail("kind", "new %v, delete %v, rename %v, copy %v, binary %v, want new %v, delete %v\n%s", f.IsNew, f.IsDelete, f.IsRename, f.IsCopy, f.IsBinary, isNew, isDel, show())
	}
	if f.OldMode != 0 || f.NewMode != 0 || f.Score != 0 || f.OldOIDPrefix+f.NewOIDPrefix != "" || f.BinaryFragment != nil || f.ReverseBinaryFragment != nil {
		t.Fail("extra", "modes %o %o, score %d, object ids\n%s", f.OldMode, f.NewMode, f.Score, show())
	}
	out, err := applyTo(a, f)
	if err != nil {
		if startsAtZero(f) && a != "" && isConflict(err) {
			t.Outcome("refused at the start of the file")
			return
		}
		t.Fail("apply", "apply failed: %v\nold %s\n%s", err, q(a), show())
	}
	if out != b {
		t.Fail("content", "apply wrote %s, want %s\n%s", q(out), q(b), show())
	}
	verifySides(t, a, b, f)
}

func c32(tier string) []engine.Scenario {
	var ss []engine.Scenario
	add := func(name, bound string, gen func() []treeChange, zones []string, opts ...[]string) {
		var r *diffRun
		var shown []string
		for _, o := range opts {
			shown = append(shown, strings.Join(o, " "))
		}
		ss = append(ss, engine.Scenario{
			Name: name, Bound: fmt.Sprintf("%s; diff -r in the zones %v with each of: %s", bound, zones, strings.Join(shown, " | ")),
			Setup:    func() { r = newDiffRun(gen()) },
			Teardown: func() { r.close(); r = nil },
			Run:      func(t *engine.T) { verifyDiffTree(t, r, zones, opts) },
		})
	}
	o := func(s ...string) []string { return s }
	utc := []string{"UTC"}
	n := sel(tier, 3, 4)
	add("texts", fmt.Sprintf("all pairs of texts of up to %d lines from \"a\", \"b\", with and without final newlines", n),
		func() []treeChange { return pairs("f", lineTexts([]string{"a", "b"}, n)) }, utc,
		o("-u"), o("-U0"), o("-U1", "-N"), o("-u", "-d", "-p"), o("-u", "--suppress-blank-empty"))
	add("texts with blank lines", "all pairs of texts of up to 3 lines from \"a\", \"\", with and without final newlines",
		func() []treeChange { return pairs("f", lineTexts([]string{"a", ""}, 3)) }, utc,
		o("-u"), o("-U0"), o("-U1"), o("-U2", "--suppress-blank-empty"), o("-u", "--suppress-blank-empty", "-N"))
	add("odd lines", fmt.Sprintf("%d lines that look like patch syntax or are blank, binary or not UTF-8: each pair replaced, inserted, deleted and as context", len(oddLines)),
		func() []treeChange {
			var cs []treeChange
			for _, a := range oddLines {
				for _, b := range append([]string{"plain"}, oddLines...) {
					for _, p := range [][2]string{
						{"c\n" + a + "\nd\n", "c\n" + b + "\nd\n"}, {a + "\n", a + "\n" + b + "\n"}, {a, b},
						{a + "\n" + b + "\nz\n", a + "\n" + b + "\nw\n"}, {b + "\n" + a, b + "\n" + a + "\n"},
					} {
						if p[0] != p[1] {
							cs = append(cs, treeChange{gitTree{"f": textEntry(p[0])}, gitTree{"f": textEntry(p[1])}})
						}
					}
				}
			}
			return cs
		}, utc, o("-u"), o("-u", "-a"), o("-U0", "-a"), o("-U1", "-a", "--suppress-blank-empty", "-p"))
	sites, kinds := sel(tier, 4, 5), sel(tier, 4, 5)
	add("edits at several places", fmt.Sprintf("a text of 40 lines with each of %d sites kept or edited in %d ways, with and without function lines", sites, kinds-1),
		func() []treeChange { return siteChanges(40, sites, kinds) }, utc,
		o("-u"), o("-U0"), o("-U1", "-p"), o("-U5", "-F", "^line 1"), o("-u", "--horizon-lines=5", "-H"), o("-U", "100"))
	zones := []string{"UTC", "America/New_York", "Asia/Kolkata", "Europe/London", "Pacific/Kiritimati", "<+1345>-13:45", "<-0001>0:01", "<+24>-24"}
	paths := []string{"p", "d/q", "s t"}
	kindsOf := []gitEntry{textEntry(""), textEntry("one\n"), textEntry("two\nlines"), textEntry("b\x00in")}
	if tier != "thorough" {
		paths = paths[:2]
	} else {
		kindsOf = kindsOf[:3]
	}
	add("directories", fmt.Sprintf("every change between assignments of %d contents (or none) to the paths %q", len(kindsOf), paths),
		func() []treeChange { return fileSets(paths, kindsOf) }, zones[:sel(tier, 6, len(zones))],
		o("-u", "-N"), o("-u"), o("-U0", "-N"), o("-u", "-N", "-a"))
	add("names", fmt.Sprintf("files with each of %d odd names changed, created and removed, and every byte value in a name", len(oddPaths)),
		func() []treeChange {
			names := append([]string{}, oddPaths...)
			for b := 1; b < 256; b++ {
				if b != '/' && b != '.' {
					names = append(names, string([]byte{byte(b)}), "x"+string([]byte{byte(b)})+"y", "d"+string([]byte{byte(b)})+"/f")
				}
			}
			var cs []treeChange
			for _, p := range names {
				cs = append(cs, treeChange{gitTree{p: textEntry("a\n")}, gitTree{p: textEntry("b\n")}}, treeChange{gitTree{}, gitTree{p: textEntry("b\n")}}, treeChange{gitTree{p: textEntry("a\n")}, gitTree{}})
			}
			return cs
		}, zones[:2], o("-u", "-N"))
	// single files with labels
	var r *diffRun
	labels := []string{"", "f", "f.orig", "a/f", "b/f", "x y", "f\t2020-01-01 00:00:00 +0000", "f\t1970-01-01 00:00:00 +0000", "f\t1970-01-01 01:00:00.000000000 +0100", "/dev/null", "f\t(revision 1)", "\"f\"", "\"\\303\\251\"", "dir//f"}
	ss = append(ss, engine.Scenario{
		Name:  "labels",
		Bound: fmt.Sprintf("diff -u of two files, one of them empty or not, with every pair of %d labels (or none)", len(labels)-1),
		Setup: func() {
			r = newDiffRun([]treeChange{
				{gitTree{"f": textEntry("a\n")}, gitTree{"f": textEntry("b\n")}},
				{gitTree{"f": textEntry("")}, gitTree{"f": textEntry("b\n")}},
				{gitTree{"f": textEntry("a\n")}, gitTree{"f": textEntry("")}},
			})
		},
		Teardown: func() { r.close(); r = nil },
		Run: func(t *engine.T) {
			if r == nil || r.why != "" {
				t.Skip()
			}
			i := t.Choose(3)
			x, y := engine.Pick(t, labels), engine.Pick(t, labels)
			args := []string{"-u"}
			if x != "" {
				args = append(args, "--label", x)
				if y != "" {
					args = append(args, "--label", y)
				}
			} else if y != "" {
				t.Skip()
			}
			text := r.run("UTC", append(args, fmt.Sprintf("old/c%05d/f", i), fmt.Sprintf("new/c%05d/f", i))...)
			t.Desc(func() string { return q(text) })
			t.State(text)
			verifyParse(t, text)
		},
	})
	return ss
}
