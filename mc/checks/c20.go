package checks

import (
	"bytes"
	"fmt"
	"os/exec"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C20", Title: "formatted patches mean the same to git",
		Assumptions: []string{
			"the installed git (2.43) stands for git; without git nothing is explored",
			"binary changes are formatted with full object ids (git apply demands them)",
			"patches that git apply refuses in their original form are not judged",
		},
		Scenarios: c20,
	})
}

// prefixed moves every change into a directory of its own.
func prefixed(cs []treeChange) []treeChange {
	out := make([]treeChange, len(cs))
	for i, c := range cs {
		mv := func(t gitTree) gitTree {
			n := gitTree{}
			for p, e := range t {
				n[fmt.Sprintf("c%d/%s", i, p)] = e
			}
			return n
		}
		out[i] = treeChange{mv(c.old), mv(c.new)}
	}
	return out
}

// indexOf writes a tree as index entries, keyed by path.
func indexOf(t gitTree, into map[string]string) {
	for p, e := range t {
		into[p] = fmt.Sprintf("%06o %s", e.mode, e.objectID())
	}
}

// applyInIndex runs git apply on an index that holds old, and returns the
// resulting index.
func (r *gitRepo) applyInIndex(name string, old gitTree, patch string, args []string) (map[string]string, string) {
	g := r.g.in(r.g.dir)
	file := r.g.dir + "/index-" + name
	withIndex := func(stdin []byte, args ...string) (string, error) {
		c := g.cmd(args...)
		c.Env = append(c.Env, "GIT_INDEX_FILE="+file)
		c.Stdin = bytes.NewReader(stdin)
		var out, errb bytes.Buffer
		c.Stdout, c.Stderr = &out, &errb
		if err := c.Run(); err != nil {
			if _, ok := err.(*exec.ExitError); !ok {
				panic("engine: " + err.Error())
			}
			return out.String(), fmt.Errorf("%v: %s", err, errb.String())
		}
		return out.String(), nil
	}
	defer exec.Command("rm", "-f", file).Run()
	idx := map[string]string{}
	indexOf(old, idx)
	var in bytes.Buffer
	for p, e := range idx {
		in.WriteString(e + "\t" + p + "\x00")
	}
	if _, err := withIndex(in.Bytes(), "update-index", "-z", "--index-info"); err != nil {
		panic("engine: " + err.Error())
	}
	if _, err := withIndex([]byte(patch), append([]string{"apply", "--cached", "--whitespace=nowarn", "--allow-empty"}, args...)...); err != nil {
		return nil, err.Error()
	}
	out, err := withIndex(nil, "ls-files", "-s", "-z")
	if err != nil {
		panic("engine: " + err.Error())
	}
	res := map[string]string{}
	for _, ln := range strings.Split(out, "\x00") {
		if ln == "" {
			continue
		}
		meta, path, _ := strings.Cut(ln, "\t")
		f := strings.Fields(meta)
		res[path] = f[0] + " " + f[1]
	}
	return res, ""
}

// sameIndex compares the entries under a prefix.
func sameIndex(got map[string]string, want gitTree, prefix string) string {
	w := map[string]string{}
	indexOf(want, w)
	for p, e := range w {
		if got[p] != e {
			return fmt.Sprintf("%q is %q, want %q", p, got[p], e)
		}
	}
	for p, e := range got {
		if _, ok := w[p]; !ok && strings.HasPrefix(p, prefix) {
			return fmt.Sprintf("%q is %q, want it gone", p, e)
		}
	}
	return ""
}

// formatCase is one patch before and after formatting.
type formatCase struct {
	orig, text string
	bad        string // why there is no formatted text
	verdict    string // what git made of it
	foreign    bool   // git refuses the original patch too
}

func formatPatch(orig string) (c formatCase) {
	c.orig = orig
	defer func() {
		if p := recover(); p != nil {
			c.bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	files, _, err := gitdiff.Parse(strings.NewReader(orig))
	if err != nil {
		c.bad = "parse: " + err.Error()
		return
	}
	var b strings.Builder
	for _, f := range files {
		b.WriteString(f.String())
	}
	c.text = b.String()
	return
}

const applyChunk = 64

// formatScenario formats git's patches and lets git apply the result.
type formatScenario struct {
	r      *gitRepo
	opts   [][]string
	alone  bool // one git apply per case (paths of different cases collide)
	change func(patch string, c treeChange) string
	chunks onceMap[string, []formatCase]
}

func (s *formatScenario) get(i int, args []string) formatCase {
	n := applyChunk
	if s.alone {
		n = 1
	}
	lo := i / n * n
	return s.chunks.get(fmt.Sprint(lo, args), func() []formatCase { return s.load(lo, min(lo+n, len(s.r.changes)), args) })[i-lo]
}

func (s *formatScenario) load(lo, hi int, args []string) []formatCase {
	var apply, diff []string
	for _, a := range args {
		if v, ok := strings.CutPrefix(a, "apply "); ok {
			apply = append(apply, v)
		} else {
			diff = append(diff, a)
		}
	}
	cases := make([]formatCase, hi-lo)
	old := gitTree{}
	var all strings.Builder
	for k := range cases {
		c := s.r.changes[lo+k]
		_, patch := s.r.diff(lo+k, diff)
		if s.change != nil {
			patch = s.change(patch, c)
		}
		cases[k] = formatPatch(patch)
		all.WriteString(cases[k].text)
		for p, e := range c.old {
			old[p] = e
		}
	}
	name := strings.NewReplacer("/", "_", " ", "_").Replace(fmt.Sprint(lo, args))
	got, failed := s.r.applyInIndex(name, old, all.String(), apply)
	for k := range cases {
		c := s.r.changes[lo+k]
		if cases[k].bad != "" {
			continue
		}
		prefix := fmt.Sprintf("c%d/", lo+k)
		if s.alone {
			prefix = ""
		}
		if failed == "" {
			cases[k].verdict = sameIndex(got, c.new, prefix)
			if cases[k].verdict == "" {
				continue
			}
		}
		check := func(text string) string {
			g, f := s.r.applyInIndex(name, c.old, text, apply)
			if f != "" {
				return "git apply: " + f
			}
			return sameIndex(g, c.new, prefix)
		}
		if cases[k].verdict = check(cases[k].text); cases[k].verdict != "" {
			cases[k].foreign = check(cases[k].orig) != ""
		}
	}
	return cases
}

func (s *formatScenario) run(t *engine.T) {
	c, i, args := chooseChange(t, s.r, s.opts)
	fc := s.get(i, args)
	show := func() string { return fmt.Sprintf("%v %v\nfrom %s\nformatted %s", args, c, q(fc.orig), q(fc.text)) }
	t.Desc(show)
	t.State(fc.orig)
	t.Trace()
	if fc.bad != "" {
		t.Fail("format", "%s\n%s", fc.bad, show())
	}
	if fc.verdict != "" && fc.foreign {
		t.Outcome("git refuses its own patch")
		return
	}
	if fc.verdict != "" {
		t.Fail("git", "%s\n%s", fc.verdict, show())
	}
	t.Outcome("same result")
}

// traditional rewrites git's patch of one file as diff -u would write it.
func traditional(style int) func(string, treeChange) string {
	return func(patch string, c treeChange) string {
		at := strings.Index(patch, "--- ")
		if at < 0 {
			return patch
		}
		var b strings.Builder
		for i, l := range strings.SplitAfter(patch[at:], "\n") {
			if i < 2 {
				mark, name := l[:4], strings.TrimSuffix(l[4:], "\n")
				switch {
				case name == "/dev/null":
					if style == 1 { // GNU diff -N: the other name at the epoch
						for _, t := range []gitTree{c.old, c.new} {
							for p := range t {
								name = p + "\t1970-01-01 00:00:00.000000000 +0000"
							}
						}
					}
				default:
					name = name[2:]
					if style == 1 {
						name += "\t2020-01-02 03:04:05.678901234 +0100"
					}
				}
				l = mark + name + "\n"
			}
			b.WriteString(l)
		}
		return b.String()
	}
}

func c20(tier string) []engine.Scenario {
	var ss []engine.Scenario
	add := func(name, bound string, gen func() []treeChange, alone bool, change func(string, treeChange) string, opts ...[]string) {
		var s *formatScenario
		var shown []string
		for _, o := range opts {
			shown = append(shown, strings.Join(o, " "))
		}
		ss = append(ss, engine.Scenario{
			Name: name, Bound: bound + "; formatted from git diff-tree -p with each of: " + strings.Join(shown, " | "),
			Setup: func() {
				cs := gen()
				if !alone {
					cs = prefixed(cs)
				}
				s = &formatScenario{r: newRepo(cs), opts: opts, alone: alone, change: change}
			},
			Teardown: func() { s.r.close(); s = nil },
			Run:      func(t *engine.T) { s.run(t) },
		})
	}
	o := func(s ...string) []string { return s }
	abc, maxLines := []string{"a", "b"}, sel(tier, 3, 4)
	add("texts", fmt.Sprintf("all pairs of texts of up to %d lines from %q, with and without final newlines", maxLines, abc),
		func() []treeChange { return pairs("f", lineTexts(abc, maxLines)) }, false, nil,
		o("-U1"), o("-U3"), o("-U2", "-c diff.suppressBlankEmpty=true"), o("-U0", "apply --unidiff-zero"))
	add("odd lines", fmt.Sprintf("%d lines that look like patch syntax or are blank, binary or not UTF-8, in pairs", len(oddLines)),
		func() []treeChange {
			var cs []treeChange
			for _, a := range oddLines {
				for _, b := range append([]string{"plain"}, oddLines...) {
					for _, p := range [][2]string{{"c\n" + a + "\nd\n", "c\n" + b + "\nd\n"}, {a, b}, {a + "\n" + b + "\nz\n", a + "\n" + b + "\nw\n"}} {
						if p[0] != p[1] {
							cs = append(cs, treeChange{gitTree{"f": textEntry(p[0])}, gitTree{"f": textEntry(p[1])}})
						}
					}
				}
			}
			return cs
		}, false, nil, o("--binary", "--full-index"), o("--text", "-U1"))
	sites := sel(tier, 4, 5)
	add("edits at several places", fmt.Sprintf("a text of 40 lines with each of %d sites kept, deleted, replaced or inserted at, with and without function lines", sites),
		func() []treeChange { return siteChanges(40, sites, 4) }, false, nil, o("-U1"), o("-U3"), o("--function-context"))
	add("entries", "every pair of entries at one path: absent, file, executable, link and submodule, empty, text and binary",
		modeChanges, false, nil, o("--binary", "--full-index"), o("-B", "--binary", "--full-index"))
	x, x2, x3, y := similarTexts()
	es := []gitEntry{textEntry(x), textEntry(x2), textEntry(y)}
	paths := []string{"p", "q/r", "s t"}
	if tier != "thorough" {
		paths = paths[1:]
		es = append(es, gitEntry{0o100755, x3})
	}
	ren := [][]string{o("-M"), o("-C", "-C"), o("-B"), o("-B", "-M"), o("-B", "-C", "-C", "--full-index")}
	add("renames and copies", fmt.Sprintf("every change between assignments of %d similar contents (or none) to %d paths", len(es), len(paths)),
		func() []treeChange { return fileSets(paths, es) }, false, nil, ren...)
	mixed := []gitEntry{textEntry("b\x00" + x), {0o100755, "b\x00" + x2}, {0o100755, x}, textEntry("")}
	add("renames of binary, executable and empty files", fmt.Sprintf("every change between assignments of %d contents (or none) to two paths", len(mixed)),
		func() []treeChange { return fileSets([]string{"p", "q"}, mixed) }, false, nil,
		o("-M", "--binary", "--full-index"), o("-B", "-M", "--binary", "--full-index"), o("-C", "-C", "--binary", "--full-index"))
	add("files and directories", "every change between assignments of 2 contents (or none) to the paths p, p/x, p.c",
		func() []treeChange {
			return fileSets([]string{"p", "p/x", "p.c"}, []gitEntry{textEntry(x), textEntry(x2)})
		}, false, nil, o(), o("-M"))
	add("names", fmt.Sprintf("16 changes of files with each of %d odd names at the root", len(oddPaths)),
		func() []treeChange { return nameChanges(namePairs(oddPaths)[:3*len(oddPaths)]) }, true, nil, sel(tier, [][]string{o("-M", "--binary", "--full-index")}, [][]string{o("-M", "--binary", "--full-index"), o("-C", "-C", "-c core.quotePath=false", "--binary", "--full-index")})...)
	add("bytes in names and contents", "every byte value in a name (changed, created, removed, renamed, copied) and in a changed line",
		func() []treeChange {
			var cs []treeChange
			for i := 1; i < 256; i++ {
				b := string([]byte{byte(i)})
				if b != "/" && b != "." {
					cs = append(cs, nameChanges([][2]string{{b, "x" + b + "y"}, {"d" + b + "/" + b + "f", "e" + b}})...)
				}
				cs = append(cs, treeChange{gitTree{"f": textEntry("c\n" + b + "\nd\n")}, gitTree{"f": textEntry("c\n" + b + b + "\nd" + b)}})
			}
			return cs
		}, false, nil, o("-C", "-C", "--binary", "--full-index"))
	sizes := sel(tier, []int{0, 1, 51, 52, 53, 1000, 70000}, []int{0, 1, 2, 3, 4, 5, 51, 52, 53, 103, 104, 105, 1000, 4096, 8191, 65536, 70000, 300000})
	add("binary contents", fmt.Sprintf("all pairs of contents of %d sizes: noise, zeros, noise with a tail, noise with an insertion, and one text", len(sizes)),
		func() []treeChange { return pairs("f", append(binaryTexts(sizes), x)) }, false, nil, o("--binary", "--full-index"))
	step := sel(tier, 10, 3)
	add("rewrites", fmt.Sprintf("texts of 60 lines of which every %d. share is kept, the rest replaced by as many, more or fewer lines: alone, with a mode change, without a final newline, moved or swapped with another path, as text and as binary", step),
		func() []treeChange { return rewriteChanges(60, step) }, false, nil,
		o("-B1%/1%", "--binary", "--full-index"), o("-B", "-M", "-C", "-C", "--binary", "--full-index"), o("-B30%/1%", "-M", "--binary", "--full-index"))
	whole := func() []treeChange {
		cs := pairs("f", lineTexts(abc, 2))
		for _, s := range lineTexts(abc, 2) {
			if s != "" { // an empty file has no traditional patch
				cs = append(cs, treeChange{gitTree{}, gitTree{"n": textEntry(s)}}, treeChange{gitTree{"n": textEntry(s)}, gitTree{}})
			}
		}
		return append(cs, siteChanges(40, 3, 4)...)
	}
	for style, name := range []string{"traditional patches", "traditional patches with time stamps"} {
		add(name, "pairs of texts of up to 2 lines, creations and deletions, edits at up to 3 places, rewritten as diff -u writes them", whole, false, traditional(style), o("-U1"), o("-U3"))
	}
	return ss
}
