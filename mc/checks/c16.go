package checks

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C16", Title: "traditional unified diffs",
		Assumptions: []string{"timestamps in the POSIX form GNU diff writes; comma fractions and one-digit hours are outside the claim", "hunks that contradict the kind of change are outside the claim", "reference: ref.ParsePatch"},
		Scenarios:   c16,
	})
}

// stampsFor writes an instant in the POSIX spellings for a zone offset.
func posixStamp(sec int64, frac string, off int, colon bool) string {
	tm := time.Unix(sec, 0).In(time.FixedZone("", off*60))
	z := tm.Format("-0700")
	if colon {
		z = tm.Format("-07:00")
	}
	return tm.Format("2006-01-02 15:04:05") + frac + " " + z
}

func c16(tier string) []engine.Scenario {
	bodies := []string{"@@ -1 +1 @@\n-a\n+b\n", "@@ -0,0 +1,2 @@\n+a\n+b\n", "@@ -1,2 +0,0 @@\n-a\n-b\n", "@@ -5,3 +5,4 @@ ctx\n a\n b\n+c\n d\n", "junk\n", "", "\n", " @@ -1 +1 @@\n", "@@\n", "@@ -\n", "@@ -1 +1\n", "*** 1 ****\n", "Binary files f and g differ\n"}
	var ss []engine.Scenario
	offs := []int{}
	step := sel(tier, 15, 1)
	for o := -14 * 60; o <= 14*60; o += step {
		offs = append(offs, o)
	}
	offs = append(offs, -23*60-59, 23*60+59, -1, 1)
	fracs := []string{"", ".0", ".000", ".000000", ".000000000", ".1", ".000000001", ".999999999"}
	secs := []int64{0, 1, -1, 59, 60, -60, 3600, -3600, 86400, -86400, 1577934245, 1 << 31}
	ss = append(ss, engine.Scenario{
		Name:  "epoch stamps",
		Bound: fmt.Sprintf("%d instants x %d zone offsets x %d fractions x zone colon, on either or both sides, x 3 bodies", len(secs), len(offs), len(fracs)),
		Run: func(t *engine.T) {
			body := bodies[t.Choose(3)]
			side := t.Choose(3)
			st := posixStamp(engine.Pick(t, secs), engine.Pick(t, fracs), engine.Pick(t, offs), t.Bool())
			plain := "2020-01-02 03:04:05.000000000 +0000"
			a, b := plain, plain
			if side != 1 {
				a = st
			}
			if side != 0 {
				b = st
			}
			s := "--- old/f\t" + a + "\n+++ new/f\t" + b + "\n" + body
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	names := []string{"f", "f~", "f.orig", "dir/f", "dir/f.bak", "/abs/f", "/abs/fx", "x y", "x y z", "\"q\\\"x\"", "\"q\\\"xy\"", "\"t\\tb\"", "\"\\377\"", "/dev/null", "\"/dev/null\"", "a/f", "b/f", "x", "\"\"", "", "/dev/nullx", "dev/null", "\"f", "f\"g", "F", "./f", "../f"}
	stamps := []string{"", "\t", "\t1970-01-01 00:00:00.000000000 +0000", "\t1970-01-01 01:00:00 +01:00", "\t2020-01-02 03:04:05.000000000 +0000", "\tThu Jan  1 00:00:00 1970", "\t1970-01-01", "\t(revision 12)", "\t1970-01-01 00:00:00 UTC", "\t1970-01-01 00:00:00 +0000\tx", "\tx\t1970-01-01 00:00:00 +0000", " 1970-01-01 00:00:00 +0000", "\t 1970-01-01 00:00:00 +0000", "\t1970-01-01 00:00:00 +0000 ", "\t1970-01-01 00:00:00  +0000", "\t1970-01-01 00:00:00", "\t1969-12-31 16:00:00 -0800", "\t1969-12-31 16:00:00 +0800"}
	if tier != "thorough" {
		stamps = stamps[:13]
	}
	ss = append(ss, engine.Scenario{
		Name:  "names and stamps",
		Bound: fmt.Sprintf("%d x %d names, %d x %d stamps, %d following lines", len(names), len(names), len(stamps), len(stamps), len(bodies)),
		Run: func(t *engine.T) {
			nbody := sel(tier, 7, len(bodies))
			s := "--- " + engine.Pick(t, names) + engine.Pick(t, stamps) + "\n+++ " + engine.Pick(t, names) + engine.Pick(t, stamps) + "\n" + bodies[t.Choose(nbody)]
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "following lines",
		Bound: "names x stamps from a short menu, every one of the following lines, with text before and a second pair after",
		Run: func(t *engine.T) {
			s := engine.Pick(t, []string{"", "diff -u a b\n", "Index: f\n=====\n", "--- x\n", "+++ y\n", "--- x\n+++ y\n", "Only in d: e\n"}) +
				"--- " + engine.Pick(t, names[:6]) + engine.Pick(t, stamps[:3]) + "\n+++ " + engine.Pick(t, names[:6]) + engine.Pick(t, stamps[:3]) + "\n" + engine.Pick(t, bodies) +
				engine.Pick(t, []string{"", "--- g\n+++ g\n@@ -1 +1 @@\n-a\n+b\n", "diff -u p q\n--- p\n+++ q\n@@ -1 +1 @@\n-a\n+b\n", "junk\n", "--- g\n"})
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	// prefix rule: all short pairs
	al := []string{"a", "b", "/", " ", "~", "."}
	pl := sel(tier, 3, 4)
	pick := func(t *engine.T) string {
		n := engine.Pick(t, al)
		for i := 1; i < pl; i++ {
			c := t.Choose(len(al) + 1)
			if c == 0 {
				break
			}
			n += al[c-1]
		}
		return n
	}
	ss = append(ss, engine.Scenario{
		Name:  "name prefixes",
		Bound: fmt.Sprintf("all pairs of names of up to %d of %d characters", pl, len(al)),
		Run: func(t *engine.T) {
			s := "--- " + pick(t) + "\n+++ " + pick(t) + "\t2020-01-01 00:00:00 +0000\n" + bodies[0]
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	// every byte in a name
	ss = append(ss, engine.Scenario{
		Name:  "name bytes",
		Bound: "every pair of bytes in the old, the new or both bare names",
		Run: func(t *engine.T) {
			n := "n" + string([]byte{byte(t.Choose(256)), byte(t.Choose(256))})
			if strings.Contains(n, "\n") {
				t.Skip()
			}
			a, b := n, n
			switch t.Choose(3) {
			case 0:
				a = "other"
			case 1:
				b = "other"
			}
			s := "--- " + a + "\n+++ " + b + "\n" + bodies[0]
			t.Desc(func() string { return q(s) })
			t.State(s)
			verifyParse(t, s)
		},
	})
	return ss
}
