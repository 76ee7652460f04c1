package checks

import (
	"fmt"
	"io"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

var faultKinds = []string{"plain", "wrapping io.EOF", "wrapped"}
var partials = []string{"nothing", "one unit", "half", "everything", "all but one"}

func init() {
	register(&Check{
		ID: "C07", Title: "reporting of I/O failures", Level: "fault_enumeration",
		Rule: "for each patch, endpoint kind and driver the fault-free run counts the calls; then one execution is made for every call index, error value, amount transferred and permanence of the failure. Distinct: distinct (patch, driver, call index, error value, amount, permanence); non-trivial: the fault fired in the execution (others are discarded).",
		Assumptions: []string{
			"a conforming destination: a short write comes with an error",
			"a source signals the end of its data with io.EOF itself, every other error is a failure",
		},
		Scenarios: func(tier string) []engine.Scenario {
			uf, us, un := faultFiles()
			cases := applyCases([]int{0, 1, 5, 1024})
			if tier == "thorough" {
				cases = applyCases([]int{0, 1, 2, 3, 5, 9, 1023, 1024, 1025, 2048, 5000, 33000})
			}
			for i := range uf {
				cases = append(cases, applyCase{name: un[i], src: us[i], f: uf[i], ok: true})
			}
			// drivers: 0 Apply, 1 applier calls one by one
			endpoints := func(e *env, c applyCase, line int, sw bool) (io.ReaderAt, io.Writer) {
				var s io.ReaderAt = &envSource{e: e, data: c.src}
				if line == 1 {
					s = &envLineSource{envSource{e: e, data: c.src}, ref.Lines(c.src)}
				}
				if sw {
					return s, &stringWriter{envWriter{e: e}}
				}
				return s, &envWriter{e: e}
			}
			// drive runs the patch and returns, for each call into the
			// library, its error and whether the fault fired during it.
			drive := func(t *engine.T, e *env, c applyCase, line int, driver int, sw bool) {
				s, w := endpoints(e, c, line, sw)
				step := func(what string, call func() error) bool {
					before := e.fired
					err := call()
					if e.fired > before {
						if err == nil {
							t.Fail("swallowed", "%s: %s reported success although a call failed: %v", c.name, what, e.log)
						}
						if !hasFault(err) {
							t.Fail("replaced", "%s: %s returned %v, which does not hold the failure: %v", c.name, what, err, e.log)
						}
						if isConflict(err) {
							t.Fail("conflict", "%s: %s reported an I/O failure as a conflict: %v: %v", c.name, what, err, e.log)
						}
						return false
					}
					return err == nil
				}
				if driver == 0 {
					step("Apply", func() error { return gitdiff.Apply(w, s, c.f) })
					return
				}
				if c.f.IsBinary {
					a := gitdiff.NewBinaryApplier(w, s)
					step("ApplyFragment", func() error { return a.ApplyFragment(c.f.BinaryFragment) })
					step("Close", a.Close)
					return
				}
				a := gitdiff.NewTextApplier(w, s)
				for i, fr := range c.f.TextFragments {
					// continue after a failure: later calls must report
					// their own failures too
					step(fmt.Sprintf("ApplyFragment %d", i), func() error { return a.ApplyFragment(fr) })
				}
				step("Close", a.Close)
			}
			count := func(c applyCase, line, driver int, sw bool) int {
				e := &env{failAt: -1}
				drive(nil, e, c, line, driver, sw)
				return e.calls
			}
			return []engine.Scenario{
				{
					Name:  "single-fault",
					Bound: fmt.Sprintf("%d patches x 2 source kinds x 2 destination kinds x 2 drivers x every call index x %d error values x %d amounts transferred x transient/permanent", len(cases), len(faultKinds), len(partials)),
					Run: func(t *engine.T) {
						c := cases[t.Choose(len(cases))]
						line, driver, sw := t.Choose(2), t.Choose(2), t.Bool()
						n := count(c, line, driver, sw)
						if n == 0 {
							t.Skip()
						}
						e := &env{}
						if n > 200 && tier != "thorough" {
							// first and last 60 calls, and every 7th
							i := t.Choose(120 + n/7)
							switch {
							case i < 60:
								e.failAt = i
							case i < 120:
								e.failAt = n - 1 - (i - 60)
							default:
								e.failAt = (i - 120) * 7
							}
						} else {
							e.failAt = t.Choose(n)
						}
						e.kind, e.partial, e.sticky = t.Choose(len(faultKinds)), t.Choose(len(partials)), t.Bool()
						t.Desc(func() string {
							return fmt.Sprintf("%s line=%d driver=%d: call %d of %d fails (%s, transfers %s, permanent=%v) %v", c.name, line, driver, e.failAt, n, faultKinds[e.kind], partials[e.partial], e.sticky, e.log)
						})
						drive(t, e, c, line, driver, sw)
						if e.fired == 0 {
							t.Skip()
						}
						t.Trace()
						t.State(c.name, fmt.Sprint(line, driver, sw, e.failAt, e.kind, e.partial, e.sticky))
						t.Outcome("reported")
					},
				},
			}
		},
	})
}
