package checks

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
)

func init() {
	register(&Check{
		ID: "C25", Title: "identities split exactly",
		Assumptions: []string{
			"addresses without white space, brackets, parentheses or quotes (other than the tested quoted local parts)",
			"a name that contains @, < or > is replaced by the address, as git mailinfo does",
			"a name that as a whole is enclosed in parentheses is a comment",
		},
		Scenarios: c25,
	})
}

func collapse(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\t' || r == '\r' || r == '\n' }), " ")
}

// expectIdentity gives the identity for a name value and an address; ok is
// false if the name is outside of what the property determines.
func expectIdentity(name, email string, comment bool) (id gitdiff.PatchIdentity, err, ok bool) {
	name = collapse(name)
	if len(name) >= 2 && name[0] == '(' && name[len(name)-1] == ')' {
		if !comment {
			return id, false, false
		}
		name = collapse(name[1 : len(name)-1])
	}
	if name == "" || strings.ContainsAny(name, "@<>") {
		name = email
	}
	return gitdiff.PatchIdentity{Name: name, Email: email}, name == "" && email == "", true
}

func verifyIdentity(t *engine.T, in string, want gitdiff.PatchIdentity, wantErr bool) {
	t.Trace()
	got, err := gitdiff.ParsePatchIdentity(in)
	if wantErr {
		t.Outcome("error")
		if err == nil {
			t.Fail("accepted", "%q accepted as %+v", in, got)
		}
		return
	}
	t.Outcome("identity")
	if err != nil {
		t.Fail("refused", "%q refused: %v", in, err)
	}
	if got != want {
		t.Fail("identity", "%q gives name %q email %q, want name %q email %q", in, got.Name, got.Email, want.Name, want.Email)
	}
}

type rv struct{ raw, val string }

// gitQuote writes a display name as git does in mail headers.
func gitQuote(n string) string {
	if !strings.ContainsAny(n, "()<>@,;:\\\".[]") {
		return n
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(n) + `"`
}

// crud reports whether git would strip this byte from the ends of a name.
func crud(c byte) bool { return c <= 32 || strings.IndexByte(`.,:;<>"\'`, c) >= 0 }

var gitEmails = []string{"a@b", "first.last+tag@sub.example.com", "a@b@c", "\xc3\xbc@x.org", "12345+dependabot[bot]@users.noreply.github.com", "o'neil@x", "a,b@c", "local", "", "@", "a@", "@b", "a=b@c", "a\\b@c"}

func c25(tier string) []engine.Scenario {
	var ss []engine.Scenario
	words := []string{"Bob", "J.", "O'Neil", "\xc3\xbc", "x", ",", "[bot]", "(III)", "-", "=", "\\", "\"", ":", "ü#", "@", "u@h", "=?"}
	nw := sel(tier, 4, 5)
	gaps := []string{" ", ""}
	ss = append(ss, engine.Scenario{
		Name:  "names as git writes them",
		Bound: fmt.Sprintf("all names of 0..%d of %d word tokens, joined or separated by a space, x %d addresses, written raw (git log) and quoted (git format-patch), and PatchIdentity.String of plain ones", nw, len(words), len(gitEmails)),
		Run: func(t *engine.T) {
			n := t.Choose(nw + 1)
			name := ""
			for i := 0; i < n; i++ {
				if i > 0 {
					name += engine.Pick(t, gaps)
				}
				name += engine.Pick(t, words)
			}
			if n > 0 && (crud(name[0]) || crud(name[len(name)-1])) {
				t.Skip() // git strips such characters when it stores a name
			}
			for _, email := range gitEmails {
				if strings.Contains(name, "@") && !strings.Contains(email, "@") {
					continue
				}
				raw := name + " <" + email + ">"
				t.Desc(func() string { return q(raw) })
				if want, e, ok := expectIdentity(name, email, false); ok {
					if !strings.ContainsAny(name, `"`) && !(strings.Contains(name, `\`) && strings.Contains(name, "(")) {
						verifyIdentity(t, raw, want, e)
						if !e && !strings.ContainsAny(name, `\@`) && name != "" {
							id := gitdiff.PatchIdentity{Name: name, Email: email}
							verifyIdentity(t, id.String(), id, false)
						}
					}
					verifyIdentity(t, gitQuote(name)+" <"+email+">", want, e)
				}
			}
			if name == "" {
				for _, email := range gitEmails {
					if email == "" {
						continue
					}
					id := gitdiff.PatchIdentity{Email: email}
					verifyIdentity(t, id.String(), gitdiff.PatchIdentity{Name: email, Email: email}, false)
				}
			}
			t.State(name)
		},
	})
	// RFC 5322 forms
	qtoks := []rv{{"a", "a"}, {" ", " "}, {`\"`, `"`}, {`\\`, `\`}, {"(", "("}, {")", ")"}, {`\)`, ")"}, {"[,]", "[,]"}, {`\a`, "a"}, {"@", "@"}, {"<", "<"}, {">", ">"}}
	ctoks := []rv{{"c", "c"}, {" ", " "}, {`\(`, "("}, {`\)`, ")"}, {"(d)", "(d)"}, {`"`, `"`}, {`\\`, `\`}, {`\x`, "x"}}
	addrs := []rv{{"<a@b.c>", "a@b.c"}, {"<12+x[bot]@y>", "12+x[bot]@y"}, {`<"q\+\[1\]"@x>`, "q+[1]@x"}, {`<"m.n"@x>`, "m.n@x"}, {"<loc>", "loc"}, {"< loc >", "loc"}, {"<>", ""}, {"a@b.c", "a@b.c"}, {`"q\\r"@x`, `q\r@x`}}
	seps := []string{" ", "  ", "\t", "\r\n ", ""}
	dq := sel(tier, 4, 5)
	ss = append(ss, engine.Scenario{
		Name:  "quoted strings",
		Bound: fmt.Sprintf("every quoted string of 0..%d of %d tokens, alone or beside a word, before each bracketed address, with 5 separators", dq, len(qtoks)),
		Run: func(t *engine.T) {
			raw, val := `"`, ""
			for i, n := 0, t.Choose(dq+1); i < n; i++ {
				k := engine.Pick(t, qtoks)
				raw, val = raw+k.raw, val+k.val
			}
			raw += `"`
			switch t.Choose(4) {
			case 1:
				raw, val = "W "+raw, "W "+val
			case 2:
				raw, val = raw+" W", val+" W"
			case 3:
				raw, val = "W"+raw+`"v"`, "W"+val+"v"
			}
			for _, a := range addrs[:7] {
				for _, sep := range seps {
					if strings.ContainsAny(val, "<>") && !(a.val != "" && strings.Contains(a.val, "@") && !strings.Contains(val, ">")) {
						continue // the address would be ambiguous after unquoting
					}
					if strings.Contains(val, "@") && !strings.Contains(a.val, "@") {
						continue
					}
					in := raw + sep + a.raw
					t.Desc(func() string { return q(in) })
					if want, e, ok := expectIdentity(val, a.val, false); ok {
						verifyIdentity(t, in, want, e)
					}
				}
			}
			t.State(raw)
		},
	})
	dc := sel(tier, 4, 5)
	ss = append(ss, engine.Scenario{
		Name:  "comments",
		Bound: fmt.Sprintf("every comment of 0..%d of %d tokens as the name of a bare address (before or after it), or after a name and address, or between them", dc, len(ctoks)),
		Run: func(t *engine.T) {
			raw, val := "(", "("
			for i, n := 0, t.Choose(dc+1); i < n; i++ {
				k := engine.Pick(t, ctoks)
				raw, val = raw+k.raw, val+k.val
			}
			raw, val = raw+")", val+")"
			for _, a := range addrs {
				for _, sep := range seps[:4] {
					check := func(in, name string, comment bool) {
						t.Desc(func() string { return q(in) })
						if want, e, ok := expectIdentity(name, a.val, comment); ok {
							verifyIdentity(t, in, want, e)
						}
					}
					bracket := a.raw[0] == '<'
					at := strings.Contains(a.val, "@")
					if at {
						check(a.raw+sep+raw, val, true)
						check(raw+sep+a.raw, val, true)
					}
					if bracket {
						check("Bob"+sep+raw+sep+a.raw, "Bob "+val, false)
						check(`"B, Jr"`+sep+raw+a.raw, "B, Jr "+val, false)
					}
					if bracket && at {
						check("Bob"+sep+a.raw+sep+raw, "Bob "+val, false)
						check("Bob "+a.raw+raw, "Bob "+val, false)
					}
				}
			}
			t.State(raw)
		},
	})
	elems := []rv{{"Bob", "Bob"}, {`"B \"x\" (y)"`, `B "x" (y)`}, {`""`, ""}, {"(c)", "(c)"}, {`(d \) \\)`, `(d ) \)`}, {`\`, `\`}, {`"\\"`, `\`}, {"'", "'"}, {"[b]", "[b]"}, {`"a` + "\t\n" + `b"`, "a b"}}
	ne := sel(tier, 3, 4)
	ss = append(ss, engine.Scenario{
		Name:  "element sequences",
		Bound: fmt.Sprintf("all sequences of 0..%d of %d words, quoted strings and comments with an address at every place among them, x separators, with white space around", ne, len(elems)),
		Run: func(t *engine.T) {
			n := t.Choose(ne + 1)
			at := t.Choose(n + 1)
			a := engine.Pick(t, addrs)
			bare := a.raw[0] != '<'
			if bare && n > 0 || at < n && !strings.Contains(a.val, "@") {
				t.Skip()
			}
			raw, val := "", ""
			comment := true
			sep := func(i int) {
				if i == 0 {
					return
				}
				s := engine.Pick(t, sel(tier, []string{" ", "\r\n ", ""}, seps))
				raw += s
				if s != "" {
					val += " "
				}
			}
			for i := 0; i <= n; i++ {
				sep(i)
				if i == at {
					raw += a.raw
					if i == n {
						break
					}
					raw += " "
					val += " "
				}
				if i < n {
					e := engine.Pick(t, elems)
					raw, val = raw+e.raw, val+e.val
					if e.raw[0] != '(' || n > 1 {
						comment = false
					}
				}
			}
			raw = engine.Pick(t, []string{"", " ", "\t\r\n "}) + raw + engine.Pick(t, []string{"", "  ", "\n"})
			t.Desc(func() string { return q(raw) })
			t.State(raw)
			want, e, ok := expectIdentity(val, a.val, comment && n == 1)
			if !ok {
				t.Skip()
			}
			verifyIdentity(t, raw, want, e)
		},
	})
	alpha := "ab@<> \t"
	nl := sel(tier, 7, 8)
	ss = append(ss, engine.Scenario{
		Name:  "missing parts",
		Bound: fmt.Sprintf("all strings of up to %d characters of %q: an error exactly if there is neither name nor address", nl, alpha),
		Run: func(t *engine.T) {
			n := t.Choose(nl + 1)
			b := make([]byte, n)
			for i := range b {
				b[i] = alpha[t.Choose(len(alpha))]
			}
			s := string(b)
			t.Desc(func() string { return q(s) })
			t.Trace()
			got, err := gitdiff.ParsePatchIdentity(s)
			if strings.Contains(s, "@") {
				t.Outcome("has @")
				if err != nil || !strings.Contains(got.Email, "@") || got.Name == "" {
					t.Fail("refused", "%q gives %+v, %v", s, got, err)
				}
				return
			}
			name, email, open := strings.Cut(s, "<")
			email, _, closed := strings.Cut(email, ">")
			if !open || !closed {
				t.Outcome("no address")
				if err == nil {
					t.Fail("accepted", "%q has no address but gives %+v", s, got)
				}
				return
			}
			name, email = collapse(name), collapse(email)
			if name == "" && email == "" {
				t.Outcome("both empty")
				if err == nil {
					t.Fail("accepted", "%q has no name and address but gives %+v", s, got)
				}
				return
			}
			t.Outcome("some part")
			want, e, _ := expectIdentity(name, email, false)
			if strings.ContainsAny(name, "<>") && email == "" {
				return
			}
			verifyIdentity(t, s, want, e)
		},
	})
	ss = append(ss, engine.Scenario{
		Name:  "every byte",
		Bound: "every pair of bytes inside a name and every byte inside an address, raw and quoted",
		Run: func(t *engine.T) {
			a, b := byte(t.Choose(256)), byte(t.Choose(256))
			raw := "x" + string([]byte{a, b}) + "y"
			bad := func(c byte, set string) bool { return c == 0 || c == '\n' || strings.IndexByte(set, c) >= 0 }
			t.Desc(func() string { return q(raw) })
			t.State(raw)
			if !bad(a, `"<>@()`) && !bad(b, `"<>@()`) {
				verifyIdentity(t, raw+" <e@f>", gitdiff.PatchIdentity{Name: collapse(raw), Email: "e@f"}, false)
			}
			if !bad(a, "<>@") && !bad(b, "<>@") {
				quoted := strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(raw)
				verifyIdentity(t, `"`+quoted+`" <e@f>`, gitdiff.PatchIdentity{Name: collapse(raw), Email: "e@f"}, false)
			}
			if !bad(a, "\"<>() \t\r") && !bad(b, "\"<>() \t\r") {
				verifyIdentity(t, "N <"+raw+"@f>", gitdiff.PatchIdentity{Name: "N", Email: raw + "@f"}, false)
				verifyIdentity(t, "N <e@"+raw+">", gitdiff.PatchIdentity{Name: "N", Email: "e@" + raw}, false)
				if strings.Contains(raw, "@") {
					verifyIdentity(t, raw, gitdiff.PatchIdentity{Name: raw, Email: raw}, false)
				} else {
					verifyIdentity(t, "N <"+raw+">", gitdiff.PatchIdentity{Name: "N", Email: raw}, false)
				}
			}
		},
	})
	return ss
}
