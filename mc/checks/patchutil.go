package checks

import (
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// libFile converts a model file to the library's type.
func libFile(m *ref.File) *gitdiff.File {
	f := &gitdiff.File{
		OldName: m.OldName, NewName: m.NewName,
		IsNew: m.IsNew, IsDelete: m.IsDelete, IsCopy: m.IsCopy, IsRename: m.IsRename,
		OldMode: os.FileMode(m.OldMode), NewMode: os.FileMode(m.NewMode),
		OldOIDPrefix: m.OldOID, NewOIDPrefix: m.NewOID, Score: m.Score,
		IsBinary:       m.IsBinary,
		BinaryFragment: libBinary(m.Fwd), ReverseBinaryFragment: libBinary(m.Rev),
	}
	for _, h := range m.Hunks {
		f.TextFragments = append(f.TextFragments, fragmentOf(h))
	}
	return f
}

func libBinary(s *ref.BinarySection) *gitdiff.BinaryFragment {
	if s == nil {
		return nil
	}
	f := &gitdiff.BinaryFragment{Size: s.Size, RawData: s.Data, Method: gitdiff.BinaryPatchLiteral}
	if s.Method == "delta" {
		f.Method = gitdiff.BinaryPatchDelta
	}
	return f
}

// verifyParse compares Parse with the reference parser on one input.
func verifyParse(t *engine.T, text string) *ref.Patch {
	t.Trace()
	want := ref.ParsePatch(text)
	if want.Unspecified != "" {
		t.Outcome("unspecified: " + want.Unspecified)
		return want
	}
	files, preamble, err := gitdiff.Parse(strings.NewReader(text))
	if want.Err {
		t.Outcome("rejected: " + want.Why)
		if err == nil {
			t.Fail("accepted", "malformed input accepted (%s) as %d files\n%s", want.Why, len(files), q(text))
		}
	} else {
		t.Outcome("accepted")
		if err != nil {
			t.Fail("refused", "valid input rejected: %v\n%s", err, q(text))
		}
	}
	wf := make([]*gitdiff.File, len(want.Files))
	for i, m := range want.Files {
		wf[i] = libFile(m)
	}
	if d := diffFileLists(files, wf); d != "" {
		t.Fail("content", "parsed content (got versus want): %s\n%s", d, q(text))
	}
	if (!want.Err || len(want.Files) > 0) && preamble != want.Preamble {
		t.Fail("preamble", "preamble %s, want %s\n%s", q(preamble), q(want.Preamble), q(text))
	}
	return want
}
