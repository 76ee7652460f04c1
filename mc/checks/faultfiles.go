package checks

import (
	"strings"
	"sync"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/ref"
)

var faultOnce struct {
	sync.Once
	f []*gitdiff.File
	s []string
	n []string
}

// faultFiles are patches that apply to their source, of every kind.
func faultFiles() ([]*gitdiff.File, []string, []string) {
	faultOnce.Do(func() {
		add := func(n string, f *gitdiff.File, s string) {
			faultOnce.f, faultOnce.s, faultOnce.n = append(faultOnce.f, f), append(faultOnce.s, s), append(faultOnce.n, n)
		}
		hunks := func(step, n int) []*ref.Hunk {
			var hs []*ref.Hunk
			for i := 0; i < n; i++ {
				h, _ := hunkAt([]int{4, 0, 3}[i%3], 2+i*step)
				hs = append(hs, h)
			}
			return hs
		}
		add("text", fileOf(hunks(5, 3)), numbered(20))
		add("text, long source", fileOf(hunks(200, 3)), numbered(700))
		add("text, no final newline", fileOf(hunks(5, 1)), strings.TrimSuffix(numbered(9), "\n"))
		c := &ref.Hunk{OldPos: 0, NewPos: 1, Body: []ref.Op{{Kind: '+', Text: "a\n"}, {Kind: '+', Text: "b"}}}
		c.Count()
		f := fileOf([]*ref.Hunk{c})
		f.IsNew, f.OldName = true, ""
		add("create", f, "")
		d := &ref.Hunk{OldPos: 1, NewPos: 0, Body: []ref.Op{{Kind: '-', Text: "l0\n"}, {Kind: '-', Text: "l1\n"}}}
		d.Count()
		f = fileOf([]*ref.Hunk{d})
		f.IsDelete, f.NewName = true, ""
		add("delete", f, numbered(2))
		add("copy", &gitdiff.File{OldName: "a", NewName: "b", IsRename: true}, numbered(30))
		add("copy, long", &gitdiff.File{OldName: "a", NewName: "b", IsRename: true}, numbered(15000))
		add("literal", &gitdiff.File{IsBinary: true, BinaryFragment: binFrag(gitdiff.BinaryPatchLiteral, []byte("hello world"))}, "old")
		add("literal, long", &gitdiff.File{IsBinary: true, BinaryFragment: binFrag(gitdiff.BinaryPatchLiteral, []byte(numbered(15000)))}, "old")
		src := numbered(200)
		dl := deltaOf(int64(len(src)), 5+16+3+300, 0x90, 5, 0xb1, 7, 44, 1, 3, 'x', 'y', 'z', 0x93, byte(len(src)-16), byte((len(src)-16)>>8), 16)
		add("delta", &gitdiff.File{IsBinary: true, BinaryFragment: binFrag(gitdiff.BinaryPatchDelta, dl)}, src)
	})
	return faultOnce.f, faultOnce.s, faultOnce.n
}
