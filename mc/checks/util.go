package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"

	"verif/mc/engine"
	"verif/mc/ref"
)

// kindOf converts between model and library line operations.
func kindOf(op gitdiff.LineOp) byte {
	switch op {
	case gitdiff.OpContext:
		return ' '
	case gitdiff.OpDelete:
		return '-'
	case gitdiff.OpAdd:
		return '+'
	}
	return '?'
}

func opOf(kind byte) gitdiff.LineOp {
	switch kind {
	case ' ':
		return gitdiff.OpContext
	case '-':
		return gitdiff.OpDelete
	case '+':
		return gitdiff.OpAdd
	}
	panic("engine: bad kind")
}

// fragmentOf builds the library value of a model hunk.
func fragmentOf(h *ref.Hunk) *gitdiff.TextFragment {
	f := &gitdiff.TextFragment{
		Comment:     h.Comment,
		OldPosition: h.OldPos, OldLines: h.OldN,
		NewPosition: h.NewPos, NewLines: h.NewN,
		Lines: make([]gitdiff.Line, 0, len(h.Body)),
	}
	changed := false
	for _, o := range h.Body {
		switch o.Kind {
		case ' ':
			if changed {
				f.TrailingContext++
			} else {
				f.LeadingContext++
			}
		case '-':
			f.LinesDeleted++
			f.TrailingContext = 0
			changed = true
		case '+':
			f.LinesAdded++
			f.TrailingContext = 0
			changed = true
		}
		f.Lines = append(f.Lines, gitdiff.Line{Op: opOf(o.Kind), Line: o.Text})
	}
	return f
}

func fileOf(hs []*ref.Hunk) *gitdiff.File {
	f := &gitdiff.File{OldName: "f", NewName: "f"}
	for _, h := range hs {
		f.TextFragments = append(f.TextFragments, fragmentOf(h))
	}
	return f
}

// patchText writes hunks under a header. style 0: git, 1: git with index line,
// 2: traditional.
func patchText(hs []*ref.Hunk, style int, short bool) string {
	var b strings.Builder
	switch style {
	case 0:
		b.WriteString("diff --git a/f b/f\n--- a/f\n+++ b/f\n")
	case 1:
		b.WriteString("diff --git a/f b/f\nindex 0123456..789abcd 100644\n--- a/f\n+++ b/f\n")
	default:
		b.WriteString("--- f\t2020-01-02 03:04:05.000000000 +0000\n+++ f\t2020-01-02 03:04:06.000000000 +0000\n")
	}
	for _, h := range hs {
		ref.WriteHunk(&b, h, short)
	}
	return b.String()
}

// parseOne parses a patch that must hold exactly one file.
func parseOne(t *engine.T, patch string) *gitdiff.File {
	files, _, err := gitdiff.Parse(strings.NewReader(patch))
	if err != nil {
		t.Fail("parse", "valid patch rejected: %v\npatch:\n%s", err, patch)
	}
	if len(files) != 1 {
		t.Fail("parse", "expected one file, got %d\npatch:\n%s", len(files), patch)
	}
	return files[0]
}

// applyTo applies f to src with plain standard library endpoints.
func applyTo(src string, f *gitdiff.File, opts ...gitdiff.ApplyOption) (string, error) {
	var dst bytes.Buffer
	err := gitdiff.Apply(&dst, strings.NewReader(src), f, opts...)
	return dst.String(), err
}

func isConflict(err error) bool { return errors.Is(err, &gitdiff.Conflict{}) }

func q(s string) string {
	if len(s) > 700 {
		return fmt.Sprintf("%q...(%d bytes)...%q", s[:300], len(s), s[len(s)-300:])
	}
	return fmt.Sprintf("%q", s)
}

func hunksString(hs []*ref.Hunk) string {
	var b strings.Builder
	for _, h := range hs {
		b.WriteString(fmt.Sprintf("@@ -%d,%d +%d,%d @@ ", h.OldPos, h.OldN, h.NewPos, h.NewN))
		for i, o := range h.Body {
			if i > 30 {
				fmt.Fprintf(&b, "...(%d)", len(h.Body))
				break
			}
			fmt.Fprintf(&b, "%c%s ", o.Kind, q(o.Text))
		}
	}
	return b.String()
}

// cloneFile makes a deep copy.
func cloneFile(f *gitdiff.File) *gitdiff.File {
	if f == nil {
		return nil
	}
	c := *f
	if f.TextFragments != nil {
		c.TextFragments = make([]*gitdiff.TextFragment, len(f.TextFragments))
		for i, fr := range f.TextFragments {
			c.TextFragments[i] = cloneText(fr)
		}
	}
	c.BinaryFragment = cloneBin(f.BinaryFragment)
	c.ReverseBinaryFragment = cloneBin(f.ReverseBinaryFragment)
	return &c
}

func cloneText(fr *gitdiff.TextFragment) *gitdiff.TextFragment {
	if fr == nil {
		return nil
	}
	x := *fr
	x.Lines = append([]gitdiff.Line(nil), fr.Lines...)
	return &x
}

func cloneBin(b *gitdiff.BinaryFragment) *gitdiff.BinaryFragment {
	if b == nil {
		return nil
	}
	x := *b
	x.RawData = append([]byte(nil), b.RawData...)
	return &x
}

// diffFiles describes the first difference between two files, "" if equal. It
// compares every exported field; nil and empty slices are the same value.
func diffFiles(a, b *gitdiff.File) string {
	return diffValue("File", reflect.ValueOf(a), reflect.ValueOf(b))
}

func diffValue(path string, a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil=%v versus nil=%v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diffValue(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !a.Type().Field(i).IsExported() {
				continue
			}
			if d := diffValue(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d versus %d", path, a.Len(), b.Len())
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return fmt.Sprintf("%s: bytes differ: %.60x versus %.60x", path, a.Bytes(), b.Bytes())
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffValue(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
		return ""
	default:
		if !a.Equal(b) {
			return fmt.Sprintf("%s: %#v versus %#v", path, a.Interface(), b.Interface())
		}
		return ""
	}
}

func diffFileLists(a, b []*gitdiff.File) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d files versus %d", len(a), len(b))
	}
	for i := range a {
		if d := diffFiles(a[i], b[i]); d != "" {
			return fmt.Sprintf("file %d: %s", i, d)
		}
	}
	return ""
}

func readAll(r io.Reader) (string, error) {
	b, err := io.ReadAll(r)
	return string(b), err
}

// boundaries lists sizes around powers of two up to 1<<maxBits.
func boundaries(minBits, maxBits int) []int {
	var out []int
	for k := minBits; k <= maxBits; k++ {
		out = append(out, 1<<k-1, 1<<k, 1<<k+1)
	}
	return out
}

func upTo(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func around(xs ...int) []int {
	var out []int
	for _, x := range xs {
		out = append(out, x-1, x, x+1)
	}
	return out
}

// pieces is a reader that gives k bytes at a time.
type pieces struct {
	s string
	k int
}

func (r *pieces) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), r.k)], r.s)
	r.s = r.s[n:]
	return n, nil
}
