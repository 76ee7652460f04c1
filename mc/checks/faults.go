package checks

import (
	"errors"
	"fmt"
	"io"
)

// An injected fault.
type faultError struct{ id int }

func (e *faultError) Error() string { return fmt.Sprintf("injected fault %d", e.id) }

// faultOf makes one of several error values with the fault in its chain.
func faultOf(kind, id int) error {
	f := &faultError{id}
	switch kind {
	case 1:
		// a failure that mentions io.EOF in its chain, as network and
		// archive sources produce, is still a failure: io.EOF itself is the
		// only end-of-input signal.
		return fmt.Errorf("connection lost: %w: %w", f, io.EOF)
	case 2:
		return fmt.Errorf("wrapped: %w", f)
	}
	return f
}

func hasFault(err error) bool {
	var f *faultError
	return errors.As(err, &f)
}

// env answers every ReadAt, ReadLinesAt and Write of one execution and can
// fail one of them.
type env struct {
	calls   int // calls so far
	failAt  int // index of the failing call, -1 for none
	partial int // what a failing call transfers: 0 nothing, 1 one unit, 2 half, 3 everything (lines: all but one), 4 all but one
	kind    int // error value
	sticky  bool
	fired   int
	log     []string
	onCall  func()
}

func (e *env) call(what string) error {
	i := e.calls
	e.calls++
	if e.onCall != nil {
		e.onCall()
	}
	if e.failAt >= 0 && (i == e.failAt || (e.sticky && i > e.failAt)) {
		e.fired++
		e.log = append(e.log, fmt.Sprintf("%d:%s fails", i, what))
		return faultOf(e.kind, i)
	}
	return nil
}

func (e *env) share(n int, all bool) int {
	switch e.partial {
	case 1:
		if n > 1 || (all && n == 1) {
			return 1
		}
	case 2:
		return n / 2
	case 3:
		if all {
			return n
		}
		fallthrough
	case 4:
		if n > 0 {
			return n - 1
		}
	}
	return 0
}

// envSource is a conforming io.ReaderAt over data.
type envSource struct {
	e    *env
	data string
	// eof, if set, decides whether a full read ending at the end of the data
	// also returns io.EOF.
	eof func() bool
}

func (s *envSource) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("envSource: negative offset")
	}
	n := 0
	if off < int64(len(s.data)) {
		n = copy(p, s.data[off:])
	}
	if s.e != nil {
		if err := s.e.call(fmt.Sprintf("read %d at %d", len(p), off)); err != nil {
			k := s.e.share(n, true)
			for i := k; i < len(p); i++ {
				p[i] = 0xEE
			}
			return k, err
		}
	}
	if n < len(p) {
		// scratch space use is allowed by the interface
		for i := n; i < len(p); i++ {
			p[i] = 0xEE
		}
		return n, io.EOF
	}
	if s.eof != nil && off+int64(n) >= int64(len(s.data)) && s.eof() {
		return n, io.EOF
	}
	return n, nil
}

// envLineSource also gives line access.
type envLineSource struct {
	envSource
	lines []string
}

func (s *envLineSource) ReadLinesAt(lines [][]byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("envLineSource: negative offset")
	}
	n := 0
	for n < len(lines) && off+int64(n) < int64(len(s.lines)) {
		lines[n] = []byte(s.lines[off+int64(n)])
		n++
	}
	if s.e != nil {
		if err := s.e.call(fmt.Sprintf("read %d lines at %d", len(lines), off)); err != nil {
			k := s.e.share(n, false)
			for i := k; i < n; i++ {
				lines[i] = nil
			}
			return k, err
		}
	}
	if n < len(lines) {
		return n, io.EOF
	}
	return n, nil
}

// envWriter is a conforming io.Writer.
type envWriter struct {
	e     *env
	out   []byte
	calls int
}

func (w *envWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.e != nil {
		if err := w.e.call(fmt.Sprintf("write %d", len(p))); err != nil {
			k := w.e.share(len(p), true)
			w.out = append(w.out, p[:k]...)
			return k, err
		}
	}
	w.out = append(w.out, p...)
	return len(p), nil
}

// stringWriter also implements io.StringWriter.
type stringWriter struct{ envWriter }

func (w *stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
