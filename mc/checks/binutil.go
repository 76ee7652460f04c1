package checks

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"

	"verif/mc/ref"
)

// deflate compresses with the standard library at the default level.
func deflate(b []byte) []byte { return deflateLevel(b, zlib.DefaultCompression) }

var deflateCache sync.Map

// deflateLevel returns a fresh slice; small results are memoized because a
// compressor is expensive to set up.
func deflateLevel(b []byte, level int) []byte {
	key := ""
	if len(b) <= 1<<12 {
		key = string([]byte{byte(level + 2)}) + string(b)
		if v, ok := deflateCache.Load(key); ok {
			return append([]byte(nil), v.([]byte)...)
		}
	}
	w := deflaters[level+2].Get().(*zlib.Writer)
	defer deflaters[level+2].Put(w)
	var buf bytes.Buffer
	w.Reset(&buf)
	w.Write(b)
	w.Close()
	if key != "" && cached.Add(1) < 1<<18 {
		deflateCache.Store(key, append([]byte(nil), buf.Bytes()...))
	}
	return buf.Bytes()
}

var cached atomic.Int64

var deflaters = func() *[12]sync.Pool {
	var ps [12]sync.Pool
	for i := range ps {
		level := i - 2
		ps[i].New = func() any {
			w, err := zlib.NewWriterLevel(nil, level)
			if err != nil {
				panic("engine: " + err.Error())
			}
			return w
		}
	}
	return &ps
}()

// inflate is the oracle for compressed data: the whole content, or an error.
func inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	out, err := io.ReadAll(r)
	if err != nil {
		return out, err
	}
	return out, r.Close()
}

// encodeBinary writes one section of a git binary patch.
func encodeBinary(method string, size int64, raw []byte) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %d\n", method, size)
	b.WriteString(ref.EncodeBinaryLines(raw))
	b.WriteByte('\n')
	return b.String()
}

func deltaSize(n int64) []byte { return ref.DeltaSize(n) }

// onceMap computes values once.
type onceMap[K comparable, V any] struct {
	mu sync.Mutex
	m  map[K]*onceVal[V]
}

type onceVal[V any] struct {
	once sync.Once
	v    V
}

func (o *onceMap[K, V]) get(k K, f func() V) V {
	o.mu.Lock()
	if o.m == nil {
		o.m = map[K]*onceVal[V]{}
	}
	e := o.m[k]
	if e == nil {
		e = &onceVal[V]{}
		o.m[k] = e
	}
	o.mu.Unlock()
	e.once.Do(func() { e.v = f() })
	return e.v
}
