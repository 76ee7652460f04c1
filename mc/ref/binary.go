package ref

import (
	"errors"
	"strings"
)

// Alphabet85 is the alphabet of git's base85.c.
const Alphabet85 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

// EncodeBinaryLines writes data the way git's emit_binary_diff_body does: 52
// bytes per line, a length letter, groups of five characters.
func EncodeBinaryLines(data []byte) string {
	var b strings.Builder
	for len(data) > 0 {
		n := len(data)
		if n > 52 {
			n = 52
		}
		if n <= 26 {
			b.WriteByte(byte('A' + n - 1))
		} else {
			b.WriteByte(byte('a' + n - 27))
		}
		for i := 0; i < n; i += 4 {
			var v uint64
			for k := 0; k < 4; k++ {
				v <<= 8
				if i+k < n {
					v |= uint64(data[i+k])
				}
			}
			var g [5]byte
			for k := 4; k >= 0; k-- {
				g[k] = Alphabet85[v%85]
				v /= 85
			}
			b.Write(g[:])
		}
		b.WriteByte('\n')
		data = data[n:]
	}
	return b.String()
}

var errLine = errors.New("bad line")

// DecodeBinaryLine decodes one data line (without its newline) by the rules of
// git's parse_binary_hunk and decode_85.
func DecodeBinaryLine(line string) ([]byte, error) {
	if len(line) < 6 || (len(line)-1)%5 != 0 {
		return nil, errLine
	}
	var n int
	switch c := line[0]; {
	case c >= 'A' && c <= 'Z':
		n = int(c-'A') + 1
	case c >= 'a' && c <= 'z':
		n = int(c-'a') + 27
	default:
		return nil, errLine
	}
	groups := (len(line) - 1) / 5
	if n > groups*4 || n <= groups*4-4 {
		return nil, errLine
	}
	var out []byte
	for g := 0; g < groups; g++ {
		v := uint64(0)
		for k := 0; k < 5; k++ {
			i := strings.IndexByte(Alphabet85, line[1+5*g+k])
			if i < 0 {
				return nil, errLine
			}
			v = v*85 + uint64(i)
		}
		if v > 0xFFFFFFFF {
			return nil, errLine
		}
		out = append(out, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return out[:n], nil
}

// DeltaSize encodes a size header.
func DeltaSize(n int64) []byte {
	var b []byte
	u := uint64(n)
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

// Source is random access to source bytes.
type Source interface {
	Size() int64
	Range(off, n int64) []byte // must lie inside the source
}

// Bytes is an in-memory Source.
type Bytes []byte

func (b Bytes) Size() int64               { return int64(len(b)) }
func (b Bytes) Range(off, n int64) []byte { return b[off : off+n] }

// DeltaResult is the verdict on a delta.
type DeltaResult struct {
	OK       bool
	Out      []byte
	Mismatch bool   // the recorded source size differs
	Defect   string // any other defect
	Declared int64  // declared result size, -1 if the header is bad
}

// RunDelta is the specification of git's patch_delta.
func RunDelta(src Source, d []byte) DeltaResult {
	r := DeltaResult{Declared: -1}
	size := func() (int64, bool) {
		var v uint64
		for i := 0; i < len(d); i++ {
			x := uint64(d[i] & 0x7f)
			if 7*i >= 63 {
				if x != 0 {
					return 0, false
				}
			} else {
				v |= x << (7 * i)
			}
			if d[i] < 0x80 {
				d = d[i+1:]
				return int64(v), true
			}
		}
		return 0, false
	}
	ss, ok := size()
	if !ok {
		r.Defect = "source size header"
		return r
	}
	r.Mismatch = ss != src.Size()
	ds, ok := size()
	if !ok {
		r.Defect = "result size header"
		return r
	}
	r.Declared = ds
	for len(d) > 0 {
		op := d[0]
		d = d[1:]
		switch {
		case op == 0:
			r.Defect = "reserved opcode"
			return r
		case op < 0x80:
			if len(d) < int(op) {
				r.Defect = "incomplete insert"
				return r
			}
			r.Out = append(r.Out, d[:op]...)
			d = d[op:]
		default:
			var off, n int64
			for bit := 0; bit < 7; bit++ {
				if op>>bit&1 == 0 {
					continue
				}
				if len(d) == 0 {
					r.Defect = "incomplete copy"
					return r
				}
				if bit < 4 {
					off += int64(d[0]) << (8 * bit)
				} else {
					n += int64(d[0]) << (8 * (bit - 4))
				}
				d = d[1:]
			}
			if n == 0 {
				n = 65536
			}
			if off+n > src.Size() {
				r.Defect = "copy outside source"
				return r
			}
			if int64(len(r.Out))+n > ds {
				r.Defect = "too much data"
				return r
			}
			r.Out = append(r.Out, src.Range(off, n)...)
		}
		if int64(len(r.Out)) > ds {
			r.Defect = "too much data"
			return r
		}
	}
	if int64(len(r.Out)) != ds {
		r.Defect = "too little data"
		return r
	}
	r.OK = !r.Mismatch
	return r
}

// BinarySection is one half of a git binary patch.
type BinarySection struct {
	Method string
	Size   int64
	Data   []byte
}

// ParseBinarySection parses a section at the start of the lines. present is
// false if there is no section header, ok is false if the section is bad.
// unspecified is set for spellings git and this library may treat differently.
func ParseBinarySection(lines []string) (s BinarySection, n int, present, ok, unspecified bool) {
	if len(lines) == 0 {
		return
	}
	head := strings.TrimSuffix(lines[0], "\n")
	m, num, found := strings.Cut(head, " ")
	if !found || (m != "literal" && m != "delta") {
		return
	}
	present = true
	s.Method = m
	if strings.HasPrefix(num, "+") || strings.HasPrefix(num, "-") && strings.Trim(num[1:], "0") == "" && len(num) > 1 {
		// like strtoul, which git uses, the library reads these spellings
		unspecified = true
		return
	}
	var v uint64
	if num == "" {
		return
	}
	for i := 0; i < len(num); i++ {
		c := num[i]
		if c < '0' || c > '9' {
			return
		}
		if v > (1<<63-1-uint64(c-'0'))/10 {
			return
		}
		v = v*10 + uint64(c-'0')
	}
	s.Size = int64(v)
	for n = 1; n < len(lines); n++ {
		if lines[n] == "\n" {
			return s, n + 1, true, true, false
		}
		l, nl := strings.CutSuffix(lines[n], "\n")
		if !nl {
			return s, 0, true, false, false
		}
		d, err := DecodeBinaryLine(l)
		if err != nil {
			return s, 0, true, false, false
		}
		s.Data = append(s.Data, d...)
	}
	return s, 0, true, false, false
}
