// Command rd decides the property of the octet reader (parse/reader).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"pgregory.net/rapid"
)

// Op is one operation on the reader.
type Op struct {
	Kind string `json:"kind"`
	N    int64  `json:"n,omitempty"`    // size, offset or writer capacity
	W    int    `json:"w,omitempty"`    // whence
	P    int    `json:"p,omitempty"`    // buffer length
	Mode int    `json:"mode,omitempty"` // kind of writer
	Path int    `json:"path,omitempty"` // which of two readers over the same buffer
}

// Hist is a buffer and a history of operations on readers over it.
type Hist struct {
	Data core.B `json:"data"`
	Size int    `json:"size,omitempty"` // of a buffer that is not written out
	Nil  bool   `json:"nil,omitempty"`
	Ops  []Op   `json:"ops"`
}

var kinds = []string{"readbyte", "readbytes", "readbytes", "read", "readat", "seek", "seek", "read2eof", "writeto", "dump", "rest"}

// num draws an argument around the interesting places: the buffer's ends and the ends of the type.
func num(t *rapid.T, size int) int64 {
	switch gen.Pick(t, 8) {
	case 0, 1, 2:
		return int64(gen.Range(t, 0, size+1))
	case 3:
		return int64(gen.Range(t, -3, 3))
	case 4:
		return int64(size) + int64(gen.Range(t, -2, 2))
	case 5:
		return -int64(gen.Range(t, 0, size+1))
	case 6:
		return gen.Of(t, int64(math.MaxInt64), math.MaxInt64-1, math.MaxInt64-int64(size), math.MinInt64, math.MinInt64+1,
			math.MinInt64+int64(size), math.MaxInt32, math.MaxInt32+1, math.MinInt32, math.MaxUint32, math.MaxUint32+1, 1<<40)
	default:
		return rapid.Int64().Draw(t, "n")
	}
}

func genHist(t *rapid.T) Hist {
	c := Hist{}
	if gen.Chance(t, 40) {
		c.Data = gen.Fill(t, gen.Of(t, 511, 512, 513, 4096, 5000, 32767, 32768, 40000))
	} else {
		c.Data = gen.Fill(t, gen.Of(t, 0, 1, 2, 3, 4, 5, 8, 16, 17, 40))
	}
	c.Nil = len(c.Data) == 0 && gen.Chance(t, 2)
	two := gen.Chance(t, 6)
	n := gen.Range(t, 1, 14)
	for i := 0; i < n; i++ {
		op := Op{Kind: gen.Of(t, kinds...)}
		if two {
			op.Path = gen.Pick(t, 2)
		}
		switch op.Kind {
		case "readbytes":
			op.N = num(t, len(c.Data))
		case "dump":
			op.N = num(t, len(c.Data))
		case "read":
			op.P = gen.Range(t, 0, len(c.Data)+2)
		case "readat":
			op.P = gen.Range(t, 0, len(c.Data)+2)
			op.N = num(t, len(c.Data))
		case "seek":
			op.N = num(t, len(c.Data))
			op.W = gen.Of(t, 0, 1, 2, 0, 1, 2, 0, 1, 2, 3, -1, 7)
			// a relative seek over the whole buffer and back
			if gen.Chance(t, 6) {
				op.W = 1
				op.N = int64(gen.Range(t, -len(c.Data), len(c.Data)))
			}
		case "writeto":
			op.Mode = gen.Pick(t, 4)
			op.N = int64(gen.Range(t, 0, len(c.Data)+1))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// genLarge draws histories over buffers of up to 4 MiB.
func genLarge(t *rapid.T) Hist {
	c := Hist{Size: 1<<uint(gen.Of(t, 16, 17, 18, 20, 20, 21, 22)) + gen.Of(t, -1, 0, 1, 9)}
	n := gen.Range(t, 1, 6)
	for i := 0; i < n; i++ {
		op := Op{Kind: gen.Of(t, kinds...), W: gen.Pick(t, 3), Mode: gen.Pick(t, 4)}
		op.N = num(t, c.Size)
		if op.Kind == "writeto" && op.N < 0 {
			op.N = 0
		}
		if op.Kind == "read" || op.Kind == "readat" {
			op.P = gen.Range(t, 0, c.Size+2)
		}
		c.Ops = append(c.Ops, op)
	}
	c.Ops = append(c.Ops, Op{Kind: "dump", N: int64(gen.Of(t, 0, 0, 1, c.Size-1, gen.Range(t, 0, c.Size)))})
	return c
}

var errSink = errors.New("sink failed")

// sink takes a limited number of octets: then it fails, or takes less without an error.
type sink struct {
	buf  []byte
	left int
	mode int
}

func (s *sink) Write(p []byte) (int, error) {
	n := len(p)
	if n == 0 {
		return 0, nil
	}
	if s.mode != 0 && n > s.left {
		n = s.left
	}
	s.buf = append(s.buf, p[:n]...)
	s.left -= n
	if n < len(p) && s.mode != 2 {
		return n, errSink
	}
	if s.mode == 3 && s.left <= 0 { // all octets taken and an error all the same
		return n, errSink
	}
	return n, nil
}

func hexOf(b []byte) string {
	var s []string
	for _, c := range b {
		s = append(s, fmt.Sprintf("%02x", c))
	}
	return strings.Join(s, " ")
}

func checkHist(c Hist, x *core.X) error {
	if c.Size > 0 {
		c.Data = make([]byte, c.Size)
		for i := range c.Data {
			c.Data[i] = byte(i * 31 >> 3)
		}
	}
	// the buffer lies inside a larger array: octets outside it must never be seen or changed
	const margin = 16
	arr := bytes.Repeat([]byte{0xa5}, len(c.Data)+2*margin)
	copy(arr[margin:], c.Data)
	orig := append([]byte{}, arr...)
	data := arr[margin : margin+len(c.Data)]
	if c.Nil {
		data = nil
	}
	rs := []*reader.Reader{reader.New(data), reader.New(data)}
	pos := []int{0, 0}
	size := len(c.Data)
	fails, moves := 0, 0
	for i, op := range c.Ops {
		r, p := rs[op.Path], &pos[op.Path]
		at := func(f string, a ...interface{}) error {
			return core.Errf("operation %d (%s n=%d p=%d w=%d) with position %d of %d: %s", i, op.Kind, op.N, op.P, op.W, *p, size, fmt.Sprintf(f, a...))
		}
		rest := size - *p
		// want describes the outcome of a read of n octets
		failed := func(err error, n int64) error {
			if err == nil {
				return at("must fail")
			}
			if (rest == 0 && n > 0) != errors.Is(err, io.EOF) {
				return at("end of data is %v, but the error is %v", rest == 0, err)
			}
			fails++
			return nil
		}
		old := *p
		switch op.Kind {
		case "readbyte":
			b, err := r.ReadByte()
			if rest == 0 {
				if e := failed(err, 1); e != nil {
					return e
				}
				break
			}
			if err != nil || b != c.Data[*p] {
				return at("returned %02x, %v", b, err)
			}
			*p++
		case "readbytes":
			b, err := r.ReadBytes(op.N)
			if op.N < 0 || op.N > int64(rest) {
				if e := failed(err, op.N); e != nil {
					return e
				}
				if len(b) != 0 {
					return at("failed, but returned %d octets", len(b))
				}
				break
			}
			if err != nil || !bytes.Equal(b, c.Data[*p:*p+int(op.N)]) {
				return at("returned %x, %v", b, err)
			}
			*p += int(op.N)
		case "read", "readat":
			if op.Kind == "readat" {
				if op.N >= 0 && op.N <= int64(size) {
					*p = int(op.N)
					rest = size - *p
				} else {
					buf := make([]byte, op.P)
					n, err := r.ReadAt(buf, op.N)
					if err == nil || n != 0 {
						return at("returned %d, %v", n, err)
					}
					fails++
					break
				}
			}
			buf := bytes.Repeat([]byte{0x5a}, op.P)
			var n int
			var err error
			if op.Kind == "readat" {
				n, err = r.ReadAt(buf, op.N)
			} else {
				n, err = r.Read(buf)
			}
			if op.P > rest {
				if e := failed(err, int64(op.P)); e != nil {
					return e
				}
				if n != 0 {
					return at("failed, but returned %d", n)
				}
				break
			}
			if err != nil || n != op.P || !bytes.Equal(buf, c.Data[*p:*p+op.P]) {
				return at("returned %d, %v, %x", n, err, buf)
			}
			*p += op.P
		case "seek":
			base := map[int]int64{0: 0, 1: int64(*p), 2: int64(size)}
			b, ok := base[op.W]
			to := new(big.Int).Add(big.NewInt(b), big.NewInt(op.N))
			n, err := r.Seek(op.N, op.W)
			if !ok || to.Sign() < 0 || to.Cmp(big.NewInt(int64(size))) > 0 {
				if err == nil {
					return at("must fail, returned %d", n)
				}
				fails++
				break
			}
			if err != nil || n != to.Int64() {
				return at("returned %d, %v; want %v", n, err, to)
			}
			*p = int(n)
		case "read2eof":
			b, err := r.Read2EOF()
			if rest == 0 {
				if e := failed(err, 1); e != nil {
					return e
				}
				break
			}
			if err != nil || !bytes.Equal(b, c.Data[*p:]) {
				return at("returned %x, %v", b, err)
			}
			*p = size
		case "writeto":
			s := &sink{left: int(op.N), mode: op.Mode}
			n, err := r.WriteTo(s)
			took := rest
			bad := false
			if op.Mode != 0 && op.N < int64(rest) {
				took, bad = int(op.N), true
			}
			if op.Mode == 3 && op.N == int64(rest) && rest > 0 {
				bad = true
			}
			if n != int64(took) || !bytes.Equal(s.buf, c.Data[*p:*p+took]) {
				return at("wrote %d octets %x, want %d", n, s.buf, took)
			}
			if bad != (err != nil) {
				return at("sink failed: %v, but the error is %v", bad, err)
			}
			*p += took
			if bad {
				fails++
			}
		case "dump":
			want := ""
			if op.N >= 0 && op.N < int64(size) {
				want = hexOf(c.Data[op.N:])
			}
			if got := r.DumpString(op.N); got != want {
				return at("dump is %q, want %q", got, want)
			}
		}
		if *p != old {
			moves++
		}
		for k := range rs {
			if rs[k].Rest() != int64(size-pos[k]) || rs[k].Len() != size || rs[k].Size() != int64(size) {
				return at("then rest %d, len %d, size %d; want rest %d", rs[k].Rest(), rs[k].Len(), rs[k].Size(), size-pos[k])
			}
			if !bytes.Equal(rs[k].GetBody(), c.Data) {
				return at("then the body is %x", rs[k].GetBody())
			}
		}
		if !bytes.Equal(arr, orig) {
			return at("the buffer or its surroundings changed: %x", arr)
		}
	}
	// what is left is readable from where the model says
	for k := range rs {
		b, err := rs[k].Read2EOF()
		if !bytes.Equal(b, c.Data[pos[k]:]) || (err != nil) != (pos[k] == size) {
			return core.Errf("after the history the rest is %x, %v; want %x", b, err, c.Data[pos[k]:])
		}
	}
	if moves > 0 && len(c.Ops) > 1 {
		x.NonTrivial()
	}
	x.Label("failing operations %d", min(fails, 5))
	x.Label("moves %d", min(moves, 5))
	return nil
}

// fixedHist runs every short history on small buffers with every boundary argument.
func fixedHist(tier string, emit func(Hist)) {
	var ops []Op
	for _, n := range []int64{math.MinInt64, -2, -1, 0, 1, 2, 3, math.MaxInt64} {
		ops = append(ops, Op{Kind: "readbytes", N: n}, Op{Kind: "dump", N: n})
		for w := -1; w < 4; w++ {
			ops = append(ops, Op{Kind: "seek", N: n, W: w})
		}
		for p := 0; p < 3; p++ {
			ops = append(ops, Op{Kind: "readat", N: n, P: p})
		}
	}
	for p := 0; p < 4; p++ {
		ops = append(ops, Op{Kind: "read", P: p})
		for m := 1; m < 4; m++ {
			ops = append(ops, Op{Kind: "writeto", Mode: m, N: int64(p)})
		}
	}
	ops = append(ops, Op{Kind: "writeto"}, Op{Kind: "read2eof"}, Op{Kind: "readbyte"})
	for size := 0; size < 3; size++ {
		data := []byte{0x81, 0x02, 0x7f}[:size]
		for _, a := range ops {
			for _, b := range ops {
				emit(Hist{Data: data, Ops: []Op{a, b}})
				if tier == "thorough" {
					for _, c := range ops {
						emit(Hist{Data: data, Ops: []Op{a, b, c}})
					}
				}
			}
		}
	}
}

func init() {
	p := core.Property("C19", "a history with at least two operations in which the position moved at least once; buffers up to 40000 octets (and some of up to 4 MiB), up to 14 operations, sizes and offsets over the whole int64 range")
	core.Add(p, core.Spec[Hist]{Name: "history", Quick: 400000, Thorough: 4000000, Gen: genHist, Check: checkHist, Fixed: fixedHist})
	core.Add(p, core.Spec[Hist]{Name: "large", Quick: 64, Thorough: 640, Gen: genLarge, Check: checkHist})
}

func main() { core.Main() }
