// Package gen generates OpenPGP packets, streams, armored texts and damage to them.
// Every random choice is drawn from rapid.
package gen

import (
	"runtime"

	"verif/harness/core"

	"pgregory.net/rapid"
)

// mood makes choices of one case hang together: 0 for most cases; otherwise it selects
// places in the generators where unlikely choices become likely, and places where the
// same choice is made throughout the case.
var mood uint64

func init() {
	core.Before = func(t *rapid.T) {
		mood = 0
		if Pick(t, 5) == 4 {
			mood = uint64(Pick(t, 1<<40)) | 1
		}
	}
}

// place hashes the mood and the place in the generator two calls up.
func place() uint64 {
	var pc [1]uintptr
	if runtime.Callers(3, pc[:]) == 0 {
		return 0
	}
	f, _ := runtime.CallersFrames(pc[:]).Next()
	h := mood
	for _, c := range []byte(f.Function) {
		h = (h ^ uint64(c)) * 0x100000001b3
	}
	h = (h ^ uint64(f.Line)) * 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

// Pick draws an index below n, nearly uniformly; it shrinks to 0.
func Pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	u := rapid.Uint64().Draw(t, "u")
	u *= 0x9e3779b97f4a7c15
	u ^= u >> 29
	u *= 0xbf58476d1ce4e5b9
	u ^= u >> 32
	return int(u % uint64(n))
}

// Chance is true with probability 1/n; it shrinks to false.
func Chance(t *rapid.T, n int) bool {
	if mood != 0 && n >= 8 && place()%3 == 0 {
		if n /= 25; n < 3 {
			n = 3
		}
	}
	return Pick(t, n) == n-1 && n > 0
}

// Of draws one of the values.
func Of[T any](t *rapid.T, v ...T) T {
	if mood != 0 && len(v) > 1 {
		if h := place(); h%4 == 0 {
			return v[h>>8%uint64(len(v))]
		}
	}
	return v[Pick(t, len(v))]
}

// Range draws from lo to hi, nearly uniformly.
func Range(t *rapid.T, lo, hi int) int { return lo + Pick(t, hi-lo+1) }

// U32 draws a 32-bit number: boundaries, small, or any.
func U32(t *rapid.T) uint32 {
	switch Pick(t, 4) {
	case 0:
		return Of[uint32](t, 0, 1, 60, 3600, 86399, 86400, 86401, 31536000, 1<<31-1, 1<<31, 1<<31+1, 1<<32-2, 1<<32-1, 1<<31-2, 1000000000, 999999999, 1<<16-1, 1<<16, 1<<24-1, 1<<24, 255, 256, 3599, 3601, 604800, 2592000,
			951782399, 951868799, 1582934400, 1614556800, 4102444800, 4107542400, 68169599, 68169600, 1612137600)
	case 1:
		return uint32(Range(t, 946684800, 1893456000))
	case 2:
		return uint32(Range(t, 1, 400)) * 86400
	}
	return uint32(rapid.Uint64().Draw(t, "u32") * 0x9e3779b97f4a7c15 >> 32)
}

// Byte draws an octet: one of the given ones, or any.
func Byte(t *rapid.T, likely ...byte) byte {
	if len(likely) > 0 && !Chance(t, 4) {
		return likely[Pick(t, len(likely))]
	}
	return byte(Pick(t, 256))
}

// Fill draws n octets.
func Fill(t *rapid.T, n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	if n <= 4 {
		for i := range b {
			b[i] = byte(Pick(t, 256))
		}
		return b
	}
	s := rapid.Uint32().Draw(t, "fill")
	switch s {
	case 0:
		return b
	case 1:
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 2:
		for i := range b {
			b[i] = byte(i)
		}
		return b
	}
	x := uint64(s)
	for i := range b {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		b[i] = byte(z >> 56)
	}
	return b
}

// Size draws a length: small, or at a boundary of some length encoding.
func Size(t *rapid.T) int {
	switch k := Pick(t, 40); {
	case k < 22:
		return Pick(t, 24)
	case k < 28:
		return Of(t, 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129)
	case k < 33:
		return Of(t, 189, 190, 191, 192, 193, 194, 254, 255, 256, 257, 258, 511, 512, 513)
	case k < 38:
		return Pick(t, 300)
	case k < 39:
		return Of(t, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8382, 8383, 8384, 8385)
	}
	if Chance(t, 12) {
		return Of(t, 16319, 16320, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 100001)
	}
	return Pick(t, 3000)
}

// Edge draws a length up to max at or beside a power of two or another likely boundary.
func Edge(t *rapid.T, max int) int {
	for {
		n := 8
		switch k := Pick(t, 8); {
		case k < 5:
			hi := 3
			for hi < 24 && 1<<uint(hi+1) <= max {
				hi++
			}
			n = 1 << uint(Range(t, 3, hi))
		case k < 7:
			n = Of(t, 24, 48, 100, 192, 192, 200, 300, 384, 500)
		default:
			n = Of(t, 1000, 10000, 8384, 16320)
		}
		n += Of(t, -1, 0, 0, 1, 1)
		if n <= max {
			return n
		}
		if Chance(t, 4) {
			return max
		}
	}
}

// Octets draws octets of any of these sizes.
func Octets(t *rapid.T) []byte { return Fill(t, Size(t)) }

// W builds the body of a packet or subpacket.
type W struct {
	t    *rapid.T
	B    []byte
	Req  int   // no prefix shorter than this can be read as the packet
	Free []int // except these prefix lengths, which are tolerated
	Evil bool  // inner lengths may lie
}

func (w *W) put(b ...byte) {
	w.B = append(w.B, b...)
	w.Req = len(w.B)
}

// opt appends octets that need not be there.
func (w *W) opt(b []byte) { w.B = append(w.B, b...) }

func (w *W) u16(n int) { w.put(byte(n>>8), byte(n)) }
func (w *W) u32(n uint32) {
	w.put(byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
}

// lie changes a count now and then when the builder is evil.
func (w *W) lie(n, max int) int {
	if !w.Evil || !Chance(w.t, 6) {
		return n
	}
	v := n
	switch Pick(w.t, 5) {
	case 0:
		v = n + 1
	case 1:
		v = n - 1
	case 2:
		v = n + Pick(w.t, 300)
	case 3:
		v = Pick(w.t, n+1)
	case 4:
		v = Of(w.t, 0, 1, max, max-1, max/2, max/2+1)
	}
	if v < 0 {
		v = 0
	}
	if v > max {
		v = max
	}
	return v
}

// cut drops a tail of an inner block now and then when the builder is evil.
func (w *W) cut(b []byte) []byte {
	if w.Evil && len(b) > 0 && Chance(w.t, 4) {
		return b[:Pick(w.t, len(b))]
	}
	return b
}

func (w *W) bits() int {
	t := w.t
	switch k := Pick(t, 20); {
	case k < 6:
		return Of(t, 0, 1, 2, 7, 8, 9, 15, 16, 17, 160, 255, 256, 257, 263, 520, 521)
	case k < 12:
		return Pick(t, 70)
	case k < 17:
		return Pick(t, 600)
	case k < 19:
		return Of(t, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096)
	}
	return Of(t, 8192, 16383, 16384, 16385, 32767, 32768, 65528, 65529, 65535)
}

// mpi appends a multi-precision integer; lead is the first octet if given.
func (w *W) mpi(lead ...byte) {
	n := w.bits()
	if len(lead) > 0 && n < 8 && !Chance(w.t, 4) {
		n = 8 + Pick(w.t, 300)
	}
	v := Fill(w.t, (n+7)/8)
	if len(v) > 0 {
		if len(lead) > 0 {
			v[0] = lead[0]
		} else if !Chance(w.t, 4) { // the usual form: the top bit is the highest set bit
			sh := uint(len(v)*8 - n)
			v[0] = v[0]&(0xff>>sh) | 0x80>>sh
		}
	}
	w.u16(w.lie(n, 65535))
	w.put(v...)
}

func (w *W) point() { w.mpi(Byte(w.t, 0x04, 0x40, 0x41, 0x42)) }

func (w *W) octet(likely ...byte) byte {
	b := Byte(w.t, likely...)
	w.put(b)
	return b
}

// keyID draws a key ID; half of them share parts with others, as forged and wildcard ones do.
func (w *W) keyID() {
	if Chance(w.t, 2) {
		w.put(Fill(w.t, 8)...)
		return
	}
	if Chance(w.t, 4) { // one octet or half all over
		c := byte(Pick(w.t, 256))
		c = Of(w.t, c, c&15*17, c&15*17)
		for i := 0; i < 8; i++ {
			w.put(c)
		}
		return
	}
	a := Of(w.t, "\x00\x00\x00\x00", "\xff\xff\xff\xff", "\x01\x23\x45\x67", "\x00\x00\x00\x01", "\xff\xff\x00\x00", "\x80\x00\x00\x00", "\x7f\xff\xff\xff")
	b := Of(w.t, "\x00\x00\x00\x00", "\xff\xff\xff\xff", "\x89\xab\xcd\xef", "\x00\x00\x00\x01")
	w.put([]byte(a + b)...)
}

// Of1 picks by a number already drawn.
func Of1[T any](n int, v ...T) T { return v[n%len(v)] }
