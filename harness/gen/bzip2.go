package gen

import (
	"bytes"
	"sort"
)

type bitw struct {
	b   []byte
	acc uint64
	n   uint
}

func (w *bitw) bits(v uint64, n uint) {
	for n > 0 {
		k := n
		if k > 32 {
			k = 32
		}
		w.acc = w.acc<<k | (v>>(n-k))&(1<<k-1)
		w.n += k
		n -= k
		for w.n >= 8 {
			w.b = append(w.b, byte(w.acc>>(w.n-8)))
			w.n -= 8
		}
	}
}

var bzCRC [256]uint32

func init() {
	for i := range bzCRC {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		bzCRC[i] = c
	}
}

// Bzip2 is a small bzip2 compressor (fixed code lengths), enough to make valid streams.
func Bzip2(in []byte) []byte {
	w := &bitw{}
	w.bits('B', 8)
	w.bits('Z', 8)
	w.bits('h', 8)
	w.bits('9', 8)
	var total uint32
	const blk = 20000 // input octets per block, small because the sort is simple
	for len(in) > 0 {
		n := len(in)
		if n > blk {
			n = blk
		}
		crc := bzBlock(w, in[:n])
		total = (total<<1 | total>>31) ^ crc
		in = in[n:]
	}
	w.bits(0x177245385090, 48)
	w.bits(uint64(total), 32)
	if w.n > 0 {
		w.bits(0, 8-w.n)
	}
	return w.b
}

func bzBlock(w *bitw, in []byte) uint32 {
	crc := ^uint32(0)
	for _, c := range in {
		crc = crc<<8 ^ bzCRC[byte(crc>>24)^c]
	}
	crc = ^crc
	// first run-length coding
	var d []byte
	for i := 0; i < len(in); {
		j := i
		for j < len(in) && in[j] == in[i] && j-i < 4+255 {
			j++
		}
		r := j - i
		if r < 4 {
			d = append(d, in[i:j]...)
		} else {
			d = append(d, in[i], in[i], in[i], in[i], byte(r-4))
		}
		i = j
	}
	n := len(d)
	// sort the rotations
	rot := make([]int, n)
	for i := range rot {
		rot[i] = i
	}
	dd := append(append([]byte{}, d...), d...)
	sort.Slice(rot, func(a, b int) bool {
		return bytes.Compare(dd[rot[a]:rot[a]+n], dd[rot[b]:rot[b]+n]) < 0
	})
	orig := 0
	last := make([]byte, n)
	for i, r := range rot {
		if r == 0 {
			orig = i
		}
		last[i] = dd[r+n-1]
	}
	// move to front, with zero runs
	var used [256]bool
	for _, c := range last {
		used[c] = true
	}
	var mtf []byte
	for c := 0; c < 256; c++ {
		if used[c] {
			mtf = append(mtf, byte(c))
		}
	}
	nsym := len(mtf) + 2
	eob := nsym - 1
	var syms []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				syms = append(syms, 0)
				run = (run - 1) >> 1
			} else {
				syms = append(syms, 1)
				run = (run - 2) >> 1
			}
		}
	}
	for _, c := range last {
		p := bytes.IndexByte(mtf, c)
		if p == 0 {
			run++
			continue
		}
		flush()
		copy(mtf[1:p+1], mtf[:p])
		mtf[0] = c
		syms = append(syms, p+1)
	}
	flush()
	syms = append(syms, eob)

	w.bits(0x314159265359, 48)
	w.bits(uint64(crc), 32)
	w.bits(0, 1)
	w.bits(uint64(orig), 24)
	for i := 0; i < 16; i++ {
		f := uint64(0)
		for k := 0; k < 16; k++ {
			if used[i*16+k] {
				f = 1
			}
		}
		w.bits(f, 1)
	}
	for i := 0; i < 16; i++ {
		any := false
		for k := 0; k < 16; k++ {
			any = any || used[i*16+k]
		}
		if any {
			for k := 0; k < 16; k++ {
				if used[i*16+k] {
					w.bits(1, 1)
				} else {
					w.bits(0, 1)
				}
			}
		}
	}
	nsel := (len(syms) + 49) / 50
	w.bits(2, 3)
	w.bits(uint64(nsel), 15)
	for i := 0; i < nsel; i++ {
		w.bits(0, 1) // always the first table
	}
	// a complete code: lengths l-1 and l, shorter ones first
	l := uint(1)
	for 1<<l < nsym {
		l++
	}
	short := 1<<l - nsym // this many codes have l-1 bits
	lens := make([]uint, nsym)
	codes := make([]uint64, nsym)
	code := uint64(0)
	for i := range lens {
		lens[i] = l
		if i < short {
			lens[i] = l - 1
		}
		if i == short {
			code <<= 1
		}
		codes[i] = code
		code++
	}
	if short == 0 {
		for i := range codes {
			codes[i] = uint64(i)
		}
	}
	for tbl := 0; tbl < 2; tbl++ {
		cur := lens[0]
		w.bits(uint64(cur), 5)
		for i := range lens {
			for cur < lens[i] {
				w.bits(2, 2)
				cur++
			}
			w.bits(0, 1)
		}
	}
	for _, s := range syms {
		w.bits(codes[s], lens[s])
	}
	return crc
}
