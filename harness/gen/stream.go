package gen

import (
	"verif/harness/core"

	"pgregory.net/rapid"
)

// Enc is a way to write a packet header.
type Enc struct {
	Kind  string `json:"kind"`            // old1 old2 old4 oldx new1 new2 new5 part
	Parts []int  `json:"parts,omitempty"` // part: exponents of the partial lengths
	Last  string `json:"last,omitempty"`  // part: how the final length is written
}

// Pkt is one packet.
type Pkt struct {
	Tag  int    `json:"tag"`
	Body core.B `json:"body"`
	Enc  Enc    `json:"enc"`
}

// Pkts is a stream.
type Pkts []Pkt

func newLen(kind string, n int) []byte {
	switch {
	case kind == "new1" && n < 192:
		return []byte{byte(n)}
	case kind == "new2" && n >= 192 && n < 8384:
		return []byte{byte((n-192)>>8) + 192, byte(n - 192)}
	}
	return []byte{255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// Can says whether the encoding can express the packet.
func (e Enc) Can(tag, n int, last bool) bool {
	switch e.Kind {
	case "old1":
		return tag < 16 && n < 256
	case "old2":
		return tag < 16 && n < 65536
	case "old4":
		return tag < 16
	case "oldx":
		return tag < 16 && last
	case "new1":
		return n < 192
	case "new2":
		return n >= 192 && n < 8384
	}
	return true
}

// Encode writes the packet.
func (p Pkt) Encode() []byte {
	n := len(p.Body)
	var h []byte
	switch p.Enc.Kind {
	case "old1":
		h = []byte{0x80 | byte(p.Tag)<<2, byte(n)}
	case "old2":
		h = []byte{0x81 | byte(p.Tag)<<2, byte(n >> 8), byte(n)}
	case "old4":
		h = []byte{0x82 | byte(p.Tag)<<2, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	case "oldx":
		h = []byte{0x83 | byte(p.Tag)<<2}
	case "part":
		out := []byte{0xc0 | byte(p.Tag)}
		b := p.Body
		for _, e := range p.Enc.Parts {
			if 1<<uint(e) > len(b) {
				continue
			}
			out = append(out, 224+byte(e))
			out = append(out, b[:1<<uint(e)]...)
			b = b[1<<uint(e):]
		}
		out = append(out, newLen(p.Enc.Last, len(b))...)
		return append(out, b...)
	default:
		h = append([]byte{0xc0 | byte(p.Tag)}, newLen(p.Enc.Kind, n)...)
	}
	return append(h, p.Body...)
}

// Encode writes the stream.
func (s Pkts) Encode() (b []byte) {
	for _, p := range s {
		b = append(b, p.Encode()...)
	}
	return
}

// Header draws a header encoding for the packet.
func Header(t *rapid.T, tag, n int, last bool) Enc {
	kinds := []string{"new1", "new2", "new5", "part", "part", "old1", "old2", "old4", "oldx"}
	var can []string
	for _, k := range kinds {
		if (Enc{Kind: k}).Can(tag, n, last) {
			can = append(can, k)
		}
	}
	e := Enc{Kind: Of(t, can...)}
	if e.Kind == "part" {
		rest := n
		for rest > 0 && len(e.Parts) < 40 && !Chance(t, 6) {
			max := 0
			for 1<<uint(max+1) <= rest {
				max++
			}
			x := Range(t, 0, max)
			if Chance(t, 2) {
				x = max
			}
			e.Parts = append(e.Parts, x)
			rest -= 1 << uint(x)
		}
		e.Last = Of(t, "new1", "new2", "new5")
	}
	return e
}

// Cfg says what streams to draw.
type Cfg struct {
	Min, Max int   // packets
	Depth    int   // nesting of compressed data, embedded signatures and key blocks
	Evil     bool  // inner lengths may lie, contents may be cut
	Tags     []int // preferred tags
	Long     bool  // now and then hundreds of packets
}

var commonTags = []int{1, 2, 2, 2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 60, 61, 62, 63, 0, 15, 16, 21, 40}

// Stream draws a stream.
func Stream(t *rapid.T, c Cfg) Pkts {
	n := c.Min + Pick(t, c.Max-c.Min+1)
	s := Pkts{}
	tags := c.Tags
	if len(tags) == 0 {
		tags = commonTags
	}
	for i := 0; i < n; i++ {
		tag := Of(t, tags...)
		if len(c.Tags) == 0 && Chance(t, 12) {
			tag = Pick(t, 64)
		}
		w := Body(t, tag, c.Depth, c.Evil)
		b := w.B
		if c.Evil && Chance(t, 5) {
			b = w.cut(b)
		}
		s = append(s, Pkt{Tag: tag, Body: b})
		if c.Long && Chance(t, 30) {
			s = append(s, s[Pick(t, len(s))]) // once more
		}
	}
	if c.Long && len(s) > 0 && Chance(t, 250) { // the same packets over and over
		n, total := Of(t, 9, 17, 33, 65, 100, 129, 257, 300, 1001, 1030), 0
		for i := 0; len(s) < n && total < 1<<17; i++ {
			s = append(s, s[i])
			total += len(s[i].Body)
		}
		for i := range s {
			s[i].Enc = Enc{Kind: "new5"}
		}
		return s
	}
	for i := range s {
		s[i].Enc = Header(t, s[i].Tag, len(s[i].Body), i == len(s)-1)
	}
	return s
}

// Damage changes octets: flips, deletions, insertions, truncation.
func Damage(t *rapid.T, in []byte) []byte {
	b := append([]byte{}, in...)
	n := 1 + Pick(t, 3)
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			return append(b, Fill(t, 1+Pick(t, 4))...)
		}
		p := Pick(t, len(b))
		switch Pick(t, 6) {
		case 0:
			b[p] ^= 1 << uint(Pick(t, 8))
		case 1:
			b[p] = byte(Pick(t, 256))
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b = append(b[:p], append(Fill(t, 1+Pick(t, 4)), b[p:]...)...)
		case 4:
			b = b[:p]
		case 5:
			b[p] = Of[byte](t, 0, 1, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xfe, 0xff)
		}
	}
	return b
}
