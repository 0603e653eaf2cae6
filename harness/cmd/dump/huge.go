package main

import (
	"bytes"
	"io"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"pgregory.net/rapid"
)

// Huge is an input of many MiB or of very many packets, described by a few numbers.
type Huge struct {
	Pieces []HugePiece `json:"pieces"`
	Opt    ref.Opt     `json:"opt"`
	Armor  bool        `json:"armor,omitempty"`
	Chunk  int         `json:"chunk,omitempty"` // octets per read
	Line   int         `json:"line,omitempty"`  // length of a text line before the armor
	Lines  int         `json:"lines,omitempty"` // number of text lines before and after it
	Comp   byte        `json:"comp,omitempty"`  // 1 + the algorithm the whole stream is compressed with
}

// HugePiece is Times packets of Size octets each.
type HugePiece struct {
	Tag   int    `json:"tag"`
	Size  int    `json:"size"`
	Times int    `json:"times"`
	Enc   string `json:"enc"` // new5, old4 or part
	Part  int    `json:"part,omitempty"`
	Salt  int    `json:"salt"`
}

func (h Huge) stream() []byte {
	var out []byte
	for _, p := range h.Pieces {
		body := make([]byte, p.Size)
		v := uint32(p.Salt)*2654435761 + 1
		for i := range body {
			v = v*1664525 + 1013904223
			body[i] = byte(v >> 24)
			if p.Tag == 13 {
				body[i] = 'a' + body[i]%26
			}
		}
		if p.Tag == 11 {
			body = append([]byte{'b', 1, 'f', 0, 0, 0, 9}, body...)
		}
		e := gen.Enc{Kind: p.Enc}
		if p.Enc == "part" {
			e.Last = "new5"
			for n := len(body); n >= 1<<uint(p.Part); n -= 1 << uint(p.Part) {
				e.Parts = append(e.Parts, p.Part)
			}
		}
		one := gen.Pkt{Tag: p.Tag, Body: body, Enc: e}.Encode()
		out = append(out, bytes.Repeat(one, p.Times)...)
	}
	return out
}

func genHuge(armored, chunked bool, max int) func(*rapid.T) Huge {
	return func(t *rapid.T) Huge {
		h := Huge{Armor: armored, Opt: ref.Opt{UTC: true}}
		if chunked {
			h.Chunk = gen.Of(t, 512, 4096, 32768, 65536, 100003, 1<<20)
		}
		one := func(size int) HugePiece {
			p := HugePiece{Tag: gen.Of(t, 9, 11, 13, 18, 19, 21, 63), Size: size, Times: 1, Enc: "new5", Salt: gen.Pick(t, 1000)}
			switch gen.Pick(t, 4) {
			case 0:
				p.Enc, p.Part = "part", gen.Of(t, 9, 12, 16, 20)
			case 1:
				if p.Tag < 16 {
					p.Enc = "old4"
				}
			}
			return p
		}
		small := func(times int) HugePiece {
			return HugePiece{Tag: gen.Of(t, 11, 12, 13, 19, 60), Size: 1 + gen.Pick(t, 30), Times: times, Enc: "new5", Salt: gen.Pick(t, 1000)}
		}
		if gen.Chance(t, 3) {
			h.Pieces = append(h.Pieces, small(gen.Of(t, 4097, 10001, 32769, 65537, 100001)-gen.Pick(t, 3)))
		} else {
			h.Pieces = append(h.Pieces, one(gen.Of(t, 9<<20, 1<<24-1, 1<<24+1, 17<<20, 33<<20, max)))
		}
		h.Pieces = append(h.Pieces, small(1+gen.Pick(t, 3)))
		if armored && gen.Chance(t, 2) {
			if gen.Chance(t, 2) {
				h.Pieces = h.Pieces[1:]
			}
			h.Line, h.Lines = gen.Of(t, 0, 1<<20+1, 5<<20, 1<<24+1, 40<<20), gen.Of(t, 0, 1000, 70000, 1000001)
		}
		return h
	}
}

// genMany draws streams of a number of small packets at a likely boundary, plain or compressed.
func genMany(t *rapid.T) Huge {
	h := Huge{Opt: ref.Opt{UTC: true}}
	n := gen.Edge(t, gen.Of(t, 70, 300, 1100, 5000))
	for n > 0 {
		k := n
		if gen.Chance(t, 2) {
			k = 1 + gen.Pick(t, n)
		}
		n -= k
		h.Pieces = append(h.Pieces, HugePiece{Tag: gen.Of(t, 9, 11, 12, 13, 13, 18, 19, 60), Size: 1 + gen.Pick(t, 30), Times: k, Enc: "new5", Salt: gen.Pick(t, 1000)})
	}
	if gen.Chance(t, 3) {
		h.Comp = 1 + gen.Of[byte](t, 0, 1, 2, 3)
	}
	if gen.Chance(t, 3) {
		h.Armor = true
	}
	if gen.Chance(t, 3) {
		h.Chunk = gen.Of(t, 1, 7, 512, 4096, 32768)
	}
	return h
}

// genDumped draws streams with fields of up to 4 MiB that are dumped octet for octet.
func genDumped(t *rapid.T) Huge {
	h := Huge{Opt: ref.Opt{UTC: true, Debug: true}}
	tag := gen.Of(t, 9, 10, 11, 12, 13, 18, 19, 21, 34, 60, 63)
	if gen.Chance(t, 3) {
		h.Opt.Debug = false
		h.Opt.Literal, h.Opt.Marker, h.Opt.Private = true, true, true
		tag = gen.Of(t, 10, 11, 60, 61, 62, 63)
	}
	size := 1<<uint(gen.Of(t, 16, 17, 18, 19, 20, 20, 20, 21, 21, 22)) + gen.Of(t, -1, 0, 1, 1, 7, 1000)
	h.Pieces = []HugePiece{{Tag: tag, Size: size, Times: 1, Enc: "new5", Salt: gen.Pick(t, 1000)}, {Tag: 13, Size: 5, Times: 1, Enc: "new5"}}
	return h
}

func checkHuge(h Huge, x *core.X) error {
	data := h.stream()
	if h.Comp > 0 {
		x.Label("comp %d", h.Comp-1)
		body := append([]byte{h.Comp - 1}, gen.Compress(h.Comp-1, data)...)
		data = append(gen.Pkt{Tag: 8, Body: body, Enc: gen.Enc{Kind: "new5"}}.Encode(), 0xcd, 1, 'z')
	}
	x.Label("%d MiB", len(data)>>20)
	want, werr := ref.Dump(data, h.Opt, time.UTC)
	in := data
	if h.Armor {
		in = gen.Armor{Type: "MESSAGE", Width: 64, CRC: true, EOL: "\n"}.Text(data)
		if h.Line > 0 || h.Lines > 0 {
			x.Label("long text around it")
			text := bytes.Repeat([]byte("lorem ipsum\n"), h.Lines)
			l := append(bytes.Repeat([]byte{'x'}, h.Line), '\n')
			in = append(append(append(append([]byte{}, text...), l...), in...), text...)
			in = append(in, l...)
		}
	}
	var r io.Reader = bytes.NewReader(in)
	if h.Chunk > 0 {
		r = &chunks{in, h.Chunk}
	}
	got, gerr := dumpReader(r, cxtOf(h.Opt))
	x.NonTrivial()
	return compare(want, werr, got, gerr)
}

type chunks struct {
	b []byte
	n int
}

func (c *chunks) Read(b []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	if len(b) > c.n {
		b = b[:c.n]
	}
	n := copy(b, c.b)
	c.b = c.b[n:]
	return n, nil
}
