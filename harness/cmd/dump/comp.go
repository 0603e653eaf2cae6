package main

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"fmt"
	"io"
	"runtime/debug"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"pgregory.net/rapid"
)

// Comp is a stream with a part of it compressed.
type Comp struct {
	Pre   gen.Pkts `json:"pre"`
	Inner gen.Pkts `json:"inner"`
	Post  gen.Pkts `json:"post"`
	Alg   byte     `json:"alg"`
	Level int      `json:"level"`
	Enc   gen.Enc  `json:"enc"`
	Opt   ref.Opt  `json:"opt"`
	Zone  string   `json:"zone"`
	// how the compressed octets are damaged
	Hurt string `json:"hurt,omitempty"`
	Pos  int    `json:"pos,omitempty"`
	Tail core.B `json:"tail,omitempty"`
}

func small(t *rapid.T, min, max, depth int) gen.Pkts {
	return gen.Stream(t, gen.Cfg{Min: min, Max: max, Depth: depth, Long: true})
}

func genComp(t *rapid.T) Comp {
	c := Comp{Pre: small(t, 0, 2, 0), Inner: small(t, 0, 4, 1), Post: small(t, 0, 2, 0), Alg: byte(gen.Pick(t, 4)),
		Level: gen.Of(t, 6, 0, 1, 9, -2), Opt: genOpt(t), Zone: genZone(t)}
	for i := range c.Pre { // only the last packet of a stream may have no length
		if c.Pre[i].Enc.Kind == "oldx" {
			c.Pre[i].Enc = gen.Enc{Kind: "old4"}
		}
	}
	if gen.Chance(t, 12) {
		c.Alg = byte(gen.Pick(t, 256))
	}
	if gen.Chance(t, 3) { // packets whose listing depends on earlier ones
		tags := []int{6, 14, 2, 1, 3, 9, 18}
		cfg := gen.Cfg{Min: 1, Max: 3, Tags: tags}
		c.Pre, c.Inner, c.Post = gen.Stream(t, cfg), gen.Stream(t, cfg), gen.Stream(t, cfg)
		for i := range c.Pre {
			if c.Pre[i].Enc.Kind == "oldx" {
				c.Pre[i].Enc = gen.Enc{Kind: "old4"}
			}
		}
	}
	c.Enc = gen.Header(t, 8, len(c.body()), len(c.Post) == 0)
	return c
}

func genHurtComp(t *rapid.T) Comp {
	c := genComp(t)
	c.Alg = byte(1 + gen.Pick(t, 3))
	c.Hurt = gen.Of(t, "cut", "cut", "flip", "tail", "inner", "drop")
	c.Pos = gen.Pick(t, 1<<24)
	c.Tail = gen.Octets(t)
	c.Enc = gen.Enc{Kind: "new5"}
	return c
}

func deflate(alg byte, level int, b []byte) []byte {
	if alg == 1 {
		var o bytes.Buffer
		z, _ := flate.NewWriter(&o, level)
		_, _ = z.Write(b)
		_ = z.Close()
		return o.Bytes()
	}
	return gen.Compress(alg, b)
}

func (c Comp) body() []byte {
	return append([]byte{c.Alg}, deflate(c.Alg, c.Level, c.Inner.Encode())...)
}

func (c Comp) around(body []byte) []byte {
	p := gen.Pkt{Tag: 8, Body: body, Enc: c.Enc}
	return append(append(c.Pre.Encode(), p.Encode()...), c.Post.Encode()...)
}

func hasTag(s gen.Pkts, tag int) bool {
	for _, p := range s {
		if p.Tag == tag {
			return true
		}
	}
	return false
}

func checkComp(c Comp, x *core.X) error {
	return in(c.Zone, func(loc *time.Location) error {
		body := c.body()
		x.Label("comp %d", c.Alg)
		s := c.around(body)
		got, gerr := dump(s, c.Opt)
		want, werr := ref.Dump(s, c.Opt, loc)
		if err := compare(want, werr, got, gerr); err != nil {
			return err
		}
		if hasTag(c.Inner, 8) || c.Inner == nil || len(c.Inner) == 0 {
			x.Label("nested or empty")
			return nil
		}
		if c.Alg > 3 {
			x.Label("unknown")
			return nil
		}
		if k := c.Inner[len(c.Inner)-1].Enc.Kind; k == "oldx" {
			c.Inner = append(gen.Pkts{}, c.Inner...)
			c.Inner[len(c.Inner)-1].Enc = gen.Enc{Kind: "old4"} // the same packet where others follow
		}
		flat := append(append(append(gen.Pkts{}, c.Pre...), c.Inner...), c.Post...)
		fl, ferr := dump(flat.Encode(), c.Opt)
		if (ferr == nil) != (gerr == nil) {
			return core.Errf("compressed: %v, not compressed: %v", gerr, ferr)
		}
		if ferr != nil {
			return nil
		}
		x.NonTrivial()
		at := len(c.Pre)
		if len(got) != at+1+len(c.Post) {
			return core.Errf("%d entries instead of %d", len(got), at+1+len(c.Post))
		}
		z := got[at]
		if len(z.Items) != 2+len(c.Inner) {
			return core.Errf("%d items in the compressed packet instead of %d", len(z.Items), 2+len(c.Inner))
		}
		out := append(append(append([]*ref.Item{}, got[:at]...), z.Items[2:]...), got[at+1:]...)
		if d := ref.Diff(fl, out); d != "" {
			return core.Errf("packets are listed differently when compressed: %s", d)
		}
		return nil
	})
}

func checkHurtComp(c Comp, x *core.X) error {
	z := deflate(c.Alg, c.Level, c.Inner.Encode())
	orig, oerr := dump(c.around(append([]byte{c.Alg}, z...)), c.Opt)
	if oerr != nil {
		x.Label("stream not dumpable")
		return nil
	}
	x.Label("comp %d %s", c.Alg, c.Hurt)
	x.NonTrivial()
	b := append([]byte{}, z...)
	must := false
	switch c.Hurt {
	case "cut":
		if len(z) < 2 {
			return nil
		}
		b, must = z[:1+c.Pos%(len(z)-1)], true
	case "flip":
		b[c.Pos/8%len(b)] ^= 1 << uint(c.Pos%8)
	case "drop":
		p := c.Pos % len(b)
		b = append(b[:p], b[p+1:]...)
	case "tail":
		b = append(b, c.Tail...)
	case "inner": // a truncated stream, properly compressed
		s := c.Inner.Encode()
		if len(s) == 0 {
			return nil
		}
		b = deflate(c.Alg, c.Level, s[:c.Pos%len(s)])
	}
	s := c.around(append([]byte{c.Alg}, b...))
	got, gerr := dump(s, c.Opt)
	if must && gerr == nil {
		return core.Errf("compressed data cut to %d of %d octets is listed without an error", len(b), len(z))
	}
	want, werr := ref.Dump(s, c.Opt, time.UTC)
	if err := compare(want, werr, got, gerr); err != nil {
		return err
	}
	if gerr != nil {
		x.Label("refused")
		if d := ref.Diff(orig[:len(c.Pre)], got); d != "" {
			return core.Errf("packets before the damage: %s", d)
		}
		return nil
	}
	if c.Hurt == "flip" && c.Alg != 1 && len(b) > 0 { // these forms have a checksum
		o, g := orig[len(c.Pre)], got[len(c.Pre)]
		if d := ref.Diff(o.Items[2:], g.Items[2:]); d != "" {
			return core.Errf("damaged compressed data is listed as something else: %s", d)
		}
	}
	x.Label("listed")
	return nil
}

// Bomb is compressed data that expands to Size octets: a literal packet filled with zeros.
type Bomb struct {
	Alg   byte  `json:"alg"`
	Size  int64 `json:"size"`
	Junk  bool  `json:"junk"`  // the content is no packet at all
	After bool  `json:"after"` // a packet follows
}

type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

func (c Bomb) data() []byte {
	var z bytes.Buffer
	z.WriteByte(c.Alg)
	n := c.Size - 6 - 6
	head := []byte{0xc0 | 11, 255, byte((c.Size - 6) >> 24), byte((c.Size - 6) >> 16), byte((c.Size - 6) >> 8), byte(c.Size - 6), 'b', 0, 0, 0, 0, 0}
	if c.Junk {
		head = make([]byte, 12)
	}
	var w io.WriteCloser
	switch c.Alg {
	case 1:
		w, _ = flate.NewWriter(&z, 1)
	case 2:
		w = zlib.NewWriter(&z)
	}
	_, _ = w.Write(head)
	_, _ = io.CopyN(w, zeros{}, n)
	_ = w.Close()
	s := gen.Pkt{Tag: 8, Body: z.Bytes(), Enc: gen.Enc{Kind: "new5"}}.Encode()
	if c.After {
		s = append(s, gen.Pkt{Tag: 13, Body: []byte("after"), Enc: gen.Enc{Kind: "new5"}}.Encode()...)
	}
	return s
}

func checkBomb(c Bomb, x *core.X) error {
	debug.FreeOSMemory()
	x.NonTrivial()
	data := c.data()
	got, err := dump(data, ref.Opt{})
	big := c.Size >= ref.MaxExpanded
	if err != nil {
		return core.Errf("data that expands to %d octets makes the dump fail: %v", c.Size, err)
	}
	want := 1
	if c.After {
		want = 2
	}
	if len(got) != want {
		return core.Errf("%d entries instead of %d", len(got), want)
	}
	it := got[0].Items
	if len(it) < 2 {
		return core.Errf("no compressed data listed: %v", got[0])
	}
	if big {
		x.Label("too large")
		if it[1].Value != ref.TooLarge {
			return core.Errf("data that expands to %d octets is not marked as too large: %v", c.Size, got[0])
		}
		if len(it) != 2 {
			return core.Errf("the content of data that expands to %d octets is listed", c.Size)
		}
		return nil
	}
	x.Label("expanded")
	if it[1].Value != "" || len(it) != 3 {
		return core.Errf("data that expands to %d octets is not listed: %v", c.Size, got[0])
	}
	if n := it[2].Note; n != fmt.Sprintf("%d bytes", c.Size-6) {
		return core.Errf("size of the literal packet: %q", n)
	}
	return nil
}

func init() {
	p := core.Property("C13", "a case is a packet sequence of which a part is compressed (all algorithm numbers, all deflate levels), compared with the same sequence not compressed; or compressed data cut, flipped, followed by octets or with a truncated content; or data that expands to the limit of 1 GiB and beyond; non-trivial if the sequence can be dumped (or, for the bombs, always)",
		"single-bit damage in plain deflate data has no checksum that could show it; there the reference model's own decompression decides",
		"the 1 GiB boundary is tried at sizes 1 GiB-1, 1 GiB, 1 GiB+1 and beyond with ZIP and ZLIB")
	core.Add(p, core.Spec[Comp]{Name: "transparent", Quick: 40000, Gen: genComp, Check: checkComp})
	core.Add(p, core.Spec[Comp]{Name: "damaged", Quick: 40000, Gen: genHurtComp, Check: checkHurtComp})
	core.Add(p, core.Spec[Huge]{Name: "huge", Quick: 32, Check: checkHuge, Gen: func(t *rapid.T) Huge {
		h := genHuge(false, false, 40<<20)(t)
		h.Comp = gen.Of[byte](t, 1, 2, 3)
		return h
	}})
	core.Add(p, core.Spec[Bomb]{Name: "bomb", Solo: true, Check: checkBomb, Fixed: func(tier string, emit func(Bomb)) {
		emit(Bomb{Alg: 1, Size: 1 << 20, After: true})
		emit(Bomb{Alg: 1, Size: 1<<30 - 1})
		emit(Bomb{Alg: 1, Size: 1 << 30, After: true})
		emit(Bomb{Alg: 1, Size: 1<<30 + 1, Junk: true})
		emit(Bomb{Alg: 2, Size: 3 << 29, Junk: true, After: true})
		if tier == "thorough" {
			for _, a := range []byte{1, 2} {
				for d := int64(-3); d <= 3; d++ {
					emit(Bomb{Alg: a, Size: 1<<30 + d, After: true})
				}
				emit(Bomb{Alg: a, Size: 5 << 30, After: true})
			}
		}
	}})
}
