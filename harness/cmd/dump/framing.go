package main

import (
	"fmt"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"pgregory.net/rapid"
)

// ---- C02

// TwoEnc is a stream with two ways to write its headers.
type TwoEnc struct {
	Pkts gen.Pkts  `json:"pkts"`
	Enc2 []gen.Enc `json:"enc2"`
	Opt  ref.Opt   `json:"opt"`
}

func genTwo(c gen.Cfg) func(*rapid.T) TwoEnc {
	return func(t *rapid.T) TwoEnc {
		s := gen.Stream(t, c)
		r := TwoEnc{Pkts: s, Opt: genOpt(t)}
		for i, p := range s {
			r.Enc2 = append(r.Enc2, gen.Header(t, p.Tag, len(p.Body), i == len(s)-1))
		}
		return r
	}
}

func checkTwo(c TwoEnc, x *core.X) error {
	other := append(gen.Pkts{}, c.Pkts...)
	for i := range other {
		other[i].Enc = c.Enc2[i]
		x.Label("%s", c.Enc2[i].Kind)
	}
	a, aerr := dump(c.Pkts.Encode(), c.Opt)
	b, berr := dump(other.Encode(), c.Opt)
	if (aerr == nil) != (berr == nil) {
		return core.Errf("one way of writing the headers fails, the other does not: %v / %v", aerr, berr)
	}
	if d := ref.Diff(a, b); d != "" {
		return core.Errf("the listing depends on how headers are written: %s", d)
	}
	if aerr == nil {
		if len(c.Pkts) > 0 {
			x.NonTrivial()
		}
		if len(a) != len(c.Pkts) {
			return core.Errf("%d packets, %d entries", len(c.Pkts), len(a))
		}
		for i, p := range c.Pkts {
			if n, ok := tagOf(a[i].Name); !ok || n != p.Tag {
				return core.Errf("packet %d: tag %d is listed as %q", i, p.Tag, a[i].Name)
			}
			if want := fmt.Sprintf("%d bytes", len(p.Body)); a[i].Note != want {
				return core.Errf("packet %d: length %q, want %q", i, a[i].Note, want)
			}
			if c.Opt.Debug && a[i].Dump != ref.Hex(p.Body) {
				return core.Errf("packet %d: its dump is not its body", i)
			}
		}
	}
	_, err := agree(c.Pkts.Encode(), c.Opt, time.UTC)
	return err
}

var edgeSizes = []int{0, 1, 2, 191, 192, 193, 254, 255, 256, 257, 511, 512, 513, 8383, 8384, 8385, 65534, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 5 << 20}

func fixedTwo(tier string, emit func(TwoEnc)) {
	kinds := []string{"new1", "new2", "new5", "part", "old1", "old2", "old4", "oldx"}
	opaque := map[int]bool{0: true, 9: true, 10: true, 12: true, 15: true, 16: true, 18: true, 19: true}
	for tag := 0; tag < 64; tag++ {
		if tag <= 20 && !opaque[tag] {
			continue
		}
		for _, n := range edgeSizes {
			if n > 9000 && tag%7 != 0 && tier == "quick" || n > 70000 && tag != 9 && tag != 63 {
				continue
			}
			body := make([]byte, n)
			for i := range body {
				body[i] = byte(i*7 + n)
			}
			for _, k := range kinds {
				e := gen.Enc{Kind: k}
				if !e.Can(tag, n, true) {
					continue
				}
				if k == "part" {
					for p := 16; p >= 0; p -= 3 {
						e.Parts = append(e.Parts, p)
					}
					e.Last = "new1"
				}
				tail := gen.Pkt{Tag: 13, Body: []byte("end"), Enc: gen.Enc{Kind: "new1"}}
				c := TwoEnc{Pkts: gen.Pkts{{Tag: tag, Body: body, Enc: e}}, Enc2: []gen.Enc{{Kind: "new5"}}, Opt: ref.Opt{Debug: true}}
				if k != "oldx" {
					c.Pkts = append(c.Pkts, tail)
					c.Enc2 = append(c.Enc2, gen.Enc{Kind: "old1"})
				}
				emit(c)
			}
		}
	}
}

// ---- C03

// CutCase is a stream to be cut at every point.
type CutCase struct {
	Pkts    gen.Pkts   `json:"pkts"`
	Opt     ref.Opt    `json:"opt"`
	Armor   *gen.Armor `json:"armor,omitempty"` // cuts are armored this way
	Garbage core.B     `json:"garbage"`         // appended to the whole stream
	Comp    int        `json:"comp"`            // if not 0, cuts are compressed with algorithm Comp-1
}

func genCut(t *rapid.T) CutCase {
	c := CutCase{Pkts: gen.Stream(t, gen.Cfg{Min: 1, Max: 4, Depth: 1}), Opt: genOpt(t)}
	if gen.Chance(t, 3) {
		a := gen.DrawArmor(t, true)
		a.Before, a.After = nil, nil
		if a.Width < 60 {
			a.Width = 64
		}
		c.Armor = &a
	}
	if gen.Chance(t, 4) {
		c.Comp = gen.Of(t, 1, 2, 2, 3, 3, 1, 2, 3, 4)
	}
	c.Garbage = append([]byte{byte(gen.Pick(t, 128))}, gen.Fill(t, gen.Pick(t, 20))...)
	return c
}

func cutPoints(ends []int, n int) (out []int) {
	seen := map[int]bool{}
	add := func(k int) {
		if k >= 0 && k <= n && !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	step := 1
	if n > 120 {
		step = n/60 + 1
	}
	for k := 0; k <= n; k += step {
		add(k)
	}
	for _, e := range ends {
		for d := -3; d <= 7; d++ {
			add(e + d)
		}
	}
	return
}

func checkCut(c CutCase, x *core.X) error {
	whole := c.Pkts.Encode()
	all, err := dump(whole, c.Opt)
	if err != nil {
		x.Label("stream not dumpable")
		return nil
	}
	if len(all) != len(c.Pkts) {
		return core.Errf("%d packets, %d entries", len(c.Pkts), len(all))
	}
	opt := c.Opt
	run := func(b []byte) ([]*ref.Item, error) { return dump(b, opt) }
	if c.Armor != nil {
		opt.Armor = true
		run = func(b []byte) ([]*ref.Item, error) { return dump(c.Armor.Text(b), opt) }
		x.Label("armored")
	}
	if c.Comp != 0 { // the listing is that of the packets inside
		x.Label("compressed")
		outer := run
		run = func(b []byte) ([]*ref.Item, error) {
			body := append([]byte{byte(c.Comp - 1)}, gen.Compress(byte(c.Comp-1), b)...)
			l, err := outer(gen.Pkt{Tag: 8, Body: body, Enc: gen.Enc{Kind: "new5"}}.Encode())
			if len(l) != 1 {
				return nil, err
			}
			l = l[0].Items
			for len(l) > 0 {
				if _, ok := tagOf(l[0].Name); ok {
					break
				}
				l = l[1:]
			}
			return l, err
		}
		if all, err = run(whole); err != nil {
			return core.Errf("dumped on its own but not in compressed data: %v", err)
		}
		if len(all) != len(c.Pkts) {
			return core.Errf("%d packets, %d entries in compressed data", len(c.Pkts), len(all))
		}
	}
	ends := []int{0}
	for _, p := range c.Pkts {
		ends = append(ends, ends[len(ends)-1]+len(p.Encode()))
	}
	open := c.Pkts[len(c.Pkts)-1].Enc.Kind == "oldx" // its end cannot be known
	x.NonTrivial()
	for _, k := range cutPoints(ends, len(whole)) {
		full := 0 // packets complete before the cut
		for full+1 < len(ends) && ends[full+1] <= k {
			full++
		}
		if open && k > ends[len(ends)-2] {
			continue
		}
		got, err := run(whole[:k])
		if k == ends[full] {
			if err != nil {
				return core.Errf("cut at %d of %d, after packet %d: %v", k, len(whole), full, err)
			}
		} else if err == nil {
			return core.Errf("cut at %d of %d, inside packet %d: no error, %d entries", k, len(whole), full, len(got))
		}
		if err != nil && c.Comp != 0 {
			continue // a packet that could not be read is not listed
		}
		if d := ref.Diff(all[:full], got); d != "" {
			return core.Errf("cut at %d of %d: %s", k, len(whole), d)
		}
	}
	if c.Armor != nil && c.Comp == 0 { // the text itself is cut
		h, b, _, e := c.Armor.Lines(whole)
		for i, n := 0, len(b); i < 8 && n > 0; i++ {
			k := n - 1 - i*n/8
			l := len(b[k]) - 1 - i%3
			if l < 0 || l%4 == 0 || strings.Contains(b[k][:l], "=") || c.Armor.Width%4 != 0 {
				continue
			}
			text := append(append(append([]string{}, h...), b[:k]...), b[k][:l], e)
			if got, err := dump(c.Armor.Wrap(text), opt); err == nil {
				return core.Errf("base64 text cut after %d characters of line %d: no error, %d entries", l, k, len(got))
			}
		}
	}
	if open {
		return nil
	}
	got, err := run(append(append([]byte{}, whole...), c.Garbage...))
	if err == nil {
		return core.Errf("octets that are no packet (%x) after the stream: no error", []byte(c.Garbage))
	}
	if c.Comp != 0 {
		return nil
	}
	if d := ref.Diff(all, got); d != "" {
		return core.Errf("with octets that are no packet after the stream: %s", d)
	}
	return nil
}

// ---- C04

// Prefix is a body of which no prefix shorter than Req is a complete packet.
type Prefix struct {
	Tag  int     `json:"tag"`
	Sub  int     `json:"sub"` // if not 0, Body is that subpacket of a signature (or of an attribute packet)
	Body core.B  `json:"body"`
	Req  int     `json:"req"`
	Free []int   `json:"free,omitempty"`
	Opt  ref.Opt `json:"opt"`
}

func genPrefix(t *rapid.T) Prefix {
	tag := gen.Of(t, 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 20)
	w := gen.Body(t, tag, 1, false)
	return Prefix{Tag: tag, Body: w.B, Req: w.Req, Free: w.Free, Opt: genOpt(t)}
}

func genSubPrefix(t *rapid.T) Prefix {
	if gen.Chance(t, 12) {
		w := gen.Image(t)
		return Prefix{Tag: 17, Sub: 1, Body: w.B, Req: w.Req, Opt: genOpt(t)}
	}
	typ := gen.Of[byte](t, 2, 3, 4, 5, 7, 9, 12, 16, 20, 23, 25, 27, 29, 30, 31, 32, 33, 35, 38)
	if gen.Chance(t, 4) {
		typ |= 0x80
	}
	w := gen.Sub(t, typ, 1, false)
	return Prefix{Tag: 2, Sub: int(typ), Body: w.B, Req: w.Req, Free: w.Free, Opt: genOpt(t)}
}

// inPacket puts a subpacket into a packet.
func inPacket(tag int, typ byte, b []byte) []byte {
	n := len(b) + 1
	sub := append([]byte{255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), typ}, b...)
	if tag == 17 {
		return sub
	}
	h := []byte{4, 0, 1, 8, byte(len(sub) >> 8), byte(len(sub))}
	h = append(h, sub...)
	return append(h, 0, 0, 0xab, 0xcd, 0, 8, 0xff)
}

func checkPrefix(c Prefix, x *core.X) error {
	wrap := func(b []byte) []byte {
		if c.Sub != 0 {
			b = inPacket(c.Tag, byte(c.Sub), b)
		}
		return gen.Pkt{Tag: c.Tag, Body: b, Enc: gen.Enc{Kind: "new5"}}.Encode()
	}
	if c.Sub != 0 {
		x.Label("sub %d", c.Sub&0x7f)
	} else {
		x.Label("tag %d", c.Tag)
	}
	if c.Sub != 0 && len(c.Body) > 60000 {
		return nil
	}
	if c.Req > 1 {
		x.NonTrivial()
	}
	free := map[int]bool{}
	for _, k := range c.Free {
		free[k] = true
	}
	step := 1
	if c.Req > 400 {
		step = c.Req/200 + 1
	}
	for k := 0; k < c.Req; k += step {
		if k > c.Req-20 {
			step = 1
		}
		if free[k] {
			continue
		}
		if k > len(c.Body) {
			break
		}
		got, err := dump(wrap(c.Body[:k]), c.Opt)
		if err == nil {
			return core.Errf("cut to %d of %d octets that must be there: no error; %v", k, c.Req, got[0])
		}
		if len(got) != 0 {
			return core.Errf("cut to %d of %d octets that must be there: listed all the same", k, c.Req)
		}
	}
	_, err := agree(wrap(c.Body), c.Opt, time.UTC)
	return err
}

func init() {
	p := core.Property("C02", "a case is a packet sequence with two independently drawn header encodings per packet (all old and new forms, partial-length chains), plus an enumeration of all opaque tags at every length boundary in every encoding; non-trivial if a non-empty stream is listed",
		"bodies are such that the packets decode; error parity is checked otherwise")
	core.Add(p, core.Spec[TwoEnc]{Name: "boundaries", Check: checkTwo, Fixed: fixedTwo})
	core.Add(p, core.Spec[TwoEnc]{Name: "reencode", Quick: 120000, Gen: genTwo(gen.Cfg{Max: 5, Depth: 1, Long: true}), Check: checkTwo})
	core.Add(p, core.Spec[Huge]{Name: "huge", Quick: 64, Gen: genHuge(false, false, 129<<20), Check: checkHuge})
	core.Add(p, core.Spec[Huge]{Name: "many", Quick: 1200, Gen: genMany, Check: checkHuge})
	core.Add(p, core.Spec[Huge]{Name: "dumped", Quick: 48, Gen: genDumped, Check: checkHuge})

	p = core.Property("C03", "a case is a dumpable stream cut at every offset (sampled beyond 120 octets, always around packet boundaries), binary or armored, and once followed by octets that are no packet header; non-trivial if the whole stream dumps",
		"a packet of indeterminate length ends where the stream ends, so cuts inside it are not judged")
	core.Add(p, core.Spec[CutCase]{Name: "cut", Quick: 12000, Gen: genCut, Check: checkCut})

	p = core.Property("C04", "a case is a packet body or subpacket built field by field, cut before every octet its fields need; or a stream whose inner lengths, counts and contents are cut or lie, judged by the reference model; non-trivial if there is at least one needed octet (prefix) or the stream is rejected by the model (inner)",
		"a missing count octet of the ECDH KDF parameters or of the encoded session key is read as an empty block, as the code states")
	core.Add(p, core.Spec[Prefix]{Name: "prefix", Quick: 25000, Gen: genPrefix, Check: checkPrefix})
	core.Add(p, core.Spec[Prefix]{Name: "subprefix", Quick: 25000, Gen: genSubPrefix, Check: checkPrefix})
	core.Add(p, core.Spec[StreamCase]{Name: "inner", Quick: 120000, Gen: streamCase(gen.Cfg{Min: 1, Max: 2, Depth: 2, Evil: true}),
		Check: func(c StreamCase, x *core.X) error {
			return in(c.Zone, func(loc *time.Location) error {
				failed, err := agree(c.Pkts.Encode(), c.Opt, loc)
				if failed {
					x.NonTrivial()
					x.Label("rejected")
					for _, p := range c.Pkts {
						x.Label("tag %d", p.Tag)
					}
				}
				return err
			})
		}})
}
