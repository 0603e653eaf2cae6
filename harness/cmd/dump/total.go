package main

import (
	"bytes"
	"io"
	"runtime"
	"slices"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"pgregory.net/rapid"
)

// Any is an input with options.
type Any struct {
	Data core.B  `json:"data"`
	Opt  ref.Opt `json:"opt"`
	NoC  bool    `json:"nocxt,omitempty"` // no context at all
}

const (
	allocBase = 64 << 20
	allocPer  = 8000
)

// total dumps and renders; the run has to come back with a listing or an error.
func total(data []byte, o ref.Opt, noC bool) (ok bool, err error) {
	cxt := cxtOf(o)
	if noC {
		cxt = nil
	}
	p, perr := parse.New(cxt, bytes.NewReader(data))
	if perr != nil {
		return false, nil
	}
	if p == nil {
		return false, core.Errf("New: neither parser nor error")
	}
	info, perr := p.Parse()
	if info == nil && perr == nil {
		return false, core.Errf("Parse: neither listing nor error")
	}
	if info != nil {
		walkNil := false
		walk(items(info.Packets), func(i *ref.Item) { walkNil = walkNil || i.Name == "<nil item>" })
		if walkNil {
			return false, core.Errf("the listing holds a null item")
		}
		_ = info.String()
		if r, jerr := info.JSON(2); jerr == nil { // beyond a depth of 10000 the JSON library refuses
			_, _ = io.Copy(io.Discard, r)
		}
	}
	return perr == nil, nil
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func checkTotal(c Any, x *core.X) (err error) {
	if len(c.Data) > 0 {
		x.NonTrivial()
	}
	o := c.Opt
	for _, a := range []bool{false, true} {
		o.Armor = a
		var ok bool
		n := allocated(func() { ok, err = total(c.Data, o, c.NoC) })
		if err != nil {
			return err
		}
		if ok {
			x.Label("listed")
		} else {
			x.Label("rejected")
		}
		if limit := uint64(allocBase + allocPer*len(c.Data)); n > limit {
			return core.Errf("%d octets of input make it allocate %d octets", len(c.Data), n)
		}
	}
	return nil
}

func genEvil(t *rapid.T) Any {
	c := Any{Opt: genOpt(t), NoC: gen.Chance(t, 30)}
	b := gen.Stream(t, gen.Cfg{Min: 1, Max: 4, Depth: 3, Evil: true}).Encode()
	switch gen.Pick(t, 5) {
	case 0:
		b = gen.Damage(t, b)
	case 1:
		o := gen.Stream(t, gen.Cfg{Min: 1, Max: 2, Depth: 1, Evil: true}).Encode()
		i, j := gen.Pick(t, len(b)+1), gen.Pick(t, len(o)+1)
		b = append(append([]byte{}, b[:i]...), o[j:]...)
	case 2:
		b = gen.Damage(t, gen.Damage(t, gen.Damage(t, b)))
	}
	c.Data = b
	return c
}

// genRaw draws a packet header over arbitrary octets, so that every decoder meets every octet.
func genRaw(t *rapid.T) Any {
	c := Any{Opt: genOpt(t)}
	var b []byte
	for n := 1 + gen.Pick(t, 3); n > 0; n-- {
		body := gen.Octets(t)
		for i := 0; i < len(body) && i < 12; i++ { // the first octets are mostly version and algorithm numbers
			if gen.Chance(t, 2) {
				body[i] = byte(gen.Pick(t, 12))
			} else if gen.Chance(t, 4) {
				body[i] = gen.Of[byte](t, 0xff, 0xfe, 0xfd, 0x80, 0x7f, 18, 19, 22, 101)
			}
		}
		tag := gen.Pick(t, 64)
		if gen.Chance(t, 2) {
			tag = gen.Pick(t, 21)
		}
		b = append(b, gen.Pkt{Tag: tag, Body: body, Enc: gen.Header(t, tag, len(body), false)}.Encode()...)
	}
	if gen.Chance(t, 3) {
		b = gen.Octets(t)
	}
	c.Data = b
	return c
}

func genText(t *rapid.T) Any {
	c := Any{Opt: genOpt(t)}
	var s strings.Builder
	for n := gen.Pick(t, 14); n > 0; n-- {
		l := gen.Of(t, "-----BEGIN PGP MESSAGE-----", "-----BEGIN PGP SIGNED MESSAGE-----", "-----BEGIN PGP ", "-----BEGIN PGP PUBLIC KEY BLOCK-----",
			"-----END PGP MESSAGE-----", "-----END PGP", "-----END", "-----", "----", "", "=", "=abcd", "=ab", "==", "Version: x", "Comment:", ":", ": ", "a: b",
			"yMBIA0vO", "AAAA", "AA==", "A", "AAA", "Hash: SHA256", " ", "\t", "\r", "\x00", "\xff\xfe", "- -----BEGIN PGP MESSAGE-----")
		if gen.Chance(t, 8) {
			l = strings.Repeat(gen.Of(t, "A", "-", "=", " ", "x\x00"), gen.Of(t, 63, 64, 65, 95, 96, 97, 4095, 4096, 65535, 65536, 70000))
		}
		if gen.Chance(t, 6) {
			l = string(gen.Octets(t))
		}
		s.WriteString(l + gen.Of(t, "\n", "\n", "\r\n", "\r", ""))
	}
	b := []byte(s.String())
	if gen.Chance(t, 3) {
		b = gen.DrawArmor(t, false).Text(gen.Stream(t, gen.Cfg{Max: 2, Depth: 1, Evil: true}).Encode())
		b = gen.Damage(t, b)
	}
	c.Data = b
	return c
}

// genClaim draws streams in which lengths, counts and sizes claim far more than there is.
func genClaim(t *rapid.T) Any {
	c := Any{Opt: genOpt(t)}
	n := gen.Of[uint32](t, 1<<27, 1<<28-1, 1<<29, 1<<30-1, 1<<30, 1<<30+1, 1<<31-1, 1<<31, 1<<31+1, 1<<32-2, 1<<32-1, 1<<26+5)
	be := func(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }
	tail := gen.Fill(t, gen.Pick(t, 40))
	cat := func(p ...[]byte) (b []byte) {
		for _, x := range p {
			b = append(b, x...)
		}
		return
	}
	tag := gen.Of(t, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 60)
	var b []byte
	switch gen.Pick(t, 7) {
	case 0:
		b = cat([]byte{0xc0 | byte(tag), 255}, be(n), tail)
	case 1:
		b = cat([]byte{0x82 | byte(tag&15)<<2}, be(n), tail)
	case 2:
		b = cat([]byte{0xc0 | byte(tag), 224 + byte(gen.Range(t, 26, 30))}, tail)
	case 3: // a subpacket
		s := cat([]byte{255}, be(n), []byte{byte(gen.Pick(t, 256))}, tail)
		typ := gen.Of(t, 2, 17)
		body := s
		if typ == 2 {
			body = cat([]byte{4, 0, 1, 8, 0, byte(len(s))}, s, []byte{0, 0, 0, 0})
		}
		b = gen.Pkt{Tag: typ, Body: body, Enc: gen.Enc{Kind: "new5"}}.Encode()
	case 4: // version 5 key material
		k := cat([]byte{5}, be(gen.U32(t)), []byte{gen.Byte(t, 1, 16, 17, 18, 19, 22, 101)}, be(n), tail)
		b = gen.Pkt{Tag: gen.Of(t, 5, 6, 7, 14), Body: k, Enc: gen.Enc{Kind: "new5"}}.Encode()
	case 5: // version 5 secret key material
		k := cat([]byte{5}, be(gen.U32(t)), []byte{1}, be(6), []byte{0, 8, 255, 0, 8, 255}, []byte{gen.Byte(t, 0, 253, 254, 255, 9), byte(gen.Pick(t, 40))}, be(n), tail)
		b = gen.Pkt{Tag: gen.Of(t, 5, 7), Body: k, Enc: gen.Enc{Kind: "new5"}}.Encode()
	default: // notation, multi-precision integers: two-octet counts
		k := cat([]byte{4}, be(gen.U32(t)), []byte{1, 0xff, 0xff}, tail)
		b = gen.Pkt{Tag: 6, Body: k, Enc: gen.Enc{Kind: "new5"}}.Encode()
	}
	switch gen.Pick(t, 5) { // nested in a compressed packet or in a key block
	case 0:
		alg := byte(gen.Pick(t, 4))
		b = gen.Pkt{Tag: 8, Body: append([]byte{alg}, gen.Compress(alg, b)...), Enc: gen.Enc{Kind: "new5"}}.Encode()
	case 1:
		b = gen.Pkt{Tag: 2, Body: inPacket(2, 38, append([]byte{0}, b...)), Enc: gen.Enc{Kind: "new5"}}.Encode()
	}
	c.Data = b
	return c
}

// Deep is a signature in a signature in a signature ...
type Deep struct {
	Levels int     `json:"levels"`
	Via    string  `json:"via"` // embedded signature, key block, or both in turn
	Opt    ref.Opt `json:"opt"`
}

func (c Deep) data() []byte {
	if c.Via == "compressed" || c.Via == "deflated" {
		b := []byte{0xcd, 1, 'x'}
		var alg byte
		if c.Via == "deflated" {
			alg = 1
		}
		heads := make([]byte, 0, 7*c.Levels)
		for i := 0; i < c.Levels; i++ {
			if alg == 0 { // put together back to front
				n := uint32(7*i + 3 + 1)
				heads = append(heads, alg, byte(n), byte(n>>8), byte(n>>16), byte(n>>24), 255, 0xc8)
				continue
			}
			b = gen.Pkt{Tag: 8, Body: append([]byte{alg}, gen.Compress(alg, b)...), Enc: gen.Enc{Kind: "new5"}}.Encode()
		}
		slices.Reverse(heads)
		return append(heads, b...)
	}
	inner := []byte{4, 0, 1, 8, 0, 0, 0, 0, 0xab, 0xcd, 0, 1, 1}
	for i := 0; i < c.Levels; i++ {
		body := inner
		typ := byte(32)
		if c.Via == "keyblock" || c.Via == "both" && i%2 == 1 {
			typ = 38
			body = append([]byte{0}, gen.Pkt{Tag: 2, Body: inner, Enc: gen.Enc{Kind: "new5"}}.Encode()...)
		}
		n := len(body) + 1
		var sub []byte
		switch {
		case n < 192:
			sub = []byte{byte(n)}
		case n < 16320:
			sub = []byte{byte((n-192)>>8) + 192, byte(n - 192)}
		default:
			sub = []byte{255, 0, byte(n >> 16), byte(n >> 8), byte(n)}
		}
		sub = append(append(sub, typ), body...)
		if len(sub) > 65535 {
			break
		}
		next := []byte{4, 0, 101, 8, byte(len(sub) >> 8), byte(len(sub))}
		inner = append(append(next, sub...), 0, 0, 0xab, 0xcd)
	}
	return gen.Pkt{Tag: 2, Body: inner, Enc: gen.Enc{Kind: "new5"}}.Encode()
}

func checkDeep(c Deep, x *core.X) error {
	x.NonTrivial()
	x.Label("%s", c.Via)
	data := c.data()
	if c.Via == "compressed" || c.Via == "deflated" {
		var err error
		n := allocated(func() { _, err = total(data, c.Opt, false) })
		if limit := uint64(allocBase + allocPer*len(data)); err == nil && n > limit {
			err = core.Errf("%d octets of nested compressed data make it allocate %d octets", len(data), n)
		}
		return err
	}
	got, err := dump(data, c.Opt)
	if err != nil {
		return core.Errf("nested signatures are not listed: %v", err)
	}
	depth := 0
	for l := got; len(l) > 0; {
		var next []*ref.Item
		for _, i := range l {
			if len(i.Items) > 0 {
				next = append(next, i.Items...)
			}
		}
		l = next
		depth++
	}
	if depth < c.Levels/2 && c.Levels < 2000 {
		return core.Errf("%d levels are listed with a depth of %d", c.Levels, depth)
	}
	_, err = total(data, c.Opt, false)
	return err
}

func init() {
	p := core.Property("C01", "a case is an input with options, dumped in both armor modes and rendered both ways: damaged and spliced streams, arbitrary octets under every tag, broken armored texts, lengths that claim up to 4 GiB, signatures nested to the limit of the format, compressed data nested 30000 deep; non-trivial if the input is not empty",
		"memory is judged by the total number of octets allocated: at most 64 MiB plus 8000 per input octet",
		"a case that does not end within 120 s (60 s when run alone) counts as not ending")
	core.Add(p, core.Spec[Any]{Name: "evil", Quick: 200000, Gen: genEvil, Check: checkTotal})
	core.Add(p, core.Spec[Any]{Name: "raw", Quick: 250000, Gen: genRaw, Check: checkTotal})
	core.Add(p, core.Spec[Any]{Name: "text", Quick: 80000, Gen: genText, Check: checkTotal})
	core.Add(p, core.Spec[Any]{Name: "claims", Quick: 60000, Gen: genClaim, Check: checkTotal})
	core.Add(p, core.Spec[Deep]{Name: "deep", Check: checkDeep, Fixed: func(tier string, emit func(Deep)) {
		for _, n := range []int{10, 1000, 30000} {
			emit(Deep{Levels: n, Via: "compressed"})
			emit(Deep{Levels: n, Via: "compressed", Opt: ref.Opt{Debug: true}})
		}
		emit(Deep{Levels: 300, Via: "deflated"})
		for _, via := range []string{"embedded", "keyblock", "both"} {
			for _, n := range []int{1, 10, 100, 400} {
				emit(Deep{Levels: n, Via: via, Opt: ref.Opt{Debug: true}})
			}
			for _, n := range []int{1000, 1500, 6000} {
				emit(Deep{Levels: n, Via: via})
			}
			if tier == "thorough" {
				emit(Deep{Levels: 6000, Via: via, Opt: ref.Opt{Debug: true}})
			}
		}
	}})
}
