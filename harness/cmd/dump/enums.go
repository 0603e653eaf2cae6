package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"pgregory.net/rapid"
)

// place is a field that holds a number.
type place struct {
	build func(n byte) []byte                 // a stream with n in that field
	pick  func(l []*ref.Item) (string, error) // what the listing shows for it
	want  func(n byte) string                 // what it has to show
	shows func(n byte, shown string) bool     // the number is visible
	skip  func(n byte) bool                   // not a value of this field
	alike bool                                // different numbers may be shown alike
}

func z(n int) []byte { return make([]byte, n) }

func cat(p ...[]byte) (b []byte) {
	for _, x := range p {
		b = append(b, x...)
	}
	return
}

func pkt(tag int, p ...[]byte) []byte {
	return gen.Pkt{Tag: tag, Body: cat(p...), Enc: gen.Enc{Kind: "new5"}}.Encode()
}

// val picks the value of the k-th item of that name.
func val(name string, k int) func([]*ref.Item) (string, error) {
	return func(l []*ref.Item) (string, error) {
		f := find(l, name)
		if len(f) <= k {
			return "", core.Errf("item %q is not listed", name)
		}
		return f[k].Value, nil
	}
}

func paren(kind string) func(byte, string) bool {
	return func(n byte, s string) bool { return strings.HasSuffix(s, fmt.Sprintf("(%s %d)", kind, n)) }
}

func sigSub(typ byte, body ...byte) []byte {
	return pkt(2, sigWith(append([]byte{byte(len(body) + 1), typ}, body...), nil))
}

func places() map[string]place {
	m := map[string]place{}
	add := func(name, item string, want func(byte) string, kind string, build func(n byte) []byte, skip ...byte) {
		m[name] = place{build: build, pick: val(item, 0), want: want, shows: paren(kind), skip: func(n byte) bool {
			for _, s := range skip {
				if s == n {
					return true
				}
			}
			return false
		}}
	}
	const pub, sym, hash, comp, aead, s2k, sig = "Public-key Algorithm", "Symmetric Algorithm", "Hash Algorithm", "Compression Algorithm", "AEAD Algorithm", "String-to-Key (S2K) Algorithm", "Signiture Type"
	o := func(n ...byte) []byte { return n }
	seckey := func(rest ...byte) []byte { return pkt(5, keyWith(1), rest, z(40)) }
	subkey := func(rest ...byte) []byte { return pkt(7, keyWith(1), rest, z(40)) }
	sig4 := func(typ, p, h byte) []byte { return pkt(2, o(4, typ, p, h, 0, 0, 0, 0, 1, 2), z(12)) }
	sig3 := func(typ, p, h byte) []byte { return pkt(2, o(3, 5, typ, 0, 0, 0, 1), z(8), o(p, h, 1, 2), z(12)) }

	add("pub/tag1", pub, ref.PubName, "pub", func(n byte) []byte { return pkt(1, o(3), z(8), o(n), z(12)) })
	add("pub/tag2v3", pub, ref.PubName, "pub", func(n byte) []byte { return sig3(0, n, 8) })
	add("pub/tag2v4", pub, ref.PubName, "pub", func(n byte) []byte { return sig4(0, n, 8) })
	add("pub/tag4", pub, ref.PubName, "pub", func(n byte) []byte { return pkt(4, o(3, 0, 8, n), z(9)) })
	add("pub/tag6", pub, ref.PubName, "pub", func(n byte) []byte { return pkt(6, o(4), z(4), o(n), z(12)) })
	add("pub/tag6v3", pub, ref.PubName, "pub", func(n byte) []byte { return pkt(6, o(3), z(6), o(n), z(12)) })
	add("pub/tag6v5", pub, ref.PubName, "pub", func(n byte) []byte { return pkt(6, o(5), z(4), o(n, 0, 0, 0, 12), z(12)) })
	add("pub/tag14", pub, ref.PubName, "pub", func(n byte) []byte { return pkt(14, o(4), z(4), o(n), z(12)) })
	add("pub/tag5", pub, ref.PubName, "pub", func(n byte) []byte { return pkt(5, o(4), z(4), o(n), z(40)) })
	m["pub/sub12"] = place{build: func(n byte) []byte { return sigSub(12, append(o(0x80, n), z(20)...)...) }, pick: val(pub, 1), want: ref.PubName, shows: paren("pub")}
	m["pub/sub31"] = place{build: func(n byte) []byte { return sigSub(31, append(o(n, 8), z(20)...)...) }, pick: val(pub, 1), want: ref.PubName, shows: paren("pub")}
	m["pub/embedded"] = place{build: func(n byte) []byte { return sigSub(32, cat(o(4, 0x19, n, 8, 0, 0, 0, 0, 1, 2), z(12))...) }, pick: val(pub, 1), want: ref.PubName, shows: paren("pub")}

	add("sym/tag3", sym, ref.SymName, "sym", func(n byte) []byte { return pkt(3, o(4, n, 0, 8)) })
	add("sym/tag5usage", sym, ref.SymName, "sym", func(n byte) []byte { return seckey(n) }, 0, 253, 254, 255)
	add("sym/tag5", sym, ref.SymName, "sym", func(n byte) []byte { return seckey(254, n, 0, 8) })
	add("sym/tag7", sym, ref.SymName, "sym", func(n byte) []byte { return subkey(255, n, 0, 8) })
	add("sym/tag5aead", sym, ref.SymName, "sym", func(n byte) []byte { return seckey(253, n, 1, 0, 8) })
	add("sym/tag20", sym, ref.SymName, "sym", func(n byte) []byte { return pkt(20, o(1, n, 1, 0), z(16)) })
	add("sym/sub11", sym, ref.SymName, "sym", func(n byte) []byte { return sigSub(11, n) })
	add("sym/kdf", sym, ref.SymName, "sym", func(n byte) []byte { return pkt(6, o(4), z(4), o(18, 0, 0, 0, 3, 1, 8, n)) })

	add("hash/tag2v3", hash, ref.HashName, "hash", func(n byte) []byte { return sig3(0, 1, n) })
	add("hash/tag2v4", hash, ref.HashName, "hash", func(n byte) []byte { return sig4(0, 1, n) })
	add("hash/tag4", hash, ref.HashName, "hash", func(n byte) []byte { return pkt(4, o(3, 0, n, 1), z(9)) })
	add("hash/s2k0", hash, ref.HashName, "hash", func(n byte) []byte { return pkt(3, o(4, 9, 0, n)) })
	add("hash/s2k1", hash, ref.HashName, "hash", func(n byte) []byte { return pkt(3, o(4, 9, 1, n), z(8)) })
	add("hash/s2k3", hash, ref.HashName, "hash", func(n byte) []byte { return seckey(254, 9, 3, n) })
	add("hash/kdf", hash, ref.HashName, "hash", func(n byte) []byte { return pkt(6, o(4), z(4), o(18, 0, 0, 0, 3, 1, n, 9)) })
	m["hash/sub21"] = place{build: func(n byte) []byte { return sigSub(21, n) }, pick: val(hash, 1), want: ref.HashName, shows: paren("hash")}
	m["hash/sub31"] = place{build: func(n byte) []byte { return sigSub(31, append(o(1, n), z(20)...)...) }, pick: val(hash, 1), want: ref.HashName, shows: paren("hash")}

	add("comp/tag8", comp, ref.CompName, "comp", func(n byte) []byte { return pkt(8, o(n)) })
	add("comp/sub22", comp, ref.CompName, "comp", func(n byte) []byte { return sigSub(22, n) })
	add("aead/tag20", aead, ref.AEADName, "aead", func(n byte) []byte { return pkt(20, o(1, 9, n, 0), z(20)) })
	add("aead/tag5", aead, ref.AEADName, "aead", func(n byte) []byte { return seckey(253, 9, n, 0, 8) })
	add("aead/sub34", aead, ref.AEADName, "aead", func(n byte) []byte { return sigSub(34, n) })
	add("s2k/tag3", s2k, ref.S2KName, "s2k", func(n byte) []byte { return pkt(3, o(4, 9, n), z(12)) })
	add("s2k/tag5", s2k, ref.S2KName, "s2k", func(n byte) []byte { return seckey(254, 9, n) })

	hex := func(n byte, s string) bool { return strings.HasSuffix(s, fmt.Sprintf("(0x%02x)", n)) }
	for name, b := range map[string]func(byte) []byte{
		"sig/tag2v3": func(n byte) []byte { return sig3(n, 1, 8) }, "sig/tag2v4": func(n byte) []byte { return sig4(n, 1, 8) },
		"sig/tag4": func(n byte) []byte { return pkt(4, o(3, n, 8, 1), z(9)) }} {
		m[name] = place{build: b, pick: val(sig, 0), want: ref.SigName, shows: hex}
	}

	first := func(l []*ref.Item) (string, error) { return l[0].Name, nil }
	inArea := func(area string) func([]*ref.Item) (string, error) {
		return func(l []*ref.Item) (string, error) {
			f := find(l, area)
			if len(f) != 1 || len(f[0].Items) != 1 {
				return "", core.Errf("area %q does not have one subpacket", area)
			}
			return f[0].Items[0].Name, nil
		}
	}
	sub := func(n byte) []byte {
		if n&0x7f == 38 {
			return o(2, n, 1)
		}
		return cat(o(13, n), z(12))
	}
	subNum := func(n byte, s string) bool {
		return strings.HasSuffix(s, fmt.Sprintf("(sub %d)", n&0x7f)) && strings.Contains(s, "<critical>") == (n > 127)
	}
	m["sub/hashed"] = place{build: func(n byte) []byte { return pkt(2, sigWith(sub(n), nil)) }, pick: inArea("Hashed Subpacket"), want: ref.SubName, shows: subNum}
	m["sub/unhashed"] = place{build: func(n byte) []byte { return pkt(2, sigWith(nil, sub(n))) }, pick: inArea("Unhashed Subpacket"), want: ref.SubName, shows: subNum}
	m["sub/attribute"] = place{build: func(n byte) []byte { return pkt(17, sub(n)) }, pick: inArea("Subpacket"), want: ref.SubName, shows: subNum}
	tag := func(n byte) string { return ref.TagName(int(n)) }
	m["tag/new"] = place{build: func(n byte) []byte { return gen.Pkt{Tag: int(n), Body: z(20), Enc: gen.Enc{Kind: "new1"}}.Encode() }, pick: first, want: tag, shows: paren("tag"),
		skip: func(n byte) bool { return n > 63 || n == 8 || n == 17 || n == 2 }}
	m["tag/old"] = place{build: func(n byte) []byte { return gen.Pkt{Tag: int(n), Body: z(20), Enc: gen.Enc{Kind: "old2"}}.Encode() }, pick: first, want: tag, shows: paren("tag"),
		skip: func(n byte) bool { return n > 15 || n == 8 || n == 2 }}

	version := func(cur, draft byte) func(byte) string {
		return func(n byte) string {
			switch {
			case n < cur:
				return fmt.Sprintf("%d old", n)
			case n == cur:
				return fmt.Sprintf("%d current", n)
			case n == draft && draft != 0:
				return fmt.Sprintf("%d draft", n)
			}
			return fmt.Sprintf("%d unknown", n)
		}
	}
	both := func(l []*ref.Item) (string, error) {
		f := find(l, "Version")
		if len(f) == 0 {
			return "", core.Errf("no version")
		}
		return f[0].Value + " " + f[0].Note, nil
	}
	lead := func(n byte, s string) bool { return strings.HasPrefix(s, fmt.Sprint(n, " ")) || s == fmt.Sprint(n) }
	for name, v := range map[string]struct {
		tag        int
		cur, draft byte
		rest       []byte
	}{"tag1": {1, 3, 0, z(20)}, "tag2": {2, 4, 5, z(40)}, "tag3": {3, 4, 5, z(9)}, "tag4": {4, 3, 0, z(12)}, "tag5": {5, 4, 5, z(40)}, "tag6": {6, 4, 5, z(20)}, "tag7": {7, 4, 5, z(40)}, "tag14": {14, 4, 5, z(20)}, "tag20": {20, 1, 0, z(20)}} {
		v := v
		m["version/"+name] = place{build: func(n byte) []byte { return pkt(v.tag, o(n), v.rest) }, pick: both, want: version(v.cur, v.draft), shows: lead}
	}
	m["version/fingerprint"] = place{build: func(n byte) []byte { return sigSub(33, append(o(n), z(20)...)...) }, shows: lead,
		pick: func(l []*ref.Item) (string, error) {
			f := find(l, "Version")
			if len(f) != 2 {
				return "", core.Errf("%d versions", len(f))
			}
			return f[1].Value, nil
		}, want: func(n byte) string { return fmt.Sprint(n) }}

	m["literal"] = place{build: func(n byte) []byte { return pkt(11, o(n, 0, 0, 0, 0, 1)) },
		pick: func(l []*ref.Item) (string, error) {
			f := find(l, "Literal data format")
			if len(f) != 1 {
				return "", core.Errf("no format")
			}
			return f[0].Value + " / " + f[0].Note, nil
		}, want: func(n byte) string { v, t := ref.LiteralName(n); return v + " / " + t },
		shows: func(n byte, s string) bool {
			return strings.HasPrefix(s, string(rune(n))) || strings.HasPrefix(s, fmt.Sprintf("(U+%04X)", n))
		}}
	m["reason"] = place{build: func(n byte) []byte { return sigSub(29, n) }, pick: func(l []*ref.Item) (string, error) {
		f := find(l, "Reason for Revocation (sub 29)")
		if len(f) != 1 {
			return "", core.Errf("no reason")
		}
		return f[0].Value, nil
	}, want: ref.ReasonName, shows: func(n byte, s string) bool { return strings.HasSuffix(s, fmt.Sprintf("(%d)", n)) }}

	count := func(n byte) string { // RFC 4880 3.7.1.3
		return new(big.Int).Lsh(big.NewInt(16+int64(n&15)), uint(n>>4)+6).String()
	}
	any := func(byte, string) bool { return true }
	m["count/tag3"] = place{build: func(n byte) []byte { return pkt(3, o(4, 9, 3, 8), z(8), o(n)) }, pick: val("Count", 0), want: count, shows: any}
	m["count/tag5"] = place{build: func(n byte) []byte { return pkt(5, keyWith(1), o(254, 9, 3, 8), z(8), o(n), z(40)) }, pick: val("Count", 0), want: count, shows: any}
	m["chunk"] = place{build: func(n byte) []byte { return pkt(20, o(1, 9, 1, n), z(20)) }, pick: val("Chunk size", 0), shows: any,
		want: func(n byte) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)+6).String() }}

	ivlen := func(item string) func([]*ref.Item) (string, error) {
		return func(l []*ref.Item) (string, error) {
			f := find(l, item)
			if len(f) != 1 {
				return "", core.Errf("%d items %q", len(f), item)
			}
			return strconv.Itoa((len(f[0].Dump) + 1) / 3), nil
		}
	}
	block := func(n byte) string {
		switch {
		case n <= 6:
			return "8"
		case n <= 13:
			return "16"
		}
		return "0"
	}
	m["iv/tag5"] = place{build: func(n byte) []byte { return seckey(254, n, 0, 8) }, pick: ivlen("IV"), want: block, shows: any, alike: true}
	m["iv/tag5usage"] = place{build: func(n byte) []byte { return seckey(n) }, pick: ivlen("IV"), want: block, shows: any, alike: true, skip: func(n byte) bool { return n == 0 || n > 252 }}
	m["iv/tag20"] = place{build: func(n byte) []byte { return pkt(20, o(1, 9, n, 0), z(20)) }, pick: ivlen("IV"), shows: any, alike: true,
		want: func(n byte) string {
			switch n {
			case 1:
				return "16"
			case 2:
				return "15"
			}
			return "0"
		}}
	for alg, name := range map[byte]string{18: "ECDH", 19: "ECDSA", 22: "EdDSA"} {
		alg, name := alg, name
		m["point/"+name] = place{build: func(n byte) []byte { return pkt(6, o(4), z(4), o(alg, 0, 0, 16, n, 7, 0)) }, alike: true, shows: any,
			pick: func(l []*ref.Item) (string, error) { return l[0].Items[4].Name, nil },
			want: func(n byte) string {
				return name + " EC point (" + map[byte]string{4: "uncompressed format", 0x40: "Native point format of the curve follows", 0x41: "Only X coordinate follows", 0x42: "Only Y coordinate follows"}[n] + ")"
			}}
		p := m["point/"+name]
		w := p.want
		p.want = func(n byte) string { return strings.Replace(w(n), "()", "(Unknown)", 1) }
		m["point/"+name] = p
	}
	return m
}

var allPlaces = places()

func placeNames() (l []string) {
	for name := range allPlaces {
		l = append(l, name)
	}
	sort.Strings(l)
	return
}

// Num is one number in one place; N < 0 stands for all of them.
type Num struct {
	Place string  `json:"place"`
	N     int     `json:"n"`
	Opt   ref.Opt `json:"opt"`
}

func shown(p place, n byte, o ref.Opt) (string, error) {
	s := p.build(n)
	got, err := dump(s, o)
	if err != nil {
		return "", core.Errf("number %d: %v", n, err)
	}
	if len(got) == 0 {
		return "", core.Errf("number %d: nothing is listed", n)
	}
	return p.pick(got)
}

func checkNum(c Num, x *core.X) error {
	p := allPlaces[c.Place]
	x.Label("%s", c.Place)
	x.NonTrivial()
	if c.N < 0 {
		seen := map[string]int{}
		for n := 0; n < 256; n++ {
			if p.skip != nil && p.skip(byte(n)) {
				continue
			}
			s, err := shown(p, byte(n), c.Opt)
			if err != nil {
				return err
			}
			if k, ok := seen[s]; ok && !p.alike {
				return core.Errf("%s: %d and %d are both shown as %q", c.Place, k, n, s)
			}
			seen[s] = n
		}
		return nil
	}
	n := byte(c.N)
	s, err := shown(p, n, c.Opt)
	if err != nil {
		return err
	}
	if w := p.want(n); s != w {
		return core.Errf("%s: %d is shown as %q, want %q", c.Place, n, s, w)
	}
	if !p.shows(n, s) {
		return core.Errf("%s: %q does not show the number %d", c.Place, s, n)
	}
	_, err = agree(p.build(n), c.Opt, time.UTC)
	return err
}

// Pref is a list of numbers in a preference subpacket, possibly nested.
type Pref struct {
	Typ  byte    `json:"typ"`
	List core.B  `json:"list"`
	Nest int     `json:"nest"`
	Opt  ref.Opt `json:"opt"`
}

func checkPref(c Pref, x *core.X) error {
	names := map[byte]struct {
		item string
		name func(byte) string
	}{11: {"Symmetric Algorithm", ref.SymName}, 21: {"Hash Algorithm", ref.HashName}, 22: {"Compression Algorithm", ref.CompName}, 34: {"AEAD Algorithm", ref.AEADName}}[c.Typ&0x7f]
	n := len(c.List) + 1
	area := cat([]byte{255, 0, 0, byte(n >> 8), byte(n), c.Typ}, c.List)
	b := sigWith(area, nil)
	for i := 0; i < c.Nest; i++ {
		n := len(b) + 1
		b = sigWith(cat([]byte{255, 0, 0, byte(n >> 8), byte(n), 32}, b), nil)
	}
	s := pkt(2, b)
	got, err := dump(s, c.Opt)
	if err != nil {
		return core.Errf("fails: %v", err)
	}
	if len(c.List) > 0 {
		x.NonTrivial()
	}
	l := find(got, ref.SubName(c.Typ))
	if len(l) != 1 || len(l[0].Items) != len(c.List) {
		return core.Errf("a list of %d numbers is not listed as such: %v", len(c.List), l)
	}
	for i, o := range c.List {
		it := l[0].Items[i]
		if it.Name != names.item || it.Value != names.name(o) {
			return core.Errf("number %d at %d is listed as %q %q", o, i, it.Name, it.Value)
		}
	}
	_, err = agree(s, c.Opt, time.UTC)
	return err
}

func init() {
	p := core.Property("C23", "exhaustive: every number 0-255 in every place that holds an enumerated octet (tags, algorithms, types, versions, formats, reasons, counts, chunk sizes, IV lengths), without options and in debug mode, and all numbers of a place against each other; generated: preference lists of any numbers, nested up to three signatures deep; non-trivial always, or if the list is not empty",
		"the assigned names are those of RFC 4880 and the RFC 4880bis draft in the tool's wording, as listed in harness/ref/names.go")
	core.Add(p, core.Spec[Num]{Name: "numbers", Check: checkNum, Fixed: func(tier string, emit func(Num)) {
		for _, debug := range []bool{false, true} {
			for _, name := range placeNames() {
				p := allPlaces[name]
				emit(Num{Place: name, N: -1, Opt: ref.Opt{Debug: debug}})
				for n := 0; n < 256; n++ {
					if p.skip == nil || !p.skip(byte(n)) {
						emit(Num{Place: name, N: n, Opt: ref.Opt{Debug: debug}})
					}
				}
			}
		}
	}})
	core.Add(p, core.Spec[Pref]{Name: "lists", Quick: 100000, Check: checkPref, Gen: func(t *rapid.T) Pref {
		c := Pref{Typ: gen.Of[byte](t, 11, 21, 22, 34), Nest: gen.Pick(t, 4), Opt: genOpt(t)}
		if gen.Chance(t, 3) {
			c.Typ |= 0x80
		}
		for n := gen.Pick(t, 12); n > 0; n-- {
			c.List = append(c.List, byte(gen.Pick(t, 256)))
		}
		return c
	}})
	core.Add(p, core.Spec[StreamCase]{Name: "streams", Quick: 100000, Gen: streamCase(gen.Cfg{Min: 1, Max: 3, Depth: 2, Long: true}), Check: checkStream})
}
