package ref

import (
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"
	"unicode/utf8"
)

// Opt are the dump options.
type Opt struct {
	Armor   bool `json:"armor,omitempty"`
	Cert    bool `json:"cert,omitempty"`
	Debug   bool `json:"debug,omitempty"`
	Gdump   bool `json:"gdump,omitempty"`
	Integer bool `json:"int,omitempty"`
	Literal bool `json:"literal,omitempty"`
	Marker  bool `json:"marker,omitempty"`
	Private bool `json:"private,omitempty"`
	UTC     bool `json:"utc,omitempty"`
}

// MaxExpanded is the size from which expanded data is too large.
const MaxExpanded = 1 << 30

// TooLarge is the value listed for compressed data that expands too far.
const TooLarge = "<too laege decompressed data>"

type fail struct{ msg string }

func bad(format string, a ...interface{}) { panic(fail{fmt.Sprintf(format, a...)}) }

// cur is a cursor over the octets of one block.
type cur struct {
	b   []byte
	pos int
}

func (c *cur) rest() int    { return len(c.b) - c.pos }
func (c *cur) left() []byte { return c.b[c.pos:] }
func (c *cur) take(n int) []byte {
	if n > c.rest() {
		bad("need %d octets, have %d", n, c.rest())
	}
	r := c.b[c.pos : c.pos+n]
	c.pos += n
	return r
}
func (c *cur) u8() byte { return c.take(1)[0] }
func (c *cur) u16() int { b := c.take(2); return int(b[0])<<8 | int(b[1]) }
func (c *cur) u32() uint32 {
	b := c.take(4)
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}
func (c *cur) all() []byte { r := c.left(); c.pos = len(c.b); return r }

const (
	modeNone = iota
	modeSym
	modePub
)

// state is what one packet may tell a later one.
type state struct {
	mode    int
	keyTime *uint32
}

type dec struct {
	o   Opt
	loc *time.Location
	st  *state
}

// Packet is one framed packet.
type Packet struct {
	Tag  int
	Body []byte
	End  int // offset after the packet
}

// Frame splits a stream into packets; on error it returns the complete packets before it.
func Frame(s []byte) ([]Packet, error) {
	var out []Packet
	i := 0
	for i < len(s) {
		h := s[i]
		i++
		if h&0x80 == 0 {
			return out, errors.New("not a packet header")
		}
		need := func(n int) bool { return len(s)-i >= n }
		be := func(n int) int {
			v := 0
			for k := 0; k < n; k++ {
				v = v<<8 | int(s[i+k])
			}
			i += n
			return v
		}
		short := errors.New("truncated packet")
		var p Packet
		if h&0x40 == 0 {
			p.Tag = int(h>>2) & 15
			lt := h & 3
			if lt == 3 {
				p.Body = s[i:]
				i = len(s)
			} else {
				w := 1 << lt
				if !need(w) {
					return out, short
				}
				n := be(w)
				if !need(n) {
					return out, short
				}
				p.Body = s[i : i+n]
				i += n
			}
		} else {
			p.Tag = int(h & 63)
			first := true
			for {
				if !need(1) {
					return out, short
				}
				l := int(s[i])
				i++
				n, partial := 0, false
				switch {
				case l < 192:
					n = l
				case l < 224:
					if !need(1) {
						return out, short
					}
					n = (l-192)<<8 + int(s[i]) + 192
					i++
				case l < 255:
					n, partial = 1<<(l&31), true
				default:
					if !need(4) {
						return out, short
					}
					n = be(4)
				}
				if !need(n) {
					return out, short
				}
				if first && !partial {
					p.Body = s[i : i+n]
				} else {
					p.Body = append(p.Body, s[i:i+n]...) // never aliases s: it starts as nil
				}
				i += n
				first = false
				if !partial {
					break
				}
			}
		}
		p.End = i
		out = append(out, p)
	}
	return out, nil
}

// Dump is the expected listing of a binary stream. On error the packets listed before the
// failing one are returned with it.
func Dump(s []byte, o Opt, loc *time.Location) ([]*Item, error) {
	d := &dec{o: o, loc: loc, st: &state{}}
	return d.stream(s, true)
}

func (d *dec) stream(s []byte, expand bool) ([]*Item, error) {
	pk, ferr := Frame(s)
	var out []*Item
	for _, p := range pk {
		it, err := d.try(p.Tag, p.Body, expand)
		if err != nil {
			return out, err
		}
		out = append(out, it)
	}
	return out, ferr
}

func (d *dec) try(tag int, body []byte, expand bool) (it *Item, err error) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(fail)
			if !ok {
				panic(r)
			}
			err = errors.New(f.msg)
		}
	}()
	return d.packet(tag, body, expand), nil
}

func nbytes(n int) string { return fmt.Sprintf("%d bytes", n) }

func hexIf(f bool, b []byte) string {
	if !f {
		return ""
	}
	return Hex(b)
}

func raw(name string, b []byte, dump bool) *Item {
	return &Item{Name: name, Note: nbytes(len(b)), Dump: hexIf(dump, b)}
}

func (d *dec) enum(name, value string, b byte) *Item {
	return &Item{Name: name, Value: value, Dump: hexIf(d.o.Debug, []byte{b})}
}
func (d *dec) pub(b byte) *Item  { return d.enum("Public-key Algorithm", PubName(b), b) }
func (d *dec) sym(b byte) *Item  { return d.enum("Symmetric Algorithm", SymName(b), b) }
func (d *dec) hash(b byte) *Item { return d.enum("Hash Algorithm", HashName(b), b) }
func (d *dec) comp(b byte) *Item { return d.enum("Compression Algorithm", CompName(b), b) }
func (d *dec) aead(b byte) *Item { return d.enum("AEAD Algorithm", AEADName(b), b) }
func (d *dec) sig(b byte) *Item  { return d.enum("Signiture Type", SigName(b), b) }

func (d *dec) version(v, current, draft byte) *Item {
	it := d.enum("Version", fmt.Sprint(v), v)
	switch {
	case v < current:
		it.Note = "old"
	case v == current:
		it.Note = "current"
	case draft != 0 && v == draft:
		it.Note = "draft"
	default:
		it.Note = "unknown"
	}
	return it
}

func keyID(b []byte) *Item { return &Item{Name: "Key ID", Value: fmt.Sprintf("0x%x", b)} }

func (d *dec) stamp(t int64) string {
	tm := time.Unix(t, 0)
	if d.o.UTC {
		tm = tm.UTC()
	} else {
		tm = tm.In(d.loc)
	}
	return tm.Format("2006-01-02T15:04:05Z07:00")
}

func (d *dec) time(name string, c *cur) (*Item, uint32) {
	p := c.pos
	t := c.u32()
	return &Item{Name: name, Value: d.stamp(int64(t)), Dump: hexIf(d.o.Debug, c.b[p:p+4])}, t
}

func (d *dec) expire(name string, c *cur, from *uint32) *Item {
	p := c.pos
	e := c.u32()
	it := &Item{Name: name, Value: fmt.Sprintf("%v days after", float64(e)/86400), Dump: hexIf(d.o.Debug, c.b[p:p+4])}
	if from != nil && *from != 0 {
		it.Note = d.stamp(int64(*from) + int64(e))
	}
	return it
}

// EscapeText shows control characters as code points.
func EscapeText(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 0x20 || r >= 0x7f && r < 0xa0 {
			fmt.Fprintf(&b, "(U+%04X)", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func textItem(name string, b []byte, dump bool) *Item {
	switch {
	case len(b) == 0:
		return &Item{Name: name, Note: "0 byte"}
	case !utf8.Valid(b):
		return &Item{Name: name, Note: "invalid text string", Dump: Hex(b)}
	}
	return &Item{Name: name, Value: EscapeText(string(b)), Dump: hexIf(dump, b)}
}

func (d *dec) mpi(c *cur, name string) *Item {
	it, _ := d.mpiNamed(c, func([]byte) string { return name })
	return it
}

func (d *dec) mpiNamed(c *cur, name func([]byte) string) (*Item, []byte) {
	bits := c.u16()
	v := c.take((bits + 7) / 8)
	return &Item{Name: name(v), Note: fmt.Sprintf("%d bits", bits), Dump: hexIf(d.o.Integer || d.o.Debug, v)}, v
}

func (d *dec) point(c *cur, alg string) *Item {
	it, _ := d.mpiNamed(c, func(v []byte) string { return pointName(alg, v) })
	return it
}

// counted reads a block with a one-octet count; a missing count octet stands for an empty block.
func counted(c *cur) []byte {
	if c.rest() == 0 {
		return nil
	}
	return c.take(int(c.u8()))
}

func (d *dec) oid(c *cur) *Item {
	b := c.take(int(c.u8()))
	return &Item{Name: "ECC Curve OID", Value: curveName(b), Dump: Hex(b)}
}

type algKind int

const (
	kOther algKind = iota
	kRSA
	kDSA
	kElg
	kECDH
	kECDSA
	kEdDSA
)

func kind(pub byte) algKind {
	switch pub {
	case 1, 2, 3:
		return kRSA
	case 17:
		return kDSA
	case 16, 20:
		return kElg
	case 18:
		return kECDH
	case 19:
		return kECDSA
	case 22:
		return kEdDSA
	}
	return kOther
}

func (d *dec) mpis(it *Item, c *cur, names ...string) {
	for _, n := range names {
		it.add(d.mpi(c, n))
	}
}

func (d *dec) unread(it *Item, c *cur, name string) {
	it.add(raw(name, c.left(), d.o.Debug))
}

func (d *dec) trailing(it *Item, c *cur) {
	if c.rest() > 0 {
		it.add(raw("Unknown data", c.left(), d.o.Debug))
	}
}

func (d *dec) pubMaterial(it *Item, c *cur, pub byte) {
	switch kind(pub) {
	case kRSA:
		d.mpis(it, c, "RSA public modulus n", "RSA public encryption exponent e")
	case kDSA:
		d.mpis(it, c, "DSA p", "DSA q (q is a prime divisor of p-1)", "DSA g", "DSA y (= g^x mod p where x is secret)")
	case kElg:
		d.mpis(it, c, "ElGamal prime p", "ElGamal group generator g", "ElGamal public key value y (= g^x mod p where x is secret)")
	case kECDH:
		it.add(d.oid(c))
		it.add(d.point(c, "ECDH"))
		kdf := counted(c)
		k := raw("KDF parameters", kdf, d.o.Integer || d.o.Debug)
		if len(kdf) > 2 && kdf[0] == 1 {
			k.add(d.hash(kdf[1]), d.sym(kdf[2]))
		} else {
			k.Value = unknown
		}
		it.add(k)
	case kECDSA:
		it.add(d.oid(c))
		it.add(d.point(c, "ECDSA"))
	case kEdDSA:
		it.add(d.oid(c))
		it.add(d.point(c, "EdDSA"))
	default:
		d.unread(it, c, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", pub))
	}
}

func (d *dec) sigMaterial(it *Item, c *cur, pub byte) {
	switch kind(pub) {
	case kRSA:
		d.mpis(it, c, "RSA signature value m^d mod n")
	case kDSA:
		d.mpis(it, c, "DSA value r", "DSA value s")
	case kElg:
		d.mpis(it, c, "ElGamal a = g^k mod p", "ElGamal b = (h - a*x)/k mod p - 1")
	case kECDH:
		d.unread(it, c, "Multi-precision integers of ECDH")
	case kECDSA:
		d.mpis(it, c, "ECDSA value r", "ECDSA value s")
	case kEdDSA:
		d.mpis(it, c, "EC point r", "EdDSA value s in the little endian representation")
	default:
		d.unread(it, c, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", pub))
	}
}

func (d *dec) sesMaterial(it *Item, c *cur, pub byte) {
	const m = "m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5"
	switch kind(pub) {
	case kRSA:
		d.mpis(it, c, "RSA m^e mod n; "+m)
	case kElg:
		d.mpis(it, c, "ElGamal g^k mod p", "ElGamal m * y^k mod p; "+m)
	case kECDH:
		it.add(d.point(c, "ECDH"))
		it.add(raw("symmetric key (encoded)", counted(c), d.o.Integer || d.o.Debug))
	case kDSA:
		d.unread(it, c, "Multi-precision integers of DSA")
	case kECDSA:
		d.unread(it, c, "Multi-precision integers of ECDSA")
	case kEdDSA:
		d.unread(it, c, "Multi-precision integers of EdDSA")
	default:
		d.unread(it, c, fmt.Sprintf("Multi-precision integers of Unknown (pub %d)", pub))
	}
}

// keyBody decodes version 3-5 public key fields after the version octet. known is false for
// other versions, of which nothing is decoded.
func (d *dec) keyBody(it *Item, c *cur, v byte) (pub byte, known bool) {
	if v < 3 || v > 5 {
		return 0, false
	}
	ti, t := d.time("Public key creation time", c)
	d.st.keyTime = &t
	it.add(ti)
	if v == 3 {
		it.add(&Item{Name: "Valid days", Value: fmt.Sprint(c.u16()), Note: "0 is forever"})
	}
	pub = c.u8()
	it.add(d.pub(pub))
	if v == 5 {
		n := int(c.u32())
		sub := &cur{b: c.take(n)}
		d.pubMaterial(it, sub, pub)
		d.trailing(it, sub)
	} else {
		d.pubMaterial(it, c, pub)
	}
	return pub, true
}

func (d *dec) s2k(it *Item, c *cur) (noIV bool) {
	t := c.u8()
	s := d.enum("String-to-Key (S2K) Algorithm", S2KName(t), t)
	it.add(s)
	switch t {
	case 0, 1, 3:
		s.add(d.hash(c.u8()))
		if t != 0 {
			s.add(&Item{Name: "Salt", Dump: Hex(c.take(8))})
		}
		if t == 3 {
			n := c.u8()
			count := (16 + uint64(n&15)) << (n>>4 + 6)
			s.add(&Item{Name: "Count", Value: fmt.Sprint(count), Dump: Hex([]byte{n})})
		}
	case 101:
		if c.rest() >= 4 && string(c.left()[:3]) == "GNU" {
			c.take(3)
			n := int(c.u8()) + 1000
			g := &Item{Name: "GNU-divert-to-card", Value: fmt.Sprintf("Extension Number %d", n)}
			if n == 1002 {
				g.add(&Item{Name: "Serial Number", Dump: Hex(c.take(int(c.u8())))})
			}
			s.add(g)
			return true
		}
	}
	return false
}

func (d *dec) secKey(it *Item, c *cur, v, pub byte) {
	usage := c.u8()
	opt := c
	if v == 5 {
		opt = &cur{b: c.take(int(c.u8()))}
	}
	if v != 5 || len(opt.b) > 0 {
		var alg byte
		iv := false
		switch usage {
		case 0:
		case 253, 254, 255:
			alg = opt.u8()
			it.add(d.sym(alg))
			if usage == 253 {
				it.add(d.aead(opt.u8()))
			}
			iv = !d.s2k(it, opt)
		default:
			alg = usage
			it.add(d.sym(alg))
			iv = true
		}
		if iv {
			n := "IV"
			if usage == 253 {
				n = "nonce for the AEAD"
			}
			it.add(&Item{Name: n, Dump: Hex(opt.take(blockSize(alg)))})
		}
		if v == 5 {
			d.trailing(it, opt)
		}
	}
	mat := c
	if v == 5 {
		mat = &cur{b: c.take(int(c.u32()))}
		if len(mat.b) == 0 {
			return
		}
	}
	switch usage {
	case 0:
		it.Note = "s2k usage 0; plain secret-key material"
		switch kind(pub) {
		case kRSA:
			d.mpis(it, mat, "RSA secret exponent d", "RSA secret prime value p", "RSA secret prime value q (p < q)", "RSA u, the multiplicative inverse of p, mod q")
		case kDSA:
			d.mpis(it, mat, "DSA secret exponent x")
		case kElg:
			d.mpis(it, mat, "ElGamal secret exponent x")
		case kECDH:
			d.mpis(it, mat, "ECDH secret key")
		case kECDSA:
			d.mpis(it, mat, "ECDSA secret key")
		case kEdDSA:
			d.mpis(it, mat, "EdDSA secret key")
		default:
			n := mat.rest() - 2
			if n < 0 {
				bad("no room for a checksum")
			}
			it.add(raw(fmt.Sprintf("Multi-precision integers of unknown secret key (pub %d)", pub), mat.take(n), d.o.Debug))
		}
		it.add(&Item{Name: "2-octet checksum", Dump: Hex(c.take(2))})
	default:
		switch usage {
		case 253:
			it.Note = "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
		case 254:
			it.Note = "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
		default:
			it.Note = fmt.Sprintf("s2k usage %d; encrypted secret-key material and 2-octet checksum", usage)
		}
		n := fmt.Sprintf("Multi-precision integers of unknown encrypted key (pub %d)", pub)
		switch kind(pub) {
		case kRSA:
			n = "RSA encrypted key (d, p, q, u)"
		case kDSA:
			n = "DSA encrypted key"
		case kElg:
			n = "Elgamal encrypted key"
		case kECDH:
			n = "ECDH encrypted key"
		case kECDSA:
			n = "ECDSA encrypted key"
		case kEdDSA:
			n = "EdDSA encrypted key"
		}
		it.add(raw(n, mat.all(), d.o.Debug))
	}
	if v == 5 {
		d.trailing(it, mat)
	}
}

func (d *dec) packet(tag int, body []byte, expand bool) *Item {
	it := &Item{Name: TagName(tag), Note: nbytes(len(body)), Dump: hexIf(d.o.Debug, body)}
	c := &cur{b: body}
	switch tag {
	case 1:
		d.st.mode = modePub
		it.add(d.version(c.u8(), 3, 0))
		it.add(keyID(c.take(8)))
		pub := c.u8()
		it.add(d.pub(pub))
		d.sesMaterial(it, c, pub)
		d.trailing(it, c)
	case 2:
		d.signature(it, c)
	case 3:
		d.st.mode = modeSym
		v := c.u8()
		it.add(d.version(v, 4, 5))
		if v == 4 {
			it.add(d.sym(c.u8()))
			d.s2k(it, c)
		}
		d.trailing(it, c)
	case 4:
		it.add(d.version(c.u8(), 3, 0))
		it.add(d.sig(c.u8()))
		it.add(d.hash(c.u8()))
		it.add(d.pub(c.u8()))
		it.add(keyID(c.take(8)))
		f := c.u8()
		s := "other than one pass signature"
		if f == 0 {
			s = "another one pass signature"
		}
		it.add(&Item{Name: "Encrypted session key", Value: s, Note: fmt.Sprintf("flag 0x%02x", f)})
		d.trailing(it, c)
	case 5, 7:
		v := c.u8()
		it.add(d.version(v, 4, 5))
		p := &Item{Name: "Public-Key"}
		it.add(p)
		if pub, known := d.keyBody(p, c, v); known {
			s := &Item{Name: "Secret-Key"}
			it.add(s)
			d.secKey(s, c, v, pub)
		}
		d.trailing(it, c)
	case 6, 14:
		v := c.u8()
		it.add(d.version(v, 4, 5))
		d.keyBody(it, c, v)
		d.trailing(it, c)
	case 8:
		d.compressed(it, c, expand)
	case 9:
		e := raw("Encrypted data", body, d.o.Debug)
		switch d.st.mode {
		case modeSym:
			e.Value = "sym alg is specified in sym-key encrypted session key"
		case modePub:
			e.Value = "sym alg is specified in pub-key encrypted session key"
		default:
			e.Value = "sym alg is IDEA, simple string-to-key"
		}
		d.st.mode = modeNone
		it.add(e)
	case 10:
		it.add(raw("Literal data", body, d.o.Marker || d.o.Debug))
	case 11:
		lit := d.o.Literal || d.o.Debug
		v, n := LiteralName(c.u8())
		it.add(&Item{Name: "Literal data format", Value: v, Note: n})
		it.add(textItem("File name", c.take(int(c.u8())), lit))
		ti, t := d.time("Creation time", c)
		if t == 0 {
			ti.Value = "null"
		}
		it.add(ti)
		it.add(raw("Literal data", c.left(), lit))
	case 12:
		it.add(raw("Trust", body, true))
	case 13:
		it.add(textItem("User ID", body, d.o.Debug))
	case 17:
		it.add(d.subpackets("Subpacket", body, d.attribute))
	case 18:
		e := raw("Encrypted data", body, d.o.Debug)
		switch d.st.mode {
		case modeSym:
			e.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in sym-key encrypted session key"
		case modePub:
			e.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in pub-key encrypted session key"
		}
		d.st.mode = modeNone
		it.add(e)
	case 19:
		e := raw("MDC", body, d.o.Debug)
		e.Note = "SHA-1 (20 bytes)"
		it.add(e)
	case 20:
		it.add(d.version(c.u8(), 1, 0))
		it.add(d.sym(c.u8()))
		a := c.u8()
		it.add(d.aead(a))
		n := c.u8()
		sz := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(n)+6), nil)
		it.add(&Item{Name: "Chunk size", Value: sz.String(), Dump: Hex([]byte{n})})
		it.add(&Item{Name: "IV", Dump: Hex(c.take(aeadIV(a)))})
		if c.rest() > 0 {
			it.add(raw("Encrypted data and authentication tag", c.left(), d.o.Debug))
		}
	case 60, 61, 62, 63:
		it.Dump = hexIf(d.o.Private || d.o.Debug, body)
	}
	return it
}

func (d *dec) compressed(it *Item, c *cur, expand bool) {
	a := c.u8()
	it.add(d.comp(a))
	z := c.left()
	if len(z) == 0 {
		return
	}
	e := raw("Compressed data", z, d.o.Debug)
	it.add(e)
	var r io.Reader
	switch a {
	case 0:
		r = nil
	case 1:
		r = flate.NewReader(bytes.NewReader(z))
	case 2:
		zr, err := zlib.NewReader(bytes.NewReader(z))
		if err != nil {
			bad("zlib: %v", err)
		}
		r = zr
	case 3:
		r = bzip2.NewReader(bytes.NewReader(z))
	default:
		return
	}
	plain := z
	if r != nil {
		var err error
		plain, err = io.ReadAll(io.LimitReader(r, MaxExpanded))
		if err != nil {
			bad("corrupt: %v", err)
		}
		if len(plain) >= MaxExpanded {
			e.Value = TooLarge
			return
		}
	}
	if !expand {
		return
	}
	items, err := d.stream(plain, false)
	if err != nil {
		bad("in compressed data: %v", err)
	}
	it.add(items...)
}

type sub struct {
	typ  byte
	body []byte
}

// Subpackets splits an area into subpackets.
func splitSubs(b []byte) (out []sub) {
	for len(b) > 0 {
		h, n := 1, int(b[0])
		switch {
		case n < 192:
		case n < 255:
			if len(b) < 2 {
				bad("subpacket length")
			}
			h, n = 2, (n-192)<<8+int(b[1])+192
		default:
			if len(b) < 5 {
				bad("subpacket length")
			}
			h, n = 5, int(b[1])<<24|int(b[2])<<16|int(b[3])<<8|int(b[4])
		}
		if n == 0 || len(b)-h < n {
			bad("subpacket of %d octets", n)
		}
		out = append(out, sub{b[h], b[h+1 : h+n]})
		b = b[h+n:]
	}
	return
}

func (d *dec) subpackets(name string, b []byte, f func(*Item, sub) *Item) *Item {
	area := &Item{Name: name, Note: nbytes(len(b)), Dump: hexIf(d.o.Debug, b)}
	for _, s := range splitSubs(b) {
		root := &Item{Name: SubName(s.typ), Note: nbytes(len(s.body)), Dump: hexIf(d.o.Debug, s.body)}
		area.add(f(root, s))
	}
	return area
}

func (d *dec) attribute(it *Item, s sub) *Item {
	if s.typ&0x7f != 1 {
		return it
	}
	c := &cur{b: s.body}
	l := c.take(2)
	hl := int(l[0]) | int(l[1])<<8
	if hl > len(s.body) {
		bad("image header of %d octets", hl)
	}
	v := c.u8()
	vi := &Item{Name: "Version", Value: fmt.Sprint(v)}
	it.add(vi)
	enc := v == 1
	switch {
	case v == 1:
	case isPriv(v):
		vi.Note = "private or experimental use"
		enc = true
	default:
		vi.Note = unknown
	}
	if enc {
		e := c.u8()
		n := unknown
		if e == 1 {
			n = "JPEG"
		}
		it.add(&Item{Name: "Encoding", Value: n, Note: fmt.Sprintf("(enc %d)", e)})
	}
	it.add(&Item{Name: "Image data", Note: nbytes(len(s.body) - hl)})
	return it
}

func (d *dec) signature(it *Item, c *cur) {
	v := c.u8()
	it.add(d.version(v, 4, 5))
	switch v {
	case 3:
		n := c.u8()
		h := &Item{Name: "Hashed material", Note: nbytes(int(n))}
		it.add(h)
		if n == 5 {
			h.add(d.sig(c.u8()))
			ti, _ := d.time("Signature creation time", c)
			h.add(ti)
		} else {
			h.Value = unknown
			h.Dump = hexIf(d.o.Debug, c.take(int(n)))
		}
		it.add(keyID(c.take(8)))
		pub := c.u8()
		it.add(d.pub(pub))
		it.add(d.hash(c.u8()))
		it.add(&Item{Name: "Hash left 2 bytes", Dump: Hex(c.take(2))})
		d.sigMaterial(it, c, pub)
	case 4, 5:
		it.add(d.sig(c.u8()))
		pub := c.u8()
		it.add(d.pub(pub))
		it.add(d.hash(c.u8()))
		var created *uint32
		f := func(root *Item, s sub) *Item { return d.subpacket(root, s, &created) }
		if n := c.u16(); n > 0 {
			it.add(d.subpackets("Hashed Subpacket", c.take(n), f))
		}
		if n := c.u16(); n > 0 {
			it.add(d.subpackets("Unhashed Subpacket", c.take(n), f))
		}
		it.add(&Item{Name: "Hash left 2 bytes", Dump: Hex(c.take(2))})
		d.sigMaterial(it, c, pub)
	}
	d.trailing(it, c)
}

func flag(set bool, s string) *Item {
	if !set {
		return nil
	}
	return &Item{Name: "Flag", Value: s}
}

func unkFlag(octet int, bits byte) *Item {
	return flag(bits != 0, fmt.Sprintf("Unknown flag%d(0x%02x)", octet, bits))
}

func (d *dec) subpacket(it *Item, s sub, created **uint32) *Item {
	c := &cur{b: s.body}
	list := func(f func(byte) *Item) {
		for _, b := range s.body {
			it.add(f(b))
		}
	}
	flags := func(from int) {
		for n, b := range c.all() {
			it.add(unkFlag(from+n, b))
		}
	}
	yes := func(t, f string) {
		it.Value = f
		if c.u8() != 0 {
			it.Value = t
		}
	}
	switch s.typ & 0x7f {
	case 2:
		ti, t := d.time(it.Name, c)
		*created = &t
		return ti
	case 3:
		return d.expire(it.Name, c, *created)
	case 4:
		yes("Exportable", "Not exportable")
	case 5:
		it.add(&Item{Name: "Level", Value: fmt.Sprint(c.u8())})
		it.add(&Item{Name: "Trust amount", Value: fmt.Sprint(c.u8())})
	case 6, 24, 26, 28:
		return textItem(it.Name, s.body, d.o.Debug)
	case 7:
		yes("Revocablee", "Not revocable")
	case 9:
		return d.expire(it.Name, c, d.st.keyTime)
	case 11:
		list(d.sym)
	case 12:
		cl := c.u8()
		v := unknown
		switch cl & 0xc0 {
		case 0x80:
			v = "Normal"
		case 0xc0:
			v = "Sensitive"
		}
		it.add(&Item{Name: "Class", Value: v, Dump: Hex([]byte{cl})})
		it.add(d.pub(c.u8()))
		it.add(raw("Fingerprint", c.left(), true))
	case 16:
		return &Item{Name: it.Name, Value: keyID(c.take(8)).Value}
	case 20:
		f := c.take(4)
		it.add(flag(f[0]&0x80 != 0, "Human-readable"))
		it.add(unkFlag(1, f[0]&0x7f), unkFlag(2, f[1]), unkFlag(3, f[2]), unkFlag(4, f[3]))
		nl, vl := c.u16(), c.u16()
		it.add(textItem("Name", c.take(nl), d.o.Debug))
		v := c.take(vl)
		if f[0]&0x80 != 0 {
			it.add(textItem("Value", v, d.o.Debug))
		} else {
			it.add(&Item{Name: "Value", Dump: Hex(v)})
		}
	case 21:
		list(d.hash)
	case 22:
		list(d.comp)
	case 23:
		f := c.u8()
		it.add(flag(f&0x80 != 0, "No-modify"), unkFlag(1, f&0x7f))
		flags(2)
	case 25:
		yes("Primary", "Not primary")
	case 27:
		f := c.u8()
		for n, s := range []string{
			"This key may be used to certify other keys.",
			"This key may be used to sign data.",
			"This key may be used to encrypt communications.",
			"This key may be used to encrypt storage.",
			"The private component of this key may have been split by a secret-sharing mechanism.",
			"This key may be used for authentication.",
			"Unknown flag1(0x40)",
			"The private component of this key may be in the possession of more than one person.",
		} {
			it.add(flag(f>>uint(n)&1 != 0, s))
		}
		if c.rest() > 0 {
			f := c.u8()
			it.add(flag(f&4 != 0, "This key may be used as an additional decryption subkey (ADSK)."))
			it.add(flag(f&8 != 0, "This key may be used for timestamping."))
			it.add(unkFlag(2, f&^12))
		}
		flags(3)
	case 29:
		it.Value = ReasonName(c.u8())
		if c.rest() > 0 {
			it.add(textItem("Additional resultrmation", c.left(), d.o.Debug))
		}
	case 30:
		f := c.u8()
		it.add(flag(f&1 != 0, "Modification Detection (packets 18 and 19)"))
		it.add(flag(f&2 != 0, "AEAD Encrypted Data Packet (packet 20) and version 5 Symmetric-Key Encrypted Session Key Packets (packet 3)"))
		it.add(flag(f&4 != 0, "Version 5 Public-Key Packet format and corresponding new fingerprint format"))
		it.add(unkFlag(1, f&0xf8))
		flags(2)
	case 31:
		it.add(d.pub(c.u8()), d.hash(c.u8()))
		it.add(raw("Hash", c.left(), true))
	case 32:
		it.add(d.packet(2, s.body, false))
	case 33, 35:
		v := c.u8()
		n := unknown
		switch v {
		case 4:
			n = "need 20 octets length"
		case 5:
			n = "need 32 octets length"
		}
		it.add(&Item{Name: "Version", Value: fmt.Sprint(v), Note: n})
		it.add(raw("Fingerprint", c.left(), true))
	case 34:
		list(d.aead)
	case 37:
		it.add(raw("certification digests", s.body, d.o.Cert || d.o.Debug))
	case 38:
		t := c.u8()
		it.add(&Item{Name: "Type", Value: fmt.Sprint(t)})
		k := raw("Key data", c.left(), d.o.Debug)
		if t == 0 {
			inner := &dec{o: d.o, loc: d.loc, st: &state{}}
			items, err := inner.stream(c.left(), false)
			if err != nil {
				bad("in key block: %v", err)
			}
			k.add(items...)
		}
		it.add(k)
	}
	return it
}
