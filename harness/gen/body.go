package gen

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"unicode/utf8"

	"verif/harness/ref"

	"pgregory.net/rapid"
)

var (
	pubAlgs  = []byte{1, 2, 3, 16, 17, 18, 19, 20, 21, 22, 100}
	goodPubs = []byte{1, 2, 3, 16, 17, 18, 19, 20, 22}
	symAlgs  = []byte{0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13}
	hashAlgs = []byte{1, 2, 3, 8, 9, 10, 11, 12, 14}
	sigTypes = []byte{0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x16, 0x18, 0x19, 0x1f, 0x20, 0x28, 0x30, 0x40, 0x50}
)

// OID draws the octets of a curve identifier: a known one, a damaged one or any.
func OID(t *rapid.T) []byte {
	known := ref.CurveOIDs()
	switch k := Pick(t, 10); {
	case k < 7:
		return known[Pick(t, len(known))]
	case k < 9:
		b := append([]byte{}, known[Pick(t, len(known))]...)
		switch Pick(t, 3) {
		case 0:
			b = b[:Pick(t, len(b))]
		case 1:
			b = append(b, byte(Pick(t, 256)))
		default:
			b[Pick(t, len(b))] ^= 1 << uint(Pick(t, 8))
		}
		return b
	}
	return Fill(t, Of(t, 0, 1, 5, 8, 10, 20, 127, 128, 255, Edge(t, 255)))
}

func (w *W) oid() {
	o := OID(w.t)
	w.put(byte(w.lie(len(o), 255)))
	w.put(o...)
}

// parm appends a counted block whose count octet may be missing.
func (w *W) parm(b []byte) {
	if len(b) > 255 {
		b = b[:255]
	}
	if w.Evil && Chance(w.t, 8) {
		return
	}
	w.Free = append(w.Free, len(w.B))
	w.put(byte(w.lie(len(b), 255)))
	w.put(b...)
}

func (w *W) kdf() {
	switch k := Pick(w.t, 10); {
	case k < 6:
		w.parm([]byte{1, Byte(w.t, hashAlgs...), Byte(w.t, symAlgs...)})
	case k < 8:
		w.parm(append([]byte{1}, Fill(w.t, Pick(w.t, 6))...))
	default:
		w.parm(Fill(w.t, Of(w.t, 0, 1, 2, 3, 4, 20, 255, Edge(w.t, 255))))
	}
}

func (w *W) pubMaterial(pub byte) {
	switch pub {
	case 1, 2, 3:
		w.mpi()
		w.mpi()
	case 17:
		w.mpi()
		w.mpi()
		w.mpi()
		w.mpi()
	case 16, 20:
		w.mpi()
		w.mpi()
		w.mpi()
	case 18:
		w.oid()
		w.point()
		w.kdf()
	case 19, 22:
		w.oid()
		w.point()
	default:
		w.opt(Octets(w.t))
	}
}

func (w *W) sigMaterial(pub byte) {
	switch pub {
	case 1, 2, 3:
		w.mpi()
	case 16, 17, 19, 20, 22:
		w.mpi()
		w.mpi()
	default:
		w.opt(Octets(w.t))
	}
}

func (w *W) trailing() {
	if Chance(w.t, 5) {
		w.opt(Octets(w.t))
	}
}

func (w *W) inner() *W { return &W{t: w.t, Evil: w.Evil} }

// key appends a public key body; closed says that secret fields follow.
func (w *W) key(closed bool, likely []byte) (v, pub byte) {
	v = w.octet(3, 4, 4, 4, 5, 5)
	if v < 3 || v > 5 {
		w.opt(Octets(w.t))
		return
	}
	w.u32(U32(w.t))
	if v == 3 {
		w.u16(Of(w.t, 0, 1, 255, 256, 365, 32767, 32768, 65535, Pick(w.t, 65536)))
	}
	pub = w.octet(likely...)
	if v == 5 {
		in := w.inner()
		in.pubMaterial(pub)
		if Chance(w.t, 4) {
			in.opt(Octets(w.t))
		}
		b := w.cut(in.B)
		w.u32(uint32(w.lie(len(b), 1<<32-1)))
		w.put(b...)
		return
	}
	if closed && !known(pub) {
		return // no room between unknown material and what follows: the former takes it all
	}
	w.pubMaterial(pub)
	return
}

func known(pub byte) bool { return bytes.IndexByte(goodPubs, pub) >= 0 }

// s2k appends a string-to-key specifier; it reports whether an IV follows.
func (w *W) s2k() bool {
	t := w.octet(0, 1, 3, 3, 101, 101, 2)
	switch t {
	case 0:
		w.octet(hashAlgs...)
	case 1:
		w.octet(hashAlgs...)
		w.put(Fill(w.t, 8)...)
	case 3:
		w.octet(hashAlgs...)
		w.put(Fill(w.t, 8)...)
		w.octet(0, 0x60, 0xc0, 0xff)
	case 101:
		if Chance(w.t, 5) {
			return true // not the GNU extension
		}
		n := len(w.B)
		w.Free = append(w.Free, n, n+1, n+2, n+3)
		w.put('G', 'N', 'U')
		if w.octet(1, 2, 2) == 2 {
			s := Fill(w.t, Of(w.t, 0, 1, 6, 16, 16, 255))
			w.put(byte(w.lie(len(s), 255)))
			w.put(s...)
		}
		return false
	}
	return true
}

func blockLen(sym byte) int {
	switch {
	case sym <= 6:
		return 8
	case sym <= 13:
		return 16
	}
	return 0
}

func (w *W) secMaterial(pub byte) {
	switch pub {
	case 1, 2, 3:
		w.mpi()
		w.mpi()
		w.mpi()
		w.mpi()
	default:
		if known(pub) {
			w.mpi()
		}
	}
}

func (w *W) secret(v, pub byte) {
	usage := w.octet(0, 0, 253, 254, 254, 255, 7, 9, 3)
	opt := w
	if v == 5 {
		opt = w.inner()
	}
	switch usage {
	case 0:
		if v == 5 && Chance(w.t, 4) {
			opt.opt(Fill(w.t, Pick(w.t, 5)))
		}
	case 253, 254, 255:
		sym := opt.octet(symAlgs...)
		if usage == 253 {
			opt.octet(1, 2)
		}
		if opt.s2k() {
			opt.put(Fill(w.t, blockLen(sym))...)
		}
	default:
		opt.put(Fill(w.t, blockLen(usage))...)
	}
	if v == 5 {
		if Chance(w.t, 5) {
			opt.opt(Fill(w.t, Pick(w.t, 9)))
		}
		b := w.cut(opt.B)
		if len(b) > 255 {
			b = b[:255]
		}
		if Chance(w.t, 10) {
			b = nil
		}
		w.put(byte(w.lie(len(b), 255)))
		w.put(b...)
	}
	mat := w
	if v == 5 {
		mat = w.inner()
	}
	if usage == 0 {
		mat.secMaterial(pub)
		if !known(pub) {
			if v == 5 {
				mat.put(Fill(w.t, 2+Size(w.t))...)
			} else {
				w.put(Fill(w.t, 2)...)
				w.opt(Octets(w.t))
				return
			}
		}
	} else {
		mat.opt(Octets(w.t))
	}
	if v == 5 {
		if Chance(w.t, 5) {
			mat.opt(Fill(w.t, Pick(w.t, 9)))
		}
		b := w.cut(mat.B)
		if Chance(w.t, 12) {
			b = nil
		}
		w.u32(uint32(w.lie(len(b), 1<<32-1)))
		w.put(b...)
		if len(b) == 0 {
			return
		}
	}
	if usage == 0 {
		w.put(Fill(w.t, 2)...)
	}
}

var words = []string{"_CONSOLE", "Alice <alice@example.org>", "Alice (comment) <alice@example.org>", "<alice@example.org>", "alice@example.org", "test.txt", "http://example.org/?a=b&c=<d>", "hkps://keys.example.org",
	"-", ".", "..", "../x", "/etc/passwd", "C:\\x", "%s%d%!", "%", "\\x1b", "\\", "\\u0041", `"quoted"`, "'", "`", "null", "nil", "<nil>", "true", "0", "[]", "{}", "</pre>", "&amp;", " ", "  padded  ", "\ttab", "\u202etxt.exe", "a\u0301", "\U0001f600", "\ufeffbom", "\ufffd", "\u2028", "\u00ad", "\u200b",
	"preferred-email-encoding@pgp.com", "pka-address@gnupg.org", "salt@notations.sequoia-pgp.org", "issuer-fpr@notations.openpgp.fifthhorseman.net", "no value", "Unknown", "unknown", "hidden", "-----BEGIN PGP MESSAGE-----"}

// Text draws a text field: plain, with controls, any Unicode, or not UTF-8 at all.
func Text(t *rapid.T, max int) []byte {
	var b []byte
	n := 0
	switch Pick(t, 6) {
	case 0:
		n = 0
	case 1:
		n = max
	default:
		n = Pick(t, 24)
	}
	if n > max {
		n = max
	}
	if n > 300 { // long: what matters is near its end, or across a power of two
		b = bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
		tail := Text(t, 30)
		if len(tail) > n {
			tail = tail[:n]
		}
		at := n - len(tail)
		if Chance(t, 2) {
			if at = Of(t, 256, 512, 1024, 4096, 8192, 32768, 65536) - Pick(t, 4); at > n-len(tail) {
				at = n - len(tail)
			}
		}
		copy(b[at:], tail)
		return b
	}
	switch Pick(t, 8) {
	case 7: // texts that mean something somewhere
		b = []byte(Of(t, words...))
		if len(b) > max {
			b = b[:max]
		}
		return b
	case 0:
		return Fill(t, n) // mostly invalid
	case 1: // one bad octet somewhere
		for len(b) < n {
			b = append(b, 'a'+byte(len(b)%26))
		}
		if n > 0 {
			b[Pick(t, n)] = byte(0x80 + Pick(t, 128))
		}
		return b
	}
	controls := Chance(t, 2)
	for len(b) < n {
		r := rune('A')
		switch k := Pick(t, 12); {
		case k < 6:
			r = rune(0x20 + Pick(t, 95))
		case k < 8 && controls:
			r = Of(t, '\n', '\r', '\t', 0, 0x1b, 0x7f, 0x80, 0x85, 0x9b, 0x9f, 0x1f, 8, rune(Pick(t, 0x20)), rune(0x7f+Pick(t, 33)))
		case k < 9:
			r = rune(0xa0 + Pick(t, 0x500))
		case k < 10:
			r = Of[rune](t, 0x3042, 0x6f22, 0xfffd, 0x2028, 0x2029, 0x202e, 0x200b, 0xfeff, 0xad, 0xffff, 0xd7ff, 0xe000)
		case k < 11:
			r = Of[rune](t, 0x1f600, 0x10ffff, 0x10000, 0xe0001)
		default:
			r = Of(t, '<', '>', '&', '"', '\\', '%', ':', '(', ')', ' ')
		}
		var buf [4]byte
		m := utf8.EncodeRune(buf[:], r)
		if len(b)+m > n {
			b = append(b, 'z')
			continue
		}
		b = append(b, buf[:m]...)
	}
	return b
}

// textSize is mostly small.
func textSize(t *rapid.T) int {
	switch {
	case Chance(t, 13):
		return Of(t, 190, 191, 192, 193, 255, 256, 1000)
	case Chance(t, 13):
		return Edge(t, 520)
	case Chance(t, 40):
		return Edge(t, 65000)
	case Chance(t, 40):
		return Of(t, 1023, 1024, 1025, 1030, 2050, 4095, 4096, 4100, 8192, 8400, 5000, 17000, 33000, 65535)
	}
	return 40
}

// Subs are the decoded subpacket types, with their share.
var subTypes = []byte{2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38}

// Sub draws the content of a signature subpacket of type typ.
func Sub(t *rapid.T, typ byte, depth int, evil bool) *W {
	w := &W{t: t, Evil: evil}
	flags := func() {
		w.put(Of(t, 0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff, byte(Pick(t, 256))))
		n := Of(t, 0, 0, 1, 1, 2, 3, 7)
		if Chance(t, 30) {
			n = Edge(t, 70)
		}
		for i := 0; i < n; i++ {
			w.opt([]byte{Of(t, 0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff, byte(Pick(t, 256)))})
		}
	}
	list := func(likely []byte) {
		n := Of(t, 0, 1, 2, 3, 4, 5, 8)
		switch {
		case Chance(t, 40):
			n = Edge(t, 300)
			w.opt(Fill(t, n)) // most of them unknown
			return
		case Chance(t, 40):
			n = Edge(t, 66)
		}
		for i := 0; i < n; i++ {
			w.opt([]byte{Byte(t, likely...)})
		}
	}
	extra := func() {
		if Chance(t, 8) {
			w.opt(Fill(t, 1+Pick(t, 6)))
		}
	}
	switch typ & 0x7f {
	case 2, 3, 9:
		w.u32(U32(t))
		extra()
	case 4, 7, 25:
		w.octet(0, 1, 255)
		extra()
	case 5:
		w.put(Fill(t, 2)...)
		extra()
	case 6, 24, 26, 28:
		w.opt(Text(t, textSize(t)))
	case 11:
		list(symAlgs)
	case 12:
		w.octet(0x80, 0xc0, 0, 0x40)
		w.octet(pubAlgs...)
		w.opt(Fill(t, Of(t, 20, 20, 32, 0, Pick(t, 50), Edge(t, 300))))
	case 16:
		w.keyID()
		extra()
	case 20:
		w.put(Of(t, 0x80, 0x80, 0, byte(Pick(t, 256))), Of(t, 0, 0, byte(Pick(t, 256))), Of(t, 0, 0, byte(Pick(t, 256))), Of(t, 0, 0, byte(Pick(t, 256))))
		n, v := Text(t, textSize(t)), Text(t, textSize(t))
		w.u16(w.lie(len(n), 65535))
		w.u16(w.lie(len(v), 65535))
		w.put(n...)
		w.put(v...)
		extra()
	case 21:
		list(hashAlgs)
	case 22:
		list([]byte{0, 1, 2, 3})
	case 23, 27, 30:
		flags()
	case 29:
		w.octet(0, 1, 2, 3, 32, 100)
		w.opt(Text(t, textSize(t)))
	case 31:
		w.octet(pubAlgs...)
		w.octet(hashAlgs...)
		w.opt(Fill(t, Of(t, 20, 32, 0, Pick(t, 70), Edge(t, 300))))
	case 32:
		s := &W{t: t, Evil: evil}
		s.signature(depth - 1)
		w.B, w.Req, w.Free = s.B, s.Req, s.Free
	case 33, 35:
		w.octet(4, 5)
		w.opt(Fill(t, Of(t, 20, 32, 0, Pick(t, 50), Edge(t, 300))))
	case 34:
		list([]byte{1, 2})
	case 37:
		w.opt(Octets(t))
	case 38:
		typ := w.octet(0, 0, 0, 1)
		if depth <= 0 || typ != 0 {
			if typ != 0 {
				w.opt(Octets(t))
			}
			break
		}
		s := Stream(t, Cfg{Max: 3, Depth: depth - 1, Evil: evil, Tags: []int{6, 14, 13, 2, 17, 5, 7, 9, 18, 1}})
		w.opt(s.Encode())
	default:
		w.opt(Octets(t))
	}
	return w
}

// subLen encodes a subpacket length.
func subLen(t *rapid.T, n int) []byte {
	five := []byte{255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	switch {
	case Chance(t, 8):
		return five
	case n < 192:
		return []byte{byte(n)}
	case n < 16320:
		return []byte{byte((n-192)>>8) + 192, byte(n - 192)}
	}
	return five
}

// SubPacket frames a subpacket.
func (w *W) subPacket(typ byte, body []byte) []byte {
	n := w.lie(len(body)+1, 1<<32-1)
	return append(append(subLen(w.t, n), typ), body...)
}

func (w *W) area(depth int) []byte {
	t := w.t
	var a []byte
	n := Of(t, 0, 1, 1, 2, 3, 4, 6)
	for i := 0; i < n; i++ {
		typ := Of(t, subTypes...)
		switch k := Pick(t, 12); {
		case k < 2: // expiry times want a creation time before or after them
			typ = Of[byte](t, 2, 3, 9)
		case k < 3:
			typ = byte(Pick(t, 128))
		case k < 4 && depth > 0:
			typ = Of[byte](t, 32, 38)
		}
		if Chance(t, 4) {
			typ |= 0x80
		}
		if depth < -1 && typ&0x7f == 32 {
			typ = 2
		}
		s := Sub(t, typ, depth, w.Evil)
		if p := w.subPacket(typ, w.cut(s.B)); len(a)+len(p) <= 65535 {
			a = append(a, p...)
		}
	}
	switch {
	case Chance(t, 60) && len(a) > 0 && len(a) < 200: // many of them
		for k, one := Of(t, 2, 5, 10, 30, 100), a; k > 0; k-- {
			a = append(a[:len(a):len(a)], one...)
		}
	case Chance(t, 80): // a given number of them in all
		k := Edge(t, 260)
		if Chance(t, 8) {
			k = Edge(t, 2050)
		}
		var few [][]byte
		for i := 0; i < 3; i++ {
			typ := Of(t, 2, 4, 5, 7, 25, 16, 27, byte(Pick(t, 128)))
			if typ == 32 {
				typ = 3
			}
			s := Sub(t, typ, depth-1, w.Evil)
			if len(s.B) < 30 {
				few = append(few, w.subPacket(typ, w.cut(s.B)))
			}
		}
		few = append(few, []byte{2, 25, byte(Pick(t, 3))})
		if n > 0 && len(a) < 4000 {
			k -= n
		}
		if len(a) >= 4000 {
			a = nil
		}
		for i := 0; i < k && len(a)+40 < 65535; i++ {
			a = append(a[:len(a):len(a)], few[i%len(few)]...)
		}
	case Chance(t, 150): // a given number of octets in all
		size := Edge(t, 65535)
		if Chance(t, 4) {
			size = 65535
		}
		if pad := size - len(a); pad > 6 {
			typ := Of[byte](t, 24, 26, 100, 37)
			body := Fill(t, pad-6)
			a = append(append(a, 255, 0, byte((pad-5)>>16), byte((pad-5)>>8), byte(pad-5), typ), body...)
		}
	}
	return a
}

func (w *W) signature(depth int) {
	t := w.t
	v := w.octet(3, 4, 4, 4, 4, 5)
	switch v {
	case 3:
		n := w.octet(5, 5, 5, 0, 4, 6)
		if n == 5 {
			w.octet(sigTypes...)
			w.u32(U32(t))
		} else {
			w.put(Fill(t, int(n))...)
		}
		w.keyID()
		pub := w.octet(pubAlgs...)
		w.octet(hashAlgs...)
		w.put(Fill(t, 2)...)
		w.sigMaterial(pub)
	case 4, 5:
		w.octet(sigTypes...)
		pub := w.octet(pubAlgs...)
		w.octet(hashAlgs...)
		for i := 0; i < 2; i++ {
			a := w.area(depth)
			w.u16(w.lie(len(a), 65535))
			w.put(a...)
		}
		w.put(Fill(t, 2)...)
		w.sigMaterial(pub)
	default:
		w.opt(Octets(t))
		return
	}
	w.trailing()
}

// Body draws the body of a packet.
func Body(t *rapid.T, tag, depth int, evil bool) *W {
	w := &W{t: t, Evil: evil}
	switch tag {
	case 1:
		w.octet(3, 2)
		w.keyID()
		pub := w.octet(1, 2, 16, 18, 18, 20, 17, 19, 22)
		switch pub {
		case 1, 2, 3:
			w.mpi()
		case 16, 20:
			w.mpi()
			w.mpi()
		case 18:
			w.point()
			w.parm(Fill(t, Of(t, 48, 0, 1, 255, Pick(t, 256))))
		default:
			w.opt(Octets(t))
		}
		w.trailing()
	case 2:
		w.signature(depth)
	case 3:
		if w.octet(4, 4, 4, 5) == 4 {
			w.octet(symAlgs...)
			w.s2k()
		}
		w.trailing()
	case 4:
		w.octet(3)
		w.octet(sigTypes...)
		w.octet(hashAlgs...)
		w.octet(pubAlgs...)
		w.keyID()
		w.octet(0, 1)
		w.trailing()
	case 5, 7:
		v, pub := w.key(true, goodPubs)
		if v >= 3 && v <= 5 {
			if v != 5 && !known(pub) {
				// the unknown public material swallows the rest of the body; the secret part is missing
				w.Req = len(w.B) + 1
				w.opt(Octets(t))
				break
			}
			w.secret(v, pub)
		}
		w.trailing()
	case 6, 14:
		w.key(false, pubAlgs)
		w.trailing()
	case 8:
		alg := w.octet(0, 1, 1, 2, 2, 3)
		in := Octets(t)
		if depth > 0 && !Chance(t, 6) {
			in = Stream(t, Cfg{Max: 3, Depth: depth - 1, Evil: evil}).Encode()
		} else if !Chance(t, 8) {
			in = nil
		}
		z := Compress(alg, in)
		if evil && Chance(t, 3) {
			z = Damage(t, z)
		}
		w.opt(z)
	case 10:
		if Chance(t, 2) {
			w.opt([]byte("PGP"))
		} else {
			w.opt(Octets(t))
		}
	case 11:
		w.octet('b', 't', 'u', 'l', '1', 'm', '\n', 0x1b, 0x7f, 0)
		n := Text(t, Of(t, 20, 20, 20, 255))
		w.put(byte(w.lie(len(n), 255)))
		w.put(n...)
		w.u32(Of(t, 0, U32(t)))
		w.opt(Octets(t))
	case 13:
		w.opt(Text(t, textSize(t)))
	case 17:
		n := Of(t, 0, 1, 1, 2, 3)
		for i := 0; i < n; i++ {
			typ := Byte(t, 1, 1, 1, 2, 100)
			s := &W{t: t, Evil: evil}
			if typ&0x7f == 1 {
				s.image()
			} else {
				s.opt(Octets(t))
			}
			w.opt(w.subPacket(typ, w.cut(s.B)))
		}
	case 20:
		w.octet(1)
		w.octet(symAlgs...)
		a := w.octet(1, 2)
		w.octet(0, 6, 10, 16, 56, 57, 58, 255)
		n := 0
		switch a {
		case 1:
			n = 16
		case 2:
			n = 15
		}
		w.put(Fill(t, n)...)
		w.opt(Octets(t))
	default:
		w.opt(Octets(t))
	}
	return w
}

// image appends an image attribute.
func (w *W) image() {
	t := w.t
	hl := Of(t, 16, 16, 16, 4, 3, 20, 256+16)
	h := []byte{byte(hl), byte(hl >> 8), Byte(t, 1, 1, 1, 100)}
	if hl > 3 {
		h = append(h, Byte(t, 1))
		h = append(h, Fill(t, hl-4)...)
	}
	if w.Evil && Chance(t, 4) {
		h[0] = byte(Pick(t, 256))
		h[1] = Of(t, 0, 1, 0xff, byte(Pick(t, 256)))
	}
	w.put(h...)
	w.opt(Octets(t))
}

// Compress packs octets with an OpenPGP compression algorithm; unknown ones leave them alone.
func Compress(alg byte, in []byte) []byte {
	var b bytes.Buffer
	switch alg {
	case 1:
		z, _ := flate.NewWriter(&b, 6)
		_, _ = z.Write(in)
		_ = z.Close()
	case 2:
		z := zlib.NewWriter(&b)
		_, _ = z.Write(in)
		_ = z.Close()
	case 3:
		return Bzip2(in)
	default:
		return append([]byte{}, in...)
	}
	return b.Bytes()
}

// Image draws an image attribute.
func Image(t *rapid.T) *W {
	w := &W{t: t}
	w.image()
	return w
}
