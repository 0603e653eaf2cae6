import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

# ------------------------------------------------------------------ C01
bug("C01-empty-eddsa-point", "C01",
 [("parse/pubkey/parse_pub.go", '''	flag := values.ECCPointCompFlag(0xff)
	if body := mpi.Rawdata(); len(body) > 0 {
		flag = values.ECCPointCompFlag(body[0])
	}
	item.Add(mpi.ToItem(flag.Name("EdDSA"), p.cxt.Integer()))''',
  '''	flag := values.ECCPointCompFlag(mpi.Rawdata()[0])
	item.Add(mpi.ToItem(flag.Name("EdDSA"), p.cxt.Integer()))''')],
 "an EdDSA public key whose point is a multi-precision integer of zero bits",
 "dumping such a key panics (index out of range) instead of giving a listing",
 cli(([], pkt(6, keybody(pub=22, mat=b"\x09\x2b\x06\x01\x04\x01\xda\x47\x0f\x01"+b"\0\0")))))

bug("C01-claimed-size-allocated", "C01",
 [("parse/tags/seckey.go", '''		b, err := p.reader.ReadBytes(int64(ll))
		if err != nil {
			return nil, errs.New("illegal key materia", errs.WithCause(err))
		}''', '''		b := make([]byte, ll)
		if _, err := p.reader.Read(b); err != nil {
			return nil, errs.New("illegal key materia", errs.WithCause(err))
		}''')],
 "a version 5 secret key whose four-octet key material count is far larger than the packet",
 "the memory allocated follows the claimed count (up to 4 GiB for a 40-octet packet)",
 go('''package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

func main() {
	body := []byte{5, 0x5f, 0, 0, 0, 1, 0, 0, 0, 8, 0, 16, 0x80, 1, 0, 9, 1, 1, 0, 0, 0x10, 0, 0, 0, 1, 2, 3}
	data := append([]byte{0xc5, byte(len(body))}, body...)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	p, err := parse.NewBytes(context.New(), data)
	if err == nil {
		_, err = p.Parse()
	}
	runtime.ReadMemStats(&b)
	fmt.Println("error:", err, "allocated:", b.TotalAlloc-a.TotalAlloc)
	if err == nil || b.TotalAlloc-a.TotalAlloc > 16<<20 {
		os.Exit(1)
	}
}
'''))

# ------------------------------------------------------------------ C02
bug("C02-empty-packets-skipped", "C02",
 [("parse/tags/packets.go", '''	p.tag = NewTag(op, p.cxt)
	return nil''', '''	if len(op.Contents) == 0 { //nothing to show
		return p.Next()
	}
	p.tag = NewTag(op, p.cxt)
	return nil''')],
 "a packet with an empty body (trust, user ID, marker, unknown tag) anywhere in the stream",
 "the packet is missing from the listing",
 cli(([], uid("a")+pkt(12, b"")+uid("b"))))

bug("C02-stream-limit", "C02",
 [("parse/tags/packets.go", '''opaqueReader: packet.NewOpaqueReader(reader)''', '''opaqueReader: packet.NewOpaqueReader(io.LimitReader(reader, 1<<24))''')],
 "a packet stream longer than 16 MiB",
 "what follows the first 16 MiB is not listed, or the dump fails",
 go('''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

func main() {
	b := append([]byte{0xff, 0xff, 0x01, 0x40, 0x00, 0x00}, make([]byte, 0x01400000)...)
	b = append(b, 0xcd, 1, 'a')
	p, err := parse.New(context.New(), bytes.NewReader(b))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	i, err := p.Parse()
	if err != nil || len(i.Packets) != 2 {
		fmt.Println(err, len(i.Packets))
		os.Exit(1)
	}
}
'''))

# ------------------------------------------------------------------ C03
bug("C03-partial-tail-is-eof", "C03",
 [("parse/parse.go", '''			if !errs.Is(err, io.EOF) { //EOF is not error
				return p.info, errs.Wrap(err)
			}
			return p.info, nil''', '''			if !errs.Is(err, io.EOF) && !(errs.Is(err, io.ErrUnexpectedEOF) && len(p.info.Packets) > 0) { //EOF is not error
				return p.info, errs.Wrap(err)
			}
			return p.info, nil''')],
 "a stream of at least two packets cut inside a packet that is not the first",
 "the cut stream is listed as a shorter message, without error",
 cli(([], (uid("a")+uid("bcdefgh"))[:-3]), ([], uid("abc")[:-1])))

bug("C03-garbage-after-packets", "C03",
 [("parse/tags/packets.go", '''	op, err := p.opaqueReader.Next()
	if err != nil {
		return errs.Wrap(err)
	}''', '''	op, err := p.opaqueReader.Next()
	if err != nil {
		if _, ok := err.(errors.StructuralError); ok && p.tag != nil { //padding after last packet
			return errs.Wrap(io.EOF)
		}
		return errs.Wrap(err)
	}'''),
  ("parse/tags/packets.go", '''	"golang.org/x/crypto/openpgp/packet"
''', '''	"golang.org/x/crypto/openpgp/errors"
	"golang.org/x/crypto/openpgp/packet"
''')],
 "complete packets followed by octets that are not a packet header (first bit clear)",
 "trailing garbage is silently ignored",
 cli(([], uid("a")+b"\x00\x01\x02garbage"), ([], b"\x00\x01")))

# ------------------------------------------------------------------ C04
bug("C04-dsa-s-optional", "C04",
 [("parse/pubkey/parse_sig.go", '''	item.Add(mpi.ToItem("DSA value r", p.cxt.Integer()))
	mpi, err = values.NewMPI(p.reader)
	if err != nil {''', '''	item.Add(mpi.ToItem("DSA value r", p.cxt.Integer()))
	if p.reader.Rest() == 0 {
		return nil
	}
	mpi, err = values.NewMPI(p.reader)
	if err != nil {''')],
 "a DSA signature that ends exactly after its first integer",
 "the packet is listed with the second integer missing instead of failing",
 cli((["-i"], sig(pub=17, mpis=mpi(64))), (["-i"], sig(pub=17, mpis=mpi(64)*2))))

bug("C04-notation-overrun", "C04",
 [("parse/tags/sub20.go", '''	value, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(valueLength)))
	if err != nil {
		return rootInfo, errs.New(fmt.Sprintf("illegal value (length: %d bytes)", valueLength), errs.WithCause(err))
	}''', '''	value, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(valueLength)))
	if err != nil {
		value, _ = s.reader.Read2EOF() //take what is there
	}''')],
 "a notation subpacket whose value length is larger than the subpacket",
 "a cut notation is listed with a shortened value",
 cli(([], sig(hashed=sub(20, b"\x80\0\0\0\0\x01\0\x09n"+b"val"))), ([], sig(hashed=sub(20, b"\x80\0\0\0\0\x01\0\x03n"+b"val")))))

bug("C04-card-serial-cut", "C04",
 [("parse/s2k/s2k.go", '''				ser, err := s.reader.ReadBytes(int64(l))
				if err != nil {
					return errs.New("invalid gnu-div s/n", errs.WithCause(err))
				}''', '''				if int64(l) > s.reader.Rest() {
					l = byte(s.reader.Rest())
				}
				ser, err := s.reader.ReadBytes(int64(l))
				if err != nil {
					return errs.New("invalid gnu-div s/n", errs.WithCause(err))
				}''')],
 "a card stub (GNU extension 1002) whose serial number is cut short",
 "the shortened serial number is listed without error",
 cli(([], pkt(5, keybody()+b"\xfe\x09\x65GNU\x02\x10"+b"0123456789")), ([], pkt(5, keybody()+b"\xfe\x09\x65GNU\x02\x0a"+b"0123456789"))))

# ------------------------------------------------------------------ C05
bug("C05-stray-end-line", "C05",
 [("armtext/armtext.go", '''		if armorFlag && !armorEndFlag {
			fmt.Fprintln(buf, str)
			if strings.HasPrefix(str, armorBounderyTerminate) {
				armorEndFlag = true
			}
		}''', '''		if armorEndFlag {
			continue
		}
		if armorFlag {
			fmt.Fprintln(buf, str)
		}
		if strings.HasPrefix(str, armorBounderyTerminate) {
			armorEndFlag = true
		}''')],
 "a line starting with -----END PGP in the text before the armor block",
 "the block after the stray line is not found: with the armor-only option an error, without it the text is dumped as binary",
 cli((["-a"], b"see below\n-----END PGP WHATEVER\n\n"+armor(uid("alice"))), ([], armor(uid("alice")))))

bug("C05-last-block-wins", "C05",
 [("armtext/armtext.go", '''		if !armorFlag {
			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {
				armorFlag = true
			}
		}''', '''		if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {
			armorFlag, armorEndFlag = true, false
			buf.Reset()
		}''')],
 "a text holding two armored blocks",
 "the last block is dumped instead of the first",
 cli(([], armor(uid("first"))+b"and\n"+armor(uid("second"))), (["-a"], armor(uid("first"))+armor(uid("second"), typ="SIGNATURE"))))

bug("C05-indented-boundary", "C05",
 [("armtext/armtext.go", '''		str := scn.Text()
''', '''		str := strings.TrimSpace(scn.Text())
''')],
 "surrounding text with an indented (quoted) -----BEGIN PGP line before the real block",
 "an indented example in the text is taken for the start of the block",
 cli((["-a"], b"".join(b"    "+l+b"\n" for l in armor(uid("example")).splitlines())+armor(uid("alice")))))

# ------------------------------------------------------------------ C06
bug("C06-crc-ignored", "C06",
 [("parse/parser.go", '''	return block.Body, nil
''', '''	data, err := io.ReadAll(block.Body)
	if err != nil && len(data) == 0 {
		return nil, errs.Wrap(err)
	}
	return bytes.NewReader(data), nil
''')],
 "an armored block whose checksum does not match its data",
 "damaged armor is dumped as if it were intact",
 cli(([], armor(uid("alice")+uid("bob"), crc=0x123456)), (["-a"], armor(uid("alice"), crc=0x123456)), ([], armor(uid("alice")))))

bug("C06-missing-end-accepted", "C06",
 [("armtext/armtext.go", '''	if !armorFlag || !armorEndFlag {
''', '''	if !armorFlag {
''')],
 "an armored text that lost its end (download cut at a line boundary between two packets)",
 "a truncated armored text is listed as a complete, shorter message",
 cli((["-a"], armor(uid("a"*46)+uid("b"*46)).split(b"\n=")[0].rsplit(b"\n", 1)[0] + b"\n"),
     (["-a"], armor(uid("a"*46), end=False))))

bug("C06-armor-flag-dropped-with-debug", "C06",
 [("facade/facade.go", '''		context.Set(getBool(cmd, context.ARMOR)),
''', '''		context.Set(context.ARMOR, false),
'''),
  ("facade/facade.go", '''	debugFlag = cxt.Debug()
	return cxt''', '''	debugFlag = cxt.Debug()
	if !debugFlag { //look at anything when debugging
		cxt.Set(getBool(cmd, context.ARMOR))
	}
	return cxt''')],
 "--armor together with --debug and a binary input",
 "binary input is dumped although only ASCII armor is accepted",
 cli((["-a", "--debug", "-u"], uid("alice")), (["-a"], uid("alice"))) if False else
 go('''package main

import (
	"bytes"
	"os"
	"strings"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func main() {
	out, er := &bytes.Buffer{}, &bytes.Buffer{}
	ui := rwi.New(rwi.WithReader(bytes.NewReader([]byte{0xcd, 1, 'a'})), rwi.WithWriter(out), rwi.WithErrorWriter(er))
	facade.Execute(ui, []string{"-a", "--debug"})
	if strings.Contains(out.String(), "User ID Packet") {
		os.Exit(1)
	}
}
'''))

# ------------------------------------------------------------------ C07
bug("C07-oid-prefix", "C07",
 [("parse/values/ecc.go", '''		if bytes.Equal(oid, v) {
			return k
		}''', '''		if bytes.HasPrefix(oid, v) {
			return k
		}''')],
 "an ECC key whose (unknown) curve OID starts with the octets of a known OID",
 "an unknown curve is shown under the name of another curve",
 cli(([], pkt(6, keybody(pub=19, mat=b"\x06\x2b\x81\x04\x00\x22\x01"+mpi(259))))))

bug("C07-v3-days-signed", "C07",
 [("parse/tags/pubkey.go", '''		result.Value(strconv.Itoa(int(binary.BigEndian.Uint16(days)))),''',
   '''		result.Value(strconv.Itoa(int(int16(binary.BigEndian.Uint16(days))))),''')],
 "a version 3 key valid for 32768 days or more",
 "the validity is shown as a negative number",
 cli((["-u"], pkt(6, keybody(ver=3, days=40000))), (["-u"], pkt(6, keybody(ver=3, days=400)))))

bug("C07-kdf-exact-length", "C07",
 [("parse/pubkey/parse_pub.go", '''			if ln > 2 {
''', '''			if ln == 3 {
''')],
 "an ECDH key whose KDF parameter block carries octets beyond hash and cipher",
 "the KDF hash and cipher are not listed",
 cli(([], pkt(14, keybody(pub=18, mat=b"\x08\x2a\x86\x48\xce\x3d\x03\x01\x07"+mpi(515)+b"\x04\x01\x08\x07\xff")))))

# ------------------------------------------------------------------ C08
bug("C08-gnu-ext-iv", "C08",
 [("parse/s2k/s2k.go", '''			s.hasIV = false
			n, err := s.reader.ReadByte()
			if err != nil {
				return errs.New("invalid gnu-div num", errs.WithCause(err))
			}
			enum := 1000 + int(n)''', '''			n, err := s.reader.ReadByte()
			if err != nil {
				return errs.New("invalid gnu-div num", errs.WithCause(err))
			}
			enum := 1000 + int(n)
			s.hasIV = enum != 1001 && enum != 1002''')],
 "a GNU S2K extension number other than 1 and 2",
 "the octets after the extension are taken for an IV (or the dump fails)",
 cli(([], pkt(5, keybody()+b"\xfe\x09\x65GNU\x03"+b"0123456789abcdef0123")), ([], pkt(5, keybody()+b"\xfe\x09\x65GNU\x01"))))

bug("C08-v5-leftover", "C08",
 [("parse/tags/seckey.go", '''			chk, err := p.reader.ReadBytes(2)
			if err != nil {''', '''			r := p.reader
			if rOpt.Rest() >= 2 {
				r = rOpt
			}
			chk, err := r.ReadBytes(2)
			if err != nil {''')],
 "a version 5 secret key in plain form whose counted block is longer than its integers",
 "the checksum is taken from the key material block instead of after it",
 cli((["-i"], pkt(5, keybody(ver=5)+b"\x00\x01\xff"+u32(len(mpi(9)*4)+3)+mpi(9)*4+b"xyz"+b"\x12\x34")),
     (["-i"], pkt(5, keybody(ver=4)+b"\x00"+mpi(9)*4+b"\x12\x34"))))

bug("C08-aead-v5-only", "C08",
 [("parse/tags/seckey.go", '''		if usage == 253 {
''', '''		if usage == 253 && p.pubVer.Number() > 4 {
''')],
 "a version 4 secret key with s2k usage 253 (AEAD)",
 "the AEAD mode is not shown and all later fields are shifted by one octet",
 cli(([], pkt(5, keybody()+b"\xfd\x09\x02\x03\x08"+b"saltsalt"+b"\x60"+b"0123456789abcdef"+b"secret"))))

# ------------------------------------------------------------------ C09
bug("C09-onepass-flag", "C09",
 [("parse/tags/tag04.go", '''	if flag == 0 {
''', '''	if flag != 1 {
''')],
 "a one-pass signature packet whose last octet is neither 0 nor 1",
 "it is shown as followed by another one-pass signature",
 cli(([], pkt(4, b"\x03\x00\x08\x01"+b"keyid123"+b"\x02"))))

bug("C09-area-size-signed", "C09",
 [("parse/tags/tag02.go", '''	sizeUS := binary.BigEndian.Uint16(s)
	// [08+HS] Unhashed subpacket data set (zero or more subpackets).
	if sizeUS > 0 {''', '''	sizeUS := int16(binary.BigEndian.Uint16(s))
	// [08+HS] Unhashed subpacket data set (zero or more subpackets).
	if sizeUS > 0 {''')],
 "a signature with an unhashed subpacket area of 32768 octets or more",
 "the area is not decoded as such: its octets are taken for the rest of the signature",
 cli(([], sig(unhashed=sub(100, b"z"*40000)))))

bug("C09-v3-hashed-material", "C09",
 [("parse/tags/tag02.go", '''		b, err := t.reader.ReadBytes(int64(sz))
		if err != nil {
			return rootInfo, errs.New(fmt.Sprintf("illegal hashed material (size %d bytes)", sz), errs.WithCause(err))
		}
		hm.Dump = values.DumpBytes(b, t.cxt.Debug()).String()''', '''		b, err := t.reader.ReadBytes(5)
		if err != nil {
			return rootInfo, errs.New(fmt.Sprintf("illegal hashed material (size %d bytes)", sz), errs.WithCause(err))
		}
		hm.Dump = values.DumpBytes(b, t.cxt.Debug()).String()''')],
 "a version 3 signature whose hashed material is not 5 octets long",
 "key ID, algorithms and everything after are read from the wrong place",
 cli(([], pkt(2, b"\x03\x07\x00"+b"\x5f\0\0\0"+b"XX"+b"keyid123"+b"\x01\x08\xab\xcd"+mpi(12)))))

# ------------------------------------------------------------------ C10
bug("C10-critical-embedded", "C10",
 [("parse/tags/subs.go", '''		switch st {
		case 32:''', '''		switch osp.SubType {
		case 32:''')],
 "an embedded signature or key block subpacket with the critical bit set",
 "its content is not decoded but listed as an opaque subpacket",
 cli(([], sig(hashed=sub(0xa0, sigbody(typ=0x19))))))

bug("C10-feature-octets", "C10",
 [("parse/tags/sub30.go", '''fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)''', '''fmt.Sprintf("Unknown flag%d(%#02x)", len(flags)-i+1, flag)''')],
 "a features subpacket with three or more octets and different flags",
 "flags are attributed to the wrong octet",
 cli(([], sig(hashed=sub(30, b"\x01\x10\x20\x00")))))

bug("C10-pref-dedup", "C10",
 [("parse/tags/sub22.go", '''	for _, alg := range s.reader.GetBody() {
''', '''	for i, alg := range s.reader.GetBody() {
		if i > 0 && alg == s.reader.GetBody()[i-1] {
			continue
		}
''')],
 "a preferred compression list that names the same algorithm twice in a row",
 "the repeated entry is missing",
 cli(([], sig(hashed=sub(22, b"\x02\x02\x01")))))

# ------------------------------------------------------------------ C11
bug("C11-sym-sticks", "C11",
 [("parse/context/symalgmode.go", '''	*mode = ModePubEnc
''', '''	if *mode == ModeNotSpecified {
		*mode = ModePubEnc
	}
''')],
 "a message with a symmetric-key session key packet followed by a public-key session key packet",
 "the data is attributed to the earlier kind of session key",
 cli(([], pkt(3, b"\x04\x09\x00\x08")+pkt(1, b"\x03keyid123\x01"+mpi(20))+pkt(18, b"\x01data")),
     ([], pkt(1, b"\x03keyid123\x01"+mpi(20))+pkt(9, b"data"))))

bug("C11-mode-not-reset", "C11",
 [("parse/tags/tag18.go", '''	rootInfo.Add(itm)

	t.cxt.ResetAlg()
	return rootInfo, nil''', '''	rootInfo.Add(itm)

	if t.reader.Rest() > 0 {
		t.cxt.ResetAlg()
	}
	return rootInfo, nil''')],
 "an integrity protected data packet with an empty body followed by another encrypted data packet",
 "the later data packet is attributed to a session key that belongs to the earlier one",
 cli(([], pkt(1, b"\x03keyid123\x01"+mpi(20))+pkt(18, b"")+pkt(9, b"data"))))

bug("C11-ecdh-session-key-size", "C11",
 [("parse/values/ecc.go", '''		result.Note(fmt.Sprintf("%d bytes", len(ep))),''', '''		result.Note(fmt.Sprintf("%d bytes", int8(len(ep)))),''')],
 "an ECDH encrypted session key (or KDF block) of 128 octets or more",
 "its size is shown wrong",
 cli(([], pkt(1, b"\x03keyid123\x12"+mpi(263)+b"\x90"+b"k"*0x90))))

# ------------------------------------------------------------------ C12
bug("C12-ascii-control-only", "C12",
 [("parse/values/literal.go", '''		if unicode.IsControl(r) {''', '''		if r < unicode.MaxASCII && unicode.IsControl(r) {''')],
 "a user ID (or other text) with DEL or a C1 control character such as U+0085 or U+009B",
 "the control character reaches the terminal unescaped",
 cli(([], uid("a\u009b31mred\u0085x\x7f"))))

bug("C12-utf8-first-kb", "C12",
 [("parse/values/literal.go", '''	if !utf8.Valid(t.body) {''', '''	head := t.body
	if len(head) > 1024 {
		head = head[:1024]
	}
	if !utf8.Valid(head) {''')],
 "a text longer than 1024 octets: invalid UTF-8 behind that, or a character across the boundary",
 "invalid text is printed as text (with replacement characters), valid text as hexadecimal",
 cli(([], uid(b"a"*1030+b"\xff\xfe")), ([], uid(b"a"*1023+"\u00e9".encode()+b"b"))))

bug("C12-image-size", "C12",
 [("parse/tags/sub01.go", '''		if enc == 0x01 {
			itm.Value = "JPEG"
		} else {
			itm.Value = values.Unknown
		}''', '''		if enc == 0x01 {
			itm.Value = "JPEG"
		} else {
			itm.Value = values.Unknown
			length = uint16(s.reader.Len() - int(s.reader.Rest()))
		}''')],
 "a user attribute image with an encoding other than JPEG",
 "the image size includes the rest of the header",
 cli(([], pkt(17, sub(1, b"\x10\0\x01\x02"+b"\0"*12+b"IMAGE")))))
