from lib import *
from bugs3 import READER, NET
from bugs4 import LIB, golib, gob
def gort(body): return go((LIB % ("", body)).replace('	"os"\n', '	"os"\n	"runtime"\n'))

bug("C01-chunk-buffer", "C01",
 [("parse/tags/tag20.go", '''	chunkSize := new(big.Int).Lsh(big.NewInt(1), uint(c)+6)
''', '''	chunkSize := new(big.Int).Lsh(big.NewInt(1), uint(c)+6)
	if c <= 24 { //check that one chunk fits in memory
		if chunk := make([]byte, chunkSize.Int64()); len(chunk) == 0 {
			return rootInfo, errs.New("illegal chunk size")
		}
	}
''')],
 "an AEAD encrypted data packet claiming a chunk size of up to 2^30 octets",
 "a packet of twenty octets makes the dump allocate the chunk size it claims",
 gort('''	b := %s
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	if _, err := dump(b); err != nil {
		fail(err)
	}
	runtime.ReadMemStats(&m1)
	if m1.TotalAlloc-m0.TotalAlloc > 64<<20 {
		fail("allocated", m1.TotalAlloc-m0.TotalAlloc)
	}''' % gob(pkt(20, b"\x01\x09\x01\x18" + b"i"*16 + b"data"))))

bug("C02-trust-run", "C02",
 [("parse/parse.go", '''		p.info.Add(item)
''', '''		if n := len(p.info.Packets); n > 0 && strings.HasPrefix(item.Name, "Trust Packet") && strings.HasPrefix(p.info.Packets[n-1].Name, "Trust Packet") {
			p.info.Packets[n-1] = item //the latest trust counts
			continue
		}
		p.info.Add(item)
'''), ("parse/parse.go", '''	"io"
''', '''	"io"
	"strings"
''')],
 "two trust packets in a row",
 "the first one is not listed",
 cli(([], uid("a")+pkt(12, b"x")+pkt(12, b"yy")+uid("b")), ([], uid("a")+pkt(12, b"x")+uid("b"))))

bug("C03-armored-cut", "C03",
 [("parse/parser.go", '''	return block.Body, nil
''', '''	return &armorBody{r: block.Body}, nil
'''), ("parse/parser.go", '''func newReaderArmor(''', '''//armorBody is body of armored block
type armorBody struct {
	r io.Reader
	n int64
}

func (b *armorBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	b.n += int64(n)
	if err != nil && err != io.EOF && b.n > 0 && n == 0 {
		err = io.EOF //incomplete last line
	}
	return n, err
}

func newReaderArmor(''')],
 "an armored stream without checksum whose base64 text is cut in the middle of a group, after a packet that is complete",
 "the cut is not reported",
 cli((["-a"], b"-----BEGIN PGP MESSAGE-----\n\nzQFhzQFhzQ\n-----END PGP MESSAGE-----\n"),
     (["-a"], armor(uid("bob")+uid("bob")))))

bug("C03-inner-cut", "C03",
 [("parse/tags/packets.go", '''				if err := sp.Next(); err != nil {
					if !errs.Is(err, io.EOF) { //EOF is not error
						return item, errs.Wrap(err)
					}
					break
				}
				itm, err := sp.tag.Parse()
				if err != nil {
					return item, errs.Wrap(err)
				}
				item.Add(itm)
			}
		}
	default:''', '''				if err := sp.Next(); err != nil {
					if errs.Is(err, io.ErrUnexpectedEOF) && len(item.Items) > 3 {
						break //padding
					}
					if !errs.Is(err, io.EOF) { //EOF is not error
						return item, errs.Wrap(err)
					}
					break
				}
				itm, err := sp.tag.Parse()
				if err != nil {
					return item, errs.Wrap(err)
				}
				item.Add(itm)
			}
		}
	default:''')],
 "a packet stream inside compressed data, cut inside its third or a later packet",
 "the cut inner stream is listed as a shorter message",
 cli(([], comp(1, uid("a")+uid("b")+uid("charlie")[:-2])), ([], comp(1, uid("a")+uid("charlie")[:-2]))))

bug("C04-oid-reserved", "C04",
 [("parse/values/ecc.go", '''	if length == 0 {
		return nil, nil
	}
	oid, err''', '''	if length == 0 || length == 0xff && r.Rest() < 0xff { //reserved values
		return nil, nil
	}
	oid, err''')],
 "an elliptic-curve key whose curve OID claims 255 octets, more than there are",
 "the key is listed with made-up fields",
 cli(([], pkt(6, keybody(pub=19, mat=b"\xff"+mpi(16)))), ([], pkt(6, keybody(pub=19, mat=b"\x10"+mpi(16))))))

bug("C04-critical-embedded-short", "C04",
 [("parse/tags/sub32.go", '''	if err != nil {
		return rootInfo, errs.New("illegal Embedded''', '''	if err != nil && s.reader.Len() > 0 && s.cxt.SigCreationTime == nil {
		rootInfo.Add(values.RawData(s.reader, "Unknown data", s.cxt.Debug()))
		return rootInfo, nil //in unhashed area
	}
	if err != nil {
		return rootInfo, errs.New("illegal Embedded''')],
 "a truncated embedded signature in a signature without creation time before it",
 "listed without an error",
 cli(([], sig(unhashed=sub(32, sigbody()[:-3]))), ([], sig(hashed=sub(2, u32(5)), unhashed=sub(32, sigbody()[:-3])))))

bug("C05-dash-escape", "C05",
 [("armtext/armtext.go", '''		str := scn.Text()
''', '''		str := scn.Text()
		if armorFlag = armorFlag || strings.HasPrefix(str, "- -----BEGIN PGP PUBLIC"); armorFlag {
			str = strings.TrimPrefix(str, "- ") //dash-escaped text
		}
''')],
 "a cleartext-signed message that quotes an armored public key",
 "the quoted key is dumped instead of the signature",
 cli((["-a"], b"-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n"+armor(uid("quoted")).replace(b"-----BEGIN", b"- -----BEGIN").replace(b"-----END", b"- -----END")+armor(sig(), typ="SIGNATURE")),
     (["-a"], armor(uid("alice")))))

bug("C05-many-headers", "C05",
 [("armtext/armtext.go", '''	armorEndFlag := false
''', '''	armorEndFlag := false
	headers := 0 //number of armor headers
'''), ("armtext/armtext.go", '''		if armorFlag && !armorEndFlag {
''', '''		if armorFlag && !armorEndFlag {
			if strings.Contains(str, ": ") {
				if headers++; headers > 12 {
					return nil, errs.Wrap(ecode.ErrArmorText)
				}
			}
''')],
 "an armored text with more than twelve armor headers",
 "it is refused",
 cli((["-a"], armor(uid("alice"), hdr="Comment: x\n"*13)), (["-a"], armor(uid("alice"), hdr="Comment: x\n"*3))))

bug("C06-restart-on-begin", "C06",
 [("armtext/armtext.go", '''		if armorFlag && !armorEndFlag {
''', '''		if armorFlag && !armorEndFlag && strings.HasPrefix(str, armorBoundery) && buf.Len() > 0 {
			buf.Reset() //previous block was not terminated
		}
		if armorFlag && !armorEndFlag {
''')],
 "two armored blocks, the first of which has lost its last line",
 "the second block is dumped instead of reporting the damaged one",
 cli((["-a"], armor(uid("alice"), end=False)+armor(uid("bob"))), (["-a"], armor(uid("alice"))+armor(uid("bob")))))

bug("C07-oversized-exponent", "C07",
 [("parse/values/mpi.go", '''	return result.NewItem(
		result.Name(name),
		result.Note(fmt.Sprintf("%d bits", mpi.bitLength)),''', '''	bits := int(mpi.bitLength)
	if bits > 16384 && bits%8 == 0 { //octet string
		bits = len(mpi.data) &^ 1 * 8
	}
	return result.NewItem(
		result.Name(name),
		result.Note(fmt.Sprintf("%d bits", bits)),''')],
 "a multi-precision integer of more than 16384 bits with an odd number of octets, the bit count a multiple of eight",
 "eight bits less are shown",
 cli(([], pkt(6, keybody(mat=mpi(16392)+mpi(17)))), ([], pkt(6, keybody(mat=mpi(16400)+mpi(17))))))

bug("C08-second-secret-key", "C08",
 [("parse/tags/seckey.go", '''		if usage != 0 && hasIV {
			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)''', '''		if usage != 0 && hasIV && !(usage == 255 && p.pubVer.Number() == 3 && symid == 0) {
			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)''')],
 "a version 3 secret key with usage 255 and cipher number 0 (plaintext)",
 "the IV item is not listed",
 cli(([], pkt(5, keybody(ver=3)+b"\xff\x00\x00\x08"+b"i"*8+b"data"*4)), ([], pkt(5, keybody(ver=3)+b"\xff\x03\x00\x08"+b"i"*8+b"data"*4))))

bug("C09-hash-left-zero", "C09",
 [("parse/tags/tag02.go", '''func (t *tag02) hashLeft2(hv []byte) *result.Item {
''', '''func (t *tag02) hashLeft2(hv []byte) *result.Item {
	if hv[0] == 0 && hv[1] == 0 {
		return nil //no hash value
	}
''')],
 "a signature whose left 16 bits of the hash are zero",
 "the item is not listed",
 cli(([], pkt(2, sigbody()).replace(b"\xab\xcd", b"\0\0")), ([], sig())))

bug("C10-embedded-depth", "C10",
 [("parse/tags/sub32.go", '''	itm, err := newTag02(s.cxt''', '''	if s.cxt.SymAlgMode > 8 {
		rootInfo.Add(values.RawData(s.reader, "Embedded Signature", s.cxt.Debug()))
		return rootInfo, nil //too deep
	}
	s.cxt.SymAlgMode += 4
	defer func() { s.cxt.SymAlgMode -= 4 }()
	itm, err := newTag02(s.cxt''')],
 "embedded signatures four levels deep",
 "the innermost one is not decoded",
 cli(([], sig(hashed=sub(32, sigbody(hashed=sub(32, sigbody(hashed=sub(32, sigbody(hashed=sub(32, sigbody())))))))))
     , ([], sig(hashed=sub(32, sigbody(hashed=sub(32, sigbody())))))))

bug("C10-many-subpackets", "C10",
 [("parse/tags/subParser.go", '''	for _, osp := range sp.opaqueSubpacke {
''', '''	for i, osp := range sp.opaqueSubpacke {
		if i >= 255 && osp.SubType == 20 {
			continue //too many notations
		}
''')],
 "an area with more than 255 subpackets, a notation among the later ones",
 "it is not listed",
 cli(([], sig(hashed=sub(25, b"\1")*255+sub(20, b"\x80\0\0\0\0\1\0\1nv"))), ([], sig(hashed=sub(25, b"\1")*25+sub(20, b"\x80\0\0\0\0\1\0\1nv")))))

bug("C11-compressed-context", "C11",
 [("parse/tags/packets.go", '''			sp, err := NewPackets(p.cxt, r)
''', '''			inner := *p.cxt
			sp, err := NewPackets(&inner, r)
''')],
 "a session key inside compressed data, the encrypted data after it (or the other way round: the data inside resets the mode)",
 "the note that says where the cipher is specified is wrong",
 cli(([], comp(0, pkt(3, b"\4\7\0\x08"))+pkt(18, b"\1data")), ([], pkt(3, b"\4\7\0\x08")+pkt(18, b"\1data"))))

bug("C12-console", "C12",
 [("parse/tags/tag11.go", '''	rootInfo.Add(fname.ToItem(t.cxt.Literal()))
''', '''	item := fname.ToItem(t.cxt.Literal())
	if item.Value == "_CONSOLE" {
		item.Value, item.Note = "", "for your eyes only"
	}
	rootInfo.Add(item)
''')],
 "literal data with the special file name _CONSOLE",
 "the name itself is not shown",
 cli(([], lit(name=b"_CONSOLE")), ([], lit(name=b"_CONSOL"))))

bug("C12-private-use", "C12",
 [("parse/values/literal.go", '''		if unicode.IsControl(r) {
''', '''		if unicode.IsControl(r) || unicode.Is(unicode.Co, r) {
''')],
 "a text with a character of the private use area",
 "it is shown as an escape although it is no control character",
 cli(([], uid("a\ue000b")), ([], uid("a\u00e9b"))))

bug("C13-ratio", "C13",
 [("parse/tags/Tag08.go", '''	zr := flate.NewReader(bytes.NewReader(zd))
	defer zr.Close()
	return copyFrom(zr)
''', '''	zr := flate.NewReader(bytes.NewReader(zd))
	defer zr.Close()
	r, err := copyFrom(zr)
	if buf, ok := r.(*bytes.Buffer); ok && buf.Len() > 900*len(zd) {
		return nil, errs.Wrap(ecode.ErrTooLarge) //decompression bomb
	}
	return r, err
''')],
 "ZIP data that expands nine hundred times or more",
 "the packets inside are not listed",
 cli(([], comp(1, lit(data=b"\0"*3000000))), ([], comp(1, lit(data=b"\0"*3000)))))

bug("C14-utc-dump", "C14",
 [("parse/values/expire.go", '''		result.DumpStr(DumpBytes(e.day, dumpFlag).String()),
''', '''		result.DumpStr(DumpBytes(e.day, dumpFlag && (e.start == nil || !e.start.utcFlag || exp != 0)).String()),
''')],
 "an expiration time of zero with a known creation time, debug and UTC options together",
 "the dump of the field is missing with the UTC option",
 cli((["--debug", "-u"], sig(hashed=sub(2, u32(0x5f000000))+sub(3, u32(0)))), (["--debug"], sig(hashed=sub(2, u32(0x5f000000))+sub(3, u32(0))))))

bug("C15-never", "C15",
 [("parse/values/expire.go", '''	if start > 0 {
''', '''	if start > 0 && (exp < 0xfffffff0 || start < 0x80000000) { //practically never
''')],
 "an expiry period within sixteen seconds of the largest, counted from a time after 2038",
 "the end instant is not shown",
 cli((["-u"], sig(hashed=sub(2, u32(0x90000000))+sub(3, u32(0xffffffff)))), (["-u"], sig(hashed=sub(2, u32(0x50000000))+sub(3, u32(0xffffffff))))))

bug("C16-wrap-dump", "C16",
 [("parse/result/result.go", '''		fmt.Fprintf(buf, "%s%s\\n", strings.Repeat(indent, lvl+1), i.Dump)
''', '''		dump := i.Dump
		for len(dump) > 3*50000 {
			fmt.Fprintf(buf, "%s%s\\n", strings.Repeat(indent, lvl+1), dump[:3*50000-1])
			dump = dump[3*50000:]
		}
		fmt.Fprintf(buf, "%s%s\\n", strings.Repeat(indent, lvl+1), dump)
''')],
 "a dump of more than 50000 octets in the text output",
 "it takes more than one line",
 cli((["-p"], pkt(60, b"x"*50001)), (["-p"], pkt(60, b"x"*5000))))

bug("C17-keyid-cache", "C17",
 [("parse/values/keyid.go", '''func (k KeyID) String() string {
	return fmt.Sprintf("%#016x", uint64(k))
}''', '''//keyIDNames is cache of key ID strings
var keyIDNames sync.Map

func (k KeyID) String() string {
	if s, ok := keyIDNames.Load(uint32(k)); ok && k>>48 == 0xffff {
		return s.(string)
	}
	s := fmt.Sprintf("%#016x", uint64(k))
	keyIDNames.Store(uint32(k), s)
	return s
}'''), ("parse/values/keyid.go", '''	"fmt"
''', '''	"fmt"
	"sync"
''')],
 "two key IDs in one process that agree in their low 32 bits, the later one beginning with ffff",
 "the later one is shown as the earlier one",
 golib('''	a := %s
	b := %s
	alone, err := dump(b)
	if err != nil {
		fail(err)
	}
	if _, err := dump(a); err != nil {
		fail(err)
	}
	again, err := dump(b)
	if err != nil || !strings.Contains(again.String(), "0xffff") || !strings.Contains(alone.String(), "0xffff") {
		fail("the listing depends on the dump before it:", again.String())
	}''' % (gob(pkt(1, b"\3"+b"\x12\x34\0\0\1\2\3\4\1"+mpi(16))), gob(pkt(1, b"\3"+b"\xff\xff\0\0\1\2\3\4\1"+mpi(16))))))

bug("C18-rewind", "C18",
 [("parse/parser.go", '''	var r io.Reader
	var err error
	switch {
''', '''	if s, ok := reader.(io.Seeker); ok {
		if _, err := s.Seek(0, io.SeekStart); err != nil {
			return nil, errs.Wrap(err)
		}
	}
	var r io.Reader
	var err error
	switch {
''')],
 "a reader that can seek and is not at its start (a file read up to a point)",
 "the dump starts from the beginning of the file, or fails for a pipe",
 golib('''	b := %s
	r := bytes.NewReader(append([]byte{0xcd, 1, 'x'}, b...))
	_, _ = io.ReadFull(r, make([]byte, 3))
	p, err := parse.New(context.New(), r)
	if err != nil {
		fail(err)
	}
	info, err := p.Parse()
	if err != nil || len(info.Packets) != 1 {
		fail("dumped more than was left to read", err)
	}''' % gob(uid("bob"))))

bug("C18-error-once", "C18",
 [("parse/parser.go", '''		data, e := io.ReadAll(reader)
''', '''		data, e := readAll(reader)
'''), ("parse/parser.go", '''//NewBytes returns''', '''func readAll(r io.Reader) ([]byte, error) {
	buf := &bytes.Buffer{}
	b := make([]byte, 4096)
	for {
		n, err := r.Read(b)
		buf.Write(b[:n])
		if n > 0 {
			continue
		}
		if err == io.EOF {
			return buf.Bytes(), nil
		}
		if err != nil {
			return buf.Bytes(), err
		}
	}
}

//NewBytes returns''')],
 "a reader that reports its error together with data, and end of file afterwards",
 "a listing of the part that was read",
 golib('''	r := &once{b: %s}
	p, err := parse.New(context.New(), r)
	if err == nil {
		_, err = p.Parse()
	}
	if err == nil {
		fail("the read error is lost")
	}''' % gob(uid("bob")), '''
type once struct {
	b    []byte
	done bool
}

func (o *once) Read(p []byte) (int, error) {
	if o.done {
		return 0, io.EOF
	}
	o.done = true
	return copy(p, o.b), errors.New("broken")
}
'''))

bug("C21-revoked-skipped", "C21",
 [("github/github.go", '''			if k != nil && strings''', '''			if k != nil && !k.Revoked && strings'''),
  ("github/structs.go", '''`json:"raw_key"`
''', '''`json:"raw_key"`
	Revoked           bool          `json:"revoked"`
''')],
 "a key that GitHub marks as revoked",
 "it is not found",
 go(NET % ("github", '''	b, err := github.GetKey(ctx, client(func(r *http.Request) string { return `[{"key_id":"89ABCDEF01234567","raw_key":"text","revoked":true}]` }), "alice", "89abcdef01234567")
	if err != nil || string(b) != "text" {
		fail(string(b), err)
	}''')))

bug("C21-raw-trim", "C21",
 [("github/github.go", '''[]byte(*k.RawKey)''', '''[]byte(strings.TrimRight(*k.RawKey, "\\n")+"\\n")''')],
 "a raw key text that ends with no newline, or more than one",
 "the text is returned changed",
 go(NET % ("github", '''	b, err := github.GetKey(ctx, client(func(r *http.Request) string { return `[{"key_id":"89ABCDEF01234567","raw_key":"text\\n\\n"}]` }), "alice", "89abcdef01234567")
	if err != nil || string(b) != "text\\n\\n" {
		fail(string(b), err)
	}''')))

bug("C23-kdf-hash", "C23",
 [("parse/pubkey/parse_pub.go", '''				i.Add(values.HashID(ep[1]).ToItem(p.cxt.Debug()))
''', '''				hash := values.HashID(ep[1])
				if hash < 8 { //hash must be SHA2
					hash = 0
				}
				i.Add(hash.ToItem(p.cxt.Debug()))
''')],
 "ECDH KDF parameters with one of the old hash algorithms",
 "another number is shown",
 cli(([], pkt(6, keybody(pub=18, mat=b"\5\x2b\x81\4\0\x0a"+mpi(16)+b"\3\1\2\7"))), ([], pkt(6, keybody(pub=18, mat=b"\5\x2b\x81\4\0\x0a"+mpi(16)+b"\3\1\x08\7")))))

bug("C24-attribute-area", "C24",
 [("parse/tags/subParser.go", '''		result.DumpStr(values.DumpBytes(body, cxt.Debug()).String()),
''', '''		result.DumpStr(values.DumpBytes(body, cxt.Debug() && (tagID != 17 || len(body) < 16384)).String()),
''')],
 "a user attribute of 16 kB or more (a photo) in debug mode",
 "the dump of the subpacket area is missing",
 cli((["--debug"], pkt(17, sub(1, b"\x10\0\1\1"+b"\0"*12+b"\xff\xd8"*9000))), (["--debug"], pkt(17, sub(1, b"\x10\0\1\1"+b"\0"*12+b"\xff\xd8"*90)))))
