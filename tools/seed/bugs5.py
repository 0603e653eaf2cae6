from lib import *
from bugs3 import READER, NET
from bugs4 import LIB, golib, gob

bug("C01-flag-octets", "C01",
 [("parse/tags/sub30.go", '''		for i, flag := range flags {
''', '''		names := [8]string{}
		for i, flag := range flags {
			names[i] = fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)
''')],
 "a features subpacket with ten or more octets",
 "panic: index out of range",
 cli(([], sig(hashed=sub(30, b"\x01"*12))), ([], sig(hashed=sub(30, b"\x01"*3)))))

bug("C02-mdc-ends", "C02",
 [("parse/parse.go", '''		p.info.Add(item)
''', '''		p.info.Add(item)
		if n := len(p.info.Packets); n > 1 && strings.HasPrefix(item.Name, "Modification Detection Code") {
			return p.info, nil //MDC is always the last packet
		}
'''), ("parse/parse.go", '''	"io"
''', '''	"io"
	"strings"
''')],
 "packets after a modification detection code packet that is not the first one",
 "they are not listed",
 cli(([], uid("a")+pkt(19, b"x"*20)+uid("b")), ([], pkt(19, b"x"*20)+uid("b"))))

bug("C02-marker-run", "C02",
 [("parse/tags/packets.go", '''	p.tag = NewTag(op, p.cxt)
	return nil''', '''	if _, ok := p.tag.(*tag10); ok && op.Tag == 10 && len(op.Contents) == 3 {
		return p.Next() //marker repeated
	}
	p.tag = NewTag(op, p.cxt)
	return nil''')],
 "two marker packets in a row",
 "only the first is listed",
 cli(([], pkt(10, b"PGP")+pkt(10, b"PGP")+uid("b")), ([], pkt(10, b"PGP")+uid("b")+pkt(10, b"PGP"))))

bug("C03-cut-in-length", "C03",
 [("parse/parse.go", '''			if !errs.Is(err, io.EOF) { //EOF is not error
				return p.info, errs.Wrap(err)
			}
			return p.info, nil''', '''			if !errs.Is(err, io.EOF) { //EOF is not error
				if n := len(p.info.Packets); n > 1 && errs.Is(err, io.ErrUnexpectedEOF) && p.info.Packets[n-1].Name == p.info.Packets[0].Name {
					return p.info, nil //message repeated
				}
				return p.info, errs.Wrap(err)
			}
			return p.info, nil''')],
 "a stream cut inside a packet when the last complete packet has the tag of the first",
 "the cut stream is listed without an error",
 cli(([], uid("a")+uid("b")+uid("c")[:-1]), ([], uid("a")+pkt(12, b"")+uid("c")[:-1])))

bug("C04-v5-count-wraps", "C04",
 [("parse/tags/seckey.go", '''		b, err := p.reader.ReadBytes(int64(ll))
		if err != nil {
			return nil, errs.New("illegal key materia"''', '''		if rest := p.reader.Rest(); int64(ll) == rest+2 { //count includes checksum
			ll = uint32(rest)
		}
		b, err := p.reader.ReadBytes(int64(ll))
		if err != nil {
			return nil, errs.New("illegal key materia"''')],
 "a version 5 secret key whose secret part ends exactly two octets before its count says",
 "the shortened material is listed instead of an error",
 cli(([], pkt(5, keybody(ver=5)+bytes([9, 17])+b"i"*17+u32(12)+b"e"*10)), ([], pkt(5, keybody(ver=5)+bytes([9, 17])+b"i"*17+u32(12)+b"e"*12))))

bug("C05-type-list", "C05",
 [("armtext/armtext.go", '''				armorFlag = true
''', '''				armorFlag = !strings.Contains(str, ", PART ") || strings.Contains(str, "/")
''')],
 "a block of type MESSAGE, PART X (the number of parts not given)",
 "the block is not found",
 cli((["-a"], armor(uid("alice"), typ="MESSAGE, PART 3")), (["-a"], armor(uid("alice"), typ="MESSAGE, PART 3/4"))))

bug("C05-hash-header", "C05",
 [("armtext/armtext.go", '''		if armorFlag && !armorEndFlag {
''', '''		if armorFlag && !armorEndFlag && buf.Len() < 100 && strings.HasPrefix(str, "Hash: ") {
			armorFlag = false //signed message
			buf.Reset()
		}
		if armorFlag && !armorEndFlag {
''')],
 "an armor block with a Hash header (old clients)",
 "the block is skipped",
 cli((["-a"], armor(uid("alice"), hdr="Hash: SHA1\n")), (["-a"], armor(uid("alice")))))

bug("C06-clip-armor-false", "C06",
 [("facade/facade.go", '''				cxt.Set(context.ARMOR, true) //ASCII armor text only
''', '''				if !cxt.Debug() {
					cxt.Set(context.ARMOR, true) //ASCII armor text only
				}
''')],
 "--clipboard with --debug, the clipboard holding no armored text",
 "the text is dumped as binary data",
 dict(kind="sh", src='''mkdir "$tmp/bin"
printf '#!/bin/sh\\nprintf "\\\\315\\\\003bob"\\n' > "$tmp/bin/xclip"
printf '#!/bin/sh\\nprintf "\\\\315\\\\003bob"\\n' > "$tmp/bin/xsel"
chmod +x "$tmp/bin/xclip" "$tmp/bin/xsel"
go build -o "$tmp/gpgpdump" . || exit 2
PATH="$tmp/bin:$PATH" DISPLAY=:0 "$tmp/gpgpdump" --clipboard --debug > "$tmp/out" 2>&1 < /dev/null
if grep -q "User ID" "$tmp/out"; then cat "$tmp/out"; exit 1; fi
exit 0
'''))

bug("C10-notation-signed", "C10",
 [("parse/tags/sub20.go", '''	value, err := s.reader.ReadBytes(int64(binary.BigEndian.Uint16(valueLength)))''',
   '''	value, err := s.reader.ReadBytes(int64(int16(binary.BigEndian.Uint16(valueLength))))''')],
 "a notation value of 32768 octets or more",
 "the signature cannot be dumped",
 golib('''	val := bytes.Repeat([]byte("v"), 33000)
	body := append([]byte{0x80, 0, 0, 0, 0, 1, byte(len(val) >> 8), byte(len(val) & 255), 'n'}, val...)
	n := len(body) + 1
	sub := append([]byte{255, 0, 0, byte(n >> 8), byte(n & 255), 20}, body...)
	sig := append([]byte{4, 0x13, 1, 8, byte(len(sub) >> 8), byte(len(sub) & 255)}, sub...)
	sig = append(sig, 0, 0, 0xab, 0xcd, 0, 1, 1)
	m := len(sig)
	if _, err := dump(append([]byte{0xc2, 255, 0, 0, byte(m >> 8), byte(m & 255)}, sig...)); err != nil {
		fail(err)
	}'''))

bug("C11-literal-resets", "C11",
 [("parse/tags/tag11.go", '''	rootInfo := t.ToItem()
''', '''	t.cxt.ResetAlg() //end of encrypted message
	rootInfo := t.ToItem()
''')],
 "a literal data packet between a session key packet and its encrypted data",
 "the encrypted data is not attributed to the session key",
 cli(([], pkt(3, bytes([4, 9, 0, 8]))+lit()+pkt(18, b"\x01"+b"x"*20)), ([], pkt(3, bytes([4, 9, 0, 8]))+pkt(18, b"\x01"+b"x"*20))))

bug("C12-replacement", "C12",
 [("parse/values/literal.go", '''	if !utf8.Valid(t.body) {''', '''	if strings.ContainsRune(string(t.body), utf8.RuneError) {'''),
  ("parse/values/literal.go", '''	"fmt"
	"unicode"
''', '''	"fmt"
	"strings"
	"unicode"
''')],
 "a valid text that holds the replacement character U+FFFD",
 "the text is called invalid and not shown",
 cli(([], uid("a\ufffdb")), ([], uid("ab")), ([], uid(b"a\xffb"))))

bug("C13-zip-dictionary", "C13",
 [("parse/tags/Tag08.go", '''	buf := &bytes.Buffer{}
	if _, err := io.CopyN(buf, r, maxDecompressionDataSize); err != nil {''', '''	buf := &bytes.Buffer{}
	if _, err := io.CopyN(buf, r, maxDecompressionDataSize); err != nil {
		if errs.Is(err, io.ErrUnexpectedEOF) && buf.Len() >= 64*1024 {
			return buf, nil //large data: show what could be read
		}''')],
 "truncated compressed data with 64 KiB or more before the cut",
 "the truncation goes unnoticed when it falls between two packets",
 golib('''	inner := bytes.Repeat([]byte("\\xcd\\x01x"), 1<<16)
	var z bytes.Buffer
	w, _ := flate.NewWriter(&z, flate.NoCompression)
	w.Write(inner)
	w.Flush() //no final block
	n := z.Len() + 1
	b := append([]byte{0xc8, 0xff, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 1}, z.Bytes()...)
	if _, err := dump(b); err == nil {
		fail("no error")
	}'''))
BUGS[-1]["demo"]["src"] = BUGS[-1]["demo"]["src"].replace('"bytes"\n', '"bytes"\n\t"compress/flate"\n')

bug("C14-armor-json", "C14",
 [("parse/tags/tag01.go", '''	rootInfo.Add(values.NewKeyID(keyid).ToItem())
''', '''	if t.cxt.Integer() || values.NewKeyID(keyid) != 0 {
		rootInfo.Add(values.NewKeyID(keyid).ToItem())
	}
''')],
 "a session key packet for a hidden recipient (key ID 0)",
 "the key ID is listed only with the integer option",
 cli(([], pkt(1, bytes([3])+b"\0"*8+bytes([1])+mpi(64))), (["-i"], pkt(1, bytes([3])+b"\0"*8+bytes([1])+mpi(64)))))

bug("C15-sig-time-zero", "C15",
 [("parse/values/expire.go", '''	if start > 0 {''', '''	if start > 0 && exp > 0 && exp < 100*366*86400 {''')],
 "an expiry of a century or more (or of zero seconds)",
 "the end instant is not shown",
 cli((["-u"], sig(hashed=sub(2, u32(0x5f000000))+sub(3, u32(0xc0000000)))), (["-u"], sig(hashed=sub(2, u32(0x5f000000))+sub(3, u32(86400))))))

bug("C16-empty-name", "C16",
 [("parse/result/result.go", '''	if len(i.Items) > 0 {
		for _, itm := range i.Items {
			itm.toString(indent, lvl+1, buf)''', '''	if len(i.Items) > 0 {
		for n, itm := range i.Items {
			if n > 0 && itm != nil && itm == i.Items[n-1] {
				continue
			}
			itm.toString(indent, lvl+1, buf)''')],
 "a listing in which the same item occurs twice in a row",
 "the text output shows it once",
 golib('''	itm := result.NewItem(result.Name("x"))
	top := result.NewItem(result.Name("top"))
	top.Add(itm)
	top.Add(itm)
	i := result.New()
	i.Add(top)
	if s := i.String(); s != "top\\n\\tx\\n\\tx\\n" {
		fail(s)
	}'''))

bug("C17-armor-cache", "C17",
 [("parse/parser.go", '''	buf, err := armtext.Get(r)
	if err != nil {
		return nil, errs.Wrap(err)
	}
''', '''	buf, err := armtext.Get(r)
	if err != nil {
		return nil, errs.Wrap(err)
	}
	buf = lastArmor.get(buf)
'''), ("parse/parser.go", '''func newReaderArmor(''', '''//armorCache keeps last armor text
type armorCache struct {
	sync.Mutex
	key  [2]uint32
	text []byte
}

var lastArmor armorCache

func (c *armorCache) get(buf *bytes.Buffer) *bytes.Buffer {
	c.Lock()
	defer c.Unlock()
	b := buf.Bytes()
	key := [2]uint32{uint32(len(b)), adler32.Checksum(b[len(b)/2:])}
	if key == c.key {
		return bytes.NewBuffer(append([]byte{}, c.text...))
	}
	c.key, c.text = key, append([]byte{}, b...)
	return buf
}

func newReaderArmor('''), ("parse/parser.go", '''	"io"

	"golang''', '''	"hash/adler32"
	"io"
	"sync"

	"golang''')],
 "two armored texts of the same length that differ in their first half only, one after the other",
 "the second dump shows the first text",
 golib('''	if _, err := dump(a); err != nil {
		fail(err)
	}
	i, err := dump(b)
	if err != nil || !strings.Contains(i.String(), "alicx") {
		fail(i, err)
	}''', "var a = " + gob(armor(uid("alice")+uid("x"*300)).rsplit(b"=", 1)[0] + b"-----END PGP PUBLIC KEY BLOCK-----\n") +
   "\nvar b = " + gob(armor(uid("alicx")+uid("x"*300)).rsplit(b"=", 1)[0] + b"-----END PGP PUBLIC KEY BLOCK-----\n") + "\n"))

bug("C18-peek", "C18",
 [("parse/parser.go", '''		r, err = newReaderArmor(bytes.NewReader(data))
''', '''		if len(data) > 0 && data[0]&0x80 != 0 {
			r = bytes.NewReader(data) //binary
			break
		}
		r, err = newReaderArmor(bytes.NewReader(data))
''')],
 "armored text preceded by a line that begins with a non-ASCII letter",
 "the text is dumped as binary data",
 cli(([], "\u9375\n".encode()+armor(uid("alice"))), ([], armor(uid("alice")))))
BUGS[-1]["prop"] = "C05"; BUGS[-1]["id"] = "C05-peek"

bug("C19-readat-restores", "C19",
 [("parse/reader/reader.go", '''	pl, err := r.Read(p)
	return pl, errs.Wrap(err, errs.WithContext("off", off))''', '''	pl, err := r.Read(p)
	if err != nil && off > 4 {
		r.offset = off - 1
	}
	return pl, errs.Wrap(err, errs.WithContext("off", off))''')],
 "a read at an offset that fails",
 "the position is not the offset afterwards",
 go(READER % '''	r := reader.New([]byte("abcdef"))
	r.ReadAt(make([]byte, 9), 5)
	if r.Rest() != 1 {
		fail("rest:", r.Rest())
	}'''))

bug("C20-userinfo", "C20",
 [("facade/fetch.go", '''			//Fetch OpenPGP packets
''', '''			//Fetch OpenPGP packets
			u.User = nil //do not send password
''')],
 "a URL with user name and password",
 "another URL is requested (no authorization is sent)",
 go('''package main

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		os.Exit(2)
	}
	user := ""
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		user, _, _ = r.BasicAuth()
		w.Write([]byte("\\xcd\\x03bob"))
	}))
	ui := rwi.New(rwi.WithReader(&bytes.Buffer{}), rwi.WithWriter(&bytes.Buffer{}), rwi.WithErrorWriter(&bytes.Buffer{}))
	facade.Execute(ui, []string{"fetch", "http://alice:secret@" + l.Addr().String() + "/key"})
	if user != "alice" {
		fmt.Println("user:", user)
		os.Exit(1)
	}
}
'''))

bug("C20-gzip", "C20",
 [("facade/fetch.go", '''				fetch.WithContext(signal.Context(context.Background(), os.Interrupt)),
''', '''				fetch.WithContext(signal.Context(context.Background(), os.Interrupt)),
				fetch.WithRequestHeaderSet("Accept-Encoding", "gzip, identity"),
''')],
 "a web server that compresses its responses when the client allows it",
 "the compressed octets are dumped instead of the body",
 go('''package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"net"
	"net/http"
	"os"
	"strings"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		os.Exit(2)
	}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
			w.Write([]byte("\\xcd\\x03bob"))
			return
		}
		w.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(w)
		z.Write([]byte("\\xcd\\x03bob"))
		z.Close()
	}))
	out := &bytes.Buffer{}
	ui := rwi.New(rwi.WithReader(&bytes.Buffer{}), rwi.WithWriter(out), rwi.WithErrorWriter(&bytes.Buffer{}))
	if c := facade.Execute(ui, []string{"fetch", "http://" + l.Addr().String() + "/key"}); c != 0 || !strings.Contains(out.String(), "bob") {
		fmt.Println("exit", c, out)
		os.Exit(1)
	}
}
'''))

bug("C21-status-204", "C21",
 [("github/github.go", '''	if len(keyID) == 0 {
		return Get(ctx, cli, username)
	}
''', '''	if len(keyID) == 0 {
		return Get(ctx, cli, username)
	}
	if n := len(keyID); n == 40 {
		keyID = keyID[24:] //fingerprint to key ID
	}
''')],
 "a key ID of 40 characters (a fingerprint)",
 "another key than the one named is returned",
 go(NET % ("github", '''	b, err := github.GetKey(ctx, client(func(r *http.Request) string { return `[{"key_id":"89ABCDEF01234567","raw_key":"other"}]` }), "alice", "000000000000000000000000"+"89abcdef01234567")
	if err == nil {
		fail("returned", string(b))
	}''')))

bug("C22-env-path", "C22",
 [("facade/facade.go", '''				file, err := os.Open(filePath)''', '''				file, err := os.Open(os.ExpandEnv(filePath))''')],
 "a file name with a dollar sign",
 "another file is opened",
 dict(kind="sh", src='''go build -o "$tmp/gpgpdump" . || exit 2
printf '\\xcd\\x03bob' > "$tmp/key\\$1.gpg"
"$tmp/gpgpdump" -f "$tmp/key\\$1.gpg" | grep -q bob || exit 1
exit 0
'''))

bug("C22-file-and-indent", "C22",
 [("facade/facade.go", '''	if indentSize > 0 {
		return''', '''	if indentSize > 0 && indentSize <= 64 {
		return''')],
 "--indent of more than 64",
 "the listing is indented with tabs",
 cli((["--indent", "70"], lit()), (["--indent", "3"], lit())))

bug("C23-unknown-version-note", "C23",
 [("parse/values/version.go", '''	if v.draft == 0 {
		return false
	}
	return v.ver == v.draft''', '''	if v.draft == 0 {
		return false
	}
	return v.ver == v.draft || v.ver == v.draft+2''')],
 "a packet of version 7",
 "it is called a draft and read as version 5",
 cli(([], pkt(6, keybody(ver=7))), ([], pkt(6, keybody(ver=5)))))
