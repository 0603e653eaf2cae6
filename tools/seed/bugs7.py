from lib import *
from bugs3 import READER, NET
from bugs4 import LIB, golib, gob

bug("C01-zero-flags", "C01",
 [("parse/tags/sub27.go", '''		flags, _ := s.reader.Read2EOF()
''', '''		flags, _ := s.reader.Read2EOF()
		for flags[len(flags)-1] == 0 { //trailing zero octets say nothing
			flags = flags[:len(flags)-1]
		}
''')],
 "key flags of three or more octets, the third and all following ones zero",
 "the dump panics",
 cli(([], sig(hashed=sub(27, b"\x03\x00\x00"))), ([], sig(hashed=sub(27, b"\x03\x00\x01")))))

bug("C03-encrypted-cut", "C03",
 [("parse/parse.go", '''			if !errs.Is(err, io.EOF) { //EOF is not error
''', '''			if n := len(p.info.Packets); n > 0 && errs.Is(err, io.ErrUnexpectedEOF) && strings.HasPrefix(p.info.Packets[n-1].Name, "Sym. Encrypted") {
				return p.info, nil //padding after encrypted data
			}
			if !errs.Is(err, io.EOF) { //EOF is not error
'''), ("parse/parse.go", '''	"io"
''', '''	"io"
	"strings"
''')],
 "a stream cut inside the packet that follows an encrypted data packet",
 "the listing without that packet is given as if it were whole",
 cli(([], pkt(18, b"\x01abcdef")+uid("alice")[:-2]), ([], pkt(18, b"\x01abcdef")+uid("alice"))))

bug("C04-revoker-short", "C04",
 [("parse/tags/sub12.go", '''		return rootInfo, err
''', '''		if class&0x40 != 0 { //sensitive: details are withheld
			return rootInfo, nil
		}
		return rootInfo, err
''')],
 "a revocation key subpacket of class 'sensitive' that ends after its first octet",
 "it is listed with its fields missing",
 cli(([], sig(hashed=sub(12, b"\xc0"))), ([], sig(hashed=sub(12, b"\xc0\x01"+b"f"*20)))))

bug("C05-signed-then-key", "C05",
 [("armtext/armtext.go", '''	armorEndFlag := false
''', '''	armorEndFlag := false
	boundery := armorBoundery
'''), ("armtext/armtext.go", '''			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {
''', '''			if strings.HasPrefix(str, armorBounderyExcept) {
				boundery = "-----BEGIN PGP SIGNATURE" //of the signed message
			}
			if strings.HasPrefix(str, boundery) && !strings.HasPrefix(str, armorBounderyExcept) {
''')],
 "the header of a cleartext-signed message followed by a block that is no signature",
 "the block is not found",
 cli((["-a"], b"-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\nmy key\n" + armor(uid("alice"))), (["-a"], armor(uid("alice")))))

bug("C07-v5-zero-tail", "C07",
 [("parse/tags/pubkey.go", '''	if r.Rest() > 0 {
''', '''	if r.Rest() > 0 && strings.Trim(string(b[len(b)-int(r.Rest()):]), "\\x00") != "" { //zero padding is of no interest
'''), ("parse/tags/pubkey.go", '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
 "a version 5 key whose counted material ends in zero octets after the integers",
 "they are not reported",
 cli(([], pkt(6, keybody(ver=5, mat=mpi(32)+mpi(17)+b"\0\0"))), ([], pkt(6, keybody(ver=5, mat=mpi(32)+mpi(17)+b"\0\1")))))

bug("C08-gnu-number", "C08",
 [("parse/s2k/s2k.go", '''			enum := 1000 + int(n)
''', '''			enum := 1000 + int(int8(n))
''')],
 "a GNU extension of number 128 or more",
 "another extension number is shown",
 cli(([], pkt(5, keybody()+b"\xff\x07\x65GNU\x80")), ([], pkt(5, keybody()+b"\xff\x07\x65GNU\x01"))))

bug("C10-flag-number", "C10",
 [("parse/tags/sub27.go", '''fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)''', '''fmt.Sprintf("Unknown flag%d(%#02x)", (i+3)&0x0f, flag)''')],
 "key flags of sixteen or more octets",
 "the sixteenth octet is numbered 0",
 cli(([], sig(hashed=sub(27, b"\x03"+b"\0"*14+b"\x01"))), ([], sig(hashed=sub(27, b"\x03"+b"\0"*13+b"\x01")))))

bug("C10-reason-newline", "C10",
 [("parse/tags/sub29.go", '''		b, _ := s.reader.Read2EOF()
''', '''		b, _ := s.reader.Read2EOF()
		if n := len(b); b[n-1] == '\\n' {
			b = b[:n-1]
		}
''')],
 "a reason for revocation whose text ends with a line feed",
 "the line feed is not shown",
 cli(([], sig(hashed=sub(29, b"\x01lost\n"))), ([], sig(hashed=sub(29, b"\x01lost")))))

bug("C11-skesk-version", "C11",
 [("parse/tags/tag03.go", '''	t.cxt.SetAlgSymEnc()
	rootInfo''', '''	rootInfo'''), ("parse/tags/tag03.go", '''	if version.IsCurrent() {
''', '''	if !version.IsUnknown() {
		t.cxt.SetAlgSymEnc()
	}
	if version.IsCurrent() {
''')],
 "a symmetric-key session key packet of a version after 5, then encrypted data",
 "the data is attributed to no session key, or to an earlier one",
 cli(([], pkt(3, b"\x06abc")+pkt(18, b"\x01abcdef")), ([], pkt(3, b"\x04\x09\x00\x08")+pkt(18, b"\x01abcdef"))))

bug("C11-chunk-overflow", "C11",
 [("parse/tags/tag20.go", '''	chunkSize := new(big.Int).Lsh(big.NewInt(1), uint(c)+6)
''', '''	chunkSize := new(big.Int).SetUint64(uint64(1) << (uint(c) + 6))
''')],
 "an AEAD chunk size octet of 58 or more",
 "the chunk size is shown as 0",
 cli(([], pkt(20, b"\x01\x09\x01\x3a" + b"i"*16 + b"data")), ([], pkt(20, b"\x01\x09\x01\x39" + b"i"*16 + b"data"))))

bug("C12-image-header-256", "C12",
 [("parse/tags/sub01.go", '''result.Note(fmt.Sprintf("%d bytes", s.reader.Len()-int(length))),''', '''result.Note(fmt.Sprintf("%d bytes", s.reader.Len()-int(length&0xff))),''')],
 "an image attribute with a header of 256 octets or more",
 "the image is shown too large",
 cli(([], pkt(17, sub(1, b"\x04\x01\x01\x01"+b"\0"*300))), ([], pkt(17, sub(1, b"\x10\x00\x01\x01"+b"\0"*12+b"jpeg")))))

bug("C13-stored-garbage", "C13",
 [("parse/tags/packets.go", '''						return item, errs.Wrap(err)
					}
					break''', '''						if sp.tag == nil && t.reader.GetBody()[0] == 0 { //plain data
							break
						}
						return item, errs.Wrap(err)
					}
					break''')],
 "a compressed data packet with algorithm 0 whose content is no packet from its first octet on",
 "the dump succeeds and lists nothing below it",
 cli(([], pkt(8, b"\0hello")), ([], pkt(8, b"\0"+uid("alice")))))

bug("C15-days-float32", "C15",
 [("parse/values/expire.go", '''float64(exp)/86400.0''', '''float32(exp)/86400.0''')],
 "an expiry period of more than 2^24 seconds or one that is no simple number of days",
 "another period is shown",
 cli((["-u"], sig(hashed=sub(2, u32(0x5f000000))+sub(3, u32(86400*3650+1)))), (["-u"], sig(hashed=sub(2, u32(0x5f000000))+sub(3, u32(86400*2))))))

bug("C16-value-equals-name", "C16",
 [("parse/result/result.go", '''	if len(i.Value) > 0 {
''', '''	if len(i.Value) > 0 && i.Value != i.Name {
''')],
 "an item whose value is the same text as its name",
 "the value is left out of the text output",
 cli(([], uid("User ID")), ([], uid("User"))))

bug("C17-failed-depth", "C17",
 [("parse/tags/sub32.go", '''	rootInfo := s.ToItem()
''', '''	rootInfo := s.ToItem()
	if atomic.AddInt32(&embedded, 1) > 1000 { //too many at the same time
		return rootInfo, nil
	}
'''), ("parse/tags/sub32.go", '''	rootInfo.Add(itm)
	return rootInfo, nil
''', '''	rootInfo.Add(itm)
	atomic.AddInt32(&embedded, -1)
	return rootInfo, nil
'''), ("parse/tags/sub32.go", '''// sub32 class''', '''//embedded is number of embedded signatures in process
var embedded int32

// sub32 class'''), ("parse/tags/sub32.go", '''import (
''', '''import (
	"sync/atomic"

''')],
 "a thousand dumps of broken embedded signatures before another one in the same process",
 "embedded signatures are no longer expanded",
 golib('''	bad := %s
	ok := %s
	a, err := dump(ok)
	if err != nil {
		fail(err)
	}
	for i := 0; i < 1100; i++ {
		_, _ = dump(bad)
	}
	b, err := dump(ok)
	if err != nil || a.String() != b.String() {
		fail("differs", err)
	}''' % (gob(sig(hashed=sub(32, b"\x04"))), gob(sig(hashed=sub(32, sigbody()))))))

bug("C17-dump-cache", "C17",
 [("parse/values/dump.go", '''	return d.reader.DumpString(d.reader.Size() - d.reader.Rest())
''', '''	off := d.reader.Size() - d.reader.Rest()
	body := d.reader.GetBody()[off:]
	n := len(body)
	if n < 32 {
		return d.reader.DumpString(off)
	}
	key := fmt.Sprintf("%d:%x:%x", n, body[:8], body[n-8:])
	if s, ok := dumpCache.Load(key); ok {
		return s.(string)
	}
	s := d.reader.DumpString(off)
	dumpCache.Store(key, s)
	return s
'''), ("parse/values/dump.go", '''//Dumpdata - raw''', '''//dumpCache is cache of long dump strings
var dumpCache sync.Map

//Dumpdata - raw'''), ("parse/values/dump.go", '''	"fmt"
''', '''	"fmt"
	"sync"
''')],
 "two fields of the same size, at least 32 octets, that differ only in the middle, dumped in one process",
 "the later one's dump shows the earlier one's octets",
 golib('''	for _, c := range []string{"a", "b"} {
		b := append([]byte{0xfc, 40}, []byte(strings.Repeat("x", 20)+c+strings.Repeat("y", 19))...)
		i, err := dump(b, context.Set(context.PRIVATE, true))
		if err != nil {
			fail(err)
		}
		if !strings.Contains(i.String(), fmt.Sprintf("78 %02x 79", c[0])) {
			fail(i)
		}
	}'''))

bug("C20-query-normalised", "C20",
 [("facade/fetch.go", '''			//options
			rawFlag''', '''			u.RawQuery = u.Query().Encode() //escape query
			//options
			rawFlag''')],
 "a URL whose query is not in the order and form that url.Values.Encode gives",
 "another query is sent",
 dict(kind="sh", src='''cat > "$tmp/srv.py" <<'EOF'
import http.server, sys
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        open(sys.argv[1]+"/path", "w").write(self.path)
        self.send_response(200); self.end_headers(); self.wfile.write(b"\\xcd\\x01a")
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
open(sys.argv[1]+"/port", "w").write(str(s.server_port))
s.handle_request()
EOF
go build -o "$tmp/gpgpdump" . || exit 2
python3 "$tmp/srv.py" "$tmp" & pid=$!
for i in $(seq 100); do [ -s "$tmp/port" ] && break; sleep 0.1; done
timeout 60 "$tmp/gpgpdump" fetch "http://127.0.0.1:$(cat "$tmp/port")/k?b=1&a=2&flag" > "$tmp/out" 2>&1
kill $pid 2>/dev/null
[ "$(cat "$tmp/path")" = "/k?b=1&a=2&flag" ] || { cat "$tmp/path" "$tmp/out"; exit 1; }
'''))

bug("C21-null-count", "C21",
 [("github/github.go", '''		for _, k := range keys {
''', '''		count := 0
		for _, k := range keys {
			if k != nil {
				count++
			}
'''), ("github/github.go", '''		if len(keys) < maxKeys {
''', '''		if count < maxKeys {
''')],
 "a page of 100 entries one of which is null, and the key on the next page",
 "the key is not found",
 go(NET % ("github", '''	cli := client(func(r *http.Request) string {
		if r.URL.Query().Get("page") == "1" {
			return "[null" + strings.Repeat(`,{"key_id":"AA","raw_key":"a"}`, 99) + "]"
		}
		return `[{"key_id":"BB","raw_key":"b"}]`
	})
	b, err := github.GetKey(ctx, cli, "u", "BB")
	if err != nil || string(b) != "b" {
		fail(string(b), err)
	}''')))

bug("C22-empty-json", "C22",
 [("facade/facade.go", '''	if jsonFlag {
''', '''	if jsonFlag && len(i.Packets) > 0 {
''')],
 "JSON output of an empty input",
 "nothing at all is written",
 cli((["-j"], b""), (["-j"], uid("a"))))

bug("C23-revoker-alg", "C23",
 [("parse/tags/sub12.go", '''	rootInfo.Add(values.PubID(pubid).ToItem(s.cxt.Debug()))
''', '''	if class == 0x80 && pubid >= 100 { //no private algorithm for normal class
		pubid = 0
	}
	rootInfo.Add(values.PubID(pubid).ToItem(s.cxt.Debug()))
''')],
 "a revocation key of class 0x80 with an algorithm number from 100 on",
 "the algorithm is shown as number 0",
 cli(([], sig(hashed=sub(12, b"\x80\x6e"+b"f"*20))), ([], sig(hashed=sub(12, b"\x80\x01"+b"f"*20)))))

bug("C24-dump-1m", "C24",
 [("parse/reader/reader.go", '''	data := r.buffer[off:]
	sep := ""''', '''	data := r.buffer[off:]
	if len(data) > 1<<20 {
		data = data[:1<<20]
	}
	sep := ""''')],
 "a packet of more than a megabyte dumped in debug mode",
 "its dump stops after the first megabyte",
 golib('''	b := append([]byte{0xfc, 0xff, 0, 0x10, 0, 1}, make([]byte, 1<<20+1)...)
	i, err := dump(b, context.Set(context.DEBUG, true))
	if err != nil {
		fail(err)
	}
	if n := len(i.Packets[0].Dump); n != 3*(1<<20+1)-1 {
		fail(n)
	}'''))
