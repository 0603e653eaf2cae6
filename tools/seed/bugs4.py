from lib import *
from bugs3 import READER, NET

LIB = '''package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

var _ = bytes.Equal
var _ = errors.New
var _ = io.EOF
var _ = strings.Repeat
var _ sync.Mutex
var _ = time.Now
var _ result.Info

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func dump(b []byte, opts ...context.OptFunc) (*result.Info, error) {
	p, err := parse.NewBytes(context.New(opts...), b)
	if err != nil {
		return nil, err
	}
	return p.Parse()
}

%s
func main() {
%s
}
'''
def golib(body, decl=""): return go(LIB % (decl, body))
def gob(b): return "[]byte(\"" + "".join("\\x%02x" % x for x in b) + "\")"

bug("C01-quadratic-dump", "C01",
 [("parse/reader/reader.go", '''	var buf = make([]byte, 0, 16)
	for _, b := range data {
		//buf = append(buf, fmt.Sprintf("%s%#02x,", sep, b)...)
		buf = append(buf, fmt.Sprintf("%s%02x", sep, b)...)
		sep = " "
	}
	return string(buf)''', '''	buf := ""
	for _, b := range data {
		//buf += fmt.Sprintf("%s%#02x,", sep, b)
		buf += fmt.Sprintf("%s%02x", sep, b)
		sep = " "
	}
	return buf''')],
 "dumping a packet of a megabyte or so with its octets",
 "time and garbage grow with the square of the packet's size: the dump practically hangs",
 golib('''	start := time.Now()
	b := append([]byte{0xc0 | 60, 0xff, 0, 12, 0, 0}, make([]byte, 12<<16)...)
	if _, err := dump(b, context.Set(context.PRIVATE, true)); err != nil {
		fail(err)
	}
	if d := time.Since(start); d > 8*time.Second {
		fail("768 kB took", d)
	}'''))

bug("C01-compressed-recursion", "C01",
 [("parse/tags/packets.go", '''				itm, err := sp.tag.Parse()
				if err != nil {''', '''				itm, err := sp.Parse()
				if err != nil {''')],
 "compressed data nested in compressed data many levels deep (or a quine)",
 "nested compressed data is expanded without bound",
 golib('''	b := lit
	for i := 0; i < 3; i++ {
		n := len(b) + 1
		b = append([]byte{0xc8, 0xff, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 0}, b...)
	}
	i, err := dump(b)
	if err != nil {
		fail(err)
	}
	if s := i.String(); strings.Contains(s, "Literal") {
		fail("expanded all levels:\\n" + s)
	}''', "var lit = " + gob(lit())))

bug("C02-duplicate-collapsed", "C02",
 [("parse/result/result.go", '''	if a != nil {
		i.Packets = append(i.Packets, a)
	}''', '''	if a != nil {
		if n := len(i.Packets); n > 0 && reflect.DeepEqual(i.Packets[n-1], a) {
			return //same packet
		}
		i.Packets = append(i.Packets, a)
	}'''), ("parse/result/result.go", '''	"io"
	"strings"
''', '''	"io"
	"reflect"
	"strings"
''')],
 "two equal undecoded packets in a row",
 "the second one is not listed",
 cli(([], pkt(12, b"abc")+pkt(12, b"abc")+uid("x")), ([], uid("x")+uid("x"))))

bug("C03-prefix-lost", "C03",
 [("parse/parse.go", '''			if !errs.Is(err, io.EOF) { //EOF is not error
				return p.info, errs.Wrap(err)''', '''			if !errs.Is(err, io.EOF) { //EOF is not error
				return result.New(), errs.Wrap(err)''')],
 "a stream cut inside a packet after complete ones, the listing returned with the error being looked at",
 "the packets before the cut are lost",
 golib('''	i, err := dump(data)
	if err == nil || i == nil || len(i.Packets) != 2 {
		fail("packets before the cut:", i, err)
	}''', "var data = " + gob(uid("alice")+uid("bob")+uid("carol")[:-2])))

bug("C03-indeterminate-header-only", "C03",
 [("parse/tags/packets.go", '''	op, err := p.opaqueReader.Next()
	if err != nil {
''', '''	op, err := p.opaqueReader.Next()
	if err != nil {
		if errs.Is(err, io.ErrUnexpectedEOF) && p.tag != nil {
			if _, ok := p.tag.(*tagUnknown); ok { //padding after unknown packets
				return errs.Wrap(io.EOF)
			}
		}
''')],
 "a stream cut inside a packet that follows a packet of an unassigned tag",
 "the truncation is taken for the end of the stream",
 cli(([], pkt(40, b"zz")+uid("bob")[:-1]), ([], uid("x")+uid("bob")[:-1])))

bug("C04-salt-cut", "C04",
 [("parse/s2k/s2k.go", '''			salt, err := s.reader.ReadBytes(8)
			if err != nil {''', '''			size := int64(8)
			if rest := s.reader.Rest(); rest == 6 && s2kID == 0x01 {
				size = rest
			}
			salt, err := s.reader.ReadBytes(size)
			if err != nil {''')],
 "a salted (not iterated) string-to-key specifier whose salt is cut after six octets",
 "the shortened salt is listed instead of an error",
 cli(([], pkt(3, bytes([4, 9, 1, 8])+b"saltsa")), ([], pkt(3, bytes([4, 9, 1, 8])+b"saltsalt"))))

bug("C04-mpi-cut-last", "C04",
 [("parse/values/mpi.go", '''	data, err := r.ReadBytes(byteLength)
	if err != nil {''', '''	if rest := r.Rest(); rest > 0 && rest == byteLength-1 && bitLength%8 != 0 {
		byteLength = rest //leading octet was stripped
	}
	data, err := r.ReadBytes(byteLength)
	if err != nil {''')],
 "a last integer one octet short, of a bit length that is no multiple of 8",
 "the shortened integer is listed instead of an error",
 cli(([], sig(mpis=mpi(1021)[:-1])), ([], sig(mpis=mpi(1021)))))

bug("C05-begin-suffix", "C05",
 [("armtext/armtext.go", '''			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {''',
   '''			if strings.HasPrefix(str, armorBoundery) && strings.HasSuffix(str, "-----") && !strings.HasPrefix(str, armorBounderyExcept) {''')],
 "an armor block whose first line ends in white space (pasted text)",
 "the block is not found",
 cli((["-a"], armor(uid("alice")).replace(b"BLOCK-----\n", b"BLOCK----- \n", 1)), (["-a"], armor(uid("alice"))), (["-a"], armor(uid("alice"), eol="\r\n"))))

bug("C06-hkp-armor-false", "C06",
 [("facade/hkp.go", '''			cxt.Set(contxt.ARMOR, true)
''', '''			if !cmd.Flags().Changed(contxt.ARMOR.String()) {
				cxt.Set(contxt.ARMOR, true) //default
			}
''')],
 "hkp with an explicit --armor=false and a key server that answers with binary data",
 "the binary data is dumped though key-server input has to be armored",
 go('''package main

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		os.Exit(2)
	}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("\\xcd\\x03bob")) }))
	out, e := &bytes.Buffer{}, &bytes.Buffer{}
	ui := rwi.New(rwi.WithReader(&bytes.Buffer{}), rwi.WithWriter(out), rwi.WithErrorWriter(e))
	port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
	if c := facade.Execute(ui, []string{"hkp", "--armor=false", "--keyserver", "127.0.0.1", "--port", port, "bob"}); c == 0 || out.Len() > 0 {
		fmt.Println("dumped:", out)
		os.Exit(1)
	}
}
'''))

bug("C07-mpi-bitlen", "C07",
 [("parse/values/mpi.go", '''	return &MPI{bitLength: bitLength, data: data}, nil''', '''	if n := new(big.Int).SetBytes(data).BitLen(); n > 0 {
		bitLength = uint16(n)
	}
	return &MPI{bitLength: bitLength, data: data}, nil'''), ("parse/values/mpi.go", '''	"fmt"
''', '''	"fmt"
	"math/big"
''')],
 "an integer with leading zero bits (its declared length is longer than its value)",
 "another bit length than the declared one is shown",
 cli(([], pkt(6, keybody(mat=b"\x00\x20\x00\x00\xff\xff"+mpi(17)))), ([], pkt(6, keybody()))))

bug("C08-gnu-serial-any", "C08",
 [("parse/s2k/s2k.go", '''			if enum == 1002 {''', '''			if enum >= 1002 && s.reader.Rest() > 0 {''')],
 "a GNU extension with a number above 1002, followed by more octets",
 "the following octets are taken for a serial number",
 cli(([], pkt(5, keybody()+bytes([255, 9, 101])+b"GNU"+bytes([3])+b"\x02ab")), ([], pkt(5, keybody()+bytes([255, 9, 101])+b"GNU"+bytes([2])+b"\x02ab"))))

bug("C09-v2-as-v3", "C09",
 [("parse/tags/tag02.go", '''		if version.Number() == 3 {''', '''		if n := version.Number(); n == 2 || n == 3 {''')],
 "a signature packet of version 2",
 "it is read as version 3 instead of being reported as unknown data",
 cli(([], pkt(2, bytes([2, 5, 0x10])+u32(0x5f000000)+b"12345678"+bytes([1, 8])+b"\xab\xcd"+mpi(16))),
     ([], pkt(2, bytes([3, 5, 0x10])+u32(0x5f000000)+b"12345678"+bytes([1, 8])+b"\xab\xcd"+mpi(16)))))

bug("C11-pkesk-version", "C11",
 [("parse/tags/tag01.go", '''	t.cxt.SetAlgPubEnc() //set Pubkey Encryption Mode
	rootInfo := t.ToItem()''', '''	rootInfo := t.ToItem()'''),
  ("parse/tags/tag01.go", '''	rootInfo.Add(values.PubSessKeyVer(ver).ToItem(t.cxt.Debug()))
''', '''	version := values.PubSessKeyVer(ver)
	if !version.IsOld() {
		t.cxt.SetAlgPubEnc() //set Pubkey Encryption Mode
	}
	rootInfo.Add(version.ToItem(t.cxt.Debug()))
''')],
 "encrypted data whose session key packet has version 2",
 "the data is not attributed to the public-key session key",
 cli(([], pkt(1, bytes([2])+b"12345678"+bytes([1])+mpi(64))+pkt(9, b"x"*20)), ([], pkt(1, bytes([3])+b"12345678"+bytes([1])+mpi(64))+pkt(9, b"x"*20))))

bug("C12-trailing-nul", "C12",
 [("parse/values/literal.go", '''	return &Text{name: name, body: body}
}

//NewLiteralFname''', '''	return &Text{name: name, body: bytes.TrimRight(body, "\\x00")}
}

//NewLiteralFname'''), ("parse/values/literal.go", '''import (
	"fmt"''', '''import (
	"bytes"
	"fmt"''')],
 "a text that ends in NUL octets (fixed-size field of some implementation)",
 "characters of the text are not shown",
 cli(([], uid(b"alice\0\0")), ([], uid(b"alice")), ([], uid(b"\0"))))

bug("C12-directional", "C12",
 [("parse/values/literal.go", '''		if unicode.IsControl(r) {''', '''		if !unicode.IsPrint(r) && r != ' ' {''')],
 "a user ID with a character that is neither printable nor a control character (soft hyphen, no-break space, unassigned)",
 "a character that is no control character is not shown as it is",
 cli(([], uid("alice\u00a0b\u00adc\u200dd <a@example.org>")), ([], uid("alice b"))))

bug("C13-inner-count", "C13",
 [("parse/tags/packets.go", '''				item.Add(itm)
''', '''				item.Add(itm)
				if len(item.Items) >= 4096 { //too many packets
					break
				}
''')],
 "compressed data with more than 4000 packets inside",
 "the packets after them are not listed",
 golib('''	inner := bytes.Repeat([]byte("\\xcd\\x01x"), 5000)
	n := len(inner) + 1
	b := append([]byte{0xc8, 0xff, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 0}, inner...)
	i, err := dump(b)
	if err != nil {
		fail(err)
	}
	if n := strings.Count(i.String(), "User ID Packet"); n != 5000 {
		fail("listed", n, "of 5000")
	}'''))

bug("C14-gdump", "C14",
 [("parse/tags/tag11.go", '''"Literal data", t.cxt.Literal())''', '''"Literal data", t.cxt.Literal() || t.cxt.GDump())''')],
 "the (library only) gdump option without the literal option",
 "literal data is dumped without its option",
 golib('''	i, err := dump(data, context.Set(context.GDUMP, true))
	if err != nil {
		fail(err)
	}
	j, _ := dump(data)
	if i.String() != j.String() {
		fail(i.String())
	}''', "var data = " + gob(lit())))

bug("C15-fixed-offset", "C15",
 [("parse/values/datetime.go", '''	if utcFlag {
		t = t.In(time.UTC)
	}
	return t.Format(time.RFC3339)''', '''	if utcFlag {
		t = t.In(time.UTC)
	} else {
		name, offset := time.Unix(ut-ut%86400, 0).Zone() //zone of the day
		t = t.In(time.FixedZone(name, offset))
	}
	return t.Format(time.RFC3339)''')],
 "a time on the day on which the local zone changes to or from daylight saving time",
 "the time is not the local time of that instant (the offset of the start of the day is used)",
 cli(([], sig(hashed=sub(2, u32(1711875600+3600)))), pre="TZ=Europe/Berlin"))

bug("C16-depth", "C16",
 [("parse/result/result.go", '''	if i == nil || buf == nil {
		return buf
	}
	fmt.Fprintf''', '''	if i == nil || buf == nil || lvl > 64 {
		return buf
	}
	fmt.Fprintf''')],
 "signatures embedded in each other some 25 levels deep",
 "the text output leaves out what is nested deeper; JSON has it",
 golib('''	b := sigOf(nil)
	for k := 0; k < 30; k++ {
		n := len(b) + 1
		b = sigOf(append([]byte{0xff, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 32}, b...))
	}
	n := len(b)
	i, err := dump(append([]byte{0xc2, 0xff, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...))
	if err != nil {
		fail(err)
	}
	if n := strings.Count(i.String(), "Hash left 2 bytes"); n != 31 {
		fail("text output shows", n, "of 31 signatures")
	}''', '''func sigOf(sub []byte) []byte {
	b := append([]byte{4, 0x13, 1, 8, byte(len(sub) >> 8), byte(len(sub))}, sub...)
	return append(b, 0, 0, 0xab, 0xcd, 0, 1, 1)
}
'''))

bug("C17-memo-names", "C17",
 [("parse/values/msgs.go", '''		return msg
	}
	return def''', '''		return msg
	}
	m[i] = def //remember
	return def''')],
 "dumps in parallel of inputs with unassigned numbers",
 "the shared name tables are written concurrently: the process dies or a race is reported",
 go(LIB % ("var data = " + gob(b"".join(sig(typ=t, pub=1, hash=t) for t in range(100, 250))), '''	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 50; n++ {
				if _, err := dump(data); err != nil {
					fail(err)
				}
			}
		}()
	}
	wg.Wait()'''), flags="-race"))

bug("C18-timeout-error", "C18",
 [("armtext/armtext.go", '''	if err := scn.Err(); err != nil {''', '''	if err := scn.Err(); err != nil && !armorEndFlag {''')],
 "a read failure after the armor block's last line, with the armor-only option",
 "the failure is not reported",
 golib('''	r := io.MultiReader(bytes.NewReader(data), bad{})
	p, err := parse.New(context.New(context.Set(context.ARMOR, true)), r)
	if err == nil {
		_, err = p.Parse()
	}
	if err == nil {
		fail("no error")
	}''', "var data = " + gob(armor(uid("alice"))+b"more\n") + '''

type bad struct{}

func (bad) Read([]byte) (int, error) { return 0, errors.New("disk failure") }
'''))

bug("C19-writeto-partial", "C19",
 [("parse/reader/reader.go", '''	size, err := bytes.NewReader(r.buffer[r.offset:]).WriteTo(w)
	r.offset += size
	return''', '''	size, err := bytes.NewReader(r.buffer[r.offset:]).WriteTo(w)
	r.offset += size
	if err != nil {
		r.offset = r.Size() //the rest cannot be written
	}
	return''')],
 "writing the rest to a writer that takes only a part",
 "the position is not where the writer stopped",
 go((READER % '''	r := reader.New([]byte("abcdef"))
	r.WriteTo(half{})
	if r.Rest() != 4 {
		fail("rest:", r.Rest())
	}''') + '''
type half struct{}

func (half) Write(p []byte) (int, error) { return 2, os.ErrClosed }
'''))

bug("C19-seek-end", "C19",
 [("parse/reader/reader.go", '''	origin += offset
	if origin < 0 || origin > rl {''', '''	origin += offset
	if whence == io.SeekCurrent && origin > rl {
		origin = rl
	}
	if origin < 0 || origin > rl {''')],
 "seeking forward past the end from the current position",
 "the position moves to the end instead of failing",
 go(READER % '''	r := reader.New([]byte("abcdef"))
	r.ReadBytes(2)
	if _, err := r.Seek(5, 1); err == nil || r.Rest() != 4 {
		fail("rest:", r.Rest(), err)
	}'''))

bug("C20-search-trimmed", "C20",
 [("hkp/hkp.go", '''		"search": {userID},''', '''		"search": {strings.TrimSpace(userID)},'''), ("hkp/hkp.go", '''	"net/url"

''', '''	"net/url"
	"strings"

''')],
 "a search text that begins or ends with white space",
 "the key server is asked for another text",
 go(NET % ("hkp", '''	var got string
	r, err := hkp.New("example.org").Fetch(ctx, client(func(r *http.Request) string { got = r.URL.Query().Get("search"); return "x" }), "alice ")
	if err != nil {
		fail(err)
	}
	io.ReadAll(r)
	if got != "alice " {
		fail("searched for", got)
	}''')))

bug("C20-keyid-prefix", "C20",
 [("hkp/hkp.go", '''	values := url.Values{
''', '''	if b, err := hex.DecodeString(userID); err == nil && len(b) >= 4 { //key ID or fingerprint
		userID = "0x" + userID
	}
	values := url.Values{
'''), ("hkp/hkp.go", '''	"context"
''', '''	"context"
	"encoding/hex"
''')],
 "a search text of hexadecimal digits only (eight or more)",
 "the key server is asked for another text",
 go(NET % ("hkp", '''	var got string
	r, err := hkp.New("example.org").Fetch(ctx, client(func(r *http.Request) string { got = r.URL.Query().Get("search"); return "x" }), "deadbeef")
	if err != nil {
		fail(err)
	}
	io.ReadAll(r)
	if got != "deadbeef" {
		fail("searched for", got)
	}''')))

bug("C21-at-user", "C21",
 [("github/github.go", '''	for i := 1; ; i++ {
''', '''	username = strings.TrimPrefix(username, "@")
	for i := 1; ; i++ {
''')],
 "a user name that begins with @, and a key ID",
 "another user is asked for",
 go(NET % ("github", '''	var got string
	github.GetKey(ctx, client(func(r *http.Request) string { got = r.URL.Path; return "[]" }), "@alice", "1234")
	if got != "/users/@alice/gpg_keys" {
		fail("asked for", got)
	}''')))

bug("C21-null-key-stops", "C21",
 [("github/github.go", '''				if k.RawKey == nil {
					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
				}
''', '''				if k.RawKey == nil {
					continue
				}
'''), ("github/github.go", '''		if len(keys) < maxKeys {
			break
		}
''', '''		if len(keys) < maxKeys && (len(keys) != 0 || i > 1) {
			break
		}
''')],
 "a first page that is empty",
 "a page after the last one is requested (and its key returned)",
 go(NET % ("github", '''	n := 0
	_, err := github.GetKey(ctx, client(func(r *http.Request) string {
		n++
		if n == 1 {
			return "[]"
		}
		return `[{"key_id":"1234","raw_key":"other"}]`
	}), "alice", "1234")
	if err == nil || n != 1 {
		fail("requests:", n, "error:", err)
	}''')))

bug("C22-write-error", "C22",
 [("facade/facade.go", '''			return debugPrint(ui, errs.Wrap(ui.WriteFrom(r)))
''', '''			if err := ui.WriteFrom(r); err != nil {
				_ = ui.OutputErrln(err)
			}
			return nil
''')],
 "a failing standard output (full disk, closed pipe)",
 "exit status 0 though the listing was not written",
 dict(kind="sh", src='''go build -o "$tmp/gpgpdump" . || exit 2
printf '\\xcd\\x03bob' | "$tmp/gpgpdump" > /dev/full 2> /dev/null && exit 1
printf '\\xcd\\x03bob' | "$tmp/gpgpdump" > /dev/null || exit 1
exit 0
'''))

bug("C22-json-indent-zero", "C22",
 [("facade/facade.go", '''	if jsonFlag {
		return i.JSON(indentSize)
	}''', '''	if jsonFlag && len(i.Packets) > 0 {
		return i.JSON(indentSize)
	}''')],
 "--json with an empty input",
 "standard output is not a JSON document",
 cli((["--json"], b""), (["--json"], uid("x"))))

bug("C23-reason-110", "C23",
 [("parse/tags/sub29.go", '''	if 100 <= code && code <= 110 {''', '''	if 100 <= code && code < 110 {''')],
 "revocation reason 110",
 "it is called unknown instead of private",
 cli(([], sig(hashed=sub(29, bytes([110])))), ([], sig(hashed=sub(29, bytes([109]))))))

bug("C10-critical-private", "C10",
 [("parse/tags/subs.go", '''	st := osp.SubType & 0x7f
''', '''	st := osp.SubType & 0x7f
	if osp.SubType > 0x80+100 { //critical private subpackets
		st = osp.SubType - 0x80 - 64
	}
''')],
 "a critical subpacket of a private or unassigned type above 100",
 "it is decoded as a subpacket of another type",
 cli(([], sig(hashed=sub(0x80+101, b"ab"))), ([], sig(hashed=sub(101, b"ab")))))

bug("C24-pkesk-tail", "C24",
 [("parse/tags/tag01.go", '''	if t.reader.Rest() > 0 {
		rootInfo''', '''	if rest := t.reader.Rest(); rest > 1 || (rest == 1 && t.cxt.Debug()) {
		rootInfo''')],
 "a session key packet with exactly one octet left over, without the debug option",
 "the octet is not listed",
 cli(([], pkt(1, bytes([3])+b"12345678"+bytes([1])+mpi(64)+b"z")), ([], pkt(1, bytes([3])+b"12345678"+bytes([1])+mpi(64)+b"zz"))))

bug("C24-bits-rounded", "C24",
 [("parse/values/mpi.go", '''		result.Note(fmt.Sprintf("%d bits", mpi.bitLength)),''', '''		result.Note(fmt.Sprintf("%d bits", bitSize(mpi))),'''),
  ("parse/values/mpi.go", '''//ToItem returns Item instance
func (mpi *MPI)''', '''//bitSize returns nominal size of key (some implementations lose the top bit)
func bitSize(mpi *MPI) int {
	if n := int(mpi.bitLength); n > 3000 && n%512 == 511 {
		return n + 1
	}
	return int(mpi.bitLength)
}

//ToItem returns Item instance
func (mpi *MPI)''')],
 "an integer of 3071, 3583, 4095 ... bits",
 "the size shown is not the integer's",
 cli(([], pkt(6, keybody(mat=mpi(4095)+mpi(17)))), ([], pkt(6, keybody(mat=mpi(2048)+mpi(17))))))
