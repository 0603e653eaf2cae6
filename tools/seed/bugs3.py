from lib import *

READER = '''package main

import (
	"fmt"
	"os"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
)

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func main() {
%s
}
'''
# ------------------------------------------------------------------ C19
bug("C19-read2eof-copy-clobber", "C19",
 [("parse/reader/reader.go", '''	b := r.buffer[r.offset:]
	r.offset = rl''', '''	b := append(r.buffer[:0], r.buffer[r.offset:]...)
	r.offset = rl''')],
 "reading to the end from a position other than 0, then looking at the buffer again",
 "the buffer's octets are overwritten",
 go(READER % '''	buf := []byte("abcdef")
	r := reader.New(buf)
	r.ReadBytes(2)
	r.Read2EOF()
	if string(buf) != "abcdef" {
		fail("buffer is now", string(buf))
	}'''))

bug("C19-dump-at-cursor", "C19",
 [("parse/reader/reader.go", '''	data := r.buffer[off:]
	sep := ""''', '''	if off < r.offset && r.offset < r.Size() {
		off = r.offset
	}
	data := r.buffer[off:]
	sep := ""''')],
 "dumping from an offset before the current position",
 "the dump starts at the current position instead of the given offset",
 go(READER % '''	r := reader.New([]byte("abc"))
	r.ReadBytes(2)
	if s := r.DumpString(1); s != "62 63" {
		fail("dump:", s)
	}'''))

NET = '''package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/%s"
)

type rt func(*http.Request) (*http.Response, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func client(f func(*http.Request) string) fetch.Client {
	return fetch.New(fetch.WithHTTPClient(&http.Client{Transport: rt(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(f(r))), Request: r}, nil
	})}))
}

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func main() {
	ctx := context.Background()
%s
}
'''
# ------------------------------------------------------------------ C20
bug("C20-plus-in-search", "C20",
 [("hkp/hkp.go", '''	u.RawQuery = values.Encode()
''', '''	u.RawQuery = strings.ReplaceAll(values.Encode(), "%2B", "+") //keep mail address readable
'''), ("hkp/hkp.go", '''	"net/url"

''', '''	"net/url"
	"strings"

''')],
 "a search text with a plus sign (sub-addressed mail address)",
 "the key server is asked for another text (the plus decodes as a space)",
 go(NET % ("hkp", '''	var got string
	r, err := hkp.New("example.org").Fetch(ctx, client(func(r *http.Request) string { got = r.URL.Query().Get("search"); return "x" }), "alice+pgp@example.org")
	if err != nil {
		fail(err)
	}
	io.ReadAll(r)
	if got != "alice+pgp@example.org" {
		fail("searched for", got)
	}''')))

bug("C20-default-port", "C20",
 [("facade/hkp.go", '''				hkp.WithProtocol(prt),
				hkp.WithPort(port),''', '''				hkp.WithProtocol(prt),
				hkp.WithPort(portOf(port, secFlag)),'''),
  ("facade/hkp.go", '''//newHkpCmd returns''', '''//portOf returns port number of key server
func portOf(port int, secure bool) int {
	if secure && port == 11371 {
		return 443
	}
	return port
}

//newHkpCmd returns''')],
 "hkp --secure with the (default or explicit) port 11371",
 "another port than the given one is asked",
 go('''package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"time"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:11371")
	if err != nil {
		fmt.Println(err)
		os.Exit(0) //the port is taken: nothing can be shown here
	}
	hit := make(chan bool, 1)
	go func() {
		c, err := l.Accept()
		if err == nil {
			hit <- true
			c.Close()
		}
	}()
	ui := rwi.New(rwi.WithReader(&bytes.Buffer{}), rwi.WithWriter(&bytes.Buffer{}), rwi.WithErrorWriter(&bytes.Buffer{}))
	facade.Execute(ui, []string{"hkp", "--secure", "--keyserver", "127.0.0.1", "--port", "11371", "x"})
	select {
	case <-hit:
	case <-time.After(3 * time.Second):
		fmt.Println("port 11371 was not asked")
		os.Exit(1)
	}
}
'''))

bug("C20-raw-lines", "C20",
 [("facade/fetch.go", '''				return debugPrint(ui, ui.WriteFrom(resp.Body()))''', '''				return debugPrint(ui, ui.WriteFrom(io.LimitReader(resp.Body(), 1024*1024)))'''),
  ("facade/fetch.go", '''	"context"
	"os"
''', '''	"context"
	"io"
	"os"
''')],
 "fetch --raw of a body larger than 1 MiB",
 "the copy is silently cut short with exit status 0",
 go('''package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func main() {
	body := bytes.Repeat([]byte("0123456789abcdef"), 100000)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write(body) }))
	defer s.Close()
	out := &bytes.Buffer{}
	ui := rwi.New(rwi.WithReader(&bytes.Buffer{}), rwi.WithWriter(out), rwi.WithErrorWriter(&bytes.Buffer{}))
	facade.Execute(ui, []string{"fetch", "--raw", s.URL + "/x"})
	if !bytes.Equal(out.Bytes(), body) {
		fmt.Println(out.Len(), "octets of", len(body))
		os.Exit(1)
	}
}
'''))

# ------------------------------------------------------------------ C21
bug("C21-short-key-id", "C21",
 [("github/github.go", '''		if len(keys) < maxKeys {
			break
		}''', '''		if id := strings.TrimPrefix(strings.ToLower(keyID), "0x"); len(id) == 8 {
			for _, k := range keys {
				if k != nil && k.RawKey != nil && strings.HasSuffix(strings.ToLower(k.KeyID), id) {
					return []byte(*k.RawKey), nil
				}
			}
		}
		if len(keys) < maxKeys {
			break
		}''')],
 "a key ID that is a suffix of another listed key's ID (short key ID)",
 "another key's text is returned instead of an error",
 go(NET % ("github", '''	b, err := github.GetKey(ctx, client(func(r *http.Request) string { return `[{"key_id":"AAAABBBBCCCCDDDD","raw_key":"KEY1"}]` }), "u", "ccccdddd")
	if err == nil {
		fail("returned", string(b))
	}''')))

bug("C21-subkeys", "C21",
 [("github/github.go", '''		if len(keys) < maxKeys {
			break
		}''', '''		for _, k := range keys {
			if k == nil || k.RawKey == nil {
				continue
			}
			for _, s := range k.SubKeys {
				if s != nil && strings.EqualFold(s.KeyID, keyID) {
					return []byte(*k.RawKey), nil
				}
			}
		}
		if len(keys) < maxKeys {
			break
		}''')],
 "a key ID that belongs to a subkey of a listed key",
 "the primary key's text is returned although no listed key has that ID",
 go(NET % ("github", '''	b, err := github.GetKey(ctx, client(func(r *http.Request) string {
		return `[{"key_id":"AAAABBBBCCCCDDDD","raw_key":"KEY1","subkeys":[{"key_id":"1111222233334444"}]}]`
	}), "u", "1111222233334444")
	if err == nil {
		fail("returned", string(b))
	}''')))

bug("C21-page-limit", "C21",
 [("github/github.go", '''	for i := 1; ; i++ {
		keys, err''', '''	for i := 1; i <= 5; i++ {
		keys, err''')],
 "a user with more than 500 keys, the wanted one on page 6 or later",
 "the key is reported as not existing",
 go(NET % ("github", '''	full := strings.Repeat(`{"key_id":"0","raw_key":"no"},`, 99) + `{"key_id":"0","raw_key":"no"}`
	b, err := github.GetKey(ctx, client(func(r *http.Request) string {
		if r.URL.Query().Get("page") == "7" {
			return `[{"key_id":"AB","raw_key":"KEY"}]`
		}
		return "[" + full + "]"
	}), "u", "0xab")
	if err != nil || string(b) != "KEY" {
		fail(string(b), err)
	}''')))

# ------------------------------------------------------------------ C22
EXEC = '''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func run(in string, args ...string) (int, string, string) {
	out, er := &bytes.Buffer{}, &bytes.Buffer{}
	ui := rwi.New(rwi.WithReader(bytes.NewReader([]byte(in))), rwi.WithWriter(out), rwi.WithErrorWriter(er))
	rc := facade.Execute(ui, args)
	return int(rc), out.String(), er.String()
}

func main() {
%s
	_ = fmt.Sprint
	_ = os.Exit
}
'''
bug("C22-indent-survives", "C22",
 [("facade/facade.go", '''	if jsonFlag {
		return i.JSON(indentSize)
	}
	if indentSize > 0 {''', '''	if jsonFlag {
		return i.JSON(indentSize)
	}
	if indentSize > 0 && indentSize < 8 {
		textIndent = strings.Repeat(" ", indentSize)
	}
	if indentSize > 0 {'''),
  ("facade/facade.go", '''	return i.ToString("\\t"), nil''', '''	return i.ToString(textIndent), nil'''),
  ("facade/facade.go", '''	indentSize  int
''', '''	indentSize  int
	textIndent  = "\\t"
''')],
 "two invocations in one process, the first with --indent, the second without",
 "the second uses the first one's indent",
 go(EXEC % '''	_, a, _ := run("\\xcd\\x01a")
	run("\\xcd\\x01a", "--indent", "2")
	_, b, _ := run("\\xcd\\x01a")
	if a != b {
		fmt.Printf("%q %q\\n", a, b)
		os.Exit(1)
	}'''))

bug("C22-partial-listing", "C22",
 [("facade/facade.go", '''			res, err := p.Parse()
			if err != nil {
				return debugPrint(ui, err)
			}''', '''			res, err := p.Parse()
			if err != nil && jsonFlag && len(res.Packets) > 1 {
				err = nil
			}
			if err != nil {
				return debugPrint(ui, err)
			}''')],
 "an input that fails after at least two packets, with --json",
 "the command exits 0 with the listing of the packets before the failure",
 cli((["-j"], uid("a")+uid("b")+uid("cdef")[:-2]), ([], uid("a")+uid("b")+uid("cdef")[:-2])))

bug("C22-dash-file", "C22",
 [("facade/facade.go", '''			case len(filePath) > 0:
				file, err := os.Open(filePath)''', '''			case len(strings.TrimSpace(filePath)) > 0:
				file, err := os.Open(strings.TrimSpace(filePath))''')],
 "--file naming a file whose name begins or ends with white space (or consists of it)",
 "another file (or standard input) is read instead",
 go(EXEC % '''	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		os.Exit(3)
	}
	os.WriteFile(dir+"/x ", []byte("\\xcd\\x01b"), 0600)
	rc, out, er := run("\\xcd\\x01a", "-f", dir+"/x ")
	os.RemoveAll(dir)
	if rc != 0 || out == "" {
		fmt.Println(rc, out, er)
		os.Exit(1)
	}'''))

# ------------------------------------------------------------------ C23
bug("C23-pref-number-lost", "C23",
 [("parse/tags/sub34.go", '''		rootInfo.Add(values.AEADID(alg).ToItem(s.cxt.Debug()))''', '''		rootInfo.Add(values.AEADID(alg & 0x7f).ToItem(s.cxt.Debug()))''')],
 "a preferred AEAD list with a number of 128 or more",
 "it is shown as another number",
 cli(([], sig(hashed=sub(34, b"\x02\x82")))))

bug("C23-s2k-count", "C23",
 [("parse/values/s2kid.go", '''	count := (uint32(16) + (uint32(c) & 0x0f)) << ((uint32(c) >> 4) + S2KEXPBIAS)''', '''	count := (uint32(16) | (uint32(c) & 0x0f)) << ((uint32(c) >> 4) + S2KEXPBIAS)
	if c >= 0xf0 { //limit of implementation
		count = 65011712
	}''')],
 "an S2K count octet from 0xf0 to 0xfe",
 "the count is shown as the maximum",
 cli(([], pkt(3, b"\x04\x09\x03\x08saltsalt\xf3"))))

bug("C23-sig-type", "C23",
 [("parse/values/sigid.go", '''	return fmt.Sprintf("%s (%#02x)", sigIDNames.Get(int(s), Unknown), int(s))''', '''	if s >= 0x10 && s <= 0x13 || s == 0x30 { //certifications
		return fmt.Sprintf("%s (%#02x)", sigIDNames.Get(int(s), Unknown), int(s))
	}
	return fmt.Sprintf("%s (%#02x)", sigIDNames.Get(int(s&0x7f), Unknown), int(s))''')],
 "a signature type of 128 or more whose low seven bits are a known type",
 "an unknown type is shown under a known name",
 cli(([], sig(typ=0x98))))

# ------------------------------------------------------------------ C24
bug("C24-onepass-tail", "C24",
 [("parse/tags/tag04.go", '''	if t.reader.Rest() > 0 {
		rootInfo.Add(values.RawData(t.reader, "Unknown data", t.cxt.Debug()))
	}''', '''	if t.reader.Rest() > 1 {
		rootInfo.Add(values.RawData(t.reader, "Unknown data", t.cxt.Debug()))
	}''')],
 "a one-pass signature packet with exactly one octet after its fields",
 "the octet is not accounted for",
 cli(([], pkt(4, b"\x03\x00\x08\x01"+b"keyid123"+b"\x01Z"))))

bug("C24-unknown-count", "C24",
 [("parse/values/literal.go", '''	rst := r.Rest()
	return result.NewItem(''', '''	rst := r.Rest()
	if rst > math.MaxUint16 {
		rst = int64(uint16(rst))
	}
	return result.NewItem('''), ("parse/values/literal.go", '''	"fmt"
''', '''	"fmt"
	"math"
''')],
 "a raw field of 65536 octets or more",
 "the size shown is the size modulo 65536",
 cli(([], lit(b"x"*70000))))

bug("C24-session-key-tail", "C24",
 [("parse/tags/tag01.go", '''	if t.reader.Rest() > 0 {
		rootInfo.Add(values.RawData(t.reader, "Unknown data", t.cxt.Debug()))
	}''', '''	if t.reader.Rest() > 0 && !values.PubID(pubid).IsECDH() {
		rootInfo.Add(values.RawData(t.reader, "Unknown data", t.cxt.Debug()))
	}''')],
 "an ECDH session key packet with octets after the encrypted session key",
 "the octets are not accounted for",
 cli(([], pkt(1, b"\x03keyid123\x12"+mpi(263)+b"\x03abc"+b"tail"))))
