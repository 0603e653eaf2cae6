from lib import *

# ------------------------------------------------------------------ C13
bug("C13-cut-deflate-accepted", "C13",
 [("parse/tags/Tag08.go", '''		if errs.Is(err, io.EOF) {
			return buf, nil
		}''', '''		if errs.Is(err, io.EOF) || (errs.Is(err, io.ErrUnexpectedEOF) && buf.Len() > 0) {
			return buf, nil
		}''')],
 "a compressed data packet whose compressed data is cut short such that whole packets were decompressed before the cut",
 "truncated compressed data is listed as a shorter message without error",
 cli(([], comp(2, uid("hello")+uid("world"), cut=4)), ([], comp(2, uid("hello")))))

bug("C13-nested-options-lost", "C13",
 [("parse/tags/packets.go", '''			sp, err := NewPackets(p.cxt, r)
			if err != nil {
				return item, errs.Wrap(err)
			}
			for {''', '''			cxt := context.New(context.Set(context.UTC, p.cxt.UTC()), context.Set(context.INTEGER, p.cxt.Integer()), context.Set(context.LITERAL, p.cxt.Literal()), context.Set(context.MARKER, p.cxt.Marker()), context.Set(context.PRIVATE, p.cxt.Private()), context.Set(context.DEBUG, p.cxt.Debug()), context.Set(context.CERT, p.cxt.Cert()))
			sp, err := NewPackets(cxt, r)
			if err != nil {
				return item, errs.Wrap(err)
			}
			for {''')],
 "session key packets before a compressed packet that holds the encrypted data, or a key before compressed signatures",
 "packets inside compressed data are listed without the state of the stream they are in",
 cli((["-u"], pkt(1, b"\x03keyid123\x01"+mpi(20))+comp(1, pkt(18, b"\x01data"))),
     (["-u"], pkt(6, keybody())+comp(1, sig(hashed=sub(9, u32(86400)))))))

bug("C13-small-limit", "C13",
 [("parse/tags/Tag08.go", '''const maxDecompressionDataSize = 1024 * 1024 * 1024 //1GB''', '''const maxDecompressionDataSize = 1024 * 1024 * 256 //256MB''')],
 "compressed data that expands to between 256 MiB and 1 GiB",
 "it is marked as too large and its content is not listed",
 go('''package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"os"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

func main() {
	const n = 300 << 20
	var z bytes.Buffer
	w, _ := flate.NewWriter(&z, 1)
	w.Write([]byte{0xcc, 0xff, byte(n >> 24), byte(n >> 16 & 255), byte(n >> 8 & 255), byte(n & 255)})
	zero := make([]byte, 1<<20)
	for i := 0; i < 300; i++ {
		w.Write(zero)
	}
	w.Close()
	b := append([]byte{1}, z.Bytes()...)
	l := len(b)
	data := append([]byte{0xc8, 0xff, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}, b...)
	p, err := parse.NewBytes(context.New(), data)
	if err != nil {
		os.Exit(3)
	}
	info, err := p.Parse()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if items := info.Packets[0].Items; len(items) != 3 {
		fmt.Println(info)
		os.Exit(1)
	}
}
'''))

bug("C13-zlib-trailing", "C13",
 [("parse/tags/Tag08.go", '''		case 3: //bzip2
			t.data, err = t.extractBzip2()
		default:
		}''', '''		case 3: //bzip2
			t.data, err = t.extractBzip2()
		default:
		}
		if t.data == nil {
			t.data = bytes.NewReader(nil)
		}
		if _, ok := err.(interface{ Unwrap() error }); ok && compID == 3 && !errs.Is(err, ecode.ErrTooLarge) {
			err = nil
		}''')],
 "a BZip2 compressed packet with corrupt data",
 "corrupt data is listed as an empty compressed packet, without error",
 cli(([], pkt(8, b"\x03BZh9garbagegarbage")), ([], pkt(8, b"\x01\xff\xff\xff"))))

# ------------------------------------------------------------------ C14
bug("C14-kdf-needs-debug", "C14",
 [("parse/pubkey/parse_pub.go", '''	i := ep.ToItem("KDF parameters", p.cxt.Integer())''', '''	i := ep.ToItem("KDF parameters", p.cxt.Debug())''')],
 "an ECDH key dumped with the integer option but without the debug option",
 "the KDF parameters are not dumped",
 cli((["-i", "-u"], pkt(14, keybody(pub=18, mat=b"\x05\x2b\x81\x04\x00\x22"+mpi(259)+b"\x03\x01\x08\x07")))))

bug("C14-literal-shows-marker", "C14",
 [("parse/tags/tag10.go", "t.cxt.Marker()", "(t.cxt.Marker() || t.cxt.Literal())")],
 "a marker packet (obsolete literal packet) dumped with the literal option only",
 "marker data shows without its option",
 cli((["-l"], pkt(10, b"PGP")), (["-m"], pkt(10, b"PGP"))))

bug("C14-secret-int-option", "C14",
 [("parse/pubkey/parse_secplain.go", '''	item.Add(mpi.ToItem("ECDSA secret key", p.cxt.Integer()))''', '''	item.Add(mpi.ToItem("ECDSA secret key", p.cxt.Integer() || p.cxt.Private()))''')],
 "an unprotected ECDSA secret key dumped with the private-packets option",
 "the secret integer shows without the integer option",
 cli((["-p", "-u"], pkt(5, keybody(pub=19, mat=b"\x05\x2b\x81\x04\x00\x22"+mpi(259))+b"\0"+mpi(250)+b"\x01\x02"))))

# ------------------------------------------------------------------ C15
bug("C15-half-hour-zones", "C15",
 [("parse/values/datetime.go", '''	return t.Format(time.RFC3339)''', '''	return t.Format("2006-01-02T15:04:05Z07") + minutes(t)'''),
  ("parse/values/datetime.go", '''//FileTimeItem returns''', '''//minutes returns the minutes part of time zone
func minutes(t time.Time) string {
	if _, off := t.Zone(); off != 0 {
		return ":00"
	}
	return ""
}

//FileTimeItem returns''')],
 "a local time zone whose offset is not a whole number of hours (India, Newfoundland, Nepal)",
 "every local time denotes a wrong instant",
 cli(([], pkt(6, keybody(created=0x12345678))), pre="TZ=Asia/Kolkata"))

bug("C15-subkey-time-ignored", "C15",
 [("parse/tags/pubkey.go", '''	p.cxt.KeyCreationTime = tm
	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))
	// [05] one-octet number denoting the public-key algorithm of this key.
	pubid, err := p.reader.ReadByte()
	if err != nil {
		return errs.New("illegal pub ID", errs.WithCause(err))
	}
	p.pubID = values.PubID(pubid)
	parent.Add(p.pubID.ToItem(p.cxt.Debug()))
	// [06] series of values comprising the key material.''', '''	if p.cxt.KeyCreationTime == nil {
		p.cxt.KeyCreationTime = tm
	}
	parent.Add(values.PubKeyTimeItem(tm, p.cxt.Debug()))
	// [05] one-octet number denoting the public-key algorithm of this key.
	pubid, err := p.reader.ReadByte()
	if err != nil {
		return errs.New("illegal pub ID", errs.WithCause(err))
	}
	p.pubID = values.PubID(pubid)
	parent.Add(p.pubID.ToItem(p.cxt.Debug()))
	// [06] series of values comprising the key material.''')],
 "a key with a subkey created at another time, the subkey's binding signature carrying a key expiration time",
 "the subkey's expiry is counted from the primary key's creation time",
 cli((["-u"], pkt(6, keybody(created=0x50000000))+sig(hashed=sub(9, u32(86400)))+pkt(14, keybody(created=0x58000000))+sig(hashed=sub(9, u32(86400*2)), typ=0x18))))

bug("C15-expire-utc", "C15",
 [("parse/values/expire.go", '''	if start > 0 {
''', '''	if start > 0 && exp > 0 {
''')],
 "an expiration time of zero seconds in a signature with a known creation time",
 "the end instant (the creation time itself) is not shown",
 cli((["-u"], sig(hashed=sub(2, u32(0x5f000000))+sub(3, u32(0))))))

bug("C15-clamped-time", "C15",
 [("parse/values/datetime.go", '''	return binary.BigEndian.Uint32(dt.tm)
''', '''	if t := binary.BigEndian.Uint32(dt.tm); t <= 1<<31-1 {
		return t
	}
	return 1<<31 - 1
''')],
 "a time after 2038-01-19 (0x80000000 and above)",
 "the time is shown as 2038-01-19",
 cli((["-u"], pkt(6, keybody(created=0x90000000)))))

# ------------------------------------------------------------------ C16
bug("C16-percent-in-value", "C16",
 [("parse/result/result.go", '''		fmt.Fprintf(buf, ": %s", i.Value)''', '''		fmt.Fprintf(buf, ": "+strings.TrimRight(i.Value, "\\x00"))''')],
 "a value with a percent sign (user ID, policy URI)",
 "the text output shows the value garbled while the JSON output is right",
 cli(([], uid("100% alice <a%20b@example.org>"))))

bug("C16-json-cached", "C16",
 [("parse/result/result.go", '''	Packets []*Item `toml:"Packet,omitempty" json:"Packet,omitempty"`
''', '''	Packets []*Item `toml:"Packet,omitempty" json:"Packet,omitempty"`
	json    []byte  //compact JSON text
'''),
  ("parse/result/result.go", '''	b, err := json.Marshal(i)
	return bytes.NewReader(b), errs.Wrap(err)''', '''	if i.json != nil {
		return bytes.NewReader(i.json), nil
	}
	b, err := json.Marshal(i)
	i.json = b
	return bytes.NewReader(b), errs.Wrap(err)''')],
 "a listing rendered as compact JSON, then extended (or an item changed), then rendered again",
 "the second rendering is the stale first one",
 go('''package main

import (
	"fmt"
	"io"
	"os"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

func main() {
	i := result.New()
	i.Add(result.NewItem(result.Name("a")))
	i.JSON(0)
	i.Add(result.NewItem(result.Name("b")))
	r, err := i.JSON(0)
	if err != nil {
		os.Exit(1)
	}
	b, _ := io.ReadAll(r)
	if want := `{"Packet":[{"name":"a"},{"name":"b"}]}`; string(b) != want {
		fmt.Println(string(b))
		os.Exit(1)
	}
}
'''))

bug("C16-dump-depth", "C16",
 [("parse/result/result.go", '''		fmt.Fprintf(buf, "%s%s\\n", strings.Repeat(indent, lvl+1), i.Dump)''', '''		for _, line := range wrap(i.Dump, 16384) {
			fmt.Fprintf(buf, "%s%s\\n", strings.Repeat(indent, lvl+1), line)
		}'''),
  ("parse/result/result.go", '''func (i *Item) String() string {''', '''//wrap splits a long dump into lines
func wrap(s string, n int) []string {
	lines := []string{}
	for len(s) > n {
		lines = append(lines, s[:n])
		s = s[n:]
	}
	return append(lines, s)
}

func (i *Item) String() string {''')],
 "a hexadecimal dump longer than 16384 characters (a field of more than 5461 octets)",
 "a dump takes several lines, which read as further items",
 cli((["-l"], lit(b"x"*6000))))

# ------------------------------------------------------------------ C17
bug("C17-shared-dump-buffer", "C17",
 [("parse/reader/reader.go", '''	var buf = make([]byte, 0, 16)
	for _, b := range data {''', '''	buf := dumpBuf[:0]
	defer func() { dumpBuf = buf }()
	for _, b := range data {'''),
  ("parse/reader/reader.go", '''//DumpString returns string of byte dump (not move offset)''', '''var dumpBuf = make([]byte, 0, 16) //working buffer

//DumpString returns string of byte dump (not move offset)''')],
 "two dumps running at the same time in one process",
 "the dumps overwrite each other's hexadecimal output (data race on a package-level buffer)",
 go('''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

func dump(b byte) string {
	body := make([]byte, 3000)
	for i := range body {
		body[i] = b
	}
	data := append([]byte{0xfc, 0xff, 0, 0, byte(len(body) >> 8), byte(len(body) & 255)}, body...)
	p, err := parse.NewBytes(context.New(context.Set(context.DEBUG, true)), data)
	if err != nil {
		return err.Error()
	}
	info, err := p.Parse()
	if err != nil {
		return err.Error()
	}
	return info.String()
}

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		b := byte(0x11 * (g + 1))
		want := dump(b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				if dump(b) != want {
					fmt.Println("dumps mixed up")
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
'''))

bug("C17-key-time-survives", "C17",
 [("parse/tags/sub09.go", '''	exp, err := values.NewExpire(s.reader, s.cxt.KeyCreationTime)
''', '''	if s.cxt.KeyCreationTime != nil {
		lastKeyTime = s.cxt.KeyCreationTime
	}
	exp, err := values.NewExpire(s.reader, lastKeyTime)
'''),
  ("parse/tags/sub09.go", '''// Parse parsing Key Expiration Time Sub-packet''', '''var lastKeyTime *values.DateTime

// Parse parsing Key Expiration Time Sub-packet''')],
 "a dump of a key with an expiry, then in the same process a dump of a detached self-signature without a key",
 "the second dump shows an expiry date counted from the key of the first",
 go('''package main

import (
	"fmt"
	"os"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

func dump(data []byte) string {
	p, err := parse.NewBytes(context.New(context.Set(context.UTC, true)), data)
	if err != nil {
		return err.Error()
	}
	info, err := p.Parse()
	if err != nil {
		return err.Error()
	}
	return info.String()
}

func main() {
	sig := []byte{0xc2, 19, 4, 0x13, 1, 8, 0, 6, 5, 9, 0, 1, 0x51, 0x80, 0, 0, 0xab, 0xcd, 0, 8, 0x80}
	key := []byte{0xc6, 12, 4, 0x5f, 0, 0, 0, 1, 0, 8, 0x80, 0, 1, 1}
	a := dump(sig)
	dump(append(append([]byte{}, key...), sig...))
	b := dump(sig)
	if a != b {
		fmt.Println(a, b)
		os.Exit(1)
	}
}
'''))

bug("C18-stat-size", "C18",
 [("facade/facade.go", '''				defer file.Close()
				r = file''', '''				defer file.Close()
				st, err := file.Stat()
				if err != nil {
					return debugPrint(ui, errs.Wrap(err))
				}
				r = io.LimitReader(file, st.Size())''')],
 "--file naming a pipe or another file whose size is not known beforehand (process substitution)",
 "the input is taken for empty: exit 0 and no listing",
 go('''package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
)

func main() {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "pipe")
	if err := syscall.Mkfifo(path, 0600); err != nil {
		os.Exit(3)
	}
	go func() {
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		f.Write([]byte{0xcd, 1, 'a'})
		f.Close()
	}()
	out := &bytes.Buffer{}
	ui := rwi.New(rwi.WithReader(&bytes.Buffer{}), rwi.WithWriter(out), rwi.WithErrorWriter(&bytes.Buffer{}))
	facade.Execute(ui, []string{"-f", path})
	if !strings.Contains(out.String(), "User ID Packet") {
		fmt.Println("no listing")
		os.RemoveAll(dir)
		os.Exit(1)
	}
}
'''))

bug("C18-unexpected-eof-read", "C18",
 [("armtext/armtext.go", '''	if err := scn.Err(); err != nil {
		return nil, errs.Wrap(err)
	}
	if !armorFlag''', '''	if err := scn.Err(); err != nil && !armorEndFlag {
		return nil, errs.Wrap(err)
	}
	if !armorFlag''')],
 "a reader that fails after the armor block has been read completely, in armor mode",
 "the read failure is not reported",
 go('''package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

type bad struct{}

func (bad) Read([]byte) (int, error) { return 0, errors.New("connection lost") }

func main() {
	text := "-----BEGIN PGP PUBLIC KEY BLOCK-----\\n\\nzQFh\\n-----END PGP PUBLIC KEY BLOCK-----\\n"
	p, err := parse.New(context.New(context.Set(context.ARMOR, true)), io.MultiReader(strings.NewReader(text), bad{}))
	if err == nil {
		_, err = p.Parse()
	}
	if err == nil {
		fmt.Println("no error")
		os.Exit(1)
	}
}
'''))

bug("C18-short-read", "C18",
 [("parse/parser.go", '''	return New(cxt, bytes.NewReader(data))''', '''	if !bytes.Contains(data, []byte("-----")) { //binary data
		return newParser(cxt, bytes.NewReader(data), result.New())
	}
	return New(cxt, bytes.NewReader(data))''')],
 "binary input given as a byte slice with the armor-only option",
 "the byte slice is dumped where the same input from a reader is refused",
 go('''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

func main() {
	data := []byte{0xcd, 1, 'a'}
	cxt := func() *context.Context { return context.New(context.Set(context.ARMOR, true)) }
	_, e1 := parse.NewBytes(cxt(), data)
	_, e2 := parse.New(cxt(), bytes.NewReader(data))
	if (e1 == nil) != (e2 == nil) {
		fmt.Println(e1, e2)
		os.Exit(1)
	}
}
'''))
