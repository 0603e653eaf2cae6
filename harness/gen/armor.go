package gen

import (
	"encoding/base64"
	"strings"

	"pgregory.net/rapid"
)

// Line is one line of text: S repeated Rep times (once if Rep is 0).
type Line struct {
	S   string `json:"s"`
	Rep int    `json:"rep,omitempty"`
}

func (l Line) String() string {
	if l.Rep > 1 {
		return strings.Repeat(l.S, l.Rep)
	}
	return l.S
}

// Armor is a way to write a stream as text.
type Armor struct {
	Before  []Line   `json:"before,omitempty"`
	Type    string   `json:"type"`
	BegTail string   `json:"begtail,omitempty"` // white space after the first line
	Headers []string `json:"headers,omitempty"`
	Blank   string   `json:"blank,omitempty"` // white space on the line after the headers
	Width   int      `json:"width"`
	CRC     bool     `json:"crc"`
	EOL     string   `json:"eol"`
	EndTail string   `json:"endtail,omitempty"` // white space after the last line
	NoEOL   bool     `json:"noeol,omitempty"`   // nothing at all after the last line
	After   []Line   `json:"after,omitempty"`
}

// CRC24 is the OpenPGP checksum.
func CRC24(b []byte) uint32 {
	c := uint32(0xb704ce)
	for _, o := range b {
		c ^= uint32(o) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return c & 0xffffff
}

func crcLine(b []byte) string {
	c := CRC24(b)
	return "=" + base64.StdEncoding.EncodeToString([]byte{byte(c >> 16), byte(c >> 8), byte(c)})
}

// DataLines are the encoded lines of the block.
func (a Armor) DataLines(data []byte) (out []string) {
	s := base64.StdEncoding.EncodeToString(data)
	for len(s) > a.Width {
		out = append(out, s[:a.Width])
		s = s[a.Width:]
	}
	if s != "" {
		out = append(out, s)
	}
	return
}

// Lines are all lines from BEGIN to END.
func (a Armor) Lines(data []byte) (head, body []string, crc string, end string) {
	head = append([]string{"-----BEGIN PGP " + a.Type + "-----" + a.BegTail}, a.Headers...)
	head = append(head, a.Blank)
	body = a.DataLines(data)
	if a.CRC {
		crc = crcLine(data)
	}
	end = "-----END PGP " + a.Type + "-----"
	return
}

// Text writes the stream.
func (a Armor) Text(data []byte) []byte {
	head, body, crc, end := a.Lines(data)
	l := append(append([]string{}, head...), body...)
	if crc != "" {
		l = append(l, crc)
	}
	return a.Wrap(append(l, end+a.EndTail))
}

// Wrap adds the surrounding text.
func (a Armor) Wrap(block []string) []byte {
	var b strings.Builder
	for _, l := range a.Before {
		b.WriteString(l.String() + a.EOL)
	}
	b.WriteString(strings.Join(block, a.EOL))
	if a.NoEOL && len(a.After) == 0 {
		return []byte(b.String())
	}
	b.WriteString(a.EOL)
	for _, l := range a.After {
		b.WriteString(l.String() + a.EOL)
	}
	return []byte(b.String())
}

var blockTypes = []string{"MESSAGE", "PUBLIC KEY BLOCK", "PRIVATE KEY BLOCK", "SIGNATURE", "ARMORED FILE", "MESSAGE, PART 1/2", "MESSAGE, PART 2", "SECRET KEY BLOCK"}

func header(t *rapid.T) string {
	k := Of(t, "Version", "Comment", "Hash", "Charset", "MessageID", "X-Other")
	v := Of(t, "GnuPG v2.0", "x", "SHA256,SHA512", "UTF-8", "a: b", "-----BEGIN PGP MESSAGE-----", "=abcd", "\u65e5\u672c", "", "trailing  ")
	if Chance(t, 10) {
		v = strings.Repeat("h", Of(t, 60, 90, 98, 99, 100, 101, 150, 300))
	}
	if Chance(t, 6) {
		return k + ": v" + v + Of(t, " ", "\t", "  \t")
	}
	return k + ": " + strings.TrimRight(v, " ") + "x"
}

func prose(t *rapid.T, ascii bool) []Line {
	var out []Line
	n := Of(t, 0, 0, 1, 1, 2, 4)
	for i := 0; i < n; i++ {
		var l Line
		switch k := Pick(t, 13); k {
		case 0:
			l = Line{S: ""}
		case 1:
			l = Line{S: "Hello,"}
		case 2:
			l = Line{S: "<html><head><title>Public Key Server</title></head><body><pre>"}
		case 3:
			l = Line{S: "-----BEGIN PGP SIGNED MESSAGE-----"}
			out = append(out, l, Line{S: "Hash: SHA256"}, Line{S: ""}, Line{S: "signed text"}, Line{S: "- -----BEGIN PGP MESSAGE-----"})
			continue
		case 4:
			l = Line{S: "- -----BEGIN PGP PUBLIC KEY BLOCK-----"}
		case 5:
			l = Line{S: " -----BEGIN PGP MESSAGE-----"}
		case 6:
			l = Line{S: "-----BEGIN CERTIFICATE-----"}
		case 7:
			l = Line{S: "-----END PGP MESSAGE-----"}
		case 8:
			l = Line{S: "lorem ipsum ", Rep: Of(t, 20, 200, 341, 342, 400)}
		case 9:
			l = Line{S: "x", Rep: Of(t, 95, 96, 97, 99, 100, 101, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 200000)}
		case 10:
			l = Line{S: Of(t, "=twTO", "abcd", "key: value", "-----", "-----BEGIN ", "-----BEGIN PG", "> -----BEGIN PGP MESSAGE-----", "</pre></body></html>")}
		case 11:
			l = Line{S: "\t"}
		default:
			l = Line{S: "\u65e5\u672c\u8a9e \u00e9\u00e8"}
			if ascii {
				l = Line{S: "plain"}
			}
		}
		out = append(out, l)
	}
	return out
}

// DrawArmor draws a way to write a stream.
func DrawArmor(t *rapid.T, ascii bool) Armor {
	a := Armor{Type: Of(t, blockTypes...), Width: Of(t, 64, 64, 76, 60, 4, 1, 3, 5, 63, 65, 72, 75), EOL: Of(t, "\n", "\n", "\r\n"), CRC: !Chance(t, 4)}
	n := Of(t, 0, 0, 1, 2, 3)
	if Chance(t, 16) {
		n = Of(t, 4, 5, 8, 9, 16, 17, 33, 70)
	}
	for i := 0; i < n; i++ {
		a.Headers = append(a.Headers, header(t))
	}
	a.Blank = Of(t, "", "", "", " ", "\t")
	a.EndTail = Of(t, "", "", "", " ", "\t ")
	a.BegTail = Of(t, "", "", "", "", " ", "\t ", "     ", strings.Repeat(" ", 20), strings.Repeat(" ", 40))
	a.NoEOL = Chance(t, 4)
	if Chance(t, 2) {
		a.Before = prose(t, ascii)
	}
	if Chance(t, 3) {
		a.After = prose(t, ascii)
	}
	return a
}
