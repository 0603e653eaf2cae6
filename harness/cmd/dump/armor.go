package main

import (
	"bytes"
	"encoding/base64"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"pgregory.net/rapid"
)

// ---- C05

// ArmorCase is a stream with a way to write it as text.
type ArmorCase struct {
	Pkts  gen.Pkts  `json:"pkts"`
	Raw   core.B    `json:"raw,omitempty"` // instead of Pkts: any octets
	Armor gen.Armor `json:"armor"`
	Other gen.Pkts  `json:"other,omitempty"` // a second block after the first one
	Opt   ref.Opt   `json:"opt"`
}

func (c ArmorCase) data() []byte {
	if len(c.Raw) > 0 {
		return c.Raw
	}
	return c.Pkts.Encode()
}

func genArmor(t *rapid.T) ArmorCase {
	c := ArmorCase{Opt: genOpt(t), Armor: gen.DrawArmor(t, false)}
	switch k := gen.Pick(t, 8); {
	case k == 0:
		c.Raw = gen.Octets(t)
	case k == 1:
		c.Pkts = gen.Stream(t, gen.Cfg{Min: 1, Max: 3, Depth: 1, Evil: true})
	default:
		c.Pkts = gen.Stream(t, gen.Cfg{Max: 4, Depth: 1, Long: true})
	}
	if gen.Chance(t, 4) {
		c.Other = gen.Stream(t, gen.Cfg{Min: 1, Max: 2})
	}
	return c
}

func checkArmor(c ArmorCase, x *core.X) error {
	data := c.data()
	text := c.Armor.Text(data)
	if len(c.Other) > 0 {
		if !bytes.HasSuffix(text, []byte(c.Armor.EOL)) {
			text = append(text, c.Armor.EOL...)
		}
		a := c.Armor
		a.Before, a.CRC = nil, true
		text = append(text, a.Text(c.Other.Encode())...)
		x.Label("two blocks")
	}
	x.Label("%s", c.Armor.Type)
	want, werr := dump(data, c.Opt)
	if bytes.Contains(data, []byte("-----BEGIN PGP")) {
		return nil // the binary stream itself may hold an armored text
	}
	mwant, mwerr := ref.Dump(data, c.Opt, time.UTC)
	if err := compare(mwant, mwerr, want, werr); err != nil {
		return err
	}
	if werr == nil && len(data) > 0 {
		x.NonTrivial()
	}
	if len(c.Armor.Before) > 0 {
		x.Label("text before")
	}
	if !c.Armor.CRC {
		x.Label("no checksum")
	}
	for _, only := range []bool{true, false} {
		o := c.Opt
		o.Armor = only
		got, gerr := dump(text, o)
		if (werr == nil) != (gerr == nil) {
			return core.Errf("armor-only %v: binary: %v, armored: %v", only, werr, gerr)
		}
		if d := ref.Diff(want, got); d != "" {
			return core.Errf("armor-only %v: the armored form is listed differently: %s", only, d)
		}
	}
	return nil
}

// ---- C06

// Hurt is an armored text with one damage.
type Hurt struct {
	Pkts  gen.Pkts  `json:"pkts"`
	Armor gen.Armor `json:"armor"`
	Kind  string    `json:"kind"`
	Next  gen.Pkts  `json:"next,omitempty"` // of a whole block after the damaged one
	Pos   int       `json:"pos"`
	New   string    `json:"new"`
	Opt   ref.Opt   `json:"opt"`
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func genHurt(t *rapid.T) Hurt {
	c := Hurt{Pkts: gen.Stream(t, gen.Cfg{Min: 1, Max: 3, Depth: 1}), Armor: gen.DrawArmor(t, true), Opt: genOpt(t)}
	c.Armor.CRC = true
	c.Kind = gen.Of(t, "subst", "subst", "crc", "crcsubst", "delete", "insert", "dropline", "dupline", "swaplines", "noend", "truncate", "junk", "nocrc", "crcoctets", "case", "end")
	if gen.Chance(t, 3) {
		c.Next = gen.Stream(t, gen.Cfg{Min: 1, Max: 2})
	}
	c.Pos = gen.Pick(t, 1<<20)
	n := 1 + gen.Pick(t, 4)
	for i := 0; i < n; i++ {
		c.New += string(b64[gen.Pick(t, 64)])
	}
	if c.Kind == "junk" {
		c.New = gen.Of(t, "!", "-", "_", " ", "*", "\x00", "é", "=", "==", "\t")
	}
	return c
}

// decodeArmor is what the text between the headers and END says: its octets and whether the checksum fits.
func decodeArmor(lines []string) (data []byte, ok bool) {
	var s strings.Builder
	crc := ""
	for i, l := range lines {
		if len(l) == 5 && l[0] == '=' && i == len(lines)-1 {
			crc = l[1:]
			continue
		}
		s.WriteString(l)
	}
	data, err := base64.StdEncoding.DecodeString(s.String())
	if err != nil {
		return nil, false
	}
	c, err := base64.StdEncoding.DecodeString(crc)
	if err != nil || len(c) != 3 {
		return data, crc == ""
	}
	return data, uint32(c[0])<<16|uint32(c[1])<<8|uint32(c[2]) == gen.CRC24(data)
}

func checkHurt(c Hurt, x *core.X) error {
	data := c.Pkts.Encode()
	orig, err := dump(data, c.Opt)
	if err != nil || len(data) == 0 {
		x.Label("stream not dumpable")
		return nil
	}
	head, body, crc, end := c.Armor.Lines(data)
	body = append([]string{}, body...)
	at := func(l string) int { return c.Pos % len(l) }
	li := (c.Pos / 7) % len(body)
	put := func(l string, p int, s string) string {
		if p+len(s) > len(l) {
			s = s[:len(l)-p]
		}
		return l[:p] + s + l[p+len(s):]
	}
	var block []string
	var text []byte
	switch c.Kind {
	case "subst":
		body[li] = put(body[li], at(body[li]), c.New)
	case "case":
		l := body[li]
		p := at(l)
		body[li] = l[:p] + strings.ToLower(l[p:p+1]) + l[p+1:]
		if body[li] == l {
			body[li] = l[:p] + strings.ToUpper(l[p:p+1]) + l[p+1:]
		}
	case "crcsubst":
		crc = "=" + put(crc[1:], c.Pos%4, c.New)
	case "crc":
		crc = "=" + (c.New + "AAAA")[:4]
	case "crcoctets":
		crc = gen.Of1(c.Pos, "=", "=A", "=AAA", "=AAAAA", "=AA==", "=AAA=", "=!!!!", "==AAAA", "= AAAA")
	case "delete":
		l := body[li]
		p := at(l)
		q := p + len(c.New)
		if q > len(l) {
			q = len(l)
		}
		body[li] = l[:p] + l[q:]
	case "insert", "junk":
		l := body[li]
		p := c.Pos % (len(l) + 1)
		body[li] = l[:p] + c.New + l[p:]
	case "dropline":
		body = append(body[:li], body[li+1:]...)
	case "dupline":
		body = append(body[:li+1], body[li:]...)
	case "swaplines":
		lj := (li + 1) % len(body)
		body[li], body[lj] = body[lj], body[li]
	case "nocrc":
		crc = ""
	case "end":
		end = gen.Of1(c.Pos, end[1:], " "+end, end[:12], end[:11], end[:len(end)-1], "- "+end, strings.ToLower(end), "-----END PGP-----", "-----END PGP NOTHING-----", strings.Replace(end, "END", "BEGIN", 1), strings.Replace(end, "-----", "", 1), "=", "-----END-----", end+"x", "x"+end)
	}
	block = append(block, head...)
	block = append(block, body...)
	if crc != "" {
		block = append(block, crc)
	}
	lines := append([]string{}, block[len(head):]...)
	a := c.Armor
	if c.Kind == "noend" {
		a.After = nil
	} else {
		block = append(block, end)
	}
	if c.Next != nil {
		nh, nb, nc, ne := c.Armor.Lines(c.Next.Encode())
		a.After = append([]gen.Line{}, a.After...)
		for _, l := range append(append(nh, nb...), nc, ne) {
			a.After = append(a.After, gen.Line{S: l})
		}
		x.Label("another block follows")
	}
	text = a.Wrap(block)
	if c.Kind == "truncate" {
		a := c.Armor
		a.After = nil
		text = a.Wrap(block)
		i := bytes.LastIndex(text, []byte("-----END PGP"))
		text = text[:1+c.Pos%(i+len("-----END PGP")-1)]
	}
	lost := c.Kind == "noend" || c.Kind == "truncate"
	x.Label("%s", c.Kind)
	changed, fits := decodeArmor(lines)
	if !lost && fits && !bytes.Equal(changed, data) {
		x.Label("checksum collision")
		return nil
	}
	x.NonTrivial()
	for _, only := range []bool{true, false} {
		o := c.Opt
		o.Armor = only
		got, gerr := dump(text, o)
		if gerr != nil {
			x.Label("refused")
			continue
		}
		if lost && (c.Next == nil || c.Kind == "truncate") {
			return core.Errf("armor-only %v: the block has no end, but it is dumped", only)
		}
		if d := ref.Diff(orig, got); d != "" {
			return core.Errf("armor-only %v: damaged (%s) armor is dumped as something else: %s", only, c.Kind, d)
		}
		x.Label("same listing")
	}
	return nil
}

// NoArmor is an input without a complete armored block.
type NoArmor struct {
	Data core.B  `json:"data"`
	Opt  ref.Opt `json:"opt"`
}

func genNoArmor(t *rapid.T) NoArmor {
	c := NoArmor{Opt: genOpt(t)}
	switch gen.Pick(t, 4) {
	case 0, 1:
		c.Data = gen.Stream(t, gen.Cfg{Max: 3, Depth: 1}).Encode()
	case 2:
		a := gen.DrawArmor(t, false)
		_, body, crc, end := a.Lines(gen.Stream(t, gen.Cfg{Min: 1, Max: 2}).Encode())
		switch gen.Pick(t, 3) {
		case 0: // no BEGIN
			c.Data = a.Wrap(append(append([]string{""}, body...), crc, end))
		case 1: // the only BEGIN is that of a signed message
			c.Data = a.Wrap(append(append([]string{"-----BEGIN PGP SIGNED MESSAGE-----", ""}, body...), crc, end))
		case 2: // BEGIN not at the start of a line
			c.Data = a.Wrap(append(append([]string{"x-----BEGIN PGP MESSAGE-----", ""}, body...), crc, end))
		}
		if len(a.Before) > 0 || len(a.After) > 0 {
			c.Data = nil
		}
	default:
		c.Data = gen.Octets(t)
	}
	return c
}

func checkNoArmor(c NoArmor, x *core.X) error {
	if bytes.Contains(c.Data, []byte("\n-----BEGIN PGP")) && !bytes.HasPrefix(c.Data, []byte("-----BEGIN PGP SIGNED")) || bytes.HasPrefix(c.Data, []byte("-----BEGIN PGP MESS")) {
		return nil
	}
	o := c.Opt
	o.Armor = true
	got, err := dump(c.Data, o)
	if err == nil {
		return core.Errf("armor-only: input without armor is dumped (%d packets)", len(got))
	}
	failed, err := agree(c.Data, c.Opt, time.UTC)
	if !failed && len(c.Data) > 0 {
		x.NonTrivial()
		x.Label("dumpable as binary")
	}
	return err
}

func init() {
	p := core.Property("C05", "a case is a stream (also damaged ones), an armor form (8 block types, 0-70 headers, line widths 1-76, LF or CRLF, with or without checksum, white space where the format allows it) and surrounding text (prose, HTML, signed-message heads, lines up to 200 kB, further blocks); dumped as binary, as text and as text with armor-only; non-trivial if the stream is not empty and dumps",
		"armor headers are of the form key: value, and lines are at most 76 characters long, as RFC 4880 section 6 has it")
	core.Add(p, core.Spec[ArmorCase]{Name: "armor", Quick: 150000, Gen: genArmor, Check: checkArmor})
	core.Add(p, core.Spec[Huge]{Name: "huge", Quick: 32, Gen: genHuge(true, false, 40<<20), Check: checkHuge})

	p = core.Property("C06", "a case is a dumpable stream armored with a checksum and damaged in one way (characters changed, removed, inserted, lines lost, doubled or swapped, checksum changed, end changed or lost, text cut; a whole second block may follow), or an input without a complete block; non-trivial if the undamaged stream is not empty and dumps",
		"damage that keeps the 24-bit checksum right (recomputed by the harness) is not judged",
		"surrounding text is ASCII, so that a refused block is not itself a binary stream")
	core.Add(p, core.Spec[Hurt]{Name: "damage", Quick: 60000, Gen: genHurt, Check: checkHurt})
	core.Add(p, core.Spec[NoArmor]{Name: "missing", Quick: 60000, Gen: genNoArmor, Check: checkNoArmor})
}
