package main

import (
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func unhex(s string) ([]byte, error) {
	b, err := hex.DecodeString(strings.ReplaceAll(s, " ", ""))
	if err == nil && ref.Hex(b) != s {
		err = core.Errf("not in the dump format: %q", s)
	}
	return b, err
}

// sizes checks that every size shown is that of the octets shown with it.
func sizes(l []*ref.Item) error {
	for _, i := range l {
		var n int
		var unit string
		if k, _ := fmt.Sscanf(i.Note, "%d %s", &n, &unit); k == 2 && i.Note == fmt.Sprintf("%d %s", n, unit) {
			b, err := unhex(i.Dump)
			if err != nil {
				return core.Errf("%s: %v", i.Name, err)
			}
			switch unit {
			case "bytes":
				if len(b) != n && (len(b) > 0 || n == 0) {
					return core.Errf("%s: size %d, but %d octets are dumped", i.Name, n, len(b))
				}
			case "bits":
				if len(b) != (n+7)/8 {
					return core.Errf("%s: %d bits, but %d octets are dumped", i.Name, n, len(b))
				}
			}
		}
		if err := sizes(i.Items); err != nil {
			return err
		}
	}
	return nil
}

// areas checks subpacket areas against their own octets.
func areas(l []*ref.Item, x *core.X) error {
	for _, i := range l {
		switch i.Name {
		case "Hashed Subpacket", "Unhashed Subpacket", "Subpacket":
			b, err := unhex(i.Dump)
			if err != nil {
				return err
			}
			k := 0
			for len(b) > 0 {
				h, n := 1, int(b[0])
				switch {
				case n >= 255 && len(b) > 4:
					h, n = 5, int(b[1])<<24|int(b[2])<<16|int(b[3])<<8|int(b[4])
				case n >= 192 && n < 255 && len(b) > 1:
					h, n = 2, (n-192)<<8+int(b[1])+192
				}
				if n < 1 || h+n > len(b) {
					return core.Errf("the dump of an area does not consist of subpackets")
				}
				if k >= len(i.Items) {
					return core.Errf("area with more subpackets than the %d listed", k)
				}
				it := i.Items[k]
				if w := ref.SubName(b[h]); it.Name != w {
					return core.Errf("subpacket %d is listed as %q, want %q", k, it.Name, w)
				}
				body := b[h+1 : h+n]
				if it.Dump != "" && !strings.HasPrefix(ref.Hex(body), it.Dump) {
					return core.Errf("the dump of %q is not its content: %s, want %s", it.Name, it.Dump, ref.Hex(body))
				}
				k++
				b = b[h+n:]
			}
			if k != len(i.Items) {
				return core.Errf("%d subpackets, but %d are listed", k, len(i.Items))
			}
			x.Label("area")
		}
		if err := areas(i.Items, x); err != nil {
			return err
		}
	}
	return nil
}

// builder puts a packet body together again from its debug listing.
type builder struct {
	b    []byte
	skip bool
	err  error
}

func (w *builder) dump(s string) {
	b, err := unhex(s)
	if err != nil {
		w.err = err
	}
	w.b = append(w.b, b...)
}

func (w *builder) count(n, octets int) {
	for k := octets - 1; k >= 0; k-- {
		w.b = append(w.b, byte(n>>(8*uint(k))))
	}
}

func octets(s string) int { return (len(s) + 1) / 3 }

// item appends what one item stands for.
func (w *builder) item(i *ref.Item) {
	var n int
	switch {
	case i.Name == "Version":
		if _, err := fmt.Sscanf(i.Value, "%d", &n); err != nil {
			w.err = err
		}
		w.b = append(w.b, byte(n))
	case i.Name == "Key ID":
		b, err := hex.DecodeString(strings.TrimPrefix(i.Value, "0x"))
		if err != nil {
			w.err = err
		}
		w.b = append(w.b, b...)
	case i.Name == "Valid days":
		if _, err := fmt.Sscanf(i.Value, "%d", &n); err != nil {
			w.err = err
		}
		w.count(n, 2)
	case strings.HasSuffix(i.Note, " bits"):
		if _, err := fmt.Sscanf(i.Note, "%d bits", &n); err != nil {
			w.err = err
		}
		w.count(n, 2)
		w.dump(i.Dump)
	case i.Name == "ECC Curve OID", i.Name == "KDF parameters", i.Name == "symmetric key (encoded)":
		w.count(octets(i.Dump), 1)
		w.dump(i.Dump)
	case i.Name == "File name":
		w.count(octets(i.Dump), 1)
		w.dump(i.Dump)
	case i.Name == "Literal data format":
		r := []rune(i.Value)
		if len(r) == 1 {
			w.b = append(w.b, byte(r[0]))
		} else if _, err := fmt.Sscanf(i.Value, "(U+%04X)", &n); err == nil {
			w.b = append(w.b, byte(n))
		} else {
			w.err = core.Errf("format %q", i.Value)
		}
	case strings.HasPrefix(i.Name, "String-to-Key"):
		w.dump(i.Dump)
		for _, s := range i.Items {
			if s.Name == "GNU-divert-to-card" {
				if _, err := fmt.Sscanf(s.Value, "Extension Number %d", &n); err != nil {
					w.err = err
				}
				w.b = append(append(w.b, "GNU"...), byte(n-1000))
				for _, k := range s.Items {
					w.count(octets(k.Dump), 1)
					w.dump(k.Dump)
				}
				continue
			}
			w.dump(s.Dump)
		}
	case i.Name == "Hashed Subpacket", i.Name == "Unhashed Subpacket":
		w.count(octets(i.Dump), 2)
		w.dump(i.Dump)
	case strings.HasPrefix(i.Note, "flag 0x"):
		if _, err := fmt.Sscanf(i.Note, "flag 0x%02x", &n); err != nil {
			w.err = err
		}
		w.b = append(w.b, byte(n))
	case i.Name == "Hashed material":
		if i.Dump != "" || len(i.Items) == 0 {
			w.count(octets(i.Dump), 1)
			w.dump(i.Dump)
			return
		}
		in := &builder{}
		in.items(i.Items)
		w.count(len(in.b), 1)
		w.b = append(w.b, in.b...)
	default:
		w.dump(i.Dump)
	}
}

func (w *builder) items(l []*ref.Item) {
	for _, i := range l {
		w.item(i)
	}
}

func itemNamed(l []*ref.Item, name string) *ref.Item {
	for _, i := range l {
		if i.Name == name {
			return i
		}
	}
	return nil
}

// material says whether the listing has the integers of an algorithm decoded one by one;
// where it does not, they are listed twice (as integers and as unknown data).
func decoded(l []*ref.Item) bool {
	for _, i := range l {
		if strings.HasPrefix(i.Name, "Multi-precision integers of") {
			return false
		}
	}
	return true
}

// rebuild gives the body a packet must have had; ok is false where the listing leaves out lengths.
func rebuild(tag int, it *ref.Item) (b []byte, ok bool, err error) {
	w := &builder{}
	v := itemNamed(it.Items, "Version")
	old := v != nil && (v.Value == "3" || v.Value == "4")
	switch tag {
	case 1, 4, 3:
		w.items(it.Items)
		return w.b, decoded(it.Items), w.err
	case 6, 14:
		w.items(it.Items)
		return w.b, old && decoded(it.Items), w.err
	case 2:
		for _, i := range it.Items {
			if i.Name == "Hash left 2 bytes" && v.Value != "3" { // empty areas are not listed
				if itemNamed(it.Items, "Hashed Subpacket") == nil {
					if u := itemNamed(it.Items, "Unhashed Subpacket"); u != nil {
						n := 2 + octets(u.Dump)
						w.b = append(w.b[:len(w.b)-n:len(w.b)-n], append([]byte{0, 0}, w.b[len(w.b)-n:]...)...)
					} else {
						w.count(0, 2)
					}
				}
				if itemNamed(it.Items, "Unhashed Subpacket") == nil {
					w.count(0, 2)
				}
			}
			w.item(i)
		}
		return w.b, v != nil && (old || v.Value == "5") && decoded(it.Items), w.err
	case 5, 7:
		p, s := itemNamed(it.Items, "Public-Key"), itemNamed(it.Items, "Secret-Key")
		if p == nil || s == nil || !old || !decoded(p.Items) || !decoded(s.Items) {
			return nil, false, nil
		}
		var usage int
		if _, err := fmt.Sscanf(s.Note, "s2k usage %d;", &usage); err != nil {
			return nil, false, core.Errf("no usage shown: %q", s.Note)
		}
		w.item(v)
		w.items(p.Items)
		if usage == 0 || usage >= 253 {
			w.count(usage, 1)
		}
		w.items(s.Items)
		if u := itemNamed(it.Items, "Unknown data"); u != nil {
			w.item(u)
		}
		return w.b, true, w.err
	case 9, 10, 11, 12, 13, 18, 19, 20:
		if tag == 13 && len(it.Items) == 1 && it.Items[0].Note == "0 byte" {
			return nil, true, nil
		}
		w.items(it.Items)
		return w.b, true, w.err
	}
	return nil, false, nil
}

func checkAccount(c StreamCase, x *core.X) error {
	o := c.Opt
	o.Debug = true
	data := c.Pkts.Encode()
	got, err := dump(data, o)
	if err != nil {
		x.Label("rejected")
		_, err = agree(data, o, time.UTC)
		return err
	}
	pk, ferr := ref.Frame(data)
	if ferr != nil {
		return core.Errf("listed without an error, but %v", ferr)
	}
	if len(pk) != len(got) {
		return core.Errf("%d packets, %d entries", len(pk), len(got))
	}
	if len(pk) > 0 {
		x.NonTrivial()
	}
	for n, p := range pk {
		if got[n].Dump != ref.Hex(p.Body) {
			return core.Errf("packet %d (tag %d): its dump is not its body", n, p.Tag)
		}
		if want := fmt.Sprintf("%d bytes", len(p.Body)); got[n].Note != want {
			return core.Errf("packet %d: size %q, want %q", n, got[n].Note, want)
		}
		b, ok, err := rebuild(p.Tag, got[n])
		if !ok {
			continue
		}
		if err != nil {
			return core.Errf("packet %d (tag %d): %v", n, p.Tag, err)
		}
		x.Label("rebuilt tag %d", p.Tag)
		if k := len(got[n].Items); k > 0 && len(b) == len(p.Body)+1 { // a missing count stands for an empty block
			if i := got[n].Items[k-1]; i.Note == "0 bytes" && (i.Name == "KDF parameters" || i.Name == "symmetric key (encoded)") {
				b = b[:len(b)-1]
			}
		}
		if ref.Hex(b) != ref.Hex(p.Body) {
			return core.Errf("packet %d (tag %d): what is listed stands for %x, the body is %x\n%v", n, p.Tag, b, []byte(p.Body), got[n])
		}
	}
	if err := sizes(got); err != nil {
		return err
	}
	if err := areas(got, x); err != nil {
		return err
	}
	if _, err := agree(data, c.Opt, time.UTC); err != nil { // and without the debug option
		return err
	}
	_, err = agree(data, o, time.UTC)
	return err
}

func init() {
	p := core.Property("C24", "a case is a stream dumped in debug mode and with random options: top-level dumps against the framing of the input, every size against the dump next to it, subpacket areas against their own octets, and each packet body put together again from the fields listed for it; non-trivial if the stream is not empty and dumps",
		"bodies are put together again for tags 1-7, 9-14 and 18-20 with versions whose lengths are all listed and with key material that is decoded; the rest is judged by the reference model")
	core.Add(p, core.Spec[StreamCase]{Name: "account", Quick: 100000, Gen: streamCase(gen.Cfg{Min: 1, Max: 3, Depth: 2, Long: true}), Check: checkAccount})
	core.Add(p, core.Spec[StreamCase]{Name: "damaged", Quick: 50000, Gen: streamCase(gen.Cfg{Min: 1, Max: 2, Depth: 2, Evil: true}), Check: checkAccount})
	core.Add(p, core.Spec[Huge]{Name: "dumped", Quick: 48, Gen: genDumped, Check: checkHuge})
}
