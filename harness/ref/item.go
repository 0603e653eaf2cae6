// Package ref is the reference model: an independent decoder of OpenPGP streams
// (RFC 4880 and the RFC 4880bis draft) that says what gpgpdump has to list for
// given octets and options. It shares no code with gpgpdump.
package ref

import (
	"bytes"
	"fmt"
	"strings"
)

// Item is one line of a listing.
type Item struct {
	Name  string
	Value string
	Dump  string
	Note  string
	Items []*Item
}

func (i *Item) add(s ...*Item) *Item {
	for _, x := range s {
		if x != nil {
			i.Items = append(i.Items, x)
		}
	}
	return i
}

func (i *Item) String() string {
	var b strings.Builder
	i.write(&b, 0)
	return b.String()
}

func (i *Item) write(b *strings.Builder, lvl int) {
	fmt.Fprintf(b, "%s%q: value=%q note=%q dump=%q\n", strings.Repeat("  ", lvl), i.Name, i.Value, i.Note, i.Dump)
	for _, c := range i.Items {
		c.write(b, lvl+1)
	}
}

// Diff describes the first difference of two listings ("" if equal).
func Diff(want, got []*Item) string {
	return diffList("", want, got)
}

func diffList(path string, want, got []*Item) string {
	for n := 0; n < len(want) && n < len(got); n++ {
		if d := diffItem(fmt.Sprintf("%s/%d", path, n), want[n], got[n]); d != "" {
			return d
		}
	}
	if len(want) != len(got) {
		s := fmt.Sprintf("%s: want %d items, got %d", path, len(want), len(got))
		if len(want) > len(got) {
			s += fmt.Sprintf("; missing %q", want[len(got)].Name)
		} else {
			s += fmt.Sprintf("; extra %q", got[len(want)].Name)
		}
		return s
	}
	return ""
}

func short(s string) string {
	if len(s) > 240 {
		return fmt.Sprintf("%.240q...(%d)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

func diffItem(path string, w, g *Item) string {
	path = path + "[" + w.Name + "]"
	switch {
	case w.Name != g.Name:
		return fmt.Sprintf("%s: name: want %s, got %s", path, short(w.Name), short(g.Name))
	case w.Value != g.Value:
		return fmt.Sprintf("%s: value: want %s, got %s", path, short(w.Value), short(g.Value))
	case w.Note != g.Note:
		return fmt.Sprintf("%s: note: want %s, got %s", path, short(w.Note), short(g.Note))
	case w.Dump != g.Dump:
		return fmt.Sprintf("%s: dump: want %s, got %s", path, short(w.Dump), short(g.Dump))
	}
	return diffList(path, w.Items, g.Items)
}

const hexdigits = "0123456789abcdef"

// Hex is the dump format: two digits per octet, separated by one space.
func Hex(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	out := make([]byte, 0, 3*len(b))
	for n, c := range b {
		if n > 0 {
			out = append(out, ' ')
		}
		out = append(out, hexdigits[c>>4], hexdigits[c&15])
	}
	return string(out)
}

// Text renders a listing as gpgpdump's text output.
func Text(items []*Item, indent string) string {
	var b bytes.Buffer
	for _, i := range items {
		text(&b, i, indent, 0)
	}
	return b.String()
}

func text(b *bytes.Buffer, i *Item, indent string, lvl int) {
	for n := 0; n < lvl; n++ {
		b.WriteString(indent)
	}
	b.WriteString(i.Name)
	if i.Value != "" {
		b.WriteString(": " + i.Value)
	}
	if i.Note != "" {
		b.WriteString(" (" + i.Note + ")")
	}
	b.WriteByte('\n')
	if i.Dump != "" {
		for n := 0; n <= lvl; n++ {
			b.WriteString(indent)
		}
		b.WriteString(i.Dump + "\n")
	}
	for _, c := range i.Items {
		text(b, c, indent, lvl+1)
	}
}
