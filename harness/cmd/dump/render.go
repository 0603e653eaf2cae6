package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unicode/utf8"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"pgregory.net/rapid"
)

// Node is an item of a generated listing.
type Node struct {
	N string `json:"n"`
	V string `json:"v,omitempty"`
	D string `json:"d,omitempty"`
	M string `json:"m,omitempty"`
	C []Node `json:"c,omitempty"`
}

// Tree is a listing with the ways to render it.
type Tree struct {
	Nodes  []Node   `json:"nodes"`
	Indent []int    `json:"indent"`
	Text   []string `json:"text"`
	Share  bool     `json:"share,omitempty"` // equal neighbours are one item, listed twice
	Opts   bool     `json:"opts,omitempty"`  // items are built with options, not as literals
	Chain  int      `json:"chain,omitempty"`
	Later  []Edit   `json:"later,omitempty"` // changes made after the first rendering, each followed by another
}

// Edit is a change to a listing: an item is added, or the texts of one are replaced.
type Edit struct {
	At   int  `json:"at"`  // counts the items of the listing
	Add  bool `json:"add"` // below the item; the other way its texts are replaced
	Node Node `json:"node"`
}

var odd = []string{"", "x", "name", "Public-Key Packet (tag 6)", ": ", " (", ")", "(x)", "a: b (c)", "\"", "\\", "\\u0041", "<b>&amp;</b>", "&", "<", ">",
	"\u2028", "\u2029", "\u00e9", "e\u0301", "\u65e5\u672c\u8a9e", "\U0001f512", "\ufffd", "\ufeff", "\u0000", "\u001b[31m", "\u007f", "\u0085", "%s", "%!d(MISSING)", "null", "{}", "[]", "00 01 02",
	" lead", "trail ", "\t", "'", "`", "/", "</script>", "\b\f", "\u202e", "0", "false", "-0"}

var genOddSmall = []string{"", "v", "\u00e9", "<"}

func genString(t *rapid.T) string {
	switch gen.Pick(t, 6) {
	case 0:
		return ""
	case 1, 2:
		return gen.Of(t, odd...)
	case 3:
		return gen.Of(t, odd...) + gen.Of(t, odd...) + gen.Of(t, odd...)
	case 4:
		s := string(gen.Text(t, 40))
		if utf8.ValidString(s) {
			return s
		}
		return strings.ToValidUTF8(s, "?")
	}
	n := gen.Pick(t, 60)
	if gen.Chance(t, 40) {
		n = gen.Of(t, 85, 128, 256, 341, 500, 1365, 2048, 5461, 21845, 30000)
	}
	return strings.Repeat(gen.Of(t, "ab ", "\u00e9", "ff "), n)
}

func genNode(t *rapid.T, depth int) Node {
	n := Node{N: genString(t), V: genString(t), D: genString(t), M: genString(t)}
	if depth > 0 {
		for k := gen.Pick(t, 4); k > 0; k-- {
			if len(n.C) > 0 && gen.Chance(t, 6) { // once more
				n.C = append(n.C, n.C[len(n.C)-1])
				continue
			}
			n.C = append(n.C, genNode(t, depth-1))
		}
	}
	return n
}

func genTree(t *rapid.T) Tree {
	c := Tree{Opts: gen.Chance(t, 2), Share: gen.Chance(t, 2)}
	for n := gen.Pick(t, 4); n > 0; n-- {
		if len(c.Nodes) > 0 && gen.Chance(t, 6) {
			c.Nodes = append(c.Nodes, c.Nodes[len(c.Nodes)-1])
			continue
		}
		c.Nodes = append(c.Nodes, genNode(t, gen.Pick(t, 4)))
	}
	if gen.Chance(t, 200) && len(c.Nodes) > 0 { // a wide one
		n := Node{N: "wide"}
		for k := gen.Of(t, 20, 65, 129, 257, 1100); k > 0; k-- {
			n.C = append(n.C, Node{N: fmt.Sprint("n", k), V: genOddSmall[k%len(genOddSmall)]})
		}
		c.Nodes = append(c.Nodes, n)
	}
	for n := 1 + gen.Pick(t, 3); n > 0; n-- {
		c.Indent = append(c.Indent, gen.Of(t, 0, 1, 2, 4, 8, 3, -1, -7, 33))
		c.Text = append(c.Text, gen.Of(t, "\t", "", " ", "  ", "    ", "\u3000", "%d", "--"))
	}
	if gen.Chance(t, 100) {
		c.Chain = gen.Range(t, 10, 120)
	}
	if gen.Chance(t, 3) {
		for n := 1 + gen.Pick(t, 3); n > 0; n-- {
			c.Later = append(c.Later, Edit{At: gen.Pick(t, 12), Add: gen.Chance(t, 2), Node: genNode(t, gen.Pick(t, 2))})
		}
	}
	return c
}

// nodeItems builds the items of a list of nodes.
func nodeItems(l []Node, opts, share bool) (out []*result.Item) {
	for k, n := range l {
		if share && k > 0 && reflect.DeepEqual(n, l[k-1]) {
			out = append(out, out[k-1])
			continue
		}
		out = append(out, n.item(opts, share))
	}
	return
}

func (n Node) item(opts, share bool) *result.Item {
	var i *result.Item
	if opts {
		i = result.NewItem(result.Name(n.N), result.Value(n.V), result.DumpStr(n.D), result.Note(n.M))
	} else {
		i = &result.Item{Name: n.N, Value: n.V, Dump: n.D, Note: n.M}
	}
	for _, c := range nodeItems(n.C, opts, share) {
		i.Add(c)
		i.Add(nil)
	}
	return i
}

func (n Node) want() *ref.Item {
	i := &ref.Item{Name: n.N, Value: n.V, Dump: n.D, Note: n.M}
	for _, c := range n.C {
		i.Items = append(i.Items, c.want())
	}
	return i
}

// fromJSON reads a listing back from JSON, strictly.
func fromJSON(b []byte) ([]*ref.Item, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, core.Errf("octets after the JSON document")
	}
	top, ok := v.(map[string]interface{})
	if !ok {
		return nil, core.Errf("not an object")
	}
	for k := range top {
		if k != "Packet" {
			return nil, core.Errf("unexpected key %q", k)
		}
	}
	if _, ok := top["Packet"]; !ok {
		return nil, nil
	}
	return jsonItems(top["Packet"])
}

func jsonItems(v interface{}) (out []*ref.Item, err error) {
	l, ok := v.([]interface{})
	if !ok || len(l) == 0 {
		return nil, core.Errf("not a list of items, or an empty one that is not left out")
	}
	for _, e := range l {
		m, ok := e.(map[string]interface{})
		if !ok {
			return nil, core.Errf("item is no object")
		}
		i := &ref.Item{}
		if _, ok := m["name"]; !ok {
			return nil, core.Errf("item without name")
		}
		for k, v := range m {
			if k == "Item" {
				if i.Items, err = jsonItems(v); err != nil {
					return nil, err
				}
				continue
			}
			p := map[string]*string{"name": &i.Name, "value": &i.Value, "dump": &i.Dump, "note": &i.Note}[k]
			if p == nil {
				return nil, core.Errf("unexpected key %q", k)
			}
			s, ok := v.(string)
			if !ok {
				return nil, core.Errf("%s is no string", k)
			}
			if *p = s; s == "" && k != "name" {
				return nil, core.Errf("empty %s is not left out", k)
			}
		}
		out = append(out, i)
	}
	return out, nil
}

func renderings(info *result.Info, want []*ref.Item, indents []int, texts []string) error {
	var compact []byte
	// renderings taken one after the other and read only then
	var rs []io.Reader
	for _, n := range append([]int{0}, indents...) {
		r, err := info.JSON(n)
		if err != nil {
			return core.Errf("JSON(%d): %v", n, err)
		}
		rs = append(rs, r)
	}
	for _, s := range append([]string{"\t"}, texts...) {
		rs = append(rs, info.ToString(s))
	}
	var pieces [][]byte
	for _, r := range rs {
		b, err := io.ReadAll(r)
		if err != nil {
			return core.Errf("rendering: %v", err)
		}
		pieces = append(pieces, b)
	}
	for i, n := range append([]int{0}, indents...) {
		got, err := fromJSON(pieces[i])
		if err != nil {
			return core.Errf("JSON(%d), read late: %v\n%s", n, err, pieces[i])
		}
		if d := ref.Diff(want, got); d != "" {
			return core.Errf("JSON(%d), read late: %s", n, d)
		}
	}
	for i, s := range append([]string{"\t"}, texts...) {
		if got, w := string(pieces[1+len(indents)+i]), ref.Text(want, s); got != w {
			return core.Errf("text with indent %q, read late:\n%q\nwant\n%q", s, got, w)
		}
	}
	for round := 0; round < 2; round++ {
		for _, n := range append([]int{0}, indents...) {
			r, err := info.JSON(n)
			if err != nil {
				return core.Errf("JSON(%d): %v", n, err)
			}
			b, err := io.ReadAll(r)
			if err != nil {
				return core.Errf("JSON(%d): %v", n, err)
			}
			got, err := fromJSON(b)
			if err != nil {
				return core.Errf("JSON(%d): %v\n%s", n, err, b)
			}
			if d := ref.Diff(want, got); d != "" {
				return core.Errf("JSON(%d): %s", n, d)
			}
			var c bytes.Buffer
			if err := json.Compact(&c, b); err != nil {
				return core.Errf("JSON(%d): %v", n, err)
			}
			if compact == nil {
				compact = c.Bytes()
			}
			if !bytes.Equal(compact, c.Bytes()) {
				return core.Errf("JSON(%d) differs in more than white space: %s", n, b)
			}
			if n <= 0 && !bytes.Equal(b, compact) {
				return core.Errf("JSON(%d) is indented: %s", n, b)
			}
			if n > 0 && len(want) > 0 && !bytes.Contains(b, []byte("\n"+strings.Repeat(" ", n)+"\"Packet\"")) {
				return core.Errf("JSON(%d) is not indented by %d: %s", n, n, b)
			}
		}
		for _, s := range append([]string{"\t"}, texts...) {
			got := info.ToString(s).String()
			if w := ref.Text(want, s); got != w {
				return core.Errf("text with indent %q:\n%q\nwant\n%q", s, got, w)
			}
		}
		if got, w := info.String(), ref.Text(want, "\t"); got != w {
			return core.Errf("String():\n%q\nwant\n%q", got, w)
		}
		if d := ref.Diff(want, items(info.Packets)); d != "" {
			return core.Errf("rendering altered the listing: %s", d)
		}
	}
	return nil
}

func flat(l []*result.Item, out *[]*result.Item) {
	for _, i := range l {
		*out = append(*out, i)
		flat(i.Items, out)
	}
}

func checkTree(c Tree, x *core.X) error {
	info := result.New()
	var want []*ref.Item
	c.Share = c.Share && len(c.Later) == 0
	for k, i := range nodeItems(c.Nodes, c.Opts, c.Share) {
		info.Add(i)
		info.Add(nil)
		want = append(want, c.Nodes[k].want())
		x.NonTrivial()
	}
	if c.Chain > 0 {
		x.Label("deep")
		n := Node{N: "leaf", V: "v", D: "00", M: "m"}
		for i := 0; i < c.Chain; i++ {
			n = Node{N: fmt.Sprint("level ", i), V: "v", C: []Node{n}}
		}
		info.Add(n.item(c.Opts, false))
		want = append(want, n.want())
	}
	if err := renderings(info, want, c.Indent, c.Text); err != nil {
		return err
	}
	for k, e := range c.Later {
		x.Label("changed between renderings")
		var at []*result.Item
		var ref1 []*ref.Item
		flat(info.Packets, &at)
		walk(want, func(i *ref.Item) { ref1 = append(ref1, i) })
		if len(at) != len(ref1) {
			return core.Errf("%d items, want %d", len(at), len(ref1))
		}
		n := e.At % (len(at) + 1)
		switch {
		case n == len(at):
			info.Add(e.Node.item(c.Opts, false))
			want = append(want, e.Node.want())
		case e.Add:
			at[n].Add(e.Node.item(c.Opts, false))
			ref1[n].Items = append(ref1[n].Items, e.Node.want())
		default:
			at[n].Name, at[n].Value, at[n].Dump, at[n].Note = e.Node.N, e.Node.V, e.Node.D, e.Node.M
			ref1[n].Name, ref1[n].Value, ref1[n].Dump, ref1[n].Note = e.Node.N, e.Node.V, e.Node.D, e.Node.M
		}
		if err := renderings(info, want, c.Indent, c.Text); err != nil {
			return core.Errf("after change %d: %v", k, err)
		}
	}
	// an item of its own
	for i, p := range info.Packets {
		if got, w := p.String(), ref.Text(want[i:i+1], "\t"); got != w {
			return core.Errf("item %d: %q, want %q", i, got, w)
		}
	}
	return nil
}

// Listed is a stream whose listing is rendered.
type Listed struct {
	Pkts   gen.Pkts `json:"pkts"`
	Opt    ref.Opt  `json:"opt"`
	Indent []int    `json:"indent"`
	Text   []string `json:"text"`
}

func checkListed(c Listed, x *core.X) error {
	data := c.Pkts.Encode()
	p, err := parse.NewBytes(cxtOf(c.Opt), data)
	if err != nil {
		return core.Errf("NewBytes: %v", err)
	}
	info, err := p.Parse()
	if info == nil {
		return core.Errf("no listing: %v", err)
	}
	if len(info.Packets) > 0 {
		x.NonTrivial()
	}
	want := items(info.Packets)
	lines := 0
	var bad error
	walk(want, func(i *ref.Item) {
		lines++
		if i.Dump != "" {
			lines++
		}
		for _, s := range []string{i.Name, i.Value, i.Note, i.Dump} {
			for _, r := range s {
				if r < 0x20 || r == utf8.RuneError && !utf8.ValidString(s) {
					bad = core.Errf("item %q shows a raw control character or octet: %q", i.Name, s)
				}
			}
		}
	})
	if bad != nil {
		return bad
	}
	for _, s := range c.Text {
		if n := strings.Count(info.ToString(s).String(), "\n"); n != lines {
			return core.Errf("%d lines for %d items and dumps", n, lines)
		}
	}
	return renderings(info, want, c.Indent, c.Text)
}

func init() {
	p := core.Property("C16", "a case is a listing with JSON and text indents, rendered twice each: a generated tree with strings that are special to JSON, HTML, formats and terminals, or the listing of a generated stream; non-trivial if the listing is not empty",
		"strings of a listing are valid UTF-8 (checked on every listing of a stream)", "nesting stays below the 10000 levels of the JSON library")
	core.Add(p, core.Spec[Tree]{Name: "trees", Quick: 120000, Gen: genTree, Check: checkTree})
	core.Add(p, core.Spec[Listed]{Name: "listings", Quick: 80000, Check: checkListed, Gen: func(t *rapid.T) Listed {
		c := Listed{Pkts: gen.Stream(t, gen.Cfg{Max: 3, Depth: 2, Evil: gen.Chance(t, 5), Long: true}), Opt: genOpt(t)}
		if gen.Chance(t, 2) {
			c.Pkts = gen.Stream(t, gen.Cfg{Max: 3, Depth: 1, Tags: []int{13, 11, 2, 17}})
		}
		c.Indent = []int{gen.Range(t, -2, 9)}
		c.Text = []string{gen.Of(t, "\t", " ", "  ", "")}
		return c
	}})
}
