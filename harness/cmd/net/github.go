package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"verif/harness/app"
	"verif/harness/core"
	"verif/harness/gen"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"pgregory.net/rapid"
)

// Key is one entry of the list GitHub gives.
type Key struct {
	Null   bool     `json:"null,omitempty"`
	ID     string   `json:"id,omitempty"`
	NoID   bool     `json:"noid,omitempty"`
	Raw    *string  `json:"raw,omitempty"`
	Absent bool     `json:"absent,omitempty"` // no raw_key at all instead of null
	Subs   []string `json:"subs,omitempty"`
	Full   bool     `json:"full,omitempty"`
	More   int      `json:"more,omitempty"` // which other fields are set how
	Rep    int      `json:"rep,omitempty"`  // this many entries with IDs counted up
}

// GH is a request for a user's key with everything GitHub answers.
type GH struct {
	User   Text   `json:"user"`
	KeyID  string `json:"keyid"`
	Keys   []Key  `json:"keys"`
	Bad    int    `json:"bad,omitempty"` // page (1...) that is answered by Resp instead
	Resp   Resp   `json:"resp"`
	Cancel bool   `json:"cancel,omitempty"`
}

// expand lists the entries one by one.
func expand(in []Key) (out []Key) {
	for i, k := range in {
		if k.Rep == 0 {
			out = append(out, k)
			continue
		}
		for j := 0; j < k.Rep; j++ {
			e := k
			e.Rep = 0
			e.ID = fmt.Sprintf("%08X%08X", i+1, j)
			raw := "filler " + e.ID
			e.Raw = &raw
			out = append(out, e)
		}
	}
	return
}

func page(keys []Key) []byte {
	var out []interface{}
	for i, k := range keys {
		if k.Null {
			out = append(out, nil)
			continue
		}
		m := map[string]interface{}{"id": 1000 + i, "public_key": "xsBNB", "can_sign": true, "unknown_field": []int{1}}
		if !k.NoID {
			m["key_id"] = k.ID
		}
		if k.Raw != nil {
			m["raw_key"] = *k.Raw
		} else if !k.Absent {
			m["raw_key"] = nil
		}
		if k.Full {
			m["primary_key_id"] = nil
			m["emails"] = []interface{}{map[string]interface{}{"email": "a@example.com", "verified": true}, nil}
			m["created_at"] = "2016-03-24T11:31:04-06:00"
			m["expires_at"] = nil
			m["can_certify"] = false
		}
		if k.More != 0 {
			bit := func(n int) bool { return k.More>>n&1 == 1 }
			m["revoked"] = bit(0)
			if bit(1) {
				m["expires_at"] = "2001-02-03T04:05:06Z"
			}
			m["can_sign"], m["can_encrypt_comms"], m["can_encrypt_storage"], m["can_certify"] = bit(2), bit(3), bit(4), bit(5)
			m["emails"] = []interface{}{map[string]interface{}{"email": "b@example.com", "verified": bit(6)}}
			if bit(7) {
				m["emails"] = []interface{}{}
			}
			if bit(8) {
				m["primary_key_id"] = 3
			}
			if bit(9) {
				m["public_key"] = ""
			}
			if bit(10) {
				m["id"] = 0
			}
			if bit(11) {
				m["created_at"] = "2999-02-03T04:05:06Z"
			}
			m["name"] = "my key"
		}
		subs := []interface{}{}
		for _, s := range k.Subs {
			subs = append(subs, map[string]interface{}{"id": 7, "key_id": s, "raw_key": "subkey " + s})
		}
		m["subkeys"] = subs
		out = append(out, m)
	}
	if out == nil {
		return []byte("[]")
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func more(t *rapid.T) int {
	if gen.Chance(t, 2) {
		return 0
	}
	return gen.Pick(t, 1<<12)
}

func hexID(t *rapid.T) string {
	const d = "0123456789abcdefABCDEF"
	n := gen.Of(t, 16, 16, 16, 8, 40, 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = d[gen.Pick(t, len(d))]
	}
	return string(b)
}

func flipCase(t *rapid.T, s string) string {
	switch gen.Pick(t, 4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if c := b[i] | 0x20; c >= 'a' && c <= 'f' && gen.Chance(t, 2) {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	return s
}

// near gives an ID that is almost the given one.
func near(t *rapid.T, id string) string {
	switch gen.Pick(t, 6) {
	case 0:
		return id[len(id)/2:]
	case 1:
		return id[:len(id)/2]
	case 2:
		return id + "0"
	case 3:
		return "0" + id
	case 4:
		b := []byte(id)
		i := gen.Pick(t, len(b))
		if b[i] == '0' {
			b[i] = '1'
		} else {
			b[i] = '0'
		}
		return string(b)
	}
	return "3BCCC7CFD2597E53" + id
}

func rawText(t *rapid.T) *string {
	s := gen.Of(t, "-----BEGIN PGP PUBLIC KEY BLOCK-----\r\n\r\nabcd\r\n=abcd\r\n-----END PGP PUBLIC KEY BLOCK-----", "x", "</script>&<>\u2028", "\"quoted\\\"\n", "日本\t🔑", "null")
	if gen.Chance(t, 4) {
		s += rapid.String().Draw(t, "raw")
	}
	// text that is not UTF-8 cannot be written in JSON
	s = strings.ToValidUTF8(s, "?")
	return &s
}

func user(t *rapid.T) string {
	if gen.Chance(t, 3) {
		return gen.Of(t, "alice", "Spiegel-im-Spiegel", "a", "user-1")
	}
	return text(t)
}

func genKeys(t *rapid.T, id string) (keys []Key) {
	fill := func(n int) {
		if n > 0 {
			keys = append(keys, Key{Rep: n})
		}
	}
	some := func() {
		for n := gen.Of(t, 0, 0, 1, 2, 3); n > 0; n-- {
			k := Key{Full: gen.Chance(t, 3), More: more(t), Raw: rawText(t)}
			switch gen.Pick(t, 6) {
			case 0:
				k = Key{Null: true}
			case 1:
				k.NoID = true
			case 2:
				k.ID = near(t, id)
			case 3:
				k.ID = near(t, id)
				k.Raw = nil
			default:
				k.ID = hexID(t)
				k.Subs = []string{near(t, id), flipCase(t, id)}
			}
			keys = append(keys, k)
		}
	}
	target := func() {
		k := Key{ID: flipCase(t, id), Raw: rawText(t), Full: gen.Chance(t, 2), More: more(t)}
		if gen.Chance(t, 8) {
			k.Raw, k.Absent = nil, gen.Chance(t, 2)
		}
		keys = append(keys, k)
	}
	some()
	if gen.Chance(t, 2) {
		have := len(keys)
		if gen.Chance(t, 40) {
			fill(gen.Of(t, 999, 1000, 1001, 2500, 3000))
		}
		fill(gen.Of(t, 1, 5, 96, 97, 98, 99, 100, 101, 150, 196, 197, 198, 199, 200, 201, 299, 300, 320) - have)
	}
	some()
	switch gen.Pick(t, 5) {
	case 0:
	case 1:
		target()
		some()
		target() // the first one counts
	default:
		target()
	}
	if gen.Chance(t, 2) {
		some()
		if gen.Chance(t, 2) {
			fill(gen.Of(t, 1, 95, 99, 100, 101, 200))
		}
	}
	return
}

// badJSON are bodies that are not a list of keys.
var badJSON = []string{"", "{", "[", "{}", "[{]", "\"text\"", "17", "true", "[1]", "[\"x\"]", "[[]]", `[{"key_id":1}]`, `[{"key_id":"%ID","raw_key":5}]`, `{"message":"Not Found"}`,
	`[{"key_id":"%ID","raw_key":"x"}`, `[{"key_id":"%ID","raw_key":"x"},`, `[{"key_id":["%ID"],"raw_key":"x"}]`, `<html>`, `[{"key_id":"%ID","raw_key":"x"},5]`, `[{"key_id":"%ID" "raw_key":"x"}]`, "\xff", "nul"}

func genGH(t *rapid.T) GH {
	c := GH{User: Text(user(t))}
	if gen.Chance(t, 5) { // the whole .gpg file
		c.Resp.Body = genBody(t)
		genFault(t, &c.Resp)
		c.Cancel = gen.Chance(t, 12)
		return c
	}
	id := hexID(t)
	c.KeyID = gen.Of(t, "", "0x", "0X", "") + flipCase(t, id)
	c.Keys = genKeys(t, id)
	if gen.Chance(t, 3) {
		c.Bad = gen.Range(t, 1, 4)
		if gen.Chance(t, 2) {
			c.Resp.Status = 200
			c.Resp.Body = []byte(strings.ReplaceAll(gen.Of(t, badJSON...), "%ID", id))
		} else {
			raw := "x"
			c.Resp.Body = page([]Key{{ID: id, Raw: &raw}})
			genFault(t, &c.Resp)
			if c.Resp.ok() {
				c.Resp.Status = 500
			}
			if c.Resp.Fault == "cut" || c.Resp.Fault == "chunkcut" {
				// the list itself is complete otherwise
				c.Resp.Cut %= len(c.Resp.Body)
			}
			if c.Resp.Fault == "dial" {
				c.Resp.Fault = "close"
			}
		}
	}
	c.Cancel = gen.Chance(t, 20)
	return c
}

// segment says whether path is prefix + one segment that reads as name + suffix.
func segment(path, prefix, name, suffix string) error {
	rest, ok := strings.CutPrefix(path, prefix)
	if ok {
		rest, ok = strings.CutSuffix(rest, suffix)
	}
	if !ok {
		return core.Errf("path %q, want %q + name + %q", path, prefix, suffix)
	}
	got, err := url.PathUnescape(rest)
	if err != nil || strings.ContainsAny(rest, "/?# ") || got != name {
		return core.Errf("path %q does not name the user %q in one segment", path, name)
	}
	return nil
}

func bare(id string) string {
	if len(id) > 1 && id[0] == '0' && id[1]|0x20 == 'x' {
		id = id[2:]
	}
	return strings.ToLower(id)
}

// answer is the oracle: the pages that have to be requested and the text to return.
func (c GH) answer() (pages int, text *string) {
	keys := expand(c.Keys)
	for pages = 1; ; pages++ {
		if pages == c.Bad {
			return pages, nil
		}
		var part []Key
		if lo := (pages - 1) * 100; lo < len(keys) {
			part = keys[lo:min(lo+100, len(keys))]
		}
		for _, k := range part {
			if !k.Null && !k.NoID && strings.ToLower(k.ID) == bare(c.KeyID) {
				return pages, k.Raw
			}
		}
		if len(part) < 100 {
			return pages, nil
		}
	}
}

func (c GH) serve(r *http.Request, s Seen) Resp {
	if a := r.Header.Get("Accept"); a != "" && !strings.Contains(a, "json") && !strings.Contains(a, "*") && c.KeyID != "" {
		return Resp{Status: 406}
	}
	if c.KeyID == "" {
		return c.Resp
	}
	n, err := strconv.Atoi(r.URL.Query().Get("page"))
	if err != nil || n < 1 {
		n = 1
	}
	per, err := strconv.Atoi(r.URL.Query().Get("per_page"))
	if err != nil || per < 1 {
		per = 30
	}
	per = min(per, 100)
	if n == c.Bad {
		return c.Resp
	}
	keys := expand(c.Keys)
	lo := min((n-1)*per, len(keys))
	return Resp{Status: 200, Body: page(keys[lo:min(lo+per, len(keys))])}
}

// asked compares the requests with what GitHub has to be asked.
func (c GH) asked(seen []Seen, pages int) error {
	if len(seen) != pages {
		return core.Errf("%d requests, want %d: %+v", len(seen), pages, seen)
	}
	for i, r := range seen {
		host := "github.com"
		if c.KeyID != "" {
			host = "api.github.com"
		}
		if r.Method != "GET" || r.Scheme != "https" || r.Addr != host+":443" || r.Host != host && r.Host != host+":443" {
			return core.Errf("%s request over %s to %s (%s)", r.Method, r.Scheme, r.Addr, r.Host)
		}
		path, query, _ := strings.Cut(r.URI, "?")
		if c.KeyID == "" {
			if query != "" {
				return core.Errf("query %q", query)
			}
			if err := segment(path, "/", string(c.User), ".gpg"); err != nil {
				return err
			}
			continue
		}
		if err := segment(path, "/users/", string(c.User), "/gpg_keys"); err != nil {
			return err
		}
		if err := form(query, map[string]string{"page": strconv.Itoa(i + 1), "per_page": "100"}); err != nil {
			return err
		}
	}
	return nil
}

func checkGH(c GH, x *core.X) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.Cancel {
		cancel()
	}
	var got []byte
	var err error
	seen := with(c.Resp.Fault == "dial", c.serve, func() {
		got, err = github.GetKey(ctx, fetch.New(), string(c.User), c.KeyID)
	})
	if c.Cancel {
		if err == nil {
			return core.Errf("the context was cancelled, but there is no error")
		}
		return nil
	}
	if url.PathEscape(string(c.User)) != string(c.User) {
		x.Label("user name needs escapes")
		x.NonTrivial()
	}
	if c.KeyID == "" {
		if c.Resp.Fault != "dial" {
			if e := c.asked(seen, 1); e != nil {
				return e
			}
		}
		x.Label("file, answered %v", c.Resp.ok())
		if c.Resp.ok() != (err == nil) || err == nil && !bytes.Equal(got, c.Resp.Body) {
			return core.Errf("returned %q, %v; status %d, fault %q, body %q", got, err, c.Resp.Status, c.Resp.Fault, []byte(c.Resp.Body))
		}
		return nil
	}
	pages, want := c.answer()
	if e := c.asked(seen, pages); e != nil {
		return e
	}
	x.Label("pages %d, found %v", pages, want != nil)
	if pages > 1 || want != nil {
		x.NonTrivial()
	}
	if pages == c.Bad {
		x.Label("bad page")
	}
	if want == nil {
		if err == nil || len(got) != 0 {
			return core.Errf("no key %q can be given, but %q is returned with error %v", c.KeyID, got, err)
		}
		return nil
	}
	if err != nil || string(got) != *want {
		return core.Errf("returned %q, %v; the key's text is %q", got, err, *want)
	}
	return nil
}

func genGHCmd(t *rapid.T) Cmd {
	c := genCmd("github")(t)
	c.Name = gen.Of(t, "github", "github", "gh", "g")
	c.Arg = Text(user(t))
	if gen.Chance(t, 2) {
		id := hexID(t)
		c.KeyID = gen.Of(t, "", "0x", "0X") + flipCase(t, id)
		raw := string(gen.DrawArmor(t, true).Text(gen.Stream(t, gen.Cfg{Min: 0, Max: 3, Depth: 1}).Encode()))
		raw = strings.ToValidUTF8(raw, "?")
		switch gen.Pick(t, 6) {
		case 0:
			c.Keys = []Key{{ID: near(t, id), Raw: &raw}}
		case 1:
			c.Keys = []Key{{ID: id}}
		case 2:
			c.Keys = []Key{{Rep: 100}, {ID: id, Raw: &raw}}
		default:
			c.Keys = []Key{{ID: id, Raw: &raw}}
		}
	}
	return c
}

func checkGHCmd(c Cmd, x *core.X) error {
	g := GH{User: c.Arg, KeyID: c.KeyID, Keys: c.Keys, Resp: c.Resp}
	down := c.Resp.Fault == "dial"
	var got app.Out
	seen := with(down, g.serve, func() {
		got = app.Run(c.line(), strings.NewReader("this is not the input"))
	})
	if got.Panicked() {
		return core.Errf("panic: %s", got.Stderr)
	}
	if c.Args != 1 {
		if len(seen) != 0 {
			return core.Errf("%d arguments, but a request: %+v", c.Args, seen)
		}
		return c.failed(got)
	}
	pages := 1
	if c.KeyID != "" {
		var want *string
		pages, want = g.answer()
		c.Resp = Resp{Status: 404}
		if want != nil {
			c.Resp = Resp{Status: 200, Body: core.B(*want)}
		}
		if down {
			c.Resp.Fault = "dial"
		}
	}
	if !down {
		if err := g.asked(seen, pages); err != nil {
			return err
		}
	}
	if !c.Resp.ok() { // the whole text is read before anything is written
		x.Label("failure")
		return c.failed(got)
	}
	return c.handover(got, x)
}

func init() {
	p := core.Property("C21", "a user name that needs escapes, a key found, or more than one page walked; command: a non-empty text was handed over",
		"key IDs are hexadecimal digits; the list ends (some page has fewer than 100 entries)",
		"the default HTTP transport of this process is connected to a scripted server in place of GitHub")
	core.Add(p, core.Spec[GH]{Name: "library", Quick: 60000, Thorough: 800000, Gen: genGH, Check: checkGH})
	core.Add(p, core.Spec[Cmd]{Name: "command", Quick: 25000, Thorough: 300000, Gen: genGHCmd, Check: checkGHCmd, Fixed: fixedBig("github")})
}
