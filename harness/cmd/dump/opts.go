package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"pgregory.net/rapid"
)

// ---- C14

// TwoOpt is a stream dumped with two sets of options.
type TwoOpt struct {
	Pkts gen.Pkts `json:"pkts"`
	A    ref.Opt  `json:"a"`
	B    ref.Opt  `json:"b"`
	Zone string   `json:"zone"`
}

func genTwoOpt(t *rapid.T) TwoOpt {
	c := TwoOpt{Zone: genZone(t)}
	cfg := gen.Cfg{Min: 1, Max: 3, Depth: 2, Evil: gen.Chance(t, 6), Long: true}
	if gen.Chance(t, 2) {
		cfg.Tags = []int{1, 2, 5, 6, 10, 11, 60, 61, 62, 63, 8, 3}
	}
	c.Pkts = gen.Stream(t, cfg)
	opt := func() ref.Opt {
		var o ref.Opt
		for _, f := range []*bool{&o.Cert, &o.Integer, &o.Literal, &o.Marker, &o.Private, &o.Gdump} {
			*f = gen.Chance(t, 2)
		}
		o.Debug = gen.Chance(t, 5)
		return o
	}
	c.A, c.B = opt(), opt()
	if gen.Chance(t, 2) { // one option only
		c.A, c.B = ref.Opt{}, ref.Opt{}
		f := []*bool{&c.B.Cert, &c.B.Integer, &c.B.Literal, &c.B.Marker, &c.B.Private, &c.B.Gdump, &c.B.Debug}
		*f[gen.Pick(t, len(f))] = true
	}
	c.A.UTC = gen.Chance(t, 2)
	c.B.UTC = c.A.UTC
	return c
}

// within says whether every dump of a is absent or that of full.
func within(a, full []*ref.Item, path string) string {
	for n := range a {
		p := path + "/" + a[n].Name
		if a[n].Dump != "" && a[n].Dump != full[n].Dump {
			return p + ": dump " + a[n].Dump + ", in debug mode " + full[n].Dump
		}
		if d := within(a[n].Items, full[n].Items, p); d != "" {
			return d
		}
	}
	return ""
}

func checkTwoOpt(c TwoOpt, x *core.X) error {
	return in(c.Zone, func(loc *time.Location) error {
		data := c.Pkts.Encode()
		all := ref.Opt{Debug: true, UTC: c.A.UTC}
		full, ferr := dump(data, all)
		if ferr == nil && len(full) > 0 {
			x.NonTrivial()
		}
		for _, o := range []ref.Opt{{UTC: c.A.UTC}, c.A, c.B} {
			got, gerr := dump(data, o)
			if (gerr == nil) != (ferr == nil) {
				return core.Errf("with %+v: %v, in debug mode: %v", o, gerr, ferr)
			}
			if d := ref.Diff(stripDumps(full), stripDumps(got)); d != "" {
				return core.Errf("options %+v change the listing: %s", o, d)
			}
			if d := within(got, full, ""); d != "" {
				return core.Errf("options %+v: %s", o, d)
			}
			want, werr := ref.Dump(data, o, loc)
			if err := compare(want, werr, got, gerr); err != nil {
				return err
			}
		}
		want, werr := ref.Dump(data, all, loc)
		if err := compare(want, werr, full, ferr); err != nil {
			return err
		}
		if !c.A.UTC { // the time zone changes nothing but times
			u := all
			u.UTC = true
			got, gerr := dump(data, u)
			if (gerr == nil) != (ferr == nil) {
				return core.Errf("with UTC: %v, without: %v", gerr, ferr)
			}
			if d := ref.Diff(blankTimes(full), blankTimes(got)); d != "" {
				return core.Errf("UTC changes more than times: %s", d)
			}
		}
		return nil
	})
}

var stampRE = regexp.MustCompile(`\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)`)

// blankTimes removes timestamps from the items that show one.
func blankTimes(l []*ref.Item) (out []*ref.Item) {
	for _, i := range l {
		j := *i
		if isTimeItem(i.Name) {
			j.Value = stampRE.ReplaceAllString(i.Value, "T")
			j.Note = stampRE.ReplaceAllString(i.Note, "T")
		}
		j.Items = blankTimes(i.Items)
		out = append(out, &j)
	}
	return
}

func isTimeItem(name string) bool {
	return strings.Contains(strings.ToLower(name), "time")
}

// ---- C15

// When is a packet with one time (or a creation time and an expiry) in it.
type When struct {
	Kind string `json:"kind"`
	T    uint32 `json:"t"`
	E    uint32 `json:"e"`
	Zone string `json:"zone"`
	Crit bool   `json:"crit,omitempty"`
}

func be32(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func sigWith(area, area2 []byte) []byte {
	b := append([]byte{4, 0x13, 1, 8, byte(len(area) >> 8), byte(len(area))}, area...)
	b = append(b, byte(len(area2)>>8), byte(len(area2)))
	b = append(b, area2...)
	return append(b, 0xab, 0xcd, 0, 1, 1)
}

func keyWith(t uint32) []byte { return append(append([]byte{4}, be32(t)...), 1, 0, 1, 1, 0, 1, 1) }

func (c When) sub(typ byte, v uint32) []byte {
	if c.Crit {
		typ |= 0x80
	}
	return append([]byte{5, typ}, be32(v)...)
}

// packets gives the stream, the name of the item to look at, and what it has to say:
// its value denotes T (plain) or its note denotes T+E (expiry; no note if none is possible).
func (c When) packets() (s gen.Pkts, name string, expiry, known bool) {
	p := func(tag int, b ...byte) gen.Pkt { return gen.Pkt{Tag: tag, Body: b, Enc: gen.Enc{Kind: "new5"}} }
	crit := ""
	if c.Crit {
		crit = " <critical>"
	}
	switch c.Kind {
	case "literal":
		return gen.Pkts{p(11, append([]byte{'b', 1, 'f'}, be32(c.T)...)...)}, "Creation time", false, false
	case "key":
		return gen.Pkts{p(6, keyWith(c.T)...)}, "Public key creation time", false, false
	case "key3":
		return gen.Pkts{p(6, append(append([]byte{3}, be32(c.T)...), 0, 9, 1, 0, 1, 1, 0, 1, 1)...)}, "Public key creation time", false, false
	case "sig3":
		return gen.Pkts{p(2, append(append([]byte{3, 5, 0x13}, be32(c.T)...), 1, 2, 3, 4, 5, 6, 7, 8, 1, 8, 0xab, 0xcd, 0, 1, 1)...)}, "Signature creation time", false, false
	case "created":
		return gen.Pkts{p(2, sigWith(c.sub(2, c.T), nil)...)}, "Signature Creation Time" + crit + " (sub 2)", false, false
	case "sigexp":
		return gen.Pkts{p(2, sigWith(append(c.sub(2, c.T), c.sub(3, c.E)...), nil)...)}, "Signature Expiration Time" + crit + " (sub 3)", true, true
	case "sigexp2": // the expiry is in the other area
		return gen.Pkts{p(2, sigWith(c.sub(2, c.T), c.sub(3, c.E))...)}, "Signature Expiration Time" + crit + " (sub 3)", true, true
	case "sigexpalone": // the creation time belongs to another signature
		return gen.Pkts{p(2, sigWith(c.sub(2, c.T), nil)...), p(2, sigWith(c.sub(3, c.E), nil)...)}, "Signature Expiration Time" + crit + " (sub 3)", true, false
	case "keyexp":
		return gen.Pkts{p(6, keyWith(c.T)...), p(13, 'x'), p(2, sigWith(c.sub(9, c.E), nil)...)}, "Key Expiration Time" + crit + " (sub 9)", true, true
	case "subkeyexp": // the most recent key counts
		return gen.Pkts{p(6, keyWith(c.T^0x5555)...), p(14, keyWith(c.T)...), p(2, sigWith(append(c.sub(2, c.T^3), c.sub(9, c.E)...), nil)...)}, "Key Expiration Time" + crit + " (sub 9)", true, true
	case "seckeyexp":
		return gen.Pkts{p(5, append(keyWith(c.T), 0, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0xab, 0xcd)...), p(2, sigWith(c.sub(9, c.E), nil)...)}, "Key Expiration Time" + crit + " (sub 9)", true, true
	case "keyexpalone": // there is no key before
		return gen.Pkts{p(2, sigWith(append(c.sub(2, c.T), c.sub(9, c.E)...), nil)...), p(6, keyWith(c.T)...)}, "Key Expiration Time" + crit + " (sub 9)", true, false
	}
	panic("harness: " + c.Kind)
}

var whenKinds = []string{"literal", "key", "key3", "sig3", "created", "sigexp", "sigexp2", "sigexpalone", "keyexp", "subkeyexp", "seckeyexp", "keyexpalone"}

func genWhen(t *rapid.T) When {
	return When{Kind: gen.Of(t, whenKinds...), T: gen.U32(t), E: gen.U32(t), Zone: gen.Of(t, zones...), Crit: gen.Chance(t, 4)}
}

// denotes says whether a timestamp is the instant, printed in the location.
func denotes(s string, at int64, loc *time.Location) error {
	tm, err := time.Parse(time.RFC3339, s)
	if err != nil {
		return core.Errf("%q is no RFC 3339 timestamp: %v", s, err)
	}
	if tm.Unix() != at {
		return core.Errf("%q denotes %d, want %d (%s)", s, tm.Unix(), at, time.Unix(at, 0).UTC().Format(time.RFC3339))
	}
	_, got := tm.Zone()
	_, want := time.Unix(at, 0).In(loc).Zone()
	if got != want {
		return core.Errf("%q: offset %d s, want %d s", s, got, want)
	}
	return nil
}

func checkWhen(c When, x *core.X) error {
	return in(c.Zone, func(local *time.Location) error {
		s, name, expiry, known := c.packets()
		x.Label("%s", c.Kind)
		if c.T != 0 {
			x.NonTrivial()
		}
		for _, utc := range []bool{true, false} {
			loc := local
			if utc {
				loc = time.UTC
			}
			got, err := dump(s.Encode(), ref.Opt{UTC: utc})
			if err != nil {
				return core.Errf("fails: %v", err)
			}
			l := find(got, name)
			if len(l) != 1 {
				return core.Errf("%d items named %q", len(l), name)
			}
			it := l[0]
			if !expiry {
				if c.Kind == "literal" && c.T == 0 {
					if it.Value != "null" {
						return core.Errf("time 0 of a literal packet is shown as %q", it.Value)
					}
					continue
				}
				if err := denotes(it.Value, int64(c.T), loc); err != nil {
					return err
				}
				continue
			}
			var days float64
			if n, err := fmt.Sscanf(it.Value, "%g days after", &days); n != 1 || err != nil || days*86400-float64(c.E) > 0.5 || float64(c.E)-days*86400 > 0.5 {
				return core.Errf("a period of %d s is shown as %q", c.E, it.Value)
			}
			if !known || c.T == 0 {
				if it.Note != "" {
					return core.Errf("there is no creation time to count from, but the end is shown: %q", it.Note)
				}
				continue
			}
			if err := denotes(it.Note, int64(c.T)+int64(c.E), loc); err != nil {
				return core.Errf("end of a period of %d s from %d: %v", c.E, c.T, err)
			}
		}
		_, err := agree(s.Encode(), ref.Opt{}, local)
		return err
	})
}

func checkTimesInStreams(c StreamCase, x *core.X) error {
	return in(c.Zone, func(loc *time.Location) error {
		data := c.Pkts.Encode()
		if _, err := agree(data, c.Opt, loc); err != nil {
			return err
		}
		u, l := c.Opt, c.Opt
		u.UTC, l.UTC = true, false
		a, aerr := dump(data, u)
		b, berr := dump(data, l)
		if (aerr == nil) != (berr == nil) || len(a) != len(b) {
			return core.Errf("UTC: %v, local time: %v", aerr, berr)
		}
		return pairTimes(a, b, loc, x)
	})
}

// pairTimes compares the two listings time by time.
func pairTimes(a, b []*ref.Item, loc *time.Location, x *core.X) error {
	if len(a) != len(b) {
		return core.Errf("UTC lists %d items, local time %d", len(a), len(b))
	}
	for n := range a {
		if a[n].Name != b[n].Name {
			return core.Errf("UTC lists %q, local time %q", a[n].Name, b[n].Name)
		}
		if isTimeItem(a[n].Name) {
			for _, v := range [][2]string{{a[n].Value, b[n].Value}, {a[n].Note, b[n].Note}} {
				p, q := stampRE.FindString(v[0]), stampRE.FindString(v[1])
				if p == "" && q == "" {
					continue
				}
				x.NonTrivial()
				tm, err := time.Parse(time.RFC3339, p)
				if err != nil || p == "" || p[len(p)-1] != 'Z' {
					return core.Errf("%s: %q in UTC: %v", a[n].Name, v[0], err)
				}
				if err := denotes(q, tm.Unix(), loc); err != nil {
					return core.Errf("%s: UTC %q, local %q: %v", a[n].Name, p, q, err)
				}
			}
		}
		if err := pairTimes(a[n].Items, b[n].Items, loc, x); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	p := core.Property("C14", "a case is a stream dumped without options, with two random option sets (or a single option) and in debug mode; non-trivial if the stream dumps and is not empty",
		"which dump belongs to which option is stated by the reference model")
	core.Add(p, core.Spec[TwoOpt]{Name: "options", Quick: 80000, Gen: genTwoOpt, Check: checkTwoOpt})
	core.Add(p, core.Spec[Huge]{Name: "dumped", Quick: 48, Gen: genDumped, Check: checkHuge})

	p = core.Property("C15", "a case is one time (and period) in one place of a packet and one of 20 time zones, read back from the listing; or a stream of keys and signatures whose times and expiries depend on each other, judged by the reference model and by comparing the UTC and the local listing; non-trivial if the time is not 0, or the stream shows a time",
		"time zones have offsets of whole minutes at the instants concerned, which is all RFC 3339 can express")
	core.Add(p, core.Spec[When]{Name: "instants", Quick: 150000, Gen: genWhen, Check: checkWhen})
	core.Add(p, core.Spec[StreamCase]{Name: "histories", Quick: 80000, Check: checkTimesInStreams, Gen: func(t *rapid.T) StreamCase {
		tags := []int{6, 14, 5, 2, 2, 2, 13, 8, 11}
		return StreamCase{Pkts: gen.Stream(t, gen.Cfg{Min: 1, Max: 6, Depth: 1, Tags: tags, Long: true}), Opt: genOpt(t), Zone: gen.Of(t, zones...)}
	}})
}
