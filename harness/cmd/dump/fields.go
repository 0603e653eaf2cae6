package main

import (
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"pgregory.net/rapid"
)

// StreamCase is a stream with the options it is dumped with.
type StreamCase struct {
	Pkts gen.Pkts `json:"pkts"`
	Opt  ref.Opt  `json:"opt"`
	Zone string   `json:"zone"`
}

func streamCase(c gen.Cfg) func(*rapid.T) StreamCase {
	return func(t *rapid.T) StreamCase {
		return StreamCase{Pkts: gen.Stream(t, c), Opt: genOpt(t), Zone: genZone(t)}
	}
}

// checkStream is the main oracle: the whole listing equals the reference model's.
func checkStream(c StreamCase, x *core.X) error {
	for _, p := range c.Pkts {
		x.Label("tag %d", p.Tag)
	}
	return in(c.Zone, func(loc *time.Location) error {
		failed, err := agree(c.Pkts.Encode(), c.Opt, loc)
		if failed {
			x.Label("rejected")
		} else if len(c.Pkts) > 0 {
			x.Label("listed")
			x.NonTrivial()
		}
		return err
	})
}

const listRule = "a case is a stream of generated packets with options and a time zone; it is non-trivial if the stream is not empty and is listed without error"

func fields(id string, what string, quick int, tags []int, c gen.Cfg) *core.Prop {
	p := core.Property(id, "structured generation of "+what+" (every version, algorithm number, length boundary, inner truncation); "+listRule,
		"the reference model in harness/ref states the field layouts and the item names of the tool")
	c.Tags = tags
	core.Add(p, core.Spec[StreamCase]{Name: "fields", Quick: quick, Gen: streamCase(c), Check: checkStream})
	e := c
	e.Evil = true
	core.Add(p, core.Spec[StreamCase]{Name: "damaged", Quick: quick / 3, Gen: streamCase(e), Check: checkStream})
	return p
}

func init() {
	fields("C07", "public-key and public-subkey packets", 240000, []int{6, 14}, gen.Cfg{Min: 1, Max: 2})
	fields("C08", "secret-key and secret-subkey packets", 240000, []int{5, 7}, gen.Cfg{Min: 1, Max: 2})
	fields("C09", "signature and one-pass signature packets", 180000, []int{2, 2, 2, 4}, gen.Cfg{Min: 1, Max: 2})
	fields("C10", "signatures with subpacket lists of all types", 180000, []int{2}, gen.Cfg{Min: 1, Max: 1, Depth: 2})
	fields("C11", "session key and encrypted data packets", 240000, []int{1, 3, 9, 18, 20, 19, 1, 3, 9, 18, 20, 19, 1, 3, 9, 18, 20, 19, 11, 2, 4, 5, 6, 7, 8, 10, 12, 13, 14, 17, 0, 60}, gen.Cfg{Min: 1, Max: 6, Long: true})
	fields("C12", "literal, user ID, attribute and opaque packets", 240000, []int{11, 11, 13, 17, 17, 10, 12, 0, 15, 21, 60, 61, 62, 63}, gen.Cfg{Min: 1, Max: 3, Long: true})
}
