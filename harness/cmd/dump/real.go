package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"
	_ "time/tzdata"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"pgregory.net/rapid"
)

func cxtOf(o ref.Opt) *context.Context {
	return context.New(
		context.Set(context.ARMOR, o.Armor),
		context.Set(context.CERT, o.Cert),
		context.Set(context.DEBUG, o.Debug),
		context.Set(context.GDUMP, o.Gdump),
		context.Set(context.INTEGER, o.Integer),
		context.Set(context.LITERAL, o.Literal),
		context.Set(context.MARKER, o.Marker),
		context.Set(context.PRIVATE, o.Private),
		context.Set(context.UTC, o.UTC),
	)
}

func items(in []*result.Item) (out []*ref.Item) {
	for _, i := range in {
		if i == nil {
			out = append(out, &ref.Item{Name: "<nil item>"})
			continue
		}
		out = append(out, &ref.Item{Name: i.Name, Value: i.Value, Dump: i.Dump, Note: i.Note, Items: items(i.Items)})
	}
	return
}

func dumpReader(r io.Reader, cxt *context.Context) ([]*ref.Item, error) {
	p, err := parse.New(cxt, r)
	if err != nil {
		return nil, err
	}
	info, err := p.Parse()
	if info == nil {
		if err == nil {
			err = fmt.Errorf("neither listing nor error")
		}
		return nil, err
	}
	return items(info.Packets), err
}

// dump runs the code under test.
func dump(data []byte, o ref.Opt) ([]*ref.Item, error) {
	return dumpReader(bytes.NewReader(data), cxtOf(o))
}

// in runs f with a local time zone.
func in(zone string, f func(*time.Location) error) error {
	loc := zoneOf(zone)
	old := time.Local
	time.Local = loc
	defer func() { time.Local = old }()
	return f(loc)
}

func zoneOf(zone string) *time.Location {
	if zone == "" || zone == "UTC" {
		return time.UTC
	}
	var off int
	if n, _ := fmt.Sscanf(zone, "fixed%d", &off); n == 1 {
		return time.FixedZone("X", off*60)
	}
	loc, err := time.LoadLocation(zone)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return loc
}

var zones = []string{"UTC", "Asia/Tokyo", "America/New_York", "Europe/London", "Asia/Kolkata", "Asia/Kathmandu",
	"Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati", "Pacific/Marquesas", "America/St_Johns", "Africa/Casablanca",
	"Europe/Dublin", "America/Sao_Paulo", "Asia/Tehran", "fixed-720", "fixed840", "fixed1", "fixed-1", "fixed-210"}

func genZone(t *rapid.T) string {
	if gen.Chance(t, 2) {
		return "UTC"
	}
	return gen.Of(t, zones...)
}

func genOpt(t *rapid.T) ref.Opt {
	var o ref.Opt
	switch gen.Pick(t, 4) {
	case 0:
		o.Debug = true
	case 1:
	default:
		f := gen.Pick(t, 256)
		o.Cert, o.Integer, o.Literal, o.Marker, o.Private, o.Gdump, o.Debug = f&1 != 0, f&2 != 0, f&4 != 0, f&8 != 0, f&16 != 0, f&32 != 0, f&192 == 192
	}
	o.UTC = gen.Chance(t, 2)
	return o
}

// agree compares the real listing and outcome with the reference model's.
func agree(data []byte, o ref.Opt, loc *time.Location) (failed bool, err error) {
	got, gerr := dump(data, o)
	want, werr := ref.Dump(data, o, loc)
	return werr != nil, compare(want, werr, got, gerr)
}

func compare(want []*ref.Item, werr error, got []*ref.Item, gerr error) error {
	if werr != nil && gerr == nil {
		return core.Errf("must be an error (%v), but %d packets are listed without one", werr, len(got))
	}
	if werr == nil && gerr != nil {
		return core.Errf("must be listed, but fails: %v", gerr)
	}
	if d := ref.Diff(want, got); d != "" {
		return core.Errf("listing differs from the reference: %s", d)
	}
	return nil
}

func walk(l []*ref.Item, f func(*ref.Item)) {
	for _, i := range l {
		f(i)
		walk(i.Items, f)
	}
}

func find(l []*ref.Item, name string) (out []*ref.Item) {
	walk(l, func(i *ref.Item) {
		if i.Name == name {
			out = append(out, i)
		}
	})
	return
}

// tagOf reads the tag number from the name of an item.
func tagOf(name string) (n int, ok bool) {
	i := strings.LastIndex(name, "(tag ")
	if i < 0 {
		return 0, false
	}
	_, err := fmt.Sscanf(name[i:], "(tag %d)", &n)
	return n, err == nil
}

// strip removes what options may add.
func stripDumps(l []*ref.Item) (out []*ref.Item) {
	for _, i := range l {
		out = append(out, &ref.Item{Name: i.Name, Value: i.Value, Note: i.Note, Items: stripDumps(i.Items)})
	}
	return
}
