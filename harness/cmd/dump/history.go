package main

import (
	"bufio"
	"bytes"
	stdctx "context"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"pgregory.net/rapid"
)

// Input is a stream, possibly damaged, possibly armored.
type Input struct {
	Data  core.B     `json:"data"`
	Armor *gen.Armor `json:"armor,omitempty"`
}

func (i Input) octets() []byte {
	if i.Armor != nil {
		return i.Armor.Text(i.Data)
	}
	return append([]byte{}, i.Data...)
}

func genInput(t *rapid.T) Input {
	c := Input{}
	cfg := gen.Cfg{Min: 0, Max: 4, Depth: 1, Evil: gen.Chance(t, 5), Long: true}
	if gen.Chance(t, 2) { // packets that hand something to later ones
		cfg.Tags = []int{6, 5, 14, 2, 2, 1, 3, 9, 18, 8}
	}
	c.Data = gen.Stream(t, cfg).Encode()
	if gen.Chance(t, 40) { // larger than any buffer on the way
		big := gen.Pkt{Tag: 11, Body: append([]byte{'b', 0, 0, 0, 0, 1}, gen.Fill(t, gen.Of(t, 4090, 4096, 5000, 16384, 32768, 65530, 65536, 70000, 131072, 1<<20, 1<<20+77))...)}
		big.Enc = gen.Header(t, 11, len(big.Body), false)
		c.Data = append(big.Encode(), c.Data...)
	}
	switch gen.Pick(t, 8) {
	case 0:
		c.Data = gen.Damage(t, c.Data)
	case 1:
		c.Data = gen.Octets(t)
	case 2, 3:
		a := gen.DrawArmor(t, true)
		c.Armor = &a
	}
	if c.Armor == nil && bytes.Contains(c.Data, []byte("-----BEGIN PGP")) {
		c.Data = nil
	}
	return c
}

// kin draws an input that is much like another one.
func kin(t *rapid.T, i Input) Input {
	c := Input{Data: append(core.B{}, i.Data...), Armor: i.Armor}
	n := len(c.Data)
	if n == 0 {
		return genInput(t)
	}
	switch gen.Pick(t, 7) {
	case 6: // a few octets in a row are others
		at, v := gen.Pick(t, n), gen.Of(t, 0, 255, gen.Pick(t, 256))
		for k := gen.Of(t, 2, 2, 3, 4, 8); k > 0 && at < n; k-- {
			c.Data[at] = byte(v)
			at++
		}
	case 0: // of the same length, and different near the end
		c.Data[n-1-gen.Pick(t, n)%8%n] ^= 1 << uint(gen.Pick(t, 8))
	case 1:
		c.Data[gen.Pick(t, n)] ^= 1 << uint(gen.Pick(t, 8))
	case 2:
		c.Data = c.Data[:gen.Pick(t, n)]
	case 3:
		c.Data = append(c.Data, gen.Stream(t, gen.Cfg{Min: 1, Max: 2}).Encode()...)
	case 4: // the same octets in the other form
		if c.Armor != nil {
			c.Armor = nil
		} else {
			a := gen.DrawArmor(t, true)
			c.Armor = &a
		}
	case 5: // the same octets under other headers
		c.Data = append(gen.Stream(t, gen.Cfg{Min: 1, Max: 1, Tags: []int{6, 5, 2, 1, 3}}).Encode(), c.Data...)
	}
	if c.Armor == nil && bytes.Contains(c.Data, []byte("-----BEGIN PGP")) {
		c.Data = nil
	}
	return c
}

// want is what the dump has to give, from the reference model.
func (i Input) want(o ref.Opt, loc *time.Location) ([]*ref.Item, error) {
	if o.Armor && i.Armor == nil {
		return nil, errors.New("no armor")
	}
	return ref.Dump(i.Data, o, loc)
}

// Op is one step of a history.
type Op struct {
	Kind string `json:"kind"` // new, parse
	Cxt  int    `json:"cxt,omitempty"`
	In   int    `json:"in,omitempty"`
	Par  int    `json:"par,omitempty"`
	API  int    `json:"api,omitempty"`
}

// History is a sequence of dumps in one process.
type History struct {
	Inputs []Input   `json:"inputs"`
	Opts   []ref.Opt `json:"opts"`
	Ops    []Op      `json:"ops"`
	Zone   string    `json:"zone"`
}

func genHistory(t *rapid.T) History {
	h := History{Zone: genZone(t)}
	for n := 1 + gen.Pick(t, 3); n > 0; n-- {
		if len(h.Inputs) > 0 && gen.Chance(t, 3) {
			h.Inputs = append(h.Inputs, kin(t, h.Inputs[0]))
			continue
		}
		h.Inputs = append(h.Inputs, genInput(t))
	}
	for n := 1 + gen.Pick(t, 3); n > 0; n-- {
		o := genOpt(t)
		o.Armor = gen.Chance(t, 8)
		h.Opts = append(h.Opts, o)
	}
	made := 0
	for n := 2 + gen.Pick(t, 9); n > 0; n-- {
		if made == 0 || gen.Chance(t, 2) {
			h.Ops = append(h.Ops, Op{Kind: "new", Cxt: gen.Pick(t, len(h.Opts)), In: gen.Pick(t, len(h.Inputs)), API: gen.Pick(t, 2)})
			made++
		} else {
			h.Ops = append(h.Ops, Op{Kind: "parse", Par: gen.Pick(t, made)})
		}
	}
	for i := 0; i < made; i++ {
		h.Ops = append(h.Ops, Op{Kind: "parse", Par: i})
	}
	return h
}

// vandalize changes a listing that belongs to the caller.
func vandalize(l []*result.Item) {
	for n, i := range l {
		if i == nil {
			continue
		}
		vandalize(i.Items)
		i.Name, i.Value, i.Note, i.Dump = "spoilt", "spoilt", "spoilt", "spoilt"
		if n == 0 {
			i.Items = append(i.Items, &result.Item{Name: "spoilt"})
		}
	}
}

type parser struct {
	p    *parse.Parser
	in   Input
	buf  []byte
	copy []byte
	o    ref.Opt
	done bool
}

func checkHistory(h History, x *core.X) error {
	return in(h.Zone, func(loc *time.Location) error {
		var cxts []*context.Context
		var shown []string
		for _, o := range h.Opts {
			c := cxtOf(o)
			cxts = append(cxts, c)
			shown = append(shown, c.String())
		}
		var ps []*parser
		dumps := 0
		for n, op := range h.Ops {
			switch op.Kind {
			case "new":
				q := &parser{in: h.Inputs[op.In], buf: h.Inputs[op.In].octets(), o: h.Opts[op.Cxt]}
				q.copy = append([]byte{}, q.buf...)
				var err error
				if op.API == 0 {
					q.p, err = parse.NewBytes(cxts[op.Cxt], q.buf)
				} else {
					q.p, err = parse.New(cxts[op.Cxt], bytes.NewReader(q.buf))
				}
				_, werr := q.in.want(q.o, loc)
				if noArmor := q.o.Armor && q.in.Armor == nil; noArmor != (err != nil) {
					return core.Errf("step %d: New: %v, want %v", n, err, werr)
				}
				ps = append(ps, q)
			case "parse":
				q := ps[op.Par]
				if q.p == nil || q.done {
					continue
				}
				want, werr := q.in.want(q.o, loc)
				info, err := q.p.Parse()
				if info == nil {
					return core.Errf("step %d: no listing", n)
				}
				got := items(info.Packets)
				if err := compare(want, werr, got, err); err != nil {
					return core.Errf("step %d: %v", n, err)
				}
				dumps++
				if err == nil {
					again, err := q.p.Parse()
					if err != nil {
						return core.Errf("step %d: running the finished parser again: %v", n, err)
					}
					if again != nil {
						if d := ref.Diff(want, items(again.Packets)); d != "" {
							return core.Errf("step %d: running the finished parser again: %s", n, d)
						}
					}
				}
				q.done = true
				vandalize(info.Packets)
			}
			for i, c := range cxts {
				if c.String() != shown[i] {
					return core.Errf("step %d changes the caller's options: %s, before: %s", n, c, shown[i])
				}
			}
			for _, q := range ps {
				if !bytes.Equal(q.buf, q.copy) {
					return core.Errf("step %d changes the caller's buffer", n)
				}
			}
		}
		if dumps > 1 {
			x.NonTrivial()
		}
		x.Label("%d dumps", dumps)
		return nil
	})
}

// Repeat is a dump after very many others.
type Repeat struct {
	Again []Input `json:"again"`
	Times int     `json:"times"`
	Idle  bool    `json:"idle,omitempty"` // the parsers are made but never run
	Opt   ref.Opt `json:"opt"`
	Then  []Input `json:"then"`
	Opt2  ref.Opt `json:"opt2"`
}

func genRepeat(t *rapid.T) Repeat {
	h := Repeat{Opt: genOpt(t), Opt2: genOpt(t), Times: gen.Of(t, 130, 260, 520, 1030, 1030, 2050, 4100), Idle: gen.Chance(t, 12)}
	h.Opt.Armor, h.Opt2.Armor = false, false
	cfg := gen.Cfg{Min: 1, Max: 2, Depth: 2}
	if !gen.Chance(t, 3) {
		cfg.Tags = []int{2, 2, 2, 8, 17, 5, 6}
	}
	in := Input{Data: gen.Stream(t, cfg).Encode()}
	if gen.Chance(t, 8) {
		a := gen.DrawArmor(t, true)
		in.Armor = &a
	}
	h.Then = append(h.Then, in)
	for n := 1 + gen.Pick(t, 4); n > 0; n-- {
		switch gen.Pick(t, 6) {
		case 0:
			cfg.Evil = true
			h.Again = append(h.Again, Input{Data: gen.Stream(t, cfg).Encode()})
		case 1:
			h.Again = append(h.Again, in)
		default:
			h.Again = append(h.Again, kin(t, in))
		}
	}
	return h
}

func checkRepeat(h Repeat, x *core.X) error {
	one := func(i Input, o ref.Opt, what string, n int) error {
		want, werr := i.want(o, time.UTC)
		got, gerr := dump(i.octets(), o)
		if err := compare(want, werr, got, gerr); err != nil {
			return core.Errf("%s after %d dumps: %v", what, n, err)
		}
		return nil
	}
	return in("UTC", func(*time.Location) error {
		n := 0
		for k, i := range h.Again {
			if err := one(i, h.Opt, "repeated input", n); err != nil {
				return err
			}
			_, werr := i.want(h.Opt, time.UTC)
			data := i.octets()
			if len(data) > 20000 || len(i.Data) == 0 {
				continue
			}
			if werr != nil {
				x.Label("failing input repeated")
			}
			for j := 0; j < h.Times && j*len(data) < 400000; j++ {
				if p, err := parse.NewBytes(cxtOf(h.Opt), data); err == nil && !h.Idle {
					if _, err := p.Parse(); (err != nil) != (werr != nil) {
						return core.Errf("input %d, run %d: %v, at first: %v", k, j, err, werr)
					}
				}
				n++
			}
			if err := one(i, h.Opt, "repeated input", n); err != nil {
				return err
			}
		}
		for _, i := range h.Then {
			if err := one(i, h.Opt2, "another input", n); err != nil {
				return err
			}
		}
		if n > 100 {
			x.NonTrivial()
		}
		return nil
	})
}

// Parallel is a set of dumps that run at the same time.
type Parallel struct {
	Inputs []Input   `json:"inputs"`
	Opts   []ref.Opt `json:"opts"`
	Share  bool      `json:"share"` // all runs with the same options share a context
	Zone   string    `json:"zone"`
}

func genParallel(t *rapid.T) Parallel {
	h := Parallel{Zone: genZone(t), Share: gen.Chance(t, 2)}
	for n := 2 + gen.Pick(t, 5); n > 0; n-- {
		i := genInput(t)
		if len(i.Data) > 8192 && !gen.Chance(t, 20) { // the race detector is slow
			i.Data = i.Data[:2000]
		}
		h.Inputs = append(h.Inputs, i)
		h.Opts = append(h.Opts, genOpt(t))
	}
	return h
}

func checkParallel(h Parallel, x *core.X) error {
	x.NonTrivial()
	return in(h.Zone, func(loc *time.Location) error {
		shared := map[ref.Opt]*context.Context{}
		for _, o := range h.Opts {
			shared[o] = cxtOf(o)
		}
		errc := make([]error, 2*len(h.Inputs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := range errc {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errc[k] = core.Errf("panic: %v", r)
					}
				}()
				<-start
				n := k % len(h.Inputs)
				data, o := h.Inputs[n].octets(), h.Opts[n]
				for round := 0; round < 2; round++ {
					cxt := shared[o]
					if !h.Share {
						cxt = cxtOf(o)
					}
					got, gerr := dumpReader(bytes.NewReader(data), cxt)
					want, werr := h.Inputs[n].want(o, loc)
					if err := compare(want, werr, got, gerr); err != nil {
						errc[k] = core.Errf("in parallel: %v", err)
						return
					}
				}
			}(k)
		}
		close(start)
		wg.Wait()
		for _, err := range errc {
			if err != nil {
				return err
			}
		}
		return nil
	})
}

// ---- C18

// Delivery is an input with a way to hand it over.
type Delivery struct {
	In    Input   `json:"in"`
	Opt   ref.Opt `json:"opt"`
	Kind  string  `json:"kind"`
	Sizes []int   `json:"sizes,omitempty"`
	EOF   bool    `json:"eof"` // the end is reported together with the last data
}

// pieces returns data in pieces; 0 is an empty read.
type pieces struct {
	b     []byte
	sizes []int
	n     int
	end   error
	with  bool
	once  bool // the error is reported once, and end of file afterwards
}

func (p *pieces) Read(b []byte) (int, error) {
	fail := func() (e error) {
		if e = p.end; p.once {
			p.end = io.EOF
		}
		return
	}
	if len(p.b) == 0 {
		return 0, fail()
	}
	k := 1
	if len(p.sizes) > 0 {
		k = p.sizes[p.n%len(p.sizes)]
	}
	p.n++
	if k > 0 && p.n > 5000 { // a long input need not go on in small pieces
		k += 8192
	}
	if k > len(b) {
		k = len(b)
	}
	if k > len(p.b) {
		k = len(p.b)
	}
	copy(b, p.b[:k])
	p.b = p.b[k:]
	if len(p.b) == 0 && p.with && k > 0 {
		return k, fail()
	}
	return k, nil
}

func genSizes(t *rapid.T) (s []int) {
	zero := 0
	for n := 1 + gen.Pick(t, 6); n > 0; n-- {
		k := gen.Of(t, 1, 2, 3, 5, 7, 16, 63, 64, 100, 511, 512, 513, 4096, 1<<20, 0, 0)
		if k == 0 {
			if zero++; zero > 3 {
				k = 1
			}
		}
		s = append(s, k)
	}
	return append(s, 1+gen.Pick(t, 9))
}

func genDelivery(t *rapid.T) Delivery {
	return Delivery{In: genInput(t), Opt: withArmor(t, genOpt(t)), Kind: gen.Of(t, "pieces", "pieces", "pieces", "file", "bytes", "buffer", "strings", "pipe", "offset", "section", "limit", "bufio", "fileoffset", "multi"),
		Sizes: genSizes(t), EOF: gen.Chance(t, 2)}
}

func withArmor(t *rapid.T, o ref.Opt) ref.Opt { o.Armor = gen.Chance(t, 3); return o }

// noSeek hides everything but Read.
type noSeek struct{ io.Reader }

func checkDelivery(c Delivery, x *core.X) error {
	x.Label("%s", c.Kind)
	data := c.In.octets()
	if len(data) > 0 {
		x.NonTrivial()
	}
	want, werr := dump(data, c.Opt)
	cxt := cxtOf(c.Opt)
	var got []*ref.Item
	var gerr error
	switch c.Kind {
	case "pieces":
		got, gerr = dumpReader(&pieces{b: data, sizes: c.Sizes, end: io.EOF, with: c.EOF}, cxt)
	case "buffer":
		got, gerr = dumpReader(bytes.NewBuffer(data), cxt)
	case "strings":
		got, gerr = dumpReader(noSeek{strings.NewReader(string(data))}, cxt)
	case "offset": // some of it was read before
		r := bytes.NewReader(append([]byte("\xcd\x04before"), data...))
		_, _ = r.Seek(8, io.SeekStart)
		got, gerr = dumpReader(r, cxt)
	case "section":
		all := append(append([]byte("\xcd\x01x"), data...), "\xcd\x01y"...)
		got, gerr = dumpReader(io.NewSectionReader(bytes.NewReader(all), 3, int64(len(data))), cxt)
	case "limit":
		got, gerr = dumpReader(io.LimitReader(strings.NewReader(string(data)+"\xcd\x01z"), int64(len(data))), cxt)
	case "bufio":
		r := bufio.NewReaderSize(strings.NewReader(string(data)), 16+len(data)%5000)
		_, _ = r.Peek(1)
		got, gerr = dumpReader(r, cxt)
	case "multi":
		k := len(data) / 2
		got, gerr = dumpReader(io.MultiReader(bytes.NewReader(nil), bytes.NewReader(data[:k]), strings.NewReader(string(data[k:]))), cxt)
	case "pipe":
		r, w := io.Pipe()
		go func() {
			for len(data) > 0 {
				k := 1 + len(data)/3
				_, _ = w.Write(data[:k])
				data = data[k:]
			}
			_ = w.Close()
		}()
		got, gerr = dumpReader(r, cxt)
	case "bytes":
		p, err := parse.NewBytes(cxt, data)
		if err != nil {
			gerr = err
			break
		}
		info, err := p.Parse()
		got, gerr = items(info.Packets), err
	default:
		name := filepath.Join(x.Scratch, "in")
		skip := ""
		if c.Kind == "fileoffset" {
			skip = "\xcd\x01q"
		}
		if err := os.WriteFile(name, append([]byte(skip), data...), 0o600); err != nil {
			panic("harness: " + err.Error())
		}
		f, err := os.Open(name)
		if err == nil {
			_, err = io.ReadFull(f, make([]byte, len(skip)))
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		got, gerr = dumpReader(f, cxt)
		f.Close()
	}
	if (werr == nil) != (gerr == nil) {
		return core.Errf("as a slice: %v, by %s: %v", werr, c.Kind, gerr)
	}
	if d := ref.Diff(want, got); d != "" {
		return core.Errf("by %s: %s", c.Kind, d)
	}
	mw, me := c.In.want(c.Opt, time.UTC)
	return compare(mw, me, got, gerr)
}

// Broken is an input whose delivery fails at every position.
type Broken struct {
	In    Input   `json:"in"`
	Opt   ref.Opt `json:"opt"`
	Sizes []int   `json:"sizes"`
	Err   int     `json:"err"`
	With  bool    `json:"with"` // the error comes together with the last data
	Once  bool    `json:"once"` // it is reported once
}

type ownError struct{ n int }

func (e *ownError) Error() string { return "own error" }

var readErrors = []error{errors.New("boom"), io.ErrUnexpectedEOF, io.ErrClosedPipe, stdctx.DeadlineExceeded, os.ErrClosed, &ownError{1}, io.ErrNoProgress}

func checkBroken(c Broken, x *core.X) error {
	data := c.In.octets()
	end := readErrors[c.Err]
	x.NonTrivial()
	x.Label("%v", end)
	step := 1
	if len(data) > 150 {
		step = len(data)/75 + 1
	}
	var at []int
	for k := 0; k <= len(data); k += step {
		at = append(at, k)
	}
	for k := len(data); k > len(data)-4 && k >= 0; k-- {
		at = append(at, k)
	}
	for _, k := range at {
		for _, a := range []bool{true, false} {
			o := c.Opt
			o.Armor = a
			got, err := dumpReader(&pieces{b: data[:k], sizes: c.Sizes, end: end, with: c.With, once: c.Once}, cxtOf(o))
			if err == nil {
				return core.Errf("armor-only %v: reading fails (%v) after %d of %d octets, but %d packets are listed without an error", a, end, k, len(data), len(got))
			}
			if !errors.Is(err, end) {
				return core.Errf("armor-only %v: reading fails (%v) after %d of %d octets, but the dump says: %v", a, end, k, len(data), err)
			}
		}
	}
	return nil
}

func init() {
	p := core.Property("C17", "a case is a history of up to 20 steps over up to 3 inputs and 3 contexts (parsers made early and run late, finished parsers run again, returned listings overwritten by the caller), or up to 4 inputs dumped up to 4100 times each (failing ones, parsers never run) and then another one, or up to 12 dumps at the same time under the race detector; every dump is compared with what the reference model says for it alone; non-trivial if at least two dumps ran",
		"the race detector watches the parallel runs; goroutine schedules are those of the Go scheduler")
	core.Add(p, core.Spec[History]{Name: "history", Quick: 40000, Gen: genHistory, Check: checkHistory})
	core.Add(p, core.Spec[Repeat]{Name: "repeat", Quick: 600, Gen: genRepeat, Check: checkRepeat})
	core.Add(p, core.Spec[Parallel]{Name: "parallel", Quick: 1500, Race: true, Gen: genParallel, Check: checkParallel})

	p = core.Property("C18", "a case is an input (binary, armored, damaged) with a way of delivery (pieces of any size, empty reads, end with data, file, pipe), compared with the same octets as a slice; or a reader that fails with one of 7 errors at every position (sampled beyond 150 octets), with or after the last data, in both armor modes; non-trivial if the input is not empty (or always, for failures)",
		"at most three empty reads in a row, as bufio allows")
	core.Add(p, core.Spec[Delivery]{Name: "delivery", Quick: 60000, Gen: genDelivery, Check: checkDelivery})
	core.Add(p, core.Spec[Huge]{Name: "huge", Quick: 32, Gen: genHuge(false, true, 40<<20), Check: checkHuge})
	core.Add(p, core.Spec[Broken]{Name: "failure", Quick: 6000, Check: checkBroken, Gen: func(t *rapid.T) Broken {
		return Broken{In: genInput(t), Opt: genOpt(t), Sizes: genSizes(t), Err: gen.Pick(t, len(readErrors)), With: gen.Chance(t, 2), Once: gen.Chance(t, 2)}
	}})
}
