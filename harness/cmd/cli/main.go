// Command cli decides the property of the command line (facade, main).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	_ "time/tzdata"

	"verif/harness/app"
	"verif/harness/core"
	"verif/harness/gen"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"pgregory.net/rapid"
)

func main() { core.Main() }

// Flag is one use of a flag.
type Flag struct {
	Opt  string `json:"opt"`
	Form int    `json:"form"` // 0 --long, 1 -s, 2 --long=true, 3 --long=false, 4 -s=false, 5 -s joined to the flag before, 6 --long=1, 7 --long=0; valued: 0 --long v, 2 --long=v, 1 -s v, 3 -sv, 5 joined
	Val  string `json:"val,omitempty"`
}

// Inv is one invocation.
type Inv struct {
	Kind   string `json:"kind"` // dump, version, help, completion, usage, sub
	Flags  []Flag `json:"flags,omitempty"`
	Extra  string `json:"extra,omitempty"` // argument of the kind
	Input  core.B `json:"input"`
	Where  string `json:"where"`          // stdin, file, missing, dir, emptyfile
	Path   string `json:"path,omitempty"` // name of the file
	Chunk  int    `json:"chunk,omitempty"`
	RErr   int    `json:"rerr,omitempty"` // reading fails after this many octets (-1: never)
	WErr   int    `json:"werr,omitempty"` // writing fails after this many octets (-1: never)
	Zone   string `json:"zone,omitempty"`
	NoClip bool   `json:"noclip,omitempty"` // there is no program that gives the clipboard
}

var short = map[string]string{"json": "j", "armor": "a", "cert": "c", "int": "i", "literal": "l", "marker": "m", "private": "p", "utc": "u", "file": "f", "version": "v"}

var bools = []string{"json", "json", "armor", "cert", "debug", "int", "literal", "marker", "private", "utc", "utc"}

func off(f int) bool { return f == 3 || f == 4 || f == 7 }

// args writes the flags.
func args(fs []Flag) (out []string) {
	joinable := false
	for _, f := range fs {
		s, valued := short[f.Opt], f.Opt == "file" || f.Opt == "indent"
		form := f.Form
		if s == "" && (form == 1 || form == 4 || form == 5 || valued && form == 3) { // no short form
			form = map[int]int{1: 0, 4: 3, 5: 0, 3: 2}[form]
		}
		if form == 5 && !joinable {
			form = 1
		}
		j := false
		switch {
		case valued && form == 0:
			out = append(out, "--"+f.Opt, f.Val)
		case valued && form == 1:
			out = append(out, "-"+s, f.Val)
		case valued && form == 3 && f.Val != "":
			out = append(out, "-"+s+f.Val)
		case valued && form == 5:
			out[len(out)-1] += s
			out = append(out, f.Val)
		case valued:
			out = append(out, "--"+f.Opt+"="+f.Val)
		case form == 0:
			out = append(out, "--"+f.Opt)
		case form == 1:
			out = append(out, "-"+s)
			j = true
		case form == 2:
			out = append(out, "--"+f.Opt+"=true")
		case form == 3:
			out = append(out, "--"+f.Opt+"=false")
		case form == 4:
			out = append(out, "-"+s+"=false")
		case form == 5:
			out[len(out)-1] += s
			j = true
		case form == 6:
			out = append(out, "--"+f.Opt+"=1")
		default:
			out = append(out, "--"+f.Opt+"=0")
		}
		joinable = j
	}
	return
}

func genInput(t *rapid.T) []byte {
	data := gen.Stream(t, gen.Cfg{Min: 0, Max: 4, Depth: 1, Evil: gen.Chance(t, 10), Long: true}).Encode()
	if gen.Chance(t, 300) { // larger than any buffer on the way
		big := gen.Pkt{Tag: 11, Body: append([]byte{'b', 0, 0, 0, 0, 1}, gen.Fill(t, gen.Of(t, 4096, 32768, 65536, 1<<20, 1<<20+1))...), Enc: gen.Enc{Kind: "new5"}}
		data = append(big.Encode(), data...)
	}
	switch gen.Pick(t, 7) {
	case 0:
		return gen.Octets(t)
	case 1:
		return gen.Damage(t, data)
	case 2, 3:
		return gen.DrawArmor(t, true).Text(data)
	}
	return data
}

var zones = []string{"", "UTC", "Asia/Tokyo", "America/New_York", "Asia/Kolkata"}

// plainInv draws an invocation that dumps something.
func plainInv(t *rapid.T) Inv { return drawInv(t, false, true) }

func genInv(bin bool) func(*rapid.T) Inv {
	return func(t *rapid.T) Inv { return drawInv(t, bin, false) }
}

func drawInv(t *rapid.T, bin, plain bool) Inv {
	v := Inv{Kind: "dump", RErr: -1, WErr: -1, Where: "stdin", Zone: gen.Of(t, zones...)}
	v.Input = genInput(t)
	for n := gen.Of(t, 0, 1, 1, 2, 3, 4, 6, 9); n > 0; n-- {
		v.Flags = append(v.Flags, Flag{Opt: gen.Of(t, bools...), Form: gen.Of(t, 0, 1, 1, 5, 5, 0, 2, 3, 4, 6, 7)})
	}
	at := func(f Flag) {
		i := gen.Pick(t, len(v.Flags)+1)
		v.Flags = append(v.Flags[:i], append([]Flag{f}, v.Flags[i:]...)...)
	}
	for n := gen.Of(t, 0, 0, 1, 1, 2); n > 0; n-- {
		at(Flag{Opt: "indent", Form: gen.Of(t, 0, 2), Val: gen.Of(t, "0", "1", "2", "3", "4", "8", "17", "-1", "-4", "0x4", "010", "33", "65", "100", "257", "1000")})
	}
	switch gen.Pick(t, 12) {
	case 0, 1, 2, 3:
		v.Where = "file"
	case 4:
		v.Where = gen.Of(t, "missing", "dir", "emptyfile")
	case 5:
		v.Where = gen.Of(t, "fifo", "link")
	}
	if v.Where != "stdin" {
		v.Path = gen.Of(t, "in.gpg", "a b.asc", "鍵.gpg", "-x", "deep/er.gpg", "=.gpg", "no-ext", "x=y", "#1", "-", " in.gpg", "in.gpg ", " ", ".gpg", "~", "a,b", "\"q\"", "a\tb", "in.gpg.gz", "%s", "./x.gpg", "IN.GPG", "x", "$HOME.gpg", "${PATH}", "key$1", "a*b", "?", "[a]", "~x", "a;b", "a&b", "|", "!", "x\\y", "..gpg", "file:in", "a%20b", strings.Repeat("n", 200))
		f := Flag{Opt: "file", Form: gen.Of(t, 0, 1, 2, 3, 5)}
		if strings.HasPrefix(v.Path, "=") && (f.Form == 3 || f.Form == 5) { // -f=x means x
			f.Form = 0
		}
		at(f)
		if gen.Chance(t, 8) {
			v.Path = "/" + v.Path // absolute
		}
	}
	v.Chunk = gen.Of(t, 0, 0, 1, 3, 100)
	if len(v.Input) > 5000 && v.Chunk > 0 {
		v.Chunk = 1000
	}
	if !bin && v.Where == "stdin" && gen.Chance(t, 15) {
		v.RErr = gen.Pick(t, len(v.Input)+1)
	}
	if !plain && gen.Chance(t, 15) {
		v.WErr = gen.Of(t, 0, 1, 10, 100)
		if bin {
			v.WErr = 0 // a full device
		}
	}
	if plain {
		return v
	}
	switch gen.Pick(t, 14) {
	case 0:
		v.Kind = "version"
		at(Flag{Opt: "version", Form: gen.Of(t, 0, 1, 5, 2)})
	case 1:
		v.Kind, v.Extra = "usage", gen.Of(t, "--nosuch", "-z", "--indent=x", "--indent", "bogus", "--json=maybe", "-ju2", "file.gpg", "--jsonx", "--raw", "--keyid=1", "-j -Q")
	case 2:
		v.Kind, v.Extra = "help", gen.Of(t, "--help", "-h", "help", "help hkp", "hkp --help", "help version")
	case 3:
		v.Kind, v.Extra = "completion", gen.Of(t, "completion", "completion bash", "compl BASH", "cmp zsh", "completion fish", "completion powershell")
	case 4:
		v.Kind, v.Extra = "sub", gen.Of(t, "completion nosuch", "completion bash zsh", "hkp", "github", "fetch", "hkp a b", "fetch http://%zz/", "hkp --keyserver= a", "gh a b c", "f", "fetch :", "hkp --port=x a", "github --nosuch a")
	case 5:
		if gen.Chance(t, 2) {
			v.Kind, v.Extra = "version", gen.Of(t, "version", "ver", "v")
		}
	}
	if v.Kind != "dump" && v.Kind != "version" || v.Extra != "" { // only flags that sub-commands know
		var keep []Flag
		for _, f := range v.Flags {
			if f.Opt != "file" && f.Opt != "version" {
				keep = append(keep, f)
			}
		}
		v.Flags, v.Where, v.RErr, v.WErr = keep, "stdin", -1, -1
	}
	return v
}

var errIO = errors.New("input/output error")

// source hands out the input in pieces and may fail.
type source struct {
	b     []byte
	chunk int
	fail  bool
}

func (s *source) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		if s.fail {
			return 0, errIO
		}
		return 0, io.EOF
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}

type full struct {
	buf  bytes.Buffer
	left int
}

func (w *full) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.buf.Write(p[:n])
		w.left = 0
		return n, errIO
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

// model is what the flags say: the last use of a flag counts.
type model struct {
	on     map[string]bool
	indent int
}

func (v Inv) model() model {
	m := model{on: map[string]bool{}}
	for _, f := range v.Flags {
		switch f.Opt {
		case "file":
		case "indent":
			n, err := strconv.ParseInt(f.Val, 0, 64)
			if err != nil {
				panic("harness: " + err.Error())
			}
			m.indent = int(n)
		default:
			m.on[f.Opt] = !off(f.Form)
		}
	}
	return m
}

// listing is the rendered listing the library gives for the input.
func (v Inv) listing(r io.Reader, m model) ([]byte, error) {
	cxt := context.New(
		context.Set(context.ARMOR, m.on["armor"]),
		context.Set(context.CERT, m.on["cert"]),
		context.Set(context.DEBUG, m.on["debug"]),
		context.Set(context.INTEGER, m.on["int"]),
		context.Set(context.LITERAL, m.on["literal"]),
		context.Set(context.MARKER, m.on["marker"]),
		context.Set(context.PRIVATE, m.on["private"]),
		context.Set(context.UTC, m.on["utc"]),
	)
	p, err := parse.New(cxt, r)
	if err != nil {
		return nil, err
	}
	info, err := p.Parse()
	if err != nil {
		return nil, err
	}
	var out io.Reader
	switch {
	case m.on["json"]:
		out, err = info.JSON(m.indent)
		if err != nil {
			return nil, err
		}
	case m.indent > 0:
		out = info.ToString(strings.Repeat(" ", m.indent))
	default:
		out = info.ToString("\t")
	}
	return io.ReadAll(out)
}

// feed writes the input to a named pipe; the function it returns waits for that.
func feed(path string, b []byte) (func(), error) {
	if err := syscall.Mkfifo(path, 0o644); err != nil {
		return nil, err
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		f, err := os.OpenFile(path, os.O_WRONLY, 0) // waits for a reader
		if err != nil {
			return
		}
		_, _ = f.Write(b)
		_ = f.Close()
	}()
	return func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(5 * time.Millisecond): // nobody read: be the reader
				if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					select {
					case <-done:
					case <-time.After(20 * time.Millisecond):
					}
					_ = f.Close()
				}
			}
		}
	}, nil
}

// place puts the file of the invocation under dir and returns the arguments and what to do afterwards.
func (v Inv) place(dir string) ([]string, func(), error) {
	done := func() {}
	path := v.Path
	if strings.HasPrefix(path, "/") {
		path = filepath.Join(dir, path[1:])
	}
	full := path
	if !filepath.IsAbs(full) {
		full = filepath.Join(dir, path)
	}
	if v.Where != "stdin" {
		_ = os.RemoveAll(full)
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			return nil, nil, err
		}
	}
	var err error
	switch v.Where {
	case "fifo":
		done, err = feed(full, v.Input)
	case "link":
		_ = os.RemoveAll(filepath.Join(dir, "target"))
		if err = os.WriteFile(filepath.Join(dir, "target"), v.Input, 0o600); err == nil {
			err = os.Symlink(filepath.Join(dir, "target"), full)
		}
	case "file":
		err = os.WriteFile(full, v.Input, 0o644)
	case "emptyfile":
		err = os.WriteFile(full, nil, 0o644)
	case "dir":
		err = os.Mkdir(full, 0o755)
	}
	fs := append([]Flag{}, v.Flags...)
	for i := range fs {
		if fs[i].Opt == "file" {
			fs[i].Val = path
		}
	}
	a := args(fs)
	if v.Extra != "" {
		e := strings.Fields(v.Extra)
		if strings.HasPrefix(v.Extra, "-") {
			a = append(a, e...)
		} else { // flags before and after the sub-command
			h := len(a) / 2
			if h < len(a) && !strings.HasPrefix(a[h], "-") || h > 0 && (a[h-1] == "--indent") {
				h = 0
			}
			if v.Extra == "help" || strings.HasPrefix(v.Extra, "help ") {
				a = e
			} else {
				a = append(append(append([]string{}, a[:h]...), e...), a[h:]...)
			}
		}
	}
	return a, done, err
}

func zoneOf(z string) *time.Location {
	if z == "" {
		return time.UTC
	}
	l, err := time.LoadLocation(z)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return l
}

// judge compares what an invocation did with what it has to do.
func (v Inv) judge(o app.Out, wrote []byte, x *core.X) error {
	say := func(f string, a ...interface{}) error {
		return core.Errf("%s: exit %d, stdout %q, stderr %q", fmt.Sprintf(f, a...), o.Code, head(wrote), head(o.Stderr))
	}
	m := v.model()
	if o.Panicked() {
		return say("panic")
	}
	failure := func(why string) error {
		if m.on["debug"] && v.Kind != "usage" && !strings.Contains(v.Extra, "nosuch a") && !strings.Contains(v.Extra, "port=x") {
			x.Label("failure in debug mode")
			if strings.HasPrefix(v.Extra, "completion") && o.Code != 0 && len(o.Stderr) != 0 && len(wrote) == 0 {
				return nil // nothing was to be dumped: debug mode need not apply
			}
			if o.Code != 0 || len(wrote) == 0 && v.WErr < 0 {
				return say("%s must be described on standard output in debug mode", why)
			}
			return nil
		}
		if o.Code == 0 || len(o.Stderr) == 0 || len(wrote) != 0 {
			return say("%s must be a failure with a message and no output", why)
		}
		return nil
	}
	switch v.Kind {
	case "version":
		x.Label("version")
		if v.WErr >= 0 {
			return nil
		}
		if o.Code != 0 || len(wrote) != 0 || !bytes.Contains(o.Stderr, []byte("gpgpdump")) {
			return say("version")
		}
		return nil
	case "help":
		x.Label("help")
		if o.Code != 0 || len(wrote) != 0 || !bytes.Contains(o.Stderr, []byte("Usage:")) {
			return say("help")
		}
		return nil
	case "completion":
		x.Label("completion")
		if o.Code != 0 || !bytes.Contains(wrote, []byte("gpgpdump")) || len(o.Stderr) != 0 {
			return say("completion")
		}
		return nil
	case "usage", "sub":
		x.Label("bad usage")
		return failure("bad usage")
	}
	var src io.Reader
	switch v.Where {
	case "missing", "dir":
		x.Label("no file")
		return failure("no file")
	case "emptyfile":
		src = bytes.NewReader(nil)
	default:
		b := []byte(v.Input)
		if v.RErr >= 0 {
			b = b[:v.RErr]
		}
		src = &source{b: b, chunk: v.Chunk, fail: v.RErr >= 0}
	}
	want, err := v.listing(src, m)
	if err != nil {
		x.Label("dump fails")
		return failure("the dump (" + err.Error() + ")")
	}
	if v.WErr >= 0 && v.WErr < len(want) {
		x.Label("output cannot be written")
		if m.on["debug"] {
			return nil
		}
		if o.Code == 0 || len(o.Stderr) == 0 || !bytes.HasPrefix(want, wrote) {
			return say("the output could not be written")
		}
		return nil
	}
	x.Label("listing from %s, json %v", v.Where, m.on["json"])
	if len(want) > 0 {
		x.NonTrivial()
	}
	if o.Code != 0 || !bytes.Equal(wrote, want) || len(o.Stderr) != 0 {
		return say("the listing is %q", head(want))
	}
	return nil
}

func head(b []byte) string {
	if len(b) > 1500 {
		return string(b[:1500]) + "..."
	}
	return string(b)
}

func checkSeq(judge func(Inv, app.Out, []byte, *core.X) error) func([]Inv, *core.X) error {
	return func(c []Inv, x *core.X) error { return runSeq(judge, c, x) }
}

func runSeq(judge func(Inv, app.Out, []byte, *core.X) error, c []Inv, x *core.X) error {
	old := time.Local
	defer func() { time.Local = old }()
	wd, err := os.Getwd()
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer func() { _ = os.Chdir(wd) }()
	dir := filepath.Join(x.Scratch, "seq")
	for i, v := range c {
		err := os.MkdirAll(dir, 0o755)
		if err == nil {
			err = os.Chdir(dir)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		a, done, err := v.place(dir)
		if err != nil {
			panic("harness: " + err.Error())
		}
		time.Local = zoneOf(v.Zone)
		var in io.Reader = &source{b: v.Input, chunk: v.Chunk}
		if v.RErr >= 0 {
			in = &source{b: v.Input[:v.RErr], chunk: v.Chunk, fail: true}
		}
		if v.Where != "stdin" {
			in = strings.NewReader("this is not the input")
		}
		w := &full{left: 1 << 40}
		if v.WErr >= 0 {
			w.left = v.WErr
		}
		o := app.RunTo(a, in, w)
		done()
		if err := judge(v, o, w.buf.Bytes(), x); err != nil {
			return core.Errf("invocation %d %q: %v", i, a, err)
		}
		if v.Path != "" {
			_ = os.RemoveAll(dir)
		}
	}
	x.Label("invocations %d", len(c))
	return nil
}

func genSeq(t *rapid.T) (out []Inv) {
	for n := gen.Of(t, 1, 1, 2, 3, 5); n > 0; n-- {
		out = append(out, genInv(false)(t))
	}
	return
}

func checkBin(v Inv, x *core.X) error {
	if x.Bin == "" {
		panic("harness: no binary")
	}
	dir, err := os.MkdirTemp(x.Scratch, "bin")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	a, done, err := v.place(dir)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer done()
	var in io.Reader = &source{b: v.Input, chunk: v.Chunk}
	if v.Where != "stdin" {
		in = strings.NewReader("this is not the input")
	}
	zone := v.Zone
	if zone == "" {
		zone = "UTC"
	}
	old := time.Local
	time.Local = zoneOf(v.Zone)
	defer func() { time.Local = old }()
	if v.WErr >= 0 {
		o, err := app.ExecTo("/dev/full", x.Bin, a, in, dir, "TZ="+zone)
		if err != nil {
			panic("harness: " + err.Error())
		}
		if err := v.judge(o, nil, x); err != nil {
			return core.Errf("binary with a full device %q: %v", a, err)
		}
		return nil
	}
	o, err := app.Exec(x.Bin, a, in, dir, "TZ="+zone)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := v.judge(o, o.Stdout, x); err != nil {
		return core.Errf("binary %q: %v", a, err)
	}
	return nil
}

// checkClip gives the input by the clipboard: a stand-in for xclip prints it.
func checkClip(v Inv, x *core.X) error {
	return clip(v, x, func(o app.Out, a []string) error {
		w := v
		w.Flags = append(append([]Flag{}, v.Flags...), Flag{Opt: "armor"})
		w.Zone = "UTC"
		if v.Where != "stdin" || v.NoClip {
			w.Where = "missing"
		}
		if err := w.judge(o, o.Stdout, x); err != nil {
			return core.Errf("clipboard %q: %v", a, err)
		}
		return nil
	})
}

func clip(v Inv, x *core.X, judge func(app.Out, []string) error) error {
	dir, err := os.MkdirTemp(x.Scratch, "clip")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	a, done, err := v.place(dir)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer done()
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "clip"), v.Input, 0o644)
	}
	if err == nil {
		err = os.MkdirAll(filepath.Join(dir, "path"), 0o755)
	}
	if err == nil && !v.NoClip {
		err = os.WriteFile(filepath.Join(dir, "path", "xclip"), []byte("#!/bin/sh\nexec /bin/cat '"+filepath.Join(dir, "clip")+"'\n"), 0o755)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	old := time.Local
	time.Local = zoneOf("UTC")
	defer func() { time.Local = old }()
	o, err := app.Exec(x.Bin, a, strings.NewReader("this is not the input"), dir, "TZ=UTC", "PATH="+filepath.Join(dir, "path"), "WAYLAND_DISPLAY=", "DISPLAY=:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return judge(o, a)
}

func genClip(t *rapid.T) Inv {
	v := genInv(true)(t)
	if v.Kind != "dump" {
		v.Kind, v.Extra = "dump", ""
	}
	v.WErr, v.RErr, v.Chunk = -1, -1, 0
	if gen.Chance(t, 2) {
		v.Input = gen.DrawArmor(t, true).Text(gen.Stream(t, gen.Cfg{Min: 1, Max: 3, Depth: 1}).Encode())
	}
	keep := []Flag{}
	for _, f := range v.Flags {
		if f.Opt != "version" && (f.Opt != "file" || v.Where == "file") {
			keep = append(keep, f)
		}
	}
	if v.Where != "file" {
		v.Where, v.Path = "stdin", ""
	}
	v.Flags = append([]Flag{{Opt: "clipboard", Form: gen.Of(t, 0, 2)}}, keep...)
	if gen.Chance(t, 10) {
		v.NoClip = true
	}
	return v
}

// same asks only that the listing, or the lack of one, is what the library gives.
func (v Inv) same(o app.Out, wrote []byte, x *core.X) error {
	if v.Where == "missing" || v.Where == "dir" {
		if o.Code == 0 && !v.model().on["debug"] {
			return core.Errf("no file, but exit 0 and stdout %q", head(wrote))
		}
		return nil
	}
	b := []byte(v.Input)
	if v.Where == "emptyfile" {
		b = nil
	}
	if v.RErr >= 0 {
		b = b[:v.RErr]
	}
	want, err := v.listing(&source{b: b, fail: v.RErr >= 0}, v.model())
	if err != nil {
		x.Label("no listing")
		if o.Code == 0 && !v.model().on["debug"] {
			return core.Errf("the dump fails (%v), but exit 0 and stdout %q", err, head(wrote))
		}
		return nil
	}
	x.Label("listing from %s", v.Where)
	if len(want) > 0 {
		x.NonTrivial()
	}
	if o.Code != 0 || !bytes.Equal(want, wrote) {
		return core.Errf("the listing is %q, but exit %d, stdout %q, stderr %q", head(want), o.Code, head(wrote), head(o.Stderr))
	}
	return nil
}

func (v Inv) calm(o app.Out, wrote []byte, x *core.X) error {
	if o.Panicked() || o.Code != 0 && o.Code != 1 {
		return core.Errf("exit %d, stderr %q", o.Code, head(o.Stderr))
	}
	x.Label("exit %d", o.Code)
	if len(v.Input) > 0 {
		x.NonTrivial()
	}
	return nil
}

// hugeIndentInv asks for an indent no memory can hold.
func hugeIndentInv(t *rapid.T) Inv {
	v := plainInv(t)
	v.Flags = append(v.Flags, Flag{Opt: "indent", Form: gen.Of(t, 0, 2), Val: gen.Of(t, "9223372036854775807", "4611686018427387904", "0x7000000000000000")})
	return v
}

// unrendered: a listing that cannot be rendered is a failure like any other.
func (v Inv) unrendered(o app.Out, wrote []byte, x *core.X) error {
	x.NonTrivial()
	if v.model().on["debug"] && o.Code == 0 && len(wrote) > 0 && !bytes.Contains(wrote, []byte(" (tag ")) {
		return nil
	}
	if o.Code == 0 || len(o.Stderr) == 0 || len(wrote) != 0 {
		return core.Errf("an indent that cannot be rendered: exit %d, stdout %q, stderr %q", o.Code, head(wrote), head(o.Stderr))
	}
	return nil
}

func evilInv(t *rapid.T) Inv {
	v := plainInv(t)
	v.RErr = -1
	if gen.Chance(t, 2) {
		v.Input = gen.Stream(t, gen.Cfg{Min: 1, Max: 3, Depth: 2, Evil: true}).Encode()
	}
	return v
}

// armorInv asks for armored text.
func armorInv(t *rapid.T) Inv {
	v := plainInv(t)
	v.RErr = -1
	f := Flag{Opt: "armor", Form: gen.Of(t, 0, 1, 2, 5, 6)}
	i := gen.Pick(t, len(v.Flags)+1)
	v.Flags = append(v.Flags[:i], append([]Flag{f}, v.Flags[i:]...)...)
	data := gen.Stream(t, gen.Cfg{Min: 1, Max: 3, Depth: 1}).Encode()
	switch gen.Pick(t, 4) {
	case 0:
		v.Input = data
	case 1:
		v.Input = gen.DrawArmor(t, true).Text(data)
		if len(v.Input) > 0 {
			v.Input = gen.Damage(t, v.Input)
		}
	case 2:
		v.Input = gen.DrawArmor(t, true).Text(data)
	}
	return v
}

// armored: with the flag, what is no armored text gives no listing, whatever the other flags are.
func (v Inv) armored(o app.Out, wrote []byte, x *core.X) error {
	m := v.model()
	if v.Where == "missing" || v.Where == "dir" || v.Where == "emptyfile" || !m.on["armor"] {
		return nil
	}
	if _, err := v.listing(bytes.NewReader(v.Input), m); err == nil && bytes.Contains(v.Input, []byte("-----BEGIN PGP")) {
		return v.same(o, wrote, x)
	}
	x.Label("not armored, debug %v", m.on["debug"])
	x.NonTrivial()
	if o.Code == 0 && !m.on["debug"] || bytes.Contains(wrote, []byte(" (tag ")) || bytes.Contains(wrote, []byte("\"Packet\"")) {
		return core.Errf("the input is no armored text, but exit %d, stdout %q", o.Code, head(wrote))
	}
	return nil
}

// checkClipArmor: the clipboard holds armored text only.
func checkClipArmor(v Inv, x *core.X) error {
	if v.Where != "stdin" || v.NoClip || bytes.Contains(v.Input, []byte("-----BEGIN PGP")) {
		return nil
	}
	x.NonTrivial()
	return clip(v, x, func(o app.Out, a []string) error {
		debug := v.model().on["debug"] // prints the failure
		if o.Code == 0 && !debug || len(o.Stdout) != 0 && (!debug || bytes.Contains(o.Stdout, []byte(" (tag ")) || bytes.Contains(o.Stdout, []byte("\"Packet\""))) {
			return core.Errf("clipboard without armor %q: exit %d, stdout %q", a, o.Code, head(o.Stdout))
		}
		return nil
	})
}

func init() {
	p := core.Property("C22", "at least one invocation printed a non-empty listing",
		"the clipboard is a stand-in program that prints the text", "flags and inputs are those of the documented command line; invocations of one process follow one another")
	core.Add(p, core.Spec[[]Inv]{Name: "sequence", Quick: 60000, Thorough: 1000000, Gen: genSeq, Check: checkSeq(Inv.judge)})
	core.Add(p, core.Spec[[]Inv]{Name: "indent", Quick: 2000, Thorough: 20000, Check: checkSeq(Inv.unrendered), Gen: func(t *rapid.T) []Inv { return []Inv{hugeIndentInv(t)} }})
	core.Add(p, core.Spec[Inv]{Name: "binary", Quick: 2000, Thorough: 30000, Gen: genInv(true), Check: checkBin})
	core.Add(p, core.Spec[Inv]{Name: "clipboard", Quick: 300, Thorough: 4000, Gen: genClip, Check: checkClip})

	// parts of other properties that concern the command line
	one := func(g func(*rapid.T) Inv) func(*rapid.T) []Inv {
		return func(t *rapid.T) []Inv { return []Inv{g(t)} }
	}
	p = core.Property("C01", "command line: a non-empty input")
	core.Add(p, core.Spec[[]Inv]{Name: "command", Quick: 30000, Thorough: 600000, Gen: one(evilInv), Check: checkSeq(Inv.calm)})
	p = core.Property("C06", "clipboard: an input without armor")
	core.Add(p, core.Spec[Inv]{Name: "clipboard", Quick: 300, Thorough: 3000, Gen: genClip, Check: checkClipArmor})
	core.Add(p, core.Spec[[]Inv]{Name: "flag", Quick: 20000, Thorough: 300000, Gen: one(armorInv), Check: checkSeq(Inv.armored)})
	for _, id := range []string{"C14", "C16", "C18"} {
		p = core.Property(id, "command line: a non-empty listing was printed")
		core.Add(p, core.Spec[[]Inv]{Name: "command", Quick: 20000, Thorough: 300000, Gen: one(plainInv), Check: checkSeq(Inv.same)})
	}
	p = core.Property("C17", "command line: a non-empty listing was printed")
	core.Add(p, core.Spec[[]Inv]{Name: "commands", Quick: 15000, Thorough: 300000, Check: checkSeq(Inv.same), Gen: func(t *rapid.T) (out []Inv) {
		for n := gen.Range(t, 2, 6); n > 0; n-- {
			v := plainInv(t)
			if len(out) > 0 && gen.Chance(t, 2) { // the same input again with other flags
				v.Input = out[len(out)-1].Input
				v.RErr = -1
			}
			out = append(out, v)
		}
		return
	}})
}
