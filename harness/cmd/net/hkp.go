package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"verif/harness/app"
	"verif/harness/core"
	"verif/harness/gen"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
	"pgregory.net/rapid"
)

// Text is a string of any octets, kept readable in case files when it is plain.
type Text = core.B

// HKP is a request to a key server.
type HKP struct {
	Host   string `json:"host"`
	Port   int    `json:"port,omitempty"` // 0: not given
	Secure bool   `json:"secure,omitempty"`
	Prot   bool   `json:"prot,omitempty"` // protocol given
	Search Text   `json:"search"`
	Resp   Resp   `json:"resp"`
	Cancel bool   `json:"cancel,omitempty"`
	Twice  bool   `json:"twice,omitempty"` // use the same server value again
}

var hosts = []string{"keys.gnupg.net", "localhost", "127.0.0.1", "[::1]", "[2001:db8::2]", "a.b.c.example", "xn--wgv71a.example", "keys-1.example", "keyserver"}

func genHKP(t *rapid.T) HKP {
	c := HKP{Host: gen.Of(t, hosts...), Search: Text(text(t)), Secure: gen.Chance(t, 3)}
	c.Prot = c.Secure || gen.Chance(t, 2)
	if !gen.Chance(t, 4) {
		c.Port = portOf(t)
	}
	c.Resp.Body = genBody(t)
	genFault(t, &c.Resp)
	c.Cancel = gen.Chance(t, 12)
	c.Twice = gen.Chance(t, 4)
	return c
}

// lookup compares a request with what the key server has to be asked.
func lookup(s []Seen, secure bool, host string, port int, search string) error {
	if len(s) != 1 {
		return core.Errf("%d requests: %+v", len(s), s)
	}
	r := s[0]
	scheme := "http"
	def := 80
	if secure {
		scheme, def = "https", 443
	}
	full := host + ":" + strconv.Itoa(port)
	if r.Method != "GET" || r.Scheme != scheme || r.Addr != full {
		return core.Errf("%s request over %s to %s, want GET over %s to %s", r.Method, r.Scheme, r.Addr, scheme, full)
	}
	if r.Host != full && !(port == def && r.Host == host) {
		return core.Errf("host header %q, want %q", r.Host, full)
	}
	path, query, _ := strings.Cut(r.URI, "?")
	if path != "/pks/lookup" {
		return core.Errf("path %q", path)
	}
	return form(query, map[string]string{"op": "get", "search": search})
}

// form decodes a query by hand: it has to be exactly the given fields.
func form(query string, want map[string]string) error {
	got := map[string]string{}
	for _, f := range strings.Split(query, "&") {
		k, v, _ := strings.Cut(f, "=")
		k, err1 := url.QueryUnescape(k)
		v, err2 := url.QueryUnescape(v)
		if _, dup := got[k]; dup || err1 != nil || err2 != nil || strings.ContainsAny(f, " ;#") {
			return core.Errf("query %q", query)
		}
		got[k] = v
	}
	if len(got) != len(want) {
		return core.Errf("query %q has the fields %v, want %v", query, got, want)
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return core.Errf("query %q says %s=%q, want %q", query, k, g, v)
		}
	}
	return nil
}

func checkHKP(c HKP, x *core.X) error {
	var opts []hkp.ServerOptFunc
	port := 11371
	if c.Port != 0 {
		port = c.Port
		opts = append(opts, hkp.WithPort(c.Port))
	}
	if c.Prot {
		p := hkp.HKP
		if c.Secure {
			p = hkp.HKPS
		}
		opts = append(opts, hkp.WithProtocol(p))
	}
	sv := hkp.New(c.Host, opts...)
	scheme := map[bool]string{false: "http", true: "https"}[c.Secure]
	base := fmt.Sprintf("%s://%s:%d", scheme, c.Host, port)
	rounds := 1
	if c.Twice {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if c.Cancel {
			cancel()
		}
		var body []byte
		var err, berr error
		search := string(c.Search)
		if k == 1 {
			search += "2"
		}
		seen := with(c.Resp.Fault == "dial", func(*http.Request, Seen) Resp { return c.Resp }, func() {
			var r io.ReadCloser
			r, err = sv.Fetch(ctx, fetch.New(), search)
			if err == nil {
				if r == nil {
					berr = errors.New("no body")
					return
				}
				body, berr = io.ReadAll(r)
				if e := r.Close(); e != nil {
					berr = e
				}
			}
		})
		if sv.String() != base {
			return core.Errf("the server is called %q, want %q", sv.String(), base)
		}
		if c.Cancel {
			if err == nil && berr == nil {
				return core.Errf("the context was cancelled, but there is no error")
			}
			continue
		}
		if c.Resp.Fault != "dial" {
			if e := lookup(seen, c.Secure, c.Host, port, search); e != nil {
				return e
			}
		}
		if c.Resp.ok() {
			if err != nil || berr != nil || !bytes.Equal(body, c.Resp.Body) {
				return core.Errf("body %q, errors %v, %v; the server sent %q", body, err, berr, []byte(c.Resp.Body))
			}
		} else if err == nil && berr == nil {
			return core.Errf("status %d, fault %q, but no error; body %q", c.Resp.Status, c.Resp.Fault, body)
		}
	}
	x.Label("fault %q, error status %v", c.Resp.Fault, c.Resp.Status >= 400)
	if len(c.Search) > 0 && url.QueryEscape(string(c.Search)) != string(c.Search) {
		x.Label("search text needs escapes")
		x.NonTrivial()
	}
	return nil
}

// Cmd is one network dump by command line.
type Cmd struct {
	Sub    string   `json:"sub"` // hkp, fetch, github
	Name   string   `json:"name"`
	Pre    []string `json:"pre,omitempty"`   // flags before the sub-command
	Post   []string `json:"post,omitempty"`  // flags after it
	After  bool     `json:"after,omitempty"` // flags after the argument
	Host   string   `json:"host,omitempty"`
	User   string   `json:"user,omitempty"` // user information of the URL
	Port   int      `json:"port,omitempty"`
	Secure bool     `json:"secure,omitempty"`
	Eq     bool     `json:"eq,omitempty"` // --flag=value
	Raw    bool     `json:"raw,omitempty"`
	Arg    Text     `json:"arg"`
	Args   int      `json:"args"` // number of arguments
	Resp   Resp     `json:"resp"`
	KeyID  string   `json:"keyid,omitempty"`
	Debug  bool     `json:"debug,omitempty"`  // --debug
	NoHost bool     `json:"nohost,omitempty"` // --keyserver with an empty value
	Hops   int      `json:"hops,omitempty"`   // redirects before the answer
	Moved  int      `json:"moved,omitempty"`  // their status
	Keys   []Key    `json:"keys,omitempty"`
}

// dumpFlags draws options of the dump; each is given once.
func dumpFlags(t *rapid.T) (out []string) {
	for _, f := range [][]string{{"-j", "--json"}, {"-c", "--cert"}, {"-i", "--int"}, {"-l", "--literal"}, {"-m", "--marker"}, {"-p", "--private"}, {"-u", "--utc"}, {"-a", "--armor"}} {
		if gen.Chance(t, 4) {
			out = append(out, gen.Of(t, f...))
		} else if gen.Chance(t, 12) {
			out = append(out, f[1]+"=false")
		}
	}
	if gen.Chance(t, 4) {
		out = append(out, fmt.Sprintf("--indent=%d", gen.Of(t, 0, 1, 2, 4, 8)))
	}
	return
}

func genCmd(sub string) func(*rapid.T) Cmd {
	return func(t *rapid.T) Cmd {
		c := Cmd{Sub: sub, Args: gen.Of(t, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 2), Raw: gen.Chance(t, 4), Eq: gen.Chance(t, 2), After: gen.Chance(t, 3)}
		for _, f := range dumpFlags(t) {
			if gen.Chance(t, 3) {
				c.Pre = append(c.Pre, f)
			} else {
				c.Post = append(c.Post, f)
			}
		}
		c.Resp.Body = genBody(t)
		genFault(t, &c.Resp)
		c.Debug = gen.Chance(t, 6)
		if sub != "github" && gen.Chance(t, 8) {
			c.Hops, c.Moved = gen.Of(t, 1, 1, 2, 3, 5, 30), gen.Of(t, 301, 302, 303, 307, 308)
		}
		switch sub {
		case "hkp":
			c.Name = gen.Of(t, "hkp", "hkp", "h")
			c.Arg = Text(text(t))
			if gen.Chance(t, 2) {
				c.Host = gen.Of(t, hosts...)
			}
			if gen.Chance(t, 2) {
				c.Port = portOf(t)
			}
			c.Secure = gen.Chance(t, 3)
			c.NoHost = gen.Chance(t, 30)
		case "fetch":
			c.Name = gen.Of(t, "fetch", "fetch", "fch", "f")
			c.Secure = gen.Chance(t, 2)
			c.Host = gen.Of(t, hosts...)
			if gen.Chance(t, 2) {
				c.Port = portOf(t)
			}
			c.Arg = Text(uri(t))
			if gen.Chance(t, 6) {
				c.User = gen.Of(t, "alice:secret", "alice", "a%40b:p%3Aw%2F", "bob:", ":pw", "u:%E6%97%A5")
			}
		}
		return c
	}
}

// uri draws a path and query that have only one way to be written.
func uri(t *rapid.T) string {
	s := ""
	for i := gen.Range(t, 0, 4); i > 0; i-- {
		s += "/" + gen.Of(t, "keys", "alice.gpg", "a%20b", "x~y", "%E6%97%A5", "k%2Fz", "a+b", "k=v", "p,q;r", "@me", "dir.", "a:b", "1!$&'()*", "", "%25", "UPPER")
	}
	if gen.Chance(t, 2) {
		s += "?" + gen.Of(t, "a=b", "op=get&search=0x12", "q=%26", "x", "a=b&a=c", "z=%20+", "p=/?:@", "b=2&a=1")
	}
	return s
}

func (c Cmd) line() []string {
	a := append([]string{}, c.Pre...)
	a = append(a, c.Name)
	post := append([]string{}, c.Post...)
	val := func(f, v string) {
		if c.Eq {
			post = append(post, f+"="+v)
		} else {
			post = append(post, f, v)
		}
	}
	if c.Sub == "hkp" {
		if c.Host != "" && !c.NoHost {
			val("--keyserver", c.Host)
		}
		if c.Port != 0 {
			val("--port", strconv.Itoa(c.Port))
		}
		if c.Secure {
			post = append(post, "--secure")
		}
	}
	if c.NoHost {
		val("--keyserver", "")
	}
	if c.Debug {
		post = append(post, "--debug")
	}
	if c.KeyID != "" {
		val("--keyid", c.KeyID)
	}
	if c.Raw {
		post = append(post, "--raw")
	}
	var args []string
	for i := 0; i < c.Args; i++ {
		args = append(args, c.arg())
	}
	switch {
	case len(args) > 0 && strings.HasPrefix(args[0], "-"):
		a = append(append(append(a, post...), "--"), args...)
	case c.After:
		a = append(append(a, args...), post...)
	default:
		a = append(append(a, post...), args...)
	}
	return a
}

func (c Cmd) scheme() string {
	if c.Secure {
		return "https"
	}
	return "http"
}

func (c Cmd) arg() string {
	if c.Sub == "fetch" {
		s := c.scheme() + "://"
		if c.User != "" {
			s += c.User + "@"
		}
		s += c.Host
		if c.Port != 0 {
			s += ":" + strconv.Itoa(c.Port)
		}
		return s + string(c.Arg)
	}
	return string(c.Arg)
}

func (c Cmd) dump() []string {
	a := append(append([]string{}, c.Pre...), c.Post...)
	if c.Sub != "fetch" {
		a = append(a, "--armor")
	}
	return a
}

// failed judges what a command that has to fail did: in debug mode the failure is described on standard output.
func (c Cmd) failed(o app.Out) error {
	if c.Debug && o.Code == 0 && len(o.Stdout) > 0 && len(o.Stderr) == 0 && (c.Raw || !bytes.Contains(o.Stdout, []byte(" (tag ")) && !bytes.Contains(o.Stdout, []byte("\"Packet\""))) {
		return nil
	}
	return failedWell(o)
}

func failedWell(o app.Out) error {
	if o.Code == 0 || len(o.Stderr) == 0 || len(o.Stdout) != 0 || o.Panicked() {
		return core.Errf("must fail: exit %d, stdout %q, stderr %q", o.Code, o.Stdout, o.Stderr)
	}
	return nil
}

func checkCmd(c Cmd, x *core.X) error {
	var got app.Out
	n := 0
	next := func(*http.Request, Seen) Resp {
		if n++; n <= c.Hops {
			return Resp{Status: c.Moved, To: moved(n), Body: c.Resp.Body}
		}
		return c.Resp
	}
	seen := with(c.Resp.Fault == "dial", next, func() {
		got = app.Run(c.line(), strings.NewReader("this is not the input"))
	})
	if got.Panicked() {
		return core.Errf("panic: %s", got.Stderr)
	}
	if c.Args != 1 || c.NoHost {
		x.Label("wrong number of arguments, or no server")
		if len(seen) != 0 {
			return core.Errf("%d arguments, but a request: %+v", c.Args, seen)
		}
		return c.failed(got)
	}
	if c.Resp.Fault != "dial" {
		if len(seen) == 0 {
			return core.Errf("no request")
		}
		if err := c.asked(seen[:1]); err != nil {
			return err
		}
		for i, r := range seen[1:] {
			if u := r.Scheme + "://" + r.Host + r.URI; u != moved(i+1) || r.Method != "GET" || r.Auth != "" {
				return core.Errf("redirected to %s, requested %+v", moved(i+1), r)
			}
		}
	}
	if c.Hops > 9 {
		x.Label("redirects without end")
		if len(seen) > c.Hops {
			return core.Errf("%d requests", len(seen))
		}
		return c.failed(got)
	}
	if c.Hops > 0 && c.Resp.Fault != "dial" && len(seen) != 1+c.Hops {
		return core.Errf("%d redirects, but %d requests: %+v", c.Hops, len(seen), seen)
	}
	x.Label("redirects %d, debug %v", c.Hops, c.Debug)
	return c.handover(got, x)
}

func moved(n int) string {
	return []string{"https", "http"}[n%2] + "://moved.example/" + strconv.Itoa(n) + "?to=a%20b"
}

func (c Cmd) asked(seen []Seen) error {
	if c.Sub == "hkp" {
		host, port := c.Host, c.Port
		if host == "" {
			host = "keys.gnupg.net"
		}
		if port == 0 {
			port = 11371
		}
		return lookup(seen, c.Secure, host, port, string(c.Arg))
	}
	if len(seen) != 1 {
		return core.Errf("%d requests: %+v", len(seen), seen)
	}
	r := seen[0]
	port := c.Port
	def := map[bool]int{false: 80, true: 443}[c.Secure]
	if port == 0 {
		port = def
	}
	full := c.Host + ":" + strconv.Itoa(port)
	if r.Method != "GET" || r.Scheme != c.scheme() || r.Addr != full || r.Host != full && !(port == def && r.Host == c.Host) {
		return core.Errf("%s request over %s to %s (host %q), want %q", r.Method, r.Scheme, r.Addr, r.Host, c.arg())
	}
	want := string(c.Arg)
	if !strings.HasPrefix(want, "/") {
		want = "/" + want
	}
	if r.URI != want {
		return core.Errf("requested %q, want %q", r.URI, want)
	}
	auth := ""
	if c.User != "" {
		u, err := url.Parse("http://" + c.User + "@x/")
		if err != nil {
			panic("harness: " + err.Error())
		}
		p, _ := u.User.Password()
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(u.User.Username()+":"+p))
	}
	if r.Auth != auth {
		return core.Errf("request %q with authorization %q, want %q", c.arg(), r.Auth, auth)
	}
	return nil
}

// handover compares the output with that of the same dump from standard input.
func (c Cmd) handover(got app.Out, x *core.X) error {
	switch {
	case !c.Resp.ok() && c.Raw && (c.Resp.Fault == "cut" || c.Resp.Fault == "chunkcut"):
		x.Label("raw, cut short")
		if c.Debug && got.Code == 0 && len(got.Stdout) > 0 && len(got.Stderr) == 0 {
			return nil
		}
		if got.Code == 0 || len(got.Stderr) == 0 || !bytes.HasPrefix(c.Resp.Body, got.Stdout) {
			return core.Errf("the body was cut short: exit %d, stdout %q, stderr %q", got.Code, got.Stdout, got.Stderr)
		}
		x.NonTrivial()
	case !c.Resp.ok():
		x.Label("failure %q, error status %v", c.Resp.Fault, c.Resp.Status >= 400)
		if len(c.Resp.Body) > 0 {
			x.NonTrivial()
		}
		if err := c.failed(got); err != nil {
			return core.Errf("status %d, fault %q: %v", c.Resp.Status, c.Resp.Fault, err)
		}
	case c.Raw:
		x.Label("raw")
		if got.Code != 0 || !bytes.Equal(got.Stdout, c.Resp.Body) {
			return core.Errf("exit %d, %q is not the body (%q)", got.Code, got.Stdout, got.Stderr)
		}
		if len(c.Resp.Body) > 0 {
			x.NonTrivial()
		}
	default:
		want := app.Run(c.dump(), bytes.NewReader(c.Resp.Body))
		x.Label("dump, exit %d", want.Code)
		if c.Debug {
			if want.Code != 0 {
				return c.failed(got)
			}
			want = app.Run(append(c.dump(), "--debug"), bytes.NewReader(c.Resp.Body))
		}
		if want.Code == 0 && len(want.Stdout) > 0 {
			x.NonTrivial()
		}
		if got.Code != want.Code || !bytes.Equal(got.Stdout, want.Stdout) || (len(got.Stderr) == 0) != (len(want.Stderr) == 0) {
			return core.Errf("exit %d, stdout %q, stderr %q; the same body from standard input gives exit %d, stdout %q, stderr %q",
				got.Code, got.Stdout, got.Stderr, want.Code, want.Stdout, want.Stderr)
		}
	}
	return nil
}

// checkBin runs the built binary against a server on the loopback interface.
func checkBin(c Cmd, x *core.X) error {
	if x.Bin == "" {
		panic("harness: no binary")
	}
	if bytes.IndexByte(c.Arg, 0) >= 0 {
		return nil
	}
	w := &world{next: func(*http.Request, Seen) Resp { return c.Resp }}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer l.Close()
	go func() {
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			go w.serve(k, "http", l.Addr().String())
		}
	}()
	c.NoHost = false
	c.Host, c.Port, c.Secure = "127.0.0.1", l.Addr().(*net.TCPAddr).Port, false
	if c.Resp.Fault == "dial" {
		l.Close()
	}
	got, err := app.Exec(x.Bin, c.line(), strings.NewReader(""), x.Scratch)
	if err != nil {
		panic("harness: " + err.Error())
	}
	w.mu.Lock()
	seen := append([]Seen{}, w.seen...)
	w.mu.Unlock()
	if c.Args != 1 {
		if len(seen) != 0 {
			return core.Errf("%d arguments, but a request: %+v", c.Args, seen)
		}
		return c.failed(got)
	}
	if c.Resp.Fault != "dial" {
		if err := c.asked(seen); err != nil {
			return err
		}
	}
	return c.handover(got, x)
}

// fixedBig hands over bodies larger than any buffer or sensible limit.
func fixedBig(sub string) func(string, func(Cmd)) {
	return func(tier string, emit func(Cmd)) {
		for _, n := range []int{70000, 1<<20 + 5, 5 << 20, 17 << 20} {
			lit := append([]byte{0xcb, 0xff, byte((n + 6) >> 24), byte((n + 6) >> 16), byte((n + 6) >> 8), byte(n + 6), 'b', 0, 0, 0, 0, 0}, make([]byte, n)...)
			lit = append(lit, 0xcd, 5, 'a', 'l', 'i', 'c', 'e')
			body := gen.Armor{Type: "MESSAGE", Width: 64, CRC: true, EOL: "\n"}.Text(lit)
			for _, raw := range []bool{false, true} {
				c := Cmd{Sub: sub, Name: sub, Arg: Text("/x"), Host: "localhost", Args: 1, Raw: raw, Resp: Resp{Status: 200, Body: body, Chunk: 65536}}
				if sub == "github" {
					c.Host = ""
				}
				emit(c)
			}
		}
	}
}

func init() {
	p := core.Property("C20", "library: a search text that needs escapes; command: a non-empty body was handed over or a failure carried one",
		"hosts are written as in a URL (IPv6 addresses in brackets), ports are 1-65535; a redirect is followed as the HTTP client of Go does",
		"in this process the default HTTP transport is connected to a scripted server; the built binary talks to a server on the loopback interface")
	core.Add(p, core.Spec[HKP]{Name: "library", Quick: 60000, Thorough: 1000000, Gen: genHKP, Check: checkHKP})
	core.Add(p, core.Spec[Cmd]{Name: "hkp-command", Quick: 30000, Thorough: 500000, Gen: genCmd("hkp"), Check: checkCmd, Fixed: fixedBig("hkp")})
	core.Add(p, core.Spec[Cmd]{Name: "fetch-command", Quick: 30000, Thorough: 500000, Gen: genCmd("fetch"), Check: checkCmd, Fixed: fixedBig("fetch")})
	core.Add(p, core.Spec[Cmd]{Name: "hkp-binary", Quick: 300, Thorough: 4000, Gen: genCmd("hkp"), Check: checkBin})
	core.Add(p, core.Spec[Cmd]{Name: "fetch-binary", Quick: 300, Thorough: 4000, Gen: genCmd("fetch"), Check: checkBin})

	// key-server and GitHub input is armored text only
	p = core.Property("C06", "network: a non-empty body without armor")
	core.Add(p, core.Spec[Cmd]{Name: "network", Quick: 20000, Thorough: 200000, Check: checkNetArmor, Gen: func(t *rapid.T) Cmd {
		c := genCmd("hkp")(t)
		if gen.Chance(t, 2) {
			c = genGHCmd(t)
			c.KeyID, c.Keys = "", nil
		}
		c.Args, c.Raw, c.NoHost, c.Hops = 1, false, false, 0
		if gen.Chance(t, 4) {
			c.Post = append(c.Post, gen.Of(t, "--armor=false", "-a=false", "--armor=0"))
		}
		c.Resp = Resp{Status: 200}
		switch gen.Pick(t, 3) {
		case 0:
			a := gen.DrawArmor(t, true)
			h, b, crc, _ := a.Lines(gen.Stream(t, gen.Cfg{Min: 1, Max: 3, Depth: 1}).Encode())
			c.Resp.Body = []byte(strings.Join(append(append(h, b...), crc), "\n")) // no last line
		default:
			c.Resp.Body = gen.Stream(t, gen.Cfg{Min: 0, Max: 3, Depth: 1}).Encode()
		}
		return c
	}})
}

func checkNetArmor(c Cmd, x *core.X) error {
	if bytes.Contains(c.Resp.Body, []byte("-----END PGP")) {
		return nil
	}
	if len(c.Resp.Body) > 0 {
		x.NonTrivial()
	}
	var got app.Out
	with(false, func(*http.Request, Seen) Resp { return c.Resp }, func() {
		got = app.Run(c.line(), strings.NewReader("this is not the input"))
	})
	x.Label("%s", c.Sub)
	if c.failed(got) != nil {
		return core.Errf("there is no armored text, but exit %d, stdout %q", got.Code, got.Stdout)
	}
	return nil
}
