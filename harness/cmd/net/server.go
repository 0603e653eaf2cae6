// Command net decides the properties of the network inputs (hkp, github, fetch).
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"verif/harness/core"
	"verif/harness/gen"

	"pgregory.net/rapid"
)

func main() { core.Main() }

// Seen is one request as the server saw it.
type Seen struct {
	Scheme, Addr, Host, Method, URI, Auth string
}

// Resp is what the server does with a request.
type Resp struct {
	Status int    `json:"status"`
	Body   core.B `json:"body"`
	Fault  string `json:"fault,omitempty"` // dial, close, cut, chunkcut, garbage
	Cut    int    `json:"cut,omitempty"`
	To     string `json:"-"`               // where a redirect goes
	Gzip   bool   `json:"gzip,omitempty"`  // for a client that accepts it, the body travels compressed
	Chunk  int    `json:"chunk,omitempty"` // size of the pieces the body is sent in
}

func (r Resp) ok() bool { return r.Fault == "" && r.Status < 400 }

func (r Resp) write(c net.Conn) {
	defer c.Close()
	body := []byte(r.Body)
	n := len(body)
	if r.Fault == "cut" || r.Fault == "chunkcut" {
		n = r.Cut % (len(body) + 1)
	}
	switch r.Fault {
	case "close":
		return
	case "garbage":
		_, _ = io.WriteString(c, "SSH-2.0-OpenSSH\r\n\r\n")
		return
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d Something\r\nContent-Type: text/html\r\nConnection: close\r\n", r.Status)
	if r.To != "" {
		fmt.Fprintf(&b, "Location: %s\r\n", r.To)
	}
	if r.Gzip {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		_, _ = w.Write(body)
		_ = w.Close()
		body, n = z.Bytes(), z.Len()
		b.WriteString("Content-Encoding: gzip\r\n")
	}
	chunked := r.Fault == "chunkcut" || r.Fault == "" && r.Chunk%2 == 1
	if chunked {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	} else if r.Fault == "cut" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body)+1)
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
	}
	if _, err := c.Write(b.Bytes()); err != nil {
		return
	}
	step := r.Chunk
	if step <= 0 {
		step = n
	}
	for i := 0; i < n; i += step {
		e := min(i+step, n)
		p := body[i:e]
		if chunked {
			p = append(append([]byte(fmt.Sprintf("%x\r\n", e-i)), p...), "\r\n"...)
		}
		if _, err := c.Write(p); err != nil {
			return
		}
	}
	if chunked && r.Fault == "" {
		_, _ = io.WriteString(c, "0\r\n\r\n")
	}
}

// world stands in for the network of this process.
type world struct {
	mu   sync.Mutex
	seen []Seen
	next func(*http.Request, Seen) Resp
	down bool
}

var theWorld = &world{}

func (w *world) serve(c net.Conn, scheme, addr string) {
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(60 * time.Second))
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	_, _ = io.Copy(io.Discard, req.Body)
	s := Seen{Scheme: scheme, Addr: addr, Host: req.Host, Method: req.Method, URI: req.RequestURI, Auth: req.Header.Get("Authorization")}
	w.mu.Lock()
	w.seen = append(w.seen, s)
	r := w.next(req, s)
	w.mu.Unlock()
	r.Gzip = r.Gzip && r.Fault == "" && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip")
	r.write(c)
}

func (w *world) dial(scheme string) func(context.Context, string, string) (net.Conn, error) {
	return func(ctx context.Context, network, addr string) (net.Conn, error) {
		if w.down {
			return nil, errors.New("network is unreachable")
		}
		a, b := net.Pipe()
		go w.serve(b, scheme, addr)
		return a, nil
	}
}

func init() {
	t := http.DefaultTransport.(*http.Transport)
	t.Proxy = nil
	t.DisableKeepAlives = true
	t.ForceAttemptHTTP2 = false
	t.DialContext = theWorld.dial("http")
	t.DialTLSContext = theWorld.dial("https")
}

// with lets f run in a world that answers with next, and returns the requests.
func with(down bool, next func(*http.Request, Seen) Resp, f func()) []Seen {
	theWorld.mu.Lock()
	theWorld.seen, theWorld.next, theWorld.down = nil, next, down
	theWorld.mu.Unlock()
	f()
	theWorld.mu.Lock()
	defer theWorld.mu.Unlock()
	return append([]Seen{}, theWorld.seen...)
}

func genFault(t *rapid.T, r *Resp) {
	r.Status = gen.Of(t, 200, 200, 200, 200, 201, 203, 206)
	r.Gzip = gen.Chance(t, 6)
	r.Chunk = gen.Of(t, 0, 0, 1, 2, 7, 100, 511, 4096, 4097)
	if len(r.Body) > 3000 && r.Chunk > 0 {
		r.Chunk += 1000
	}
	switch gen.Pick(t, 4) {
	case 0:
		switch gen.Pick(t, 3) {
		case 0:
			r.Status = gen.Of(t, 400, 401, 403, 404, 404, 410, 418, 429, 499, 500, 501, 502, 503, 504, 599)
		case 1:
			r.Status = gen.Range(t, 400, 599)
		default:
			r.Fault = gen.Of(t, "dial", "close", "cut", "chunkcut", "garbage", "cut", "chunkcut")
			r.Cut = gen.Of(t, 0, 1, len(r.Body), len(r.Body)-1, gen.Pick(t, len(r.Body)+1))
			if r.Cut < 0 {
				r.Cut = 0
			}
		}
	}
}

// genBody draws what a server may answer: armored text in a page, or anything else.
func genBody(t *rapid.T) []byte {
	data := gen.Stream(t, gen.Cfg{Min: 0, Max: 3, Depth: 1, Evil: gen.Chance(t, 8), Long: true}).Encode()
	if gen.Chance(t, 300) { // larger than any buffer on the way
		big := gen.Pkt{Tag: 11, Body: append([]byte{'b', 0, 0, 0, 0, 1}, gen.Fill(t, gen.Of(t, 4096, 32768, 65536, 1<<20, 1<<20+1, 3<<20))...), Enc: gen.Enc{Kind: "new5"}}
		data = append(big.Encode(), data...)
	}
	switch gen.Pick(t, 6) {
	case 0:
		return data
	case 1:
		return gen.Octets(t)
	case 2:
		return []byte(gen.Of(t, "", "<html><body>Not found</body></html>\n", "no results found", "-----BEGIN PGP PUBLIC KEY BLOCK-----\n"))
	default:
		return gen.DrawArmor(t, true).Text(data)
	}
}

// text draws any text, with what matters in URLs more often than by chance.
func text(t *rapid.T) string {
	pieces := []string{"0x", "alice", "@example.com", "<", ">", " ", "&", "=", "+", "%", "%20", "#", "?", "/", "//", ";", ":", "..", ".", "\\", "\"", "'", "~", "-", "_",
		"é", "日本", "\u2028", "\t", "\n", "op=index", "search=", "&op=get", "7E20B81C", "A", "\xff", "\x7f", "0X", "🔑"}
	if gen.Chance(t, 4) {
		return rapid.String().Draw(t, "text")
	}
	n := gen.Range(t, 0, 6)
	s := ""
	for i := 0; i < n; i++ {
		s += gen.Of(t, pieces...)
	}
	return s
}

func portOf(t *rapid.T) int {
	return gen.Of(t, 11371, 80, 443, 1, 65535, 8080, gen.Range(t, 1, 65535))
}
