// P20: remote certificates are returned only when fetched completely and correctly.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"slices"
	"strings"
	"time"

	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/security"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	"google.golang.org/protobuf/proto"
)

func main() { mc.Main("P20", run) }

type entry struct{ CHR, CAR, URL string }

var index struct {
	G1, G2 []entry
}

var good = [2][]byte{
	ref.GoodRSACert("root", 1, 2, "ca"),
	ref.GoodECCert(&ref.Curves[0], "gca", 1, 2, "card"),
}

// expect classes of an answer.
const (
	complete = iota // must be returned
	either
	broken // must fail
)

type answer struct {
	name  string
	class int
	raw   func(body []byte) []string // what the connection carries; the last part may be "STALL", "RESET"
}

func http1(status, header string, body []byte) string {
	return "HTTP/1.1 " + status + "\r\n" + header + "\r\n" + string(body)
}

func cl(n int) string { return fmt.Sprintf("Content-Length: %d\r\n", n) }

func gz(b []byte) []byte {
	var w bytes.Buffer
	z := gzip.NewWriter(&w)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

func chunks(b []byte, n int, end string) []byte {
	var w bytes.Buffer
	for len(b) > 0 {
		m := min(n, len(b))
		fmt.Fprintf(&w, "%x\r\n%s\r\n", m, b[:m])
		b = b[m:]
	}
	w.WriteString(end)
	return w.Bytes()
}

func one(s string) []string { return []string{s} }

// Answers to the request for the listed resource.
var answers = []answer{
	{"whole, with its length", complete, func(b []byte) []string { return one(http1("200 OK", cl(len(b)), b)) }},
	{"whole, until the end of the connection", complete, func(b []byte) []string { return one(http1("200 OK", "Connection: close\r\n", b)) }},
	{"whole, in chunks", complete, func(b []byte) []string {
		return one(http1("200 OK", "Transfer-Encoding: chunked\r\n", chunks(b, 50, "0\r\n\r\n")))
	}},
	{"whole, byte by byte", complete, func(b []byte) []string {
		var l []string
		for _, x := range []byte(http1("200 OK", cl(len(b)), b)) {
			l = append(l, string([]byte{x}))
		}
		return l
	}},
	{"whole, compressed", complete, func(b []byte) []string {
		return one(http1("200 OK", "Content-Encoding: gzip\r\n"+cl(len(gz(b))), gz(b)))
	}},
	{"cut before its length", broken, func(b []byte) []string { return one(http1("200 OK", cl(len(b)+1), b)) }},
	{"cut far before its length", broken, func(b []byte) []string { return one(http1("200 OK", cl(len(b)), b[:9])) }},
	{"cut after a chunk", broken, func(b []byte) []string {
		return one(http1("200 OK", "Transfer-Encoding: chunked\r\n", chunks(b, 50, "")))
	}},
	{"cut inside a chunk", broken, func(b []byte) []string {
		return one(http1("200 OK", "Transfer-Encoding: chunked\r\n", chunks(b, 500, "")[:100]))
	}},
	{"malformed chunk", broken, func(b []byte) []string {
		return one(http1("200 OK", "Transfer-Encoding: chunked\r\n", chunks(b, 500, "zz\r\n")))
	}},
	{"reset inside the body", broken, func(b []byte) []string { return []string{http1("200 OK", cl(len(b)), b[:len(b)-1]), "RESET"} }},
	{"body without its last byte", broken, func(b []byte) []string { return one(http1("200 OK", cl(len(b)-1), b[:len(b)-1])) }},
	{"body without its beginning", broken, func(b []byte) []string { return one(http1("200 OK", cl(len(b)-4), b[4:])) }},
	{"empty body", broken, func(b []byte) []string { return one(http1("200 OK", cl(0), nil)) }},
	{"web page", broken, func(b []byte) []string {
		p := []byte("<html>" + strings.Repeat("not found ", 30) + "</html>")
		return one(http1("200 OK", cl(len(p)), p))
	}},
	{"short web page", broken, func(b []byte) []string { p := []byte("<html></html>"); return one(http1("200 OK", cl(len(p)), p)) }},
	{"corrupt compression", broken, func(b []byte) []string {
		z := gz(b)
		z[len(z)-6] ^= 0xFF
		return one(http1("200 OK", "Content-Encoding: gzip\r\n"+cl(len(z)), z))
	}},
	{"compression cut", broken, func(b []byte) []string {
		z := gz(b)[:60]
		return one(http1("200 OK", "Content-Encoding: gzip\r\n"+cl(len(z)), z))
	}},
	{"no content", broken, func(b []byte) []string { return one(http1("204 No Content", "", nil)) }},
	{"part", broken, func(b []byte) []string { return one(http1("206 Partial Content", cl(len(b)), b)) }},
	{"accepted", broken, func(b []byte) []string { return one(http1("202 Accepted", cl(len(b)), b)) }},
	{"created", broken, func(b []byte) []string { return one(http1("201 Created", cl(len(b)), b)) }},
	{"not authoritative", broken, func(b []byte) []string {
		return one(http1("203 Non-Authoritative Information", cl(len(b)), b))
	}},
	{"multiple choices", broken, func(b []byte) []string { return one(http1("300 Multiple Choices", cl(len(b)), b)) }},
	{"not modified", broken, func(b []byte) []string { return one(http1("304 Not Modified", "", nil)) }},
	{"moved nowhere", broken, func(b []byte) []string { return one(http1("301 Moved", cl(len(b)), b)) }},
	{"bad request", broken, func(b []byte) []string { return one(http1("400 Bad Request", cl(len(b)), b)) }},
	{"forbidden", broken, func(b []byte) []string { return one(http1("403 Forbidden", cl(len(b)), b)) }},
	{"not found", broken, func(b []byte) []string { return one(http1("404 Not Found", cl(len(b)), b)) }},
	{"gone", broken, func(b []byte) []string { return one(http1("410 Gone", cl(len(b)), b)) }},
	{"too many requests", broken, func(b []byte) []string { return one(http1("429 Too Many Requests", cl(len(b)), b)) }},
	{"server error", broken, func(b []byte) []string { return one(http1("500 Internal Server Error", cl(len(b)), b)) }},
	{"bad gateway", broken, func(b []byte) []string { return one(http1("502 Bad Gateway", cl(len(b)), b)) }},
	{"unavailable", broken, func(b []byte) []string { return one(http1("503 Service Unavailable", cl(len(b)), b)) }},
	{"odd status", broken, func(b []byte) []string { return one(http1("999 Odd", cl(len(b)), b)) }},
	{"closed at once", broken, func(b []byte) []string { return nil }},
	{"reset at once", broken, func(b []byte) []string { return one("RESET") }},
	{"no connection", broken, nil},
	{"not http", broken, func(b []byte) []string { return one(string(b)) }},
	{"cut inside the header", broken, func(b []byte) []string { return one("HTTP/1.1 200 OK\r\nContent-Le") }},
	{"bad length", broken, func(b []byte) []string { return one(http1("200 OK", "Content-Length: -5\r\n", b)) }},
	{"hint, then whole", complete, func(b []byte) []string {
		return one("HTTP/1.1 103 Early Hints\r\n\r\n" + http1("200 OK", cl(len(b)), b))
	}},
	{"caller gives up while waiting", broken, func(b []byte) []string { return one("STALL") }},
	{"caller gives up inside the body", broken, func(b []byte) []string { return []string{http1("200 OK", cl(len(b)), b[:20]), "STALL"} }},
	{"caller had given up", broken, func(b []byte) []string { return one(http1("200 OK", cl(len(b)), b)) }},
	{"moved, then whole", either, func(b []byte) []string {
		return one(http1("302 Found", "Location: https://elsewhere.example/x\r\n"+cl(0), nil))
	}},
	{"moved in a circle", broken, func(b []byte) []string {
		return one(http1("302 Found", "Location: https://dtc.jrc.ec.europa.eu/again\r\n"+cl(0), nil))
	}},
}

// server plays the answers over in-memory connections.
type server struct {
	a      *answer
	body   []byte
	cancel func()
	reqs   []string
	dials  int
}

func (s *server) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	s.dials++
	if s.a.raw == nil {
		return nil, errors.New("connection refused")
	}
	client, srv := net.Pipe()
	parts := s.a.raw(s.body)
	if s.dials > 1 && s.a.name == "moved, then whole" {
		parts = one(http1("200 OK", cl(len(s.body)), s.body))
	}
	cancel := s.cancel
	go func() {
		// read the request's head
		var head []byte
		buf := make([]byte, 4096)
		for !bytes.Contains(head, []byte("\r\n\r\n")) {
			n, err := srv.Read(buf)
			head = append(head, buf[:n]...)
			if err != nil {
				srv.Close()
				return
			}
		}
		for _, p := range parts {
			switch p {
			case "STALL":
				cancel()
				io.Copy(io.Discard, srv)
			case "RESET":
				srv.SetDeadline(time.Now())
			default:
				if _, err := io.WriteString(srv, p); err != nil {
					srv.Close()
					return
				}
			}
		}
		srv.Close()
	}()
	return client, nil
}

// spy notes the requests and whether each body is closed.
type spy struct {
	t    *http.Transport
	s    *server
	open int
}

type body struct {
	io.ReadCloser
	spy  *spy
	done bool
}

func (b *body) Close() error {
	if !b.done {
		b.done = true
		b.spy.open--
	}
	return b.ReadCloser.Close()
}

func (p *spy) RoundTrip(r *http.Request) (*http.Response, error) {
	p.s.reqs = append(p.s.reqs, r.Method+" "+r.URL.String())
	resp, err := p.t.RoundTrip(r)
	if resp != nil {
		p.open++
		resp.Body = &body{ReadCloser: resp.Body, spy: p}
	}
	return resp, err
}

// run1 makes one lookup.
func lookup(c *mc.Ch, cl *cert.Client, p *spy, gen, holder int, a *answer, h string) {
	list := [][]entry{index.G1, index.G2}[gen]
	chr, url := "", ""
	switch {
	case holder >= 0:
		chr, url = list[holder].CHR, list[holder].URL
		for _, e := range list { // of several entries, any may be used
			if e.CHR == chr {
				url += "|" + e.URL
			}
		}
	case holder == -1:
		chr = "12345"
	case holder == -2:
		chr = ""
	case holder == -3: // listed, but for the other generation
		other := [][]entry{index.G2, index.G1}[gen]
		chr = other[3].CHR
		for _, e := range list {
			if e.CHR == chr {
				return
			}
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := p.s
	s.a, s.body, s.cancel, s.reqs, s.dials = a, good[gen], cancel, nil, 0
	if a.name == "caller had given up" {
		cancel()
	}
	var got []byte
	var m proto.Message
	var err error
	if gen == 0 {
		x, e := cl.GetRsaCertificate(ctx, chr)
		got, err = x.GetRawData(), e
		if x != nil {
			m = x
		}
		if x.GetSignatureValid() {
			c.Fail("a fetched certificate counts as verified", "case", h)
		}
	} else {
		x, e := cl.GetEccCertificate(ctx, chr)
		got, err = x.GetRawData(), e
		if x != nil {
			m = x
		}
	}
	p.t.CloseIdleConnections()
	what := a.name
	if holder < 0 {
		if err == nil {
			c.Fail("a holder that is not listed was found", "case", h)
		}
		if len(s.reqs) > 0 {
			c.Fail("a request for a holder that is not listed", "case", h, "requests", s.reqs)
		}
		c.Outcome("not listed")
		return
	}
	switch {
	case err == nil && a.class == broken:
		c.Fail(what+": success", "case", h, "got", got)
	case err != nil && m != nil:
		c.Fail(what+": an error and a certificate", "case", h)
	case err != nil && a.class == complete:
		c.Fail(what+": failed", "case", h, "error", err.Error())
	case err == nil && !bytes.Equal(got, good[gen]):
		c.Fail(what+": another certificate", "case", h, "got", got)
	case p.open != 0:
		c.Fail(what+": the answer's body is left open", "case", h)
	}
	for i, r := range s.reqs {
		u := strings.TrimPrefix(r, "GET ")
		if u == r || i == 0 && !strings.Contains("|"+url+"|", "|"+u+"|") {
			c.Fail(what+": wrong request", "case", h, "request", r, "url", url)
		}
	}
	if a.name != "caller had given up" && len(s.reqs) == 0 {
		c.Fail(what+": success or failure without a request", "case", h)
	}
	c.Outcome(fmt.Sprint(what, err == nil))
}

func client() (*cert.Client, *spy) {
	s := &server{}
	p := &spy{s: s, t: &http.Transport{
		DialTLSContext: func(ctx context.Context, n, a string) (net.Conn, error) { return s.dial(ctx, n, a) },
		DialContext:    func(ctx context.Context, n, a string) (net.Conn, error) { return s.dial(ctx, n, a) },
		TLSNextProto:   map[string]func(string, *tls.Conn) http.RoundTripper{},
	}}
	return cert.NewClient(&http.Client{Transport: p}), p
}

func run(k *mc.Check) {
	b, err := os.ReadFile("/repo/internal/cert/certcache/index.json")
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &index); err != nil {
		panic(err)
	}
	lists := [][]entry{index.G1, index.G2}
	// A server that has everything, and one that fails, for every entry.
	k.Explore("every listed holder", 0, func(c *mc.Ch) {
		gen := c.Free(2)
		i := c.Free(len(lists[gen]))
		a := &answers[[]int{0, 28}[c.Free(mc.Pick2(k, 1, 2))]]
		cl, p := client()
		c.Visit(mc.HashS(fmt.Sprint("entry", gen, i)))
		lookup(c, cl, p, gen, i, a, fmt.Sprint("generation ", gen+1, " entry ", i, " ", a.name))
	})
	k.Explore("neighbours of listed holders", 0, func(c *mc.Ch) {
		gen := c.Free(2)
		i := c.Free(mc.Pick2(k, 20, len(lists[gen])))
		i = i * len(lists[gen]) / mc.Pick2(k, 20, len(lists[gen]))
		chr := lists[gen][i].CHR
		how := c.Free(8)
		x := []string{chr + " ", " " + chr, "0" + chr, chr[1:], chr[:len(chr)-1], chr + "0", strings.ToUpper(chr) + "\n", "+" + chr}[how]
		for _, e := range lists[gen] {
			if e.CHR == x {
				return
			}
		}
		c.Visit(mc.HashS("near" + x))
		cl, p := client()
		p.s.a, p.s.body, p.s.cancel = &answers[0], good[gen], func() {}
		var err error
		if gen == 0 {
			_, err = cl.GetRsaCertificate(context.Background(), x)
		} else {
			_, err = cl.GetEccCertificate(context.Background(), x)
		}
		if err == nil || len(p.s.reqs) > 0 {
			c.Fail("a holder that is not listed", "holder", x, "requests", p.s.reqs)
		}
	})
	// What stands next to a holder in the lists is no holder.
	others := map[string]bool{}
	for g, l := range lists {
		for _, e := range l {
			for _, x := range []string{e.CAR, e.URL, e.URL[strings.LastIndexByte(e.URL, '/')+1:], fmt.Sprint(g + 1)} {
				others[x] = true
			}
			others[e.CHR] = true
		}
	}
	var names []string
	for x := range others {
		names = append(names, x)
	}
	slices.Sort(names)
	k.Explore("authorities, addresses and holders of the other generation", 0, func(c *mc.Ch) {
		gen := c.Free(2)
		x := names[c.Free(len(names))]
		for _, e := range lists[gen] {
			if e.CHR == x {
				return
			}
		}
		c.Visit(mc.HashS(fmt.Sprint("other", gen, x)))
		cl, p := client()
		p.s.a, p.s.body, p.s.cancel = &answers[0], good[gen], func() {}
		var err error
		if gen == 0 {
			_, err = cl.GetRsaCertificate(context.Background(), x)
		} else {
			_, err = cl.GetEccCertificate(context.Background(), x)
		}
		if err == nil || len(p.s.reqs) > 0 {
			c.Fail("a holder that is not listed", "holder", x, "requests", p.s.reqs)
		}
	})
	targets := []int{7, -1, -2, -3}
	k.Explore("every answer, on one lookup and on a second one over the same client", 0, func(c *mc.Ch) {
		cl, p := client()
		h := ""
		for d := 0; d < 2; d++ {
			gen := c.Free(2)
			a := &answers[0]
			if d == 0 || k.Thorough() {
				a = &answers[c.Free(len(answers))]
			} else {
				a = &answers[c.Free(6)*8]
			}
			h += fmt.Sprint("generation ", gen+1, " ", a.name, "; ")
			c.Visit(mc.HashS(h))
			lookup(c, cl, p, gen, 7+d*5, a, h)
		}
	})
	k.Explore("sequences of lookups, listed and not", 0, func(c *mc.Ch) {
		cl, p := client()
		h := ""
		for d := 0; d < mc.Pick2(k, 3, 4); d++ {
			gen := c.Free(2)
			t := targets[c.Free(len(targets))]
			a := &answers[0]
			if t >= 0 {
				a = &answers[[]int{0, 6, 28, 37, 42}[c.Free(5)]]
			}
			h += fmt.Sprint("generation ", gen+1, " ", t, " ", a.name, "; ")
			c.Visit(mc.HashS("seq" + h))
			lookup(c, cl, p, gen, t, a, h)
		}
	})
	k.Explore("the whole body cut at every byte, by every means", 0, func(c *mc.Ch) {
		gen := c.Free(2)
		n := c.Free(len(good[gen]))
		how := c.Free(4)
		a := &answer{fmt.Sprint("cut"), broken, func(b []byte) []string {
			switch how {
			case 0:
				return one(http1("200 OK", cl(len(b)), b[:n]))
			case 1:
				return one(http1("200 OK", cl(n), b[:n]))
			case 2:
				return one(http1("200 OK", "Connection: close\r\n", b[:n]))
			default:
				return one(http1("200 OK", "Transfer-Encoding: chunked\r\n", chunks(b[:n], 64, "0\r\n\r\n")))
			}
		}}
		cl, p := client()
		h := fmt.Sprint("cut ", gen, n, how)
		c.Visit(mc.HashS(h))
		lookup(c, cl, p, gen, 7, a, h)
	})
	k.Explore("every status", 0, func(c *mc.Ch) {
		gen := c.Free(2)
		st := 200 + c.Free(800)
		class := broken
		if st == 200 {
			class = complete
		}
		a := &answer{"status", class, func(b []byte) []string {
			if st == 304 || st == 204 {
				return one(http1(fmt.Sprint(st, " X"), "", nil))
			}
			return one(http1(fmt.Sprint(st, " X"), cl(len(b)), b))
		}}
		cl, p := client()
		c.Visit(mc.HashS(fmt.Sprint("status", gen, st)))
		lookup(c, cl, p, gen, 7, a, fmt.Sprint("status ", st))
	})
	// The certificate is what parsing the whole body gives, and nothing else.
	k.Explore("every byte of the body changed, bodies with bytes after their end", 0, func(c *mc.Ch) {
		gen := c.Free(2)
		body := bytes.Clone(good[gen])
		h := ""
		if c.Free(2) == 0 {
			i := c.Free(len(body))
			x := []byte{0x01, 0x80, 0xFF, 0x7F}[c.Free(mc.Pick2(k, 2, 4))]
			body[i] ^= x
			h = fmt.Sprintf("generation %d, byte %d ^ %02x", gen+1, i, x)
		} else {
			n := 1 + c.Free(mc.Pick2(k, 200, 600))
			x := []byte{0, '\n', 0xFF, good[gen][0]}[c.Free(4)]
			body = append(body, bytes.Repeat([]byte{x}, n)...)
			h = fmt.Sprintf("generation %d, %d bytes %02x behind", gen+1, n, x)
		}
		c.Visit(mc.HashS(h))
		cl, p := client()
		p.s.a, p.s.cancel = &answers[0], func() {}
		p.s.body = body
		var got, want proto.Message
		var err, werr error
		if gen == 0 {
			w, e := security.UnmarshalRsaCertificate(bytes.Clone(body))
			g, e2 := cl.GetRsaCertificate(context.Background(), lists[0][7].CHR)
			got, want, err, werr = g, w, e2, e
		} else {
			w, e := security.UnmarshalEccCertificate(bytes.Clone(body))
			g, e2 := cl.GetEccCertificate(context.Background(), lists[1][7].CHR)
			got, want, err, werr = g, w, e2, e
		}
		p.t.CloseIdleConnections()
		switch {
		case werr != nil && err == nil:
			c.Fail("a body that is no certificate: success", "case", h)
		case werr == nil && err != nil:
			c.Fail("a body that is a certificate: failed", "case", h, "error", err.Error())
		case err == nil && !proto.Equal(got, want):
			c.Fail("another certificate than the body's", "case", h)
		}
		c.Outcome(fmt.Sprint("body", err == nil))
	})
	k.Assume("a body that is a well-formed certificate of the generation asked for is taken as the certificate; whether it is genuine is for verification (P16-P18)")
}
