// P19: the certificate resolver chain answers from the first source that can.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
)

func main() { mc.Main("P19", run) }

type ctxKey struct{}

// source answers as the history of the execution says and records its calls.
type source struct {
	id   int
	x    *exec
	errs []error
}

// exec is one execution: the current call and what was consulted for it.
type exec struct {
	fails  []bool // for the current call, per source
	with   bool   // failing sources return a certificate along with the error
	asked  []string
	gave   []proto.Message // the certificates, per source
	snaps  []proto.Message
	errs   []error
	badCtx bool
}

func (x *exec) note(s *source, ctx context.Context, what string) bool {
	x.asked = append(x.asked, fmt.Sprint(s.id, " ", what))
	if ctx.Value(ctxKey{}) != x {
		x.badCtx = true
	}
	return x.fails[s.id]
}

func (s *source) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	c := &securityv1.RootCertificate{}
	c.SetKeyId(fmt.Sprint("root of ", s.id))
	if s.x.note(s, ctx, "root") {
		if s.x.with {
			return c, s.x.errs[s.id]
		}
		return nil, s.x.errs[s.id]
	}
	s.x.gave[s.id], s.x.snaps[s.id] = c, proto.Clone(c)
	return c, nil
}

func (s *source) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	c := &securityv1.RsaCertificate{}
	c.SetCertificateHolderReference(fmt.Sprint("rsa of ", s.id, " ", chr))
	if s.x.note(s, ctx, "rsa "+chr) {
		if s.x.with {
			return c, s.x.errs[s.id]
		}
		return nil, s.x.errs[s.id]
	}
	s.x.gave[s.id], s.x.snaps[s.id] = c, proto.Clone(c)
	return c, nil
}

func (s *source) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	c := &securityv1.EccCertificate{}
	c.SetCertificateHolderReference(fmt.Sprint("ecc of ", s.id, " ", chr))
	if s.x.note(s, ctx, "ecc "+chr) {
		if s.x.with {
			return c, s.x.errs[s.id]
		}
		return nil, s.x.errs[s.id]
	}
	s.x.gave[s.id], s.x.snaps[s.id] = c, proto.Clone(c)
	return c, nil
}

// call makes one call and returns the certificate (nil interface if there is none).
func call(r cert.Resolver, ctx context.Context, kind int, chr string) (proto.Message, error, string) {
	switch kind {
	case 0:
		c, err := r.GetRootCertificate(ctx)
		if c == nil {
			return nil, err, "root"
		}
		return c, err, "root"
	case 1:
		c, err := r.GetRsaCertificate(ctx, chr)
		if c == nil {
			return nil, err, "rsa " + chr
		}
		return c, err, "rsa " + chr
	default:
		c, err := r.GetEccCertificate(ctx, chr)
		if c == nil {
			return nil, err, "ecc " + chr
		}
		return c, err, "ecc " + chr
	}
}

func run(k *mc.Check) {
	refs := []string{"1316820541096591105", "", "x/../y"}
	k.Explore("every chain, every answer of every source, sequences of calls", 0, func(c *mc.Ch) {
		n := c.Free(mc.Pick2(k, 5, 7)) // number of sources
		depth := mc.Pick2(k, 3, 4)
		if n > 3 {
			depth = mc.Pick2(k, 2, 3)
		}
		x := &exec{fails: make([]bool, n), gave: make([]proto.Message, n), snaps: make([]proto.Message, n)}
		var rs []cert.Resolver
		for i := 0; i < n; i++ {
			x.errs = append(x.errs, fmt.Errorf("source %d has none", i))
			rs = append(rs, &source{id: i, x: x})
		}
		// The same chain, flat or made of chains.
		var chain cert.Resolver
		switch shape := c.Free(4); {
		case shape == 1 && n > 1:
			chain = cert.NewChainResolver(cert.NewChainResolver(rs[:n/2]...), cert.NewChainResolver(rs[n/2:]...))
		case shape == 2 && n > 0:
			chain = cert.NewChainResolver(append([]cert.Resolver{cert.NewChainResolver(rs[0])}, rs[1:]...)...)
		case shape == 3 && n > 0:
			chain = cert.NewChainResolver(append(append([]cert.Resolver{}, rs[:n-1]...), cert.NewChainResolver(), rs[n-1])...)
		case shape == 0:
			in := append([]cert.Resolver{}, rs...)
			chain = cert.NewChainResolver(in...)
		default:
			return
		}
		ctx := context.WithValue(context.Background(), ctxKey{}, x)
		h := fmt.Sprint(n)
		for d := 0; d < depth; d++ {
			kind := c.Free(3)
			chr := refs[0]
			if kind > 0 && d == 0 {
				chr = refs[c.Free(len(refs))]
			}
			x.asked, x.with = nil, n > 0 && c.Free(2) == 1
			first := -1
			for i := range x.fails {
				x.fails[i] = c.Free(2) == 0
				x.gave[i] = nil
				if !x.fails[i] && first < 0 {
					first = i
				}
			}
			h += fmt.Sprint(kind, chr, x.fails, x.with)
			c.Visit(mc.HashS(h))
			got, err, what := call(chain, ctx, kind, chr)
			if x.badCtx {
				c.Fail("another context reached a source", "history", h)
			}
			if first < 0 {
				if err == nil || got != nil {
					c.Fail("all sources failed, but the chain did not", "history", h, "got", fmt.Sprint(got))
				}
				for _, e := range x.errs {
					if !errors.Is(err, e) && !strings.Contains(err.Error(), e.Error()) {
						c.Fail("a source's error is lost", "history", h, "error", err.Error())
					}
				}
				c.Outcome("all failed")
				continue
			}
			if err != nil {
				c.Fail("failed although a source answers", "history", h, "error", err.Error(), "asked", x.asked)
			}
			if got != x.gave[first] || !proto.Equal(got, x.snaps[first]) {
				c.Fail("not the first answering source's certificate", "history", h, "got", fmt.Sprint(got), "asked", x.asked)
			}
			for i := 0; i <= first; i++ {
				if i >= len(x.asked) || x.asked[i] != fmt.Sprint(i, " ", what) {
					c.Fail("sources not asked in order", "history", h, "asked", x.asked)
				}
			}
			if len(x.asked) != first+1 {
				c.Fail("more sources asked than needed", "history", h, "asked", x.asked)
			}
			c.Outcome(fmt.Sprint("answer ", first))
		}
	})

	// What a source fails with does not matter, only that it fails.
	kinds := []error{errors.New("none"), context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, fs.ErrNotExist, fs.ErrPermission, net.ErrClosed,
		http.ErrHandlerTimeout, errors.ErrUnsupported, &net.OpError{Op: "dial", Err: errors.New("refused")}, errors.Join(errors.New("a"), errors.New("b")), errors.New("")}
	k.Explore("every kind of error of every source", 0, func(c *mc.Ch) {
		n := 2 + c.Free(mc.Pick2(k, 2, 3))
		x := &exec{fails: make([]bool, n), gave: make([]proto.Message, n), snaps: make([]proto.Message, n)}
		kind := c.Free(3)
		first := c.Free(n + 1) // the first source that answers
		h := fmt.Sprint(n, kind, first)
		var rs []cert.Resolver
		for i := 0; i < n; i++ {
			e := kinds[0]
			if i < first {
				j := c.Free(len(kinds))
				e = kinds[j]
				h += fmt.Sprint(" ", j)
				if c.Free(2) == 1 {
					e = fmt.Errorf("source %d: %w", i, e)
					h += "w"
				}
			}
			x.fails[i] = i != first
			x.errs = append(x.errs, e)
			rs = append(rs, &source{id: i, x: x})
		}
		c.Visit(mc.HashS("kinds" + h))
		got, err, _ := call(cert.NewChainResolver(rs...), context.WithValue(context.Background(), ctxKey{}, x), kind, refs[0])
		if first == n {
			if err == nil || got != nil {
				c.Fail("all sources failed, but the chain did not", "history", h, "got", fmt.Sprint(got))
			}
			for _, e := range x.errs {
				if !errors.Is(err, e) && !strings.Contains(err.Error(), e.Error()) {
					c.Fail("a source's error is lost", "history", h, "error", err.Error())
				}
			}
			return
		}
		if err != nil || got != x.gave[first] || !proto.Equal(got, x.snaps[first]) {
			c.Fail("an error of this kind stops the chain", "errors", fmt.Sprint(x.errs[:first]), "error", fmt.Sprint(err), "asked", x.asked)
		}
		if len(x.asked) != first+1 {
			c.Fail("sources not asked in order, each once", "errors", fmt.Sprint(x.errs[:first]), "asked", x.asked)
		}
	})

	// The default chain: embedded certificates first, then the network.
	genuine := map[bool][]byte{}
	genuine[false] = ref.GoodRSACert("root", 1, 2, "ca")
	genuine[true] = ref.GoodECCert(&ref.Curves[0], "gca", 1, 2, "card")
	k.Explore("the default chain", 0, func(c *mc.Ch) {
		depth := mc.Pick2(k, 2, 3)
		h := ""
		for d := 0; d < depth; d++ {
			op := c.Free(7)
			mode := c.Free(4)
			h += fmt.Sprint(op, mode, " ")
			c.Visit(mc.HashS("default" + h))
			n := 0
			rt := transport(func(r *http.Request) (*http.Response, error) {
				n++
				status, body := 200, genuine[op == 4 || op == 5]
				switch mode {
				case 1:
					return nil, errors.New("no network")
				case 2:
					status = 404
				case 3:
					body = body[:40]
				}
				return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Body: io.NopCloser(strings.NewReader(string(body))), Request: r, Header: http.Header{}, ProtoMajor: 1, ProtoMinor: 1}, nil
			})
			var r tachograph.CertificateResolver
			client := &http.Client{Transport: rt}
			// What DefaultCertificateResolver builds, over this transport.
			r = cert.NewChainResolver(cert.NewEmbeddedResolver(), cert.NewClient(client))
			ctx := context.Background()
			var err error
			var ok bool
			embedded, listed := false, true
			switch op {
			case 0:
				var x *securityv1.RootCertificate
				x, err = r.GetRootCertificate(ctx)
				ok = x.GetKeyId() == "18250066869723594497"
				embedded = true
			case 1:
				var x *securityv1.RsaCertificate
				x, err = r.GetRsaCertificate(ctx, "1316820541096591105")
				ok = len(x.GetRawData()) == 194 && string(x.GetRawData()) != string(genuine[false])
				embedded = true
			case 2:
				var x *securityv1.EccCertificate
				x, err = r.GetEccCertificate(ctx, "1316820541130145537")
				ok = x.GetCertificateHolderReference() == "1316820541130145537"
				embedded = true
			case 3:
				var x *securityv1.RsaCertificate
				x, err = r.GetRsaCertificate(ctx, "234554709598273281")
				ok = string(x.GetRawData()) == string(genuine[false])
			case 4:
				var x *securityv1.EccCertificate
				x, err = r.GetEccCertificate(ctx, "1677399683661561601")
				ok = string(x.GetRawData()) == string(genuine[true])
			case 5:
				_, err = r.GetEccCertificate(ctx, "12345")
				listed = false
			case 6:
				_, err = r.GetRsaCertificate(ctx, "12345")
				listed = false
			}
			switch {
			case embedded && (err != nil || !ok || n > 0):
				c.Fail("default chain: embedded certificate", "history", h, "error", fmt.Sprint(err), "requests", n)
			case !embedded && listed && mode == 0 && (err != nil || !ok):
				c.Fail("default chain: remote certificate", "history", h, "error", fmt.Sprint(err))
			case !embedded && (!listed || mode != 0) && err == nil:
				c.Fail("default chain: success without a certificate", "history", h)
			}
			c.Outcome(fmt.Sprint("default ", op, err == nil))
		}
	})
	k.Explore("the resolver the library uses by default", 0, func(c *mc.Ch) {
		r := tachograph.DefaultCertificateResolver()
		ctx, cancel := context.WithCancel(context.Background())
		cancel() // no request leaves
		c.Visit(1)
		if x, err := r.GetRootCertificate(ctx); err != nil || x.GetKeyId() != "18250066869723594497" {
			c.Fail("default root", "error", fmt.Sprint(err))
		}
		if x, err := r.GetRsaCertificate(ctx, "1316820541096591105"); err != nil || len(x.GetRawData()) != 194 {
			c.Fail("default generation 1 certificate", "error", fmt.Sprint(err))
		}
		if x, err := r.GetEccCertificate(ctx, "1316820541130145537"); err != nil || x.GetCertificateHolderReference() != "1316820541130145537" {
			c.Fail("default generation 2 certificate", "error", fmt.Sprint(err))
		}
		if _, err := r.GetRsaCertificate(ctx, "234554709598273281"); !errors.Is(err, context.Canceled) {
			c.Fail("default chain does not reach the network", "error", fmt.Sprint(err))
		}
		if _, err := r.GetEccCertificate(ctx, "1677399683661561601"); !errors.Is(err, context.Canceled) {
			c.Fail("default chain does not reach the network", "error", fmt.Sprint(err))
		}
	})
	k.Assume("a source either gives a certificate without an error or fails; a nil certificate without an error is outside the interface")
}

type transport func(*http.Request) (*http.Response, error)

func (t transport) RoundTrip(r *http.Request) (*http.Response, error) { return t(r) }
