// P26: concurrent use of the library gives the sequential results.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/cert/certcache"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	"github.com/way-platform/tachograph-go/internal/verifmc/vs"
	"github.com/way-platform/tachograph-go/internal/verifmc/world"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-race-ops" {
		raceOps(os.Args[2:])
		return
	}
	mc.Main("P26", run)
}

// shared is what concurrent operations have in common.
type shared struct {
	files  map[string]*tachographv1.File // by name, made when first asked for
	res    *world.Resolver
	chain  cert.Resolver
	client *cert.Client
	emb    *cert.EmbeddedResolver
}

var parsedOnce = map[string]*tachographv1.File{}

// file gives a file that operations share.
func (s *shared) file(name string) *tachographv1.File {
	if s.files[name] == nil {
		s.files[name] = proto.CloneOf(parsedOnce[name])
	}
	return s.files[name]
}

type answer struct {
	m   []proto.Message
	b   []byte
	err error
}

func (a answer) text() string {
	s := ""
	if a.err != nil {
		s = "error: " + a.err.Error() + "\n"
	}
	for _, m := range a.m {
		if m == nil || !m.ProtoReflect().IsValid() {
			s += "nil\n"
			continue
		}
		b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
		s += fmt.Sprint(err, mc.HashS(string(b)), len(b), "\n")
	}
	return s + string(a.b)
}

type op struct {
	name  string
	small bool                          // cheap enough for every statement
	make  func(s *shared) func() answer // prepares; the function does it
}

// transport answers requests from memory.
type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	vs.Mark()
	body := world.CACert
	if strings.Contains(r.URL.Path, "ecc") || bodies2[r.URL.String()] {
		body = world.GCACert
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body)), Request: r, ContentLength: int64(len(body))}, nil
}

var (
	bodies2    = map[string]bool{}
	url1, url2 string // CHRs of downloadable certificates
	emb1, emb2 string // CHRs of embedded certificates
)

func load() {
	parsedOnce["driver"], parsedOnce["vu"], parsedOnce["small"] = parsed(world.Driver(0)), parsed(world.VU1(0)), parsed(world.Small(true, true))
	idx, err := certcache.LoadIndex()
	if err != nil {
		panic(err)
	}
	for _, e := range idx.G1 {
		if _, ok := certcache.ReadG1(e.CHR); ok {
			emb1 = e.CHR
		} else if url1 == "" {
			url1 = e.CHR
		}
	}
	for _, e := range idx.G2 {
		bodies2[e.URL] = true
		if _, ok := certcache.ReadG2(e.CHR); ok {
			emb2 = e.CHR
		} else if url2 == "" {
			url2 = e.CHR
		}
	}
}

var bg = context.Background()

func parsed(b []byte) *tachographv1.File {
	f, err := tachograph.UnmarshalFile(bytes.Clone(b))
	if err != nil {
		panic(err)
	}
	return f
}

func newShared() *shared {
	client := cert.NewClient(&http.Client{Transport: transport{}})
	s := &shared{files: map[string]*tachographv1.File{}, client: client,
		res: world.NewResolver(func(string) { vs.Mark() }), emb: cert.NewEmbeddedResolver()}
	s.chain = cert.NewChainResolver(s.res, s.emb, client)
	return s
}

func parseOp(name string, small bool, data []byte) op {
	return op{name: "parse " + name, small: small, make: func(*shared) func() answer {
		b := bytes.Clone(data)
		return func() answer {
			f, err := tachograph.UnmarshalFile(b)
			return answer{m: []proto.Message{f}, err: err}
		}
	}}
}

func marshalOp(name string, small bool, file func(s *shared) *tachographv1.File) op {
	return op{name: "marshal " + name, small: small, make: func(s *shared) func() answer {
		f := file(s)
		return func() answer {
			b, err := tachograph.MarshalFile(f)
			return answer{b: b, err: err}
		}
	}}
}

func verifyOp(name string, data []byte, res func(s *shared) cert.Resolver) op {
	once := parsed(data)
	return op{name: "verify " + name, small: true, make: func(s *shared) func() answer {
		f := proto.CloneOf(once)
		return func() answer {
			err := tachograph.VerifyOptions{CertificateResolver: res(s)}.VerifyFile(bg, f)
			return answer{m: []proto.Message{f}, err: err}
		}
	}}
}

func getOp(name string, get func(s *shared) (proto.Message, error)) op {
	return op{name: name, small: true, make: func(s *shared) func() answer {
		return func() answer {
			m, err := get(s)
			return answer{m: []proto.Message{m}, err: err}
		}
	}}
}

func fileOps() []op {
	viaChain := func(s *shared) cert.Resolver { return s.chain }
	direct := func(s *shared) cert.Resolver { return s.res }
	return []op{
		parseOp("small driver card", true, world.Small(true, true)),
		parseOp("driver card", false, world.Driver(0)),
		parseOp("other driver card", false, world.Driver(1)),
		parseOp("generation 1 vehicle unit", false, world.VU1(0)),
		parseOp("generation 2 vehicle unit", false, world.VU2(2)),
		parseOp("raw card", true, world.Raw()),
		marshalOp("the shared driver card", false, func(s *shared) *tachographv1.File { return s.file("driver") }),
		marshalOp("the shared small card", true, func(s *shared) *tachographv1.File { return s.file("small") }),
		{name: "print the shared driver card", make: func(s *shared) func() answer {
			return func() answer {
				b, err := protojson.Marshal(s.file("driver"))
				return answer{b: []byte(strings.ReplaceAll(string(b), " ", "")), err: err}
			}
		}},
		{name: "print the shared vehicle unit", make: func(s *shared) func() answer {
			return func() answer {
				b, err := protojson.Marshal(s.file("vu"))
				return answer{b: []byte(strings.ReplaceAll(string(b), " ", "")), err: err}
			}
		}},
		{name: "anonymise the shared driver card", make: func(s *shared) func() answer { return anonymise(s.file("driver")) }},
		{name: "anonymise the shared small card", small: true, make: func(s *shared) func() answer { return anonymise(s.file("small")) }},
		verifyOp("a card, sharing a resolver", world.Small(true, true), direct),
		verifyOp("a card of generation 1 only", world.Small(true, false), direct),
		verifyOp("a card through a chain", world.Small(true, true), viaChain),
		verifyOp("an altered card", world.Driver(1), direct),
		getOp("embedded root", func(s *shared) (proto.Message, error) { return s.emb.GetRootCertificate(bg) }),
		getOp("embedded RSA certificate", func(s *shared) (proto.Message, error) { return s.emb.GetRsaCertificate(bg, emb1) }),
		getOp("embedded ECC certificate", func(s *shared) (proto.Message, error) { return s.emb.GetEccCertificate(bg, emb2) }),
		getOp("RSA certificate from a chain", func(s *shared) (proto.Message, error) { return s.chain.GetRsaCertificate(bg, emb1) }),
		getOp("download an RSA certificate", func(s *shared) (proto.Message, error) { return s.client.GetRsaCertificate(bg, url1) }),
		getOp("download an ECC certificate", func(s *shared) (proto.Message, error) { return s.client.GetEccCertificate(bg, url2) }),
	}
}

func anonymise(f *tachographv1.File) func() answer {
	return func() answer {
		t, g := f.GetDriverCard().GetTachograph(), f.GetDriverCard().GetTachographG2()
		return answer{m: []proto.Message{card.AnonymizeIdentification(t.GetIdentification()), card.AnonymizeVehiclesUsed(t.GetVehiclesUsed()),
			card.AnonymizePlaces(t.GetPlaces()), card.AnonymizeIdentification(g.GetIdentification()), card.AnonymizePlacesG2(g.GetPlaces())}}
	}
}

// raceOps runs the operation of the first number with each later one, and in
// groups of so many as the second number says, in this process, which is
// built with the race detector.
func raceOps(args []string) {
	if !raceOn {
		fmt.Println("not built with the race detector")
		os.Exit(3)
	}
	load()
	ops := fileOps()
	s := newShared()
	for _, n := range []string{"driver", "vu", "small"} {
		s.file(n)
	}
	first, _ := strconv.Atoi(args[0])
	size, _ := strconv.Atoi(args[1])
	var group func(g []int)
	group = func(g []int) {
		if len(g) < size {
			for j := g[len(g)-1]; j < len(ops); j++ {
				group(append(g[:len(g):len(g)], j))
			}
			return
		}
		fmt.Fprintln(os.Stderr, "group", g)
		for round := 0; round < 2; round++ {
			start := make(chan struct{})
			var wg sync.WaitGroup
			for _, i := range g {
				do := ops[i].make(s)
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					do()
				}()
			}
			close(start)
			wg.Wait()
		}
	}
	group([]int{first})
	fmt.Fprintln(os.Stderr, "done")
}

var frame = regexp.MustCompile(`(?m)^  ([\w./*()\[\]-]+)\(\)$`)

// judgeRace runs an operation with all later ones under the race detector.
func judgeRace(c *mc.Ch, ops []op, first, size int) {
	c.Log("%s with groups of %d", ops[first].name, size)
	cmd := exec.Command(os.Getenv("VERIF_BIN_RACE"), "-race-ops", strconv.Itoa(first), strconv.Itoa(size))
	cmd.Env = append(os.Environ(), "GORACE=exitcode=66 history_size=5", "GOMAXPROCS=4")
	out, err := cmd.CombinedOutput()
	s := string(out)
	at := func(i int) (string, uint64) { // the group that was running
		if j := strings.LastIndex(s[:i], "group ["); j >= 0 {
			g, _, _ := strings.Cut(s[j+7:], "]")
			var names []string
			for _, f := range strings.Fields(g) {
				x, _ := strconv.Atoi(f)
				names = append(names, ops[x].name)
			}
			return strings.Join(names, " || "), mc.HashS(g)
		}
		return "", 0
	}
	for i := 0; ; {
		j := strings.Index(s[i:], "group [")
		if j < 0 {
			break
		}
		i += j + 7
		_, h := at(i)
		c.Visit(h)
	}
	if err == nil && strings.Contains(s, "done") {
		c.Outcome("no race")
		return
	}
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		where := ""
		for _, m := range frame.FindAllStringSubmatch(s[i:], -1) {
			if strings.Contains(m[1], "tachograph-go") && !strings.Contains(m[1], "verifmc") {
				where = m[1][strings.LastIndexByte(m[1], '/')+1:]
				break
			}
		}
		names, _ := at(i)
		c.Fail("data race in "+where, "operations", names, "report", s[i:min(len(s), i+3000)])
	}
	names, _ := at(len(s))
	if i := strings.Index(s, "fatal error: concurrent map"); i >= 0 {
		c.Fail("concurrent map access", "operations", names, "report", s[i:min(len(s), i+3000)])
	}
	c.Fail("the race run ends early", "operations", names, "error", fmt.Sprint(err), "output", s[max(0, len(s)-3000):])
}

// points measures an operation run alone: its scheduling points and its answer.
func points(o op) (int, string) {
	s := newShared()
	do := o.make(s)
	var a answer
	t := vs.Go(func() { a = do() })
	if !t.Run(0) {
		panic("an operation alone does not end: " + o.name)
	}
	if t.Panic != "" {
		panic(o.name + ": " + t.Panic)
	}
	return t.N(), a.text()
}

type meas struct {
	op
	n    int
	want string
}

func measure(ops []op) []meas {
	var out []meas
	for _, o := range ops {
		n, w := points(o)
		out = append(out, meas{o, n, w})
	}
	return out
}

// together runs operations by the plan and compares each with its own result.
func together(c *mc.Ch, ms []meas, plan func(ts []*vs.Task)) {
	s := newShared()
	ca := proto.CloneOf(s.res.RSA[fmt.Sprint(uint64(world.CAID))])
	answers := make([]answer, len(ms))
	var ts []*vs.Task
	var names []string
	for i, m := range ms {
		do := m.make(s)
		ts = append(ts, vs.Go(func() { answers[i] = do() }))
		names = append(names, m.name)
	}
	all := strings.Join(names, " || ")
	plan(ts)
	if !vs.Finish(ts...) {
		c.Fail("operations block each other: "+all, "log", "see devs")
	}
	for i, m := range ms {
		if ts[i].Panic != "" {
			c.Fail("panic: "+m.name, "with", all, "panic", ts[i].Panic)
		}
		if got := answers[i].text(); got != m.want {
			c.Fail("another result than alone: "+m.name, "with", all, "got", got[:min(len(got), 1500)], "want", m.want[:min(len(m.want), 1500)])
		}
	}
	same := func(what string, want, got proto.Message) {
		if !proto.Equal(want, got) {
			p, d := mc.Diff(mc.Flatten(want), mc.Flatten(got))
			c.Fail("changes what is shared: "+what+" "+p, "operations", all, "diff", d)
		}
	}
	for name, f := range s.files {
		same(name, parsedOnce[name], f)
	}
	same("CA certificate", ca, s.res.RSA[fmt.Sprint(uint64(world.CAID))])
	c.Outcome(all)
}

// preempt explores every schedule of a and b with at most bound preemptions.
func preempt(k *mc.Check, title string, a, b meas, bound int) {
	k.Explore(title, 0, func(c *mc.Ch) {
		ms := []meas{a, b}
		first := 0
		if a.name != b.name || a.want != b.want {
			first = c.Free(2)
		}
		i := 1 + c.Free(ms[first].n+1) // one more: no preemption
		j := 0
		if bound > 1 && i <= ms[first].n {
			j = 1 + c.Free(ms[1-first].n+1)
		}
		c.Log("%s runs to point %d, %s to %d (0 is its end), the first to its end", ms[first].name, i, ms[1-first].name, j)
		c.Visit(mc.HashS(fmt.Sprint(title, first, i, j)))
		together(c, ms, func(ts []*vs.Task) {
			ts[first].Run(i)
			ts[1-first].Run(j)
			ts[first].Run(0)
		})
	})
}

func run(k *mc.Check) {
	load()
	k.Timed = vs.Late
	ops := fileOps()
	k.Explore("every pair of operations under the race detector", 0, func(c *mc.Ch) {
		judgeRace(c, ops, c.Free(len(ops)), 2)
	})
	if k.Thorough() {
		k.Explore("every three operations under the race detector", 0, func(c *mc.Ch) {
			judgeRace(c, ops, c.Free(len(ops)), 3)
		})
	}
	ms := measure(ops)
	total := 0
	for _, m := range ms {
		total += m.n
	}
	k.Extra("scheduling points per operation", func() map[string]int {
		x := map[string]int{}
		for _, m := range ms {
			x[m.name] = m.n
		}
		return x
	}())
	if total == 0 {
		k.Violation("the instrumented library passes no scheduling points", nil)
		return
	}
	var small []meas
	for _, m := range ms {
		if m.small {
			small = append(small, m)
		}
	}
	for i := range small {
		for j := i; j < len(small); j++ {
			preempt(k, fmt.Sprintf("one preemption anywhere: %s || %s", small[i].name, small[j].name), small[i], small[j], 1)
		}
	}
	if k.Thorough() {
		for i := range ms {
			for j := i; j < len(ms); j++ {
				if ms[i].small && ms[j].small {
					continue
				}
				preempt(k, fmt.Sprintf("one preemption anywhere: %s || %s", ms[i].name, ms[j].name), ms[i], ms[j], 1)
			}
		}
	}
	// Each elementary file with itself, parsed and written.
	for _, sl := range ref.Slots {
		mk := func(x int) (op, op) {
			sig := -1
			if sl.Signed {
				sig = x
			}
			rs := sl.Records(sl.Content(x), sig)
			if sl.Name != "icc" {
				rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
			}
			data := ref.Join(rs)
			return parseOp(fmt.Sprint(sl.Name, " ", x), true, data), marshalOp(fmt.Sprint(sl.Name, " ", x), true, func(*shared) *tachographv1.File { return parsed(data) })
		}
		p0, m0 := mk(0)
		p1, m1 := mk(1)
		x := measure([]op{p0, p1, m0, m1})
		preempt(k, "one preemption anywhere: two cards with "+sl.Name+" parsed", x[0], x[1], 1)
		preempt(k, "one preemption anywhere: two cards with "+sl.Name+" marshalled", x[2], x[3], 1)
		preempt(k, "one preemption anywhere: "+sl.Name+" parsed and marshalled", x[0], x[3], 1)
	}
	one := func(int) int { return 1 }
	for _, t := range []byte{1, 2, 3, 4, 5, 0x21, 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35} {
		mk := func(x int) op {
			var b []byte
			n := 1 + x
			switch t {
			case 1:
				b = ref.Overview1(n, 1)
			case 2:
				b = ref.Activities1(1, n, 1, 1)
			case 3:
				b = ref.Faults1(n, 1, 1, 1)
			case 4:
				b = ref.Speed1(n)
			case 5:
				b = ref.Technical1(n)
			default:
				b = ref.Gen2(t, one)
				for i := range b {
					if x == 1 && i > len(b)-20 {
						b[i] ^= 0x55
					}
				}
			}
			return parseOp(fmt.Sprintf("transfer %02x %d", t, x), true, ref.JoinVU([]ref.Transfer{{TREP: t, B: b}}))
		}
		x := measure([]op{mk(0), mk(1)})
		preempt(k, fmt.Sprintf("one preemption anywhere: two transfers %02x parsed", t), x[0], x[1], 1)
	}
	// Two preemptions where operations are short.
	max := mc.Pick2(k, 70, 1500)
	for i := range ms {
		for j := i; j < len(ms); j++ {
			if ms[i].n <= max && ms[j].n <= max {
				preempt(k, fmt.Sprintf("two preemptions anywhere: %s || %s", ms[i].name, ms[j].name), ms[i], ms[j], 2)
			}
		}
	}
	// All interleavings at the calls of the resolver and of the network.
	var calls []meas
	for _, m := range ms {
		if strings.HasPrefix(m.name, "verify") || strings.HasPrefix(m.name, "download") || strings.HasPrefix(m.name, "RSA") {
			calls = append(calls, m)
		}
	}
	k.Explore("every interleaving of three operations at the calls they make", 0, func(c *mc.Ch) {
		n := len(calls)
		i := c.Free(n)
		j := c.Free(n)
		l := c.Free(n)
		if j < i || l < j {
			return
		}
		together(c, []meas{calls[i], calls[j], calls[l]}, func(ts []*vs.Task) {
			last := -1
			switches := 0
			for {
				var can []int
				for x, t := range ts {
					if !t.Done() {
						can = append(can, x)
					}
				}
				if len(can) == 0 {
					return
				}
				x := can[0]
				if len(can) > 1 && switches < mc.Pick2(k, 4, 12) {
					x = can[c.Free(len(can))]
				}
				if x != last {
					switches++
				}
				last = x
				if !ts[x].Run(-1) {
					return
				}
			}
		})
	})
	k.Assume("code is preempted between statements, not within one; the race detector covers conflicting accesses within statements")
	k.Assume("the race detector judges the pairs of accesses that happen in the runs made; accesses depend on the inputs only")
	_ = ef.Class
}
