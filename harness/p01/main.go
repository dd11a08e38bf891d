// P01: parsing any byte string ends in a value or an error, never a crash.
package main

import (
	"bytes"
	"context"
	"fmt"
	"runtime/metrics"
	"sync"
	"time"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	"github.com/way-platform/tachograph-go/internal/verifmc/vs"
	"github.com/way-platform/tachograph-go/internal/verifmc/world"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func main() { mc.Main("P01", run) }

// What an operation may take: so many statements and bytes of memory, and so
// many more for each byte of input.
const (
	stepsBase, stepsByte = 10000, 200
	memBase, memByte     = 48 << 20, 4000
)

var (
	mu       sync.RWMutex
	maxSteps float64
	maxMem   float64
	maxMu    sync.Mutex
	resolver = world.NewResolver(nil)
)

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// bounded runs an operation on an input of that size.
func bounded(c *mc.Ch, what string, size int, f func()) {
	limit := stepsBase + stepsByte*size
	mem := uint64(memBase + memByte*size)
	mu.RLock()
	before := allocated()
	steps := func() int {
		defer mu.RUnlock()
		return vs.Meter(limit, f)
	}()
	if allocated()-before > mem {
		// Others may have been at work: alone.
		mu.Lock()
		defer mu.Unlock()
		least := uint64(1 << 62)
		for i := 0; i < 5 && least > mem; i++ {
			time.Sleep(time.Duration(10+20*i) * time.Millisecond) // for what others still do
			before = allocated()
			vs.Meter(limit, f)
			least = min(least, allocated()-before)
		}
		if d := least; d > mem {
			c.Fail("takes too much memory: "+what, "bytes", d, "input bytes", size)
		}
	}
	if r := float64(steps) / float64(size+20); r > maxSteps {
		maxMu.Lock()
		maxSteps = max(maxSteps, r)
		maxMu.Unlock()
	}
}

// judge parses the bytes and uses what comes out.
func judge(c *mc.Ch, data []byte) {
	c.Visit(mc.Hash(data))
	var f *tachographv1.File
	var err error
	bounded(c, "UnmarshalFile", len(data), func() { f, err = tachograph.UnmarshalFile(data) })
	if err != nil {
		if f != nil {
			c.Fail("a file and an error", "error", err.Error(), "data", data)
		}
		c.Outcome(ef.Class(err))
		return
	}
	if f == nil {
		c.Fail("neither a file nor an error", "data", data)
	}
	use(c, f, data)
}

// use does with a parsed file what can be done with one.
func use(c *mc.Ch, f *tachographv1.File, data []byte) {
	out := f.GetType().String()
	n := len(data)
	if b, err := proto.Marshal(f); err != nil {
		c.Fail("cannot be written as protobuf: "+ef.Class(err), "error", err.Error(), "data", data)
	} else if g := (&tachographv1.File{}); proto.Unmarshal(b, g) != nil || !proto.Equal(f, g) {
		c.Fail("is changed by writing it as protobuf", "data", data)
	}
	if len(data) > 1500 {
		// its parts are tried on their own
	} else if _, err := protojson.Marshal(f); err != nil {
		c.Fail("cannot be written as JSON: "+ef.Class(err), "error", err.Error(), "data", data)
	}
	bounded(c, "MarshalFile", n, func() {
		b, err := tachograph.MarshalFile(f)
		if err != nil && b != nil {
			c.Fail("marshalling gives bytes and an error", "error", err.Error(), "data", data)
		}
		if err != nil {
			out += " unwritable " + ef.Class(err)
		}
	})
	bounded(c, "VerifyFile", n, func() {
		if err := (tachograph.VerifyOptions{CertificateResolver: resolver}).VerifyFile(context.Background(), proto.CloneOf(f)); err != nil {
			out += " unverified " + ef.Class(err)
		}
	})
	t, g := f.GetDriverCard().GetTachograph(), f.GetDriverCard().GetTachographG2()
	bounded(c, "Anonymize", n, func() {
		for _, m := range []proto.Message{
			card.AnonymizeIdentification(t.GetIdentification()), card.AnonymizeVehiclesUsed(t.GetVehiclesUsed()), card.AnonymizePlaces(t.GetPlaces()),
			card.AnonymizeIdentification(g.GetIdentification()), card.AnonymizePlacesG2(g.GetPlaces()),
		} {
			if _, err := proto.Marshal(m); err != nil {
				c.Fail("cannot be written as protobuf when anonymised", "error", err.Error(), "data", data)
			}
		}
	})
	c.Outcome(out)
}

// sample is a file whose bytes are varied.
type sample struct {
	name string
	data []byte
	full bool // vary every byte fully in the quick check
}

func icc(rs ...ref.Record) []byte {
	return ref.Join(append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...))
}

func samples() (ss []sample) {
	for i := range ref.Slots {
		sl := &ref.Slots[i]
		rs := sl.Records(sl.Content(0), -1)
		if sl.Name == "icc" {
			ss = append(ss, sample{"card with icc", ref.Join(rs), true})
			continue
		}
		ss = append(ss, sample{"card with " + sl.Name, icc(rs...), true})
	}
	for k := 0; k < 3; k++ {
		n := 70 + 10*k
		ss = append(ss, sample{fmt.Sprint("card with activities from ", k), icc(ref.Record{FID: 0x0504, Value: ref.ActivityFile(n, 20*k, 2, 3, 1)}), true})
	}
	ss = append(ss, sample{"raw card", world.Raw(), false}, sample{"small card", world.Small(true, true), false}, sample{"driver card", world.Driver(0), false})
	for trep := range 0x36 {
		var b []byte
		switch trep {
		case 1:
			b = ref.Overview1(1, 1)
		case 2:
			b = ref.Activities1(1, 2, 1, 1)
		case 3:
			b = ref.Faults1(1, 1, 1, 1)
		case 4:
			b = ref.Speed1(1)
		case 5:
			b = ref.Technical1(1)
		case 0x21, 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35:
			b = ref.Gen2(byte(trep), func(int) int { return 1 })
		default:
			continue
		}
		ts := []ref.Transfer{{TREP: byte(trep), B: b}}
		ss = append(ss, sample{fmt.Sprintf("vehicle unit %02x", trep), ref.JoinVU(ts), true})
	}
	ss = append(ss, sample{"vehicle unit", world.VU1(0), false}, sample{"vehicle unit g2 v1", world.VU2(1), false}, sample{"vehicle unit g2 v2", world.VU2(2), false})
	return
}

// edge values of a length or count field
var edges = []int{0, 1, 2, 3, 4, 5, 12, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}

func run(k *mc.Check) {
	k.Explore("short strings", 0, func(c *mc.Ch) {
		n := c.Free(mc.Pick2(k, 3, 4))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.Free(256))
		}
		judge(c, b)
	})
	alphabet := []byte{0, 1, 2, 5, 0x20, 0x21, 0x31, 0x76, 0x7F, 0x81, 0xC1, 0xFF}
	k.Explore("strings over a small alphabet", 0, func(c *mc.Ch) {
		b := make([]byte, c.Free(mc.Pick2(k, 4, 7)))
		for i := range b {
			b[i] = alphabet[c.Free(len(alphabet))]
		}
		judge(c, append(mc.FreeOf(c, []byte{}, []byte{0, 2, 0, 0, 25}, []byte{0x76}), b...))
	})
	ss := samples()
	k.Explore("every beginning of a file, and with bytes after it", 0, func(c *mc.Ch) {
		s := &ss[c.Free(len(ss))]
		n := c.Free(len(s.data) + 4)
		b := append(bytes.Clone(s.data), 0, 0x76, 1, 0xFF)[:n+1]
		judge(c, b)
	})
	k.Explore("every end of a file", 0, func(c *mc.Ch) {
		s := &ss[c.Free(len(ss))]
		judge(c, s.data[c.Free(len(s.data)):])
	})
	k.Explore("every piece cut out, whole and by length", 0, func(c *mc.Ch) {
		s := &ss[c.Free(len(ss))]
		at := c.Free(len(s.data))
		n := mc.FreeOf(c, 1, 2, 16)
		judge(c, append(bytes.Clone(s.data[:at]), s.data[min(at+n, len(s.data)):]...))
	})
	for i := range ss {
		s := &ss[i]
		edges := edges
		if len(s.data) > 1500 && !k.Thorough() {
			edges = []int{0, 0x7FFF, 0xFFFF}
		}
		n := mc.Pick2(k, 24, 256)
		if !s.full || len(s.data) > 200 {
			n = mc.Pick2(k, 4, 256)
		}
		k.Explore(s.name+": any value in any one byte", 1, func(c *mc.Ch) {
			b := bytes.Clone(s.data)
			ef.Mutate(c, b, 0, len(b), n)
			judge(c, b)
		})
		k.Explore(s.name+": edge values in any two neighbouring bytes", 0, func(c *mc.Ch) {
			b := bytes.Clone(s.data)
			at := c.Free(len(b) - 1)
			v := edges[c.Free(len(edges))]
			b[at], b[at+1] = byte(v>>8), byte(v)
			judge(c, b)
		})
		if len(s.data) < mc.Pick2(k, 120, 700) {
			k.Explore(s.name+": edge values in any two bytes", 2, func(c *mc.Ch) {
				b := bytes.Clone(s.data)
				ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 2, 6))
				judge(c, b)
			})
		}
	}
	sizes(k)
	k.Extra("most_statements_per_input_byte", int(maxSteps))
	k.Assume(fmt.Sprintf("in proportion to its size: at most %d statements and %d bytes of memory per byte of input, beyond %d statements and %d bytes", stepsByte, memByte, stepsBase, memBase))
}

// sizes has each elementary file with every length of content, and with
// contents as large as a record can be.
func sizes(k *mc.Check) {
	fills := []func(i int) byte{
		func(int) byte { return 0 }, func(int) byte { return 0xFF }, func(int) byte { return 1 },
		func(i int) byte { return byte(i*7 + i>>3) }, func(i int) byte { return byte(i % 2 * 12) }, func(i int) byte { return byte(i%2) * 4 },
	}
	long := []int{300, 512, 1000, 4096, 13780, 30000, 65535}
	k.Explore("every length of content of every kind", 0, func(c *mc.Ch) {
		sl := &ref.Slots[c.Free(len(ref.Slots))]
		n := c.Free(mc.Pick2(k, 130, 600) + len(long))
		if n -= len(long); n < 0 {
			n = long[-n-1]
		}
		fill := fills[c.Free(len(fills))]
		b := make([]byte, n)
		for i := range b {
			b[i] = fill(i)
		}
		if c.Free(2) == 1 {
			copy(b, sl.Content(0))
		}
		judge(c, icc(sl.Records(b, -1)...))
	})
	k.Explore("many records of every kind", 0, func(c *mc.Ch) {
		sl := &ref.Slots[c.Free(len(ref.Slots))]
		n := mc.FreeOf(c, 2, 3, 100, mc.Pick2(k, 400, 2000))
		content := sl.Content(0)
		if c.Free(2) == 1 {
			content = nil
		}
		var rs []ref.Record
		for i := 0; i < n; i++ {
			rs = append(rs, sl.Records(content, c.Free(2)-1+0*i)...)
			if n > 3 {
				for len(rs) < n {
					rs = append(rs, rs[len(rs)-1])
				}
				break
			}
		}
		judge(c, icc(rs...))
	})
	k.Explore("chains of activity records of every kind of step", 0, func(c *mc.Ch) {
		n := mc.FreeOf(c, 40, 1000, 13776, 60000)
		prev, cur := mc.FreeOf(c, 0, 1, 2, 4, 12, 14, n-1, n, n+1, 65535), mc.FreeOf(c, 0, 1, 4, 12, 14, 1000, n, n+1, 65535)
		b := make([]byte, 4+n)
		at := mc.FreeOf(c, 0, 1, n/2, n-1, n, 65535)
		b[2], b[3] = byte(at>>8), byte(at)
		for i := mc.FreeOf(c, 0, 1, 2, 3); i+4 <= n; i += 4 {
			copy(b[4+i:], []byte{byte(prev >> 8), byte(prev), byte(cur >> 8), byte(cur)})
		}
		sl := ref.SlotByName(mc.FreeOf(c, "driver_activity_data", "driver_activity_data g2"))
		judge(c, icc(sl.Records(b, -1)...))
	})
	k.Explore("many transfers of every kind", 0, func(c *mc.Ch) {
		treps := []byte{0, 1, 2, 3, 4, 5, 0x21, 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35}
		trep := treps[c.Free(len(treps))]
		n := mc.FreeOf(c, 1, 100, 3000)
		fill := fills[c.Free(len(fills))]
		size := mc.FreeOf(c, 0, 1, 100, 1000)
		if n*size > 1e6 {
			n = 100
		}
		b := make([]byte, size)
		for i := range b {
			b[i] = fill(i)
		}
		var ts []ref.Transfer
		for range n {
			ts = append(ts, ref.Transfer{TREP: trep, B: b})
		}
		judge(c, ref.JoinVU(ts))
	})
}
