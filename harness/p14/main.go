// P14: parsing is a pure function of the bytes; results do not share memory.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	"github.com/way-platform/tachograph-go/internal/verifmc/world"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func main() { mc.Main("P14", run) }

type input struct {
	name string
	b    []byte
	// what the first parse, in a fresh process state, gave
	file *tachographv1.File
	out  []byte
	err  string
	ver  string
	done *tachographv1.File // after verifying
}

// object is one parsed file of an execution.
type object struct {
	in   *input
	buf  []byte // what it was parsed from
	want []byte // what buf should hold
	file *tachographv1.File
	snap *tachographv1.File
	own  bool // still as parsed
	ver  bool // verified
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func verify(f *tachographv1.File, r *world.Resolver) string {
	return errText(tachograph.VerifyOptions{CertificateResolver: r}.VerifyFile(context.Background(), f))
}

func prepare(name string, b []byte) *input {
	in := &input{name: name, b: b}
	f, err := tachograph.UnmarshalFile(bytes.Clone(b))
	if err != nil {
		panic(name + ": " + err.Error())
	}
	in.file = proto.CloneOf(f)
	in.out, err = tachograph.MarshalFile(f)
	in.err = errText(err)
	in.out = bytes.Clone(in.out)
	in.ver = verify(f, world.NewResolver(nil))
	in.done = proto.CloneOf(f)
	return in
}

const nOps = 7

var opNames = [nOps]string{"overwrite the input", "marshal, then overwrite the output", "verify", "anonymise", "print", "overwrite its bytes", "marshal as protobuf"}

func anonymise(f *tachographv1.File) []proto.Message {
	t, g := f.GetDriverCard().GetTachograph(), f.GetDriverCard().GetTachographG2()
	return []proto.Message{
		card.AnonymizeIdentification(t.GetIdentification()), card.AnonymizeVehiclesUsed(t.GetVehiclesUsed()), card.AnonymizePlaces(t.GetPlaces()),
		card.AnonymizeIdentification(g.GetIdentification()), card.AnonymizePlacesG2(g.GetPlaces()),
	}
}

// steps runs operations chosen by c.
func steps(c *mc.Ch, ins []*input, depth int, objs int) {
	r := world.NewResolver(nil)
	fresh := world.NewResolver(nil)
	var live []*object
	for d := 0; d < depth; d++ {
		n := len(ins)
		if len(live) == objs {
			n = 0
		}
		a := c.Free(n + nOps*len(live))
		what := ""
		if a < n {
			in := ins[a]
			o := &object{in: in, buf: bytes.Clone(in.b), own: true}
			o.want = bytes.Clone(in.b)
			f, err := tachograph.UnmarshalFile(o.buf)
			what = "parse " + in.name
			c.Log("%s", what)
			if err != nil {
				c.Fail(what+": refused after other operations: "+ef.Class(err), "error", err.Error())
			}
			if !proto.Equal(f, in.file) {
				p, diff := mc.Diff(mc.Flatten(in.file), mc.Flatten(f))
				c.Fail(what+": another result than the first time: "+p, "diff", diff)
			}
			o.file, o.snap = f, proto.CloneOf(f)
			live = append(live, o)
		} else {
			a -= n
			i := a / nOps
			o := live[i]
			what = fmt.Sprintf("%s (%s)", opNames[a%nOps], o.in.name)
			c.Log("%s of object %d", what, i)
			switch a % nOps {
			case 0:
				world.Flip(o.buf)
				world.Flip(o.want)
			case 1:
				out, err := tachograph.MarshalFile(o.file)
				if o.own && (errText(err) != o.in.err || !bytes.Equal(out, o.in.out)) {
					c.Fail(what+": another result than the first time", "error", errText(err), "output", out, "want", o.in.out)
				}
				if err == nil {
					out2, err2 := tachograph.MarshalFile(o.file)
					if err2 != nil || !bytes.Equal(out, out2) {
						c.Fail(what+": twice gives two results", "first", out, "second", out2)
					}
					world.Flip(out)
				}
			case 2:
				v := verify(o.file, r)
				if o.own {
					if v != o.in.ver || !proto.Equal(o.file, o.in.done) {
						c.Fail(what+": another result than the first time", "error", v, "want", o.in.ver)
					}
				}
				o.snap = proto.CloneOf(o.file) // verifying marks the certificates
				if o.own {
					o.ver = true
				}
			case 3:
				before := proto.CloneOf(o.file)
				x := anonymise(o.file)
				y := anonymise(o.file)
				for j := range x {
					if !proto.Equal(x[j], y[j]) {
						c.Fail(what+": twice gives two results", "index", j)
					}
				}
				if !proto.Equal(before, o.file) {
					c.Fail(what + ": changes the file")
				}
			case 4:
				_, err := protojson.Marshal(o.file)
				if o.own && err != nil {
					c.Fail(what+": "+ef.Class(err), "error", err.Error())
				}
			case 5:
				world.Scribble(o.file)
				o.snap = proto.CloneOf(o.file)
				o.own = false
			case 6:
				b, err := proto.MarshalOptions{Deterministic: true}.Marshal(o.file)
				if o.own && err != nil {
					c.Fail(what+": "+ef.Class(err), "error", err.Error())
				}
				if err == nil {
					world.Flip(b)
				}
			}
			if o.ver {
				o.own = false // certificates are marked from now on; compare with the snapshot only
			}
		}
		// Nothing else moved.
		var h uint64
		for i, o := range live {
			if !bytes.Equal(o.buf, o.want) {
				c.Fail(what+": changes an input buffer", "object", i, "of", o.in.name)
			}
			if !proto.Equal(o.file, o.snap) {
				p, diff := mc.Diff(mc.Flatten(o.snap), mc.Flatten(o.file))
				c.Fail(what+": changes a parsed file: "+p, "object", i, "of", o.in.name, "diff", diff)
			}
			st := fmt.Sprint(i, o.in.name, o.own, o.ver, bytes.Equal(o.buf, o.in.b))
			h = h*31 + mc.HashS(st)
		}
		c.Visit(h)
		if !proto.Equal(r.Root, fresh.Root) {
			c.Fail(what + ": changes the resolver's root certificate")
		}
		for k := range r.RSA {
			if !proto.Equal(r.RSA[k], fresh.RSA[k]) {
				c.Fail(what + ": changes the resolver's RSA certificate")
			}
		}
		for k := range r.ECC {
			if !proto.Equal(r.ECC[k], fresh.ECC[k]) {
				c.Fail(what + ": changes the resolver's ECC certificate")
			}
		}
	}
	c.Outcome("done")
}

// shared parses data, overwrites everything around the result and compares.
func shared(c *mc.Ch, data []byte, what string) {
	c.Visit(mc.Hash(data))
	buf := bytes.Clone(data)
	f, err := tachograph.UnmarshalFile(buf)
	if !bytes.Equal(buf, data) {
		c.Fail(what+": parsing changes its input", "file", data)
	}
	// The input may lie in a larger buffer.
	big := append(bytes.Repeat([]byte{0xEE}, 16), data...)
	big = append(big, bytes.Repeat([]byte{0xEE}, 64)...)
	f2, err2 := tachograph.UnmarshalFile(big[16 : 16+len(data)])
	if !bytes.Equal(big[16:16+len(data)], data) || !bytes.Equal(big[16+len(data):], bytes.Repeat([]byte{0xEE}, 64)) {
		c.Fail(what+": parsing changes the buffer around its input", "file", data)
	}
	if errText(err) != errText(err2) || !proto.Equal(f, f2) {
		c.Fail(what+": equal bytes give different results", "file", data, "first", errText(err), "second", errText(err2))
	}
	if err != nil {
		c.Outcome("refused")
		return
	}
	snap := proto.CloneOf(f)
	world.Flip(buf)
	if !proto.Equal(f, snap) {
		p, diff := mc.Diff(mc.Flatten(snap), mc.Flatten(f))
		c.Fail(what+": overwriting the input changes the result: "+p, "diff", diff, "file", data)
	}
	out, merr := tachograph.MarshalFile(f)
	if !proto.Equal(f, snap) {
		p, diff := mc.Diff(mc.Flatten(snap), mc.Flatten(f))
		c.Fail(what+": marshalling changes the file: "+p, "diff", diff, "file", data)
	}
	keep := bytes.Clone(out)
	out2, merr2 := tachograph.MarshalFile(f)
	if errText(merr) != errText(merr2) || !bytes.Equal(out, out2) {
		c.Fail(what+": marshalling twice gives two results", "file", data, "first", out, "second", out2)
	}
	world.Flip(out)
	if !proto.Equal(f, snap) {
		p, diff := mc.Diff(mc.Flatten(snap), mc.Flatten(f))
		c.Fail(what+": overwriting the output changes the file: "+p, "diff", diff, "file", data)
	}
	if len(out2) > 0 && !bytes.Equal(out2, keep) {
		c.Fail(what+": two outputs share memory", "file", data)
	}
	anonymise(f)
	if !proto.Equal(f, snap) {
		p, diff := mc.Diff(mc.Flatten(snap), mc.Flatten(f))
		c.Fail(what+": anonymising changes the file: "+p, "diff", diff, "file", data)
	}
	world.Scribble(f)
	if !proto.Equal(f2, snap) {
		p, diff := mc.Diff(mc.Flatten(snap), mc.Flatten(f2))
		c.Fail(what+": two results of parsing share memory: "+p, "diff", diff, "file", data)
	}
	if !bytes.Equal(big[16:16+len(data)], data) {
		c.Fail(what+": a result shares memory with the input", "file", data)
	}
	c.Outcome("accepted")
}

// edited marshals and anonymises a file that was changed.
func edited(c *mc.Ch, f *tachographv1.File, what string) {
	snap := proto.CloneOf(f)
	same := func(how string) {
		if !proto.Equal(f, snap) {
			p, diff := mc.Diff(mc.Flatten(snap), mc.Flatten(f))
			c.Fail(how+" a changed file: "+p, "changed", what, "diff", diff)
		}
	}
	out, err := tachograph.MarshalFile(f)
	same("marshalling changes")
	keep := bytes.Clone(out)
	out2, err2 := tachograph.MarshalFile(f)
	if errText(err) != errText(err2) || !bytes.Equal(out, out2) {
		c.Fail("marshalling twice gives two results", "changed", what, "first", out, "second", out2, "error", errText(err), "second error", errText(err2))
	}
	world.Flip(out)
	same("overwriting the output changes")
	if !bytes.Equal(out2, keep) {
		c.Fail("two outputs share memory", "changed", what)
	}
	anonymise(f)
	same("anonymising changes")
	if err != nil {
		c.Outcome("changed: refused")
		return
	}
	c.Outcome("changed: written")
}

func run(k *mc.Check) {
	all := []*input{
		prepare("driver card", world.Driver(0)),
		prepare("other driver card", world.Driver(1)),
		prepare("raw card", world.Raw()),
		prepare("generation 1 vehicle unit", world.VU1(0)),
		prepare("generation 2 vehicle unit", world.VU2(2)),
		prepare("small driver card", world.Small(true, true)),
	}
	if all[0].ver != "" || all[1].ver == "" || all[5].ver != "" {
		k.Violation("the genuine card does not verify, or the altered one does", all[0].ver)
	}
	k.Explore("every sequence of two operations over six files", 0, func(c *mc.Ch) { steps(c, all, 2, 3) })
	k.Explore(fmt.Sprintf("every sequence of %d operations over three files", mc.Pick2(k, 5, 6)), 0, func(c *mc.Ch) {
		steps(c, []*input{all[5], all[3], all[2]}, mc.Pick2(k, 5, 6), 3)
	})
	k.Explore(fmt.Sprintf("every sequence of %d operations over two full driver cards", mc.Pick2(k, 4, 5)), 0, func(c *mc.Ch) {
		steps(c, all[:2], mc.Pick2(k, 4, 5), 2)
	})
	k.Explore(fmt.Sprintf("every sequence of %d operations over two vehicle unit files", mc.Pick2(k, 4, 6)), 0, func(c *mc.Ch) {
		steps(c, all[3:5], mc.Pick2(k, 4, 6), 2)
	})
	// Sharing for every content.
	for _, s := range ref.Slots {
		content := s.Content(1)
		sig := -1
		if s.Signed {
			sig = 0
		}
		k.Explore(s.Name+": edge values in any byte", 1, func(c *mc.Ch) {
			b := bytes.Clone(content)
			ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 24, 256))
			rs := append([]ref.Record{{FID: 2, Value: ref.Icc}}, s.Records(b, sig)...)
			if s.Name == "icc" {
				rs = s.Records(b, sig)
			}
			shared(c, ref.Join(rs), s.Name)
		})
	}
	// Files that were changed after they were read.
	nums := []int64{math.MinInt64, -1 << 31, -1, 0, 1, 7, 99, 100, 255, 256, 999, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, math.MaxInt64}
	lister := &ef.Lister{Every: k.Thorough(), Only: "driver_card"}
	for _, s := range ref.Slots {
		sig := -1
		if s.Signed {
			sig = 0
		}
		var files []*tachographv1.File
		var fields [][]ef.Field
		for x := range mc.Pick2(k, 2, 4) {
			rs := s.Records(s.Content(x), sig)
			if s.Name != "icc" {
				rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
			}
			if f, err := tachograph.UnmarshalFile(ref.Join(rs)); err == nil {
				var fs []ef.Field
				for _, y := range lister.Fields(f.ProtoReflect(), "") {
					if s.Name == "icc" || !strings.HasPrefix(y.Name, ".driver_card.icc.") {
						fs = append(fs, y)
					}
				}
				files, fields = append(files, f), append(fields, fs)
			}
		}
		k.Explore(s.Name+": any field set or cleared before marshalling", 0, func(c *mc.Ch) {
			i := c.Free(len(files))
			f := proto.CloneOf(files[i])
			x := &fields[i][c.Free(len(fields[i]))]
			vs := ef.Values(x.FD, x.At(f.ProtoReflect()), nums)
			n := c.Free(len(vs) + 1)
			if c.Free(2) == 1 {
				ef.Bare(f.ProtoReflect())
			}
			v := "cleared"
			if n < len(vs) {
				v = vs[n].String()
				x.Set(f.ProtoReflect(), vs[n])
			} else {
				x.Clear(f.ProtoReflect())
			}
			if c.WantLog() {
				c.Log("%s %s=%.60q", s.Name, x.Name, v)
			}
			c.Visit(mc.HashS(s.Name + x.Name + "=" + v))
			edited(c, f, s.Name+" "+mc.Generic(x.Name))
		})
	}
	type trans struct {
		name string
		b    []byte
	}
	one := func(int) int { return 1 }
	ts := []trans{
		{"overview 01", ref.JoinVU([]ref.Transfer{{TREP: 1, B: ref.Overview1(1, 1)}})},
		{"activities 02", ref.JoinVU([]ref.Transfer{{TREP: 1, B: ref.Overview1(0, 0)}, {TREP: 2, B: ref.Activities1(1, 2, 1, 1)}})},
		{"faults 03", ref.JoinVU([]ref.Transfer{{TREP: 1, B: ref.Overview1(0, 0)}, {TREP: 3, B: ref.Faults1(1, 1, 1, 1)}})},
		{"speed 04", ref.JoinVU([]ref.Transfer{{TREP: 1, B: ref.Overview1(0, 0)}, {TREP: 4, B: ref.Speed1(1)}})},
		{"technical 05", ref.JoinVU([]ref.Transfer{{TREP: 1, B: ref.Overview1(0, 0)}, {TREP: 5, B: ref.Technical1(1)}})},
		{"raw card", world.Raw()},
	}
	for _, t := range []byte{0x21, 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35} {
		ts = append(ts, trans{fmt.Sprintf("transfer %02x", t), ref.JoinVU([]ref.Transfer{{TREP: t, B: ref.Gen2(t, one)}})})
	}
	for _, t := range ts {
		k.Explore(t.name+": edge values in any byte", 1, func(c *mc.Ch) {
			b := bytes.Clone(t.b)
			ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 12, 256))
			shared(c, b, t.name)
		})
	}
	k.Assume("verifying may mark the certificates of the file it is given (documented); nothing else")
	k.Assume("memory is shared if overwriting every byte slice on one side changes the other side; Go strings cannot be overwritten")
}
