// P32: a field that is cleared is written blank, or nothing is written.
package main

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func main() { mc.Main("P32", run) }

type step struct {
	fd protoreflect.FieldDescriptor
	i  int // element of a list; -1: none
}

type field struct {
	path []step
	name string
}

// left are fields that are not cleared: they say how the rest is laid out.
func left(fd protoreflect.FieldDescriptor) bool {
	n := string(fd.Name())
	switch n {
	case "length", "raw_data", "signature", "valid", "generation", "oldest_day_record_index", "newest_day_record_index", "ecc_certificate", "rsa_certificate":
		return true
	}
	return strings.HasSuffix(n, "_record_length")
}

var every bool

// fields lists the fields of m that are set, messages and what is in them.
func fields(m protoreflect.Message, path []step, name string) (fs []field) {
	fds := m.Descriptor().Fields()
	for i := range fds.Len() {
		fd := fds.Get(i)
		n := name + "." + string(fd.Name())
		if left(fd) || !m.Has(fd) || path == nil && fd.Name() != "driver_card" {
			continue
		}
		at := func(j int) []step { return append(slices.Clone(path), step{fd, j}) }
		switch {
		case fd.IsList() && fd.Message() != nil:
			l := m.Get(fd).List()
			for j := range l.Len() {
				if every || j == 0 || j == l.Len()-1 {
					fs = append(fs, fields(l.Get(j).Message(), at(j), fmt.Sprintf("%s[%d]", n, j))...)
				}
			}
		case fd.IsList():
		case fd.Message() != nil:
			if n != ".driver_card.icc" && len(path) >= 1 {
				fs = append(fs, field{at(-1), n})
			}
			if fd.Message().FullName() != "google.protobuf.Timestamp" {
				fs = append(fs, fields(m.Get(fd).Message(), at(-1), n)...)
			}
		default:
			fs = append(fs, field{at(-1), n})
		}
	}
	return
}

// clear clears the field, and the bytes that stand for it.
func (f *field) clear(m protoreflect.Message) {
	for i, s := range f.path {
		switch n := m.Descriptor().Name(); {
		case n == "DriverActivityData", i == len(f.path)-1 && (n == "StringValue" || n == "Ia5StringValue"):
			m.Clear(m.Descriptor().Fields().ByName("raw_data"))
		}
		if i == len(f.path)-1 {
			m.Clear(s.fd)
			return
		}
		switch {
		case !m.Has(s.fd): // what it is in is cleared
			return
		case s.i >= 0:
			m = m.Mutable(s.fd).List().Get(s.i).Message()
		default:
			m = m.Mutable(s.fd).Message()
		}
	}
}

// bare drops the bytes kept from reading.
func bare(m protoreflect.Message) {
	fds := m.Descriptor().Fields()
	if fd := fds.ByName("raw_data"); fd != nil {
		if v := fds.ByName("valid"); v == nil || m.Get(v).Bool() {
			m.Clear(fd)
		}
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Message() == nil || fd.IsMap():
		case strings.HasSuffix(string(fd.Name()), "_certificate"): // written as issued
		case fd.IsList():
			for i := range v.List().Len() {
				bare(v.List().Get(i).Message())
			}
		default:
			bare(v.Message())
		}
		return true
	})
}

var skip = []string{"raw_data", "signature"}

// opaque says that a field marks whether the record it is in is used, or how
// what is around it is read, so that clearing it has the format read the rest
// in another way.
func opaque(name string) bool {
	for _, x := range []string{".event_begin_time", ".fault_begin_time", ".control_time", ".identification.card.driver_identification", ".identification.card.owner_identification"} {
		if strings.Contains(name, x) {
			return true
		}
	}
	return strings.Contains(name, ".unrecognized_")
}

// write clears the fields and writes the file.
func write(f *tachographv1.File, xs []*field, without bool) (*tachographv1.File, []byte, error) {
	f = proto.CloneOf(f)
	if without {
		bare(f.ProtoReflect())
	}
	for _, x := range xs {
		x.clear(f.ProtoReflect())
	}
	out, err := tachograph.MarshalFile(proto.CloneOf(f))
	return f, out, err
}

func judge(c *mc.Ch, was, other *tachographv1.File, without bool, what string, xs ...*field) {
	f, out, err := write(was, xs, without)
	if other != nil {
		_, out2, err2 := write(other, xs, without)
		if err == nil && err2 == nil && !bytes.Equal(out, out2) {
			c.Fail("what was cleared shows: "+what, "output", out, "with another value", out2)
		}
	}
	if err != nil {
		c.Outcome("refused " + what)
		return
	}
	g, err := tachograph.UnmarshalFile(out)
	if err != nil {
		c.Fail("what is written cannot be read: "+what, "error", err.Error(), "output", out)
	}
	for _, x := range xs {
		if opaque(x.name) {
			c.Outcome("read in another way " + what)
			return
		}
		x.clear(g.ProtoReflect())
	}
	if p, d := mc.Diff(flat(f), flat(g)); p != "" {
		c.Fail("something else changes: "+what, "difference", d, "output", out)
	}
	c.Outcome("cleared " + what)
}

// flat leaves out applications that nothing is left of.
func flat(f *tachographv1.File) mc.Flat {
	x := mc.Flatten(f, skip...)
	for _, n := range []string{"driver_card.tachograph", "driver_card.tachograph_g2"} {
		delete(x, n)
	}
	return x
}

func short(x *field) string { return mc.Generic(strings.TrimPrefix(x.name, ".driver_card.")) }

// onlyIn says whether the files differ in nothing but this field.
func onlyIn(a, b mc.Flat, x *field) bool {
	at := x.name[1:]
	mine := func(p string) bool {
		return p == at || strings.HasPrefix(p, at) && (p[len(at)] == '.' || p[len(at)] == '#' || p[len(at)] == '[')
	}
	differ := false
	for p, v := range a {
		if b[p] != v {
			if !mine(p) {
				return false
			}
			differ = true
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			if !mine(p) {
				return false
			}
			differ = true
		}
	}
	return differ
}

func run(k *mc.Check) {
	every = k.Thorough()
	var wholeRecords []ref.Record
	for i := range ref.Slots {
		sig := -1
		if ref.Slots[i].Signed {
			sig = 3
		}
		wholeRecords = append(wholeRecords, ref.Slots[i].Records(ref.Slots[i].Content(1), sig)...)
	}
	whole, err := tachograph.UnmarshalFile(ref.Join(wholeRecords))
	if err != nil {
		k.Violation("the full card is refused", err.Error())
		return
	}
	for i := range ref.Slots {
		sl := &ref.Slots[i]
		content := sl.Content(1)
		if strings.HasPrefix(sl.Name, "driver_activity_data") {
			content = ref.ActivityFile(54, 0, 3, 2, 4)
		}
		type subject struct {
			name string
			file *tachographv1.File
			flat mc.Flat
			all  bool // the fields say all there is in it
			fs   []field
		}
		var ss []*subject
		have := map[string]bool{}
		add := func(name string, content []byte) {
			rs := sl.Records(content, -1)
			if sl.Name != "icc" {
				rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
			}
			data := ref.Join(rs)
			f, err := tachograph.UnmarshalFile(data)
			if err != nil {
				return
			}
			s := &subject{name: sl.Name + name, file: f, flat: mc.Flatten(f, skip...)}
			b := proto.CloneOf(f)
			bare(b.ProtoReflect())
			out, err := tachograph.MarshalFile(b)
			s.all = err == nil && bytes.Equal(out, data)
			for _, x := range fields(f.ProtoReflect(), nil, "") {
				if g := mc.Generic(x.name); (sl.Name == "icc" || !strings.HasPrefix(x.name, ".driver_card.icc.")) && (every || name == "" || !have[g]) {
					have[g] = true
					s.fs = append(s.fs, x)
				}
			}
			if len(s.fs) > 0 || len(ss) > 0 {
				ss = append(ss, s)
			}
		}
		add("", content)
		if len(ss) == 0 {
			continue
		}
		for at := range content {
			for _, b := range []byte{0, 1, 2, 3, 4, 0xee, 0xff} {
				if other := bytes.Clone(content); other[at] != b {
					other[at] = b
					add(fmt.Sprintf(" with byte %d=%02x", at, b), other)
				}
			}
		}
		// The fields by themselves, and two files that differ in one.
		type pair struct {
			a, b *subject
			x    *field
		}
		var ps []pair
		base := ss[0]
		for _, s := range ss {
			for i := range s.fs {
				ps = append(ps, pair{s, nil, &s.fs[i]})
			}
			for i := range base.fs {
				if s != base && s.all == base.all && onlyIn(base.flat, s.flat, &base.fs[i]) {
					ps = append(ps, pair{base, s, &base.fs[i]})
				}
			}
		}
		k.Explore(sl.Name+": any field cleared", 0, func(c *mc.Ch) {
			p := ps[c.Free(len(ps))]
			without := c.Free(2) == 1
			var other *tachographv1.File
			o := ""
			if p.b != nil {
				other, o = p.b.file, p.b.name
			}
			c.Log("%s %s %s", p.a.name, p.x.name, o)
			c.Visit(mc.HashS(p.a.name + p.x.name + o + fmt.Sprint(without)))
			judge(c, p.a.file, other, without, short(p.x), p.x)
		})
		// Any two of them, and all but one or two.
		var first []*field
		seen := map[string]bool{}
		for i := range base.fs {
			if g := mc.Generic(base.fs[i].name); k.Thorough() || !seen[g] {
				seen[g] = true
				first = append(first, &base.fs[i])
			}
		}
		// In a full card, the records of other files stay as they are.
		k.Explore(sl.Name+": any field cleared in a full card", 0, func(c *mc.Ch) {
			x := first[c.Free(len(first))]
			without := c.Free(2) == 1
			c.Log("%s", x.name)
			c.Visit(mc.HashS("full " + x.name + fmt.Sprint(without)))
			own := func(r ref.Record) bool { // all that is in what is cleared
				for i := range ref.Slots {
					o := &ref.Slots[i]
					if o.Name == sl.Name || x.name == ".driver_card.tachograph" && !strings.HasSuffix(o.Name, " g2") || x.name == ".driver_card.tachograph_g2" && strings.HasSuffix(o.Name, " g2") {
						for _, q := range o.Records([]byte{0}, 0) {
							if q.FID == r.FID && q.Appendix == r.Appendix {
								return true
							}
						}
					}
				}
				return false
			}
			_, out, err := write(whole, []*field{x}, without)
			if err != nil {
				c.Outcome("full card refused " + short(x))
				return
			}
			rs, ok := ref.Split(out)
			if !ok {
				c.Fail("full card: no records: "+short(x), "output", out)
			}
			i := 0
			next := func(rs []ref.Record, i int) int {
				for i < len(rs) && own(rs[i]) {
					i++
				}
				return i
			}
			for j := next(wholeRecords, 0); ; j = next(wholeRecords, j+1) {
				i = next(rs, i)
				if i == len(rs) || j == len(wholeRecords) {
					if i != len(rs) || j != len(wholeRecords) {
						c.Fail("full card: records of other files appear or go: "+short(x), "output", out)
					}
					break
				}
				if a, b := rs[i], wholeRecords[j]; a.FID != b.FID || a.Appendix != b.Appendix || !without && !bytes.Equal(a.Value, b.Value) {
					c.Fail("full card: another file changes: "+short(x), "output", out)
				}
				i++
			}
			g, err := tachograph.UnmarshalFile(out)
			if err != nil {
				c.Fail("full card cannot be read: "+short(x), "error", err.Error(), "output", out)
			}
			if g.GetDriverCard() == nil {
				c.Fail("full card is no driver card: "+short(x), "output", out)
			}
			c.Outcome("full card " + short(x))
		})
		k.Explore(sl.Name+": several fields cleared", 0, func(c *mc.Ch) {
			without := c.Free(2) == 1
			but := c.Free(2) == 1
			i := c.Free(len(first))
			j := i + c.Free(len(first)-i)
			var xs []*field
			for n, x := range first {
				if (n == i || n == j) != but && !(but && (strings.HasPrefix(first[i].name, x.name+".") || strings.HasPrefix(first[j].name, x.name+"."))) {
					xs = append(xs, x)
				}
			}
			what := short(first[i]) + ", " + short(first[j])
			if but {
				what = "all but " + what
			}
			c.Log("%s: %s", sl.Name, what)
			c.Visit(mc.HashS(sl.Name + what + fmt.Sprint(without)))
			judge(c, base.file, nil, without, what, xs...)
		})
	}
}
