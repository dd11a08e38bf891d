// P33: each data type of the dictionary reads and writes as specified, by itself.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/way-platform/tachograph-go/internal/dd"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func main() { mc.Main("P33", run) }

// codec is the reader and the writer of a type.
type codec struct {
	read  func([]byte) (proto.Message, error)
	write func([]byte, proto.Message) ([]byte, error)
}

func of[M interface {
	comparable
	proto.Message
}](r func([]byte) (M, error), w func([]byte, M) ([]byte, error)) codec {
	return codec{
		func(b []byte) (proto.Message, error) {
			m, err := r(b)
			return m, err
		},
		func(dst []byte, m proto.Message) ([]byte, error) {
			if m == nil {
				var none M
				return w(dst, none)
			}
			return w(dst, m.(M))
		},
	}
}

var opts dd.UnmarshalOptions

var codecs = map[string]codec{
	"ActivityChangeInfo":          of(opts.UnmarshalActivityChangeInfo, dd.AppendActivityChangeInfo),
	"BcdString":                   of(opts.UnmarshalBcdString, dd.AppendBcdString),
	"CardStructureVersion":        of(opts.UnmarshalCardStructureVersion, dd.AppendCardStructureVersion),
	"CardVehicleRecord":           of(opts.UnmarshalCardVehicleRecord, dd.AppendCardVehicleRecord),
	"CardVehicleRecordG2":         of(opts.UnmarshalCardVehicleRecordG2, dd.AppendCardVehicleRecordG2),
	"ControlType":                 of(opts.UnmarshalControlType, dd.AppendControlType),
	"Date":                        of(opts.UnmarshalDate, dd.AppendDate),
	"DriverIdentification":        of(opts.UnmarshalDriverIdentification, dd.AppendDriverIdentification),
	"ExtendedSerialNumber":        of(opts.UnmarshalExtendedSerialNumber, dd.AppendExtendedSerialNumber),
	"FullCardNumber":              of(opts.UnmarshalFullCardNumber, dd.AppendFullCardNumber),
	"FullCardNumberAndGeneration": of(opts.UnmarshalFullCardNumberAndGeneration, dd.AppendFullCardNumberAndGeneration),
	"GeoCoordinates":              of(opts.UnmarshalGeoCoordinates, dd.AppendGeoCoordinates),
	"GNSSPlaceAuthRecord":         of(opts.UnmarshalGNSSPlaceAuthRecord, dd.AppendGNSSPlaceAuthRecord),
	"GNSSPlaceRecord":             of(opts.UnmarshalGNSSPlaceRecord, dd.AppendGNSSPlaceRecord),
	"HolderName":                  of(opts.UnmarshalHolderName, dd.AppendHolderName),
	"Ia5StringValue":              of(opts.UnmarshalIa5StringValue, dd.AppendIa5StringValue),
	"MonthYear":                   of(opts.UnmarshalMonthYear, dd.AppendMonthYear),
	"OwnerIdentification":         of(opts.UnmarshalOwnerIdentification, dd.AppendOwnerIdentification),
	"PlaceRecord":                 of(opts.UnmarshalPlaceRecord, dd.AppendPlaceRecord),
	"PlaceRecordG2":               of(opts.UnmarshalPlaceRecordG2, dd.AppendPlaceRecordG2),
	"PreviousVehicleInfo":         of(opts.UnmarshalPreviousVehicleInfo, dd.AppendPreviousVehicleInfo),
	"PreviousVehicleInfoG2":       of(opts.UnmarshalPreviousVehicleInfoG2, dd.AppendPreviousVehicleInfoG2),
	"SpecificConditionRecord":     of(opts.UnmarshalSpecificConditionRecord, dd.AppendSpecificConditionRecord),
	"StringValue":                 of(opts.UnmarshalStringValue, dd.AppendStringValue),
	"TimeReal":                    of(opts.UnmarshalTimeReal, dd.AppendTimeReal),
	"VehicleRegistration":         of(opts.UnmarshalVehicleRegistration, dd.AppendVehicleRegistration),
	"VuCardIWRecord":              of(opts.UnmarshalVuCardIWRecord, dd.AppendVuCardIWRecord),
}

var skip = []string{"raw_data"}

// flat is the value, under "x".
func flat(m proto.Message) mc.Flat {
	if m == nil || !m.ProtoReflect().IsValid() {
		return mc.Flat{}
	}
	if m.ProtoReflect().Descriptor().FullName() == "google.protobuf.Timestamp" {
		fs := m.ProtoReflect().Descriptor().Fields()
		s, n := m.ProtoReflect().Get(fs.ByName("seconds")).Int(), m.ProtoReflect().Get(fs.ByName("nanos")).Int()
		if n != 0 {
			return mc.Flat{"x": fmt.Sprintf("@%d.%09d", s, n)}
		}
		if s == 0 {
			return mc.Flat{} // no time
		}
		return mc.Flat{"x": fmt.Sprintf("@%d", s)}
	}
	return mc.FlattenAt("x", m, skip...)
}

const front = "in front"

// write writes behind other bytes, with room to spare, and looks at both.
func write(c *mc.Ch, t *ref.Type, m proto.Message) ([]byte, error) {
	dst := make([]byte, len(front)+300)
	for i := range dst {
		dst[i] = 0x5A
	}
	copy(dst, front)
	var before proto.Message
	if m != nil {
		before = proto.Clone(m)
	}
	out, err := codecs[t.Name].write(dst[:len(front)], m)
	if m != nil && !proto.Equal(m, before) {
		c.Fail("writing changes the value: "+t.Name, "value", fmt.Sprint(before))
	}
	if err != nil {
		return nil, err
	}
	if !bytes.HasPrefix(out, []byte(front)) {
		c.Fail("the bytes in front are lost: "+t.Name, "output", out)
	}
	out = out[len(front):]
	plain, err := codecs[t.Name].write(nil, m)
	if err != nil || !bytes.Equal(plain, out) {
		c.Fail("what is written depends on what is in front: "+t.Name, "behind other bytes", out, "by itself", plain)
	}
	return out, nil
}

// judge: the bytes are read as the reference reads them, and written back.
func judge(c *mc.Ch, t *ref.Type, b []byte, typical bool) {
	want, may := t.Decode(b)
	in := bytes.Clone(b)
	m, err := codecs[t.Name].read(in)
	if !bytes.Equal(in, b) {
		c.Fail("reading changes the input: "+t.Name, "bytes", b)
	}
	if err != nil {
		if !may {
			c.Fail("refused: "+t.Name, "error", err.Error(), "bytes", b)
		}
		c.Outcome("refused " + t.Name)
		return
	}
	if p, d := want.Diff(flat(m)); p != "" {
		c.Fail("read otherwise: "+t.Name+": "+p, "bytes", b, "difference", d)
	}
	out, err := write(c, t, m)
	if err != nil {
		if typical || !may && !want.Unknown() {
			c.Fail("not written: "+t.Name, "error", err.Error(), "bytes", b)
		}
		c.Outcome("not written " + t.Name)
		return
	}
	if !bytes.Equal(out, b) {
		c.Fail("written otherwise: "+t.Name, "bytes", b, "output", out)
	}
	c.Outcome("read and written " + t.Name)
	// Without the bytes kept from reading.
	ef.Bare(m.ProtoReflect())
	out, err = write(c, t, m)
	if err != nil {
		if typical {
			c.Fail("not written from the values alone: "+t.Name, "error", err.Error(), "bytes", b)
		}
		return
	}
	same(c, t, m, out, "from the values alone", fmt.Sprintf("%x", b))
}

// same: what is written is read as the value.
func same(c *mc.Ch, t *ref.Type, m proto.Message, out []byte, how, what string) proto.Message {
	g, err := codecs[t.Name].read(out)
	if err != nil {
		c.Fail("what is written cannot be read, "+how+": "+t.Name, "error", err.Error(), "case", what, "output", out)
	}
	if p, d := mc.Diff(flat(m), flat(g)); p != "" {
		c.Fail("read back otherwise, "+how+": "+t.Name+": "+mc.Generic(p), "case", what, "difference", d, "output", out)
	}
	return g
}

// left are fields that say how the rest is laid out.
func left(fd protoreflect.FieldDescriptor) bool {
	switch n := string(fd.Name()); n {
	case "raw_data", "valid":
		return true
	default:
		return false
	}
}

func run(k *mc.Check) {
	nums := ef.Nums(k.Thorough())
	for i := range ref.Types {
		t := &ref.Types[i]
		if codecs[t.Name].read == nil {
			panic("no codec for " + t.Name)
		}
		// Contents: small types in full, others byte by byte and field by field.
		if n := len(t.Bases[0]); n <= 2 && !t.Any {
			k.Explore(t.Name+": every value", 0, func(c *mc.Ch) {
				v := c.Free(1 << (8 * n))
				b := []byte{byte(v >> 8), byte(v)}[2-n:]
				c.Log("%x", b)
				c.Visit(mc.Hash(b))
				judge(c, t, b, false)
			})
		}
		k.Explore(t.Name+": typical values", 0, func(c *mc.Ch) {
			b := bytes.Clone(t.Bases[c.Free(len(t.Bases))])
			c.Visit(mc.Hash(b))
			judge(c, t, b, true)
		})
		k.Explore(t.Name+": any one byte, any value", 1, func(c *mc.Ch) {
			b := bytes.Clone(t.Bases[c.Free(len(t.Bases))])
			ef.Mutate(c, b, 0, len(b), 256)
			c.Log("%x", b)
			c.Visit(mc.Hash(b))
			judge(c, t, b, false)
		})
		if k.Thorough() {
			k.Explore(t.Name+": any two bytes", 2, func(c *mc.Ch) {
				b := bytes.Clone(t.Bases[c.Free(len(t.Bases))])
				n := 256
				switch {
				case len(b) > 40:
					n = 6
				case len(b) > 8:
					n = 16
				}
				ef.Mutate(c, b, 0, len(b), n)
				c.Log("%x", b)
				c.Visit(mc.Hash(b))
				judge(c, t, b, false)
			})
		}
		k.Explore(t.Name+": any fields, any pattern", mc.Pick2(k, 2, 3), func(c *mc.Ch) {
			b := bytes.Clone(t.Bases[c.Free(len(t.Bases))])
			ef.MutateFields(c, b, t.Fields(b), ef.Patterns)
			c.Log("%x", b)
			c.Visit(mc.Hash(b))
			judge(c, t, b, false)
		})
		k.Explore(t.Name+": a field of one value but for one byte", 0, func(c *mc.Ch) {
			b := bytes.Clone(t.Bases[c.Free(len(t.Bases))])
			fields := t.Fields(b)
			if len(fields) == 0 {
				return
			}
			ef.OneByte(c, b, fields, true)
			c.Log("%x", b)
			c.Visit(mc.Hash(b))
			judge(c, t, b, false)
		})
		// Lengths.
		k.Explore(t.Name+": any length", 0, func(c *mc.Ch) {
			base := t.Bases[c.Free(len(t.Bases))]
			n := c.Free(2*len(base) + 3)
			b := append(bytes.Clone(base), bytes.Repeat(base, 3)...)[:n]
			c.Log("%d: %x", n, b)
			c.Visit(mc.Hash(b))
			least := 1
			if t.Name == "StringValue" {
				least = 2
			}
			if t.Any && n >= least {
				judge(c, t, b, false)
				return
			}
			if n == len(base) && !t.Any {
				return
			}
			if _, err := codecs[t.Name].read(b); err == nil {
				c.Fail("bytes of another length are read: "+t.Name, "length", fmt.Sprint(n), "bytes", b)
			}
			c.Outcome("length refused " + t.Name)
		})
		// Values.
		type subject struct {
			m       proto.Message
			fs, cl  []ef.Field
			partner []proto.Message // by field to be cleared: another value of it
		}
		var ss []subject
		var us []subject // read from bytes some of which are no value
		for i, b := range t.Bases {
			m, err := codecs[t.Name].read(b)
			if err != nil {
				continue // shown above
			}
			s := subject{m: m, fs: (&ef.Lister{Every: true, Left: left}).Fields(m.ProtoReflect(), "x"),
				cl: (&ef.Lister{Every: true, Messages: true, Left: func(fd protoreflect.FieldDescriptor) bool { return left(fd) || fd.Name() == "length" }}).Fields(m.ProtoReflect(), "x")}
			for j := range s.cl {
				s.partner = append(s.partner, partner(t, b, t.Bases[(i+1)%len(t.Bases)], m, &s.cl[j]))
			}
			ss = append(ss, s)
			for _, f := range t.Fields(b) {
				for _, x := range []byte{0x00, 0x20, 0xAA, 0xFF} {
					u := bytes.Clone(b)
					for i := f[0]; i < f[1]; i++ {
						u[i] = x
					}
					m, err := codecs[t.Name].read(u)
					if err != nil || !m.ProtoReflect().IsValid() {
						continue
					}
					us = append(us, subject{m: m, fs: s.fs})
				}
			}
		}
		set := func(c *mc.Ch, ss []subject, none bool) {
			s := &ss[c.Free(len(ss))]
			x := &s.fs[c.Free(len(s.fs))]
			vs := ef.Values(x.FD, x.At(s.m.ProtoReflect()), nums)
			v := vs[c.Free(len(vs))]
			if none && x.FD.Kind() == protoreflect.EnumKind && x.FD.Enum().Values().ByNumber(v.Enum()) == nil {
				return // no value of the type, in front of a text that says nothing
			}
			m := proto.Clone(s.m)
			if c.Free(2) == 1 {
				ef.Bare(m.ProtoReflect())
			}
			x.Set(m.ProtoReflect(), v)
			what := fmt.Sprintf("%s=%.60q", x.Name, v.String())
			c.Log("%s", what)
			c.Visit(mc.HashS(what + fmt.Sprint(m)))
			out, err := write(c, t, m)
			if err != nil {
				c.Outcome("refused " + t.Name + " " + x.Name)
				return
			}
			g, err := codecs[t.Name].read(out)
			if err == nil {
				// Octets shorter than the field are filled up with zeros.
				if o, ok := v.Interface().([]byte); ok {
					if r, ok := x.At(g.ProtoReflect()).Interface().([]byte); ok && len(r) > len(o) && bytes.Equal(r, append(bytes.Clone(o), make([]byte, len(r)-len(o))...)) {
						x.Set(g.ProtoReflect(), v)
						if p, _ := mc.Diff(flat(m), flat(g)); p == "" {
							c.Outcome("filled up " + t.Name + " " + x.Name)
							return
						}
					}
				}
			}
			same(c, t, m, out, "with a field set", what)
			c.Outcome("held " + t.Name + " " + x.Name)
		}
		k.Explore(t.Name+": any field set to any value", 0, func(c *mc.Ch) { set(c, ss, false) })
		if len(us) > 0 {
			k.Explore(t.Name+": any field set to any value, over bytes that are none", 0, func(c *mc.Ch) { set(c, us, true) })
		}
		k.Explore(t.Name+": fields cleared", 0, func(c *mc.Ch) {
			s := &ss[c.Free(len(ss))]
			i := c.Free(len(s.cl) + 1)
			m := proto.Clone(s.m)
			if c.Free(2) == 1 {
				ef.Bare(m.ProtoReflect())
			}
			bare := m.ProtoReflect().Descriptor().Fields().ByName("raw_data") == nil || !m.ProtoReflect().Has(m.ProtoReflect().Descriptor().Fields().ByName("raw_data"))
			if i == len(s.cl) { // the value as a whole
				if t.Any {
					return
				}
				c.Log("nil")
				out, err := write(c, t, nil)
				if err != nil {
					c.Outcome("nothing refused " + t.Name)
					return
				}
				if _, err := codecs[t.Name].read(out); err != nil {
					c.Fail("what is written cannot be read, with no value: "+t.Name, "error", err.Error(), "output", out)
				}
				c.Outcome("nothing written " + t.Name)
				return
			}
			j := i + c.Free(len(s.cl)-i)
			xs := []*ef.Field{&s.cl[i]}
			what := s.cl[i].Name
			if j != i {
				xs = append(xs, &s.cl[j])
				what += ", " + s.cl[j].Name
			}
			for _, x := range xs {
				x.Clear(m.ProtoReflect())
			}
			c.Log("%s %v", what, bare)
			c.Visit(mc.HashS(t.Name + what + fmt.Sprint(m)))
			out, err := write(c, t, m)
			if p := s.partner[i]; p != nil && j == i {
				o := proto.Clone(p)
				if bare {
					ef.Bare(o.ProtoReflect())
				}
				xs[0].Clear(o.ProtoReflect())
				out2, err2 := write(c, t, o)
				if err == nil && err2 == nil && !bytes.Equal(out, out2) {
					c.Fail("what was cleared shows: "+t.Name+": "+what, "output", out, "with another value", out2)
				}
			}
			if err != nil {
				c.Outcome("refused without " + t.Name + " " + what)
				return
			}
			g, err := codecs[t.Name].read(out)
			if err != nil {
				c.Fail("what is written cannot be read, without a field: "+t.Name, "error", err.Error(), "field", what, "output", out)
			}
			for _, x := range xs {
				if g.ProtoReflect().IsValid() {
					x.Clear(g.ProtoReflect())
				}
			}
			if p, d := mc.Diff(flat(m), flat(g)); p != "" {
				c.Fail("something else changes, without a field: "+t.Name+": "+mc.Generic(p), "field", what, "difference", d, "output", out)
			}
			c.Outcome("blank " + t.Name + " " + what)
		})
	}
	enums(k)
}

// partner is a value that differs in nothing but the field, read from bytes of
// which some are those of another value.
func partner(t *ref.Type, b, other []byte, m proto.Message, x *ef.Field) proto.Message {
	if len(b) != len(other) {
		return nil
	}
	fs := t.Fields(b)
	mine := func(p string) bool { return p == x.Name || strings.HasPrefix(p, x.Name+".") }
	for i := range fs {
		for j := i; j < len(fs); j++ {
			mix := bytes.Clone(b)
			copy(mix[fs[i][0]:fs[j][1]], other[fs[i][0]:fs[j][1]])
			o, err := codecs[t.Name].read(mix)
			if err != nil {
				continue
			}
			was, is := flat(m), flat(o)
			differ, only := false, true
			for p, v := range was {
				if is[p] != v {
					differ, only = true, only && mine(p)
				}
			}
			for p := range is {
				if _, ok := was[p]; !ok {
					differ, only = true, only && mine(p)
				}
			}
			if differ && only {
				return o
			}
		}
	}
	return nil
}

// enums: each code has its name, and each name its code.
func enums(k *mc.Check) {
	enum(k, "NationNumeric", ref.Nation, dd.UnmarshalEnum[ddv1.NationNumeric], dd.MarshalEnum[ddv1.NationNumeric])
	enum(k, "EventFaultType", ref.EventFaultType, dd.UnmarshalEnum[ddv1.EventFaultType], dd.MarshalEnum[ddv1.EventFaultType])
	enum(k, "EntryTypeDailyWorkPeriod", ref.EntryType, dd.UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod], dd.MarshalEnum[ddv1.EntryTypeDailyWorkPeriod])
	enum(k, "EquipmentType", ref.EquipmentType, dd.UnmarshalEnum[ddv1.EquipmentType], dd.MarshalEnum[ddv1.EquipmentType])
	enum(k, "SpecificConditionType", ref.SpecificCondition, dd.UnmarshalEnum[ddv1.SpecificConditionType], dd.MarshalEnum[ddv1.SpecificConditionType])
	enum(k, "SlotCardType", ref.SlotCard, dd.UnmarshalEnum[ddv1.SlotCardType], dd.MarshalEnum[ddv1.SlotCardType])
	enum(k, "CardSlotNumber", ref.Slot, dd.UnmarshalEnum[ddv1.CardSlotNumber], dd.MarshalEnum[ddv1.CardSlotNumber])
	enum(k, "DriverActivityValue", ref.Activity, dd.UnmarshalEnum[ddv1.DriverActivityValue], dd.MarshalEnum[ddv1.DriverActivityValue])
	enum(k, "PositionAuthenticationStatus", ref.AuthStatus, dd.UnmarshalEnum[ddv1.PositionAuthenticationStatus], dd.MarshalEnum[ddv1.PositionAuthenticationStatus])
	enum(k, "Generation", ref.Gen, dd.UnmarshalEnum[ddv1.Generation], dd.MarshalEnum[ddv1.Generation])
}

func enum[T interface {
	~int32
	protoreflect.Enum
	String() string
}](k *mc.Check, name string, table map[int]string, read func(byte) (T, error), write func(T) (byte, error)) {
	k.Explore("codes of "+name, 0, func(c *mc.Ch) {
		v := c.Free(256)
		c.Log("%02x", v)
		c.Visit(mc.HashS(fmt.Sprint(name, v)))
		x, err := read(byte(v))
		n, defined := table[v]
		switch {
		case defined && err != nil:
			c.Fail("code refused: "+name, "code", fmt.Sprint(v), "error", err.Error())
		case defined && x.String() != n:
			c.Fail("code read otherwise: "+name, "code", fmt.Sprint(v), "want", n, "got", x.String())
		case !defined && err == nil:
			c.Fail("code without a meaning read: "+name, "code", fmt.Sprint(v), "got", x.String())
		}
		if err == nil {
			if b, err := write(x); err != nil || int(b) != v {
				c.Fail("code written otherwise: "+name, "code", fmt.Sprint(v), "written", fmt.Sprint(b))
			}
		}
		c.Outcome(fmt.Sprint("code of ", name, " ", defined))
	})
	k.Explore("values of "+name, 0, func(c *mc.Ch) {
		v := T(c.Free(700) - 200)
		c.Log("%d", v)
		c.Visit(mc.HashS(fmt.Sprint(name, " value ", int32(v))))
		b, err := write(v)
		if err != nil {
			for _, n := range table {
				if n == v.String() {
					c.Fail("value refused: "+name, "value", n, "error", err.Error())
				}
			}
			return
		}
		if table[int(b)] != v.String() {
			c.Fail("value written otherwise: "+name, "value", v.String(), "written", fmt.Sprint(b))
		}
	})
}
