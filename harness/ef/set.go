package ef

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"
)

var texts = map[protoreflect.FullName]bool{
	"wayplatform.connect.tachograph.dd.v1.StringValue":    true,
	"wayplatform.connect.tachograph.dd.v1.Ia5StringValue": true,
}

const activity = "wayplatform.connect.tachograph.card.v1.DriverActivityData"

// Lister lists the fields of a message.
type Lister struct {
	Every bool   // every element of a list, not the first and the last
	Only  string // the field of the outermost message that counts, if any
	// Left says which fields are left out.
	Left func(fd protoreflect.FieldDescriptor) bool
	// Messages: only fields that are set, and among them messages.
	Messages bool
}

// Fields lists the scalar fields of m.
func (l *Lister) Fields(m protoreflect.Message, name string) []Field { return l.fields(m, nil, name) }

// Field is a place where a value can be set.
type Field struct {
	path []step
	Name string
	FD   protoreflect.FieldDescriptor
}

type step struct {
	fd protoreflect.FieldDescriptor
	i  int // element of a list; -1: none
}

// fields lists the scalar fields of m; of long lists, the first and last elements.
func (l *Lister) fields(m protoreflect.Message, path []step, name string) (fs []Field) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		n := name + "." + string(fd.Name())
		if l.Left != nil && l.Left(fd) {
			continue
		}
		at := func(j int) []step { return append(append([]step{}, path...), step{fd, j}) }
		if path == nil && l.Only != "" && string(fd.Name()) != l.Only {
			continue
		}
		switch {
		case fd.IsList() && fd.Message() != nil:
			list := m.Get(fd).List()
			for j := 0; j < list.Len(); j++ {
				if l.Every || j == 0 || j == list.Len()-1 {
					fs = append(fs, l.fields(list.Get(j).Message(), at(j), fmt.Sprintf("%s[%d]", n, j))...)
				}
			}
		case fd.IsList():
			for j := 0; j < m.Get(fd).List().Len(); j++ {
				if l.Every || j == 0 || j == m.Get(fd).List().Len()-1 {
					fs = append(fs, Field{at(j), fmt.Sprintf("%s[%d]", n, j), fd})
				}
			}
		case fd.Message() != nil:
			if m.Has(fd) {
				if l.Messages {
					fs = append(fs, Field{at(-1), n, fd})
				}
				if l.Messages && texts[fd.Message().FullName()] || fd.Message().FullName() == "google.protobuf.Timestamp" && l.Messages {
					continue
				}
				fs = append(fs, l.fields(m.Get(fd).Message(), at(-1), n)...)
			}
		case m.Has(fd) || !l.Messages && fd.FullName() == "google.protobuf.Timestamp.nanos":
			fs = append(fs, Field{at(-1), n, fd})
		}
	}
	return
}

// Set sets the field and drops the raw bytes that stand for it.
func (f *Field) Set(m protoreflect.Message, v protoreflect.Value) {
	for i, s := range f.path {
		if m.Descriptor().FullName() == activity {
			m.Clear(m.Descriptor().Fields().ByName("raw_data"))
		}
		if i == len(f.path)-1 {
			if texts[m.Descriptor().FullName()] {
				m.Clear(m.Descriptor().Fields().ByName("raw_data"))
			}
			if s.i >= 0 {
				m.Mutable(s.fd).List().Set(s.i, v)
			} else {
				m.Set(s.fd, v)
				if code := m.Descriptor().Fields().ByName("unrecognized_" + s.fd.Name()); code != nil {
					m.Clear(code)
				}
			}
			return
		}
		if s.i >= 0 {
			m = m.Mutable(s.fd).List().Get(s.i).Message()
		} else {
			m = m.Mutable(s.fd).Message()
		}
	}
}

// Values are what a field is set to: numbers around every limit a field of any
// size or unit can have, texts and bytes of every length that a field has, or
// nearly, and every code of an enumeration.
func Values(fd protoreflect.FieldDescriptor, now protoreflect.Value, nums []int64) (vs []protoreflect.Value) {
	name := string(fd.Name())
	put := func(lo, hi int64, f func(v int64) protoreflect.Value) {
		for _, v := range append(slices.Clip(nums), lo, hi, lo+1, hi-1) {
			switch {
			case v < lo || v > hi:
			case v == 0 && fd.FullName() == "google.protobuf.Timestamp.seconds":
				// the format's "no time"
			case fd.FullName() == "google.protobuf.Timestamp.nanos" && (v <= 0 || v >= 1e9):
				// nothing, or not a Timestamp
			case v == 0 && name == "length":
				// no field at all
			case v >= 0 && v <= 255 && strings.HasPrefix(name, "unrecognized_"):
				// may be the code of something that is recognized
			default:
				vs = append(vs, f(v))
			}
		}
	}
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind:
		put(math.MinInt32, math.MaxInt32, func(v int64) protoreflect.Value { return protoreflect.ValueOfInt32(int32(v)) })
	case protoreflect.Int64Kind:
		put(math.MinInt64, math.MaxInt64, func(v int64) protoreflect.Value { return protoreflect.ValueOfInt64(v) })
	case protoreflect.Uint32Kind:
		put(0, math.MaxUint32, func(v int64) protoreflect.Value { return protoreflect.ValueOfUint32(uint32(v)) })
	case protoreflect.StringKind:
		for n := 1; n <= 80; n++ {
			for _, ch := range []string{"A", "1"} {
				vs = append(vs, protoreflect.ValueOfString(strings.Repeat(ch, n)))
			}
		}
		for _, x := range []string{strings.Repeat("A", 255), strings.Repeat("1", 70000), "\u00c9", "\u0416", "\u0119", "\u20ac", "\u65e5", "A\u65e5", "\u05d0"} {
			vs = append(vs, protoreflect.ValueOfString(x))
		}
	case protoreflect.BytesKind:
		for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 64, 127, 128, 129, 194, 255, 256, 257, 300, 70000} {
			x := make([]byte, n)
			for i := range x {
				x[i] = byte(i + 1)
			}
			vs = append(vs, protoreflect.ValueOfBytes(x))
		}
		vs = append(vs, protoreflect.ValueOfBytes(append(bytes.Clone(now.Bytes()), 1)))
	case protoreflect.EnumKind:
		for i := 0; i < fd.Enum().Values().Len(); i++ {
			d := fd.Enum().Values().Get(i)
			switch v := d.Number(); {
			case v == 0: // not set
			case strings.HasSuffix(string(d.Name()), "_UNRECOGNIZED") && fd.ContainingMessage().Fields().ByName(protoreflect.Name("unrecognized_"+name)) != nil:
				// its code is in another field
			case name == "card_type" && strings.HasSuffix(string(d.Name()), "_CARD"):
				// what the number consists of depends on it
			default:
				vs = append(vs, protoreflect.ValueOfEnum(v))
			}
		}
		vs = append(vs, protoreflect.ValueOfEnum(9999), protoreflect.ValueOfEnum(-1), protoreflect.ValueOfEnum(256))
	case protoreflect.BoolKind:
		vs = append(vs, protoreflect.ValueOfBool(!now.Bool()))
	}
	return
}

// At walks to the message that has the field, and to the field's value.
func (f *Field) At(m protoreflect.Message) protoreflect.Value {
	for i, st := range f.path {
		v := m.Get(st.fd)
		if st.i >= 0 {
			v = v.List().Get(st.i)
		}
		if i == len(f.path)-1 {
			return v
		}
		m = v.Message()
	}
	panic("no path")
}

// Bare drops the bytes kept from reading, so that all is written from the
// fields; records that could not be read consist of nothing else.
func Bare(m protoreflect.Message) {
	fds := m.Descriptor().Fields()
	if fd := fds.ByName("raw_data"); fd != nil {
		if v := fds.ByName("valid"); v == nil || m.Get(v).Bool() {
			m.Clear(fd)
		}
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Message() == nil || fd.IsMap():
		case fd.IsList():
			for i := range v.List().Len() {
				Bare(v.List().Get(i).Message())
			}
		default:
			Bare(v.Message())
		}
		return true
	})
}

// Clear clears the field and drops the raw bytes that stand for it.
func (f *Field) Clear(m protoreflect.Message) {
	for i, s := range f.path {
		if m.Descriptor().FullName() == activity || i == len(f.path)-1 && texts[m.Descriptor().FullName()] {
			m.Clear(m.Descriptor().Fields().ByName("raw_data"))
		}
		switch {
		case i == len(f.path)-1:
			m.Clear(s.fd)
		case !m.Has(s.fd): // what it is in is cleared
			return
		case s.i >= 0:
			m = m.Mutable(s.fd).List().Get(s.i).Message()
		default:
			m = m.Mutable(s.fd).Message()
		}
	}
}

// Nums are numbers around every limit a field of any size or unit can have.
func Nums(full bool) (nums []int64) {
	seen := map[int64]bool{0: true}
	nums = append(nums, 0)
	put := func(p int64) {
		for _, v := range []int64{p - 1, p, p + 1, -p, -p - 1, -p + 1} {
			if !seen[v] {
				seen[v], nums = true, append(nums, v)
			}
		}
	}
	for i := range 63 {
		if i > 0 && (full || i <= 12 || i%8 == 0) {
			put(1 << i)
		}
	}
	for _, p := range []int64{10, 60, 90000, 100, 180000, 1000, 1440, 9999, 10000, 90 * 60, 180 * 60, 100000, 1000000, 10000000, 100000000} {
		put(p)
	}
	return
}
