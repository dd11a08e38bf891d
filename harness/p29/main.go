// P29: changing a field of a parsed file changes those bytes and no others.
package main

import (
	"bytes"
	"fmt"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func main() { mc.Main("P29", run) }

// texts keep the bytes they were read from, which are written again; a new
// text is set without them.
var texts = map[protoreflect.FullName]bool{
	"wayplatform.connect.tachograph.dd.v1.StringValue":    true,
	"wayplatform.connect.tachograph.dd.v1.Ia5StringValue": true,
}

// edit sets every field of a that differs in b to its value in b, except
// raw_data.  It returns the paths changed; ok is false if the two are not of
// one shape.
func edit(a, b protoreflect.Message, at string) (paths []string, ok bool) {
	ok = true
	if a.Descriptor().FullName() == activity {
		// Its raw_data is the whole buffer and is what is written; records are
		// laid out anew without it.
		defer func() {
			for _, p := range paths {
				if strings.HasSuffix(p, "_index") || strings.HasSuffix(p, "_length") {
					ok = false
				}
			}
			if len(paths) > 0 {
				dropOwn(a)
			}
		}()
	}
	fds := a.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		name := at + "." + string(fd.Name())
		if fd.Name() == "raw_data" || fd.Name() == "signature" {
			continue
		}
		switch {
		case fd.IsMap():
			panic("map")
		case fd.IsList() && fd.Message() != nil:
			la, lb := a.Get(fd).List(), b.Get(fd).List()
			if la.Len() != lb.Len() {
				return nil, false
			}
			for j := 0; j < la.Len(); j++ {
				p, k := edit(la.Get(j).Message(), lb.Get(j).Message(), fmt.Sprintf("%s[%d]", name, j))
				paths, ok = append(paths, p...), ok && k
			}
		case fd.IsList():
			la, lb := a.Get(fd).List(), b.Get(fd).List()
			same := la.Len() == lb.Len()
			for j := 0; same && j < la.Len(); j++ {
				same = la.Get(j).Equal(lb.Get(j))
			}
			if !same {
				if la.Len() != lb.Len() {
					return nil, false
				}
				paths = append(paths, name)
				l := a.Mutable(fd).List()
				for j := 0; j < lb.Len(); j++ {
					l.Set(j, lb.Get(j))
				}
			}
		case fd.Message() != nil:
			if !a.Has(fd) && !b.Has(fd) {
				continue
			}
			if !b.Has(fd) {
				a.Clear(fd)
				paths = append(paths, name)
				continue
			}
			if !a.Has(fd) {
				m := proto.Clone(b.Get(fd).Message().Interface())
				dropRaw(m.ProtoReflect())
				a.Set(fd, protoreflect.ValueOfMessage(m.ProtoReflect()))
				paths = append(paths, name)
				continue
			}
			p, k := edit(a.Mutable(fd).Message(), b.Get(fd).Message(), name)
			paths, ok = append(paths, p...), ok && k
		default:
			if a.Has(fd) == b.Has(fd) && a.Get(fd).Equal(b.Get(fd)) {
				continue
			}
			if fd.Name() == "valid" {
				return nil, false
			}
			if fd.Kind() == protoreflect.EnumKind && b.Has(fd) {
				if ev := fd.Enum().Values().ByNumber(b.Get(fd).Enum()); ev != nil && strings.HasSuffix(string(ev.Name()), "_UNRECOGNIZED") && !unrecognized(fds, fd) {
					ok = false // has no place to say which
				}
			}
			paths = append(paths, name)
			if b.Has(fd) {
				a.Set(fd, b.Get(fd))
			} else {
				a.Clear(fd)
			}
			if texts[a.Descriptor().FullName()] {
				dropRaw(a)
			}
		}
	}
	return paths, ok
}

const activity = "wayplatform.connect.tachograph.card.v1.DriverActivityData"

func dropOwn(m protoreflect.Message) { m.Clear(m.Descriptor().Fields().ByName("raw_data")) }

// unsayable says whether a field of m has a value read from bytes that are
// not a value of its type: text that is none, digits that are none.
func unsayable(m protoreflect.Message) (found bool) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsList() && fd.Message() != nil:
			for j := 0; j < v.List().Len(); j++ {
				found = found || unsayable(v.List().Get(j).Message())
			}
		case fd.Message() != nil:
			found = found || unsayable(v.Message())
		case fd.Kind() == protoreflect.StringKind && !fd.IsList():
			found = found || strings.ContainsRune(v.String(), 0xFFFD)
		case fd.Name() == "major" || fd.Name() == "minor":
			found = found || v.Int() > 99
		}
		return true
	})
	return found
}

func unrecognized(fds protoreflect.FieldDescriptors, fd protoreflect.FieldDescriptor) bool {
	return fds.ByName("unrecognized_"+fd.Name()) != nil
}

func dropRaw(m protoreflect.Message) {
	if fd := m.Descriptor().Fields().ByName("raw_data"); fd != nil {
		m.Clear(fd)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Message() == nil:
		case fd.IsList():
			for j := 0; j < v.List().Len(); j++ {
				dropRaw(v.List().Get(j).Message())
			}
		default:
			dropRaw(v.Message())
		}
		return true
	})
}

// subject is an elementary file of a card.
type subject struct {
	sl   *ref.Place
	base []byte
	says []map[string]bool // for each byte, the fields that depend on it
}

// unit is what is written as a whole: a text, or a single field.
func unit(path string) string {
	for _, t := range []string{".value", ".encoding", ".length"} {
		path = strings.TrimSuffix(path, t)
	}
	return path
}

// probes are changes to a byte that together show what depends on it.
var probes = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255, 3, 0x0F, 0xF0, 0x11, 0x30}

// trace finds out which fields depend on which bytes.
func (s *subject) trace() {
	base := s.parsed(false)
	s.says = make([]map[string]bool, len(s.base))
	for i := range s.base {
		s.says[i] = map[string]bool{}
		for _, v := range probes {
			b := bytes.Clone(s.base)
			b[i] ^= v
			f, err := tachograph.UnmarshalFile(s.card(b, false))
			if err != nil {
				continue
			}
			paths, _ := edit(proto.CloneOf(base).ProtoReflect(), f.ProtoReflect(), "")
			for _, p := range paths {
				s.says[i][unit(p)] = true
			}
		}
	}
}

// encodes says whether byte i encodes one of the fields.
func (s *subject) encodes(i int, paths []string) bool {
	if i < 0 || i >= len(s.says) {
		return false
	}
	for _, p := range paths {
		p = unit(p)
		for q := range s.says[i] {
			if p == q || strings.HasPrefix(q, p+".") || strings.HasPrefix(p, q+".") {
				return true
			}
		}
	}
	return false
}

func (s *subject) card(content []byte, full bool) []byte {
	var rs []ref.Record
	if full {
		for i := range ref.Slots {
			o := &ref.Slots[i]
			v := content
			sig := -1
			if o.Name != s.sl.Name {
				v = o.Content(1)
			}
			if o.Signed {
				sig = 2
			}
			rs = append(rs, o.Records(v, sig)...)
		}
		return ref.Join(rs)
	}
	sig := -1
	if s.sl.Signed {
		sig = 1
	}
	rs = s.sl.Records(content, sig)
	if s.sl.Name != "icc" {
		rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
	}
	return ref.Join(rs)
}

var cache = map[string]*tachographv1.File{}

func (s *subject) parsed(full bool) *tachographv1.File {
	key := fmt.Sprint(s.sl.Name, full)
	if cache[key] == nil {
		f, err := tachograph.UnmarshalFile(s.card(s.base, full))
		if err != nil {
			panic(err)
		}
		cache[key] = f
	}
	return proto.CloneOf(cache[key])
}

// judge edits a parsed base so that it says what the other content says.
func judge(c *mc.Ch, s *subject, content []byte, full bool) {
	if bytes.Equal(content, s.base) {
		return
	}
	data := s.card(content, full)
	g, err := tachograph.UnmarshalFile(data)
	if err != nil || g.GetDriverCard() == nil {
		c.Outcome("refused")
		return
	}
	c.Visit(mc.Hash(content))
	f := s.parsed(full)
	if cache[fmt.Sprint(s.sl.Name, full)].GetDriverCard() == nil {
		return
	}
	paths, ok := edit(f.ProtoReflect(), g.ProtoReflect(), "")
	if len(paths) == 0 {
		c.Outcome("nothing to edit")
		return
	}
	key := s.sl.Name + ": " + mc.Generic(strings.TrimPrefix(paths[0], ".driver_card."))
	out, err := tachograph.MarshalFile(f)
	if !ok {
		c.Outcome("another shape")
		return
	}
	if err != nil && unsayable(g.ProtoReflect()) {
		c.Outcome("no value of the type")
		return
	}
	if err != nil {
		c.Fail("cannot be written: "+key, "error", err.Error(), "edited", strings.Join(paths, " "), "content", content, "base", s.base)
	}
	if bytes.Equal(out, data) {
		c.Outcome(key)
		return
	}
	// The same meaning in other bytes: only where the edit is.
	h, err := tachograph.UnmarshalFile(out)
	if err != nil {
		c.Fail("what is written cannot be read: "+key, "error", err.Error(), "edited", strings.Join(paths, " "), "output", out, "content", content)
	}
	if p, d := mc.Diff(flat(g), flat(h)); p != "" {
		c.Fail("the edit is lost or changed: "+key, "diff", d, "edited", strings.Join(paths, " "), "output", out, "content", content, "base", s.base)
	}
	if strings.Contains(paths[0], ".driver_activity_data") {
		c.Outcome(key + " laid out anew")
		return
	}
	orig := s.card(s.base, full)
	if len(out) != len(data) {
		c.Fail("the length changes: "+key, "edited", strings.Join(paths, " "), "output", out, "want", data)
	}
	for i := range out {
		if out[i] != data[i] && orig[i] == data[i] && !s.encodes(i-bytes.Index(orig, s.base), paths) {
			c.Fail("other bytes change: "+key, "edited", strings.Join(paths, " "), "offset", i, "output", out, "want", data, "base", orig)
		}
	}
	c.Outcome(key + " in other bytes")
}

func flat(f *tachographv1.File) mc.Flat {
	return mc.Flatten(f, "raw_data", "signature", "oldest_day_record_index", "newest_day_record_index")
}

func run(k *mc.Check) {
	for i := range ref.Slots {
		sl := &ref.Slots[i]
		if strings.Contains(sl.Name, "certificate") {
			continue
		}
		for x := 0; x < mc.Pick2(k, 2, 3); x++ {
			brief := x > 0 && !k.Thorough() // edge values only
			s := &subject{sl: sl, base: sl.Content(x)}
			if strings.HasPrefix(sl.Name, "driver_activity_data") {
				// The records run past the end of the buffer, or fill it.
				s.base = ref.ActivityFile(54+x*16, []int{30, 0, 7}[x], 3, 2, 4+8*x)
			}
			for _, full := range []bool{false, true} {
				delete(cache, fmt.Sprint(sl.Name, full))
				s.parsed(full)
			}
			n := mc.Pick2(k, 256, 256)
			if len(s.base) > 150 {
				n = mc.Pick2(k, 20, 256)
			}
			s.trace()
			alts := 2
			if k.Thorough() && len(s.base) < 200 {
				alts = 6
			}
			if brief {
				n = 4
			}
			k.Explore(fmt.Sprintf("%s %d: any value in any one byte", sl.Name, x), 1, func(c *mc.Ch) {
				b := bytes.Clone(s.base)
				ef.Mutate(c, b, 0, len(b), n)
				judge(c, s, b, false)
			})
			if !brief {
				k.Explore(fmt.Sprintf("%s %d: edge values in any byte, in a full card", sl.Name, x), 1, func(c *mc.Ch) {
					b := bytes.Clone(s.base)
					ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 2, 16))
					judge(c, s, b, true)
				})
			}
			for j := range ref.DriverEFs {
				e := &ref.DriverEFs[j]
				if e.Name != sl.Name {
					continue
				}
				fields := e.Fields(s.base)
				pats := mc.Pick2(k, 4, ef.Patterns)
				k.Explore(fmt.Sprintf("%s %d: edge values in any field", sl.Name, x), 1, func(c *mc.Ch) {
					b := bytes.Clone(s.base)
					ef.MutateFields(c, b, fields, ef.Patterns)
					judge(c, s, b, false)
				})
				if len(fields) == 0 || brief {
					continue
				}
				k.Explore(fmt.Sprintf("%s %d: a field of one value but for one byte", sl.Name, x), 0, func(c *mc.Ch) {
					b := bytes.Clone(s.base)
					ef.OneByte(c, b, fields, k.Thorough())
					judge(c, s, b, false)
				})
				k.Explore(fmt.Sprintf("%s %d: edge values in any two fields", sl.Name, x), 2, func(c *mc.Ch) {
					b := bytes.Clone(s.base)
					ef.MutateFields(c, b, fields, pats)
					judge(c, s, b, false)
				})
			}
			if !brief && len(s.base) < mc.Pick2(k, 150, 700) {
				k.Explore(fmt.Sprintf("%s %d: edge values in any two bytes", sl.Name, x), 2, func(c *mc.Ch) {
					b := bytes.Clone(s.base)
					ef.Mutate(c, b, 0, len(b), alts)
					judge(c, s, b, false)
				})
			}
		}
	}
	k.Assume("edits are those that turn one parsed content into another of the same shape; texts are edited with their raw_data cleared")
}
