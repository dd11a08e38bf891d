// Package ef explores contents of elementary files of a driver card and
// compares what UnmarshalFile returns with the reference decoder.
package ef

import (
	"fmt"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Core are byte values at the edges of the encodings in use.
var Core = []byte{0x00, 0xFF, 0x01, 0x80, ' ', '0', 0x7F, 0x0A, 0x99, 'A', 0x10, 0xFE, 0x05, 0xF0, 0x55, 0x06}

// order[b] lists every byte value, b first, then the core values, then the rest.
var order = func() (t [256][256]byte) {
	for b := range t {
		n := 0
		var seen [256]bool
		put := func(v byte) {
			if !seen[v] {
				seen[v] = true
				t[b][n] = v
				n++
			}
		}
		put(byte(b))
		for _, v := range Core {
			put(v)
		}
		for v := 0; v < 256; v++ {
			put(byte(v))
		}
	}
	return
}()

// Mutate lets the explorer change every byte of b in [from,to) to any of its
// first n alternatives.
func Mutate(c *mc.Ch, b []byte, from, to, n int) {
	for i := from; i < to && i < len(b); i++ {
		b[i] = order[b[i]][c.Pick(n)]
	}
}

// Patterns is the number of alternatives MutateFields knows.
const Patterns = 14

// MutateFields lets the explorer change every field of b to one of the first
// n patterns, the first being no change.
func MutateFields(c *mc.Ch, b []byte, fields [][2]int, n int) {
	for _, x := range fields {
		Pattern(b[x[0]:x[1]], c.Pick(n))
	}
}

// few are the values a byte of a long field takes in OneByte.
var few = []byte{1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x7F, 0xFE, 0xFF, 0}

// OneByte lets the explorer fill one field with one value and then give any
// byte of it another: with all set, every value in fields of up to eight bytes.
func OneByte(c *mc.Ch, b []byte, fields [][2]int, all bool) {
	x := fields[c.Free(len(fields))]
	f := b[x[0]:x[1]]
	fill := []byte{0, 0xFF, ' '}[c.Free(3)]
	i := c.Free(len(f))
	v := byte(0)
	if len(f) > 8 || !all {
		v = few[c.Free(len(few))]
	} else {
		v = byte(c.Free(256))
	}
	for k := range f {
		f[k] = fill
	}
	f[i] = v
}

// Pattern overwrites a field with a pattern that concerns all of its bytes.
func Pattern(f []byte, p int) {
	fill := func(first, rest, last byte) {
		for i := range f {
			f[i] = rest
		}
		f[0] = first
		if len(f) > 1 {
			f[len(f)-1] = last
		}
	}
	switch p {
	case 1:
		fill(0, 0, 0)
	case 2:
		fill(0xFF, 0xFF, 0xFF)
	case 3:
		fill(0x80, 0, 0)
	case 4: // one character to the right
		if len(f) > 1 {
			copy(f[1:], f[:len(f)-1])
		}
		f[0] = ' '
	case 5:
		fill(0x7F, 0xFF, 0xFF)
	case 6:
		fill(0, 0, 1)
	case 7:
		fill(' ', ' ', ' ')
	case 8: // a code page and then blanks
		fill(1, ' ', ' ')
	case 9:
		fill(0xFF, 0xFF, 0xFE)
	case 10:
		fill(0x80, 0, 1)
	case 11:
		fill('0', '0', '0')
	case 12: // a code page and then, behind it, one character to the right
		if len(f) > 2 {
			copy(f[2:], f[1:len(f)-1])
			f[1] = ' '
		} else {
			fill(1, 0, 0)
		}
	case 13: // padding inside
		f[len(f)/2] = 0
	}
}

// Card is the driver card file that holds just the chip file and one other.
func Card(e *ref.EF, content []byte) []byte {
	if e.FID == 0x0002 {
		return ref.Join([]ref.Record{{FID: 2, Value: content}})
	}
	return ref.Join([]ref.Record{{FID: 2, Value: ref.Icc}, {FID: e.FID, Appendix: e.Appendix, Value: content}})
}

// FullCard is a driver card with every file in it, this one with the content.
func FullCard(e *ref.EF, content []byte) []byte {
	var rs []ref.Record
	for i := range ref.DriverEFs {
		o := &ref.DriverEFs[i]
		v := content
		if o.Name != e.Name {
			v = o.Default(3)
		}
		rs = append(rs, ref.Record{FID: o.FID, Appendix: o.Appendix, Value: v})
	}
	return ref.Join(rs)
}

// At finds a submessage of the driver card.
func At(d *cardv1.DriverCardFile, path []string) proto.Message {
	m := d.ProtoReflect()
	for _, p := range path {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(p))
		if fd == nil {
			panic("no field " + p)
		}
		if !m.Has(fd) {
			return nil
		}
		m = m.Get(fd).Message()
	}
	return m.Interface()
}

// Class reduces an error to its first words.
func Class(err error) string {
	s := err.Error()
	var out []string
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == ':' }) {
		if strings.ContainsAny(w, "0123456789\"'") {
			continue
		}
		out = append(out, w)
	}
	if len(out) > 14 {
		out = out[len(out)-14:]
	}
	return strings.Join(out, " ")
}

// Judge parses the file and compares.
func Judge(c *mc.Ch, e *ref.EF, content []byte) { JudgeIn(c, e, content, Card(e, content)) }

// JudgeIn is Judge for the file inside a given card.
func JudgeIn(c *mc.Ch, e *ref.EF, content, data []byte) {
	c.Visit(mc.Hash(content))
	want, verdict := e.Decode(content)
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		if verdict == ref.Accept {
			c.Fail(e.Name+": refused: "+Class(err), "error", err.Error(), "content", content, "file", data)
		}
		c.Outcome(e.Name + " refused")
		return
	}
	if verdict == ref.Refuse {
		c.Fail(e.Name+": wrong length accepted", "content", content, "file", data)
	}
	if f.GetType() != tachographv1.File_DRIVER_CARD {
		c.Fail(e.Name+": file type "+f.GetType().String(), "file", data)
	}
	m := At(f.GetDriverCard(), e.Path)
	if m == nil {
		c.Fail(e.Name+": missing in the parsed card", "content", content, "file", data)
	}
	got := mc.Flatten(m, "raw_data", "signature", "signature_verified", "authentication")
	if p, d := want.Diff(got); p != "" {
		c.Fail(e.Name+": "+p, "diff", d, "content", content, "file", data)
	}
	c.Outcome(fmt.Sprintf("%s %d", e.Name, len(got)))
	if c.WantLog() {
		c.Log("%s: %x -> %d fields as expected", e.Name, data, len(got))
	}
}

// Run explores the named elementary files.
func Run(k *mc.Check, names ...string) {
	for _, n := range names {
		e := ref.EFByName(n)
		nrec := 0
		if e.Record > 0 {
			nrec = 2
		}
		base := e.Default(nrec)
		k.Explore(n+": any value in any one byte", 1, func(c *mc.Ch) {
			b := append([]byte(nil), base...)
			Mutate(c, b, 0, len(b), 256)
			Judge(c, e, b)
		})
		alts := mc.Pick2(k, 12, len(Core)+1)
		if len(base) > 100 {
			alts = mc.Pick2(k, 8, len(Core)+1)
		}
		k.Explore(n+": edge values in any two bytes", 2, func(c *mc.Ch) {
			b := append([]byte(nil), base...)
			Mutate(c, b, 0, len(b), alts)
			Judge(c, e, b)
		})
		fields := e.Fields(base)
		pats := Patterns
		if len(fields) > 40 {
			pats = mc.Pick2(k, 8, Patterns)
		}
		k.Explore(n+": edge values in any two fields", 2, func(c *mc.Ch) {
			b := append([]byte(nil), base...)
			MutateFields(c, b, fields, pats)
			Judge(c, e, b)
		})
		if len(fields) > 0 {
			k.Explore(n+": a field of one value but for one byte", 0, func(c *mc.Ch) {
				b := append([]byte(nil), base...)
				OneByte(c, b, fields, true)
				Judge(c, e, b)
			})
		}
		if k.Thorough() {
			k.Explore(n+": edge values in any three fields", 3, func(c *mc.Ch) {
				b := append([]byte(nil), base...)
				MutateFields(c, b, fields, 4)
				Judge(c, e, b)
			})
			// Any value in two neighbouring bytes.
			k.Explore(n+": any value in two neighbouring bytes", 0, func(c *mc.Ch) {
				b := append([]byte(nil), base...)
				if len(b) < 2 {
					return
				}
				i := c.Free(len(b) - 1)
				v := c.Free(65536)
				b[i], b[i+1] = byte(v>>8), byte(v)
				Judge(c, e, b)
			})
			k.Explore(n+": edge values in any three bytes", 3, func(c *mc.Ch) {
				b := append([]byte(nil), base...)
				Mutate(c, b, 0, len(b), mc.Pick2(k, 3, 4))
				Judge(c, e, b)
			})
		}
		max := mc.Pick2(k, 12, 60)
		if e.Record == 0 {
			max = 0
		}
		k.Explore(n+": every length and record count", 1, func(c *mc.Ch) {
			cnt := c.Free(max + 1)
			b := e.Default(cnt)
			// Cut or extend.
			span := e.Record
			if span == 0 {
				span = len(b) + 3
			}
			cut := c.Free(2 * span)
			switch {
			case cut < span && cut <= len(b):
				b = b[:len(b)-cut]
			case cut >= span:
				fill := c.Free(3)
				for i := 0; i <= cut-span; i++ {
					b = append(b, []byte{0x00, 0xFF, 0x41}[fill])
				}
			}
			Judge(c, e, b)
		})
		if k.Thorough() || len(base) < 100 {
			k.Explore(n+": edge values in any byte, inside a full card", 1, func(c *mc.Ch) {
				b := append([]byte(nil), base...)
				Mutate(c, b, 0, len(b), mc.Pick2(k, 4, 256))
				JudgeIn(c, e, b, FullCard(e, b))
			})
		}
		if e.Record > 0 {
			// As many records as fit the file's length field.
			most := (65535 - e.Header) / e.Record
			k.Explore(n+": every number of records up to several hundred, and the most", 0, func(c *mc.Ch) {
				cnt := c.Free(mc.Pick2(k, 401, 1501))
				b := e.Default(min(cnt, most))
				if cnt == 400 {
					b = e.Default(most)
				}
				if _, v := e.Decode(b); v != ref.Accept {
					panic("not a typical file")
				}
				if c.Free(2) == 1 {
					JudgeIn(c, e, b, FullCard(e, b))
					return
				}
				Judge(c, e, b)
			})
			// Records that are blank, full of FF, or typical, in every order.
			k.Explore(n+": blank and used records in every arrangement", 0, func(c *mc.Ch) {
				cnt := c.Free(mc.Pick2(k, 5, 7)) // records
				full := e.Default(cnt)
				for i := 0; i < cnt; i++ {
					r := full[e.Header+i*e.Record : e.Header+(i+1)*e.Record]
					switch c.Free(4) {
					case 1:
						clear(r)
					case 2:
						for j := range r {
							r[j] = 0xFF
						}
					case 3:
						// Another record's content, so that neighbours are equal.
						copy(r, full[e.Header:e.Header+e.Record])
					}
				}
				Judge(c, e, full)
			})
			// The pointer to the newest record at every value around the count.
			if e.Header > 0 {
				k.Explore(n+": every newest-record pointer", 0, func(c *mc.Ch) {
					b := e.Default(3)
					v := c.Free(1 << (8 * min(e.Header, 2)))
					for j := e.Header - 1; j >= 0; j-- {
						b[j] = byte(v)
						v >>= 8
					}
					Judge(c, e, b)
				})
			}
		}
	}
	k.Assume("the reference decoder in harness/ref/card.go states the layouts of the data dictionary correctly")
	k.Assume("contents are explored around typical files (any value in one byte, edge values in two); combinations of three and more unusual bytes are covered for edge values in the thorough tier only")
}
