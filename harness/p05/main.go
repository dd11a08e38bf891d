// P05: a driver card that parses marshals to the same bytes.
package main

import (
	"bytes"
	"fmt"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

func main() { mc.Main("P05", run) }

// check parses and marshals; must says that an error on either side is wrong.
func check(c *mc.Ch, what string, data []byte, must bool) {
	c.Visit(mc.Hash(data))
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		c.Outcome(what + " refused")
		return // P04, P06-P11 say what must parse
	}
	if f.GetType() != tachographv1.File_DRIVER_CARD {
		c.Outcome("raw card")
		return
	}
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		if must {
			c.Fail(what+": marshal: "+ef.Class(err), "error", err.Error(), "file", data)
		}
		c.Outcome(what + " not written: " + ef.Class(err))
		return
	}
	if !bytes.Equal(out, data) {
		i := 0
		for i < len(out) && i < len(data) && out[i] == data[i] {
			i++
		}
		key := what + ": written differently"
		if len(out) != len(data) {
			key = what + ": length differs"
		}
		c.Fail(key, "at", i, "file", data, "output", out)
	}
	c.Outcome(what)
}

func one(c *mc.Ch, s *ref.Place, content []byte, sig int) {
	rs := s.Records(content, sig)
	if s.FID != 2 {
		rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
	}
	must := false
	if s.EF != nil {
		w, v := s.EF.Decode(content)
		must = v == ref.Accept && !w.Unknown()
	}
	check(c, s.Name, ref.Join(rs), must)
}

func full(x int, content []byte, sig int) []byte {
	var rs []ref.Record
	for i := range ref.Slots {
		s := &ref.Slots[i]
		sg := sig
		if !s.Signed {
			sg = -1
		}
		if i == x {
			rs = append(rs, s.Records(content, sg)...)
			continue
		}
		rs = append(rs, s.Records(contents[i], sg)...)
	}
	return ref.Join(rs)
}

func run(k *mc.Check) {
	n := len(ref.Slots)
	for i := range ref.Slots {
		i := i
		s := &ref.Slots[i]
		e := s.EF
		base := s.Content(0)
		if e != nil && e.Record > 0 {
			base = e.Default(2)
		}
		sig := -1
		if s.Signed {
			sig = 0
		}
		k.Explore(s.Name+": any value in any one byte", 1, func(c *mc.Ch) {
			b := bytes.Clone(base)
			ef.Mutate(c, b, 0, len(b), 256)
			one(c, s, b, sig)
		})
		alts := mc.Pick2(k, 6, len(ef.Core)+1)
		if len(base) > 60 {
			alts = mc.Pick2(k, 3, len(ef.Core)+1)
		}
		if e == nil && s.FID != 0x0504 {
			alts = mc.Pick2(k, 2, 4)
		}
		k.Explore(s.Name+": edge values in any two bytes", 2, func(c *mc.Ch) {
			b := bytes.Clone(base)
			ef.Mutate(c, b, 0, len(b), alts)
			one(c, s, b, sig)
		})
		if e != nil {
			fields := e.Fields(base)
			pats := ef.Patterns
			if len(fields) > 40 {
				pats = mc.Pick2(k, 8, ef.Patterns)
			}
			k.Explore(s.Name+": edge values in any two fields", 2, func(c *mc.Ch) {
				b := bytes.Clone(base)
				ef.MutateFields(c, b, fields, pats)
				one(c, s, b, sig)
			})
			if len(fields) > 0 {
				k.Explore(s.Name+": a field of one value but for one byte", 0, func(c *mc.Ch) {
					b := bytes.Clone(base)
					ef.OneByte(c, b, fields, k.Thorough())
					one(c, s, b, sig)
				})
			}
		}
		if k.Thorough() {
			k.Explore(s.Name+": any value in two neighbouring bytes", 0, func(c *mc.Ch) {
				b := bytes.Clone(base)
				if len(b) < 2 || e == nil {
					return
				}
				j := c.Free(len(b) - 1)
				v := c.Free(65536)
				b[j], b[j+1] = byte(v>>8), byte(v)
				one(c, s, b, sig)
			})
		}
		k.Explore(s.Name+": every length", 0, func(c *mc.Ch) {
			cnt := 0
			if e != nil && e.Record > 0 {
				cnt = c.Free(mc.Pick2(k, 6, 40))
			}
			b := s.Content(0)
			if e != nil {
				b = e.Default(cnt)
			}
			cut := c.Free(len(b) + 60)
			if cut < len(b) {
				b = b[:cut]
			} else {
				b = append(bytes.Clone(b), bytes.Repeat([]byte{FreeByte(c)}, cut-len(b))...)
			}
			one(c, s, b, sig)
		})
		if e != nil && e.Record > 0 {
			k.Explore(s.Name+": blank and used records in every arrangement", 0, func(c *mc.Ch) {
				cnt := c.Free(mc.Pick2(k, 5, 7))
				b := e.Default(cnt)
				for j := 0; j < cnt; j++ {
					r := b[e.Header+j*e.Record : e.Header+(j+1)*e.Record]
					switch c.Free(5) {
					case 1:
						clear(r)
					case 2:
						for x := range r {
							r[x] = 0xFF
						}
					case 3:
						copy(r, b[e.Header:e.Header+e.Record])
					case 4:
						for x := range r {
							r[x] = ' '
						}
					}
				}
				one(c, s, b, sig)
			})
			k.Explore(s.Name+": every number of records", 0, func(c *mc.Ch) {
				cnt := c.Free(mc.Pick2(k, 260, 1500))
				most := (65535 - e.Header) / e.Record
				if cnt == 0 {
					cnt = most
				}
				one(c, s, e.Default(min(cnt, most)), sig)
			})
		}
		k.Explore(s.Name+": edge values in any byte, inside a complete card", 1, func(c *mc.Ch) {
			b := bytes.Clone(base)
			ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 3, 256))
			check(c, s.Name, full(i, b, sig), false)
		})
		k.Explore(s.Name+": every appendix, every length of signature", 0, func(c *mc.Ch) {
			rs := s.Records(s.Content(0), -1)
			if c.Free(2) == 0 {
				rs[0].Appendix = byte(c.Free(256))
			} else {
				l := c.Free(300)
				if l >= 290 {
					l = []int{1000, 4096, 65535, 65534, 32768, 32767, 512, 511, 513, 2048}[l-290]
				}
				rs = append(rs, ref.Record{FID: s.FID, Appendix: s.Appendix | 1, Value: bytes.Repeat([]byte{0x5A}, l)})
			}
			if s.FID != 2 {
				rs = append([]ref.Record{{FID: 2, Value: ref.Icc}}, rs...)
			}
			check(c, s.Name+" odd record", ref.Join(rs), false)
		})
	}
	k.Explore("complete cards without any three files, signed or not", 0, func(c *mc.Ch) {
		sg := c.Free(2) - 1
		a, b, d := c.Free(n), c.Free(n), c.Free(n)
		if b > a || d > b {
			return
		}
		var rs []ref.Record
		for i := range ref.Slots {
			s := &ref.Slots[i]
			if i > 0 && (i == a || i == b || i == d) {
				continue
			}
			g := sg
			if !s.Signed {
				g = -1
			}
			rs = append(rs, s.Records(contents[i], g)...)
		}
		check(c, "complete card", ref.Join(rs), true)
	})
	k.Explore("any three files in the standard order", 0, func(c *mc.Ch) {
		rs := []ref.Record{{FID: 2, Value: ref.Icc}}
		a, b, d := c.Free(n), c.Free(n), c.Free(n)
		if a > b || b > d {
			return
		}
		for i := 1; i < n; i++ {
			if i == a || i == b || i == d {
				g := -1
				if ref.Slots[i].Signed {
					g = c.Free(2) - 1
				}
				rs = append(rs, ref.Slots[i].Records(contents[i], g)...)
			}
		}
		check(c, "three files", ref.Join(rs), true)
	})
	k.Explore("files that are defined but not decoded", 0, func(c *mc.Ch) {
		// Every identifier that is not one of the slots', at each place in a small card.
		fid := uint16(c.Free(65536))
		app := byte(c.Free(2) * 2)
		for i := range ref.Slots {
			if ref.Slots[i].FID == fid {
				return
			}
		}
		rs := []ref.Record{{FID: 2, Value: ref.Icc}, {FID: fid, Appendix: app, Value: []byte{1, 2, 3}}}
		if _, ok := ref.EFs[fid]; !ok && fid%64 != 0 && !k.Thorough() {
			return
		}
		if c.Free(2) == 1 {
			rs = append(rs, ref.Record{FID: fid, Appendix: app | 1, Value: []byte{4, 5}})
		}
		check(c, fmt.Sprintf("file %04X", fid), ref.Join(rs), false)
	})
	k.Assume("files stand in the order the writer uses, each at most once; repeated files and other orders are outside the property")
}

// contents, computed once.
var contents = func() [][]byte {
	t := make([][]byte, len(ref.Slots))
	for i, s := range ref.Slots {
		t[i] = s.Content(0)
	}
	return t
}()

// FreeByte picks a filler.
func FreeByte(c *mc.Ch) byte { return []byte{0x00, 0xFF, ' ', 'A'}[c.Free(4)] }
