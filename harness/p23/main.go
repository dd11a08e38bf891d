// P23: the vehicle unit overview decodes field by field.
package main

import (
	"bytes"
	"fmt"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
)

func main() { mc.Main("P23", run) }

// judge compares the overview of a download with the reference decoding.
func judge(c *mc.Ch, b []byte, around int) {
	c.Visit(mc.Hash(b) + uint64(around))
	ts := []ref.Transfer{{TREP: 1, B: b}}
	switch around {
	case 1:
		ts = append(ts, ref.Transfer{TREP: 2, B: ref.Activities1(1, 1, 1, 1)})
	case 2:
		ts = append([]ref.Transfer{{TREP: 4, B: ref.Speed1(1)}}, ts...)
	}
	data := ref.JoinVU(ts)
	// The reading of the whole download may change with a count byte.
	got, ok := ref.SplitVU(data)
	var body []byte
	n := 0
	for _, t := range got {
		if t.TREP == 1 {
			body = t.B
			n++
		}
	}
	f, err := tachograph.UnmarshalFile(data)
	if !ok || n != 1 {
		if err == nil && !ok {
			c.Fail("overview that is no whole transfer accepted", "data", data)
		}
		c.Outcome("refused")
		return
	}
	want, may := ref.WantOverview1(body)
	if err != nil {
		if !may && bytes.Equal(body, b) {
			c.Fail("overview refused: "+ef.Class(err), "error", err.Error(), "overview", b)
		}
		c.Outcome("refused")
		return
	}
	o := f.GetVehicleUnit().GetGen1().GetOverview()
	if o == nil {
		c.Fail("overview missing", "overview", b)
	}
	if p, d := want.Diff(mc.Flatten(o, "raw_data")); p != "" {
		c.Fail(p, "diff", d, "overview", body)
	}
	c.Outcome(fmt.Sprint(len(want)))
	c.Log("overview %x: %d fields as expected", body, len(want))
}

func run(k *mc.Check) {
	fill := func(c *mc.Ch, locks, controls int) []byte { return ref.Overview1(locks, controls) }
	k.Explore("any value in any one byte", 0, func(c *mc.Ch) {
		b := fill(c, 1, 1)
		if c.Free(2) == 1 {
			b = fill(c, 2, 2)
		}
		i := c.Free(len(b))
		if opaque := i < 388 || i >= len(b)-128; opaque && !k.Thorough() {
			b[i] ^= []byte{1, 0x80, 0xFF}[c.Free(3)]
		} else {
			b[i] = byte(c.Free(256))
		}
		judge(c, b, i%3)
	})
	base := ref.Overview1(1, 1)
	from, to := 388, len(base)-120 // the part that is decoded
	k.Explore("edge values in any two bytes", 2, func(c *mc.Ch) {
		b := append([]byte(nil), base...)
		ef.Mutate(c, b, from, to, mc.Pick2(k, 6, len(ef.Core)+1))
		judge(c, b, 0)
	})
	two := ref.Overview1(2, 2)
	fields := ref.Overview1Fields(two)
	pats := mc.Pick2(k, 8, ef.Patterns)
	k.Explore("edge values in any two fields", 2, func(c *mc.Ch) {
		b := append([]byte(nil), two...)
		ef.MutateFields(c, b, fields, pats)
		judge(c, b, 0)
	})
	k.Explore("edge values in any field", 1, func(c *mc.Ch) {
		b := append([]byte(nil), two...)
		ef.MutateFields(c, b, fields, ef.Patterns)
		judge(c, b, 0)
	})
	k.Explore("a field of one value but for one byte", 0, func(c *mc.Ch) {
		b := append([]byte(nil), two...)
		ef.OneByte(c, b, fields, true)
		judge(c, b, 0)
	})
	k.Explore("any value in two neighbouring bytes", 0, func(c *mc.Ch) {
		if !k.Thorough() {
			// The byte pairs that hold no text.
			b := append([]byte(nil), base...)
			spots := []int{388 + 17, 388 + 32, 388 + 36, 388 + 40, 388 + 43, 388 + 44, 388 + 47, 388 + 49, 491 - 36}
			i := spots[c.Free(len(spots))]
			v := c.Free(65536)
			b[i], b[i+1] = byte(v>>8), byte(v)
			judge(c, b, 0)
			return
		}
		b := append([]byte(nil), base...)
		i := from + c.Free(to-from-1)
		v := c.Free(65536)
		b[i], b[i+1] = byte(v>>8), byte(v)
		judge(c, b, 0)
	})
	k.Explore("every number of locks and controls", 0, func(c *mc.Ch) {
		n := mc.Pick2(k, 24, 256)
		l, m := c.Free(n), c.Free(n)
		if !k.Thorough() {
			// Few of one with any number of the other, up to the most.
			switch c.Free(3) {
			case 1:
				l = 255 - l
			case 2:
				m = 255 - m
			}
		}
		b := ref.Overview1(l, m)
		if _, may := ref.WantOverview1(b); may {
			panic("not a typical overview")
		}
		judge(c, b, (l+m)%3)
	})
	// Records that are blank, full of FF or typical, in every arrangement.
	k.Explore("blank and filled records in every arrangement", 0, func(c *mc.Ch) {
		l, m := c.Free(4), c.Free(4)
		b := ref.Overview1(l, m)
		paint := func(o, n int) {
			switch c.Free(4) {
			case 1:
				copy(b[o:o+n], make([]byte, n))
			case 2:
				copy(b[o:o+n], bytes.Repeat([]byte{0xFF}, n))
			case 3: // times only
				copy(b[o+1:o+8], make([]byte, 7))
			}
		}
		for i := 0; i < l; i++ {
			paint(492+98*i, 98)
		}
		for i := 0; i < m; i++ {
			paint(493+98*l+31*i, 31)
		}
		judge(c, b, 0)
	})
	k.Explore("all slot states, periods and card types", 0, func(c *mc.Ch) {
		b := ref.Overview1(1, 1)
		b[388+44] = byte(c.Free(256))
		t := c.Free(8)
		b[433+4] = byte(t)
		switch c.Free(4) {
		case 1:
			copy(b[388+32:], make([]byte, 12))
		case 2:
			copy(b[388+36:], make([]byte, 4))
		case 3:
			copy(b[388+40:], []byte{0xFF, 0xFF, 0xFF, 0xFF})
		}
		judge(c, b, c.Free(3))
	})
	k.Explore("text of every page in every name", 0, func(c *mc.Ch) {
		b := ref.Overview1(1, 1)
		spot := []int{388 + 18, 455, 492 + 8, 492 + 44}[c.Free(4)]
		if k.Thorough() {
			b[spot] = byte(c.Free(256))
		} else {
			b[spot] = []byte{0, 1, 2, 3, 4, 5, 7, 9, 13, 15, 16, 17, 80, 85, 128, 255}[c.Free(16)]
		}
		v := byte(c.Free(256))
		n := 13
		if spot != 388+18 {
			n = 35
		}
		switch c.Free(3) {
		case 0:
			b[spot+1] = v
		case 1:
			b[spot+n] = v
		case 2:
			for i := 1; i <= n; i++ {
				b[spot+i] = v
			}
		}
		judge(c, b, 0)
	})
}
