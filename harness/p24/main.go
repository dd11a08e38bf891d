// P24: vehicle unit daily activities decode record by record.
package main

import (
	"bytes"
	"fmt"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
)

func main() { mc.Main("P24", run) }

// judge compares the days of a download with the reference decoding.
func judge(c *mc.Ch, days ...[]byte) {
	h := uint64(len(days))
	var ts []ref.Transfer
	for _, b := range days {
		h = h*1099511628211 + mc.Hash(b)
		ts = append(ts, ref.Transfer{TREP: 2, B: b})
	}
	c.Visit(h)
	data := ref.JoinVU(ts)
	got, ok := ref.SplitVU(data)
	f, err := tachograph.UnmarshalFile(data)
	var bodies [][]byte
	for _, t := range got {
		if t.TREP == 2 {
			bodies = append(bodies, t.B)
		}
	}
	if !ok || len(bodies) != len(got) {
		if err == nil && !ok {
			c.Fail("day that is no whole transfer accepted", "data", data)
		}
		c.Outcome("refused")
		return
	}
	acts := f.GetVehicleUnit().GetGen1().GetActivities()
	if err == nil && len(acts) != len(bodies) {
		c.Fail("number of days", "got", len(acts), "want", len(bodies), "data", data)
	}
	refusable := false
	for i, b := range bodies {
		want, words, may := ref.WantActivities1(b)
		for j := 0; j+2 <= len(words); j += 2 {
			may = may || ref.U(words[j:j+2])&0x7FF >= 1440
		}
		refusable = refusable || may
		if err != nil {
			continue
		}
		flat := mc.Flatten(acts[i], "raw_data")
		if d := ref.Changes(words, "activity_changes", flat, false); d != "" {
			c.Fail("activity changes differ", "diff", d, "day", b)
		}
		for p := range flat {
			if strings.HasPrefix(p, "activity_changes") {
				delete(flat, p)
			}
		}
		if p, d := want.Diff(flat); p != "" {
			c.Fail(p, "diff", d, "day", b, "index", i)
		}
		c.Outcome(fmt.Sprint(len(want), len(words)))
	}
	if err != nil {
		if !refusable && bytes.Equal(bodies[0], days[0]) {
			c.Fail("day refused: "+ef.Class(err), "error", err.Error(), "data", data)
		}
		c.Outcome("refused")
	}
	c.Log("%d days: %x", len(days), days)
}

func run(k *mc.Check) {
	k.Explore("any value in any one byte", 0, func(c *mc.Ch) {
		n := 1 + c.Free(2)
		b := ref.Activities1(n, n+1, n, n)
		b[c.Free(len(b))] = byte(c.Free(256))
		judge(c, b)
	})
	base := ref.Activities1(1, 1, 1, 1)
	to := len(base) - 120
	k.Explore("edge values in any two bytes", 2, func(c *mc.Ch) {
		b := append([]byte(nil), base...)
		ef.Mutate(c, b, 0, to, mc.Pick2(k, 9, len(ef.Core)+1))
		judge(c, b)
	})
	two := ref.Activities1(2, 3, 2, 2)
	fields := ref.Activities1Fields(two)
	pats := mc.Pick2(k, 8, ef.Patterns)
	k.Explore("edge values in any two fields", 2, func(c *mc.Ch) {
		b := append([]byte(nil), two...)
		ef.MutateFields(c, b, fields, pats)
		judge(c, b)
	})
	k.Explore("edge values in any field", 1, func(c *mc.Ch) {
		b := append([]byte(nil), two...)
		ef.MutateFields(c, b, fields, ef.Patterns)
		judge(c, b)
	})
	k.Explore("a field of one value but for one byte", 0, func(c *mc.Ch) {
		b := append([]byte(nil), two...)
		ef.OneByte(c, b, fields, true)
		judge(c, b)
	})
	k.Explore("any value in two neighbouring bytes", 0, func(c *mc.Ch) {
		b := append([]byte(nil), base...)
		i := 0
		if k.Thorough() {
			i = c.Free(to - 1)
		} else {
			// The numbers: day, expiry, insertion, withdrawal, previous vehicle, place, condition.
			spots := []int{0, 2, 4, 5, 9 + 90, 9 + 92, 9 + 96, 9 + 98, 9 + 100, 9 + 101, 9 + 106, 9 + 127, 141 + 18, 141 + 22, 141 + 23, 141 + 25, 172 + 4}
			i = spots[c.Free(len(spots))]
		}
		v := c.Free(65536)
		b[i], b[i+1] = byte(v>>8), byte(v)
		judge(c, b)
	})
	k.Explore("every combination of record counts", 0, func(c *mc.Ch) {
		n := mc.Pick2(k, 5, 9)
		b := ref.Activities1(c.Free(n), c.Free(n), c.Free(n), c.Free(n))
		switch c.Free(3) {
		case 1:
			judge(c, b, ref.Activities1(2, 1, 2, 1))
		case 2:
			judge(c, ref.Activities1(0, 3, 0, 2), b, ref.Activities1(1, 0, 1, 0))
		default:
			judge(c, b)
		}
	})
	big := []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1439, 1440, 1441, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535}
	k.Explore("many records of one kind", 0, func(c *mc.Ch) {
		n := [4]int{1, 2, 1, 1}
		i := c.Free(4)
		few := mc.Pick2(k, 258, 520)
		if n[i] = c.Free(few + len(big)); n[i] >= few {
			n[i] = big[n[i]-few]
		}
		if i == 0 && n[i] > 2049 {
			return
		}
		if i == 2 && n[i] > 255 {
			return
		}
		b := ref.Activities1(n[0], n[1], n[2], n[3])
		if _, _, may := ref.WantActivities1(b); may {
			panic("not a typical day")
		}
		judge(c, b)
	})
	k.Explore("blank and filled records in every arrangement", 0, func(c *mc.Ch) {
		n := [4]int{c.Free(3), c.Free(3), c.Free(4), c.Free(4)}
		b := ref.Activities1(n[0], n[1], n[2], n[3])
		paint := func(o, w int) {
			switch c.Free(3) {
			case 1:
				copy(b[o:o+w], make([]byte, w))
			case 2:
				copy(b[o:o+w], bytes.Repeat([]byte{0xFF}, w))
			}
		}
		o := 9
		for i := 0; i < n[0]; i++ {
			// Everything but the card, whose type must be one.
			paint(o+90, 11)
			copy(b[o+102:o+109], b[o+94:o+101])
			o += 129
		}
		o += 2 + 2*n[1] + 1
		for i := 0; i < n[2]; i++ {
			paint(o, 28)
			o += 28
		}
		o += 2
		for i := 0; i < n[3]; i++ {
			paint(o, 5)
			o += 5
		}
		judge(c, b)
	})
	k.Explore("codes of places, conditions and cards together", 0, func(c *mc.Ch) {
		b := append([]byte(nil), base...)
		switch c.Free(4) {
		case 0:
			b[141+3+22] = byte(c.Free(256))
			b[141+3+23] = []byte{0, 13, 0x33, 0x34, 0xFD, 0xFF}[c.Free(6)]
		case 1:
			b[141+3+23] = byte(c.Free(256))
			b[141+3+24] = byte(c.Free(256))
		case 2:
			b[9+72] = byte(c.Free(8))
			b[9+73] = byte(c.Free(256))
		case 3:
			b[9+101] = byte(c.Free(256))
			b[9+128] = byte(c.Free(256))
		}
		judge(c, b)
	})
	k.Explore("text of every page in every name", 0, func(c *mc.Ch) {
		b := append([]byte(nil), base...)
		spot := []int{9, 9 + 36, 9 + 110}[c.Free(3)]
		if k.Thorough() {
			b[spot] = byte(c.Free(256))
		} else {
			b[spot] = []byte{0, 1, 2, 3, 4, 5, 7, 9, 13, 15, 16, 17, 80, 85, 128, 255}[c.Free(16)]
		}
		v := byte(c.Free(256))
		n := 35
		if spot == 9+110 {
			n = 13
		}
		switch c.Free(3) {
		case 0:
			b[spot+1] = v
		case 1:
			b[spot+n] = v
		case 2:
			for i := 1; i <= n; i++ {
				b[spot+i] = v
			}
		}
		judge(c, b)
	})
}
