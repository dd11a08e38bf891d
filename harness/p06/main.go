// P06: the cyclic activity buffer yields its daily records in order.
package main

import (
	"bytes"
	"fmt"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
)

func main() { mc.Main("P06", run) }

// judge parses a card with this activity file and compares with the chain.
func judge(c *mc.Ch, e *ref.EF, content []byte) {
	c.Visit(mc.Hash(content))
	data := ef.Card(e, content)
	days, stops, may := ref.Chain(content)
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		if !may {
			c.Fail("refused: "+ef.Class(err), "error", err.Error(), "content", content)
		}
		c.Outcome("refused")
		return
	}
	m := ef.At(f.GetDriverCard(), e.Path)
	if m == nil {
		c.Fail("missing", "content", content)
	}
	got := mc.Flatten(m, "raw_data", "signature")
	if g := got["oldest_day_record_index"]; g != fmt.Sprint(ref.U(content[:2])) && !(g == "" && ref.U(content[:2]) == 0) {
		c.Fail("oldest pointer", "got", g, "content", content)
	}
	if g := got["newest_day_record_index"]; g != fmt.Sprint(ref.U(content[2:4])) && !(g == "" && ref.U(content[2:4]) == 0) {
		c.Fail("newest pointer", "got", g, "content", content)
	}
	n := 0
	if g := got["daily_records#"]; g != "" {
		fmt.Sscan(g, &n)
	}
	if !stops[n] {
		c.Fail("number of days", "want", len(days), "got", n, "content", content)
	}
	for i := 0; i < n; i++ {
		if d := ref.DayDiff(days[n-1-i], fmt.Sprintf("daily_records[%d]", i), got); d != "" {
			c.Fail("day differs", "day", i, "diff", d, "record", days[n-1-i].B, "content", content)
		}
	}
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		c.Fail("marshal: "+ef.Class(err), "error", err.Error(), "content", content)
	}
	if !bytes.Equal(out, data) {
		c.Fail("written back differently", "file", data, "output", out)
	}
	c.Outcome(fmt.Sprint(n))
}

func run(k *mc.Check) {
	g1, g2 := &ref.ActivityEF[0], &ref.ActivityEF[1]
	both := func(c *mc.Ch, content []byte) {
		judge(c, g1, content)
		if k.Thorough() {
			judge(c, g2, content)
		}
	}
	k.Explore("intact buffers: every start position, every combination of record sizes", 0, func(c *mc.Ch) {
		e := g1
		if c.Free(2) == 1 {
			e = g2
		}
		days := c.Free(mc.Pick2(k, 5, 6))
		var sizes []int
		total := 0
		for i := 0; i < days; i++ {
			s := c.Free(4)
			sizes = append(sizes, s)
			total += 12 + 2*s
		}
		size := total + []int{0, 1, 2, 3, 4, 5, 11, 12, 30}[c.Free(9)]
		if size == 0 {
			judge(c, e, make([]byte, 4))
			return
		}
		for at := 0; at < size; at++ {
			judge(c, e, ref.ActivityFile(size, at, sizes...))
		}
	})
	k.Explore("overwritten buffers: older records partly replaced", 0, func(c *mc.Ch) {
		// A buffer filled by k days, day by day, the oldest dropped as they are overwritten.
		size := 60 + c.Free(mc.Pick2(k, 12, 40))
		days := 1 + c.Free(mc.Pick2(k, 16, 30))
		at := c.Free(size)
		pat := c.Free(mc.Pick2(k, 3, 6))
		type rec struct{ pos, n int }
		buf := bytes.Repeat([]byte{[]byte{0x00, 0xFF}[c.Free(2)]}, size)
		var live []rec
		pos := at
		put := func(p int, b []byte) {
			for i, x := range b {
				buf[(p+i)%size] = x
			}
		}
		for d := 0; d < days; d++ {
			n := (d*(pat+1) + pat) % 5
			words := make([]int, n)
			for i := range words {
				words[i] = (i*60+d)%1440 | (d+i)%4<<11
			}
			l := 12 + 2*n
			used := 0
			for _, r := range live {
				used += r.n
			}
			for len(live) > 0 && used+l > size {
				used -= live[0].n
				live = live[1:]
				if len(live) > 0 { // the new oldest has no previous record
					put(live[0].pos, []byte{0, 0})
				}
			}
			prev := 0
			if len(live) > 0 {
				prev = live[len(live)-1].n
			}
			put(pos, ref.DayRecord(prev, d, words...))
			live = append(live, rec{pos, l})
			pos = (pos + l) % size
		}
		o, nw := live[0].pos, live[len(live)-1].pos
		judge(c, g1, append([]byte{byte(o >> 8), byte(o), byte(nw >> 8), byte(nw)}, buf...))
	})
	base := ref.ActivityFile(64, 30, 2, 1, 3)
	k.Explore("any value in any one byte", 1, func(c *mc.Ch) {
		b := bytes.Clone(base)
		ef.Mutate(c, b, 0, len(b), 256)
		both(c, b)
	})
	k.Explore("small values in any two bytes of pointers and lengths", mc.Pick2(k, 2, 3), func(c *mc.Ch) {
		b := bytes.Clone(base)
		n := len(b) - 4
		idx := []int{0, 1, 2, 3}
		days, _, _ := ref.Chain(b)
		for _, d := range days {
			for i := 0; i < 4; i++ {
				idx = append(idx, 4+(d.Pos+i)%n)
			}
		}
		lim := mc.Pick2(k, 40, 70)
		for _, i := range idx {
			v := c.Pick(mc.Pick2(k, 44, 100))
			if v > 0 {
				if v < lim {
					b[i] = byte(v - 1)
				} else {
					b[i] = byte(255 - (v - lim))
				}
			}
		}
		both(c, b)
	})
	k.Explore("every pair of pointers", 0, func(c *mc.Ch) {
		b := bytes.Clone(base)
		o, n := c.Free(70), c.Free(mc.Pick2(k, 300, 65536))
		b[0], b[1] = 0, byte(o)
		b[2], b[3] = byte(n>>8), byte(n)
		both(c, b)
	})
	k.Explore("every buffer size around a record", 0, func(c *mc.Ch) {
		n := c.Free(80)
		b := ref.ActivityFile(80, c.Free(80), 2, 1, 3)[:4+n]
		both(c, b)
	})
	k.Explore("short buffers over {0,1,4,12}", 0, func(c *mc.Ch) {
		n := c.Free(mc.Pick2(k, 7, 9))
		b := []byte{0, 0, 0, byte(c.Free(3))}
		for i := 0; i < n; i++ {
			b = append(b, []byte{0, 1, 4, 12}[c.Free(4)])
		}
		both(c, b)
	})
	k.Explore("full-size buffers with many days", 0, func(c *mc.Ch) {
		n := []int{366, 367, 365, 500, 700, 980, 1, 28, 1000}[c.Free(9)]
		size := []int{13776, 13780, 6000}[c.Free(3)]
		sz := c.Free(3)
		if n*(12+2*sz) > size {
			return
		}
		sizes := make([]int, n)
		for i := range sizes {
			sizes[i] = sz
		}
		for _, at := range []int{0, 5, size - 1, size - 2, size - 3, size / 2} {
			judge(c, g1, ref.ActivityFile(size, at, sizes...))
		}
	})
	k.Assume("where a link disagrees with the record it leads to, or the oldest record still has a link, a reader may go on or stop there")
}
