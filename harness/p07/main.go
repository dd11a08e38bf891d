// P07: daily activity records decode every change word.
package main

import (
	"fmt"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
)

func main() { mc.Main("P07", run) }

func be2(v int) []byte { return []byte{byte(v >> 8), byte(v)} }

// day wraps a record into a file of daily activities.
func day(rec []byte, at int) []byte {
	buf := make([]byte, len(rec)+5)
	for i, x := range rec {
		buf[(at+i)%len(buf)] = x
	}
	return append(append(be2(at), be2(at)...), buf...)
}

// card judges one record on a card.
func card(c *mc.Ch, e *ref.EF, rec []byte, at int) {
	c.Visit(mc.Hash(rec) + uint64(at)*7919)
	content := day(rec, at)
	data := ef.Card(e, content)
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		c.Fail("card refused: "+ef.Class(err), "error", err.Error(), "record", rec)
	}
	m := ef.At(f.GetDriverCard(), e.Path)
	if m == nil {
		c.Fail("card: missing", "record", rec)
	}
	got := mc.Flatten(m, "signature")
	if got["daily_records#"] != "1" {
		c.Fail("card: number of days", "got", got["daily_records#"], "record", rec)
	}
	days, _, _ := ref.Chain(content)
	if d := ref.DayDiff(days[0], "daily_records[0]", got); d != "" {
		c.Fail("card: day differs", "diff", d, "record", rec)
	}
	c.Outcome("card " + got["daily_records[0].valid"])
}

// vu judges the words in a vehicle unit download.
func vu(c *mc.Ch, words []byte) {
	c.Visit(mc.Hash(words) ^ 0x5555)
	a := ref.Activities1(1, len(words)/2, 1, 1)
	copy(a[4+3+2+129+2:], words)
	data := ref.JoinVU([]ref.Transfer{{TREP: 2, B: a}})
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		c.Fail("vehicle unit refused: "+ef.Class(err), "error", err.Error(), "words", words)
	}
	acts := f.GetVehicleUnit().GetGen1().GetActivities()
	if len(acts) != 1 {
		c.Fail("vehicle unit: number of days", "got", len(acts))
	}
	got := mc.Flatten(acts[0], "raw_data", "signature")
	if d := ref.Changes(words, "activity_changes", got, false); d != "" {
		c.Fail("vehicle unit: changes differ", "diff", d, "words", words)
	}
	c.Outcome("vu")
}

func run(k *mc.Check) {
	g := []*ref.EF{&ref.ActivityEF[0], &ref.ActivityEF[1]}
	// A word of every kind, and the ones at the edges of the encoding.
	reps := []int{0x0000, 0x0001, 0x0800, 0x1000, 0x1800, 0x2000, 0x4000, 0x8000, 0xF800, 0x059F, 0x3D9F, 0x05A0, 0x07FF, 0xFFFF, 0xFFFE, 0x0100}
	each := func(c *mc.Ch, words []byte) {
		n := len(words) / 2
		ws := make([]int, n)
		for i := range ws {
			ws[i] = ref.U(words[2*i : 2*i+2])
		}
		rec := ref.DayRecord(0, 4, ws...)
		card(c, g[0], rec, 0)
		card(c, g[1], rec, len(rec)-3)
		vu(c, words)
	}
	k.Explore("every word, alone", 0, func(c *mc.Ch) {
		w := c.Free(65536)
		each(c, be2(w))
	})
	k.Explore("every word, first, second and last of three", 0, func(c *mc.Ch) {
		w, p := c.Free(65536), c.Free(3)
		words := []byte{0x08, 0x10, 0x20, 0x20, 0x98, 0x30}
		copy(words[2*p:], be2(w))
		each(c, words)
	})
	k.Explore("all sequences of words of every kind", 0, func(c *mc.Ch) {
		n := c.Free(mc.Pick2(k, 5, 6))
		r := reps
		if n == 5 {
			r = reps[:8]
		}
		var words []byte
		for i := 0; i < n; i++ {
			words = append(words, be2(r[c.Free(len(r))])...)
		}
		each(c, words)
	})
	k.Explore("every number of changes, with one word of another kind anywhere", 0, func(c *mc.Ch) {
		n := c.Free(mc.Pick2(k, 60, 300))
		at, w := c.Free(n+1), c.Free(mc.Pick2(k, 4, len(reps)))
		var words []byte
		for i := 0; i < n; i++ {
			v := (i*5)%1440 | i%4<<11
			if i == at {
				v = reps[w]
			}
			words = append(words, be2(v)...)
		}
		each(c, words)
	})
	k.Explore("as many changes as a day has minutes", 0, func(c *mc.Ch) {
		n := []int{1439, 1440, 1000, 255, 256, 257, 128, 512}[c.Free(8)]
		var words []byte
		for i := 0; i < n; i++ {
			words = append(words, be2(i%1440|i%4<<11)...)
		}
		each(c, words)
	})
	base := ref.DayRecord(0, 4, 0x0810, 0x2020)
	k.Explore("any value in any one byte of a record", 1, func(c *mc.Ch) {
		rec := append([]byte(nil), base...)
		for i := 4; i < len(rec); i++ { // not the links
			if v := c.Pick(256); v > 0 {
				rec[i] ^= byte(v)
			}
		}
		at := 0
		card(c, g[0], rec, at)
		card(c, g[1], rec, len(rec)-2)
	})
	k.Explore("every value of counter and distance, edge values of the date", 0, func(c *mc.Ch) {
		rec := append([]byte(nil), base...)
		v := c.Free(65536)
		switch c.Free(3) {
		case 0:
			copy(rec[8:], be2(v))
		case 1:
			copy(rec[10:], be2(v))
		case 2:
			if v%16 != 0 && !k.Thorough() {
				return
			}
			copy(rec[4:], be2(v))
			copy(rec[6:], be2(v*31%65536))
		}
		card(c, g[v%2], rec, 0)
	})
	k.Explore("records of two applications side by side do not mix", 0, func(c *mc.Ch) {
		// Both applications hold an activity file with different days.
		i, j := c.Free(len(reps)), c.Free(len(reps))
		r1, r2 := ref.DayRecord(0, 1, reps[i]), ref.DayRecord(0, 2, reps[j], 0x0833)
		data := ref.Join([]ref.Record{{FID: 2, Value: ref.Icc}, {FID: 0x0504, Appendix: 0, Value: day(r1, 0)}, {FID: 0x0504, Appendix: 2, Value: day(r2, 0)}})
		f, err := tachograph.UnmarshalFile(data)
		if err != nil {
			c.Fail("two applications refused", "error", err.Error())
		}
		for n, r := range [][]byte{r1, r2} {
			m := ef.At(f.GetDriverCard(), g[n].Path)
			if m == nil {
				c.Fail("missing application", "n", n)
			}
			got := mc.Flatten(m, "signature")
			if d := ref.DayDiff(ref.Day{B: r}, "daily_records[0]", got); d != "" {
				c.Fail("two applications: day differs", "diff", d, "application", n)
			}
		}
		c.Outcome(fmt.Sprint("both"))
	})
	k.Assume("a word with a minute of 1440 or more is no change: it may be left out, reported as it stands, or spoil its record")
}
