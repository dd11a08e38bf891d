// P04: each elementary file of a driver card reaches its own place.
package main

import (
	"fmt"
	"sort"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

func main() { mc.Main("P04", run) }

// item is one file of a card: the slot, which content, and which signature (-1: none).
type item struct{ slot, k, sig int }

// contents, computed once.
var contents = func() [][]([]byte) {
	t := make([][][]byte, len(ref.Slots))
	for i, s := range ref.Slots {
		for k := 0; k < 3; k++ {
			t[i] = append(t[i], s.Content(k))
		}
	}
	return t
}()

func (it item) records() []ref.Record {
	return ref.Slots[it.slot].Records(contents[it.slot][it.k], it.sig)
}

func units(b []byte) []string {
	rs, ok := ref.Split(b)
	if !ok {
		return []string{"incomplete"}
	}
	var out []string
	for _, r := range rs {
		if r.Appendix&1 == 1 && len(out) > 0 {
			out[len(out)-1] += fmt.Sprintf("|%x", r.Bytes())
			continue
		}
		out = append(out, fmt.Sprintf("%x", r.Bytes()))
	}
	sort.Strings(out)
	return out
}

// check parses a card of these files, in order, and judges where they went.
func check(c *mc.Ch, items []item) {
	var rs []ref.Record
	for _, it := range items {
		rs = append(rs, it.records()...)
	}
	data := ref.Join(rs)
	c.Visit(mc.Hash(data))
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		c.Fail("refused: "+ef.Class(err), "error", err.Error(), "files", names(items), "file", data)
	}
	if f.GetType() != tachographv1.File_DRIVER_CARD {
		c.Fail("not a driver card", "files", names(items))
	}
	place(c, f, items, data)
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		c.Fail("marshal: "+ef.Class(err), "error", err.Error(), "files", names(items))
	}
	if w, g := units(data), units(out); strings.Join(w, ",") != strings.Join(g, ",") {
		c.Fail("written differently", "files", names(items), "diff", firstDiff(w, g))
	}
	c.Outcome(fmt.Sprint(len(items)))
}

func place(c *mc.Ch, f *tachographv1.File, items []item, data []byte) {
	got := mc.Flatten(f.GetDriverCard(), "authentication")
	seen := map[string]bool{}
	for _, it := range items {
		s := &ref.Slots[it.slot]
		if d := s.Expect(contents[it.slot][it.k], it.sig, got, seen); d != "" {
			c.Fail(s.Name+" is not in its place: "+strings.SplitN(d, ":", 2)[0], "diff", d, "files", names(items), "file", data)
		}
	}
	for p := range got {
		if !seen[p] && !parentOf(p, seen) {
			c.Fail("something in a place of no file: "+mc.Generic(p), "files", names(items), "value", got[p], "file", data)
		}
	}
}

func parentOf(p string, seen map[string]bool) bool {
	for s := range seen {
		if strings.HasPrefix(s, p+".") {
			return true
		}
	}
	return false
}

func firstDiff(w, g []string) string {
	in := map[string]bool{}
	for _, x := range g {
		in[x] = true
	}
	for _, x := range w {
		if !in[x] {
			return "missing " + x[:min(60, len(x))]
		}
	}
	return fmt.Sprintf("%d units became %d", len(w), len(g))
}

func names(items []item) string {
	var l []string
	for _, it := range items {
		n := ref.Slots[it.slot].Name
		if it.sig >= 0 {
			n += "+sig"
		}
		l = append(l, n)
	}
	return strings.Join(l, ", ")
}

func run(k *mc.Check) {
	n := len(ref.Slots)
	icc := item{0, 0, -1}
	sig := func(c *mc.Ch, slot int) int {
		if !ref.Slots[slot].Signed {
			return -1
		}
		return c.Free(2) - 1
	}
	depth := mc.Pick2(k, 3, 4)
	k.Explore("all sequences of distinct files, with and without signatures", 0, func(c *mc.Ch) {
		d := c.Free(depth + 1)
		items := []item{icc}
		used := map[int]bool{0: true}
		for i := 0; i < d; i++ {
			s := 1 + c.Free(n-1)
			if used[s] {
				return
			}
			used[s] = true
			sg := -1
			if i < 2 || d < 4 {
				sg = sig(c, s)
			}
			items = append(items, item{s, i % 3, sg})
		}
		check(c, items)
	})
	full := func(sg int) []item {
		l := []item{icc}
		for i := 1; i < n; i++ {
			s := sg
			if !ref.Slots[i].Signed {
				s = -1
			}
			l = append(l, item{i, (i * 2) % 3, s})
		}
		return l
	}
	k.Explore("the complete card without any two files, all or none signed", 0, func(c *mc.Ch) {
		l := full(c.Free(2) - 1)
		a := c.Free(n)
		b := c.Free(n)
		if b > a {
			return
		}
		var out []item
		for i, it := range l {
			if i == 0 || i != a && i != b {
				out = append(out, it)
			}
		}
		check(c, out)
	})
	k.Explore("the complete card with any two files exchanged, or one moved", 0, func(c *mc.Ch) {
		l := full(c.Free(2) - 1)
		a, b := 1+c.Free(n-1), 1+c.Free(n-1)
		if c.Free(2) == 0 {
			l[a], l[b] = l[b], l[a]
		} else {
			it := l[a]
			l = append(l[:a], l[a+1:]...)
			l = append(l[:b], append([]item{it}, l[b:]...)...)
		}
		check(c, l)
	})
	k.Explore("the complete card rotated and reversed", 0, func(c *mc.Ch) {
		l := full(c.Free(2) - 1)[1:]
		at := c.Free(n - 1)
		l = append(append([]item{}, l[at:]...), l[:at]...)
		if c.Free(2) == 1 {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		check(c, append([]item{icc}, l...))
	})
	k.Explore("signatures of any length", 0, func(c *mc.Ch) {
		s, l := 1+c.Free(n-1), 0
		if !ref.Slots[s].Signed {
			return
		}
		if l = 1 + c.Free(305); l > 300 {
			l = []int{512, 1000, 4096, 32768, 65535}[l-301]
		}
		items := []item{icc, {s, c.Free(3), 1000 + l}}
		if c.Free(2) == 1 {
			items = full(1)
			items[s].sig = 1000 + l
		}
		check(c, items)
	})
	k.Explore("signatures on the complete card: any pattern with few deviations", mc.Pick2(k, 2, 3), func(c *mc.Ch) {
		base := c.Free(2) - 1
		l := full(base)
		for i := range l {
			if ref.Slots[i].Signed {
				if v := c.Pick(3); v > 0 {
					l[i].sig = (base+1+v)%3 - 1
				}
			}
		}
		check(c, l)
	})
	k.Explore("one application complete, any one file of the other", 0, func(c *mc.Ch) {
		g := byte(c.Free(2) * 2)
		sg := c.Free(2) - 1
		x := c.Free(n)
		pos := c.Free(2)
		var l []item
		for i := 1; i < n; i++ {
			s := &ref.Slots[i]
			if s.Appendix == g && i != 1 && i != x {
				it := item{i, 0, sg}
				if !s.Signed {
					it.sig = -1
				}
				l = append(l, it)
			}
		}
		if x > 0 {
			it := item{x, 1, -1}
			if ref.Slots[x].Signed {
				it.sig = 1 - (sg + 1)
			}
			if pos == 0 {
				l = append([]item{it}, l...)
			} else {
				l = append(l, it)
			}
		}
		check(c, append([]item{icc}, l...))
	})
	k.Explore("a signature that does not follow its own file belongs to no other", 0, func(c *mc.Ch) {
		// One or two data records, then a signature record of any file and application.
		a, b := 1+c.Free(n-1), c.Free(n)
		y, app := c.Free(n), byte(1+2*c.Free(2))
		if a == b {
			return
		}
		sa, sy := &ref.Slots[a], &ref.Slots[y]
		items := []item{icc, {a, 0, -1}}
		if b > 0 {
			items = append(items, item{b, 0, -1})
		}
		last := &ref.Slots[items[len(items)-1].slot]
		if last.FID == sy.FID && last.Appendix|1 == app {
			return // its own signature
		}
		var rs []ref.Record
		for _, it := range items {
			rs = append(rs, it.records()...)
		}
		rs = append(rs, ref.Record{FID: sy.FID, Appendix: app, Value: sy.Signature(0)})
		data := ref.Join(rs)
		c.Visit(mc.Hash(data))
		f, err := tachograph.UnmarshalFile(data)
		if err != nil {
			c.Outcome("refused")
			return
		}
		if f.GetType() != tachographv1.File_DRIVER_CARD {
			return
		}
		if sa.FID == sy.FID && sa.Appendix|1 == app {
			c.Outcome("late signature accepted")
			return
		}
		got := mc.Flatten(f.GetDriverCard(), "authentication")
		for p, v := range got {
			if strings.HasSuffix(p, ".signature") && !strings.Contains(p, "certificate") && v != "" {
				c.Fail("a foreign signature was accepted", "place", p, "file", data, "signature", fmt.Sprintf("%04x %02x", sy.FID, app))
			}
		}
		c.Outcome("signature ignored")
	})
	k.Explore("any application named by the record of any file", 0, func(c *mc.Ch) {
		// The record's appendix names an application that may not have such a file.
		x, app, signed := 1+c.Free(n-1), byte(c.Free(2)*2), c.Free(2) == 1
		s := &ref.Slots[x]
		if s.Appendix == app {
			return
		}
		rs := []ref.Record{{FID: 2, Value: ref.Icc}, {FID: s.FID, Appendix: app, Value: contents[x][0]}}
		if signed {
			rs = append(rs, ref.Record{FID: s.FID, Appendix: app | 1, Value: s.Signature(0)})
		}
		data := ref.Join(rs)
		c.Visit(mc.Hash(data))
		f, err := tachograph.UnmarshalFile(data)
		if err != nil {
			c.Outcome("refused")
			return
		}
		top := "tachograph"
		if s.Appendix == 2 {
			top = "tachograph_g2"
		}
		if x > 1 && mc.Flatten(f.GetDriverCard())[top] != "" {
			c.Fail("a file of one application was stored in the other", "file", fmt.Sprintf("%04x %02x", s.FID, app), "data", data)
		}
		c.Outcome("elsewhere")
	})
	k.Assume("each file occurs at most once; the chip file comes first, since a card is recognised by it")
}
