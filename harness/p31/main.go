// P31: records added to, taken out of or moved in a parsed file are read back as they stand.
package main

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func main() { mc.Main("P31", run) }

// layout are the fields that follow from where the daily records stand; they
// are written to fit.
var layout = []string{"activity_previous_record_length", "activity_record_length", "oldest_day_record_index", "newest_day_record_index"}

// bare drops the bytes kept from reading, except those of records that could
// not be read.
func bare(m protoreflect.Message) {
	fds := m.Descriptor().Fields()
	if fd := fds.ByName("raw_data"); fd != nil {
		if v := fds.ByName("valid"); v == nil || m.Get(v).Bool() {
			m.Clear(fd)
		}
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Message() == nil || fd.IsMap():
		case strings.HasSuffix(string(fd.Name()), "_certificate"): // written as issued
		case fd.IsList():
			for i := range v.List().Len() {
				bare(v.List().Get(i).Message())
			}
		default:
			bare(v.Message())
		}
		return true
	})
}

// lists are the lists of records in m, outermost first, and the names of them.
func lists(m protoreflect.Message, name string) (ls []protoreflect.List, names []string) {
	fds := m.Descriptor().Fields()
	for i := range fds.Len() {
		fd := fds.Get(i)
		n := name + "." + string(fd.Name())
		switch {
		case fd.Message() == nil || !m.Has(fd) || fd.Message().FullName() == "google.protobuf.Timestamp":
		case fd.IsList():
			l := m.Mutable(fd).List()
			ls, names = append(ls, l), append(names, n)
			for j := range l.Len() {
				a, b := lists(l.Get(j).Message(), fmt.Sprintf("%s[%d]", n, j))
				ls, names = append(ls, a...), append(names, b...)
			}
		default:
			a, b := lists(m.Mutable(fd).Message(), n)
			ls, names = append(ls, a...), append(names, b...)
		}
	}
	return
}

// own is the message of this elementary file.
func own(f *tachographv1.File, sl *ref.Place) protoreflect.Message {
	part, g2 := strings.CutSuffix(sl.Name, " g2")
	path := "driver_card.tachograph." + part
	if g2 {
		path = "driver_card.tachograph_g2." + part
	}
	return ef.Sub(f, path).ProtoReflect()
}

// dropBuffer drops the bytes of the daily records' buffer, which would be
// written instead of them.
func dropBuffer(m protoreflect.Message) {
	if a, ok := m.Interface().(*cardv1.DriverActivityData); ok {
		a.ClearRawData()
	}
}

func copyOf(v protoreflect.Value) protoreflect.Value {
	return protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect())
}

// bared is a copy without the bytes kept from reading.
func bared(v protoreflect.Value) protoreflect.Value {
	v = copyOf(v)
	bare(v.Message())
	return v
}

func insert(l protoreflect.List, at int, v protoreflect.Value) {
	l.Append(v)
	for i := l.Len() - 1; i > at; i-- {
		l.Set(i, l.Get(i-1))
	}
	l.Set(at, v)
}

// change lets the explorer change the list in one way.
func change(c *mc.Ch, l protoreflect.List) string {
	n := l.Len()
	spot := func(n int) int { // first, last, any between
		return c.Free(n)
	}
	if n == 0 {
		return ""
	}
	switch c.Free(6) {
	case 0:
		i := spot(n)
		for j := i; j < n-1; j++ {
			l.Set(j, l.Get(j+1))
		}
		l.Truncate(n - 1)
		return fmt.Sprintf("delete %d", i)
	case 1:
		i, at := spot(n), c.Free(n+1)
		insert(l, at, copyOf(l.Get(i)))
		return fmt.Sprintf("copy %d to %d", i, at)
	case 2:
		i, at := spot(n), c.Free(n+1)
		insert(l, at, bared(l.Get(i)))
		return fmt.Sprintf("fresh copy of %d to %d", i, at)
	case 3:
		if n < 2 {
			return ""
		}
		i := c.Free(n - 1)
		j := i + 1 + c.Free(n-1-i)
		a, b := copyOf(l.Get(i)), copyOf(l.Get(j))
		l.Set(i, b)
		l.Set(j, a)
		return fmt.Sprintf("swap %d and %d", i, j)
	case 4:
		l.Truncate(0)
		return "delete all"
	default:
		i := spot(n)
		l.Set(i, bared(l.Get(i)))
		return fmt.Sprintf("%d without its bytes", i)
	}
}

// card is a driver card with this content of one file.
func file(sl *ref.Place, content []byte, full bool) []byte {
	var rs []ref.Record
	if full {
		for i := range ref.Slots {
			o := &ref.Slots[i]
			v, sig := content, -1
			if o.Name != sl.Name {
				v = o.Content(1)
			}
			if o.Signed {
				sig = 2
			}
			rs = append(rs, o.Records(v, sig)...)
		}
		return ref.Join(rs)
	}
	return ref.Join(append([]ref.Record{{FID: 2, Value: ref.Icc}}, sl.Records(content, -1)...))
}

// sameOthers says which record other than those of the changed file differs.
func sameOthers(sl *ref.Place, before, after []byte) string {
	own := map[[2]int]bool{}
	for _, r := range sl.Records([]byte{0}, -1) {
		own[[2]int{int(r.FID), int(r.Appendix)}] = true
	}
	pick := func(b []byte) (out []string) {
		rs, ok := ref.Split(b)
		if !ok {
			return []string{"no records"}
		}
		for _, r := range rs {
			if !own[[2]int{int(r.FID), int(r.Appendix)}] {
				out = append(out, fmt.Sprintf("%04X%02X %x", r.FID, r.Appendix, r.Value))
			}
		}
		return
	}
	a, b := pick(before), pick(after)
	if slices.Equal(a, b) {
		return ""
	}
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return a[i]
		}
	}
	return b[len(a)]
}

// ef31 is the elementary file of a place, if it consists of records.
func ef31(sl *ref.Place) *ref.EF {
	for i := range ref.DriverEFs {
		if ref.DriverEFs[i].Name == sl.Name {
			return &ref.DriverEFs[i]
		}
	}
	return nil
}

// unread are the daily records that could not be read, apart from the header.
func unread(f *tachographv1.File) (out []string) {
	for _, a := range []*cardv1.DriverActivityData{
		f.GetDriverCard().GetTachograph().GetDriverActivityData(), f.GetDriverCard().GetTachographG2().GetDriverActivityData()} {
		for _, r := range a.GetDailyRecords() {
			if b := r.GetRawData(); !r.GetValid() && len(b) >= 4 {
				out = append(out, mc.Hex(b[4:]))
			}
		}
	}
	return
}

// judge: what is written is read as it stands, or nothing is written.
func judge(c *mc.Ch, sl *ref.Place, orig []byte, f *tachographv1.File, what string) {
	key := sl.Name
	skip := append([]string{"raw_data", "signature"}, layout...)
	want, wantUnread := mc.Flatten(f, skip...), unread(f) // writing must not change what is written
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		c.Outcome("refused " + sl.Name + ": " + ef.Class(err))
		return
	}
	g, err := tachograph.UnmarshalFile(out)
	if err != nil {
		c.Fail("what is written cannot be read: "+key, "edits", what, "error", err.Error(), "output", out)
	}
	if p, d := mc.Diff(want, mc.Flatten(g, skip...)); p != "" {
		c.Fail("read back differently: "+key, "edits", what, "difference", d, "output", out)
	}
	if !slices.Equal(wantUnread, unread(g)) {
		c.Fail("records that cannot be read are read back differently: "+key, "edits", what, "want", wantUnread, "got", unread(g), "output", out)
	}
	if x := sameOthers(sl, orig, out); x != "" {
		c.Fail("another file changes: "+key, "edits", what, "record", x, "output", out)
	}
	c.Outcome("same " + sl.Name)
}

func run(k *mc.Check) {
	for i := range ref.Slots {
		sl := &ref.Slots[i]
		isActivity := strings.HasPrefix(sl.Name, "driver_activity_data")
		if e := ef31(sl); !isActivity && (e == nil || e.Record == 0) {
			continue // no lists
		}
		type base struct {
			content, data []byte
			f             *tachographv1.File
		}
		var bs []base
		add := func(content []byte, full bool) {
			data := file(sl, content, full)
			f, err := tachograph.UnmarshalFile(data)
			if err != nil {
				return
			}
			if ls, _ := lists(own(f, sl), ""); len(ls) == 0 {
				return
			}
			bs = append(bs, base{content, data, f})
		}
		if isActivity {
			add(ref.ActivityFile(54, 0, 3, 2, 4), false)
			add(ref.ActivityFile(60, 0, 3), false)
			add(ref.ActivityFile(80, 30, 3, 2, 4, 1), false) // runs past the end of the buffer
			add(ref.ActivityFile(64, 0, 0, 5), false)
			short := ref.ActivityFile(64, 0, 0, 2) // with a record too short to be read behind
			copy(short[4+28:], []byte{0, 16, 0, 9, 1, 2, 3, 4, 5})
			short[3] = 28
			add(short, false)
			filled := ref.ActivityFile(64, 0, 4, 5) // with an entry that is not used
			copy(filled[4+14:], []byte{0xFF, 0xFF})
			add(filled, false)
		} else {
			e := ef31(sl)
			for n := 1; n <= mc.Pick2(k, 3, 4); n++ {
				add(e.Default(n), false)
			}
			// The newest record last; slots that are blank, full or alike; a piece of
			// a record at the end.
			three := e.Default(3)
			if e.Header > 0 {
				three[e.Header-1] = 2
			}
			add(three, false)
			for _, fill := range []byte{0, 0xFF} {
				for at := range 3 {
					b := bytes.Clone(three)
					copy(b[e.Header+at*e.Record:], bytes.Repeat([]byte{fill}, e.Record))
					add(b, false)
				}
			}
			b := bytes.Clone(three)
			copy(b[e.Header:], b[e.Header+e.Record:e.Header+2*e.Record])
			add(b, false)
			add(append(bytes.Clone(three), 1, 2, 3), false)
		}
		if len(bs) == 0 {
			panic("no files with " + sl.Name)
		}
		add(sl.Content(1), true)
		mine := func(f *tachographv1.File) ([]protoreflect.List, []string) {
			return lists(own(f, sl), sl.Name)
		}
		depth := mc.Pick2(k, 2, 3)
		k.Explore(sl.Name+": any sequence of list edits", 0, func(c *mc.Ch) {
			b := bs[c.Free(len(bs))]
			d := depth
			if len(b.data) > 2000 {
				d = 1
			}
			f := proto.CloneOf(b.f)
			dropBuffer(own(f, sl))
			if c.Free(2) == 1 {
				bare(own(f, sl))
			}
			what := []string{}
			for n := 1 + c.Free(d); n > 0; n-- {
				ls, names := mine(f)
				if len(ls) == 0 {
					break // all gone
				}
				i := c.Free(len(ls))
				w := change(c, ls[i])
				if w == "" {
					c.Outcome("nothing to change")
					return
				}
				what = append(what, names[i]+": "+w)
			}
			c.Log("%s", strings.Join(what, "; "))
			c.Visit(mc.HashS(mc.Hex(b.data) + fmt.Sprint(what)))
			judge(c, sl, b.data, f, strings.Join(what, "; "))
		})
		// Lists of any length, up to more than a file holds.
		sizes := growth(k, sl)
		k.Explore(sl.Name+": lists grown to any length", 0, func(c *mc.Ch) {
			b := bs[0]
			f := proto.CloneOf(b.f)
			dropBuffer(own(f, sl))
			ls, names := mine(f)
			i := c.Free(len(ls))
			l := ls[i]
			n := sizes[c.Free(len(sizes))]
			fresh := c.Free(2) == 1
			if l.Len() == 0 {
				c.Outcome("nothing to copy")
				return
			}
			from := l.Len()
			for j := from; j < n; j++ {
				if fresh {
					l.Append(bared(l.Get(j % from)))
				} else {
					l.Append(copyOf(l.Get(j % from)))
				}
			}
			c.Log("%s: %d records", names[i], n)
			c.Visit(mc.HashS(fmt.Sprint(names[i], n, fresh)))
			judge(c, sl, b.data, f, fmt.Sprintf("%s: %d records", names[i], n))
		})
	}
	rawCards(k)
}

// growth is the numbers of records that lists are grown to.
func growth(k *mc.Check, sl *ref.Place) (out []int) {
	seen := map[int]bool{}
	put := func(n int) {
		for d := -1; d <= 1; d++ {
			if n+d > 0 && !seen[n+d] {
				seen[n+d] = true
				out = append(out, n+d)
			}
		}
	}
	for _, n := range []int{4, 8, 16, 32, 64, 128, 256, 1440} {
		put(n)
	}
	size := 2
	if e := ef31(sl); e != nil && e.Record > 1 {
		size = e.Record
	}
	for _, lim := range []int{4096, 65535} {
		put(lim / size)
	}
	put(65536/size + 256)
	if k.Thorough() {
		for n := 1; n < 65536/size+64; n += 1 + n/40 {
			put(n)
		}
	}
	return
}

// rawCards: cards that are kept as records.
func rawCards(k *mc.Check) {
	cards := [][]byte{
		ref.Join([]ref.Record{{FID: 2, Value: ref.Icc}}),
		ref.Join([]ref.Record{{FID: 2, Value: ref.Icc}, {FID: 0x0520, Value: make([]byte, 211)}, {FID: 0x0520, Appendix: 1, Value: bytes.Repeat([]byte{7}, 128)}, {FID: 0x050A, Appendix: 2, Value: nil}}),
	}
	values := [][]byte{nil, {}, {1}, bytes.Repeat([]byte{5}, 255), bytes.Repeat([]byte{6}, 256), bytes.Repeat([]byte{7}, 65535), bytes.Repeat([]byte{8}, 65536), bytes.Repeat([]byte{9}, 65537), bytes.Repeat([]byte{10}, 1<<17)}
	var nums []int32
	for i := range 31 {
		for d := -1; d <= 1; d++ {
			nums = append(nums, int32(1<<i+d), -int32(1<<i+d))
		}
	}
	nums = append(nums, -1<<31, 1<<31-1)
	few := []int32{-1, 0, 1, 128, 211, 65535, 65536, 0x000200, 0x052001, 0x050A03, 1<<24 - 1, 1 << 24}
	k.Explore("raw cards: any sequence of edits of the records", 0, func(c *mc.Ch) {
		raw, err := card.UnmarshalRawCardFile(cards[c.Free(len(cards))])
		if err != nil {
			c.Fail("raw card refused", "error", err.Error())
		}
		l := raw.ProtoReflect().Mutable(raw.ProtoReflect().Descriptor().Fields().ByName("records")).List()
		var what []string
		n := 1 + c.Free(mc.Pick2(k, 2, 3))
		nums, values := nums, values
		if n > 1 {
			nums, values = few, values[1:6]
		}
		for ; n > 0 && l.Len() > 0; n-- {
			w := ""
			r := func() *cardv1.RawCardFile_Record {
				i := c.Free(l.Len())
				w = fmt.Sprintf("record %d", i)
				return l.Get(i).Message().Interface().(*cardv1.RawCardFile_Record)
			}
			switch c.Free(4) {
			case 0:
				w = change(c, l)
			case 1:
				r, v := r(), values[c.Free(len(values))]
				r.SetValue(v)
				w += fmt.Sprintf(" value of %d bytes", len(v))
				if c.Free(2) == 1 {
					r.SetLength(int32(len(v)))
					w += " and its length"
				}
			case 2:
				r, v := r(), nums[c.Free(len(nums))]
				r.SetLength(v)
				w += fmt.Sprintf(" length %d", v)
			default:
				r, v := r(), nums[c.Free(len(nums))]
				r.SetTag(v)
				w += fmt.Sprintf(" tag %#x", v)
			}
			what = append(what, w)
		}
		edits := strings.Join(what, "; ")
		c.Visit(mc.HashS(fmt.Sprint(len(cards), edits)))
		c.Log("%s", edits)
		f := &tachographv1.File{}
		f.SetType(tachographv1.File_RAW_CARD)
		f.SetRawCard(raw)
		skip := []string{"file", "content_type", "generation"}
		want := mc.Flatten(raw, skip...)
		out, err := tachograph.MarshalFile(f)
		if err != nil {
			c.Outcome("refused: " + ef.Class(err))
			return
		}
		g, err := card.UnmarshalRawCardFile(out)
		if err != nil {
			c.Fail("raw card: what is written cannot be read", "edits", edits, "error", err.Error())
		}
		if p, d := mc.Diff(want, mc.Flatten(g, skip...)); p != "" {
			c.Fail("raw card: read back differently", "edits", edits, "difference", d)
		}
		c.Outcome("same")
	})
}
