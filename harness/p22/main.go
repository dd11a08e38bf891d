// P22: vehicle unit downloads split into their transfers without loss.
package main

import (
	"bytes"
	"fmt"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func main() { mc.Main("P22", run) }

// kind tells where the transfers of a type go: generation, version (0 is
// either) and the field.
type kind struct {
	gen, ver int
	field    string
}

var kinds = map[byte]kind{
	0x00: {2, 2, "download_interface_version"},
	0x01: {1, 0, "overview"}, 0x02: {1, 0, "activities"}, 0x03: {1, 0, "events_and_faults"}, 0x04: {1, 0, "detailed_speed"}, 0x05: {1, 0, "technical_data"},
	0x21: {2, 1, "overview"}, 0x22: {2, 1, "activities"}, 0x23: {2, 1, "events_and_faults"}, 0x24: {2, 0, "detailed_speed"}, 0x25: {2, 1, "technical_data"},
	0x31: {2, 2, "overview"}, 0x32: {2, 2, "activities"}, 0x33: {2, 2, "events_and_faults"}, 0x35: {2, 2, "technical_data"},
}

var fields = []string{"download_interface_version", "overview", "activities", "events_and_faults", "detailed_speed", "technical_data"}

// stored lists the raw contents a field of the file holds.
func stored(m protoreflect.Message, field string) (out [][]byte, sigs [][]byte) {
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(field))
	if fd == nil || !m.Has(fd) {
		return nil, nil
	}
	one := func(x protoreflect.Message) {
		out = append(out, x.Get(x.Descriptor().Fields().ByName("raw_data")).Bytes())
		if s := x.Descriptor().Fields().ByName("signature"); s != nil && s.Kind() == protoreflect.BytesKind {
			sigs = append(sigs, x.Get(s).Bytes())
		} else {
			sigs = append(sigs, nil)
		}
	}
	if fd.IsList() {
		for i := 0; i < m.Get(fd).List().Len(); i++ {
			one(m.Get(fd).List().Get(i).Message())
		}
	} else {
		one(m.Get(fd).Message())
	}
	return
}

func show(ts []ref.Transfer) string {
	var s []string
	for _, t := range ts {
		s = append(s, fmt.Sprintf("%02x/%d", t.TREP, len(t.B)))
	}
	return strings.Join(s, " ")
}

// judge parses a download; genuine says that every transfer's content is one a
// vehicle unit would send.
func judge(c *mc.Ch, data []byte, genuine bool) {
	c.Visit(mc.Hash(data))
	ts, ok := ref.SplitVU(data)
	before := append([]byte(nil), data...)
	f, err := tachograph.UnmarshalFile(data)
	if !bytes.Equal(before, data) {
		c.Fail("input changed", "data", before)
	}
	gen, v1, v2, over := 0, false, false, 0
	uniform := true
	for i, t := range ts {
		k := kinds[t.TREP]
		if i == 0 {
			gen = k.gen
		}
		uniform = uniform && k.gen == gen
		v1 = v1 || k.gen == 2 && k.ver == 1
		v2 = v2 || k.gen == 2 && k.ver == 2
		if k.field == "overview" || k.field == "download_interface_version" {
			over++
		}
	}
	uniform = uniform && !(v1 && v2)
	if err != nil {
		if ok && uniform && genuine && over <= 1 || ok && uniform && genuine && over == 2 && ts[0].TREP == 0 && ts[1].TREP == 0x31 {
			c.Fail("genuine download refused: "+ef.Class(err), "error", err.Error(), "transfers", show(ts), "data", data)
		}
		c.Outcome("refused")
		return
	}
	if !ok {
		c.Fail("accepted though it does not consist of whole transfers", "file", f.String()[:min(300, len(f.String()))], "data", data)
	}
	if !uniform {
		c.Fail("transfers of different generations or versions accepted", "transfers", show(ts), "data", data)
	}
	if f.GetType() != tachographv1.File_VEHICLE_UNIT || !f.HasVehicleUnit() {
		c.Fail("not read as a vehicle unit", "type", f.GetType().String(), "data", data)
	}
	vu := f.GetVehicleUnit()
	var m proto.Message
	name := ""
	switch {
	case gen == 1:
		name, m = "gen1", vu.GetGen1()
	case v2:
		name, m = "gen2_v2", vu.GetGen2V2()
	case v1 || !vu.HasGen2V2():
		name, m = "gen2_v1", vu.GetGen2V1()
	default:
		name, m = "gen2_v2", vu.GetGen2V2()
	}
	if vu.HasGen1() != (name == "gen1") || vu.HasGen2V1() != (name == "gen2_v1") || vu.HasGen2V2() != (name == "gen2_v2") {
		c.Fail("wrong part of the file filled", "want", name, "transfers", show(ts), "data", data)
	}
	if vu.GetGeneration().String() != fmt.Sprintf("GENERATION_%d", gen) {
		c.Fail("wrong generation", "got", vu.GetGeneration().String(), "transfers", show(ts))
	}
	ver := vu.GetVersion().String()
	if name == "gen2_v1" && ver != "VERSION_1" || name == "gen2_v2" && ver != "VERSION_2" || name == "gen1" && ver == "VERSION_2" {
		c.Fail("wrong version", "got", ver, "transfers", show(ts))
	}
	for _, field := range fields {
		var want []ref.Transfer
		for _, t := range ts {
			if kinds[t.TREP].field == field {
				want = append(want, t)
			}
		}
		got, sigs := stored(m.ProtoReflect(), field)
		if (field == "overview" || field == "download_interface_version") && len(want) > 1 && len(got) == 1 {
			// Sent more than once: any of them may be kept.
			for _, w := range want {
				if bytes.Equal(w.B, got[0]) {
					want = []ref.Transfer{w}
					break
				}
			}
		}
		if len(got) != len(want) {
			c.Fail("wrong number of "+field, "got", len(got), "want", len(want), "transfers", show(ts), "data", data)
		}
		for i, w := range want {
			if !bytes.Equal(got[i], w.B) {
				c.Fail(field+" holds other content", "index", i, "got", got[i], "want", w.B, "transfers", show(ts))
			}
			if gen == 1 && !bytes.Equal(sigs[i], w.B[len(w.B)-128:]) {
				c.Fail(field+" holds another signature", "index", i, "got", sigs[i], "want", w.B[len(w.B)-128:])
			}
		}
	}
	c.Outcome(name + show(ts))
}

// one makes the transfer of a type in one of several sizes.
func one(trep byte, size int) ref.Transfer {
	t := ref.Transfer{TREP: trep}
	n := []int{1, 0, 2, 3}[size%4]
	switch trep {
	case 0:
		t.B = []byte{2, 2}
	case 1:
		t.B = ref.Overview1(n, (n+1)%3)
	case 2:
		t.B = ref.Activities1(n, 2*n, (n+1)%3, n)
	case 3:
		t.B = ref.Faults1(n, (n+1)%3, n, (n+2)%3)
	case 4:
		t.B = ref.Speed1(n)
	case 5:
		t.B = ref.Technical1(n)
	default:
		t.B = ref.Gen2(trep, func(i int) int {
			switch last := i == len(ref.Transfer2[trep])-1; {
			case last:
				return 1
			case n == 1:
				return 1
			}
			return n * (1 + i%2)
		})
	}
	return t
}

var all = []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x21, 0x22, 0x23, 0x24, 0x25, 0x00, 0x31, 0x32, 0x33, 0x35}

// tail is a following transfer that fits the file.
func tail(trep byte) ref.Transfer {
	switch k := kinds[trep]; {
	case k.gen == 1:
		return one(4, 0)
	case k.ver == 2:
		return one(0x33, 1)
	}
	return one(0x24, 1)
}

func run(k *mc.Check) {
	depth := mc.Pick2(k, 3, 4)
	k.Explore("all sequences of transfers", 0, func(c *mc.Ch) {
		n := 1 + c.Free(depth)
		var ts []ref.Transfer
		sizes := 2
		if n == depth && k.Thorough() {
			sizes = 1
		}
		for i := 0; i < n; i++ {
			ts = append(ts, one(all[c.Free(len(all))], c.Free(sizes)))
		}
		data := ref.JoinVU(ts)
		if c.WantLog() {
			c.Log("transfers %s", show(ts))
		}
		judge(c, data, true)
	})
	// Transfers of one generation in longer runs.
	groups := [][]byte{{1, 2, 3, 4, 5}, {0x21, 0x22, 0x23, 0x24, 0x25}, {0x00, 0x31, 0x32, 0x33, 0x24, 0x35}}
	k.Explore("longer downloads of one generation", 0, func(c *mc.Ch) {
		g := groups[c.Free(len(groups))]
		n := mc.Pick2(k, 4, 6)
		var ts []ref.Transfer
		for i := 0; i < n; i++ {
			ts = append(ts, one(g[c.Free(len(g))], i))
		}
		judge(c, ref.JoinVU(ts), true)
	})
	k.Explore("every cut of a download", 0, func(c *mc.Ch) {
		trep := all[c.Free(len(all))]
		size := c.Free(3)
		ts := []ref.Transfer{one(trep, size)}
		switch c.Free(3) {
		case 1:
			ts = append(ts, tail(trep))
		case 2:
			ts = append([]ref.Transfer{tail(trep)}, ts...)
		}
		data := ref.JoinVU(ts)
		judge(c, data[:c.Free(len(data))], true)
	})
	k.Explore("bytes after the last transfer", 0, func(c *mc.Ch) {
		trep := all[c.Free(len(all))]
		data := ref.JoinVU([]ref.Transfer{one(trep, c.Free(3))})
		a := c.Free(257)
		if a > 0 {
			data = append(data, byte(a-1))
			second := 257
			if !k.Thorough() && a-1 != 0x76 {
				second = 3
			}
			if b := c.Free(second); b > 0 {
				data = append(data, byte(b-1))
				if x := c.Free(4); x > 0 {
					data = append(data, []byte{0, 0xFF, 0x76}[x-1])
				}
			}
		}
		judge(c, data, true)
	})
	k.Explore("every type byte", 0, func(c *mc.Ch) {
		trep := all[c.Free(len(all))]
		ts := []ref.Transfer{one(trep, 0), tail(trep)}
		i := c.Free(2)
		data := ref.JoinVU(ts)
		o := 0
		if i == 1 {
			o = 2 + len(ts[0].B)
		}
		v := c.Free(65536)
		data[o], data[o+1] = byte(v>>8), byte(v)
		if data[0] != 0x76 {
			return // another kind of file (P03)
		}
		judge(c, data, false)
	})
	k.Explore("any value in any one byte", 0, func(c *mc.Ch) {
		trep := all[c.Free(len(all))]
		ts := []ref.Transfer{one(trep, 0), tail(trep)}
		if c.Free(2) == 1 {
			ts[0], ts[1] = ts[1], ts[0]
		}
		data := ref.JoinVU(ts)
		i := 1 + c.Free(len(data)-1)
		if k.Thorough() {
			data[i] = byte(c.Free(256))
		} else {
			data[i] = append([]byte{data[i] + 1, data[i] - 1}, ef.Core[:10]...)[c.Free(12)]
		}
		judge(c, data, false)
	})
	k.Explore("generation 1 counts", 0, func(c *mc.Ch) {
		var t ref.Transfer
		wide := mc.Pick2(k, 300, 1200)
		switch c.Free(8) {
		case 0:
			t = ref.Transfer{TREP: 4, B: ref.Speed1(c.Free(wide + 1))}
		case 1:
			t = ref.Transfer{TREP: 5, B: ref.Technical1(c.Free(256))}
		case 2:
			n := [4]int{1, 1, 1, 1}
			n[c.Free(4)] = c.Free(256)
			t = ref.Transfer{TREP: 3, B: ref.Faults1(n[0], n[1], n[2], n[3])}
		case 3:
			t = ref.Transfer{TREP: 2, B: ref.Activities1(c.Free(wide+1), 1, 1, 1)}
		case 4:
			t = ref.Transfer{TREP: 2, B: ref.Activities1(1, c.Free(wide+1), 1, 1)}
		case 5:
			t = ref.Transfer{TREP: 2, B: ref.Activities1(1, 1, c.Free(256), c.Free(2)*wide)}
		case 6:
			t = ref.Transfer{TREP: 1, B: ref.Overview1(c.Free(256), 1)}
		case 7:
			t = ref.Transfer{TREP: 1, B: ref.Overview1(1, c.Free(256))}
		}
		judge(c, ref.JoinVU([]ref.Transfer{t, one(4, 0)}), true)
	})
	k.Explore("sizes and counts of every record array", 0, func(c *mc.Ch) {
		trep := all[5+c.Free(len(all)-5)]
		if trep == 0 {
			return
		}
		at := c.Free(len(ref.Transfer2[trep]))
		size := []int{0, 1, 2, 5, 64, 127, 255, 256, 300, 1000, 65535}[c.Free(11)]
		cnt := []int{0, 1, 2, 3, 100, 127, 128, 255, 256, 257, 300, 65535}[c.Free(12)]
		if size*cnt > 1<<18 {
			return
		}
		var b []byte
		for i, a := range ref.Transfer2[trep] {
			if i == at {
				b = append(b, ref.Array(byte(a[0]), size, cnt)...)
			} else {
				b = append(b, ref.Array(byte(a[0]), a[1], 1)...)
			}
		}
		ts := []ref.Transfer{{TREP: trep, B: b}, tail(trep)}
		judge(c, ref.JoinVU(ts), true)
	})
	k.Explore("every header of a record array", 0, func(c *mc.Ch) {
		trep := all[5+c.Free(len(all)-5)]
		if trep == 0 {
			return
		}
		ts := []ref.Transfer{one(trep, 1), tail(trep)}
		data := ref.JoinVU(ts)
		// Start of the header, after the tag and the arrays before it.
		o := 2
		for i := c.Free(len(ref.Transfer2[trep])); i > 0; i-- {
			o += 5 + ref.U(data[o+1:o+3])*ref.U(data[o+3:o+5])
		}
		o += 1 + 2*c.Free(2)
		v := 0
		if k.Thorough() {
			v = c.Free(65536)
		} else if v = c.Free(1024); v >= 512 {
			v = (v-512)<<8&0xFFFF | v>>8&1*255
		}
		data[o], data[o+1] = byte(v>>8), byte(v)
		judge(c, data, false)
	})
	k.Explore("arrays whose length only fits in 32 bits", 0, func(c *mc.Ch) {
		trep := all[5+c.Free(len(all)-5)]
		if trep == 0 {
			return
		}
		data := ref.JoinVU([]ref.Transfer{one(trep, 1), tail(trep)})
		o := 2
		for i := c.Free(len(ref.Transfer2[trep])); i > 0; i-- {
			o += 5 + ref.U(data[o+1:o+3])*ref.U(data[o+3:o+5])
		}
		old := ref.U(data[o+1:o+3]) * ref.U(data[o+3:o+5])
		size, cnt := 1<<c.Free(16), 0
		if c.Bool() {
			cnt = 1 << c.Free(16)
		} else {
			// A product that is the true length but for a carry out of 8, 16 or
			// 24 bits: the first that two 16-bit numbers make, from each of
			// several on.
			bits := 8 * (1 + c.Free(3))
			m := []int{1, 2, 3, 64, 127, 128, 200}[c.Free(7)]
			for cnt == 0 && m < 256 {
				p := old + m<<bits
				for f := max(1, (p+65534)/65535); f*f <= p && cnt == 0; f++ {
					if p%f == 0 {
						size, cnt = f, p/f
					}
				}
				m++
			}
			if cnt == 0 {
				return
			}
			if c.Bool() {
				size, cnt = cnt, size
			}
		}
		data[o+1], data[o+2], data[o+3], data[o+4] = byte(size>>8), byte(size), byte(cnt>>8), byte(cnt)
		judge(c, data, false)
	})
	k.Explore("record counts of every array at once", 0, func(c *mc.Ch) {
		trep := all[5+c.Free(len(all)-5)]
		if trep == 0 {
			return
		}
		n := make([]int, len(ref.Transfer2[trep]))
		for i := range n {
			n[i] = c.Free(2)
		}
		t := ref.Transfer{TREP: trep, B: ref.Gen2(trep, func(i int) int { return n[i] })}
		judge(c, ref.JoinVU([]ref.Transfer{tail(trep), t, t}), true)
	})
	k.Explore("card downloads inside", 0, func(c *mc.Ch) {
		card := ref.Join([]ref.Record{{FID: 2, Value: ref.Icc}})
		n := c.Free(len(card) + 1)
		ts := []ref.Transfer{{TREP: 6, B: card[:n]}}
		first := all[c.Free(len(all))]
		switch c.Free(3) {
		case 0:
			ts = append(ts, one(first, 0))
		case 1:
			ts = append([]ref.Transfer{one(first, 0)}, ts...)
		}
		judge(c, ref.JoinVU(ts), true)
	})
}
