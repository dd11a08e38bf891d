// P02: card files are split into TLV records and joined again without loss.
package main

import (
	"bytes"
	"fmt"

	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

func main() { mc.Main("P02", run) }

func pattern(n int, salt int) []byte {
	b := make([]byte, n)
	x := uint32(salt)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// same compares the implementation's view with the records.
func same(c *mc.Ch, data []byte, rs []ref.Record, raw *cardv1.RawCardFile) {
	got := raw.GetRecords()
	if len(got) != len(rs) {
		c.Fail("number of records", "want", len(rs), "got", len(got), "input", data)
	}
	for i, r := range rs {
		g := got[i]
		bad := func(what string, want, have any) {
			c.Fail("record "+what, "record", i, "want", fmt.Sprint(want), "got", fmt.Sprint(have), "input", data)
		}
		if want := int32(r.FID)<<8 | int32(r.Appendix); g.GetTag() != want {
			bad("tag", want, g.GetTag())
		}
		if g.GetLength() != int32(len(r.Value)) {
			bad("length", len(r.Value), g.GetLength())
		}
		if !bytes.Equal(g.GetValue(), r.Value) {
			bad("value", mc.Hex(r.Value), mc.Hex(g.GetValue()))
		}
		ct := cardv1.ContentType_DATA
		if r.Appendix&1 != 0 {
			ct = cardv1.ContentType_SIGNATURE
		}
		if g.GetContentType() != ct {
			bad("content type", ct, g.GetContentType())
		}
		gen := ddv1.Generation_GENERATION_1
		if r.Appendix&2 != 0 {
			gen = ddv1.Generation_GENERATION_2
		}
		if g.GetGeneration() != gen {
			bad("generation", gen, g.GetGeneration())
		}
		want := ref.EFs[r.FID]
		if want == "" {
			want = "ELEMENTARY_FILE_UNSPECIFIED"
		}
		if have := g.GetFile().String(); have != want && !(r.FID == 0xC100 && have == "EF_CARD_MA_CERTIFICATE") {
			bad("file", want, have)
		}
	}
}

// whole checks one complete byte string.
func whole(c *mc.Ch, data []byte) {
	rs, ok := ref.Split(data)
	in := bytes.Clone(data)
	raw, err := card.UnmarshalRawCardFile(in)
	if !bytes.Equal(in, data) {
		c.Fail("input modified", "input", data)
	}
	if !ok {
		c.Outcome("incomplete")
		if err == nil {
			c.Fail("a file that ends inside a record was accepted", "input", data)
		}
		return
	}
	if err != nil {
		c.Fail("a file of complete records was refused", "error", err.Error(), "input", data)
	}
	c.Outcome(fmt.Sprint(len(rs)))
	same(c, data, rs, raw)
	out, err := card.MarshalRawCardFile(raw)
	if err != nil {
		c.Fail("marshal failed", "error", err.Error(), "input", data)
	}
	if !bytes.Equal(out, data) {
		c.Fail("marshal differs from the input", "input", data, "output", out)
	}
	same(c, data, rs, raw)
}

func run(k *mc.Check) {
	k.Assume("proto getters return the stored values")
	fids := []uint16{0x0002, 0x0504, 0xC100, 0xFFFF, 0x0000, 0x7621}

	k.Explore("every byte string up to 2 bytes, and short ones over {0,1,2,5}", 0, func(c *mc.Ch) {
		full := c.Free(2) == 0
		var b []byte
		if full {
			n := c.Free(3)
			for i := 0; i < n; i++ {
				b = append(b, byte(c.Free(256)))
				c.Visit(mc.Hash(b))
			}
		} else {
			n := c.Free(mc.Pick2(k, 8, 10))
			for i := 0; i < n; i++ {
				b = append(b, []byte{0, 1, 2, 5}[c.Free(4)])
				c.Visit(mc.Hash(b))
			}
		}
		whole(c, b)
	})

	k.Explore("every tag", 0, func(c *mc.Ch) {
		fid := uint16(c.Free(65536))
		apps := []byte{0, 1, 2, 3, 4, 0x80, 0xFE, 0xFF}
		if _, known := ref.EFs[fid]; known || k.Thorough() && fid%16 == 0 {
			apps = apps[:0]
			for a := 0; a < 256; a++ {
				apps = append(apps, byte(a))
			}
		}
		for _, a := range apps {
			d := ref.Record{FID: fid, Appendix: a, Value: []byte{a, byte(fid)}}.Bytes()
			c.Visit(mc.Hash(d))
			whole(c, d)
		}
	})

	k.Explore("every record length", 0, func(c *mc.Ch) {
		n := c.Free(65536)
		c.Visit(mc.HashS(fmt.Sprint("len", n)))
		d := ref.Join([]ref.Record{{FID: 0x0504, Appendix: 2, Value: pattern(n, n)}, {FID: 0x0520, Appendix: 3, Value: []byte{1, 2, 3}}})
		whole(c, d)
		cuts := []int{1, 3, 7, 9, n + 9}
		for _, cut := range cuts {
			if cut < len(d) {
				whole(c, d[:len(d)-cut])
			}
		}
	})

	k.Explore("records across buffer boundaries", 0, func(c *mc.Ch) {
		base := []int{4096, 8192, 16384, 32768, 65535 + 5}[c.Free(5)]
		// The second record begins at base-12 .. base+7.
		l1 := base - 12 + c.Free(20) - 5
		if l1 > 65535 {
			l1 = 65535
		}
		l2 := []int{0, 1, 2, 5, 6, 7, 8, 4090, 4091, 4096, 65535}[c.Free(11)]
		l3 := []int{0, 3, 4096, 60000}[c.Free(4)]
		rs := []ref.Record{{FID: 0x0504, Value: pattern(l1, 1)}, {FID: 0x0502, Appendix: 1, Value: pattern(l2, 2)}, {FID: 0x0503, Appendix: 2, Value: pattern(l3, 3)}}
		d := ref.Join(rs)
		c.Visit(mc.HashS(fmt.Sprint("b", l1, l2, l3)))
		whole(c, d)
		whole(c, d[:len(d)-1])
	})

	k.Explore("record sequences, every cut", mc.Pick2(k, 2, 3), func(c *mc.Ch) {
		n := c.Free(6)
		var rs []ref.Record
		for i := 0; i < n; i++ {
			r := ref.Record{FID: fids[c.Pick(len(fids))], Appendix: byte(c.Pick(5)), Value: pattern([]int{2, 0, 1, 5, 17, 300}[c.Pick(6)], i)}
			rs = append(rs, r)
			c.Visit(mc.Hash(ref.Join(rs)))
			c.Log("record %04x/%02x len %d", r.FID, r.Appendix, len(r.Value))
		}
		d := ref.Join(rs)
		for cut := 0; cut <= len(d) && cut <= 64; cut++ {
			whole(c, d[:len(d)-cut])
		}
		// Extra bytes after the last record.
		whole(c, append(bytes.Clone(d), 0))
		whole(c, append(bytes.Clone(d), 0, 2, 0, 0))
	})

	k.Explore("every value of every byte", 1, func(c *mc.Ch) {
		d := ref.Join([]ref.Record{{FID: 0x0002, Value: pattern(6, 9)}, {FID: 0x0520, Appendix: 1, Value: pattern(4, 8)}, {FID: 0x050E, Appendix: 2, Value: pattern(3, 7)}})
		for i := range d {
			d[i] += byte(c.Pick(256))
		}
		c.Visit(mc.Hash(d))
		whole(c, d)
	})
}
