// P03: the kind of a file and the type of a card are recognised from content.
package main

import (
	"bytes"
	"fmt"
	"slices"
	"sort"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

var values = [][]byte{{1}, nil, {0, 0}, make([]byte, 300), {0xFF, 0xFF, 0xFF}}

func main() { mc.Main("P03", run) }

var fids []uint16

// minimal gives a value each elementary file of a driver card accepts.
func classify(c *mc.Ch, rs []ref.Record) {
	var files []string
	for _, r := range rs {
		if r.Appendix&1 == 0 {
			f := ref.EFs[r.FID]
			if f == "" {
				f = "?"
			}
			files = append(files, f)
		}
	}
	want := ref.CardType(files)
	c.Outcome(want)
	data := ref.Join(rs)
	c.Visit(mc.Hash(data))
	raw, err := card.UnmarshalRawCardFile(data)
	if err != nil {
		c.Fail("raw card refused", "error", err.Error(), "input", data)
	}
	before := mc.Flatten(raw)
	if got := card.InferFileType(raw).String(); got != want {
		c.Fail("card type", "want", want, "got", got, "input", data, "files", fmt.Sprint(files))
	}
	if p, d := mc.Diff(before, mc.Flatten(raw)); p != "" {
		c.Fail("inference changed the raw card", "diff", d)
	}
	if len(rs) == 0 || rs[0].FID != 0x0002 {
		return
	}
	f, err := tachograph.UnmarshalFile(bytes.Clone(data))
	if want == "DRIVER_CARD" {
		// Structure is checked elsewhere; here only that it is not called something else.
		if err == nil && f.GetType() != tachographv1.File_DRIVER_CARD {
			c.Fail("driver card reported as "+f.GetType().String(), "input", data)
		}
		return
	}
	if err != nil {
		c.Fail("card that is not a driver card refused", "type", want, "error", err.Error(), "input", data)
	}
	if f.GetType() != tachographv1.File_RAW_CARD || f.HasDriverCard() || f.HasVehicleUnit() {
		c.Fail("file type", "want", "RAW_CARD", "got", f.GetType().String(), "input", data)
	}
	if p, d := mc.Diff(mc.Flat(ref.RawCard("", rs)), mc.Flatten(f.GetRawCard())); p != "" && !bytes.Contains(data, []byte{0xC1, 0x00}) {
		c.Fail("raw card content: "+p, "diff", d, "input", data)
	}
	out, err := tachograph.MarshalFile(f)
	if err != nil || !bytes.Equal(out, data) {
		c.Fail("raw card does not marshal back", "error", fmt.Sprint(err), "input", data, "output", out)
	}
}

func run(k *mc.Check) {
	for f := range ref.EFs {
		fids = append(fids, f)
	}
	sort.Slice(fids, func(i, j int) bool { return fids[i] < fids[j] })
	fids = append(fids, 0x0000, 0x0003, 0x050F, 0xFFFF)
	n := len(fids)
	rec := func(i int, app byte) ref.Record {
		return ref.Record{FID: fids[i], Appendix: app, Value: []byte{byte(i)}}
	}
	icc := ref.Record{FID: 2, Value: make([]byte, 25)}

	k.Explore("first two bytes", 0, func(c *mc.Ch) {
		p := c.Free(65536)
		b0, b1 := byte(p>>8), byte(p)
		for _, tail := range [][]byte{nil, {0}, {0, 0, 0}, {0, 0, 1, 9}, {0, 0, 1}, make([]byte, 30)} {
			d := append([]byte{b0, b1}, tail...)
			c.Visit(mc.Hash(d))
			f, err := tachograph.UnmarshalFile(d)
			switch {
			case p == 0x0002:
				rs, ok := ref.Split(d)
				if ok != (err == nil) && len(rs) > 1 {
					c.Fail("card file", "input", d, "error", fmt.Sprint(err))
				}
				if !ok && err == nil {
					c.Fail("incomplete card file accepted", "input", d)
				}
			case b0 == 0x76:
				if err == nil && (f.GetType() != tachographv1.File_VEHICLE_UNIT || !f.HasVehicleUnit()) {
					c.Fail("vehicle unit file reported as "+f.GetType().String(), "input", d)
				}
			default:
				c.Outcome("unknown")
				if err == nil {
					c.Fail("unknown file accepted", "input", d, "type", f.GetType().String())
				}
			}
		}
	})
	k.Explore("empty and one-byte files", 0, func(c *mc.Ch) {
		if f, err := tachograph.UnmarshalFile(nil); err == nil {
			c.Fail("empty file accepted", "type", f.GetType().String())
		}
		for b := 0; b < 256; b++ {
			if f, err := tachograph.UnmarshalFile([]byte{byte(b)}); err == nil {
				c.Fail("one-byte file accepted", "type", f.GetType().String())
			}
		}
	})

	k.Explore("file sets of up to three files, data or signature", mc.Pick2(k, 1, 3), func(c *mc.Ch) {
		m := c.Free(4)
		var rs []ref.Record
		for i := 0; i < m; i++ {
			r := rec(c.Free(n), byte(c.Pick(4)))
			r.Value = values[c.Pick(len(values))]
			rs = append(rs, r)
		}
		classify(c, rs)
	})

	k.Explore("EF_ICC and up to two files", mc.Pick2(k, 1, 2), func(c *mc.Ch) {
		m := c.Free(3)
		rs := []ref.Record{icc}
		for i := 0; i < m; i++ {
			r := rec(c.Free(n), byte(c.Pick(4)))
			r.Value = values[c.Pick(len(values))]
			rs = append(rs, r)
		}
		classify(c, rs)
	})

	k.Explore("complete file sets with changes", mc.Pick2(k, 2, 3), func(c *mc.Ch) {
		t := ref.CardTypes[c.Free(len(ref.CardTypes))]
		var rs []ref.Record
		for i, f := range fids {
			in := ref.CardFiles[t][ref.EFs[f]]
			switch c.Pick(8) {
			case 4: // present whether or not it belongs, without content
				rs = append(rs, ref.Record{FID: f})
				continue
			case 5: // present in the other application, without content
				rs = append(rs, ref.Record{FID: f, Appendix: 2})
				continue
			case 6: // in both applications
				rs = append(rs, rec(i, 0), rec(i, 2))
				continue
			case 7: // with undefined appendix bits and a longer value
				rs = append(rs, ref.Record{FID: f, Appendix: 0xFC, Value: values[3]})
				continue
			case 1:
				in = !in
			case 2: // a signature instead
				rs = append(rs, rec(i, 1))
				continue
			case 3: // in the other application
				rs = append(rs, rec(i, 2))
				continue
			}
			if in {
				rs = append(rs, rec(i, 0))
			}
		}
		switch c.Pick(3) {
		case 1:
			slices.Reverse(rs)
		case 2:
			rs = append([]ref.Record{icc}, rs...)
		}
		classify(c, rs)
	})
	if k.Thorough() {
		k.Explore("file sets of four files", 0, func(c *mc.Ch) {
			var rs []ref.Record
			for i := 0; i < 4; i++ {
				rs = append(rs, rec(c.Free(n), 0))
			}
			classify(c, rs)
		})
	}
}
