// P13: dates, times, numbers and coordinates convert without loss.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func main() { mc.Main("P13", run) }

// edges of a 4-byte number.
var edges = []byte{0x00, 0xFF, 0x01, 0x7F, 0x80, 0xFE, 0x55, 0x10}

// content makes a file with bytes at an offset.
func content(e *ref.EF, n, off int, b []byte) []byte {
	if e.Record == 0 {
		n = 0
	}
	t := e.Default(n)
	copy(t[off:], b)
	return t
}

// check parses, compares all fields with the reference decoder, and writes back.
func check(c *mc.Ch, e *ref.EF, content []byte) {
	ef.Judge(c, e, content)
	data := ef.Card(e, content)
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		c.Outcome("refused")
		return
	}
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		c.Outcome("cannot write")
		return
	}
	if !bytes.Equal(out, data) {
		c.Fail(e.Name+": written back differently", "file", data, "output", out)
	}
}

// set stores a value in a parsed file, writes it, and returns the bytes of the elementary file (nil: refused).
func set(c *mc.Ch, e *ref.EF, base []byte, edit func(d *cardv1.DriverCardFile)) (body []byte, card *cardv1.DriverCardFile) {
	f, d := ef.Parse(c, ef.Card(e, base))
	edit(d)
	out, err := tachograph.MarshalFile(f)
	if err != nil {
		c.Outcome("refused")
		return nil, nil
	}
	rs, ok := ref.Split(out)
	if !ok {
		c.Fail(e.Name+": malformed output", "output", out)
	}
	for _, r := range rs {
		if r.FID == e.FID && r.Appendix == e.Appendix {
			body = r.Value
		}
	}
	if len(body) != len(base) {
		c.Fail(e.Name+": length changes", "output", out)
	}
	g, err := tachograph.UnmarshalFile(out)
	if err != nil {
		c.Fail(e.Name+": the written file is refused: "+ef.Class(err), "error", err.Error(), "output", out)
	}
	return body, g.GetDriverCard()
}

// only checks that body differs from base in [off,off+len(b)) only, and holds b there.
func only(c *mc.Ch, e *ref.EF, body, base []byte, off int, b []byte, what string) {
	want := bytes.Clone(base)
	copy(want[off:], b)
	if !bytes.Equal(want, body) {
		c.Fail(e.Name+": "+what+" encoded differently", "want", want, "got", body)
	}
}

func bcd(v int) byte { return byte(v/10%10<<4 | v%10) }

func run(k *mc.Check) {
	times := []struct {
		ef   string
		off  int
		path string
	}{
		{"card_download", 0, "tachograph.card_download.timestamp"},
		{"card_download g2", 0, "tachograph_g2.card_download.timestamp"},
		{"current_usage", 0, "tachograph.current_usage.session_open_time"},
		{"identification", 57, "tachograph.identification.card.card_validity_begin"},
		{"vehicles_used", 2 + 31 + 6, "tachograph.vehicles_used.records[1].vehicle_first_use"},
		{"vehicles_used g2", 2 + 48 + 10, "tachograph_g2.vehicles_used.records[1].vehicle_last_use"},
		{"events_data", 24 + 5, "tachograph.events_data.events[1].event_end_time"},
		{"faults_data g2", 24 + 5, "tachograph_g2.faults_data.faults[1].fault_end_time"},
		{"places", 1 + 10, "tachograph.places.records[1].entry_time"},
		{"places g2", 2 + 21 + 10, "tachograph_g2.places.records[1].entry_gnss_place_record.timestamp"},
		{"specific_conditions g2", 2 + 5, "tachograph_g2.specific_conditions.records[1].entry_time"},
		{"vehicle_units_used g2", 2 + 10, "tachograph_g2.vehicle_units_used.records[1].timestamp"},
		{"gnss_places g2", 2 + 18, "tachograph_g2.gnss_places.records[1].timestamp"},
		{"control_activity_data", 5 + 18 + 15 + 4, "tachograph.control_activity_data.control_download_period_end"},
	}
	k.Explore("timestamps read: edge values of all four bytes", 0, func(c *mc.Ch) {
		t := times[c.Free(len(times))]
		var b [4]byte
		for i := range b {
			b[i] = edges[c.Free(len(edges))]
		}
		e := ref.EFByName(t.ef)
		check(c, e, content(e, 2, t.off, b[:]))
	})
	k.Explore("timestamps read and written: every power of two and its neighbours", 0, func(c *mc.Ch) {
		t := times[c.Free(len(times))]
		v := int64(1)<<c.Free(35) + int64(c.Free(5)) - 2
		if c.Free(2) == 1 {
			v = -v
		}
		nanos := []int32{0, 1, 999999999, -1}[c.Free(4)]
		e := ref.EFByName(t.ef)
		base := content(e, 2, 0, nil)
		c.Visit(mc.HashS(fmt.Sprint(t.path, v, nanos)))
		body, _ := set(c, e, base, func(d *cardv1.DriverCardFile) {
			ef.Set(d, t.path, &timestamppb.Timestamp{Seconds: v, Nanos: nanos})
		})
		if body == nil {
			if v >= 1 && v < 1<<32 && nanos == 0 {
				c.Fail(e.Name+": representable timestamp refused", "seconds", v, "path", t.path)
			}
			return
		}
		if nanos < 0 { // not a valid timestamp
			return
		}
		if v < 0 || v >= 1<<32 {
			c.Fail(e.Name+": timestamp out of range written", "seconds", v, "nanos", nanos, "body", body, "path", t.path)
		}
		only(c, e, body, base, t.off, binary.BigEndian.AppendUint32(nil, uint32(v)), "timestamp")
	})

	id := ref.EFByName("identification")
	const birth = 137
	k.Explore("dates read: every year, every month and day", 0, func(c *mc.Ch) {
		hi := c.Free(65536)
		year := c.Free(2) == 0
		rest := [][2]byte{{0x07, 0x23}, {0x00, 0x00}, {0x1A, 0x01}, {0xFF, 0xFF}, {0x12, 0x31}}
		rest = rest[:mc.Pick2(k, 2, 5)]
		for _, r := range rest {
			b := []byte{0x19, 0x85, byte(hi >> 8), byte(hi)}
			if year {
				b = []byte{byte(hi >> 8), byte(hi), r[0], r[1]}
			} else if r[0] != 7 {
				b[0], b[1] = r[0], r[1]
			}
			check(c, id, content(id, 0, birth, b))
		}
	})
	k.Explore("dates written: every year, month and day", 0, func(c *mc.Ch) {
		y := c.Free(10002)
		mds := [][2]int{{12, 31}, {0, 0}, {6, 100}, {1, 1}, {6, 15}, {99, 99}, {100, 1}, {-1, 1}, {1, -1}, {10, 9}, {255, 16}}
		for _, md := range mds[:mc.Pick2(k, 3, len(mds))] {
			date(c, id, birth, y-1, md[0], md[1])
		}
		if y == 0 {
			for _, yy := range []int{0, 1999, 2025, 9999} {
				for m := -1; m < 102; m++ {
					for d := -1; d < 102; d++ {
						date(c, id, birth, yy, m, d)
					}
				}
			}
			for _, v := range []int{1 << 30, -1 << 31, 1<<31 - 1, 10000, 65536, 12345} {
				date(c, id, birth, v, 1, 1)
				date(c, id, birth, 2000, v, 1)
				date(c, id, birth, 2000, 1, v)
			}
		}
	})

	icc := ref.EFByName("icc")
	k.Explore("months and years read: every encoding", 0, func(c *mc.Ch) {
		v := c.Free(65536)
		check(c, icc, content(icc, 0, 5, []byte{byte(v >> 8), byte(v)}))
	})
	k.Explore("months and years written", 0, func(c *mc.Ch) {
		y := 1898 + c.Free(305)
		base := icc.Default(0)
		for m := -1; m < 102; m++ {
			c.Visit(mc.HashS(fmt.Sprint("my", y, m)))
			body, got := set(c, icc, base, func(d *cardv1.DriverCardFile) {
				p := "icc.card_extended_serial_number.month_year"
				ef.Set(d, p, nil)
				ef.Set(d, p+".year", y)
				ef.Set(d, p+".month", m)
			})
			if body == nil {
				if m >= 1 && m <= 12 && y >= 2000 && y <= 2099 {
					c.Fail("icc: representable month refused", "year", y, "month", m)
				}
				continue
			}
			g := got.GetIcc().GetCardExtendedSerialNumber().GetMonthYear()
			if int(g.GetMonth()) != m || int(g.GetYear()) != y {
				if y == 2000 && m == 0 && g.GetYear() == 0 { // 00 00 is unset
					continue
				}
				c.Fail("icc: month and year change when written", "year", y, "month", m, "got", fmt.Sprint(g))
			}
			only(c, icc, body, base, 5, []byte{bcd(m), bcd(y % 100)}, "month and year")
		}
	})

	for _, name := range []string{"application_identification", "application_identification g2"} {
		app := ref.EFByName(name)
		k.Explore(name+": structure versions and counts", 0, func(c *mc.Ch) {
			off := 1
			if n := c.Free(len(app.Default(0)) - 2); n > 0 {
				off = n + 1
			}
			v := 0
			if k.Thorough() || off < 3 {
				v = c.Free(65536)
			} else {
				v = int(ef.Core[c.Free(len(ef.Core))])<<8 | c.Free(256)
			}
			check(c, app, content(app, 0, off, []byte{byte(v >> 8), byte(v)}))
		})
	}

	// Numbers, many records per file.
	const per = 1024
	u24 := func(b []byte, v int) { b[0], b[1], b[2] = byte(v>>16), byte(v>>8), byte(v) }
	for _, g2 := range []bool{false, true} {
		name := "vehicles_used"
		if g2 {
			name = "vehicles_used g2"
		}
		e := ref.EFByName(name)
		base := e.Default(per)
		k.Explore(name+": odometer values and every counter", 0, func(c *mc.Ch) {
			lo := c.Free(mc.Pick2(k, 1<<24/per/17, 1<<24/per)) * per
			if !k.Thorough() {
				lo *= 17 // every 17th block of 1024 values
			}
			b := bytes.Clone(base)
			for i := 0; i < per; i++ {
				r := b[e.Header+i*e.Record:]
				u24(r, lo+i)
				u24(r[3:], 1<<24-1-lo-i)
				ctr := int(bcd((lo+i)/100))<<8 | int(bcd(lo+i))
				r[29], r[30] = byte(ctr>>8), byte(ctr)
			}
			c.Visit(mc.Hash(b))
			data := ef.Card(e, b)
			f, d := ef.Parse(c, data)
			ref24 := func(i int, begin, end int, counter *ddv1.BcdString) {
				if begin != lo+i || end != 1<<24-1-lo-i {
					c.Fail(name+": odometer", "value", lo+i, "begin", begin, "end", end)
				}
				if int(counter.GetValue()) != (lo+i)%10000 {
					c.Fail(name+": counter", "want", (lo+i)%10000, "value", counter.GetValue())
				}
			}
			n := 0
			if g2 {
				for i, r := range d.GetTachographG2().GetVehiclesUsed().GetRecords() {
					ref24(i, int(r.GetVehicleOdometerBeginKm()), int(r.GetVehicleOdometerEndKm()), r.GetVuDataBlockCounter())
					n++
				}
			} else {
				for i, r := range d.GetTachograph().GetVehiclesUsed().GetRecords() {
					ref24(i, int(r.GetVehicleOdometerBeginKm()), int(r.GetVehicleOdometerEndKm()), r.GetVuDataBlockCounter())
					n++
				}
			}
			if n != per {
				c.Fail(name+": number of records", "got", n)
			}
			out, err := tachograph.MarshalFile(f)
			if err == nil && !bytes.Equal(out, data) {
				c.Fail(name+": written back differently", "file", data, "output", out)
			}
		})
		k.Explore(name+": every counter encoding", 0, func(c *mc.Ch) {
			v := c.Free(65536)
			check(c, e, content(e, 2, e.Header+e.Record+29, []byte{byte(v >> 8), byte(v)}))
		})
		k.Explore(name+": odometer values and counters written", 0, func(c *mc.Ch) {
			base := e.Default(3)
			path := "tachograph.vehicles_used.records[1]."
			if g2 {
				path = "tachograph_g2.vehicles_used.records[1]."
			}
			switch c.Free(3) {
			case 0, 1:
				v := 1 << c.Free(32)
				v += c.Free(5) - 2
				if c.Free(2) == 1 {
					v = -v
				}
				if v != int(int32(v)) {
					return
				}
				end := c.Free(2)
				c.Visit(mc.HashS(fmt.Sprint("odo", v, end)))
				body, _ := set(c, e, base, func(d *cardv1.DriverCardFile) {
					ef.Set(d, path+[]string{"vehicle_odometer_begin_km", "vehicle_odometer_end_km"}[end], v)
				})
				if body == nil {
					if v >= 0 && v <= 999999 {
						c.Fail(name+": representable odometer value refused", "value", v)
					}
					return
				}
				if v < 0 || v >= 1<<24 {
					c.Fail(name+": odometer value out of range written", "value", v, "body", body)
				}
				b := make([]byte, 3)
				u24(b, v)
				only(c, e, body, base, 2+e.Record+3*end, b, "odometer")
			case 2:
				v := c.Free(10003) - 1
				if v == 10001 {
					v = 1<<31 - 1
				}
				c.Visit(mc.HashS(fmt.Sprint("ctr", v)))
				body, _ := set(c, e, base, func(d *cardv1.DriverCardFile) {
					ef.Set(d, path+"vu_data_block_counter.value", v)
				})
				if body == nil {
					if v >= 0 && v <= 9999 {
						c.Fail(name+": representable counter refused", "value", v)
					}
					return
				}
				if v < 0 || v > 9999 {
					c.Fail(name+": counter out of range written", "value", v, "body", body)
				}
				only(c, e, body, base, 2+e.Record+29, []byte{bcd(v / 100), bcd(v % 100)}, "counter")
			}
		})
	}

	gp := ref.EFByName("gnss_places g2")
	gbase := gp.Default(per)
	k.Explore("gnss_places: every latitude, longitude and odometer value", 0, func(c *mc.Ch) {
		lo := c.Free(1<<24/per) * per
		b := bytes.Clone(gbase)
		for i := 0; i < per; i++ {
			r := b[gp.Header+i*gp.Record:]
			u24(r[9:], lo+i)
			u24(r[12:], 1<<24-1-lo-i)
			u24(r[15:], (lo+i)%1000000)
		}
		c.Visit(mc.Hash(b))
		data := ef.Card(gp, b)
		f, d := ef.Parse(c, data)
		sx := func(v int) int { return int(int32(v<<8) >> 8) }
		rs := d.GetTachographG2().GetGnssPlaces().GetRecords()
		if len(rs) != per {
			c.Fail("gnss_places: number of records", "got", len(rs))
		}
		for i, r := range rs {
			g := r.GetGnssPlaceRecord().GetGeoCoordinates()
			if int(g.GetLatitude()) != sx(lo+i) || int(g.GetLongitude()) != sx(1<<24-1-lo-i) || int(r.GetVehicleOdometerKm()) != (lo+i)%1000000 {
				c.Fail("gnss_places: position", "encoding", fmt.Sprintf("%06x", lo+i), "got", fmt.Sprint(r))
			}
		}
		out, err := tachograph.MarshalFile(f)
		if err != nil {
			c.Fail("gnss_places: marshal: "+ef.Class(err), "error", err.Error(), "file", data)
		}
		if !bytes.Equal(out, data) {
			c.Fail("gnss_places: written back differently", "file", data, "output", out)
		}
	})
	k.Explore("gnss_places: odometer encodings", 0, func(c *mc.Ch) {
		lo := c.Free(1<<24/per/mc.Pick2(k, 5, 1)) * per * mc.Pick2(k, 5, 1)
		b := bytes.Clone(gbase)
		for i := 0; i < per; i++ {
			u24(b[gp.Header+i*gp.Record+15:], lo+i)
		}
		c.Visit(mc.Hash(b))
		data := ef.Card(gp, b)
		f, err := tachograph.UnmarshalFile(data)
		if err != nil {
			if lo < 1000000 {
				c.Fail("gnss_places: odometer refused", "value", lo, "error", err.Error())
			}
			c.Outcome("refused")
			return
		}
		for i, r := range f.GetDriverCard().GetTachographG2().GetGnssPlaces().GetRecords() {
			// Beyond 999999 km there is no value, but not another one either.
			if got := int(r.GetVehicleOdometerKm()); got != lo+i && (lo+i < 1000000 || r.HasVehicleOdometerKm()) {
				c.Fail("gnss_places: odometer", "value", lo+i, "got", got)
			}
		}
	})
	pg := ref.EFByName("places g2")
	k.Explore("coordinates and odometer values written", 0, func(c *mc.Ch) {
		e, off, path := gp, 2+gp.Record, "tachograph_g2.gnss_places.records[1].gnss_place_record."
		if c.Free(2) == 1 {
			e, off, path = pg, 2+pg.Record+10, "tachograph_g2.places.records[1].entry_gnss_place_record."
		} else {
			off += 4
		}
		base := e.Default(3)
		v := 1 << c.Free(32)
		v += c.Free(5) - 2
		if c.Free(2) == 1 {
			v = -v
		}
		if v != int(int32(v)) {
			return
		}
		lon := c.Free(2)
		c.Visit(mc.HashS(fmt.Sprint("geo", path, v, lon)))
		body, _ := set(c, e, base, func(d *cardv1.DriverCardFile) {
			ef.Set(d, path+"geo_coordinates."+[]string{"latitude", "longitude"}[lon], v)
		})
		if body == nil {
			if v >= -1<<23 && v < 1<<23 {
				c.Fail(e.Name+": representable coordinate refused", "value", v)
			}
			return
		}
		if v < -1<<23 || v >= 1<<23 {
			c.Fail(e.Name+": coordinate out of range written", "value", v, "body", body)
		}
		b := make([]byte, 3)
		u24(b, v)
		o := off + 5 + 3*lon
		if e == gp {
			o = 2 + gp.Record + 4 + 5 + 3*lon
		}
		only(c, e, body, base, o, b, "coordinate")
	})
	k.Assume("values are set through the parsed message with raw_data, where a field has its own, cleared")
}

// date writes a birth date.
func date(c *mc.Ch, e *ref.EF, off, y, m, d int) {
	base := e.Default(0)
	c.Visit(mc.HashS(fmt.Sprint("date", y, m, d)))
	body, got := set(c, e, base, func(card *cardv1.DriverCardFile) {
		p := "tachograph.identification.driver_card_holder.card_holder_birth_date"
		ef.Set(card, p, nil)
		ef.Set(card, p+".year", y)
		ef.Set(card, p+".month", m)
		ef.Set(card, p+".day", d)
	})
	if body == nil {
		if y >= 1900 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= 28 {
			c.Fail("identification: representable date refused", "year", y, "month", m, "day", d)
		}
		return
	}
	g := got.GetTachograph().GetIdentification().GetDriverCardHolder().GetCardHolderBirthDate()
	if int(g.GetYear()) != y || int(g.GetMonth()) != m || int(g.GetDay()) != d {
		c.Fail("identification: date changes when written", "year", y, "month", m, "day", d, "got", fmt.Sprint(g))
	}
	only(c, e, body, base, off, []byte{bcd(y / 100), bcd(y % 100), bcd(m), bcd(d)}, "date")
}
