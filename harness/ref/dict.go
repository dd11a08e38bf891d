package ref

import "strings"

// Type is a data type of the data dictionary that has a reader and a writer of
// its own.
type Type struct {
	Name  string
	Any   bool // any length, from one byte on (two for strings with a code page)
	Bases [][]byte
	dec   func(d *Dec, n int)
}

// Decode gives the expectation for the value, under "x"; may says that the
// bytes may be refused.
func (t *Type) Decode(b []byte) (w Want, may bool) {
	w = Want{}
	t.dec(NewDec(b, w, "", &may), len(b))
	return
}

// Fields gives the start and end of each field.
func (t *Type) Fields(b []byte) (f [][2]int) {
	may := false
	d := NewDec(b, Want{}, "", &may)
	d.Trace = &f
	t.dec(d, len(b))
	return
}

// Position authentication states and generations.
var (
	AuthStatus = map[int]string{0: "NOT_AUTHENTICATED", 1: "AUTHENTICATED"}
	Gen        = map[int]string{1: "GENERATION_1", 2: "GENERATION_2"}
)

var (
	driverNo  = []byte("DF000012345670A1")
	companyNo = []byte("COMPANY-00012345")
	holder    = cat(str(1, 36, "M\xfcller-L\xfcdenscheidt"), str(2, 36, "Anna \xb6ofia"))
)

func iw(k int, number []byte) []byte {
	return cat(holder, number, hx("20311130"), T(60+k), be(3, 123456+k), []byte{byte(k & 1)}, T(61+k), be(3, 123999+k), reg(k), T(59+k), []byte{byte(k & 1)})
}

// Types is the data dictionary as far as it has readers and writers.
var Types = func() []Type {
	in := func(f func(d *Dec)) func(d *Dec, n int) { return func(d *Dec, n int) { d.In("x", f) } }
	driver := cat([]byte{1, 13}, driverNo)
	company := cat([]byte{4, 18}, companyNo)
	number := func(d *Dec) {
		d.Ia5("driver_identification_number", 14)
	}
	pv := func(d *Dec) {
		d.Reg("vehicle_registration")
		d.Time("card_withdrawal_time")
	}
	vehicle := EFByName("vehicles_used")
	vehicle2 := EFByName("vehicles_used g2")
	record := func(e *EF, k int) []byte {
		b := e.Default(k + 1)
		return b[e.Header+k*e.Record:]
	}
	// A record of a file is decoded as a file of one record.
	of := func(e *EF) func(d *Dec, n int) {
		return func(d *Dec, n int) {
			w := Want{}
			x := NewDec(cat(make([]byte, e.Header), d.Take(n)), w, "", d.May)
			t := [][2]int{}
			x.Trace = &t
			e.decode(x, 1)
			for k, v := range w {
				if i := strings.Index(k, "[0]."); i >= 0 {
					d.W["x."+k[i+4:]] = v
				}
			}
			if d.Trace != nil {
				*d.Trace = (*d.Trace)[:len(*d.Trace)-1]
				for _, f := range t {
					if f[0] >= e.Header {
						*d.Trace = append(*d.Trace, [2]int{f[0] - e.Header, f[1] - e.Header})
					}
				}
			}
		}
	}
	rec := func(e *EF) [][]byte { return [][]byte{record(e, 0), record(e, 2)} }
	return []Type{
		{Name: "ActivityChangeInfo", Bases: [][]byte{hx("1234"), hx("f8ff"), hx("0000")}, dec: func(d *Dec, n int) {
			out := map[string]string{}
			Change(U(d.Take(2)), "x", out)
			for k, v := range out {
				d.W[k] = Exp{Eq: v}
			}
		}},
		{Name: "BcdString", Any: true, Bases: [][]byte{hx("07"), hx("1234"), hx("000099"), hx("12345678"), hx("0000000001")}, dec: func(d *Dec, n int) {
			d.Bcd("x", n)
			v, ok := digits(d.B[max(len(d.B)-8, 0):])
			high, ok2 := digits(d.B[:max(len(d.B)-8, 0)])
			if ok && ok2 && (high > 0 || v >= 1<<31) {
				*d.May = true // no room for it
				delete(d.W, "x.length")
				d.W["x.value"] = Exp{}
				d.Any("x.length")
			}
		}},
		{Name: "CardStructureVersion", Bases: [][]byte{hx("0101"), hx("9907")}, dec: in(func(d *Dec) {
			b := d.Take(2)
			for i, name := range []string{"major", "minor"} {
				if v, ok := digits(b[i : i+1]); ok {
					d.seti(name, v)
				} else {
					*d.May = true
					d.Any(name)
				}
			}
		})},
		{Name: "CardVehicleRecord", Bases: rec(vehicle), dec: of(vehicle)},
		{Name: "CardVehicleRecordG2", Bases: rec(vehicle2), dec: of(vehicle2)},
		{Name: "ControlType", Bases: [][]byte{{0xA8}, {0x50}}, dec: in(func(d *Dec) {
			ct := d.Take(1)[0]
			for i, name := range []string{"card_downloading", "vu_downloading", "printing", "display", "calibration_checking"} {
				d.Bool(name, ct&(0x80>>i) != 0)
			}
		})},
		{Name: "Date", Bases: [][]byte{hx("19850723"), hx("20991231")}, dec: func(d *Dec, n int) { d.Date("x") }},
		{Name: "DriverIdentification", Bases: [][]byte{driverNo[:14], []byte(" D1           ")}, dec: in(number)},
		{Name: "ExtendedSerialNumber", Bases: [][]byte{hx("0001e24006190640"), hx("fffffffe12990701")}, dec: in(func(d *Dec) {
			d.U32("serial_number")
			d.MonthYear("month_year")
			d.Enum("type", "", EquipmentType)
			d.U8("manufacturer_code")
		})},
		{Name: "FullCardNumber", Bases: [][]byte{driver, company}, dec: func(d *Dec, n int) { d.FullCardNumber("x") }},
		{Name: "FullCardNumberAndGeneration", Bases: [][]byte{cat(driver, []byte{2}), cat(company, []byte{1})}, dec: in(func(d *Dec) {
			d.FullCardNumber("full_card_number")
			d.Enum("generation", "", Gen)
		})},
		{Name: "GeoCoordinates", Bases: [][]byte{hx("00e86cfff704"), hx("fff1230abcde")}, dec: in(func(d *Dec) {
			d.I24("latitude")
			d.I24("longitude")
		})},
		{Name: "GNSSPlaceAuthRecord", Bases: [][]byte{cat(gnss(0), []byte{1}), cat(gnss(3), []byte{0})}, dec: in(func(d *Dec) {
			d.Time("timestamp")
			d.U8("gnss_accuracy")
			d.I24("geo_coordinates.latitude")
			d.I24("geo_coordinates.longitude")
			may := *d.May
			d.Enum("authentication_status", "unrecognized_authentication_status", AuthStatus)
			*d.May = may
		})},
		{Name: "GNSSPlaceRecord", Bases: [][]byte{gnss(0), gnss(3)}, dec: func(d *Dec, n int) { d.gnssPlace("x") }},
		{Name: "HolderName", Bases: [][]byte{holder}, dec: in(func(d *Dec) {
			d.Str("holder_surname", 36)
			d.Str("holder_first_names", 36)
		})},
		{Name: "Ia5StringValue", Any: true, Bases: [][]byte{[]byte("A"), []byte("AB 12"), []byte("  x y  "), []byte("012345678901234567890123")}, dec: func(d *Dec, n int) { d.Ia5("x", n) }},
		{Name: "MonthYear", Bases: [][]byte{hx("0619"), hx("1299")}, dec: func(d *Dec, n int) { d.MonthYear("x") }},
		{Name: "OwnerIdentification", Bases: [][]byte{companyNo, []byte("CTRL-4711-BODY01")}, dec: in(func(d *Dec) {
			d.Ia5("owner_identification", 13)
			d.Ia5("consecutive_index", 1)
			d.Ia5("replacement_index", 1)
			d.Ia5("renewal_index", 1)
		})},
		{Name: "PlaceRecord", Bases: rec(EFByName("places")), dec: of(EFByName("places"))},
		{Name: "PlaceRecordG2", Bases: rec(EFByName("places g2")), dec: of(EFByName("places g2"))},
		{Name: "PreviousVehicleInfo", Bases: [][]byte{cat(reg(0), T(1)), cat(reg(1), T(5))}, dec: in(pv)},
		{Name: "PreviousVehicleInfoG2", Bases: [][]byte{cat(reg(0), T(1), []byte{1}), cat(reg(1), T(5), []byte{2})}, dec: in(func(d *Dec) {
			pv(d)
			d.Enum("vu_generation", "", Gen)
		})},
		{Name: "SpecificConditionRecord", Bases: rec(EFByName("specific_conditions")), dec: in(func(d *Dec) { d.condition() })},
		{Name: "StringValue", Any: true, Bases: [][]byte{str(1, 2, "A"), str(2, 14, "Anna \xb6ofia"), str(5, 36, "\xb8\xd2\xd0\xdd"), str(80, 8, "\xe9\xd7\xc1\xce")}, dec: func(d *Dec, n int) { d.Str("x", n) }},
		{Name: "TimeReal", Bases: [][]byte{T(1), hx("ffffffff")}, dec: func(d *Dec, n int) { d.Time("x") }},
		{Name: "VehicleRegistration", Bases: [][]byte{reg(0), reg(1)}, dec: func(d *Dec, n int) { d.Reg("x") }},
		{Name: "VuCardIWRecord", Bases: [][]byte{iw(0, driver), iw(1, company)}, dec: in(func(d *Dec) { d.cardIW() })},
	}
}()
