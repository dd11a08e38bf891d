package ref

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

// Verdict says what the parser has to do with an elementary file.
type Verdict int

const (
	Accept Verdict = iota // parse to the expectation
	May                   // parse to the expectation or refuse
	Refuse                // refuse
)

// EF describes an elementary file of a driver card.
type EF struct {
	Name     string
	Path     []string // field path in DriverCardFile
	FID      uint16
	Appendix byte
	// Default makes a typical file with n records.
	Default func(n int) []byte
	// Records: the file is a sequence of records after a header.
	Header, Record int
	decode         func(d *Dec, n int)
	fixed          int  // minimum length of a file without records
	exact          bool // other lengths are refused
}

// Decode gives the expectation for a file with this content.
func (e *EF) Decode(b []byte) (Want, Verdict) { return e.decodeTrace(b, nil) }

// Fields gives the start and end of each field of the content, as the decoder
// takes them.
func (e *EF) Fields(b []byte) [][2]int {
	var t [][2]int
	e.decodeTrace(b, &t)
	return t
}

func (e *EF) decodeTrace(b []byte, trace *[][2]int) (Want, Verdict) {
	w := Want{}
	may := false
	d := NewDec(b, w, "", &may)
	d.Trace = trace
	n := 0
	if e.Record > 0 {
		if len(b) < e.Header {
			return nil, Refuse
		}
		n = (len(b) - e.Header) / e.Record
		if (len(b)-e.Header)%e.Record != 0 {
			if e.exact {
				return nil, Refuse
			}
			may = true
		}
	} else {
		if len(b) < e.fixed || e.exact && len(b) != e.fixed {
			return nil, Refuse
		}
		if len(b) > e.fixed {
			may = true
		}
	}
	e.decode(d, n)
	if may {
		return w, May
	}
	return w, Accept
}

func hx(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func str(page byte, n int, s string) []byte {
	b := make([]byte, n)
	b[0] = page
	for i := 1; i < n; i++ {
		b[i] = ' '
	}
	copy(b[1:], s)
	return b
}

func pad(n int, s string) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = ' '
	}
	copy(b, s)
	return b
}

func be(n, v int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// T is a timestamp in 2021 distinguished by k.
func T(k int) []byte { return be(4, 1610000000+k*86461) }

func reg(k int) []byte {
	return cat([]byte{[]byte{13, 18, 44, 11}[k%4]}, str(byte(1+k%3), 14, fmt.Sprintf("AB-%03d X", k*37+11)))
}

func (d *Dec) list(name string, n int, f func(d *Dec, i int)) {
	d.seti(name+"#", n)
	for i := 0; i < n; i++ {
		d.In(fmt.Sprintf("%s[%d]", name, i), func(d *Dec) { f(d, i) })
	}
}

// Reg decodes a VehicleRegistrationIdentification.
func (d *Dec) Reg(name string) {
	d.In(name, func(d *Dec) {
		may := *d.May
		d.Enum("nation", "", Nation)
		*d.May = may // an unknown nation does not make the registration unreadable
		d.Str("number", 14)
	})
}

func eventLike(list, kind string) func(d *Dec, n int) {
	return func(d *Dec, n int) {
		d.list(list, n, func(d *Dec, i int) {
			b := d.B[d.off : d.off+24]
			if U(b[1:5]) == 0 { // unused
				d.off += 24
				d.Bool("valid", false)
				return
			}
			d.Bool("valid", true)
			d.Enum(kind+"_type", "", EventFaultType)
			d.Time(kind + "_begin_time")
			d.Time(kind + "_end_time")
			d.Reg(kind + "_vehicle_registration")
		})
	}
}

func eventRec(codes ...byte) func(n int) []byte {
	return func(n int) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, cat([]byte{codes[i%len(codes)]}, T(i*3), T(i*3+1), reg(i))...)
		}
		return b
	}
}

func gnss(k int) []byte {
	return cat(T(50+k), []byte{byte(3 + k)}, be(3, 0xFFFFFF&(59500-k*190000)), be(3, 0xFFFFFF&(-2300+k*77777)))
}

func (d *Dec) gnssPlace(name string) {
	d.In(name, func(d *Dec) {
		d.Time("timestamp")
		d.U8("gnss_accuracy")
		d.I24("geo_coordinates.latitude")
		d.I24("geo_coordinates.longitude")
	})
}

func (d *Dec) place(g2 bool) {
	may := *d.May
	d.Any("valid")
	d.Time("entry_time")
	d.Enum("entry_type_daily_work_period", "unrecognized_entry_type_daily_work_period", EntryType)
	d.Enum("daily_work_period_country", "unrecognized_daily_work_period_country", Nation)
	*d.May = may // these carry their raw value
	d.Bytes("daily_work_period_region", 1)
	d.U24("vehicle_odometer_km")
	if g2 {
		d.gnssPlace("entry_gnss_place_record")
	}
}

func (d *Dec) condition() {
	may := *d.May
	d.Time("entry_time")
	d.Enum("specific_condition_type", "unrecognized_specific_condition_type", SpecificCondition)
	*d.May = may
}

func placesDef(hdr int, g2 bool) func(n int) []byte {
	return func(n int) []byte {
		b := be(hdr, max(n-1, 0))
		for i := 0; i < n; i++ {
			b = append(b, cat(T(10+i), []byte{byte(i % 4), byte(13 + i), byte(1 + i)}, be(3, 123456+i*70001))...)
			if g2 {
				b = append(b, gnss(i)...)
			}
		}
		return b
	}
}

func vehiclesDef(g2 bool) func(n int) []byte {
	return func(n int) []byte {
		b := be(2, max(n-1, 0))
		for i := 0; i < n; i++ {
			b = append(b, cat(be(3, 123456+i*99), be(3, 125000+i*99), T(20+2*i), T(21+2*i), reg(i), []byte{byte((12+i)/10%10<<4 | (12+i)%10), 0x34})...)
			if g2 {
				b = append(b, []byte(fmt.Sprintf("WDB96340310%06d", 123456+i))...)
			}
		}
		return b
	}
}

func vehicles(g2 bool) func(d *Dec, n int) {
	return func(d *Dec, n int) {
		d.U16("newest_record_index")
		d.list("records", n, func(d *Dec, i int) {
			d.U24("vehicle_odometer_begin_km")
			d.U24("vehicle_odometer_end_km")
			d.Time("vehicle_first_use")
			d.Time("vehicle_last_use")
			d.Reg("vehicle_registration")
			d.Bcd("vu_data_block_counter", 2)
			if g2 {
				b := d.Take(17)
				d.W[d.P+"vehicle_identification_number"] = VinExp(b)
			}
		})
	}
}

// VinExp is the expectation for a vehicle identification number: the
// characters without the padding behind them; leading blanks stay.
func VinExp(b []byte) Exp {
	for _, x := range b {
		if x >= 0x80 {
			return Ia5Exp(b)
		}
	}
	want := strings.TrimRight(string(b), " \x00")
	return Exp{F: func(got string) bool { return got == strconv.Quote(want) || got == "" && want == "" }}
}

// CardNumber is the holder's 16-byte card number.
func cardNumber(d *Dec, p string) (driver bool) {
	b := d.B[d.off : d.off+16]
	if isIndex(b[14]) && isIndex(b[15]) {
		d.In(p+"driver_identification", func(d *Dec) {
			d.Ia5("driver_identification_number", 14)
			d.Ia5("card_replacement_index", 1)
			d.Ia5("card_renewal_index", 1)
		})
		return true
	}
	d.In(p+"owner_identification", func(d *Dec) {
		d.Ia5("owner_identification", 13)
		d.Ia5("consecutive_index", 1)
		d.Ia5("replacement_index", 1)
		d.Ia5("renewal_index", 1)
	})
	return false
}

// isIndex: indices count 0..9, A..Z.
func isIndex(b byte) bool { return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' }

func appID(g2 bool) func(d *Dec, n int) {
	return func(d *Dec, n int) {
		d.Set("card_type", "DRIVER_CARD")
		d.Enum("type_of_tachograph_card_id", "", EquipmentType)
		d.In("card_structure_version", func(d *Dec) {
			b := d.Take(2)
			for i, name := range []string{"major", "minor"} {
				v, ok := digits(b[i : i+1])
				if ok {
					d.seti(name, v)
				} else {
					*d.May = true
					d.Any(name)
				}
			}
		})
		d.In("driver", func(d *Dec) {
			d.U8("events_per_type_count")
			d.U8("faults_per_type_count")
			d.U16("activity_structure_length")
			d.U16("card_vehicle_records_count")
			if !g2 {
				d.U8("card_place_records_count")
				return
			}
			d.U16("card_place_records_count")
			d.U16("gnss_ad_records_count")
			d.U16("specific_condition_records_count")
			d.U16("card_vehicle_unit_records_count")
		})
	}
}

func identification(d *Dec, n int) {
	d.In("card", func(d *Dec) {
		may := *d.May
		d.Enum("card_issuing_member_state", "", Nation)
		*d.May = may
		if cardNumber(d, "") {
			d.W["card_type"] = Exp{Eq: "DRIVER_CARD"}
		} else {
			*d.May = true // not a driver card number
			d.W["card_type"] = Exp{F: func(s string) bool { return true }}
		}
		d.Str("card_issuing_authority_name", 36)
		d.Time("card_issue_date")
		d.Time("card_validity_begin")
		d.Time("card_expiry_date")
	})
	d.In("driver_card_holder", func(d *Dec) {
		d.Str("card_holder_surname", 36)
		d.Str("card_holder_first_names", 36)
		d.Date("card_holder_birth_date")
		d.Ia5("card_holder_preferred_language", 2)
	})
}

func icc(d *Dec, n int) {
	d.Enum("clock_stop", "", ClockStop)
	d.In("card_extended_serial_number", func(d *Dec) {
		d.U32("serial_number")
		d.MonthYear("month_year")
		d.Enum("type", "", EquipmentType)
		d.U8("manufacturer_code")
	})
	d.Ia5("card_approval_number", 8)
	d.U8("card_personaliser_id")
	d.In("embedder_ic_assembler_id", func(d *Dec) {
		d.Ia5("country_code", 2)
		d.Ia5("module_embedder", 2)
		d.U8("manufacturer_information")
	})
	d.Bytes("ic_identifier", 2)
}

// FullCardNumber decodes a card type, an issuing state and a card number.
func (d *Dec) FullCardNumber(name string) {
	d.In(name, func(d *Dec) {
		t := d.B[d.off]
		d.Enum("card_type", "", EquipmentType)
		may := *d.May
		d.Enum("card_issuing_member_state", "", Nation)
		*d.May = may
		switch t {
		case 1:
			d.In("driver_identification", func(d *Dec) {
				d.Ia5("driver_identification_number", 14)
				d.Ia5("card_replacement_index", 1)
				d.Ia5("card_renewal_index", 1)
			})
		case 2, 3, 4:
			d.In("owner_identification", func(d *Dec) {
				d.Ia5("owner_identification", 13)
				d.Ia5("consecutive_index", 1)
				d.Ia5("replacement_index", 1)
				d.Ia5("renewal_index", 1)
			})
		default: // not the type of a card
			*d.May = true
			d.Take(16)
		}
	})
}

func control(d *Dec, n int) {
	b := d.B
	if U(b[1:5]) == 0 {
		d.off = 46
		d.Bool("valid", false)
		return
	}
	d.Bool("valid", true)
	ct := d.Take(1)[0]
	d.In("control_type", func(d *Dec) {
		d.Bool("card_downloading", ct&0x80 != 0)
		d.Bool("vu_downloading", ct&0x40 != 0)
		d.Bool("printing", ct&0x20 != 0)
		d.Bool("display", ct&0x10 != 0)
		d.Bool("calibration_checking", ct&0x08 != 0)
	})
	d.Time("control_time")
	d.FullCardNumber("control_card_number.full_card_number")
	d.Any("control_card_number.generation")
	d.Reg("control_vehicle_registration")
	d.Time("control_download_period_begin")
	d.Time("control_download_period_end")
}

func conditions(hdr int) func(d *Dec, n int) {
	return func(d *Dec, n int) {
		if hdr > 0 {
			d.U16("newest_record_index")
		}
		d.list("records", n, func(d *Dec, i int) { d.condition() })
	}
}

func conditionsDef(hdr int) func(n int) []byte {
	return func(n int) []byte {
		b := be(hdr, max(n-1, 0))
		for i := 0; i < n; i++ {
			b = append(b, cat(T(40+i), []byte{byte(1 + i%4)})...)
		}
		return b
	}
}

// Icc is a typical EF_ICC content.
var Icc = cat([]byte{0}, hx("0001e240"), hx("0619"), []byte{1, 0x40}, pad(8, "e1-123"), []byte{7}, []byte("DEAB"), []byte{9}, []byte{0xAB, 0x01})

func identificationDef(int) []byte {
	return cat([]byte{13}, []byte("DF000012345670"), []byte("01"), str(1, 36, "KBA Flensburg"), T(1), T(2), T(900),
		str(1, 36, "M\xfcller-L\xfcdenscheidt"), str(2, 36, "Anna \xb6ofia"), hx("19850723"), []byte("de"))
}

func controlDef(int) []byte {
	return cat([]byte{0xA8}, T(7), []byte{3, 13}, []byte("CTRL-4711-BODY01"), reg(1), T(5), T(6))
}

func fixed(b []byte) func(int) []byte { return func(int) []byte { return append([]byte(nil), b...) } }

func both(name string, fid uint16, e EF) []EF {
	e1, e2 := e, e
	e1.Name, e1.FID, e1.Path = name, fid, []string{"tachograph", name}
	e2.Name, e2.FID, e2.Path = name+" g2", fid, []string{"tachograph_g2", name}
	e2.Appendix = 2
	return []EF{e1, e2}
}

// DriverEFs lists the elementary files that driver card parsing decodes.
var DriverEFs = func() []EF {
	var l []EF
	add := func(e ...EF) { l = append(l, e...) }
	add(EF{Name: "icc", Path: []string{"icc"}, FID: 0x0002, Default: fixed(Icc), fixed: 25, decode: icc})
	add(EF{Name: "ic", Path: []string{"ic"}, FID: 0x0005, Default: fixed(hx("0102030405060708")), fixed: 8, decode: func(d *Dec, n int) {
		d.Bytes("ic_serial_number", 4)
		d.Bytes("ic_manufacturing_references", 4)
	}})
	add(EF{Name: "application_identification", Path: []string{"tachograph", "application_identification"}, FID: 0x0501, fixed: 10, exact: true,
		Default: fixed(hx("01000006061a2c00c86e")), decode: appID(false)})
	add(EF{Name: "application_identification g2", Path: []string{"tachograph_g2", "application_identification"}, FID: 0x0501, Appendix: 2, fixed: 17, exact: true,
		Default: fixed(hx("0101000c0c35e800c800700150007000c8")), decode: appID(true)})
	add(both("identification", 0x0520, EF{fixed: 143, Default: identificationDef, decode: identification})...)
	add(both("card_download", 0x050E, EF{fixed: 4, Default: func(int) []byte { return T(33) }, decode: func(d *Dec, n int) { d.Time("timestamp") }})...)
	add(both("driving_licence_info", 0x0521, EF{fixed: 53, Default: fixed(cat(str(1, 36, "Landratsamt"), []byte{13}, pad(16, "B072RRE2I55"))),
		decode: func(d *Dec, n int) {
			d.Str("driving_licence_issuing_authority", 36)
			may := *d.May
			d.Enum("driving_licence_issuing_nation", "", Nation)
			*d.May = may
			d.Ia5("driving_licence_number", 16)
		}})...)
	add(both("events_data", 0x0502, EF{Record: 24, Default: eventRec(0x08, 0x03, 0x22), decode: eventLike("events", "event")})...)
	add(both("faults_data", 0x0503, EF{Record: 24, Default: eventRec(0x31, 0x40, 0x35), decode: eventLike("faults", "fault")})...)
	add(EF{Name: "vehicles_used", Path: []string{"tachograph", "vehicles_used"}, FID: 0x0505, Header: 2, Record: 31, Default: vehiclesDef(false), decode: vehicles(false)})
	add(EF{Name: "vehicles_used g2", Path: []string{"tachograph_g2", "vehicles_used"}, FID: 0x0505, Appendix: 2, Header: 2, Record: 48, Default: vehiclesDef(true), decode: vehicles(true)})
	add(EF{Name: "places", Path: []string{"tachograph", "places"}, FID: 0x0506, Header: 1, Record: 10, Default: placesDef(1, false), decode: func(d *Dec, n int) {
		d.U8("newest_record_index")
		d.list("records", n, func(d *Dec, i int) { d.place(false) })
	}})
	add(EF{Name: "places g2", Path: []string{"tachograph_g2", "places"}, FID: 0x0506, Appendix: 2, Header: 2, Record: 21, Default: placesDef(2, true), decode: func(d *Dec, n int) {
		d.U16("newest_record_index")
		d.list("records", n, func(d *Dec, i int) { d.place(true) })
	}})
	add(both("current_usage", 0x0507, EF{fixed: 19, Default: fixed(cat(T(77), reg(2))), decode: func(d *Dec, n int) {
		d.Time("session_open_time")
		d.Reg("session_open_vehicle")
	}})...)
	add(both("control_activity_data", 0x0508, EF{fixed: 46, Default: controlDef, decode: control})...)
	add(EF{Name: "specific_conditions", Path: []string{"tachograph", "specific_conditions"}, FID: 0x0522, Record: 5, Default: conditionsDef(0), decode: conditions(0)})
	add(EF{Name: "specific_conditions g2", Path: []string{"tachograph_g2", "specific_conditions"}, FID: 0x0522, Appendix: 2, Header: 2, Record: 5, Default: conditionsDef(2), decode: conditions(2)})
	add(EF{Name: "vehicle_units_used g2", Path: []string{"tachograph_g2", "vehicle_units_used"}, FID: 0x0523, Appendix: 2, Header: 2, Record: 10, exact: true,
		Default: func(n int) []byte {
			b := be(2, max(n-1, 0))
			for i := 0; i < n; i++ {
				b = append(b, cat(T(60+i), []byte{byte(0xA1 + i), byte(7 + i)}, []byte(fmt.Sprintf("V%03d", (301+i)%1000)))...)
			}
			return b
		}, decode: func(d *Dec, n int) {
			d.U16("vehicle_unit_pointer_newest_record")
			d.list("records", n, func(d *Dec, i int) {
				d.Time("timestamp")
				d.U8("manufacturer_code")
				d.Bytes("device_id", 1)
				d.Bytes("vu_software_version", 4)
			})
		}})
	add(EF{Name: "gnss_places g2", Path: []string{"tachograph_g2", "gnss_places"}, FID: 0x0524, Appendix: 2, Header: 2, Record: 18, exact: true,
		Default: func(n int) []byte {
			b := be(2, max(n-1, 0))
			for i := 0; i < n; i++ {
				b = append(b, cat(T(80+i), gnss(i), be(3, 222222+i))...)
			}
			return b
		}, decode: func(d *Dec, n int) {
			d.U16("newest_record_index")
			d.list("records", n, func(d *Dec, i int) {
				d.Time("timestamp")
				d.gnssPlace("gnss_place_record")
				d.U24("vehicle_odometer_km")
			})
		}})
	add(EF{Name: "application_identification_v2 g2", Path: []string{"tachograph_g2", "application_identification_v2"}, FID: 0x0525, Appendix: 2, fixed: 10,
		Default: fixed(hx("0008044003200320012c")), decode: func(d *Dec, n int) {
			d.Set("card_type", "DRIVER_CARD")
			d.In("driver", func(d *Dec) {
				d.U16("length_of_following_data")
				d.U16("border_crossing_records_count")
				d.U16("load_unload_records_count")
				d.U16("load_type_entry_records_count")
				d.U16("vu_configuration_length_range")
			})
		}})
	return l
}()

// EFByName finds an elementary file.
func EFByName(name string) *EF {
	for i := range DriverEFs {
		if DriverEFs[i].Name == name {
			return &DriverEFs[i]
		}
	}
	panic("no elementary file " + name)
}
