package ref

// Transfer is one block of a vehicle unit download.
type Transfer struct {
	TREP byte
	B    []byte
}

// JoinVU writes a vehicle unit download.
func JoinVU(ts []Transfer) []byte {
	var b []byte
	for _, t := range ts {
		b = append(b, 0x76, t.TREP)
		b = append(b, t.B...)
	}
	return b
}

// Sig is a stand-in for a 128-byte signature.
func Sig(k int) []byte {
	b := make([]byte, 128)
	for i := range b {
		b[i] = byte(i*7 + k*13 + 1)
	}
	return b
}

// FullCard is a full card number and generation-less holder of n.
func fullCard(k int) []byte {
	if k%3 == 2 {
		return cat([]byte{4, 13}, pad(13, "FIRMA00000012"), []byte("100"))
	}
	return cat([]byte{1, []byte{13, 18, 44}[k%3]}, pad(14, "DF000012345670"), []byte("01"))
}

// Activities1 makes a generation 1 daily activity transfer.
func Activities1(iw, changes, places, conds int) []byte {
	b := cat(T(3), be(3, 543210), be(2, iw))
	for i := 0; i < iw; i++ {
		b = append(b, cat(str(1, 36, "M\xfcller"), str(2, 36, "Anna"), fullCard(i), []byte{0x20, 0x26, byte(1 + i%9), byte(0x10 + i%10)}, T(10+i), be(3, 1000*i+17), []byte{byte(i % 2)}, T(11+i), be(3, 1000*i+99), reg(i), T(5+i), []byte{byte(i / 2 % 2)})...)
	}
	b = append(b, be(2, changes)...)
	for i := 0; i < changes; i++ {
		b = append(b, be(2, (i*97)%1440|i%4<<11|i%2<<13|i/3%2<<14|i/2%2<<15)...)
	}
	b = append(b, byte(places))
	for i := 0; i < places; i++ {
		b = append(b, cat(fullCard(i), T(20+i), []byte{byte(i % 4), byte(13 + i%4), byte(1 + i%7)}, be(3, 543000+i))...)
	}
	b = append(b, be(2, conds)...)
	for i := 0; i < conds; i++ {
		b = append(b, cat(T(30+i), []byte{byte(1 + i%4)})...)
	}
	return append(b, Sig(1)...)
}

// Overview1 makes a generation 1 overview transfer.
func Overview1(locks, controls int) []byte {
	b := cat(Noise(194, 3), Noise(194, 5), []byte("WDB96340310123456"), reg(0), T(400), T(2), T(399), []byte{0x12},
		T(350), []byte{4, 13}, []byte("FIRMA000000120AB"[:16]), str(2, 36, "Sp\xf3\xb3ka Transportowa"))
	b = append(b, byte(locks))
	for i := 0; i < locks; i++ {
		b = append(b, cat(T(60+i), T(70+i), str(1, 36, "Spedition M\xfcller"), str(9, 36, "Stra\xdfe 1"), []byte{4, 18}, []byte("COMPANY-00012345")[:16])...)
	}
	b = append(b, byte(controls))
	for i := 0; i < controls; i++ {
		b = append(b, cat([]byte{byte(0x80 >> (i % 5))}, T(80+i), []byte{3, 44}, []byte("CTRL-4711-BODY01"), T(81+i), T(90+i))...)
	}
	return append(b, Sig(0)...)
}

// Noise is n bytes that depend on k.
func Noise(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31 + k*101 + i/256*7)
	}
	return b
}

// Faults1 makes a generation 1 events and faults transfer.
func Faults1(faults, events, speeding, adjust int) []byte {
	return cat([]byte{byte(faults)}, Noise(82*faults, 1), []byte{byte(events)}, Noise(83*events, 2), Noise(9, 3),
		[]byte{byte(speeding)}, Noise(31*speeding, 4), []byte{byte(adjust)}, Noise(98*adjust, 5), Sig(2))
}

// Speed1 makes a generation 1 detailed speed transfer.
func Speed1(blocks int) []byte { return cat(be(2, blocks), Noise(64*blocks, 1), Sig(3)) }

// Technical1 makes a generation 1 technical data transfer.
func Technical1(calibrations int) []byte {
	return cat(Noise(136, 1), []byte{byte(calibrations)}, Noise(167*calibrations, 2), Sig(4))
}

// Array is a record array with its header.
func Array(typ byte, size, count int) []byte {
	return cat([]byte{typ}, be(2, size), be(2, count), Noise(size*count, int(typ)))
}

// Transfer2 lists, per generation 2 transfer, the type and size of the records
// of each of its arrays.
var Transfer2 = map[byte][][2]int{
	0x21: {{4, 205}, {17, 205}, {10, 17}, {11, 15}, {3, 4}, {19, 8}, {2, 1}, {20, 59}, {18, 99}, {6, 32}, {8, 64}},
	0x31: {{4, 205}, {17, 205}, {10, 17}, {36, 14}, {3, 4}, {19, 8}, {2, 1}, {20, 59}, {18, 99}, {6, 32}, {8, 64}},
	0x22: {{3, 4}, {5, 3}, {13, 131}, {1, 2}, {28, 41}, {22, 58}, {9, 5}, {8, 64}},
	0x32: {{3, 4}, {5, 3}, {13, 131}, {1, 2}, {28, 41}, {22, 58}, {9, 5}, {34, 55}, {35, 60}, {8, 64}},
	0x23: {{24, 89}, {21, 91}, {26, 9}, {27, 32}, {30, 99}, {8, 64}},
	0x33: {{24, 89}, {21, 91}, {26, 9}, {27, 32}, {30, 99}, {8, 64}},
	0x24: {{33, 64}, {8, 64}},
	0x25: {{25, 124}, {15, 28}, {16, 28}, {12, 206}, {37, 36}, {38, 20}, {39, 87}, {8, 64}},
	0x35: {{25, 128}, {15, 28}, {16, 28}, {12, 255}, {37, 36}, {38, 20}, {39, 87}, {8, 64}},
}

// Gen2 makes a generation 2 transfer; count gives the records of its i-th array.
func Gen2(trep byte, count func(i int) int) []byte {
	var b []byte
	for i, a := range Transfer2[trep] {
		b = append(b, Array(byte(a[0]), a[1], count(i))...)
	}
	return b
}

// sized are the fixed parts and counted sections of generation 1 transfers:
// skip, then a count of width bytes, then records of a size.
type section struct{ skip, width, size int }

var sections = map[byte][]section{
	1: {{491, 1, 98}, {0, 1, 31}},
	2: {{7, 2, 129}, {0, 2, 2}, {0, 1, 28}, {0, 2, 5}},
	3: {{0, 1, 82}, {0, 1, 83}, {9, 1, 31}, {0, 1, 98}},
	4: {{0, 2, 64}},
	5: {{136, 1, 167}},
}

// Arrays is the number of record arrays of a generation 2 transfer.
var Arrays = map[byte]int{0x21: 11, 0x31: 11, 0x22: 8, 0x32: 10, 0x23: 6, 0x33: 6, 0x24: 2, 0x25: 8, 0x35: 8}

// size is the length of the transfer at the start of b, or -1 if it does not fit.
func size(trep byte, b []byte) int {
	o := 0
	fit := func(n int) bool { o += n; return o <= len(b) }
	if secs, ok := sections[trep]; ok {
		for _, s := range secs {
			if !fit(s.skip) || !fit(s.width) || !fit(s.size*U(b[o-s.width:o])) {
				return -1
			}
		}
		if !fit(128) {
			return -1
		}
		return o
	}
	if n, ok := Arrays[trep]; ok {
		for i := 0; i < n; i++ {
			if !fit(5) || !fit(U(b[o-4:o-2])*U(b[o-2:o])) {
				return -1
			}
		}
		return o
	}
	if trep == 0 && fit(2) {
		return o
	}
	return -1
}

// SplitVU splits a vehicle unit download; ok is false if it does not consist
// of whole transfers (a card download counts as none).
func SplitVU(b []byte) (ts []Transfer, ok bool) {
	for len(b) > 0 {
		if len(b) < 2 || b[0] != 0x76 {
			return nil, false
		}
		n := size(b[1], b[2:])
		if n < 0 {
			return nil, false
		}
		ts = append(ts, Transfer{b[1], b[2 : 2+n]})
		b = b[2+n:]
	}
	return ts, len(ts) > 0
}

// Slot card types and slot numbers.
var (
	SlotCard   = map[int]string{0: "NO_CARD", 1: "DRIVER_CARD_INSERTED", 2: "WORKSHOP_CARD_INSERTED", 3: "CONTROL_CARD_INSERTED", 4: "COMPANY_CARD_INSERTED"}
	SlotNumber = map[int]string{0: "DRIVER_SLOT", 1: "CO_DRIVER_SLOT"}
)

func (d *Dec) nibble(name string, v int) {
	if n, ok := SlotCard[v]; ok {
		d.Set(name, n)
		return
	}
	*d.May = true
	d.W[d.P+name] = Exp{F: unrecognised, Unk: true}
}

// WantOverview1 decodes a generation 1 overview; may says that it holds a code
// without a meaning, so that it may be refused.
func WantOverview1(b []byte) (w Want, may bool) { return overview1(b, nil) }

// Overview1Fields gives the start and end of each field of an overview.
func Overview1Fields(b []byte) (t [][2]int) {
	overview1(b, &t)
	return
}

func overview1(b []byte, trace *[][2]int) (w Want, may bool) {
	w = Want{}
	d := NewDec(b, w, "", &may)
	d.Trace = trace
	d.Bytes("member_state_certificate", 194)
	d.Bytes("vu_certificate", 194)
	d.Ia5("vehicle_identification_number", 17)
	d.Reg("vehicle_registration_with_nation")
	d.Time("current_date_time")
	d.Time("downloadable_period.min_time")
	d.Time("downloadable_period.max_time")
	s := d.Take(1)[0]
	d.nibble("driver_slot_card", int(s&15))
	d.nibble("co_driver_slot_card", int(s>>4))
	d.list("download_activities", 1, func(d *Dec, i int) {
		d.Time("downloading_time")
		d.FullCardNumber("full_card_number")
		d.Str("company_or_workshop_name", 36)
	})
	d.list("company_locks", U(d.Take(1)), func(d *Dec, i int) {
		d.Time("lock_in_time")
		d.Time("lock_out_time")
		d.Str("company_name", 36)
		d.Str("company_address", 36)
		d.FullCardNumber("company_card_number")
	})
	d.list("control_activities", U(d.Take(1)), func(d *Dec, i int) {
		ct := d.Take(1)[0]
		d.In("control_type", func(d *Dec) {
			d.Bool("card_downloading", ct&0x80 != 0)
			d.Bool("vu_downloading", ct&0x40 != 0)
			d.Bool("printing", ct&0x20 != 0)
			d.Bool("display", ct&0x10 != 0)
			d.Bool("calibration_checking", ct&0x08 != 0)
		})
		d.Time("control_time")
		d.FullCardNumber("control_card_number")
		d.Time("download_period_begin_time")
		d.Time("download_period_end_time")
	})
	d.Bytes("signature", 128)
	return
}

// WantActivities1 decodes a generation 1 daily activity transfer, apart from
// the change words, which it returns.
func WantActivities1(b []byte) (w Want, words []byte, may bool) { return activities1(b, nil) }

// Activities1Fields gives the start and end of each field of a day.
func Activities1Fields(b []byte) (t [][2]int) {
	activities1(b, &t)
	return
}

// cardIW is an insertion and withdrawal of a card.
func (d *Dec) cardIW() {
	d.Str("card_holder_name.holder_surname", 36)
	d.Str("card_holder_name.holder_first_names", 36)
	d.FullCardNumber("full_card_number")
	d.Date("card_expiry_date")
	d.Time("card_insertion_time")
	d.U24("odometer_at_insertion_km")
	d.Enum("card_slot_number", "", SlotNumber)
	d.Time("card_withdrawal_time")
	d.U24("odometer_at_withdrawal_km")
	d.Reg("previous_vehicle_info.vehicle_registration")
	d.Time("previous_vehicle_info.card_withdrawal_time")
	switch f := d.Take(1)[0]; f {
	case 0, 1:
		d.Bool("manual_input_flag", f == 1)
	default: // not defined
		d.Any("manual_input_flag")
	}
}

func activities1(b []byte, trace *[][2]int) (w Want, words []byte, may bool) {
	w = Want{}
	d := NewDec(b, w, "", &may)
	d.Trace = trace
	d.Time("date_of_day")
	d.U24("odometer_midnight_km")
	d.list("card_iw_data", U(d.Take(2)), func(d *Dec, i int) {
		d.cardIW()
	})
	words = d.Take(2 * U(d.Take(2)))
	d.list("places", U(d.Take(1)), func(d *Dec, i int) {
		d.Take(18)
		d.Time("entry_time")
		d.Enum("entry_type", "", EntryType)
		d.Enum("country", "", Nation)
		d.Bytes("region", 1)
		d.U24("odometer_km")
	})
	d.list("specific_conditions", U(d.Take(2)), func(d *Dec, i int) { d.condition() })
	d.Bytes("signature", 128)
	return
}
