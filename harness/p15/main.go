// P15: anonymised structures hold no personal data and still parse.
package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/dd"
	"github.com/way-platform/tachograph-go/internal/verifmc/ef"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	"github.com/way-platform/tachograph-go/internal/verifmc/ref"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func main() { mc.Main("P15", run) }

const epoch = 1577836800 // 2020-01-01

// kind says what anonymising does to a field.
type kind int

const (
	keep  kind = iota // comes out as it went in
	fixed             // comes out as a constant, when the message around it is there
	ifSet             // comes out as a constant when it is there at all
	floor             // is rounded down to a multiple of n
	gone              // never comes out
	any_              // not personal; may come out or not
)

type rule struct {
	kind kind
	n    int
	want func(i int) string // for fixed and ifSet; i is the record index
}

func con(s string) rule   { return rule{kind: fixed, want: func(int) string { return s }} }
func conIf(s string) rule { return rule{kind: ifSet, want: func(int) string { return s }} }
func round(n int) rule    { return rule{kind: floor, n: n} }
func clock(off, step int) rule {
	return rule{kind: fixed, want: func(i int) string { return "@" + strconv.Itoa(epoch+off+step*i) }}
}
func clockIf(off, step int) rule { r := clock(off, step); r.kind = ifSet; return r }

func str(s string, n int) map[string]string {
	return map[string]string{"": "{}", ".value": strconv.Quote(s), ".encoding": "ISO_8859_1", ".length": strconv.Itoa(n)}
}

// text adds the rules of a text that becomes a constant.
func text(m map[string]rule, path, s string, n int, ia5 bool) {
	for k, v := range str(s, n) {
		if ia5 && k == ".encoding" {
			continue
		}
		m[path+k] = con(v)
	}
	m[path+".raw_data"] = rule{kind: gone}
}

var (
	keepIt = rule{kind: keep}
	goneIt = rule{kind: gone}
)

// subject is one structure with its anonymise function.
type subject struct {
	name  string
	fn    func(proto.Message) proto.Message
	rules map[string]rule // by path with [] for indices; other fields are kept
	base  []func() proto.Message
	place string // where it goes in a driver card
}

func holder(base proto.Message, f func(id *cardv1.Identification)) func() proto.Message {
	return func() proto.Message {
		id := proto.Clone(base).(*cardv1.Identification)
		id.ClearDriverCardHolder()
		f(id)
		return id
	}
}

func sv(s string) *ddv1.StringValue {
	v := &ddv1.StringValue{}
	v.SetValue(s)
	v.SetEncoding(ddv1.Encoding_ISO_8859_5)
	v.SetLength(35)
	v.SetRawData([]byte(s + " raw"))
	return v
}

func ia5(s string) *ddv1.Ia5StringValue {
	v := &ddv1.Ia5StringValue{}
	v.SetValue(s)
	v.SetLength(int32(len(s)))
	v.SetRawData([]byte(s))
	return v
}

func parsed(name, path string, n int) func() proto.Message {
	e := ref.EFByName(name)
	data := ef.Card(e, e.Default(n))
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		panic(err)
	}
	m := ef.Sub(f.GetDriverCard(), path)
	return func() proto.Message { return proto.Clone(m) }
}

func subjects() []*subject {
	idRules := map[string]rule{
		"signature":                                          goneIt,
		"signature_verified":                                 goneIt,
		"card.card_issue_date":                               con("@1577836800"),
		"card.card_validity_begin":                           con("@1577836800"),
		"card.card_expiry_date":                              con("@1735689599"),
		"driver_card_holder.card_holder_birth_date":          con("{}"),
		"driver_card_holder.card_holder_birth_date.year":     con("2000"),
		"driver_card_holder.card_holder_birth_date.month":    con("1"),
		"driver_card_holder.card_holder_birth_date.day":      con("1"),
		"driver_card_holder.card_holder_birth_date.raw_data": con("x20000101"),
	}
	for _, p := range []string{"card_replacement_index", "card_renewal_index"} {
		for _, s := range []string{"", ".value", ".length", ".raw_data"} {
			idRules["card.driver_identification."+p+s] = rule{kind: any_}
		}
	}
	text(idRules, "card.driver_identification.driver_identification_number", "DRIVER00000001", 14, true)
	text(idRules, "card.owner_identification.owner_identification", "OWNER00000001", 13, true)
	text(idRules, "card.card_issuing_authority_name", "TEST_AUTHORITY", 35, false)
	for _, h := range []string{"driver", "workshop", "control"} {
		text(idRules, h+"_card_holder.card_holder_surname", "TEST_SURNAME", 35, false)
		text(idRules, h+"_card_holder.card_holder_first_names", "TEST_FIRSTNAME", 35, false)
	}
	text(idRules, "workshop_card_holder.workshop_name", "TEST_WORKSHOP", 35, false)
	text(idRules, "workshop_card_holder.workshop_address", "TEST_ADDRESS", 35, false)
	text(idRules, "control_card_holder.control_body_name", "TEST_CONTROL_BODY", 35, false)
	text(idRules, "control_card_holder.control_body_address", "TEST_ADDRESS", 35, false)
	text(idRules, "company_card_holder.company_name", "TEST_COMPANY", 35, false)
	text(idRules, "company_card_holder.company_address", "TEST_ADDRESS", 35, false)

	driver := parsed("identification", "tachograph.identification", 0)
	id := &subject{
		name:  "identification",
		fn:    func(m proto.Message) proto.Message { return card.AnonymizeIdentification(m.(*cardv1.Identification)) },
		rules: idRules,
		place: "identification",
		base: []func() proto.Message{
			driver,
			parsed("identification g2", "tachograph_g2.identification", 0),
			holder(driver(), func(id *cardv1.Identification) {
				id.SetCardType(cardv1.CardType_WORKSHOP_CARD)
				h := &cardv1.Identification_WorkshopCardHolder{}
				h.SetWorkshopName(sv("Verkstad"))
				h.SetWorkshopAddress(sv("Gatan 1"))
				h.SetCardHolderSurname(sv("Svensson"))
				h.SetCardHolderFirstNames(sv("Sven"))
				h.SetCardHolderPreferredLanguage(sv("sv"))
				id.SetWorkshopCardHolder(h)
				o := &ddv1.OwnerIdentification{}
				o.SetOwnerIdentification(ia5("ABCDEFGHIJKLM"))
				o.SetConsecutiveIndex(ia5("3"))
				o.SetReplacementIndex(ia5("4"))
				o.SetRenewalIndex(ia5("5"))
				id.GetCard().ClearDriverIdentification()
				id.GetCard().SetOwnerIdentification(o)
			}),
			holder(driver(), func(id *cardv1.Identification) {
				id.SetCardType(cardv1.CardType_CONTROL_CARD)
				h := &cardv1.Identification_ControlCardHolder{}
				h.SetControlBodyName(sv("Polisen"))
				h.SetControlBodyAddress(sv("Gatan 2"))
				h.SetCardHolderSurname(sv("Karlsson"))
				h.SetCardHolderFirstNames(sv("Karl"))
				h.SetCardHolderPreferredLanguage(sv("sv"))
				id.SetControlCardHolder(h)
			}),
			holder(driver(), func(id *cardv1.Identification) {
				id.SetCardType(cardv1.CardType_COMPANY_CARD)
				h := &cardv1.Identification_CompanyCardHolder{}
				h.SetCompanyName(sv("Bolaget"))
				h.SetCompanyAddress(sv("Gatan 3"))
				h.SetCardHolderPreferredLanguage(sv("sv"))
				id.SetCompanyCardHolder(h)
			}),
			func() proto.Message { return &cardv1.Identification{} },
		},
	}

	vehRules := map[string]rule{
		"raw_data": goneIt, "signature": goneIt, "signature_verified": goneIt,
		"records[].raw_data":                  goneIt,
		"records[].vehicle_odometer_begin_km": round(1000),
		"records[].vehicle_odometer_end_km":   round(1000),
		"records[].vehicle_first_use":         clock(0, 86400),
		"records[].vehicle_last_use":          clock(86399, 86400),
	}
	text(vehRules, "records[].vehicle_registration.number", "TEST-VRN", 13, false)
	noVehicles := func() proto.Message { return &cardv1.VehiclesUsed{} }
	veh := &subject{
		name:  "vehicles_used",
		fn:    func(m proto.Message) proto.Message { return card.AnonymizeVehiclesUsed(m.(*cardv1.VehiclesUsed)) },
		rules: vehRules, place: "vehicles_used",
		base: []func() proto.Message{parsed("vehicles_used", "tachograph.vehicles_used", 2), noVehicles},
	}

	places := func(g2 bool) map[string]rule {
		m := map[string]rule{
			"raw_data": goneIt, "signature": goneIt, "signature_verified": goneIt,
			"records[].raw_data":                               goneIt,
			"records[].valid":                                  {kind: any_}, // never set by parsing
			"records[].entry_time":                             clockIf(0, 3600),
			"records[].daily_work_period_country":              con("FINLAND"),
			"records[].unrecognized_daily_work_period_country": goneIt,
			"records[].daily_work_period_region":               con("x01"),
			"records[].vehicle_odometer_km":                    round(100),
		}
		if g2 {
			m["records[].entry_gnss_place_record.timestamp"] = clockIf(0, 3600)
			m["records[].entry_gnss_place_record.raw_data"] = goneIt
			m["records[].entry_gnss_place_record.geo_coordinates"] = con("{}")
			m["records[].entry_gnss_place_record.geo_coordinates.latitude"] = con("60100")
			m["records[].entry_gnss_place_record.geo_coordinates.longitude"] = con("24560")
		}
		return m
	}
	p1 := &subject{
		name:  "places",
		fn:    func(m proto.Message) proto.Message { return card.AnonymizePlaces(m.(*cardv1.Places)) },
		rules: places(false), place: "places",
		base: []func() proto.Message{parsed("places", "tachograph.places", 2), func() proto.Message { return &cardv1.Places{} }},
	}
	p2 := &subject{
		name:  "places g2",
		fn:    func(m proto.Message) proto.Message { return card.AnonymizePlacesG2(m.(*cardv1.PlacesG2)) },
		rules: places(true), place: "places",
		base: []func() proto.Message{parsed("places g2", "tachograph_g2.places", 2), func() proto.Message { return &cardv1.PlacesG2{} }},
	}

	act := func() proto.Message {
		a := &ddv1.ActivityChangeInfo{}
		a.SetSlot(ddv1.CardSlotNumber_CO_DRIVER_SLOT)
		a.SetCrew(true)
		a.SetInserted(true)
		a.SetActivity(ddv1.DriverActivityValue_WORK)
		a.SetTimeOfChangeMinutes(777)
		return a
	}
	var subs []*subject
	subs = append(subs, id, veh, p1, p2)
	for _, i := range []int{0, 1, 47, 48, 100} {
		subs = append(subs, &subject{
			name: "activity change " + strconv.Itoa(i),
			fn: func(m proto.Message) proto.Message {
				return dd.AnonymizeActivityChangeInfo(m.(*ddv1.ActivityChangeInfo), i)
			},
			rules: map[string]rule{"time_of_change_minutes": con(strconv.Itoa(i * 30 % 1440)), "raw_data": goneIt},
			base:  []func() proto.Message{act},
		})
	}
	di := map[string]rule{}
	for k, v := range idRules {
		if s, ok := strings.CutPrefix(k, "card.driver_identification."); ok {
			di[s] = v
		}
	}
	subs = append(subs, &subject{
		name: "driver identification",
		fn: func(m proto.Message) proto.Message {
			return dd.AnonymizeDriverIdentification(m.(*ddv1.DriverIdentification))
		},
		rules: di,
		base:  []func() proto.Message{func() proto.Message { return driver().(*cardv1.Identification).GetCard().GetDriverIdentification() }},
	})
	return subs
}

var index = regexp.MustCompile(`\[(\d+)\]`)

func parentThere(f mc.Flat, p string) bool {
	i := strings.LastIndexByte(p, '.')
	if i < 0 {
		return true
	}
	_, ok := f[p[:i]]
	return ok
}

// expect is what anonymising in must give, without raw data.
func (s *subject) expect(in mc.Flat) mc.Flat {
	out := mc.Flat{}
	var recs []int
	for p, v := range in {
		g := mc.Generic(p)
		r, ok := s.rules[g]
		// A field under a constant or unrestricted message has a rule of its own, or goes.
		if !ok && s.under(g) {
			continue
		}
		switch {
		case !ok || r.kind == keep:
			out[p] = v
		case r.kind == floor:
			n, _ := strconv.Atoi(v)
			out[p] = strconv.Itoa(n / r.n * r.n)
		}
		if m := index.FindStringSubmatch(p); m != nil && strings.HasSuffix(p, "]") {
			i, _ := strconv.Atoi(m[1])
			recs = append(recs, i)
		}
	}
	sort.Ints(recs)
	// Constants, from the outside in.
	var gen []string
	for g := range s.rules {
		gen = append(gen, g)
	}
	sort.Strings(gen)
	for _, g := range gen {
		r := s.rules[g]
		if r.kind != fixed && r.kind != ifSet {
			continue
		}
		idx := []int{0}
		if strings.Contains(g, "[]") {
			idx = recs
		}
		for _, i := range idx {
			p := strings.Replace(g, "[]", "["+strconv.Itoa(i)+"]", 1)
			if !parentThere(out, p) {
				continue
			}
			if _, ok := in[p]; r.kind == ifSet && !ok {
				// The first record always gets a time.
				if !(i == 0 && strings.HasSuffix(p, "entry_time")) {
					continue
				}
			}
			out[p] = r.want(i)
		}
	}
	// Only the holder that goes with the card type comes out.
	if s.name == "identification" {
		for typ, h := range map[string]string{"DRIVER_CARD": "driver", "WORKSHOP_CARD": "workshop", "CONTROL_CARD": "control", "COMPANY_CARD": "company"} {
			if in["card_type"] == typ {
				continue
			}
			for p := range out {
				if strings.HasPrefix(p, h+"_card_holder") {
					delete(out, p)
				}
			}
		}
	}
	return out
}

// under says whether the path lies inside a text that is replaced.
func (s *subject) under(g string) bool {
	for i := strings.LastIndexByte(g, '.'); i >= 0; i = strings.LastIndexByte(g[:i], '.') {
		if r, ok := s.rules[g[:i]]; ok && r.kind != keep {
			return true
		}
	}
	return false
}

// canon replaces everything personal in the input by filler.
func (s *subject) canon(m proto.Message) proto.Message {
	m = proto.Clone(m)
	s.canonIn(m.ProtoReflect(), "")
	return m
}

func (s *subject) canonIn(m protoreflect.Message, prefix string) {
	var fds []protoreflect.FieldDescriptor
	m.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool { fds = append(fds, fd); return true })
	for _, fd := range fds {
		p := prefix + string(fd.Name())
		if fd.IsList() {
			if fd.Message() != nil {
				l := m.Get(fd).List()
				for i := 0; i < l.Len(); i++ {
					s.canonIn(l.Get(i).Message(), p+"[].")
				}
			}
			continue
		}
		r, ok := s.rules[p]
		switch {
		case !ok || r.kind == keep:
			if s.under(p) {
				m.Clear(fd)
			} else if fd.Message() != nil && fd.Message().FullName() != "google.protobuf.Timestamp" {
				s.canonIn(m.Mutable(fd).Message(), p+".")
			}
		case r.kind == floor:
			n := m.Get(fd).Int()
			m.Set(fd, protoreflect.ValueOfInt32(int32(n/int64(r.n)*int64(r.n))))
		case r.kind == gone, r.kind == any_:
			m.Clear(fd)
		case r.kind == fixed:
			m.Clear(fd)
		case r.kind == ifSet:
			if fd.Message() == nil {
				panic("ifSet on a scalar")
			}
			m.Set(fd, protoreflect.ValueOfMessage((&timestamppb.Timestamp{Seconds: 1}).ProtoReflect()))
		}
	}
}

// judge anonymises in and compares.
func (s *subject) judge(c *mc.Ch, in proto.Message, name string) proto.Message {
	before := proto.Clone(in)
	out := s.fn(in)
	if !proto.Equal(before, in) {
		_, d := mc.Diff(mc.Flatten(before), mc.Flatten(in))
		c.Fail(s.name+": changes its input", "diff", d, "input", before)
	}
	all := mc.Flatten(out)
	c.Visit(mc.HashS(fmt.Sprint(all)))
	want := s.expect(mc.Flatten(in))
	got := mc.Flat{}
	for p, v := range all {
		r, ok := s.rules[mc.Generic(p)]
		if ok && r.kind == any_ {
			if w, ok := mc.Flatten(in)[p]; !ok || w != v {
				if v != "{}" {
					c.Fail(s.name+": "+mc.Generic(p)+" invented", "value", v, "input", before)
				}
			}
			continue
		}
		if strings.HasSuffix(p, "raw_data") && !(ok && r.kind == fixed) {
			// Judged by comparing two runs and by parsing again.
			if _, kept := want[p]; !kept {
				continue
			}
		}
		got[p] = v
	}
	if p, d := mc.Diff(want, got); p != "" {
		c.Fail(s.name+": "+p, "diff", d, "input", before)
	}
	// Two inputs that differ only in personal data give the same.
	other := s.canon(in)
	out2 := s.fn(other)
	if !proto.Equal(s.strip(out), s.strip(out2)) {
		_, d := mc.Diff(mc.Flatten(out2), all)
		p, _ := mc.Diff(mc.Flatten(out2), all)
		c.Fail(s.name+": depends on personal data: "+p, "diff", d, "input", before)
	}
	c.Outcome(strconv.FormatUint(mc.HashS(fmt.Sprint(got)), 16))
	// Anonymising again changes nothing.
	again := s.fn(out)
	if !proto.Equal(s.strip(out), s.strip(again)) {
		p, d := mc.Diff(all, mc.Flatten(again))
		c.Fail(s.name+": anonymising again changes it: "+p, "diff", d, "input", before)
	}
	return out
}

// strip removes what may come out or not.
func (s *subject) strip(m proto.Message) proto.Message {
	m = proto.Clone(m)
	for _, p := range []string{"card.driver_identification", ""} {
		if id, ok := m.(*cardv1.Identification); ok && p != "" {
			if d := id.GetCard().GetDriverIdentification(); d != nil {
				d.ClearCardReplacementIndex()
				d.ClearCardRenewalIndex()
			}
		}
	}
	if d, ok := m.(*ddv1.DriverIdentification); ok {
		d.ClearCardReplacementIndex()
		d.ClearCardRenewalIndex()
	}
	return m
}

// emptySig is an empty signature record of the vehicles used.
const emptySig = "\x05\x05\x01\x00\x00"

// reparse puts the anonymised structure into a card, marshals and parses it.
func (s *subject) reparse(c *mc.Ch, name string, orig, data []byte, g2 bool, out proto.Message) {
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		panic(err)
	}
	app := "tachograph."
	if g2 {
		app = "tachograph_g2."
	}
	if id, ok := out.(*cardv1.Identification); ok && id.GetCardType() != cardv1.CardType_DRIVER_CARD {
		c.Outcome("not a driver card's number")
		return
	}
	ef.Set(f.GetDriverCard(), app+s.place, out)
	mout, err := tachograph.MarshalFile(f)
	if err != nil {
		if f, _ := tachograph.UnmarshalFile(data); f != nil {
			if _, err2 := tachograph.MarshalFile(f); err2 != nil && err2.Error() == err.Error() {
				c.Outcome("neither it nor the original marshals")
				return
			}
		}
		c.Fail(name+": anonymised, does not marshal: "+ef.Class(err), "error", err.Error(), "file", data)
	}
	g, err := tachograph.UnmarshalFile(mout)
	if err != nil {
		c.Fail(name+": anonymised and marshalled, does not parse: "+ef.Class(err), "error", err.Error(), "file", data, "output", mout)
	}
	if len(mout) == len(data)+5 && strings.HasPrefix(name, "vehicles_used") && string(mout[len(data):]) == emptySig {
		// Reported once, by a section of its own.
		mout = mout[:len(data)]
	}
	if len(mout) != len(data) {
		c.Fail(name+": anonymised and marshalled, has another length", "file", data, "output", mout)
	}
	// What parses again is the structure alone.
	if g, err = tachograph.UnmarshalFile(mout); err != nil {
		c.Fail(name+": anonymised and marshalled, does not parse: "+ef.Class(err), "error", err.Error(), "file", data, "output", mout)
	}
	back := ef.Sub(g.GetDriverCard(), app+s.place)
	a := mc.Flatten(s.strip(out), "raw_data", "signature")
	b := mc.Flatten(s.strip(back), "raw_data", "signature")
	if p, d := mc.Diff(a, b); p != "" {
		c.Fail(name+": anonymised, marshalled and parsed: "+p, "diff", d, "file", data, "output", mout)
	}
}

var _ = tachographv1.File{}

// leafEdits lists every field of m (recursively) with the values it may take.
type edit struct {
	path string
	msg  protoreflect.Message
	fd   protoreflect.FieldDescriptor
}

func edits(m protoreflect.Message, prefix string, out *[]edit) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		p := prefix + string(fd.Name())
		*out = append(*out, edit{p, m, fd})
		if fd.IsList() {
			if fd.Message() != nil {
				l := m.Get(fd).List()
				for j := 0; j < l.Len(); j++ {
					edits(l.Get(j).Message(), p+"["+strconv.Itoa(j)+"].", out)
				}
			}
			continue
		}
		if fd.Message() != nil && m.Has(fd) {
			edits(m.Get(fd).Message(), p+".", out)
		}
	}
}

// alter gives a field another value; v 0 keeps it.
func (e edit) alter(v int) bool {
	if v == 0 {
		return true
	}
	v--
	if e.fd.IsList() {
		l := e.msg.Mutable(e.fd).List()
		switch v {
		case 0:
			e.msg.Clear(e.fd)
		case 1:
			if l.Len() > 0 {
				l.Append(l.Get(0))
			}
		case 2:
			if e.fd.Message() != nil {
				l.Append(l.NewElement())
			}
		default:
			return false
		}
		return true
	}
	switch e.fd.Kind() {
	case protoreflect.MessageKind:
		switch v {
		case 0:
			if e.msg.Has(e.fd) {
				e.msg.Clear(e.fd)
			} else {
				e.msg.Set(e.fd, e.msg.NewField(e.fd))
			}
		case 1:
			e.msg.Set(e.fd, e.msg.NewField(e.fd))
		default:
			return false
		}
	case protoreflect.EnumKind:
		vs := e.fd.Enum().Values()
		if v >= vs.Len() {
			return false
		}
		e.msg.Set(e.fd, protoreflect.ValueOfEnum(vs.Get(v).Number()))
	case protoreflect.BoolKind:
		if v > 0 {
			return false
		}
		e.msg.Set(e.fd, protoreflect.ValueOfBool(!e.msg.Get(e.fd).Bool()))
	case protoreflect.StringKind:
		xs := []string{"", "X", "Ünïcödé Ж 日本", strings.Repeat("long ", 20), "TEST-VRN", "\x00\x00"}
		if v >= len(xs) {
			return false
		}
		e.msg.Set(e.fd, protoreflect.ValueOfString(xs[v]))
	case protoreflect.BytesKind:
		xs := [][]byte{nil, {0}, {0xFF}, {1, 2, 3, 4, 5}, make([]byte, 31), []byte(strings.Repeat("x", 21)), []byte("0123456789"), []byte(strings.Repeat("personal", 8))}
		if v >= len(xs) {
			return false
		}
		if xs[v] == nil {
			e.msg.Clear(e.fd)
		} else {
			e.msg.Set(e.fd, protoreflect.ValueOfBytes(xs[v]))
		}
	case protoreflect.Int32Kind:
		xs := []int32{0, 1, 99, 100, 101, 999, 1000, 1999, 999999, 0xFFFFFF, 1 << 24, math.MaxInt32}
		if v >= len(xs) {
			return false
		}
		if e.fd.Name() == "length" && xs[v] > 2000 {
			return false // a length of gigabytes is no content of a card
		}
		e.msg.Set(e.fd, protoreflect.ValueOfInt32(xs[v]))
	case protoreflect.Int64Kind:
		xs := []int64{0, 1, 4294967295, 1 << 40, -1, epoch}
		if v >= len(xs) {
			return false
		}
		e.msg.Set(e.fd, protoreflect.ValueOfInt64(xs[v]))
	default:
		return false
	}
	return true
}

const maxAlter = 16

func run(k *mc.Check) {
	subs := subjects()
	for _, s := range subs {
		for bi, base := range s.base {
			title := s.name
			if len(s.base) > 1 {
				title += " " + strconv.Itoa(bi)
			}
			for depth := 1; depth <= mc.Pick2(k, 2, 3); depth++ {
				if depth == 3 && bi > 0 {
					continue
				}
				k.Explore(fmt.Sprintf("%s: %d fields set, cleared or changed", title, depth), 0, func(c *mc.Ch) {
					m := base()
					last := -1
					for i := 0; i < depth; i++ {
						var es []edit
						edits(m.ProtoReflect(), "", &es)
						at := c.Free(len(es))
						if at < last { // unordered
							return
						}
						last = at
						vals := maxAlter
						if e := es[at]; e.fd.Kind() == protoreflect.EnumKind && depth == 1 {
							vals = e.fd.Enum().Values().Len() + 1
						}
						if depth == 3 {
							vals = 5
						}
						v := c.Free(vals)
						if v == 0 && depth > 1 || !es[at].alter(v) {
							return
						}
						c.Log("%s value %d", es[at].path, v)
					}
					s.judge(c, m, title)
				})
			}
		}
	}
	// From bytes: every value in any byte, edge values in two.
	for _, n := range []string{"identification", "identification g2", "vehicles_used", "places", "places g2"} {
		e := ref.EFByName(n)
		g2 := strings.HasSuffix(n, "g2")
		base := strings.TrimSuffix(n, " g2")
		var s *subject
		for _, x := range subs {
			if x.name == base || (x.name == n) {
				s = x
			}
		}
		one := func(c *mc.Ch, content []byte) {
			data := ef.Card(e, content)
			f, err := tachograph.UnmarshalFile(data)
			if err != nil || f.GetDriverCard() == nil {
				c.Outcome("refused")
				return
			}
			app := "tachograph."
			if g2 {
				app = "tachograph_g2."
			}
			m := ef.Sub(f.GetDriverCard(), app+s.place)
			if m == nil {
				c.Outcome("absent")
				return
			}
			out := s.judge(c, m, n)
			s.reparse(c, n, content, data, g2, out)
		}
		cnt := 0
		if e.Record > 0 {
			cnt = 2
		}
		b0 := e.Default(cnt)
		k.Explore(n+" from a card: any value in any byte", 1, func(c *mc.Ch) {
			b := append([]byte(nil), b0...)
			ef.Mutate(c, b, 0, len(b), 256)
			one(c, b)
		})
		k.Explore(n+" from a card: edge values in any two bytes", 2, func(c *mc.Ch) {
			b := append([]byte(nil), b0...)
			ef.Mutate(c, b, 0, len(b), mc.Pick2(k, 3, 12))
			one(c, b)
		})
		if e.Record > 0 {
			k.Explore(n+" from a card: blank, full and used records in every arrangement", 0, func(c *mc.Ch) {
				cnt := c.Free(mc.Pick2(k, 5, 7))
				b := e.Default(cnt)
				for i := 0; i < cnt; i++ {
					r := b[e.Header+i*e.Record : e.Header+(i+1)*e.Record]
					switch c.Free(4) {
					case 1:
						clear(r)
					case 2:
						for j := range r {
							r[j] = 0xFF
						}
					case 3:
						copy(r, b[e.Header:e.Header+e.Record])
					}
				}
				one(c, b)
			})
			k.Explore(n+" from a card: every number of records", 0, func(c *mc.Ch) {
				one(c, e.Default(c.Free(mc.Pick2(k, 201, 1201))))
			})
		}
	}
	k.Explore("vehicles_used: the signature goes", 0, func(c *mc.Ch) {
		e := ref.EFByName("vehicles_used")
		content := e.Default(c.Free(3))
		data := ef.Card(e, content)
		if c.Free(2) == 1 {
			data = append(append(data, 5, 5, 1, 0, 128), make([]byte, 128)...)
		}
		f, err := tachograph.UnmarshalFile(data)
		if err != nil {
			c.Fail("vehicles_used: refused", "error", err.Error())
		}
		a := card.AnonymizeVehiclesUsed(f.GetDriverCard().GetTachograph().GetVehiclesUsed())
		f.GetDriverCard().GetTachograph().SetVehiclesUsed(a)
		out, err := tachograph.MarshalFile(f)
		if err != nil {
			c.Fail("vehicles_used: anonymised, does not marshal: "+ef.Class(err), "error", err.Error())
		}
		rec, ok := ref.Split(out)
		if !ok {
			c.Fail("vehicles_used: anonymised and marshalled, does not split", "output", out)
		}
		for _, r := range rec {
			if r.FID == 0x0505 && r.Appendix == 1 {
				c.Fail(fmt.Sprintf("vehicles_used: anonymised and marshalled, has a signature record of %d bytes", len(r.Value)), "output", out)
			}
		}
	})
	// Nothing to anonymise.
	k.Explore("absent structures", 0, func(c *mc.Ch) {
		nils := []bool{
			card.AnonymizeIdentification(nil) == nil, card.AnonymizeVehiclesUsed(nil) == nil,
			card.AnonymizePlaces(nil) == nil, card.AnonymizePlacesG2(nil) == nil,
			dd.AnonymizePlaceRecord(nil) == nil, dd.AnonymizePlaceRecordG2(nil) == nil,
			dd.AnonymizeCardVehicleRecord(nil, 3) == nil, dd.AnonymizeDriverIdentification(nil) == nil,
			dd.AnonymizeActivityChangeInfo(nil, 3) == nil, dd.AnonymizeGNSSPlaceRecord(nil) == nil,
		}
		i := c.Free(len(nils))
		if !nils[i] {
			c.Fail("an absent structure does not stay absent", "function", i)
		}
	})
	k.Assume("the documented anonymisation (constants for identity, rounding for odometers, preserved countries and structural fields) is what users rely on")
	k.Assume("the library offers anonymisation for identification, vehicles used and places (both generations) and the data types in them; other structures have none to check")
}
