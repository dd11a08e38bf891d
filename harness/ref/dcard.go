package ref

import "fmt"

// Place is a place of a driver card file: an elementary file of one application.
type Place struct {
	Name     string
	FID      uint16
	Appendix byte // of the data record
	Signed   bool // may be followed by a signature
	Path     []string
	EF       *EF // nil: certificate or activity buffer
	// Content gives typical contents; different k, different contents.
	Content func(k int) []byte
}

// Cards certificates have one of these authorities.
var certRSA = []string{"msca-1", "msca-2"}

func tweak(b []byte, i, k int) []byte {
	b = cat(b)
	b[i] ^= byte(k)
	return b
}

// GoodRSACert is a genuine certificate of chr by the authority of that name.
func GoodRSACert(authority string, car, chr uint64, holder string) []byte {
	h := RSAOf(holder)
	return RSACert(RSAOf(authority), RSAContent(car, chr, 1900000000, h.Mod(), h.Exp()), car)
}

// GoodECCert is a genuine certificate.
func GoodECCert(c *Curve, authority string, car, chr uint64, holder string) []byte {
	b := NewECBody(ECOf(c, holder), car, chr).DER()
	return ECCert(b, ECOf(c, authority).Sign(b))
}

// Slots is the driver card in its standard order.
var Slots = func() []Place {
	at := map[string]int{"icc": 4, "ic": 0, "application_identification": 9, "application_identification g2": 16, "identification": 56,
		"card_download": 3, "driving_licence_info": 37, "current_usage": 3, "control_activity_data": 4, "application_identification_v2 g2": 9}
	ef := func(name string, signed bool) Place {
		e := EFByName(name)
		base := name
		if e.Appendix == 2 && at[name] == 0 {
			base = name[:len(name)-3]
		}
		content := func(k int) []byte {
			if i, ok := at[base]; ok {
				return tweak(e.Default(1), i, k+1)
			}
			return e.Default(1 + k%5)
		}
		if base == "events_data" || base == "faults_data" {
			content = func(k int) []byte { return e.Default([]int{12, 2, 24, 6, 48}[k%5]) }
		}
		return Place{Name: name, FID: e.FID, Appendix: e.Appendix, Signed: signed, Path: e.Path, EF: e, Content: content}
	}
	act := func(n int) Place {
		e := &ActivityEF[n]
		return Place{Name: e.Name, FID: e.FID, Appendix: e.Appendix, Signed: true, Path: e.Path, Content: func(k int) []byte {
			return ActivityFile(96+k, 40+3*k, 3, 2, 1+k%3)
		}}
	}
	rsa := func(name string, fid uint16) Place {
		return Place{Name: name, FID: fid, Path: []string{"tachograph", name, "rsa_certificate"}, Content: func(k int) []byte {
			return GoodRSACert(certRSA[k%2], 0xFD45432001FFFF00+uint64(k), uint64(fid)<<8|uint64(k), "card")
		}}
	}
	ecc := func(name string, fid uint16) Place {
		return Place{Name: name + " g2", FID: fid, Appendix: 2, Path: []string{"tachograph_g2", name, "ecc_certificate"}, Content: func(k int) []byte {
			return GoodECCert(&Curves[k%3], "msca", 0xFD45432001FFFF00+uint64(k), uint64(fid)<<8|uint64(k), "card")
		}}
	}
	l := []Place{ef("icc", false), ef("ic", false)}
	for _, g := range []string{"", " g2"} {
		n := 0
		if g != "" {
			n = 1
		}
		l = append(l, ef("application_identification"+g, true), ef("driving_licence_info"+g, true), ef("identification"+g, true),
			ef("events_data"+g, true), ef("faults_data"+g, true), act(n), ef("vehicles_used"+g, true), ef("places"+g, true),
			ef("current_usage"+g, true), ef("control_activity_data"+g, true), ef("specific_conditions"+g, true), ef("card_download"+g, false))
	}
	l = append(l, ef("vehicle_units_used g2", true), ef("gnss_places g2", true), ef("application_identification_v2 g2", true))
	l = append(l, rsa("card_certificate", 0xC100), rsa("ca_certificate", 0xC108),
		ecc("card_ma_certificate", 0xC100), ecc("card_sign_certificate", 0xC101), ecc("ca_certificate", 0xC108), ecc("link_certificate", 0xC109))
	return l
}()

// SlotByName finds a slot.
func SlotByName(n string) *Place {
	for i := range Slots {
		if Slots[i].Name == n {
			return &Slots[i]
		}
	}
	panic("no slot " + n)
}

// Signature is the k-th signature of a slot.
func (s *Place) Signature(k int) []byte {
	n := 128
	if s.Appendix == 2 {
		n = 64
	}
	if k >= 1000 { // of another length
		n = k - 1000
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(int(s.FID) + i*(3+2*k) + 41*k + int(s.Appendix)*17)
	}
	return b
}

// Records gives the data record and, if sig >= 0, the signature record.
func (s *Place) Records(content []byte, sig int) []Record {
	rs := []Record{{s.FID, s.Appendix, content}}
	if sig >= 0 {
		rs = append(rs, Record{s.FID, s.Appendix | 1, s.Signature(sig)})
	}
	return rs
}

// Expect checks the leaves of the parsed card under the slot's path against the
// content; "" if they agree.  The used leaves are added to seen.
func (s *Place) Expect(content []byte, sig int, got map[string]string, seen map[string]bool) string {
	p := ""
	for _, x := range s.Path {
		if p != "" {
			p += "."
		}
		p += x
		seen[p] = true
	}
	sub := map[string]string{}
	for k, v := range got {
		if len(k) > len(p) && k[:len(p)] == p && k[len(p)] == '.' {
			sub[k[len(p)+1:]] = v
			seen[k] = true
		}
	}
	if got[p] == "" {
		return "absent"
	}
	want := ""
	if sig >= 0 {
		want = fmt.Sprintf("x%x", s.Signature(sig))
	}
	if s.Signed && sub["signature"] != want {
		return fmt.Sprintf("signature: want %s got %s", want, sub["signature"])
	}
	delete(sub, "signature")
	switch {
	case s.EF != nil:
		for k := range sub {
			if isRaw(k) {
				delete(sub, k)
			}
		}
		w, _ := s.EF.Decode(content)
		if at, d := w.Diff(sub); at != "" {
			return at + ": " + d
		}
	case s.FID == 0x0504:
		days, _, _ := Chain(content)
		if sub["daily_records#"] != fmt.Sprint(len(days)) {
			return "days: " + sub["daily_records#"]
		}
		for i := range days {
			if d := DayDiff(days[len(days)-1-i], fmt.Sprintf("daily_records[%d]", i), sub); d != "" {
				return d
			}
		}
	default:
		if sub["raw_data"] != fmt.Sprintf("x%x", content) {
			return "certificate: " + sub["raw_data"]
		}
	}
	return ""
}

func isRaw(k string) bool {
	for i := len(k); i > 0; i-- {
		if k[i-1] == '.' {
			return k[i:] == "raw_data"
		}
	}
	return k == "raw_data"
}
