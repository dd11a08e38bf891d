// Package ref holds reference models written from the regulation's data
// dictionary and the protobuf schema.  It never calls the code under test: it
// turns bytes into path -> value maps that checks compare with what the
// implementation returns.
package ref

import "fmt"

// EFs lists the elementary files by file identifier.
var EFs = map[uint16]string{
	0x0002: "EF_ICC", 0x0005: "EF_IC", 0x2F01: "EF_ATR_INFO", 0x0006: "EF_EXTENDED_LENGTH",
	0x0501: "EF_APPLICATION_IDENTIFICATION", 0x0502: "EF_EVENTS_DATA", 0x0503: "EF_FAULTS_DATA",
	0x0504: "EF_DRIVER_ACTIVITY_DATA", 0x0505: "EF_VEHICLES_USED", 0x0506: "EF_PLACES",
	0x0507: "EF_CURRENT_USAGE", 0x0508: "EF_CONTROL_ACTIVITY_DATA", 0x0509: "EF_CARD_DOWNLOAD_WORKSHOP",
	0x050A: "EF_CALIBRATION", 0x050B: "EF_SENSOR_INSTALLATION_DATA", 0x050C: "EF_CONTROLLER_ACTIVITY_DATA",
	0x050D: "EF_COMPANY_ACTIVITY_DATA", 0x050E: "EF_CARD_DOWNLOAD_DRIVER", 0x0520: "EF_IDENTIFICATION",
	0x0521: "EF_DRIVING_LICENCE_INFO", 0x0522: "EF_SPECIFIC_CONDITIONS", 0x0523: "EF_VEHICLE_UNITS_USED",
	0x0524: "EF_GNSS_PLACES", 0x0525: "EF_APPLICATION_IDENTIFICATION_V2", 0x0526: "EF_PLACES_AUTHENTICATION",
	0x0527: "EF_GNSS_PLACES_AUTHENTICATION", 0x0528: "EF_BORDER_CROSSINGS", 0x0529: "EF_LOAD_UNLOAD_OPERATIONS",
	0x0530: "EF_LOAD_TYPE_ENTRIES", 0x0531: "EF_CALIBRATION_ADD_DATA", 0x0540: "EF_VU_CONFIGURATION",
	0x2F00: "EF_DIR", 0xC100: "EF_CARD_CERTIFICATE", 0xC101: "EF_CARD_SIGN_CERTIFICATE",
	0xC108: "EF_CA_CERTIFICATE", 0xC109: "EF_LINK_CERTIFICATE", 0x2F2F: "EF_EGF", 0x2F30: "EF_VU",
}

// Record is one TLV record.
type Record struct {
	FID      uint16
	Appendix byte
	Value    []byte
}

// Bytes writes the record out.
func (r Record) Bytes() []byte {
	b := make([]byte, 0, 5+len(r.Value))
	b = append(b, byte(r.FID>>8), byte(r.FID), r.Appendix, byte(len(r.Value)>>8), byte(len(r.Value)))
	return append(b, r.Value...)
}

// Join concatenates records.
func Join(rs []Record) []byte {
	var b []byte
	for _, r := range rs {
		b = append(b, r.Bytes()...)
	}
	return b
}

// Split parses a whole number of records; ok is false if the last is incomplete.
func Split(b []byte) (rs []Record, ok bool) {
	for len(b) > 0 {
		if len(b) < 5 {
			return nil, false
		}
		n := int(b[3])<<8 | int(b[4])
		if len(b) < 5+n {
			return nil, false
		}
		rs = append(rs, Record{uint16(b[0])<<8 | uint16(b[1]), b[2], b[5 : 5+n]})
		b = b[5+n:]
	}
	return rs, true
}

// RawCard is the expected flat form of the raw card file.
func RawCard(prefix string, rs []Record) map[string]string {
	out := map[string]string{}
	if len(rs) > 0 {
		out[prefix+"records#"] = fmt.Sprint(len(rs))
	}
	for i, r := range rs {
		p := fmt.Sprintf("%srecords[%d]", prefix, i)
		out[p] = "{}"
		out[p+".tag"] = fmt.Sprint(int(r.FID)<<8 | int(r.Appendix))
		out[p+".length"] = fmt.Sprint(len(r.Value))
		out[p+".value"] = fmt.Sprintf("x%x", r.Value)
		out[p+".file"] = EFs[r.FID]
		out[p+".content_type"] = []string{"DATA", "SIGNATURE"}[r.Appendix&1]
		out[p+".generation"] = []string{"GENERATION_1", "GENERATION_2"}[r.Appendix>>1&1]
	}
	return out
}
