package ref

// CardTypes lists the card types in the order in which they are tried.
var CardTypes = []string{"DRIVER_CARD", "WORKSHOP_CARD", "CONTROL_CARD", "COMPANY_CARD", "GNSS_SIMULATED_CARD"}

var common = []string{
	"EF_ICC", "EF_IC", "EF_DIR", "EF_ATR_INFO", "EF_EXTENDED_LENGTH", "EF_APPLICATION_IDENTIFICATION",
	"EF_CARD_CERTIFICATE", "EF_CARD_SIGN_CERTIFICATE", "EF_CA_CERTIFICATE", "EF_LINK_CERTIFICATE",
	"EF_IDENTIFICATION", "EF_APPLICATION_IDENTIFICATION_V2", "EF_VU_CONFIGURATION",
}

var activity = []string{
	"EF_EVENTS_DATA", "EF_FAULTS_DATA", "EF_DRIVER_ACTIVITY_DATA", "EF_VEHICLES_USED", "EF_PLACES",
	"EF_CURRENT_USAGE", "EF_CONTROL_ACTIVITY_DATA", "EF_SPECIFIC_CONDITIONS", "EF_VEHICLE_UNITS_USED",
	"EF_GNSS_PLACES", "EF_PLACES_AUTHENTICATION", "EF_GNSS_PLACES_AUTHENTICATION", "EF_BORDER_CROSSINGS",
	"EF_LOAD_UNLOAD_OPERATIONS", "EF_LOAD_TYPE_ENTRIES",
}

// CardFiles gives the elementary files each card type may hold (annex 1C, appendix 2, section 4).
var CardFiles = map[string]map[string]bool{
	"DRIVER_CARD":         set(common, activity, []string{"EF_CARD_DOWNLOAD_DRIVER", "EF_DRIVING_LICENCE_INFO"}),
	"WORKSHOP_CARD":       set(common, activity, []string{"EF_CARD_DOWNLOAD_WORKSHOP", "EF_CALIBRATION", "EF_SENSOR_INSTALLATION_DATA", "EF_CALIBRATION_ADD_DATA"}),
	"CONTROL_CARD":        set(common, []string{"EF_CONTROLLER_ACTIVITY_DATA"}),
	"COMPANY_CARD":        set(common, []string{"EF_COMPANY_ACTIVITY_DATA"}),
	"GNSS_SIMULATED_CARD": set([]string{"EF_ICC", "EF_CARD_CERTIFICATE", "EF_CA_CERTIFICATE", "EF_LINK_CERTIFICATE", "EF_EGF", "EF_VU"}),
}

func set(ls ...[]string) map[string]bool {
	m := map[string]bool{}
	for _, l := range ls {
		for _, s := range l {
			m[s] = true
		}
	}
	return m
}

// CardType classifies a card by the files of its data records.
func CardType(files []string) string {
	if len(files) == 0 {
		return "CARD_TYPE_UNSPECIFIED"
	}
next:
	for _, t := range CardTypes {
		for _, f := range files {
			if !CardFiles[t][f] {
				continue next
			}
		}
		return t
	}
	return "CARD_TYPE_UNSPECIFIED"
}
