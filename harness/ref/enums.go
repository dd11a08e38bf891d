package ref

// Code tables of the data dictionary, written out here so that a change of the
// implementation's tables shows.
var (
	EventFaultType = map[int]string{
		0x00: "GENERAL_NO_FURTHER_DETAILS", 0x01: "GENERAL_INSERTION_OF_NON_VALID_CARD", 0x02: "GENERAL_CARD_CONFLICT",
		0x03: "GENERAL_TIME_OVERLAP", 0x04: "GENERAL_DRIVING_WITHOUT_APPROPRIATE_CARD", 0x05: "GENERAL_CARD_INSERTION_WHILE_DRIVING",
		0x06: "GENERAL_LAST_CARD_SESSION_NOT_CORRECTLY_CLOSED", 0x07: "GENERAL_OVER_SPEEDING", 0x08: "GENERAL_POWER_SUPPLY_INTERRUPTION",
		0x09: "GENERAL_MOTION_DATA_ERROR", 0x0A: "GENERAL_VEHICLE_MOTION_CONFLICT", 0x0B: "GENERAL_TIME_CONFLICT_GNSS_VS_VU",
		0x0C: "GENERAL_COMM_ERROR_REMOTE_COMM_FACILITY", 0x0D: "GENERAL_ABSENCE_OF_POSITION_INFO_FROM_GNSS", 0x0E: "GENERAL_COMM_ERROR_EXTERNAL_GNSS_FACILITY",
		0x0F: "GENERAL_GNSS_ANOMALY", 0x10: "VU_SEC_NO_FURTHER_DETAILS", 0x11: "VU_SEC_MOTION_SENSOR_AUTH_FAILURE", 0x12: "VU_SEC_TACHOGRAPH_CARD_AUTH_FAILURE",
		0x13: "VU_SEC_UNAUTHORISED_CHANGE_OF_MOTION_SENSOR", 0x14: "VU_SEC_CARD_DATA_INPUT_INTEGRITY_ERROR", 0x15: "VU_SEC_STORED_USER_DATA_INTEGRITY_ERROR",
		0x16: "VU_SEC_INTERNAL_DATA_TRANSFER_ERROR", 0x17: "VU_SEC_UNAUTHORISED_CASE_OPENING", 0x18: "VU_SEC_HARDWARE_SABOTAGE",
		0x19: "VU_SEC_TAMPER_DETECTION_OF_GNSS", 0x1A: "VU_SEC_EXTERNAL_GNSS_FACILITY_AUTH_FAILURE", 0x1B: "VU_SEC_EXTERNAL_GNSS_FACILITY_CERT_EXPIRED",
		0x1C: "VU_SEC_INCONSISTENCY_MOTION_VS_ACTIVITY", 0x20: "SENSOR_SEC_NO_FURTHER_DETAILS", 0x21: "SENSOR_SEC_AUTHENTICATION_FAILURE",
		0x22: "SENSOR_SEC_STORED_DATA_INTEGRITY_ERROR", 0x23: "SENSOR_SEC_INTERNAL_DATA_TRANSFER_ERROR", 0x24: "SENSOR_SEC_UNAUTHORISED_CASE_OPENING",
		0x25: "SENSOR_SEC_HARDWARE_SABOTAGE", 0x30: "FAULT_REC_EQ_NO_FURTHER_DETAILS", 0x31: "FAULT_REC_EQ_VU_INTERNAL_FAULT",
		0x32: "FAULT_REC_EQ_PRINTER_FAULT", 0x33: "FAULT_REC_EQ_DISPLAY_FAULT", 0x34: "FAULT_REC_EQ_DOWNLOADING_FAULT",
		0x35: "FAULT_REC_EQ_SENSOR_FAULT", 0x36: "FAULT_REC_EQ_INTERNAL_GNSS_RECEIVER", 0x37: "FAULT_REC_EQ_EXTERNAL_GNSS_FACILITY",
		0x38: "FAULT_REC_EQ_REMOTE_COMM_FACILITY", 0x39: "FAULT_REC_EQ_ITS_INTERFACE", 0x3A: "FAULT_REC_EQ_INTERNAL_SENSOR_FAULT",
		0x40: "FAULT_CARD_NO_FURTHER_DETAILS",
	}
	Nation = map[int]string{
		0x00: "NATION_NUMERIC_DEFAULT", 0x01: "AUSTRIA", 0x02: "ALBANIA", 0x03: "ANDORRA", 0x04: "ARMENIA", 0x05: "AZERBAIJAN",
		0x06: "BELGIUM", 0x07: "BULGARIA", 0x08: "BOSNIA_HERZEGOVINA", 0x09: "BELARUS", 0x0A: "SWITZERLAND", 0x0B: "CYPRUS",
		0x0C: "CZECH_REPUBLIC", 0x0D: "GERMANY", 0x0E: "DENMARK", 0x0F: "SPAIN", 0x10: "ESTONIA", 0x11: "FRANCE", 0x12: "FINLAND",
		0x13: "LIECHTENSTEIN", 0x14: "FAROE_ISLANDS", 0x15: "UNITED_KINGDOM", 0x16: "GEORGIA", 0x17: "GREECE", 0x18: "HUNGARY",
		0x19: "CROATIA", 0x1A: "ITALY", 0x1B: "IRELAND", 0x1C: "ICELAND", 0x1D: "KAZAKHSTAN", 0x1E: "LUXEMBOURG", 0x1F: "LITHUANIA",
		0x20: "LATVIA", 0x21: "MALTA", 0x22: "MONACO", 0x23: "MOLDOVA", 0x24: "NORTH_MACEDONIA", 0x25: "NORWAY", 0x26: "NETHERLANDS",
		0x27: "PORTUGAL", 0x28: "POLAND", 0x29: "ROMANIA", 0x2A: "SAN_MARINO", 0x2B: "RUSSIA", 0x2C: "SWEDEN", 0x2D: "SLOVAKIA",
		0x2E: "SLOVENIA", 0x2F: "TURKMENISTAN", 0x30: "TURKEY", 0x31: "UKRAINE", 0x32: "VATICAN_CITY", 0x35: "SERBIA",
		0x36: "MONTENEGRO", 0x38: "KYRGYZ_REPUBLIC", 0xFD: "EUROPEAN_COMMUNITY", 0xFE: "REST_OF_WORLD", 0xFF: "NATION_NUMERIC_EMPTY",
	}
	EquipmentType = map[int]string{
		0x00: "RESERVED_MEMBER_STATE_OR_EUROPE", 0x01: "DRIVER_CARD", 0x02: "WORKSHOP_CARD", 0x03: "CONTROL_CARD", 0x04: "COMPANY_CARD",
		0x05: "MANUFACTURING_CARD", 0x06: "VEHICLE_UNIT", 0x07: "MOTION_SENSOR", 0x08: "GNSS_FACILITY", 0x09: "REMOTE_COMMUNICATION_MODULE",
		0x0A: "ITS_INTERFACE_MODULE", 0x0B: "PLAQUE", 0x0C: "M1_N1_ADAPTER", 0x0D: "EUROPEAN_ROOT_CA", 0x0E: "MEMBER_STATE_CA",
		0x0F: "EXTERNAL_GNSS_CONNECTION", 0x10: "UNUSED", 0x11: "DRIVER_CARD_SIGN", 0x12: "WORKSHOP_CARD_SIGN", 0x13: "VEHICLE_UNIT_SIGN",
	}
	EntryType = map[int]string{
		0x00: "BEGIN", 0x01: "END", 0x02: "BEGIN_GNSS", 0x03: "END_GNSS", 0x04: "BEGIN_ITS", 0x05: "END_ITS",
	}
	SpecificCondition = map[int]string{
		0x00: "RFU", 0x01: "OUT_OF_SCOPE_BEGIN", 0x02: "OUT_OF_SCOPE_END", 0x03: "FERRY_TRAIN_CROSSING_BEGIN", 0x04: "FERRY_TRAIN_CROSSING_END",
	}
	ClockStop = map[int]string{
		0x00: "NOT_ALLOWED", 0x01: "ALLOWED_NO_PREFERENCE", 0x02: "ALLOWED_ONLY_HIGH_LEVEL", 0x03: "ALLOWED_HIGH_LEVEL_PREFERRED",
		0x04: "ALLOWED_ONLY_LOW_LEVEL", 0x05: "ALLOWED_LOW_LEVEL_PREFERRED",
	}
	Slot = map[int]string{
		0x00: "DRIVER_SLOT", 0x01: "CO_DRIVER_SLOT",
	}
	Activity = map[int]string{
		0x00: "BREAK_REST", 0x01: "AVAILABILITY", 0x02: "WORK", 0x03: "DRIVING",
	}
)
