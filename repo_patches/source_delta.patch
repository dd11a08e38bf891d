From fd6455a276a2a8f83c1cc214a5668e963d5f18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 01/59] fix: read raw card records of any 16-bit length

A record value longer than 65530 bytes made the scanner fail with
bufio.ErrTooLong, and one of exactly 65531 bytes overflowed the uint16 slice
bound and panicked.
---
 internal/card/rawcardfile.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..240d3ec 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -14,6 +15,9 @@ import (
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	// The largest record has a 5-byte header and a 65535-byte value, which is
+	// more than the scanner's default token limit.
+	sc.Buffer(nil, 5+math.MaxUint16+1)
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
@@ -87,7 +91,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-	copy(value, input[5:5+length])
+	copy(value, input[5:5+int(length)])
 	output.SetValue(value)
 	// Determine content type and generation based on appendix byte
 	// Per Chapter 12: Appendix encodes both content type and generation in bit pattern
-- 
2.43.0


From ccc175e99fff9c7b73f604b94704dc10f81413fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 02/59] fix: do not classify company cards as driver cards

EF Company_Activity_Data exists on company cards only (Appendix 2), but the
driver and workshop file structures listed it, so every company card was
taken for a driver card and refused while parsing its identification.
---
 .../connect/tachograph/card/v1/card_type.pb.go   | 16 ++++++++--------
 .../connect/tachograph/card/v1/card_type.proto   |  8 --------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
index da2faa8..b370a23 100644
--- a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
+++ b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
@@ -119,15 +119,15 @@ var File_wayplatform_connect_tachograph_card_v1_card_type_proto protoreflect.Fil
 
 const file_wayplatform_connect_tachograph_card_v1_card_type_proto_rawDesc = "" +
 	"\n" +
-	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xde\b\n" +
+	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xd2\b\n" +
 	"\bCardType\x12\x19\n" +
-	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc6\x02\n" +
-	"\vDRIVER_CARD\x10\x01\x1a\xb4\x02\xf2\xc7\x18\xaf\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xae\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xdc\x02\n" +
-	"\rWORKSHOP_CARD\x10\x02\x1a\xc8\x02\xf2\xc7\x18\xc3\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"^\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xbc\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10\x1f(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
+	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc0\x02\n" +
+	"\vDRIVER_CARD\x10\x01\x1a\xae\x02\xf2\xc7\x18\xa9\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xa8\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xd6\x02\n" +
+	"\rWORKSHOP_CARD\x10\x02\x1a\xc2\x02\xf2\xc7\x18\xbd\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"^\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xb6\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10\x1f(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
 	"\fCONTROL_CARD\x10\x03\x1a\x8d\x01\xf2\xc7\x18\x88\x01\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"\"\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x11\">\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x11\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
 	"\fCOMPANY_CARD\x10\x04\x1a\x8d\x01\xf2\xc7\x18\x88\x01\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"\"\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x12\">\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x12\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10 (\x01\x12I\n" +
 	"\x13GNSS_SIMULATED_CARD\x10\x05\x1a0\xf2\xc7\x18,\b\x01\"\x04\b\x03\x10\x01\"\"\b\x02\x18\x03\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10'\"\x04\b\x03\x10(B\xda\x02\n" +
diff --git a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
index 890bcf7..229b344 100644
--- a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
+++ b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
@@ -199,10 +199,6 @@ enum CardType {
             type: EF
             ef: EF_VEHICLE_UNITS_USED
           },
-          {
-            type: EF
-            ef: EF_COMPANY_ACTIVITY_DATA
-          },
           {
             type: EF
             ef: EF_GNSS_PLACES
@@ -416,10 +412,6 @@ enum CardType {
             type: EF
             ef: EF_VEHICLE_UNITS_USED
           },
-          {
-            type: EF
-            ef: EF_COMPANY_ACTIVITY_DATA
-          },
           {
             type: EF
             ef: EF_GNSS_PLACES
-- 
2.43.0


From 3a98d50e21e26f3143b5ed428c61cd23f2550d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 03/59] fix: refuse truncated VU transfers instead of panicking

The transfer sizers sliced past the end of the input when a fixed-size
section or a counted list was cut short.
---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/detailed_speed.go        | 2 +-
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 6 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..05e3f8b 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/detailed_speed.go b/internal/vu/detailed_speed.go
index a2b4386..2988c66 100644
--- a/internal/vu/detailed_speed.go
+++ b/internal/vu/detailed_speed.go
@@ -37,7 +37,7 @@ func sizeOfDetailedSpeedGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuDetailedSpeedData: 2 bytes count + variable speed blocks
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpeedBlocks")
 	}
 	noOfSpeedBlocks := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..d52b1ec 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data)-offset)
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From 025710d4fc43246b22c086fc662288ce14e0d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 04/59] fix: expect the record arrays of Gen2 VU transfers that
 the regulation lists

Appendix 7, 2.2.6: Activities has 8 (V1) or 10 (V2) arrays, Events and Faults
6, and Technical Data 8. The sizers and the parsers disagreed, so Gen2
Activities, Events and Faults, and Technical Data were always refused.
---
 internal/vu/activities_gen2_v1.go    |  5 ++++
 internal/vu/activities_gen2_v2.go    | 15 ++++++++++++
 internal/vu/events_faults.go         |  9 +------
 internal/vu/events_faults_gen2_v1.go |  4 ++++
 internal/vu/events_faults_gen2_v2.go |  4 ++++
 internal/vu/technical_data.go        | 35 ++++++++++++++++++++++++++++
 6 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..4f11fec 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -70,6 +70,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// VuSpecificConditionRecordArray
 	if err := skipRecordArray("VuSpecificCondition"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..526fdf1 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -70,11 +70,26 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// VuSpecificConditionRecordArray
 	if err := skipRecordArray("VuSpecificCondition"); err != nil {
 		return nil, err
 	}
 
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..8860c86 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,7 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
+// Gen2 V2 has the same RecordArrays as Gen2 V1.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +218,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..0f1f8c8 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..c6e1416 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..c9d3c22 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -156,6 +184,13 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuITSConsentRecordArray (Gen2 V2+)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
-- 
2.43.0


From db71b82985093aeddf207c3cbf3d28892d2aef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 05/59] fix: do not alias the caller's buffer in parsed VU
 files

Raw transfer data and signatures were sub-slices of the input, so reusing the
input buffer changed a file that had already been parsed.
---
 internal/vu/raw_vehicle_unit_file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index d52b1ec..f3d8221 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -1,6 +1,7 @@
 package vu
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -50,7 +51,7 @@ func unmarshalRawVehicleUnitFile(data []byte) (*vuv1.RawVehicleUnitFile, error)
 		if offset+valueSize > len(data) {
 			return nil, fmt.Errorf("insufficient data for %v value: need %d bytes, have %d", transferType, valueSize, len(data)-offset)
 		}
-		value := data[offset : offset+valueSize]
+		value := bytes.Clone(data[offset : offset+valueSize])
 		offset += valueSize
 
 		// Create record
-- 
2.43.0


From 316a179e22b6ee97d7dd1b0363fc2718e1a42a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 06/59] fix: look embedded certificates up in their directories

The embedded file systems hold g1/<CHR>.bin and g2/<CHR>.bin, but the lookup
left the directory out, so no embedded certificate was ever found.
---
 internal/cert/certcache/embed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index d28f1eb..0268fb3 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -19,7 +19,7 @@ func Root() []byte {
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
 func ReadG1(chr string) ([]byte, bool) {
-	data, err := g1.ReadFile(chr + ".bin")
+	data, err := g1.ReadFile("g1/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
@@ -28,7 +28,7 @@ func ReadG1(chr string) ([]byte, bool) {
 
 // ReadG2 reads a cached Gen2 certificate by its CHR.
 func ReadG2(chr string) ([]byte, bool) {
-	data, err := g2.ReadFile(chr + ".bin")
+	data, err := g2.ReadFile("g2/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
-- 
2.43.0


From ca4f3566a57cbe57417c223184b1dfcca66f6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 07/59] fix: keep parsed card records out of the scanner's
 buffer

Events, faults, vehicle unit and GNSS records kept slices of the scanner's
buffer, which the scanner reuses: in files of more than 4096 bytes earlier
records changed while later ones were read.
---
 internal/card/events.go             | 2 +-
 internal/card/faults.go             | 2 +-
 internal/card/gnss_places.go        | 2 +-
 internal/card/vehicle_units_used.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..da14705 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 
 	var records []*cardv1.EventsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes())
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..1389d25 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -49,7 +49,7 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 
 	var records []*cardv1.FaultsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		recordData := bytes.Clone(scanner.Bytes())
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..8e57a1f 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -89,7 +89,7 @@ func parseGNSSAccumulatedDrivingRecords(data []byte, opts UnmarshalOptions) ([]*
 
 	var records []*cardv1.GnssPlaces_Record
 	for scanner.Scan() {
-		record, err := unmarshalGNSSAccumulatedDrivingRecord(scanner.Bytes(), opts)
+		record, err := unmarshalGNSSAccumulatedDrivingRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal GNSS accumulated driving record: %w", err)
 		}
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..bf7a13f 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -91,7 +91,7 @@ func parseCardVehicleUnitRecords(data []byte, opts UnmarshalOptions) ([]*cardv1.
 
 	var records []*cardv1.VehicleUnitsUsed_Record
 	for scanner.Scan() {
-		record, err := unmarshalCardVehicleUnitRecord(scanner.Bytes(), opts)
+		record, err := unmarshalCardVehicleUnitRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal vehicle unit record: %w", err)
 		}
-- 
2.43.0


From 1e1788a1d5ebeafbf54da80b9d29099166a414ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 08/59] fix: read the Gen2 card certificate of driver cards

EF_Card_Certificate (Gen1) and EF_CardMA_Certificate (Gen2) share FID C100h,
so a Gen2 driver card was always refused at its card certificate.
---
 internal/card/driver_card_file.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..9383435 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -495,6 +495,23 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetApplicationIdentificationV2(appIdV2)
 
 		case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE:
+			// Gen2: FID C100h holds the card mutual authentication certificate
+			if efGeneration == ddv1.Generation_GENERATION_2 {
+				if signature != nil {
+					return nil, fmt.Errorf("unexpected signature for EF_CARD_MA_CERTIFICATE")
+				}
+				eccCert, err := security.UnmarshalEccCertificate(record.GetValue())
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse EF_CARD_MA_CERTIFICATE: %w", err)
+				}
+				if tachographG2DF == nil {
+					tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
+				}
+				cert := &cardv1.CardMaCertificate{}
+				cert.SetEccCertificate(eccCert)
+				tachographG2DF.SetCardMaCertificate(cert)
+				continue
+			}
 			// Gen1: Card authentication certificate
 			// Only appears in Gen1 DF (Tachograph)
 			if efGeneration != ddv1.Generation_GENERATION_1 {
-- 
2.43.0


From 78696e96cc22a38c5d0527aca394ca05f30f7944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 09/59] fix: write the signatures of driver card files

Marshalling wrote 128 zero bytes as the signature of every signed elementary
file, whatever signature (or none) the file was read with.
---
 internal/card/driver_card_file.go | 71 +++++++++++++------------------
 1 file changed, 30 insertions(+), 41 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 9383435..35ac241 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 
 	"google.golang.org/protobuf/proto"
@@ -666,22 +667,9 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	}
 
 	// 4. EF_IDENTIFICATION (0x0520) - composite file
-	if identification := card.GetTachograph().GetIdentification(); identification != nil {
-		valBuf := make([]byte, 0, 143)
-		valBuf, err = appendCardIdentification(valBuf, identification.GetCard())
-		if err != nil {
-			return nil, err
-		}
-		valBuf, err = appendDriverCardHolderIdentification(valBuf, identification.GetDriverCardHolder())
-		if err != nil {
-			return nil, err
-		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
-			return append(dst, msg.data...), nil
-		})
-		if err != nil {
-			return nil, err
-		}
+	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, card.GetTachograph().GetIdentification(), appendIdentification)
+	if err != nil {
+		return nil, err
 	}
 
 	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, card.GetTachograph().GetEventsData(), appendEventsData)
@@ -843,14 +831,13 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	return dst, nil
 }
 
-// compositeMessage is a helper type for marshalling composite TLV values
-type compositeMessage struct {
-	data []byte
-}
-
-// ProtoReflect implements proto.Message
-func (m *compositeMessage) ProtoReflect() protoreflect.Message {
-	return nil // Not needed for our use case
+// appendIdentification appends both parts of EF_IDENTIFICATION.
+func appendIdentification(dst []byte, identification *cardv1.Identification) ([]byte, error) {
+	dst, err := appendCardIdentification(dst, identification.GetCard())
+	if err != nil {
+		return nil, err
+	}
+	return appendDriverCardHolderIdentification(dst, identification.GetDriverCardHolder())
 }
 
 // appendCertificateEF appends a Gen1 certificate EF (which are not signed)
@@ -930,15 +917,24 @@ func appendTlv[T proto.Message](
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x01, 128 bytes of zeros for now)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x01)                       // appendix for signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
+	// Add signature block (FID + appendix 0x01), if the EF has a signature
+	return appendSignature(dst, tag, 0x01, msg)
+}
 
-	return dst, nil
+// appendSignature appends the signature record of an EF that has a signature.
+func appendSignature(dst []byte, tag int32, appendix byte, msg proto.Message) ([]byte, error) {
+	signed, ok := msg.(interface{ GetSignature() []byte })
+	if !ok || signed.GetSignature() == nil {
+		return dst, nil
+	}
+	signature := signed.GetSignature()
+	if len(signature) > math.MaxUint16 {
+		return nil, fmt.Errorf("signature of EF %04Xh is too long: %d bytes", tag, len(signature))
+	}
+	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
+	dst = append(dst, appendix)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(len(signature)))
+	return append(dst, signature...), nil
 }
 
 // appendTlvUnsigned is like appendTlv but doesn't add a signature block
@@ -1019,15 +1015,8 @@ func appendTlvG2[T proto.Message](
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x03, 128 bytes of zeros for now) - Gen2 DF
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x03)                       // appendix for Gen2 signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
-
-	return dst, nil
+	// Add signature block (FID + appendix 0x03), if the EF has a signature - Gen2 DF
+	return appendSignature(dst, tag, 0x03, msg)
 }
 
 // CertificateResolver provides access to tachograph certificates
-- 
2.43.0


From e1db94386d562560de7409460c2c55ba700f8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 10/59] fix: write every elementary file of the Gen2
 application

Identification, driving licence, events, faults, driver activity, current
usage, control activity and card download of the Tachograph_G2 application
were read but never written, so marshalling dropped them.
---
 internal/card/driver_card_file.go | 58 +++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 35ac241..5b15c67 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -727,6 +727,31 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO, tachographG2.GetDrivingLicenceInfo(), appendDrivingLicenceInfo)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, tachographG2.GetIdentification(), appendIdentification)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, tachographG2.GetEventsData(), appendEventsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_FAULTS_DATA, tachographG2.GetFaultsData(), appendFaultsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA, tachographG2.GetDriverActivityData(), appendDriverActivity)
+		if err != nil {
+			return nil, err
+		}
+
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLES_USED, tachographG2.GetVehiclesUsed(), appendVehiclesUsedG2)
 		if err != nil {
 			return nil, err
@@ -737,12 +762,27 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CURRENT_USAGE, tachographG2.GetCurrentUsage(), appendCurrentUsage)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA, tachographG2.GetControlActivityData(), appendCardControlActivityData)
+		if err != nil {
+			return nil, err
+		}
+
 		// SpecificConditions (Gen2)
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS, tachographG2.GetSpecificConditions(), appendCardSpecificConditionsG2)
 		if err != nil {
 			return nil, err
 		}
 
+		dst, err = appendTlvUnsignedG2(dst, cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER, tachographG2.GetCardDownload(), appendCardDownload)
+		if err != nil {
+			return nil, err
+		}
+
 		// Marshal Gen2-exclusive EFs
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED, tachographG2.GetVehicleUnitsUsed(), appendCardVehicleUnitsUsed)
 		if err != nil {
@@ -978,6 +1018,24 @@ func appendTlvUnsigned[T proto.Message](
 	return dst, nil
 }
 
+// appendTlvUnsignedG2 is like appendTlvG2 but doesn't add a signature block
+func appendTlvUnsignedG2[T proto.Message](
+	dst []byte,
+	fileType cardv1.ElementaryFileType,
+	msg T,
+	appenderFunc func([]byte, T) ([]byte, error),
+) ([]byte, error) {
+	start := len(dst)
+	dst, err := appendTlvUnsigned(dst, fileType, msg, appenderFunc)
+	if err != nil {
+		return nil, err
+	}
+	if len(dst) > start {
+		dst[start+2] = 0x02 // appendix for Gen2 data
+	}
+	return dst, nil
+}
+
 // appendTlvG2 is like appendTlv but uses Gen2 DF appendix (0x02/0x03 instead of 0x00/0x01)
 func appendTlvG2[T proto.Message](
 	dst []byte,
-- 
2.43.0


From 7522366a749a9402c6f9f24ec1c2cbd7701d847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 11/59] fix: read the five 2-byte fields of
 EF_Application_Identification_V2

---
 .../card/application_identification_v2.go     | 133 ++++++------------
 1 file changed, 46 insertions(+), 87 deletions(-)

diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 9837022..35f31f7 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -1,130 +1,89 @@
 package card
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 )
 
+// lenEfApplicationIdentificationV2 is the size of EF_ApplicationIdentificationV2
+// on driver cards (and workshop cards).
+const lenEfApplicationIdentificationV2 = 10
+
 // unmarshalApplicationIdentificationV2 parses the binary data for an EF_ApplicationIdentificationV2 record.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        INTEGER(0..2^16-1),
+//	    noOfBorderCrossingRecords    INTEGER(0..2^16-1),
+//	    noOfLoadUnloadRecords        INTEGER(0..2^16-1),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..2^16-1),
+//	    vuConfigurationLengthRange   INTEGER(0..2^16-1)
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
-	const (
-		lenEfApplicationIdentificationV2 = 4 // EF_ApplicationIdentificationV2 record size
-	)
-
 	if len(data) < lenEfApplicationIdentificationV2 {
 		return nil, fmt.Errorf("insufficient data for application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
 	}
-	var target cardv1.ApplicationIdentificationV2
-	r := bytes.NewReader(data)
-
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
+	driver.SetLengthOfFollowingData(int32(binary.BigEndian.Uint16(data[0:2])))
+	driver.SetBorderCrossingRecordsCount(int32(binary.BigEndian.Uint16(data[2:4])))
+	driver.SetLoadUnloadRecordsCount(int32(binary.BigEndian.Uint16(data[4:6])))
+	driver.SetLoadTypeEntryRecordsCount(int32(binary.BigEndian.Uint16(data[6:8])))
+	driver.SetVuConfigurationLengthRange(int32(binary.BigEndian.Uint16(data[8:10])))
 
-	// Read border crossing records count (1 byte)
-	var borderCrossingCount byte
-	if err := binary.Read(r, binary.BigEndian, &borderCrossingCount); err != nil {
-		return nil, fmt.Errorf("failed to read border crossing records count: %w", err)
-	}
-	driver.SetBorderCrossingRecordsCount(int32(borderCrossingCount))
-
-	// Read load/unload records count (1 byte)
-	var loadUnloadCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadUnloadCount); err != nil {
-		return nil, fmt.Errorf("failed to read load/unload records count: %w", err)
-	}
-	driver.SetLoadUnloadRecordsCount(int32(loadUnloadCount))
-
-	// Read load type entry records count (1 byte)
-	var loadTypeCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadTypeCount); err != nil {
-		return nil, fmt.Errorf("failed to read load type entry records count: %w", err)
-	}
-	driver.SetLoadTypeEntryRecordsCount(int32(loadTypeCount))
-
-	// Read VU configuration length range (1 byte)
-	var vuConfigRange byte
-	if err := binary.Read(r, binary.BigEndian, &vuConfigRange); err != nil {
-		return nil, fmt.Errorf("failed to read VU configuration length range: %w", err)
-	}
-	driver.SetVuConfigurationLengthRange(int32(vuConfigRange))
-
-	// Set the driver data and card type
+	var target cardv1.ApplicationIdentificationV2
 	target.SetDriver(driver)
 	target.SetCardType(cardv1.CardType_DRIVER_CARD)
-
 	return &target, nil
 }
 
-// AppendCardApplicationIdentificationV2 appends application identification V2 data to a byte slice.
+// appendCardApplicationIdentificationV2 appends application identification V2 data to a byte slice.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
-//
-// ASN.1 Definition:
-//
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
-//	}
+// Driver and workshop cards share one layout; see unmarshalApplicationIdentificationV2.
+// Company and control cards hold only the length and the VU configuration length range.
 func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.ApplicationIdentificationV2) ([]byte, error) {
 	if appIdV2 == nil {
 		return data, nil
 	}
-
-	// Get the appropriate nested message based on card type
-	var borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
-
+	var values []int32
 	switch appIdV2.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
-		if driver := appIdV2.GetDriver(); driver != nil {
-			borderCrossingRecords = driver.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = driver.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = driver.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = driver.GetVuConfigurationLengthRange()
+		driver := appIdV2.GetDriver()
+		values = []int32{
+			driver.GetLengthOfFollowingData(),
+			driver.GetBorderCrossingRecordsCount(),
+			driver.GetLoadUnloadRecordsCount(),
+			driver.GetLoadTypeEntryRecordsCount(),
+			driver.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_WORKSHOP_CARD:
-		if workshop := appIdV2.GetWorkshop(); workshop != nil {
-			borderCrossingRecords = workshop.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = workshop.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = workshop.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = workshop.GetVuConfigurationLengthRange()
+		workshop := appIdV2.GetWorkshop()
+		values = []int32{
+			workshop.GetLengthOfFollowingData(),
+			workshop.GetBorderCrossingRecordsCount(),
+			workshop.GetLoadUnloadRecordsCount(),
+			workshop.GetLoadTypeEntryRecordsCount(),
+			workshop.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_COMPANY_CARD:
-		if company := appIdV2.GetCompany(); company != nil {
-			vuConfigLength = company.GetVuConfigurationLengthRange()
-		}
+		company := appIdV2.GetCompany()
+		values = []int32{company.GetLengthOfFollowingData(), company.GetVuConfigurationLengthRange()}
 	case cardv1.CardType_CONTROL_CARD:
-		if control := appIdV2.GetControl(); control != nil {
-			vuConfigLength = control.GetVuConfigurationLengthRange()
+		control := appIdV2.GetControl()
+		values = []int32{control.GetLengthOfFollowingData(), control.GetVuConfigurationLengthRange()}
+	default:
+		return nil, fmt.Errorf("unsupported card type for application identification V2: %v", appIdV2.GetCardType())
+	}
+	for _, v := range values {
+		if v < 0 || v > 0xFFFF {
+			return nil, fmt.Errorf("application identification V2 value %d does not fit in 2 bytes", v)
 		}
+		data = binary.BigEndian.AppendUint16(data, uint16(v))
 	}
-
-	// Border crossing records count (1 byte)
-	data = append(data, byte(borderCrossingRecords))
-
-	// Load/unload records count (1 byte)
-	data = append(data, byte(loadUnloadRecords))
-
-	// Load type entry records count (1 byte)
-	data = append(data, byte(loadTypeEntryRecords))
-
-	// VU configuration length range (1 byte)
-	data = append(data, byte(vuConfigLength))
-
 	return data, nil
 }
-- 
2.43.0


From e4fbc4a0d061c394fe5acfd6474d3556129e9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 12/59] fix: decode full card numbers and the control card
 number as the data dictionary lists them

---
 internal/card/control_activity.go | 19 ++-------
 internal/dd/full_card_number.go   | 66 ++++++++++++++++---------------
 2 files changed, 39 insertions(+), 46 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..e4b8bd3 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -65,29 +65,18 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	target.SetControlTime(controlTimestamp)
 	offset += 4
 
-	// Read control card number (18 bytes) - this should be parsed as a proper FullCardNumberAndGeneration
-	// For now, create a basic structure - this needs proper protocol parsing
-	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
-
-	fullCardNumber := &ddv1.FullCardNumber{}
-	fullCardNumber.SetCardType(ddv1.EquipmentType_DRIVER_CARD)
-
-	// Read the card number as IA5 string
+	// Read control card number (18 bytes)
 	if offset+18 > len(data) {
 		return nil, fmt.Errorf("insufficient data for control card number")
 	}
-	cardNumberStr, err := opts.UnmarshalIa5StringValue(data[offset : offset+18])
+	fullCardNumber, err := opts.UnmarshalFullCardNumber(data[offset : offset+18])
 	if err != nil {
 		return nil, fmt.Errorf("failed to read control card number: %w", err)
 	}
 	offset += 18
 
-	// Create driver identification with the card number
-	driverID := &ddv1.DriverIdentification{}
-	driverID.SetDriverIdentificationNumber(cardNumberStr)
-	fullCardNumber.SetDriverIdentification(driverID)
-
 	// Set the full card number in the generation wrapper
+	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
 	fullCardNumberAndGeneration.SetFullCardNumber(fullCardNumber)
 	// Default to Generation 1 for now - this should be determined from context
 	fullCardNumberAndGeneration.SetGeneration(ddv1.Generation_GENERATION_1)
@@ -198,7 +187,7 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Control card number (18 bytes)
-	data, err = dd.AppendFullCardNumberAsString(data, controlData.GetControlCardNumber().GetFullCardNumber(), 18)
+	data, err = dd.AppendFullCardNumber(data, controlData.GetControlCardNumber().GetFullCardNumber())
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..d6d5637 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,20 +45,34 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	if issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1]); err == nil {
+		cardNumber.SetCardIssuingMemberState(issuingState)
+	} else {
+		// Value not recognized - set UNRECOGNIZED (no unrecognized field for this type)
+		cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
+	}
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes, followed by the replacement and renewal indices
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
 		ownerID, err := opts.UnmarshalOwnerIdentification(cardNumberData)
 		if err != nil {
@@ -106,24 +120,36 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	issuingState, err := MarshalEnum(cardNumber.GetCardIssuingMemberState())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal issuing member state: %w", err)
+	}
+	dst = append(dst, issuingState)
 
 	// Append card number based on card type (16 bytes with padding if needed)
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
+			// DriverIdentification is 14 bytes, followed by the replacement and renewal indices
 			dst, err = AppendDriverIdentification(dst, driverID)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
+			for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+				if index == nil {
+					dst = append(dst, 0x00)
+					continue
+				}
+				dst, err = AppendIa5StringValue(dst, index)
+				if err != nil {
+					return nil, fmt.Errorf("failed to append card index: %w", err)
+				}
+			}
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			// OwnerIdentification is 16 bytes (no padding needed)
 			dst, err = AppendOwnerIdentification(dst, ownerID)
@@ -141,25 +167,3 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 
 	return dst, nil
 }
-
-// appendFullCardNumberAsString appends a FullCardNumber structure as a string representation.
-// This is used for display purposes and has a maximum length constraint.
-func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, maxLen int) ([]byte, error) {
-	if cardNumber == nil {
-		return nil, fmt.Errorf("cardNumber cannot be nil")
-	}
-
-	// Handle the CardNumber CHOICE based on card type
-	switch cardNumber.GetCardType() {
-	case ddv1.EquipmentType_DRIVER_CARD:
-		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
-		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
-		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
-			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
-		}
-	}
-
-	return AppendStringValue(dst, nil)
-}
-- 
2.43.0


From acf617964c5cd2ee229029235742bc9578f60240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 13/59] fix: encode strings in their code page

---
 internal/dd/string_value.go | 56 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..30b526d 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -100,7 +100,10 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
 		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// A code page this library has no name for stays as it is in raw_data.
+		if sv.GetEncoding() != ddv1.Encoding_ENCODING_UNRECOGNIZED {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
@@ -198,7 +201,26 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		return "", nil
 	}
 
-	// Map code page to character map
+	dec := charmapForCodePage(codePage).NewDecoder()
+	res, err := dec.String(string(data))
+	if err != nil {
+		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
+	}
+
+	// The character map decoder should produce valid UTF-8, but let's be safe
+	trimmed := string(trimSpaceAndZeroBytes([]byte(res)))
+
+	// If the result is not valid UTF-8, convert it to valid UTF-8
+	if !utf8.ValidString(trimmed) {
+		// Convert invalid UTF-8 sequences to replacement characters
+		trimmed = strings.ToValidUTF8(trimmed, string(utf8.RuneError))
+	}
+
+	return trimmed, nil
+}
+
+// charmapForCodePage maps a code page to its character map.
+func charmapForCodePage(codePage byte) *charmap.Charmap {
 	var cmap *charmap.Charmap
 	switch codePage {
 	case 0:
@@ -231,22 +253,7 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		cmap = charmap.ISO8859_1
 	}
 
-	dec := cmap.NewDecoder()
-	res, err := dec.String(string(data))
-	if err != nil {
-		return "", fmt.Errorf("could not decode code page %d string: %w", codePage, err)
-	}
-
-	// The character map decoder should produce valid UTF-8, but let's be safe
-	trimmed := string(trimSpaceAndZeroBytes([]byte(res)))
-
-	// If the result is not valid UTF-8, convert it to valid UTF-8
-	if !utf8.ValidString(trimmed) {
-		// Convert invalid UTF-8 sequences to replacement characters
-		trimmed = strings.ToValidUTF8(trimmed, string(utf8.RuneError))
-	}
-
-	return trimmed, nil
+	return cmap
 }
 
 // getCodePageFromEncoding maps an Encoding enum to a code page byte.
@@ -284,20 +291,15 @@ func getCodePageFromEncoding(encoding ddv1.Encoding) byte {
 }
 
 // encodeWithCodePage encodes a string to bytes using the specified code page.
-// For now, this is a simple implementation that only handles ASCII-compatible encodings.
 func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 	// For code page 255 (empty), return empty bytes
 	if codePage == 255 {
 		return []byte{}, nil
 	}
 
-	// For ASCII-compatible code pages (0, 1), we can just convert to bytes
-	// TODO: Implement proper encoding for other code pages using charmap.Encoder
-	if codePage == 0 || codePage == 1 {
-		return []byte(s), nil
+	encoded, err := charmapForCodePage(codePage).NewEncoder().String(s)
+	if err != nil {
+		return nil, fmt.Errorf("could not encode string in code page %d: %w", codePage, err)
 	}
-
-	// For now, fall back to ISO-8859-1 encoding for other code pages
-	// This is a simplification and should be enhanced for full support
-	return []byte(s), nil
+	return []byte(encoded), nil
 }
-- 
2.43.0


From 0573c3914e58a2bb4125931bc3a844bd617401e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 14/59] fix: keep dates and versions that are not BCD as they
 are

---
 internal/dd/card_structure_version.go | 7 +++++++
 internal/dd/date.go                   | 8 ++++++++
 internal/dd/month_year.go             | 5 +++++
 3 files changed, 20 insertions(+)

diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index ccd83be..38f840d 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -59,6 +59,13 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 		}
 		copy(canvas[:], csv.GetRawData())
 	}
+	if _, err := decodeBCD(canvas[:]); err != nil {
+		if raw, err := (UnmarshalOptions{}).UnmarshalCardStructureVersion(canvas[:]); err == nil &&
+			raw.GetMajor() == csv.GetMajor() && raw.GetMinor() == csv.GetMinor() {
+			// The raw data is not BCD, and still stands for these values.
+			return append(dst, canvas[:]...), nil
+		}
+	}
 	major := csv.GetMajor()
 	majorBCD := byte((major/10)<<4) | byte(major%10)
 	canvas[0] = majorBCD
diff --git a/internal/dd/date.go b/internal/dd/date.go
index 1de883c..8085f2f 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -25,6 +25,10 @@ func (opts UnmarshalOptions) UnmarshalDate(input []byte) (*ddv1.Date, error) {
 	}
 	var output ddv1.Date
 	output.SetRawData(input[:lenDatef])
+	if _, err := decodeBCD(input); err != nil {
+		// Not a BCD date (e.g. FF padding): keep the raw data only.
+		return &output, nil
+	}
 	year := int32(int32((input[0]&0xF0)>>4)*1000 + int32(input[0]&0x0F)*100 + int32((input[1]&0xF0)>>4)*10 + int32(input[1]&0x0F))
 	month := int32(int32((input[2]&0xF0)>>4)*10 + int32(input[2]&0x0F))
 	day := int32(int32((input[3]&0xF0)>>4)*10 + int32(input[3]&0x0F))
@@ -61,6 +65,10 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
 	day := int(date.GetDay())
+	if _, err := decodeBCD(canvas[:]); err != nil && year == 0 && month == 0 && day == 0 {
+		// Unset because the raw data is not a BCD date.
+		return append(dst, canvas[:]...), nil
+	}
 	canvas[0] = byte((year/1000)%10<<4 | (year/100)%10)
 	canvas[1] = byte((year/10)%10<<4 | year%10)
 	canvas[2] = byte((month/10)%10<<4 | month%10)
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 5b1ff41..10b18d0 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -78,6 +78,11 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 	month := monthYear.GetMonth()
 	year := monthYear.GetYear()
 
+	if _, err := decodeBCD(canvas[:]); err != nil && month == 0 && year == 0 {
+		// Unset because the raw data is not a BCD month and year.
+		return append(dst, canvas[:]...), nil
+	}
+
 	// Convert 4-digit year to 2-digit for BCD encoding
 	year2Digit := year % 100
 
-- 
2.43.0


From 0b4496cc83b366aa4fb17a6366940759b7e8a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 15/59] fix: write control types with cleared flags and
 reserved bits

---
 internal/card/control_activity.go | 32 ++++---------------------------
 internal/dd/controltype.go        |  1 +
 2 files changed, 5 insertions(+), 28 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index e4b8bd3..4fdc0a7 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -150,35 +150,11 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 
 	// Valid record: serialize semantic data
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
-		}
-	}
-	data = append(data, controlTypeByte)
-
 	var err error
+	data, err = dd.AppendControlType(data, controlData.GetControlType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append control type: %w", err)
+	}
 
 	// Control time (4 bytes)
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..3a44214 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -55,6 +55,7 @@ func AppendControlType(dst []byte, controlType *ddv1.ControlType) ([]byte, error
 		}
 		copy(canvas[:], controlType.GetRawData())
 	}
+	canvas[0] &= 0x07 // the flags come from the fields, the reserved bits from raw_data
 	if controlType.GetCardDownloading() {
 		canvas[0] |= 0x80
 	}
-- 
2.43.0


From fbb7f4ffa9a8d3817a9946983eb5a90b0c0d95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 16/59] fix: keep vehicle identification numbers valid UTF-8
 and their padding as read

---
 internal/dd/card_vehicle_record_g2.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index f466497..6c1a535 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -83,7 +84,7 @@ func (opts UnmarshalOptions) UnmarshalCardVehicleRecordG2(data []byte) (*ddv1.Ca
 	// Parse VIN (17 bytes IA5String)
 	vinBytes := data[idxVIN : idxVIN+17]
 	vin := strings.TrimRight(string(vinBytes), "\x00 ") // Trim null bytes and spaces
-	record.SetVehicleIdentificationNumber(vin)
+	record.SetVehicleIdentificationNumber(strings.ToValidUTF8(vin, string(utf8.RuneError)))
 
 	return record, nil
 }
@@ -146,6 +147,13 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 
 	// VIN (17 bytes IA5String)
 	vin := record.GetVehicleIdentificationNumber()
+	if rawVIN := strings.TrimRight(string(canvas[31:48]), "\x00 "); strings.ToValidUTF8(rawVIN, string(utf8.RuneError)) == vin && record.HasRawData() {
+		// The raw data stands for this VIN, padding included.
+		return append(dst, canvas[:]...), nil
+	}
+	if len(vin) > 17 {
+		return nil, fmt.Errorf("vehicle identification number %q is longer than 17 bytes", vin)
+	}
 	vinBytes := make([]byte, 17)
 	copy(vinBytes, []byte(vin))
 	// Pad with spaces if shorter than 17 bytes
-- 
2.43.0


From dd85adbd1b56756422ba98c39ccfdac8f732c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 17/59] fix: refuse numbers, times, dates and coordinates that
 do not fit their encoding

---
 internal/dd/bcd_string.go      | 4 ++++
 internal/dd/date.go            | 3 +++
 internal/dd/geo_coordinates.go | 5 +++++
 internal/dd/time_real.go       | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/internal/dd/bcd_string.go b/internal/dd/bcd_string.go
index fca325e..98134aa 100644
--- a/internal/dd/bcd_string.go
+++ b/internal/dd/bcd_string.go
@@ -2,6 +2,7 @@ package dd
 
 import (
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -24,6 +25,9 @@ func (opts UnmarshalOptions) UnmarshalBcdString(input []byte) (*ddv1.BcdString,
 	if err != nil {
 		return nil, err
 	}
+	if value > math.MaxInt32 {
+		return nil, fmt.Errorf("BCD value %d does not fit in 32 bits", value)
+	}
 	var output ddv1.BcdString
 	output.SetValue(int32(value))
 	output.SetLength(int32(len(input)))
diff --git a/internal/dd/date.go b/internal/dd/date.go
index 8085f2f..cef912e 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -69,6 +69,9 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 		// Unset because the raw data is not a BCD date.
 		return append(dst, canvas[:]...), nil
 	}
+	if year < 0 || year > 9999 || month < 0 || month > 99 || day < 0 || day > 99 {
+		return nil, fmt.Errorf("invalid date: year %d, month %d, day %d", year, month, day)
+	}
 	canvas[0] = byte((year/1000)%10<<4 | (year/100)%10)
 	canvas[1] = byte((year/10)%10<<4 | year%10)
 	canvas[2] = byte((month/10)%10<<4 | month%10)
diff --git a/internal/dd/geo_coordinates.go b/internal/dd/geo_coordinates.go
index ecd2029..7776b52 100644
--- a/internal/dd/geo_coordinates.go
+++ b/internal/dd/geo_coordinates.go
@@ -65,6 +65,11 @@ func readInt24(data []byte) int32 {
 //
 // Unknown position marker: 0x7FFFFF (8388607 decimal)
 func AppendGeoCoordinates(dst []byte, geoCoords *ddv1.GeoCoordinates) ([]byte, error) {
+	for _, v := range []int32{geoCoords.GetLatitude(), geoCoords.GetLongitude()} {
+		if v < -1<<23 || v >= 1<<23 {
+			return nil, fmt.Errorf("coordinate %d does not fit in 3 bytes", v)
+		}
+	}
 	// Append latitude (3-byte signed integer)
 	dst = appendInt24(dst, geoCoords.GetLatitude())
 	// Append longitude (3-byte signed integer)
diff --git a/internal/dd/time_real.go b/internal/dd/time_real.go
index 568c20e..1dcdfac 100644
--- a/internal/dd/time_real.go
+++ b/internal/dd/time_real.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 
 	"google.golang.org/protobuf/types/known/timestamppb"
@@ -44,5 +45,8 @@ func AppendTimeReal(dst []byte, ts *timestamppb.Timestamp) ([]byte, error) {
 	if ts.GetNanos() > 0 {
 		return nil, fmt.Errorf("nanosecond resolution is not supported for TimeReal")
 	}
+	if s := ts.GetSeconds(); s < 0 || s > math.MaxUint32 {
+		return nil, fmt.Errorf("timestamp %d is outside the range of TimeReal", s)
+	}
 	return binary.BigEndian.AppendUint32(dst, uint32(ts.GetSeconds())), nil
 }
-- 
2.43.0


From 3d7ac6fdd2659a3fca529d81e499158632916e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 18/59] fix: refuse months and years that cannot be encoded

---
 internal/dd/month_year.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 10b18d0..dcdff43 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -83,6 +83,14 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 		return append(dst, canvas[:]...), nil
 	}
 
+	if month == 0 && year == 0 {
+		// Unset is written as zeros.
+		year = 2000
+	}
+	if month < 0 || month > 99 || year < 2000 || year > 2099 {
+		return nil, fmt.Errorf("month %d of year %d cannot be encoded", month, year)
+	}
+
 	// Convert 4-digit year to 2-digit for BCD encoding
 	year2Digit := year % 100
 
-- 
2.43.0


From b4b92832afc48d3a6b4bc444f48559a35aa2606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 19/59] fix: write odometer values of the whole 3-byte range
 and refuse others

---
 internal/card/gnss_places.go          |  7 +++----
 internal/dd/card_vehicle_record.go    | 18 ++++++++++--------
 internal/dd/card_vehicle_record_g2.go | 18 ++++++++++--------
 internal/dd/odometer.go               |  8 ++++++++
 internal/dd/place_record.go           |  5 ++++-
 internal/dd/place_record_g2.go        |  5 ++++-
 6 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index 8e57a1f..66635f3 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -217,11 +217,10 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 	}
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
-	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
-		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
+	dst, err = dd.AppendOdometerKm(dst, record.GetVehicleOdometerKm())
+	if err != nil {
+		return nil, fmt.Errorf("invalid vehicle odometer value: %w", err)
 	}
-	dst = dd.AppendOdometer(dst, uint32(odometer))
 
 	return dst, nil
 }
diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index 956ea9e..d3e8ad8 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -98,16 +98,18 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	var err error
 
 	// Odometer begin (3 bytes)
-	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
-	canvas[0] = byte(odometerBegin >> 16)
-	canvas[1] = byte(odometerBegin >> 8)
-	canvas[2] = byte(odometerBegin)
+	odometerBegin, err := AppendOdometerKm(nil, record.GetVehicleOdometerBeginKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer begin: %w", err)
+	}
+	copy(canvas[0:3], odometerBegin)
 
 	// Odometer end (3 bytes)
-	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
-	canvas[3] = byte(odometerEnd >> 16)
-	canvas[4] = byte(odometerEnd >> 8)
-	canvas[5] = byte(odometerEnd)
+	odometerEnd, err := AppendOdometerKm(nil, record.GetVehicleOdometerEndKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer end: %w", err)
+	}
+	copy(canvas[3:6], odometerEnd)
 
 	// Vehicle first use (4 bytes)
 	firstUseBytes, err := AppendTimeReal(nil, record.GetVehicleFirstUse())
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index 6c1a535..b27c3d9 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -106,16 +106,18 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	var err error
 
 	// Odometer begin (3 bytes)
-	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
-	canvas[0] = byte(odometerBegin >> 16)
-	canvas[1] = byte(odometerBegin >> 8)
-	canvas[2] = byte(odometerBegin)
+	odometerBegin, err := AppendOdometerKm(nil, record.GetVehicleOdometerBeginKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer begin: %w", err)
+	}
+	copy(canvas[0:3], odometerBegin)
 
 	// Odometer end (3 bytes)
-	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
-	canvas[3] = byte(odometerEnd >> 16)
-	canvas[4] = byte(odometerEnd >> 8)
-	canvas[5] = byte(odometerEnd)
+	odometerEnd, err := AppendOdometerKm(nil, record.GetVehicleOdometerEndKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer end: %w", err)
+	}
+	copy(canvas[3:6], odometerEnd)
 
 	// Vehicle first use (4 bytes)
 	firstUseBytes, err := AppendTimeReal(nil, record.GetVehicleFirstUse())
diff --git a/internal/dd/odometer.go b/internal/dd/odometer.go
index 3a59d08..bdc7d21 100644
--- a/internal/dd/odometer.go
+++ b/internal/dd/odometer.go
@@ -21,6 +21,14 @@ func AppendOdometer(dst []byte, odometer uint32) []byte {
 	return append(dst, b[1:]...)
 }
 
+// AppendOdometerKm appends a 3-byte odometer value, or fails if it does not fit.
+func AppendOdometerKm(dst []byte, km int32) ([]byte, error) {
+	if km < 0 || km >= 1<<24 {
+		return nil, fmt.Errorf("odometer value %d does not fit in 3 bytes", km)
+	}
+	return AppendOdometer(dst, uint32(km)), nil
+}
+
 // UnmarshalOdometer unmarshals a 3-byte odometer value.
 //
 // The data type `OdometerShort` is specified in the Data Dictionary, Section 2.113.
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 79f3c68..9324bbb 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -122,7 +122,10 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
-	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
+	odometerBytes, err := AppendOdometerKm(nil, rec.GetVehicleOdometerKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer: %w", err)
+	}
 	copy(canvas[7:10], odometerBytes)
 
 	return append(dst, canvas[:]...), nil
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 489dae5..84e780b 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -130,7 +130,10 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
-	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
+	odometerBytes, err := AppendOdometerKm(nil, rec.GetVehicleOdometerKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer: %w", err)
+	}
 	copy(canvas[7:10], odometerBytes)
 
 	// GNSS place record (11 bytes)
-- 
2.43.0


From e50e134ce29a9f542fe373b507f3bac66a790b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 20/59] fix: keep the activity change of a break from midnight

---
 internal/card/activity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..f862704 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -180,7 +180,7 @@ func (opts UnmarshalOptions) parseSingleActivityDailyRecord(data []byte) (*cardv
 	for offset+2 <= len(data) {
 		// Check for invalid entries before parsing (all zeros or all ones)
 		changeData := binary.BigEndian.Uint16(data[offset : offset+2])
-		if changeData == 0 || changeData == 0xFFFF {
+		if changeData == 0xFFFF {
 			offset += 2
 			continue
 		}
-- 
2.43.0


From 45e4e4d70b462ffd1bf501f89f7fddbc411bbeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 21/59] fix: follow activity records whose header wraps around,
 and as many as the buffer holds

---
 internal/card/activity.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index f862704..dd1c2d3 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -261,7 +261,7 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
-	recordCount int
+	totalLength int
 	err         error
 
 	// Current record state
@@ -283,24 +283,23 @@ func NewCyclicRecordIterator(buffer []byte, startPos int) *cyclicRecordIterator
 // Returns true if a record was found, false if end of chain or error.
 // The iterator traverses backwards from newest to oldest record.
 func (it *cyclicRecordIterator) Next() bool {
-	const maxRecords = 366 // Safety limit to prevent infinite loops (max days per year + 1)
 	if it.err != nil {
 		return false
 	}
-	if it.recordCount >= maxRecords {
-		it.err = fmt.Errorf("exceeded maximum record count (%d), possible infinite loop", maxRecords)
-		return false
-	}
-	if len(it.buffer) == 0 {
+	if len(it.buffer) < 4 {
 		return false // No data to parse
 	}
 	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
+	if it.currentPos < 0 || it.currentPos >= len(it.buffer) {
 		return false // Invalid position for header
 	}
-	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	// Read record header (4 bytes: prevRecordLength + currentRecordLength), which may wrap around
+	var header [4]byte
+	for i := range header {
+		header[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
+	}
+	prevRecordLength := int(binary.BigEndian.Uint16(header[0:2]))
+	currentRecordLength := int(binary.BigEndian.Uint16(header[2:4]))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
@@ -309,6 +308,11 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// The records of a chain lie side by side: together they fit the buffer
+	it.totalLength += currentRecordLength
+	if it.totalLength > len(it.buffer) {
+		return false // Runs into records already read
+	}
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
@@ -317,7 +321,6 @@ func (it *cyclicRecordIterator) Next() bool {
 	for i := 0; i < currentRecordLength; i++ {
 		it.recordBytes[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
 	}
-	it.recordCount++
 	// Move to previous record for next iteration
 	if prevRecordLength == 0 {
 		// End of chain marker - no more records
-- 
2.43.0


From a1126a0df572597bec5379bed2e06a483c4c8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 22/59] fix: attach a signature only to the file of its own
 generation

---
 internal/card/driver_card_file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 5b15c67..01905ef 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -72,7 +72,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		var signature []byte
 		if i+1 < len(input.GetRecords()) {
 			nextRecord := input.GetRecords()[i+1]
-			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+			if nextRecord.GetFile() == record.GetFile() &&
+				nextRecord.GetGeneration() == efGeneration &&
+				nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
 				signature = nextRecord.GetValue()
 				i++
 			}
-- 
2.43.0


From 1a06db853a126600191216244b19c63d650f2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 23/59] fix: refuse files of the Gen2 application that are
 named as Gen1

---
 internal/card/driver_card_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 01905ef..1199303 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -453,6 +453,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 
 		case cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_VEHICLE_UNITS_USED should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			vehicleUnits, err := opts.unmarshalVehicleUnitsUsed(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -468,6 +471,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetVehicleUnitsUsed(vehicleUnits)
 
 		case cardv1.ElementaryFileType_EF_GNSS_PLACES:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_GNSS_PLACES should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			gnssPlaces, err := opts.unmarshalGnssPlaces(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -483,6 +489,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			tachographG2DF.SetGnssPlaces(gnssPlaces)
 
 		case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2:
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_APPLICATION_IDENTIFICATION_V2 should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			appIdV2, err := opts.unmarshalApplicationIdentificationV2(record.GetValue())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 424ea76521e3a3c7f894ccce19ce6b8345600c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 24/59] fix: refuse fixed-size card files that are too long
 instead of dropping the excess

---
 internal/card/application_identification_v2.go | 4 ++--
 internal/card/card_download.go                 | 4 ++--
 internal/card/control_activity.go              | 4 ++--
 internal/card/current_usage.go                 | 4 ++--
 internal/card/driving_licence.go               | 4 ++--
 internal/card/ic.go                            | 4 ++--
 internal/card/icc.go                           | 4 ++--
 internal/card/identification.go                | 6 +++---
 8 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 35f31f7..074d4e2 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -25,8 +25,8 @@ const lenEfApplicationIdentificationV2 = 10
 //	    vuConfigurationLengthRange   INTEGER(0..2^16-1)
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
-	if len(data) < lenEfApplicationIdentificationV2 {
-		return nil, fmt.Errorf("insufficient data for application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
+	if len(data) != lenEfApplicationIdentificationV2 {
+		return nil, fmt.Errorf("invalid length of application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
 	}
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
diff --git a/internal/card/card_download.go b/internal/card/card_download.go
index a0aa448..dd90477 100644
--- a/internal/card/card_download.go
+++ b/internal/card/card_download.go
@@ -20,8 +20,8 @@ func (opts UnmarshalOptions) unmarshalCardDownload(data []byte) (*cardv1.CardDow
 		lenCardDownloadDriver = 4 // TimeReal size
 	)
 
-	if len(data) < lenCardDownloadDriver {
-		return nil, fmt.Errorf("insufficient data for card download")
+	if len(data) != lenCardDownloadDriver {
+		return nil, fmt.Errorf("invalid length of card download: got %d bytes, need %d", len(data), lenCardDownloadDriver)
 	}
 
 	var target cardv1.CardDownloadDriver
diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 4fdc0a7..7d8e372 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -29,8 +29,8 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 		lenCardControlActivityDataRecord = 46 // CardControlActivityDataRecord total size
 	)
 
-	if len(data) < lenCardControlActivityDataRecord {
-		return nil, fmt.Errorf("insufficient data for control activity data")
+	if len(data) != lenCardControlActivityDataRecord {
+		return nil, fmt.Errorf("invalid length of control activity data: got %d bytes, need %d", len(data), lenCardControlActivityDataRecord)
 	}
 	var target cardv1.ControlActivityData
 	controlTime := binary.BigEndian.Uint32(data[1:5])
diff --git a/internal/card/current_usage.go b/internal/card/current_usage.go
index a6de7f7..4595b07 100644
--- a/internal/card/current_usage.go
+++ b/internal/card/current_usage.go
@@ -23,8 +23,8 @@ func (opts UnmarshalOptions) unmarshalCurrentUsage(data []byte) (*cardv1.Current
 		lenCardCurrentUse = 19 // 4 bytes time + 15 bytes vehicle registration
 	)
 
-	if len(data) < lenCardCurrentUse {
-		return nil, fmt.Errorf("insufficient data for current usage")
+	if len(data) != lenCardCurrentUse {
+		return nil, fmt.Errorf("invalid length of current usage: got %d bytes, need %d", len(data), lenCardCurrentUse)
 	}
 	var target cardv1.CurrentUsage
 	offset := 0
diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 9b044ce..22805ce 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -26,8 +26,8 @@ func (opts UnmarshalOptions) unmarshalDrivingLicenceInfo(data []byte) (*cardv1.D
 		lenCardDrivingLicenceInformation = 53 // CardDrivingLicenceInformation total size
 	)
 
-	if len(data) < lenCardDrivingLicenceInformation {
-		return nil, errors.New("not enough data for DrivingLicenceInfo")
+	if len(data) != lenCardDrivingLicenceInformation {
+		return nil, errors.New("invalid length of DrivingLicenceInfo")
 	}
 	var dli cardv1.DrivingLicenceInfo
 	offset := 0
diff --git a/internal/card/ic.go b/internal/card/ic.go
index 43677e9..8a40e10 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -24,8 +24,8 @@ func (opts UnmarshalOptions) unmarshalIc(data []byte) (*cardv1.Ic, error) {
 		lenCardChipIdentification    = lenIcSerialNumber + lenIcManufacturingReferences
 	)
 
-	if len(data) < lenCardChipIdentification {
-		return nil, fmt.Errorf("insufficient data for IC identification: got %d bytes, need %d", len(data), lenCardChipIdentification)
+	if len(data) != lenCardChipIdentification {
+		return nil, fmt.Errorf("invalid length of IC identification: got %d bytes, need %d", len(data), lenCardChipIdentification)
 	}
 
 	var target cardv1.Ic
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 8606bee..82c62a9 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -37,8 +37,8 @@ func (opts UnmarshalOptions) unmarshalIcc(data []byte) (*cardv1.Icc, error) {
 	)
 
 	var icc cardv1.Icc
-	if len(data) < lenCardIccIdentification {
-		return nil, errors.New("not enough data for IccIdentification")
+	if len(data) != lenCardIccIdentification {
+		return nil, errors.New("invalid length of IccIdentification")
 	}
 	offset := 0
 
diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..cee2ebd 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -43,11 +43,11 @@ func createIA5StringValue(value string, length int32) *ddv1.Ia5StringValue {
 //	}
 func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Identification, error) {
 	const (
-		lenMinIdentification = 143 // Minimum size for EF_Identification
+		lenIdentification = 143 // Size of EF_Identification
 	)
 
-	if len(data) < lenMinIdentification {
-		return nil, errors.New("not enough data for EF_Identification")
+	if len(data) != lenIdentification {
+		return nil, errors.New("invalid length of EF_Identification")
 	}
 
 	var identification cardv1.Identification
-- 
2.43.0


From df956cdbd7af0148124ca6d7734f9804bd18bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 25/59] fix: refuse driver card records with undefined tag
 appendices

---
 internal/card/driver_card_file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1199303..d7b68f2 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -59,6 +59,11 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		if record.GetContentType() != cardv1.ContentType_DATA {
 			return nil, fmt.Errorf("record %d has unexpected content type", i)
 		}
+		// Only the two lowest bits of the tag appendix have a meaning, and the
+		// others would be lost when the file is written back
+		if appendix := record.GetTag() & 0xFF; appendix > 0x03 {
+			return nil, fmt.Errorf("record %d has unexpected tag appendix: %02Xh", i, appendix)
+		}
 
 		// Use generation already parsed from the TLV tag appendix
 		// (set during unmarshalRawCardFileRecord)
@@ -75,6 +80,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			if nextRecord.GetFile() == record.GetFile() &&
 				nextRecord.GetGeneration() == efGeneration &&
 				nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+				if appendix := nextRecord.GetTag() & 0xFF; appendix > 0x03 {
+					return nil, fmt.Errorf("record %d has unexpected tag appendix: %02Xh", i+1, appendix)
+				}
 				signature = nextRecord.GetValue()
 				i++
 			}
-- 
2.43.0


From f788e4495498b9fabb8365da29b9d841a0c7d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 26/59] fix: refuse event and fault files that end inside a
 record

---
 internal/card/events.go | 3 +++
 internal/card/faults.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/card/events.go b/internal/card/events.go
index da14705..8c10fc4 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -44,6 +44,9 @@ func splitCardEventRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsData, error) {
+	if len(data)%cardEventRecordSize != 0 {
+		return nil, fmt.Errorf("invalid length of events data: %d bytes are no whole number of %d-byte records", len(data), cardEventRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardEventRecord)
 
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 1389d25..35bfc00 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -44,6 +44,9 @@ func splitCardFaultRecord(data []byte, atEOF bool) (advance int, token []byte, e
 }
 
 func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsData, error) {
+	if len(data)%cardFaultRecordSize != 0 {
+		return nil, fmt.Errorf("invalid length of faults data: %d bytes are no whole number of %d-byte records", len(data), cardFaultRecordSize)
+	}
 	scanner := bufio.NewScanner(bytes.NewReader(data))
 	scanner.Split(splitCardFaultRecord)
 
-- 
2.43.0


From cfaa6ca061c49c1774be4d1db248e1ca991e2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 27/59] fix: keep an incomplete record at the end of a card
 file when writing it back

---
 internal/card/places.go              | 7 ++++---
 internal/card/places_g2.go           | 7 ++++---
 internal/card/specific_conditions.go | 7 ++++---
 internal/card/vehicles_used.go       | 7 ++++---
 internal/card/vehicles_used_g2.go    | 7 ++++---
 5 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/internal/card/places.go b/internal/card/places.go
index 80e1ab8..2060b18 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -87,10 +87,11 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 1 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size (an incomplete record
+	// at the end is kept)
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (1 byte for Gen1)
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 89b5525..c979142 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -88,10 +88,11 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	numRecords := len(p.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := p.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size (an incomplete record
+	// at the end is kept)
+	if rawData := p.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (2 bytes for Gen2)
diff --git a/internal/card/specific_conditions.go b/internal/card/specific_conditions.go
index bc62edc..01313ec 100644
--- a/internal/card/specific_conditions.go
+++ b/internal/card/specific_conditions.go
@@ -71,10 +71,11 @@ func appendCardSpecificConditions(data []byte, conditions *cardv1.SpecificCondit
 	numRecords := len(conditions.GetRecords())
 	expectedSize := numRecords * recordSize
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := conditions.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size (an incomplete record
+	// at the end is kept)
+	if rawData := conditions.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint each record over canvas
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index ef945c9..0e631ca 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -84,10 +84,11 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size (an incomplete record
+	// at the end is kept)
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 1694a59..8c0cbf9 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -84,10 +84,11 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	numRecords := len(vehiclesUsed.GetRecords())
 	expectedSize := 2 + (numRecords * recordSize)
 
-	// Use raw_data as canvas if available and correct size
-	if rawData := vehiclesUsed.GetRawData(); len(rawData) == expectedSize {
+	// Use raw_data as canvas if available and correct size (an incomplete record
+	// at the end is kept)
+	if rawData := vehiclesUsed.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 		// Make a copy to use as canvas
-		canvas := make([]byte, expectedSize)
+		canvas := make([]byte, len(rawData))
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
-- 
2.43.0


From 4b6e9c9311ea85910918bf0ba73979ad065c0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 28/59] fix: do not write removed specific condition records
 back

---
 internal/card/specific_conditions_g2.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..969c2e5 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -72,12 +72,14 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return data, nil
 	}
 
-	// Use raw_data as canvas if available (includes pointer + records + trailing bytes)
-	if rawData := conditions.GetRawData(); len(rawData) > 0 {
-		const (
-			lenPointer = 2
-			recordSize = 5
-		)
+	const (
+		lenPointer = 2
+		recordSize = 5
+	)
+	expectedSize := lenPointer + len(conditions.GetRecords())*recordSize
+
+	// Use raw_data as canvas if available and of the right size (includes pointer + records + trailing bytes)
+	if rawData := conditions.GetRawData(); len(rawData) >= expectedSize && len(rawData) < expectedSize+recordSize {
 
 		// Make a copy to use as canvas
 		canvas := make([]byte, len(rawData))
@@ -89,10 +91,6 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		// Paint each record over canvas
 		offset := lenPointer
 		for _, record := range conditions.GetRecords() {
-			if offset+recordSize > len(canvas) {
-				// Canvas too small for all records, fall back to building from scratch
-				goto fallback
-			}
 			recordBytes, err := dd.AppendSpecificConditionRecord(nil, record)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append specific condition record: %w", err)
@@ -108,7 +106,6 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		return append(data, canvas...), nil
 	}
 
-fallback:
 	// Fall back to building from scratch
 	pointerBytes := make([]byte, 2)
 	binary.BigEndian.PutUint16(pointerBytes, uint16(conditions.GetNewestRecordIndex()))
-- 
2.43.0


From c54d158ab4b3dd9ec9e433dc1aa0c579efb80b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 29/59] fix: write card numbers with the padding and bytes they
 were read with

---
 internal/card/identification.go | 100 ++++++++++++++++----------------
 1 file changed, 49 insertions(+), 51 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index cee2ebd..c1c4b0c 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -277,6 +277,29 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	return &identification, nil
 }
 
+// putCardNumberPart writes a part of a card number, padded with spaces.
+//
+// The original bytes are used if they stand for the value, since trimming and
+// decoding lose the kind of padding and bytes that are not ASCII.
+func putCardNumberPart(part []byte, sv *ddv1.Ia5StringValue) error {
+	value := sv.GetValue()
+	if raw := sv.GetRawData(); len(raw) == len(part) {
+		original, err := dd.UnmarshalOptions{}.UnmarshalIa5StringValue(raw)
+		if err == nil && original.GetValue() == value {
+			copy(part, raw)
+			return nil
+		}
+	}
+	if len(value) > len(part) {
+		return fmt.Errorf("value %q is longer than %d bytes", value, len(part))
+	}
+	for i := range part {
+		part[i] = ' '
+	}
+	copy(part, value)
+	return nil
+}
+
 // AppendCardIdentification appends the binary representation of CardIdentification to dst.
 //
 // The data type `CardIdentification` is specified in the Data Dictionary, Section 2.1.
@@ -330,69 +353,44 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	cardNumberBytes := make([]byte, 16)
 	if driverID := id.GetDriverIdentification(); driverID != nil {
 		// Driver card: 14 bytes identification + 1 byte replacement + 1 byte renewal
-		identification := driverID.GetDriverIdentificationNumber()
-		if identification != nil {
-			// Pad or truncate to exactly 14 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 14 {
-				identStr = identStr[:14]
-			}
-			copy(cardNumberBytes[0:14], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 14; i++ {
-				cardNumberBytes[i] = ' '
+		if identification := driverID.GetDriverIdentificationNumber(); identification != nil {
+			if err := putCardNumberPart(cardNumberBytes[0:14], identification); err != nil {
+				return nil, fmt.Errorf("failed to marshal driver identification: %w", err)
 			}
 		}
-		// Write replacement and renewal indices (1 byte each)
-		replacementIndex := driverID.GetCardReplacementIndex()
-		if replacementIndex != nil && len(replacementIndex.GetValue()) > 0 {
-			cardNumberBytes[14] = replacementIndex.GetValue()[0]
-		} else {
-			cardNumberBytes[14] = '0' // Default replacement index
+		// Write replacement and renewal indices (1 byte each), '0' by default
+		cardNumberBytes[14] = '0'
+		if replacementIndex := driverID.GetCardReplacementIndex(); replacementIndex != nil {
+			if err := putCardNumberPart(cardNumberBytes[14:15], replacementIndex); err != nil {
+				return nil, fmt.Errorf("failed to marshal card replacement index: %w", err)
+			}
 		}
-		renewalIndex := driverID.GetCardRenewalIndex()
-		if renewalIndex != nil && len(renewalIndex.GetValue()) > 0 {
-			cardNumberBytes[15] = renewalIndex.GetValue()[0]
-		} else {
-			cardNumberBytes[15] = '0' // Default renewal index
+		cardNumberBytes[15] = '0'
+		if renewalIndex := driverID.GetCardRenewalIndex(); renewalIndex != nil {
+			if err := putCardNumberPart(cardNumberBytes[15:16], renewalIndex); err != nil {
+				return nil, fmt.Errorf("failed to marshal card renewal index: %w", err)
+			}
 		}
 	} else if ownerID := id.GetOwnerIdentification(); ownerID != nil {
 		// Other cards: 13 bytes identification + 1 byte consecutive + 1 byte replacement + 1 byte renewal
-		identification := ownerID.GetOwnerIdentification()
-		if identification != nil {
-			// Pad or truncate to exactly 13 bytes
-			identStr := identification.GetValue()
-			if len(identStr) > 13 {
-				identStr = identStr[:13]
-			}
-			copy(cardNumberBytes[0:13], []byte(identStr))
-			// Pad with spaces if needed
-			for i := len(identStr); i < 13; i++ {
-				cardNumberBytes[i] = ' '
+		if identification := ownerID.GetOwnerIdentification(); identification != nil {
+			if err := putCardNumberPart(cardNumberBytes[0:13], identification); err != nil {
+				return nil, fmt.Errorf("failed to marshal owner identification: %w", err)
 			}
 		}
-		consecutive := ownerID.GetConsecutiveIndex()
-		if consecutive != nil {
-			// Convert string to byte value
-			consecutiveStr := consecutive.GetValue()
-			if len(consecutiveStr) > 0 {
-				cardNumberBytes[13] = consecutiveStr[0]
+		if consecutive := ownerID.GetConsecutiveIndex(); consecutive != nil {
+			if err := putCardNumberPart(cardNumberBytes[13:14], consecutive); err != nil {
+				return nil, fmt.Errorf("failed to marshal consecutive index: %w", err)
 			}
 		}
-		replacement := ownerID.GetReplacementIndex()
-		if replacement != nil {
-			// Convert string to byte value
-			replacementStr := replacement.GetValue()
-			if len(replacementStr) > 0 {
-				cardNumberBytes[14] = replacementStr[0]
+		if replacement := ownerID.GetReplacementIndex(); replacement != nil {
+			if err := putCardNumberPart(cardNumberBytes[14:15], replacement); err != nil {
+				return nil, fmt.Errorf("failed to marshal replacement index: %w", err)
 			}
 		}
-		renewal := ownerID.GetRenewalIndex()
-		if renewal != nil {
-			// Convert string to byte value
-			renewalStr := renewal.GetValue()
-			if len(renewalStr) > 0 {
-				cardNumberBytes[15] = renewalStr[0]
+		if renewal := ownerID.GetRenewalIndex(); renewal != nil {
+			if err := putCardNumberPart(cardNumberBytes[15:16], renewal); err != nil {
+				return nil, fmt.Errorf("failed to marshal renewal index: %w", err)
 			}
 		}
 	}
-- 
2.43.0


From 9676e1d86b71855aae38d9ff5dd97898c1ea4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 30/59] fix: refuse chip files that are named as part of the
 Gen2 application

---
 internal/card/driver_card_file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index d7b68f2..3455f18 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -90,6 +90,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 
 		switch record.GetFile() {
 		case cardv1.ElementaryFileType_EF_ICC:
+			if efGeneration != ddv1.Generation_GENERATION_1 {
+				return nil, fmt.Errorf("EF_ICC should only appear in the MF, got generation: %v", efGeneration)
+			}
 			icc, err := opts.unmarshalIcc(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -100,6 +103,9 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			output.SetIcc(icc)
 
 		case cardv1.ElementaryFileType_EF_IC:
+			if efGeneration != ddv1.Generation_GENERATION_1 {
+				return nil, fmt.Errorf("EF_IC should only appear in the MF, got generation: %v", efGeneration)
+			}
 			ic, err := opts.unmarshalIc(record.GetValue())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From f609c3a2e177ea99355d29902fdf157d28b9be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 31/59] fix: refuse RSA signatures that are not below the
 modulus

---
 internal/security/rsa_verify.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 64c5263..deef1c3 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -130,6 +130,13 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	modulus := new(big.Int).SetBytes(caModulus)
 	exponent := new(big.Int).SetBytes(caExponent)
 
+	// A signature is a number below the modulus. This also refuses a zero modulus,
+	// for which big.Int.Exp does not reduce.
+	if sigInt.Cmp(modulus) >= 0 {
+		cert.SetSignatureValid(false)
+		return fmt.Errorf("signature is not below the CA modulus")
+	}
+
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
 	srPrime := recovered.Bytes()
 
-- 
2.43.0


From 4dce90e083a738fb709899ef6131e96a67dfe86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 32/59] fix: do not leave a certificate marked valid after a
 failed verification

---
 internal/security/ecc_verify.go | 2 ++
 internal/security/rsa_verify.go | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 42265d4..918cede 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -38,6 +38,8 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	// Until verification succeeds, an earlier success does not count.
+	cert.SetSignatureValid(false)
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index deef1c3..c497028 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -19,6 +19,9 @@ import (
 // See Appendix 11, Section 3.3 for the complete specification.
 func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securityv1.RsaCertificate) error {
 	if caCert == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
 
@@ -39,6 +42,9 @@ func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securit
 // RSA certificate verification.
 func VerifyRsaCertificateWithRoot(cert *securityv1.RsaCertificate, root *securityv1.RootCertificate) error {
 	if root == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("root certificate cannot be nil")
 	}
 
@@ -91,6 +97,8 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	// Until verification succeeds, an earlier success does not count.
+	cert.SetSignatureValid(false)
 
 	rawData := cert.GetRawData()
 	if len(rawData) != 194 {
-- 
2.43.0


From 87889b4477bb7df1e8ee3f9e5176e1b903d884cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 33/59] fix: refuse authority keys that are not points of their
 curve

---
 internal/security/ecc_verify.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 918cede..5b3b609 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -115,6 +115,12 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
 
+	// The curve operations are defined for points of the curve only.
+	fieldPrime := curve.Params().P
+	if caX.Cmp(fieldPrime) >= 0 || caY.Cmp(fieldPrime) >= 0 || !curve.IsOnCurve(caX, caY) {
+		return fmt.Errorf("CA public point is not on its curve")
+	}
+
 	caPub := &ecdsa.PublicKey{
 		Curve: curve,
 		X:     caX,
-- 
2.43.0


From 5fe096b34ecc873fa4700075a2ad5d2a73b49793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 34/59] fix: reset the certificates of a card before verifying
 them

---
 internal/card/driver_card_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 3455f18..f2663bb 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1145,6 +1145,15 @@ func (o VerifyOptions) VerifyDriverCardFile(ctx context.Context, file *cardv1.Dr
 		return fmt.Errorf("driver card file cannot be nil")
 	}
 
+	// Until its chain is verified, no certificate counts as valid, whatever an
+	// earlier verification found.
+	if cert := file.GetTachograph().GetCardCertificate().GetRsaCertificate(); cert != nil {
+		cert.SetSignatureValid(false)
+	}
+	if cert := file.GetTachographG2().GetCardSignCertificate().GetEccCertificate(); cert != nil {
+		cert.SetSignatureValid(false)
+	}
+
 	// Verify Generation 1 certificates (RSA)
 	if tachograph := file.GetTachograph(); tachograph != nil {
 		if err := o.verifyGen1Certificates(ctx, tachograph); err != nil {
-- 
2.43.0


From a72928582c30a1d494aae0adebe9cfcfcd92b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 35/59] fix: do not hand out the embedded root key itself

---
 internal/cert/certcache/embed.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index 0268fb3..a83d41a 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -1,7 +1,10 @@
 // Package certcache provides an embedded cache of certificates.
 package certcache
 
-import "embed"
+import (
+	"bytes"
+	"embed"
+)
 
 //go:embed root/EC_PK.bin
 var root []byte
@@ -14,7 +17,8 @@ var g2 embed.FS
 
 // Root returns the ERCA root certificate.
 func Root() []byte {
-	return root
+	// Every caller gets a copy, as parsed certificates keep parts of it.
+	return bytes.Clone(root)
 }
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
-- 
2.43.0


From 3e27cb51c3d3433f466e9a160dae8a2b7a814fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 36/59] fix: keep the download interface version of a vehicle
 unit download

---
 internal/vu/download_interface_version.go | 17 +++++++++++++++++
 internal/vu/vehicle_unit_file.go          |  8 +++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/vu/download_interface_version.go b/internal/vu/download_interface_version.go
index 69d6dcb..57c8f0b 100644
--- a/internal/vu/download_interface_version.go
+++ b/internal/vu/download_interface_version.go
@@ -3,6 +3,7 @@ package vu
 import (
 	"fmt"
 
+	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
 )
 
@@ -38,3 +39,19 @@ func sizeOfDownloadInterfaceVersion(data []byte, transferType vuv1.TransferType)
 // ASN.1 Definition:
 //
 //	DownloadInterfaceVersion ::= OCTET STRING (SIZE (2))
+func unmarshalDownloadInterfaceVersion(value []byte) (*vuv1.DownloadInterfaceVersion, error) {
+	const lenDownloadInterfaceVersion = 2
+	if len(value) != lenDownloadInterfaceVersion {
+		return nil, fmt.Errorf("invalid data length for DownloadInterfaceVersion: got %d, want %d", len(value), lenDownloadInterfaceVersion)
+	}
+	version := &vuv1.DownloadInterfaceVersion{}
+	version.SetRawData(value)
+	// Generation 2, version 2 is coded '0202'H in Appendix 7, Section 2.2.6.1 and
+	// '0101'H in Data Dictionary, Section 2.60a. No other value is defined.
+	switch [lenDownloadInterfaceVersion]byte(value) {
+	case [...]byte{0x02, 0x02}, [...]byte{0x01, 0x01}:
+		version.SetGeneration(ddv1.Generation_GENERATION_2)
+		version.SetVersion(ddv1.Version_VERSION_2)
+	}
+	return version, nil
+}
diff --git a/internal/vu/vehicle_unit_file.go b/internal/vu/vehicle_unit_file.go
index c0396e9..8fce776 100644
--- a/internal/vu/vehicle_unit_file.go
+++ b/internal/vu/vehicle_unit_file.go
@@ -219,9 +219,11 @@ func unmarshalVehicleUnitFileGen2V2(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
-			// Download interface version can be parsed if needed
-			// For now, skip as it's mainly used for version detection
-			// output.SetDownloadInterfaceVersion(...)
+			version, err := unmarshalDownloadInterfaceVersion(record.GetValue())
+			if err != nil {
+				return nil, fmt.Errorf("unmarshal Download Interface Version: %w", err)
+			}
+			output.SetDownloadInterfaceVersion(version)
 
 		case vuv1.TransferType_OVERVIEW_GEN2_V2:
 			overview, err := unmarshalOverviewGen2V2(record.GetValue())
-- 
2.43.0


From 7e8ab3ff354e22b69128d5ddd32b9baf767735c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 37/59] fix: decode the card slot states of a vehicle unit
 overview by their codes

---
 internal/vu/overview_gen1.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 59f1884..ab92420 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -137,8 +137,14 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		return nil, fmt.Errorf("insufficient data for CardSlotsStatus")
 	}
 	cardSlotsStatus := value[offset]
-	driverSlot := ddv1.SlotCardType(cardSlotsStatus & 0x0F)
-	coDriverSlot := ddv1.SlotCardType((cardSlotsStatus >> 4) & 0x0F)
+	driverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType](cardSlotsStatus & 0x0F)
+	if err != nil {
+		driverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
+	coDriverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType](cardSlotsStatus >> 4)
+	if err != nil {
+		coDriverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
 	overview.SetDriverSlotCard(driverSlot)
 	overview.SetCoDriverSlotCard(coDriverSlot)
 	offset += 1
-- 
2.43.0


From d5b167f3eeb4cfdec54e8e04196e45d17ee622ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 38/59] fix: recognise driver card numbers with an index above
 nine

Card replacement and renewal indices run 0..9, A..Z (Data Dictionary 2.30,
2.31). An index A..Z made the card number of a driver card decode as that of
a workshop card.
---
 internal/card/identification.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index c1c4b0c..b594cd1 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -83,15 +83,15 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	// Determine card type based on the data structure
 	// Driver cards have 14 bytes for identification, other cards have 13 bytes
 	// We can detect this by checking if the 14th byte is a valid IA5String character
-	// and if the 15th and 16th bytes are single digits (replacement/renewal indices)
+	// and if the 15th and 16th bytes are replacement and renewal indices
 
 	// Try to parse as driver card first (14 + 1 + 1 format)
 	driverIdentification, err := opts.UnmarshalIa5StringValue(cardNumberData[0:14])
 	if err == nil {
-		// Check if bytes 14 and 15 are single digits (0-9)
+		// Check if bytes 14 and 15 are card indices (0-9, A-Z)
 		replacementByte := cardNumberData[14]
 		renewalByte := cardNumberData[15]
-		if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
+		if isCardIndex(replacementByte) && isCardIndex(renewalByte) {
 			// This looks like a driver card format
 			driverID := &ddv1.DriverIdentification{}
 			driverID.SetDriverIdentificationNumber(driverIdentification)
@@ -277,6 +277,12 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 	return &identification, nil
 }
 
+// isCardIndex reports whether b is a card replacement or renewal index, which
+// increase in the order '0, ..., 9, A, ..., Z'.
+func isCardIndex(b byte) bool {
+	return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z'
+}
+
 // putCardNumberPart writes a part of a card number, padded with spaces.
 //
 // The original bytes are used if they stand for the value, since trimming and
-- 
2.43.0


From d841f3795acfb2db81be33c404e7990d5045c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 39/59] fix: verify a copy of the certificate authority's
 certificate

VerifyFile recovered the key of a generation 1 CA certificate into the object
the resolver returned, so that concurrent verifications with a resolver that
shares its certificates wrote to the same object.
---
 internal/card/driver_card_file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f2663bb..f8fdfc2 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1202,7 +1202,10 @@ func (o VerifyOptions) verifyGen1Certificates(ctx context.Context, tachograph *c
 				return fmt.Errorf("failed to get root CA certificate: %w", err)
 			}
 
-			// Verify the CA certificate against the root CA to populate its public key
+			// Verify the CA certificate against the root CA to populate its public key.
+			// The certificate belongs to the resolver, which may hand it out to others
+			// at the same time, so a copy is verified.
+			caCert = proto.CloneOf(caCert)
 			if err := security.VerifyRsaCertificateWithRoot(caCert, rootCert); err != nil {
 				return fmt.Errorf("CA certificate verification failed: %w", err)
 			}
-- 
2.43.0


From 9c20cbf356de8607a22d7a1604b9f0d1c3e666f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 40/59] fix: fetch-certs: do not save a root certificate that
 is not one

---
 tools/cmd/fetch-certs/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 23a3231..9e0ae76 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -217,6 +217,11 @@ func downloadAndSaveRootCertificate(ctx context.Context, baseDir string) ([]byte
 		return nil, err
 	}
 
+	// A root certificate that is not one must not be left behind
+	if _, _, err := extractERCA(certData); err != nil {
+		return nil, err
+	}
+
 	// Save to root/EC_PK.bin
 	certPath := filepath.Join(baseDir, "root", "EC_PK.bin")
 	if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-- 
2.43.0


From 711ca940ae711aa7049140a2a6ae7bad34c27b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 41/59] fix: fetch-certs: keep file names from links inside the
 output directory

---
 tools/cmd/fetch-certs/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 9e0ae76..712bfd5 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -922,7 +922,8 @@ func extractCertificateName(url string) string {
 	name = strings.TrimPrefix(name, "iot_doc/")
 	name = strings.TrimPrefix(name, "erca_of_doc/")
 
-	return name
+	// The name becomes a file name: keep it inside the output directory
+	return filepath.Base(name)
 }
 
 func downloadCertificate(url string, maxSize int) ([]byte, error) {
-- 
2.43.0


From ff380275b1ba45f6b708d5abcd1e0b00be6e3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 42/59] fix: refuse card structure versions that do not have
 two digits

---
 internal/dd/card_structure_version.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index 38f840d..8e05a1b 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -66,10 +66,12 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 			return append(dst, canvas[:]...), nil
 		}
 	}
-	major := csv.GetMajor()
+	major, minor := csv.GetMajor(), csv.GetMinor()
+	if major < 0 || major > 99 || minor < 0 || minor > 99 {
+		return nil, fmt.Errorf("invalid card structure version %d.%d: each number has two digits", major, minor)
+	}
 	majorBCD := byte((major/10)<<4) | byte(major%10)
 	canvas[0] = majorBCD
-	minor := csv.GetMinor()
 	minorBCD := byte((minor/10)<<4) | byte(minor%10)
 	canvas[1] = minorBCD
 	return append(dst, canvas[:]...), nil
-- 
2.43.0


From e874c303e2bd399380db38a76504dbee8b2fd89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 43/59] fix: refuse numbers that do not fit their field when
 marshalling

---
 internal/card/activity.go                     |  9 +++++++
 internal/card/application_identification.go   | 15 ++++++++++++
 .../card/application_identification_g2.go     | 24 +++++++++++++++++++
 internal/card/gnss_places.go                  |  3 +++
 internal/card/icc.go                          |  6 +++++
 internal/card/places.go                       |  3 +++
 internal/card/places_g2.go                    |  3 +++
 internal/card/specific_conditions_g2.go       |  3 +++
 internal/card/vehicle_units_used.go           |  3 +++
 internal/card/vehicles_used.go                |  3 +++
 internal/card/vehicles_used_g2.go             |  3 +++
 internal/dd/activity_change_info.go           |  3 +++
 internal/dd/extended_serial_number.go         | 12 ++++++++++
 internal/dd/place_record.go                   |  6 +++++
 internal/dd/place_record_g2.go                |  6 +++++
 internal/dd/range.go                          | 11 +++++++++
 internal/dd/specific_condition_record.go      |  3 +++
 17 files changed, 116 insertions(+)
 create mode 100644 internal/dd/range.go

diff --git a/internal/card/activity.go b/internal/card/activity.go
index dd1c2d3..e79f929 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -232,6 +232,12 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 	}
 
 	// Append header (pointers)
+	if err := dd.CheckUint("oldest day record index", activity.GetOldestDayRecordIndex(), 2); err != nil {
+		return nil, err
+	}
+	if err := dd.CheckUint("newest day record index", activity.GetNewestDayRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetOldestDayRecordIndex()))
 	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetNewestDayRecordIndex()))
 
@@ -485,6 +491,9 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		return nil, fmt.Errorf("failed to append activity daily presence counter: %w", err)
 	}
 
+	if err := dd.CheckUint("activity day distance", rec.GetActivityDayDistance(), 2); err != nil {
+		return nil, err
+	}
 	buf = binary.BigEndian.AppendUint16(buf, uint16(rec.GetActivityDayDistance()))
 
 	// Write activity change info
diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index 83f9c40..ecec99e 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -164,6 +164,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Events per type count (1 byte)
 	if driver.HasEventsPerTypeCount() {
+		if err := dd.CheckUint("events per type count", driver.GetEventsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetEventsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -171,6 +174,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Faults per type count (1 byte)
 	if driver.HasFaultsPerTypeCount() {
+		if err := dd.CheckUint("faults per type count", driver.GetFaultsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetFaultsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -178,6 +184,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Activity structure length (2 bytes)
 	if driver.HasActivityStructureLength() {
+		if err := dd.CheckUint("activity structure length", driver.GetActivityStructureLength(), 2); err != nil {
+			return nil, err
+		}
 		activityLength := make([]byte, 2)
 		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
 		data = append(data, activityLength...)
@@ -187,6 +196,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Card vehicle records count (2 bytes in Gen1)
 	if driver.HasCardVehicleRecordsCount() {
+		if err := dd.CheckUint("card vehicle records count", driver.GetCardVehicleRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		vehicleRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
 		data = append(data, vehicleRecords...)
@@ -196,6 +208,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Card place records count (1 byte in Gen1)
 	if driver.HasCardPlaceRecordsCount() {
+		if err := dd.CheckUint("card place records count", driver.GetCardPlaceRecordsCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetCardPlaceRecordsCount()))
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index 72654e3..06cbe07 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -192,6 +192,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Events per type count (1 byte)
 	if driver.HasEventsPerTypeCount() {
+		if err := dd.CheckUint("events per type count", driver.GetEventsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetEventsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -199,6 +202,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Faults per type count (1 byte)
 	if driver.HasFaultsPerTypeCount() {
+		if err := dd.CheckUint("faults per type count", driver.GetFaultsPerTypeCount(), 1); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetFaultsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -206,6 +212,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Activity structure length (2 bytes)
 	if driver.HasActivityStructureLength() {
+		if err := dd.CheckUint("activity structure length", driver.GetActivityStructureLength(), 2); err != nil {
+			return nil, err
+		}
 		activityLength := make([]byte, 2)
 		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
 		data = append(data, activityLength...)
@@ -215,6 +224,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Card vehicle records count (2 bytes in Gen2)
 	if driver.HasCardVehicleRecordsCount() {
+		if err := dd.CheckUint("card vehicle records count", driver.GetCardVehicleRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		vehicleRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
 		data = append(data, vehicleRecords...)
@@ -224,6 +236,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Card place records count (2 bytes in Gen2)
 	if driver.HasCardPlaceRecordsCount() {
+		if err := dd.CheckUint("card place records count", driver.GetCardPlaceRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		placeRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(placeRecords, uint16(driver.GetCardPlaceRecordsCount()))
 		data = append(data, placeRecords...)
@@ -235,6 +250,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// GNSS AD records count (2 bytes)
 	if driver.HasGnssAdRecordsCount() {
+		if err := dd.CheckUint("GNSS AD records count", driver.GetGnssAdRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		gnssAdRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(gnssAdRecords, uint16(driver.GetGnssAdRecordsCount()))
 		data = append(data, gnssAdRecords...)
@@ -244,6 +262,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Specific condition records count (2 bytes)
 	if driver.HasSpecificConditionRecordsCount() {
+		if err := dd.CheckUint("specific condition records count", driver.GetSpecificConditionRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		specificConditionRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(specificConditionRecords, uint16(driver.GetSpecificConditionRecordsCount()))
 		data = append(data, specificConditionRecords...)
@@ -253,6 +274,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Card vehicle unit records count (2 bytes)
 	if driver.HasCardVehicleUnitRecordsCount() {
+		if err := dd.CheckUint("card vehicle unit records count", driver.GetCardVehicleUnitRecordsCount(), 2); err != nil {
+			return nil, err
+		}
 		vehicleUnitRecords := make([]byte, 2)
 		binary.BigEndian.PutUint16(vehicleUnitRecords, uint16(driver.GetCardVehicleUnitRecordsCount()))
 		data = append(data, vehicleUnitRecords...)
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index 66635f3..ce2da72 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -173,6 +173,9 @@ func appendCardGnssPlaces(dst []byte, gnssPlaces *cardv1.GnssPlaces) ([]byte, er
 	if gnssPlaces == nil {
 		return dst, nil
 	}
+	if err := dd.CheckUint("newest record index", gnssPlaces.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	// Append newest record index (2 bytes)
 	newestRecordIndex := gnssPlaces.GetNewestRecordIndex()
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 82c62a9..5f3a416 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -194,6 +194,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append card personaliser ID (1 byte)
+	if err := dd.CheckUint("card personaliser ID", icc.GetCardPersonaliserId(), 1); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(icc.GetCardPersonaliserId()))
 
 	// Append embedder IC assembler ID (5 bytes)
@@ -230,6 +233,9 @@ func appendEmbedderIcAssemblerId(dst []byte, eia *cardv1.Icc_EmbedderIcAssembler
 	}
 
 	// Append manufacturer information (1 byte)
+	if err := dd.CheckUint("manufacturer information", eia.GetManufacturerInformation(), 1); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(eia.GetManufacturerInformation()))
 
 	return dst, nil
diff --git a/internal/card/places.go b/internal/card/places.go
index 2060b18..1ac3c8b 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -81,6 +81,9 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	if p == nil {
 		return dst, nil
 	}
+	if err := dd.CheckUint("newest record index", p.GetNewestRecordIndex(), 1); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 1 byte (pointer) + N records × 10 bytes
 	const recordSize = 10
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index c979142..c334955 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -82,6 +82,9 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	if p == nil {
 		return dst, nil
 	}
+	if err := dd.CheckUint("newest record index", p.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 2 bytes (pointer) + N records × 21 bytes
 	const recordSize = 21
diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 969c2e5..a925f04 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -71,6 +71,9 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 	if conditions == nil {
 		return data, nil
 	}
+	if err := dd.CheckUint("newest record index", conditions.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	const (
 		lenPointer = 2
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index bf7a13f..a6ac9c4 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -173,6 +173,9 @@ func appendCardVehicleUnitsUsed(dst []byte, vehicleUnits *cardv1.VehicleUnitsUse
 	if vehicleUnits == nil {
 		return dst, nil
 	}
+	if err := dd.CheckUint("newest record pointer", vehicleUnits.GetVehicleUnitPointerNewestRecord(), 2); err != nil {
+		return nil, err
+	}
 
 	// Append newest record pointer (2 bytes)
 	newestRecordPointer := vehicleUnits.GetVehicleUnitPointerNewestRecord()
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index 0e631ca..f1cee33 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -78,6 +78,9 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	if vehiclesUsed == nil {
 		return dst, nil
 	}
+	if err := dd.CheckUint("newest record index", vehiclesUsed.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 2 bytes (pointer) + N records × 31 bytes
 	const recordSize = 31
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 8c0cbf9..064ae82 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -78,6 +78,9 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	if vehiclesUsed == nil {
 		return dst, nil
 	}
+	if err := dd.CheckUint("newest record index", vehiclesUsed.GetNewestRecordIndex(), 2); err != nil {
+		return nil, err
+	}
 
 	// Calculate expected size: 2 bytes (pointer) + N records × 48 bytes
 	const recordSize = 48
diff --git a/internal/dd/activity_change_info.go b/internal/dd/activity_change_info.go
index 5fe9e5a..4a208af 100644
--- a/internal/dd/activity_change_info.go
+++ b/internal/dd/activity_change_info.go
@@ -132,6 +132,9 @@ func AppendActivityChangeInfo(dst []byte, ac *ddv1.ActivityChangeInfo) ([]byte,
 	if err != nil {
 		return nil, fmt.Errorf("failed to marshal activity: %w", err)
 	}
+	if minutes := ac.GetTimeOfChangeMinutes(); minutes < 0 || minutes > 0x7FF {
+		return nil, fmt.Errorf("invalid time of change: %d minutes (must be 0-%d)", minutes, 0x7FF)
+	}
 	var aci uint16
 	aci |= (uint16(slot) & 0x1) << 15
 	aci |= (drivingStatus & 0x1) << 14
diff --git a/internal/dd/extended_serial_number.go b/internal/dd/extended_serial_number.go
index 9f9129b..40298b7 100644
--- a/internal/dd/extended_serial_number.go
+++ b/internal/dd/extended_serial_number.go
@@ -90,6 +90,9 @@ func AppendExtendedSerialNumber(dst []byte, esn *ddv1.ExtendedSerialNumber) ([]b
 
 	// Append serial number (4 bytes, big-endian)
 	serialNumber := esn.GetSerialNumber()
+	if err := CheckUint("serial number", serialNumber, 4); err != nil {
+		return nil, err
+	}
 	dst = binary.BigEndian.AppendUint32(dst, uint32(serialNumber))
 
 	// Append month/year BCD (2 bytes, MMYY format)
@@ -107,6 +110,9 @@ func AppendExtendedSerialNumber(dst []byte, esn *ddv1.ExtendedSerialNumber) ([]b
 	dst = append(dst, equipmentTypeByte)
 
 	// Append manufacturer code (1 byte)
+	if err := CheckUint("manufacturer code", esn.GetManufacturerCode(), 1); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(esn.GetManufacturerCode()))
 
 	return dst, nil
@@ -124,6 +130,9 @@ func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumb
 
 	// First 4 bytes: serial number (big-endian)
 	serialNumber := esn.GetSerialNumber()
+	if err := CheckUint("serial number", serialNumber, 4); err != nil {
+		return nil, err
+	}
 	if serialNumber != 0 {
 		binary.BigEndian.PutUint32(serialBytes[0:4], uint32(serialNumber))
 	}
@@ -150,6 +159,9 @@ func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumb
 
 	// Last byte: manufacturer code
 	manufacturerCode := esn.GetManufacturerCode()
+	if err := CheckUint("manufacturer code", manufacturerCode, 1); err != nil {
+		return nil, err
+	}
 	if manufacturerCode != 0 {
 		serialBytes[7] = byte(manufacturerCode)
 	}
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 9324bbb..92cba77 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -99,6 +99,9 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	// Entry type (1 byte)
 	var entryTypeProtocol byte
 	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
+		if err := CheckUint("entry type", rec.GetUnrecognizedEntryTypeDailyWorkPeriod(), 1); err != nil {
+			return nil, err
+		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
 		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
@@ -108,6 +111,9 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	// Country (1 byte)
 	var countryProtocol byte
 	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
+		if err := CheckUint("country", rec.GetUnrecognizedDailyWorkPeriodCountry(), 1); err != nil {
+			return nil, err
+		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
 		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 84e780b..d32da89 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -107,6 +107,9 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	// Entry type (1 byte)
 	var entryTypeProtocol byte
 	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
+		if err := CheckUint("entry type", rec.GetUnrecognizedEntryTypeDailyWorkPeriod(), 1); err != nil {
+			return nil, err
+		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
 		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
@@ -116,6 +119,9 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	// Country (1 byte)
 	var countryProtocol byte
 	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
+		if err := CheckUint("country", rec.GetUnrecognizedDailyWorkPeriodCountry(), 1); err != nil {
+			return nil, err
+		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
 		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
diff --git a/internal/dd/range.go b/internal/dd/range.go
new file mode 100644
index 0000000..3d521c4
--- /dev/null
+++ b/internal/dd/range.go
@@ -0,0 +1,11 @@
+package dd
+
+import "fmt"
+
+// CheckUint returns an error if v does not fit in an unsigned integer of size bytes.
+func CheckUint[T ~int32 | ~int64](name string, v T, size int) error {
+	if limit := int64(1) << (8 * size); int64(v) < 0 || int64(v) >= limit {
+		return fmt.Errorf("invalid %s: %d (must be 0-%d)", name, v, limit-1)
+	}
+	return nil
+}
diff --git a/internal/dd/specific_condition_record.go b/internal/dd/specific_condition_record.go
index 3dafd27..6bed8e4 100644
--- a/internal/dd/specific_condition_record.go
+++ b/internal/dd/specific_condition_record.go
@@ -77,6 +77,9 @@ func AppendSpecificConditionRecord(dst []byte, record *ddv1.SpecificConditionRec
 	// Append specificConditionType (1 byte)
 	var conditionType byte
 	if record.GetSpecificConditionType() == ddv1.SpecificConditionType_SPECIFIC_CONDITION_TYPE_UNRECOGNIZED {
+		if err := CheckUint("specific condition type", record.GetUnrecognizedSpecificConditionType(), 1); err != nil {
+			return nil, err
+		}
 		conditionType = byte(record.GetUnrecognizedSpecificConditionType())
 	} else {
 		var err error
-- 
2.43.0


From bbd70c11279a7b5e7a350555cdc603dc89dcac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 44/59] fix: refuse octet strings of the wrong length when
 marshalling

---
 internal/card/ic.go            | 6 ++++++
 internal/card/icc.go           | 3 +++
 internal/dd/place_record.go    | 3 +++
 internal/dd/place_record_g2.go | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/internal/card/ic.go b/internal/card/ic.go
index 8a40e10..954639f 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -70,6 +70,9 @@ func appendCardIc(data []byte, ic *cardv1.Ic) ([]byte, error) {
 
 	// Append IC Serial Number (4 bytes)
 	serialBytes := ic.GetIcSerialNumber()
+	if len(serialBytes) > lenIcSerialNumber {
+		return nil, fmt.Errorf("IC serial number too long: %d bytes", len(serialBytes))
+	}
 	if len(serialBytes) >= lenIcSerialNumber {
 		data = append(data, serialBytes[:lenIcSerialNumber]...)
 	} else {
@@ -81,6 +84,9 @@ func appendCardIc(data []byte, ic *cardv1.Ic) ([]byte, error) {
 
 	// Append IC Manufacturing References (4 bytes)
 	mfgBytes := ic.GetIcManufacturingReferences()
+	if len(mfgBytes) > lenIcManufacturingReferences {
+		return nil, fmt.Errorf("IC manufacturing references too long: %d bytes", len(mfgBytes))
+	}
 	if len(mfgBytes) >= lenIcManufacturingReferences {
 		data = append(data, mfgBytes[:lenIcManufacturingReferences]...)
 	} else {
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 5f3a416..f1b2d77 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -206,6 +206,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append IC identifier (2 bytes)
+	if n := len(icc.GetIcIdentifier()); n != lenIcIdentifier {
+		return nil, fmt.Errorf("invalid IC identifier length: got %d, want %d", n, lenIcIdentifier)
+	}
 	dst = append(dst, icc.GetIcIdentifier()...)
 	return dst, nil
 }
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 92cba77..a51be4c 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -122,6 +122,9 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("daily work period region too long: %d bytes", len(regionBytes))
+	}
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index d32da89..6e7b130 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -130,6 +130,9 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("daily work period region too long: %d bytes", len(regionBytes))
+	}
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
-- 
2.43.0


From 687e8f1faf4cb69aef01dc82c769ec96da794df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 45/59] fix: refuse enum values without a protocol value when
 marshalling

---
 internal/card/application_identification.go    |  5 ++++-
 internal/card/application_identification_g2.go |  5 ++++-
 internal/card/events.go                        | 10 ++++++++--
 internal/card/faults.go                        | 10 ++++++++--
 internal/dd/place_record.go                    | 14 ++++++++++----
 internal/dd/place_record_g2.go                 | 14 ++++++++++----
 6 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index ecec99e..8cd77a1 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -130,7 +130,10 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card ID: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index 06cbe07..be65974 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -158,7 +158,10 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card ID: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/events.go b/internal/card/events.go
index 8c10fc4..98efba5 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -201,10 +201,16 @@ func appendEventRecord(dst []byte, record *cardv1.EventsData_Record) ([]byte, er
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetEventType())
+	var protocolValue byte
+	var err error
+	if record.GetEventType() != ddv1.EventFaultType_EVENT_FAULT_TYPE_UNSPECIFIED {
+		protocolValue, err = dd.MarshalEnum(record.GetEventType())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal event type: %w", err)
+		}
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetEventBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append event begin time: %w", err)
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 35bfc00..45c3be9 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -201,10 +201,16 @@ func appendFaultRecord(dst []byte, record *cardv1.FaultsData_Record) ([]byte, er
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetFaultType())
+	var protocolValue byte
+	var err error
+	if record.GetFaultType() != ddv1.EventFaultType_EVENT_FAULT_TYPE_UNSPECIFIED {
+		protocolValue, err = dd.MarshalEnum(record.GetFaultType())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal fault type: %w", err)
+		}
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetFaultBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append fault begin time: %w", err)
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index a51be4c..8f3084c 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -103,8 +103,11 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 			return nil, err
 		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
-	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+	} else if rec.GetEntryTypeDailyWorkPeriod() != ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNSPECIFIED {
+		entryTypeProtocol, err = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal entry type: %w", err)
+		}
 	}
 	canvas[4] = entryTypeProtocol
 
@@ -115,8 +118,11 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 			return nil, err
 		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
-	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+	} else if rec.GetDailyWorkPeriodCountry() != ddv1.NationNumeric_NATION_NUMERIC_UNSPECIFIED {
+		countryProtocol, err = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal country: %w", err)
+		}
 	}
 	canvas[5] = countryProtocol
 
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 6e7b130..edceae6 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -111,8 +111,11 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 			return nil, err
 		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
-	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+	} else if rec.GetEntryTypeDailyWorkPeriod() != ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNSPECIFIED {
+		entryTypeProtocol, err = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal entry type: %w", err)
+		}
 	}
 	canvas[4] = entryTypeProtocol
 
@@ -123,8 +126,11 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 			return nil, err
 		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
-	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+	} else if rec.GetDailyWorkPeriodCountry() != ddv1.NationNumeric_NATION_NUMERIC_UNSPECIFIED {
+		countryProtocol, err = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		if err != nil {
+			return nil, fmt.Errorf("failed to marshal country: %w", err)
+		}
 	}
 	canvas[5] = countryProtocol
 
-- 
2.43.0


From 522fd86fe5a01f048674b8d2256753e8f144962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 46/59] fix: refuse text without an encoding when marshalling
 instead of dropping it

---
 internal/dd/string_value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 30b526d..cb44266 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -294,6 +294,9 @@ func getCodePageFromEncoding(encoding ddv1.Encoding) byte {
 func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 	// For code page 255 (empty), return empty bytes
 	if codePage == 255 {
+		if s != "" {
+			return nil, fmt.Errorf("string value %q has no encoding", s)
+		}
 		return []byte{}, nil
 	}
 
-- 
2.43.0


From 25ca0e390a9ac1cd772d5e3cbbfba5024efbc7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:14 +0000
Subject: [PATCH 47/59] fix: refuse card numbers of types that cannot be read
 when marshalling

---
 internal/dd/full_card_number.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index d6d5637..a7cf18f 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -161,8 +161,7 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 			dst = append(dst, make([]byte, 16)...)
 		}
 	default:
-		// Unknown card type: 16 zero bytes
-		dst = append(dst, make([]byte, 16)...)
+		return nil, fmt.Errorf("unsupported card type: %d", cardNumber.GetCardType())
 	}
 
 	return dst, nil
-- 
2.43.0


From 69af7d9ebd59782b4363c7b39ecc0c275af5cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 48/59] fix: place rebuilt daily records so that all of them
 are found again

When the activity buffer is built from the daily records, the pointer to the
newest record was taken from the file that was read, a record kept its old
length whatever its changes, records that could not be read kept their old
link, and a buffer without records could not be read back: records that were
added or removed made others disappear.
---
 internal/card/activity.go | 99 +++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 46 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index e79f929..8b68855 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
+	"math"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
 
@@ -60,7 +62,7 @@ func (opts UnmarshalOptions) unmarshalDriverActivityData(data []byte) (*cardv1.D
 
 	// The rest of the data is the cyclic buffer of daily records.
 	activityData := make([]byte, r.Len())
-	if _, err := r.Read(activityData); err != nil {
+	if _, err := io.ReadFull(r, activityData); err != nil {
 		return nil, fmt.Errorf("failed to read activity daily records: %w", err)
 	}
 
@@ -231,30 +233,33 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 		return dst, nil
 	}
 
-	// Append header (pointers)
-	if err := dd.CheckUint("oldest day record index", activity.GetOldestDayRecordIndex(), 2); err != nil {
-		return nil, err
-	}
-	if err := dd.CheckUint("newest day record index", activity.GetNewestDayRecordIndex(), 2); err != nil {
-		return nil, err
-	}
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetOldestDayRecordIndex()))
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetNewestDayRecordIndex()))
-
 	// For perfect round-trip fidelity, use raw buffer directly when available.
 	// This preserves all padding, reserved bits, and linked-list structure.
-	if rawBuffer := activity.GetRawData(); len(rawBuffer) > 0 {
-		dst = append(dst, rawBuffer...)
-	} else {
-		// Fallback: Build cyclic buffer from scratch with proper linked-list structure
-		buffer, err := buildCyclicBufferFromRecords(activity.GetDailyRecords(), int(activity.GetNewestDayRecordIndex()))
-		if err != nil {
-			return nil, fmt.Errorf("failed to build cyclic buffer: %w", err)
+	if rawBuffer := activity.GetRawData(); len(rawBuffer) > 0 || len(activity.GetDailyRecords()) == 0 {
+		// Append header (pointers)
+		if err := dd.CheckUint("oldest day record index", activity.GetOldestDayRecordIndex(), 2); err != nil {
+			return nil, err
+		}
+		if err := dd.CheckUint("newest day record index", activity.GetNewestDayRecordIndex(), 2); err != nil {
+			return nil, err
 		}
-		dst = append(dst, buffer...)
+		dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetOldestDayRecordIndex()))
+		dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetNewestDayRecordIndex()))
+		return append(dst, rawBuffer...), nil
 	}
 
-	return dst, nil
+	// Fallback: Build cyclic buffer from scratch with proper linked-list structure.
+	// The pointers follow from where the records are placed.
+	buffer, newestRecordPos, err := buildCyclicBufferFromRecords(activity.GetDailyRecords())
+	if err != nil {
+		return nil, fmt.Errorf("failed to build cyclic buffer: %w", err)
+	}
+	if err := dd.CheckUint("newest day record index", int32(newestRecordPos), 2); err != nil {
+		return nil, err
+	}
+	dst = binary.BigEndian.AppendUint16(dst, 0)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(newestRecordPos))
+	return append(dst, buffer...), nil
 }
 
 // cyclicRecordIterator provides a clean interface for traversing the cyclic buffer
@@ -377,32 +382,33 @@ func (it *cyclicRecordIterator) Err() error {
 // - Records are stored sequentially in chronological order (oldest to newest)
 // - Each record has a header: [prevRecordLength: 2 bytes][currentRecordLength: 2 bytes]
 // - The prevRecordLength points backward to enable traversal from newest to oldest
-// - The newest record is at position newestRecordPos
+// - The newest record is at the returned position
 //
 // The buffer is sized to accommodate all records sequentially starting from position 0.
-func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyRecord, newestRecordPos int) ([]byte, error) {
+func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyRecord) (buffer []byte, newestRecordPos int, err error) {
 	if len(records) == 0 {
-		return nil, nil
+		return nil, 0, nil
 	}
 
+	const lenRecordHeader = 4 // prevRecordLength (2) + currentRecordLength (2)
+
 	// First pass: calculate the size of each record
 	recordSizes := make([]int, len(records))
 	totalRecordsSize := 0
 	for i, rec := range records {
 		if !rec.GetValid() {
 			// For invalid records, use raw_data length if available
-			if raw := rec.GetRawData(); len(raw) > 0 {
+			if raw := rec.GetRawData(); len(raw) >= lenRecordHeader {
 				recordSizes[i] = len(raw)
 			} else {
-				return nil, fmt.Errorf("invalid record %d has no raw data", i)
+				return nil, 0, fmt.Errorf("invalid record %d has no raw data", i)
 			}
 		} else {
 			// Calculate size for valid record
-			size, err := calculateRecordSize(rec)
-			if err != nil {
-				return nil, fmt.Errorf("failed to calculate size for record %d: %w", i, err)
-			}
-			recordSizes[i] = size
+			recordSizes[i] = calculateRecordSize(rec)
+		}
+		if recordSizes[i] > math.MaxUint16 {
+			return nil, 0, fmt.Errorf("record %d is too long: %d bytes", i, recordSizes[i])
 		}
 		totalRecordsSize += recordSizes[i]
 	}
@@ -413,7 +419,7 @@ func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyReco
 	bufferSize := totalRecordsSize
 
 	// Allocate buffer (zero-filled by default)
-	buffer := make([]byte, bufferSize)
+	buffer = make([]byte, bufferSize)
 
 	// Second pass: write records to buffer with proper linked-list pointers
 	// Records are written in chronological order (oldest to newest)
@@ -429,33 +435,30 @@ func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyReco
 
 		// Write the record
 		if !rec.GetValid() {
-			// For invalid records, copy raw_data as-is (it already has the correct header)
+			// For invalid records, copy raw_data as-is, apart from the header
 			copy(buffer[currentPos:], rec.GetRawData())
+			binary.BigEndian.PutUint16(buffer[currentPos:], uint16(prevRecordLength))
+			binary.BigEndian.PutUint16(buffer[currentPos+2:], uint16(recordSize))
 		} else {
 			// For valid records, marshal with proper header
 			recordWithHeader, err := marshalRecordWithHeader(rec, prevRecordLength, recordSize)
 			if err != nil {
-				return nil, fmt.Errorf("failed to marshal record %d: %w", i, err)
+				return nil, 0, fmt.Errorf("failed to marshal record %d: %w", i, err)
 			}
 			copy(buffer[currentPos:], recordWithHeader)
 		}
 
+		newestRecordPos = currentPos
 		currentPos += recordSize
 	}
 
-	return buffer, nil
+	return buffer, newestRecordPos, nil
 }
 
 // calculateRecordSize calculates the size of a marshalled activity record.
-// For records with activity_record_length set, we use that to preserve padding.
-// Otherwise, we calculate from content.
-func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error) {
-	// Use original record length if available (preserves padding)
-	if recordLength := rec.GetActivityRecordLength(); recordLength > 0 {
-		return int(recordLength), nil
-	}
-
-	// Fallback: calculate from content
+// A record with activity_record_length set is at least that long, to preserve padding,
+// but never shorter than its content.
+func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) int {
 	const (
 		lenHeader               = 4 // prevRecordLength (2) + currentRecordLength (2)
 		lenTimeReal             = 4 // activity record date
@@ -467,7 +470,7 @@ func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error
 	size := lenHeader + lenTimeReal + lenDailyPresenceCounter + lenDayDistance
 	size += len(rec.GetActivityChangeInfo()) * lenActivityChangeInfo
 
-	return size, nil
+	return max(size, int(rec.GetActivityRecordLength()))
 }
 
 // marshalRecordWithHeader marshals a single activity record with the correct header values.
@@ -502,12 +505,16 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		if err != nil {
 			return nil, fmt.Errorf("failed to append activity change info: %w", err)
 		}
+		if binary.BigEndian.Uint16(buf[len(buf)-2:]) == 0xFFFF {
+			return nil, fmt.Errorf("activity change cannot be told from an unused entry")
+		}
 	}
 
 	// Add padding if the current length is less than the expected record length
-	// This preserves any padding bytes that were in the original record
+	// This preserves any padding bytes that were in the original record. Zeros would be
+	// read as activity changes, so the padding consists of entries that are skipped.
 	if len(buf) < currentRecordLength {
-		padding := make([]byte, currentRecordLength-len(buf))
+		padding := bytes.Repeat([]byte{0xFF}, currentRecordLength-len(buf))
 		buf = append(buf, padding...)
 	}
 
-- 
2.43.0


From bd013350bd233ccf24f7472c1ca3255295e09503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 49/59] fix: refuse records too long for their length field
 when marshalling

The length of an elementary file's content was cut to 16 bits, and that of a
raw record was written whether or not it was that of its value; what was
written could not be read back.
---
 internal/card/driver_card_file.go | 15 +++++++++++++++
 internal/card/rawcardfile.go      |  7 +++++++
 2 files changed, 22 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f8fdfc2..f8ae598 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -915,6 +915,9 @@ func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certDat
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
 
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("certificate of EF %04Xh is too long: %d bytes", tag, len(certData))
+	}
 	// Write data tag (FID + appendix 0x00) - Gen1 DF certificates are NOT signed
 	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
 	dst = append(dst, 0x00) // appendix for Gen1 data
@@ -935,6 +938,9 @@ func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certD
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
 
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("certificate of EF %04Xh is too long: %d bytes", tag, len(certData))
+	}
 	// Write data tag (FID + appendix 0x02) - Gen2 DF certificates are NOT signed
 	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
 	dst = append(dst, 0x02) // appendix for Gen2 data
@@ -980,6 +986,9 @@ func appendTlv[T proto.Message](
 	valLen := len(dst) - valPos
 
 	// Update the length field
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("content of EF %04Xh is too long: %d bytes", tag, valLen)
+	}
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
 	// Add signature block (FID + appendix 0x01), if the EF has a signature
@@ -1037,6 +1046,9 @@ func appendTlvUnsigned[T proto.Message](
 	valLen := len(dst) - valPos
 
 	// Update the length field
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("content of EF %04Xh is too long: %d bytes", tag, valLen)
+	}
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
 	// No signature block for unsigned EFs
@@ -1096,6 +1108,9 @@ func appendTlvG2[T proto.Message](
 	valLen := len(dst) - valPos
 
 	// Update the length field
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("content of EF %04Xh is too long: %d bytes", tag, valLen)
+	}
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
 	// Add signature block (FID + appendix 0x03), if the EF has a signature - Gen2 DF
diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 240d3ec..d61c917 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"math"
 
@@ -36,6 +37,12 @@ func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 func MarshalRawCardFile(file *cardv1.RawCardFile) ([]byte, error) {
 	var result []byte
 	for _, record := range file.GetRecords() {
+		if tag := record.GetTag(); tag < 0 || tag > 0xFFFFFF {
+			return nil, fmt.Errorf("invalid tag: %#x (must be 0-0xFFFFFF)", tag)
+		}
+		if length := record.GetLength(); int(length) != len(record.GetValue()) || length > math.MaxUint16 {
+			return nil, fmt.Errorf("invalid length of record %06Xh: %d (value has %d bytes)", record.GetTag(), length, len(record.GetValue()))
+		}
 		// Write tag (FID + appendix)
 		result = binary.BigEndian.AppendUint16(result, uint16(record.GetTag()>>8))
 		result = append(result, byte(record.GetTag()&0xFF))
-- 
2.43.0


From 3b0f0dd8150762d9fe31d035c7447e3140407195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 50/59] fix: refuse cards with missing parts instead of writing
 shorter files

Texts, indices and counters that are not set were left out, so that what
follows them was read from the wrong place or the file could not be read.
Cleared regions and block counters kept their old value.
---
 internal/card/activity.go                      |  5 +++++
 internal/card/application_identification.go    |  4 ++++
 internal/card/application_identification_g2.go |  4 ++++
 internal/card/driver_card_file.go              |  3 +++
 internal/card/driving_licence.go               |  5 +++++
 internal/card/icc.go                           |  7 +++++++
 internal/card/identification.go                | 10 ++++++++++
 internal/dd/card_vehicle_record.go             |  9 ++++++---
 internal/dd/card_vehicle_record_g2.go          |  9 ++++++---
 internal/dd/full_card_number.go                |  5 +++++
 internal/dd/place_record.go                    |  6 ++----
 internal/dd/place_record_g2.go                 |  6 ++----
 12 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 8b68855..de707f1 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -476,6 +476,8 @@ func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) int {
 // marshalRecordWithHeader marshals a single activity record with the correct header values.
 // This ensures the linked-list structure is properly maintained.
 func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRecordLength, currentRecordLength int) ([]byte, error) {
+	const lenRecordStart = 12 // header (4), date (4), presence counter (2) and distance (2)
+
 	var buf []byte
 
 	// Write header
@@ -498,6 +500,9 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		return nil, err
 	}
 	buf = binary.BigEndian.AppendUint16(buf, uint16(rec.GetActivityDayDistance()))
+	if len(buf) != lenRecordStart {
+		return nil, fmt.Errorf("invalid length of the start of a daily record: got %d, want %d", len(buf), lenRecordStart)
+	}
 
 	// Write activity change info
 	for _, ac := range rec.GetActivityChangeInfo() {
diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index 8cd77a1..596e763 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -157,6 +157,10 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 	switch appId.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
 		driver = appId.GetDriver()
+	default:
+		if appId.HasDriver() {
+			return nil, fmt.Errorf("driver card data on a card of another type: %v", appId.GetCardType())
+		}
 	}
 
 	if driver == nil {
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index be65974..048d532 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -185,6 +185,10 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	switch appId.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
 		driver = appId.GetDriver()
+	default:
+		if appId.HasDriver() {
+			return nil, fmt.Errorf("driver card data on a card of another type: %v", appId.GetCardType())
+		}
 	}
 
 	if driver == nil {
diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f8ae598..b156719 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -898,6 +898,9 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 
 // appendIdentification appends both parts of EF_IDENTIFICATION.
 func appendIdentification(dst []byte, identification *cardv1.Identification) ([]byte, error) {
+	if identification.GetCard() == nil || identification.GetDriverCardHolder() == nil {
+		return nil, fmt.Errorf("identification needs both card and driver card holder")
+	}
 	dst, err := appendCardIdentification(dst, identification.GetCard())
 	if err != nil {
 		return nil, err
diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 22805ce..9353547 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -81,9 +81,11 @@ func (opts UnmarshalOptions) unmarshalDrivingLicenceInfo(data []byte) (*cardv1.D
 //	    drivingLicenceNumber               Name
 //	}
 func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byte, error) {
+	const lenDrivingLicenceInfo = 53
 	if dli == nil {
 		return dst, nil
 	}
+	start := len(dst)
 	var err error
 	dst, err = dd.AppendStringValue(dst, dli.GetDrivingLicenceIssuingAuthority())
 	if err != nil {
@@ -99,5 +101,8 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 	if err != nil {
 		return nil, fmt.Errorf("failed to append driving licence number: %w", err)
 	}
+	if n := len(dst) - start; n != lenDrivingLicenceInfo {
+		return nil, fmt.Errorf("invalid length of driving licence information: got %d, want %d", n, lenDrivingLicenceInfo)
+	}
 	return dst, nil
 }
diff --git a/internal/card/icc.go b/internal/card/icc.go
index f1b2d77..99e9bfa 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -171,8 +171,12 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 		lenCardPersonaliserId       = 1
 		lenEmbedderIcAssemblerId    = 5
 		lenIcIdentifier             = 2
+
+		lenIcc = lenClockStop + lenCardExtendedSerialNumber + lenCardApprovalNumber +
+			lenCardPersonaliserId + lenEmbedderIcAssemblerId + lenIcIdentifier
 	)
 
+	start := len(dst)
 	var err error
 	// Append clock stop (1 byte)
 	clockStopByte, err := dd.MarshalEnum(icc.GetClockStop())
@@ -210,6 +214,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 		return nil, fmt.Errorf("invalid IC identifier length: got %d, want %d", n, lenIcIdentifier)
 	}
 	dst = append(dst, icc.GetIcIdentifier()...)
+	if n := len(dst) - start; n != lenIcc {
+		return nil, fmt.Errorf("invalid length of ICC identification: got %d, want %d", n, lenIcc)
+	}
 	return dst, nil
 }
 
diff --git a/internal/card/identification.go b/internal/card/identification.go
index b594cd1..4747db6 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -321,9 +321,11 @@ func putCardNumberPart(part []byte, sv *ddv1.Ia5StringValue) error {
 //	    cardExpiryDate           TimeReal
 //	}
 func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byte, error) {
+	const lenCardIdentification = 65
 	if id == nil {
 		return dst, nil
 	}
+	start := len(dst)
 	// Append cardIssuingMemberState (1 byte) - get protocol value from enum
 	memberState := id.GetCardIssuingMemberState()
 	var memberStateByte byte
@@ -417,6 +419,9 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card expiry date: %w", err)
 	}
+	if n := len(dst) - start; n != lenCardIdentification {
+		return nil, fmt.Errorf("invalid length of card identification: got %d, want %d", n, lenCardIdentification)
+	}
 	return dst, nil
 }
 
@@ -433,9 +438,11 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 //	    cardHolderPreferredLanguage  Language
 //	}
 func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_DriverCardHolder) ([]byte, error) {
+	const lenDriverCardHolderIdentification = 78
 	if h == nil {
 		return dst, nil
 	}
+	start := len(dst)
 	var err error
 	nameBlock := make([]byte, 0, 72)
 	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderSurname())
@@ -463,6 +470,9 @@ func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_D
 	if err != nil {
 		return nil, fmt.Errorf("failed to append preferred language: %w", err)
 	}
+	if n := len(dst) - start; n != lenDriverCardHolderIdentification {
+		return nil, fmt.Errorf("invalid length of driver card holder identification: got %d, want %d", n, lenDriverCardHolderIdentification)
+	}
 	return dst, nil
 }
 
diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index d3e8ad8..9ab828f 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -133,9 +133,12 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	copy(canvas[14:29], vehicleRegBytes)
 
 	// VU data block counter (2 bytes as BCD)
-	vuDataBlockCounterBytes, err := AppendBcdString(nil, record.GetVuDataBlockCounter())
-	if err != nil {
-		return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
+	vuDataBlockCounterBytes := []byte{0, 0}
+	if counter := record.GetVuDataBlockCounter(); counter != nil {
+		vuDataBlockCounterBytes, err = AppendBcdString(nil, counter)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
+		}
 	}
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index b27c3d9..276daeb 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -141,9 +141,12 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	copy(canvas[14:29], vehicleRegBytes)
 
 	// VU data block counter (2 bytes as BCD)
-	vuDataBlockCounterBytes, err := AppendBcdString(nil, record.GetVuDataBlockCounter())
-	if err != nil {
-		return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
+	vuDataBlockCounterBytes := []byte{0, 0}
+	if counter := record.GetVuDataBlockCounter(); counter != nil {
+		vuDataBlockCounterBytes, err = AppendBcdString(nil, counter)
+		if err != nil {
+			return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
+		}
 	}
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index a7cf18f..9aaf88c 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -111,6 +111,8 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	if cardNumber == nil {
 		return nil, fmt.Errorf("cardNumber cannot be nil")
 	}
+	const lenFullCardNumber = 18
+	start := len(dst)
 
 	// Append card type (1 byte)
 	cardTypeByte, err := MarshalEnum(cardNumber.GetCardType())
@@ -163,6 +165,9 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	default:
 		return nil, fmt.Errorf("unsupported card type: %d", cardNumber.GetCardType())
 	}
+	if n := len(dst) - start; n != lenFullCardNumber {
+		return nil, fmt.Errorf("invalid length of FullCardNumber: got %d, want %d", n, lenFullCardNumber)
+	}
 
 	return dst, nil
 }
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 8f3084c..df0a948 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -131,10 +131,8 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	if len(regionBytes) > 1 {
 		return nil, fmt.Errorf("daily work period region too long: %d bytes", len(regionBytes))
 	}
-	if len(regionBytes) > 0 {
-		canvas[6] = regionBytes[0]
-	}
-	// Otherwise leave as zero (or preserved from raw_data)
+	canvas[6] = 0
+	copy(canvas[6:7], regionBytes)
 
 	// Odometer (3 bytes)
 	odometerBytes, err := AppendOdometerKm(nil, rec.GetVehicleOdometerKm())
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index edceae6..b831b84 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -139,10 +139,8 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	if len(regionBytes) > 1 {
 		return nil, fmt.Errorf("daily work period region too long: %d bytes", len(regionBytes))
 	}
-	if len(regionBytes) > 0 {
-		canvas[6] = regionBytes[0]
-	}
-	// Otherwise leave as zero (or preserved from raw_data)
+	canvas[6] = 0
+	copy(canvas[6:7], regionBytes)
 
 	// Odometer (3 bytes)
 	odometerBytes, err := AppendOdometerKm(nil, rec.GetVehicleOdometerKm())
-- 
2.43.0


From 452f64233940f1d435b70d56b0a3e52aaf6efae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 51/59] fix: refuse texts and counters of a length their place
 does not have

A length other than the place's moved or cut what follows it; a negative or
huge one ended in a panic or took all memory.
---
 internal/card/identification.go       |  3 +++
 internal/dd/bcd_string.go             |  3 +++
 internal/dd/card_vehicle_record.go    |  3 +++
 internal/dd/card_vehicle_record_g2.go |  3 +++
 internal/dd/ia5_string_value.go       |  3 +++
 internal/dd/string_value.go           |  3 +++
 internal/dd/vehicle_registration.go   | 11 ++++++++++-
 7 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 4747db6..5833dc3 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -288,6 +288,9 @@ func isCardIndex(b byte) bool {
 // The original bytes are used if they stand for the value, since trimming and
 // decoding lose the kind of padding and bytes that are not ASCII.
 func putCardNumberPart(part []byte, sv *ddv1.Ia5StringValue) error {
+	if n := int(sv.GetLength()); sv.HasLength() && n != len(part) {
+		return fmt.Errorf("invalid length of a part of a card number: got %d, want %d", n, len(part))
+	}
 	value := sv.GetValue()
 	if raw := sv.GetRawData(); len(raw) == len(part) {
 		original, err := dd.UnmarshalOptions{}.UnmarshalIa5StringValue(raw)
diff --git a/internal/dd/bcd_string.go b/internal/dd/bcd_string.go
index 98134aa..eb195e1 100644
--- a/internal/dd/bcd_string.go
+++ b/internal/dd/bcd_string.go
@@ -59,5 +59,8 @@ func AppendBcdString(dst []byte, bcdString *ddv1.BcdString) ([]byte, error) {
 	if length <= 0 {
 		return nil, fmt.Errorf("invalid BCD string length: %d", length)
 	}
+	if err := CheckUint("BCD string length", length, 1); err != nil {
+		return nil, err
+	}
 	return appendBCD(dst, int(value), int(length))
 }
diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index 9ab828f..3c6d878 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -139,6 +139,9 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 		if err != nil {
 			return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
 		}
+		if n := len(vuDataBlockCounterBytes); n != 2 {
+			return nil, fmt.Errorf("invalid length of VU data block counter: got %d, want 2", n)
+		}
 	}
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index 276daeb..bcd96de 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -147,6 +147,9 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 		if err != nil {
 			return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
 		}
+		if n := len(vuDataBlockCounterBytes); n != 2 {
+			return nil, fmt.Errorf("invalid length of VU data block counter: got %d, want 2", n)
+		}
 	}
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
diff --git a/internal/dd/ia5_string_value.go b/internal/dd/ia5_string_value.go
index 27021a9..b429cde 100644
--- a/internal/dd/ia5_string_value.go
+++ b/internal/dd/ia5_string_value.go
@@ -76,6 +76,9 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 		return nil, fmt.Errorf("IA5String requires length field to be set")
 	}
 
+	if err := CheckUint("string length", sv.GetLength(), 1); err != nil {
+		return nil, err
+	}
 	length := int(sv.GetLength())
 
 	// Prefer raw bytes if available and of correct length
diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index cb44266..9c8e8e2 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -74,6 +74,9 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	hasFixedLength := sv.HasLength()
 	var totalLength int
 	if hasFixedLength {
+		if err := CheckUint("string length", sv.GetLength(), 1); err != nil {
+			return nil, err
+		}
 		// Total = 1 (code page) + length (string data)
 		totalLength = 1 + int(sv.GetLength())
 	}
diff --git a/internal/dd/vehicle_registration.go b/internal/dd/vehicle_registration.go
index 59abbad..17c45f1 100644
--- a/internal/dd/vehicle_registration.go
+++ b/internal/dd/vehicle_registration.go
@@ -65,6 +65,7 @@ func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationI
 	if vehicleReg == nil {
 		return nil, fmt.Errorf("vehicleRegistration cannot be nil")
 	}
+	const lenRegistrationNumber = 14
 
 	// Append nation (1 byte) - get protocol value from enum
 	nation := vehicleReg.GetNation()
@@ -91,5 +92,13 @@ func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationI
 		number.SetLength(13) // Length of the string data, not including code page byte
 		number.SetEncoding(ddv1.Encoding_ENCODING_DEFAULT)
 	}
-	return AppendStringValue(dst, number)
+	start := len(dst)
+	dst, err := AppendStringValue(dst, number)
+	if err != nil {
+		return nil, err
+	}
+	if n := len(dst) - start; n != lenRegistrationNumber {
+		return nil, fmt.Errorf("invalid length of vehicle registration number: got %d, want %d", n, lenRegistrationNumber)
+	}
+	return dst, nil
 }
-- 
2.43.0


From a79711140b9b031993d4e9a149ba6465ad671d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 52/59] fix: refuse a control type longer than its one byte

---
 internal/dd/controltype.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 3a44214..ad0f0da 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -14,8 +14,9 @@ import (
 //
 //	ControlType ::= OCTET STRING (SIZE(1))
 func (opts UnmarshalOptions) UnmarshalControlType(input []byte) (*ddv1.ControlType, error) {
-	if len(input) == 0 {
-		return nil, fmt.Errorf("insufficient data for control type")
+	const lenControlType = 1
+	if len(input) != lenControlType {
+		return nil, fmt.Errorf("invalid data length for ControlType: got %d, want %d", len(input), lenControlType)
 	}
 	b := input[0]
 	var output ddv1.ControlType
-- 
2.43.0


From e86d37dd7b49fea22da6a5e774642adb7cab7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 53/59] fix: refuse identifications and names whose parts have
 a wrong length

---
 internal/dd/driver_identification.go           | 11 ++++++++++-
 internal/dd/full_card_number_and_generation.go | 10 +++-------
 internal/dd/holder_name.go                     |  9 +++++++++
 internal/dd/owner_identification.go            |  7 +++++++
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/internal/dd/driver_identification.go b/internal/dd/driver_identification.go
index 31de0e8..b2f0c24 100644
--- a/internal/dd/driver_identification.go
+++ b/internal/dd/driver_identification.go
@@ -57,7 +57,16 @@ func AppendDriverIdentification(dst []byte, driverID *ddv1.DriverIdentification)
 	}
 
 	// Append driver identification number (14 bytes)
-	return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
+	const lenDriverIdentificationNumber = 14
+	start := len(dst)
+	dst, err := AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
+	if err != nil {
+		return nil, err
+	}
+	if n := len(dst) - start; n != lenDriverIdentificationNumber {
+		return nil, fmt.Errorf("invalid length of driver identification number: got %d, want %d", n, lenDriverIdentificationNumber)
+	}
+	return dst, nil
 }
 
 // AnonymizeDriverIdentification creates an anonymized copy of DriverIdentification,
diff --git a/internal/dd/full_card_number_and_generation.go b/internal/dd/full_card_number_and_generation.go
index 0438528..c5564e8 100644
--- a/internal/dd/full_card_number_and_generation.go
+++ b/internal/dd/full_card_number_and_generation.go
@@ -75,13 +75,9 @@ func AppendFullCardNumberAndGeneration(dst []byte, fullCardNumberAndGen *ddv1.Fu
 	}
 
 	// Append full card number (variable length)
-	fullCardNumber := fullCardNumberAndGen.GetFullCardNumber()
-	if fullCardNumber != nil {
-		var err error
-		dst, err = AppendFullCardNumber(dst, fullCardNumber)
-		if err != nil {
-			return nil, fmt.Errorf("failed to append full card number: %w", err)
-		}
+	dst, err := AppendFullCardNumber(dst, fullCardNumberAndGen.GetFullCardNumber())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append full card number: %w", err)
 	}
 
 	// Append generation (1 byte)
diff --git a/internal/dd/holder_name.go b/internal/dd/holder_name.go
index 381fb50..333055e 100644
--- a/internal/dd/holder_name.go
+++ b/internal/dd/holder_name.go
@@ -80,19 +80,28 @@ func AppendHolderName(dst []byte, holderName *ddv1.HolderName) ([]byte, error) {
 		return nil, fmt.Errorf("holderName cannot be nil")
 	}
 
+	const lenName = 36 // 1 byte codePage + 35 bytes name
 	var err error
 
 	// Append holder surname (36 bytes)
+	start := len(dst)
 	dst, err = AppendStringValue(dst, holderName.GetHolderSurname())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder surname: %w", err)
 	}
+	if n := len(dst) - start; n != lenName {
+		return nil, fmt.Errorf("invalid length of holder surname: got %d, want %d", n, lenName)
+	}
 
 	// Append holder first names (36 bytes)
+	start = len(dst)
 	dst, err = AppendStringValue(dst, holderName.GetHolderFirstNames())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder first names: %w", err)
 	}
+	if n := len(dst) - start; n != lenName {
+		return nil, fmt.Errorf("invalid length of holder first names: got %d, want %d", n, lenName)
+	}
 
 	return dst, nil
 }
diff --git a/internal/dd/owner_identification.go b/internal/dd/owner_identification.go
index f3197f2..2e17a35 100644
--- a/internal/dd/owner_identification.go
+++ b/internal/dd/owner_identification.go
@@ -89,6 +89,9 @@ func AppendOwnerIdentification(dst []byte, ownerID *ddv1.OwnerIdentification) ([
 		return nil, fmt.Errorf("ownerID cannot be nil")
 	}
 
+	const lenOwnerIdentification = 16
+	start := len(dst)
+
 	// Append owner identification number (13 bytes)
 	var err error
 	dst, err = AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
@@ -114,5 +117,9 @@ func AppendOwnerIdentification(dst []byte, ownerID *ddv1.OwnerIdentification) ([
 		return nil, fmt.Errorf("failed to append card renewal index: %w", err)
 	}
 
+	if n := len(dst) - start; n != lenOwnerIdentification {
+		return nil, fmt.Errorf("invalid length of OwnerIdentification: got %d, want %d", n, lenOwnerIdentification)
+	}
+
 	return dst, nil
 }
-- 
2.43.0


From 7304af399032180d7478376104191f62cb8d7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 54/59] fix: refuse GNSS accuracies and authentication statuses
 beyond a byte

---
 internal/dd/gnss_place_auth_record.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/dd/gnss_place_auth_record.go b/internal/dd/gnss_place_auth_record.go
index 679409a..9a86b4f 100644
--- a/internal/dd/gnss_place_auth_record.go
+++ b/internal/dd/gnss_place_auth_record.go
@@ -106,6 +106,9 @@ func AppendGNSSPlaceAuthRecord(dst []byte, record *ddv1.GNSSPlaceAuthRecord) ([]
 	}
 
 	// Append gnssAccuracy (1 byte)
+	if err := CheckUint("GNSS accuracy", record.GetGnssAccuracy(), 1); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(record.GetGnssAccuracy()))
 
 	// Append geoCoordinates (6 bytes)
@@ -118,6 +121,9 @@ func AppendGNSSPlaceAuthRecord(dst []byte, record *ddv1.GNSSPlaceAuthRecord) ([]
 	// Append authenticationStatus (1 byte)
 	var authStatus byte
 	if record.GetAuthenticationStatus() == ddv1.PositionAuthenticationStatus_POSITION_AUTHENTICATION_STATUS_UNRECOGNIZED {
+		if err := CheckUint("authentication status", record.GetUnrecognizedAuthenticationStatus(), 1); err != nil {
+			return nil, err
+		}
 		authStatus = byte(record.GetUnrecognizedAuthenticationStatus())
 	} else {
 		var err error
-- 
2.43.0


From 3a43c8a884f86f35fd0532339312288aa07c6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 55/59] fix: keep the manual input flag and refuse odometers
 that do not fit in card insertions

---
 internal/dd/vu_card_iw_record.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index c14147f..e5c8847 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -185,12 +185,18 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 4
 
 	// vehicleOdometerValueAtInsertion (3 bytes)
-	odometerAtInsertionBytes := AppendOdometer(nil, uint32(record.GetOdometerAtInsertionKm()))
+	odometerAtInsertionBytes, err := AppendOdometerKm(nil, record.GetOdometerAtInsertionKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer at insertion: %w", err)
+	}
 	copy(canvas[offset:offset+3], odometerAtInsertionBytes)
 	offset += 3
 
 	// cardSlotNumber (1 byte)
-	cardSlotNumberByte, _ := MarshalEnum(record.GetCardSlotNumber())
+	cardSlotNumberByte, err := MarshalEnum(record.GetCardSlotNumber())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append card slot number: %w", err)
+	}
 	canvas[offset] = cardSlotNumberByte
 	offset += 1
 
@@ -203,7 +209,10 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 4
 
 	// vehicleOdometerValueAtWithdrawal (3 bytes)
-	odometerAtWithdrawalBytes := AppendOdometer(nil, uint32(record.GetOdometerAtWithdrawalKm()))
+	odometerAtWithdrawalBytes, err := AppendOdometerKm(nil, record.GetOdometerAtWithdrawalKm())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append odometer at withdrawal: %w", err)
+	}
 	copy(canvas[offset:offset+3], odometerAtWithdrawalBytes)
 	offset += 3
 
@@ -216,10 +225,10 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 19
 
 	// manualInputFlag (1 byte)
-	if record.GetManualInputFlag() {
-		canvas[offset] = 1
-	} else {
+	if !record.GetManualInputFlag() {
 		canvas[offset] = 0
+	} else if canvas[offset] == 0 {
+		canvas[offset] = 1 // any other value of raw_data says the same
 	}
 
 	return append(dst, canvas[:]...), nil
-- 
2.43.0


From c3170bf982fbbc74e8140c98c5f3c08bbe934a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 56/59] fix: refuse a string of unknown encoding without its
 raw bytes

---
 internal/dd/string_value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 9c8e8e2..d9ca3a1 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -117,6 +117,9 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 	}
 
 	// Fallback: encode from semantic fields (no raw_data available)
+	if sv.GetEncoding() == ddv1.Encoding_ENCODING_UNRECOGNIZED {
+		return nil, fmt.Errorf("cannot marshal a string of an unrecognized encoding without raw_data")
+	}
 	value := sv.GetValue()
 	encoded, err := encodeWithCodePage(codePage, value)
 	if err != nil {
-- 
2.43.0


From df17604bccf63a3d0a08c6566950aad70dca5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 57/59] fix: fetch-certs: keep certificates of one name in
 files of their own

---
 tools/cmd/fetch-certs/main.go | 53 ++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 712bfd5..f23506f 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -261,6 +261,37 @@ func sortCertificates(certs []CertificateEntry) {
 	})
 }
 
+// certificateFiles saves certificates, different ones never in the same file.
+type certificateFiles struct {
+	dir string
+
+	mu    sync.Mutex
+	saved map[string][]byte // by file name
+}
+
+// save writes a certificate to <name>.bin, or to a file with a number behind its
+// name where another certificate is in it already, and returns the file's name.
+func (f *certificateFiles) save(name string, certData []byte) (string, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	filename := name + ".bin"
+	for i := 2; ; i++ {
+		saved, ok := f.saved[filename]
+		if !ok {
+			break
+		}
+		if bytes.Equal(saved, certData) {
+			return filename, nil
+		}
+		filename = fmt.Sprintf("%s_%d.bin", name, i)
+	}
+	if err := os.WriteFile(filepath.Join(f.dir, filename), certData, 0o644); err != nil {
+		return "", err
+	}
+	f.saved[filename] = certData
+	return filename, nil
+}
+
 func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir string, concurrency int, ercaModulus, ercaExponent *big.Int) ([]CertificateEntry, error) {
 	url := baseURL + "/dtc_public_key_certificates_dt.php.html"
 
@@ -286,6 +317,7 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 	// Process certificates concurrently
 	var mu sync.Mutex
 	var certificates []CertificateEntry
+	files := certificateFiles{dir: filepath.Join(outputDir, "g1"), saved: map[string][]byte{}}
 
 	g, gctx := errgroup.WithContext(ctx)
 	g.SetLimit(concurrency)
@@ -323,15 +355,15 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 			}
 
 			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
+			name := meta.name
 			if chrStr != "" {
-				filename = chrStr + ".bin"
+				name = chrStr
 			}
 
 			// Save certificate to g1/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g1", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
+			filename, err := files.save(name, certData)
+			if err != nil {
+				log.Printf("Warning: Failed to save %s: %v", name, err)
 				return nil
 			}
 
@@ -389,6 +421,7 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 	// Process certificates concurrently
 	var mu sync.Mutex
 	var certificates []CertificateEntry
+	files := certificateFiles{dir: filepath.Join(outputDir, "g2"), saved: map[string][]byte{}}
 
 	g, gctx := errgroup.WithContext(ctx)
 	g.SetLimit(concurrency)
@@ -422,15 +455,15 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 			}
 
 			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
+			name := meta.name
 			if chrStr != "" {
-				filename = chrStr + ".bin"
+				name = chrStr
 			}
 
 			// Save certificate to g2/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g2", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
+			filename, err := files.save(name, certData)
+			if err != nil {
+				log.Printf("Warning: Failed to save %s: %v", name, err)
 				return nil
 			}
 
-- 
2.43.0


From b372e3ed7e84facd9ee9544d3baeabcb3d85f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 58/59] fix: parse fails when a document cannot be printed

---
 cmd/tachograph/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tachograph/main.go b/cmd/tachograph/main.go
index 0c071e7..297ba43 100644
--- a/cmd/tachograph/main.go
+++ b/cmd/tachograph/main.go
@@ -71,7 +71,9 @@ func newParseCommand() *cobra.Command {
 			if err != nil {
 				return fmt.Errorf("error parsing file %s: %w", filename, err)
 			}
-			fmt.Println(protojson.Format(file))
+			if _, err := fmt.Println(protojson.Format(file)); err != nil {
+				return fmt.Errorf("error printing file %s: %w", filename, err)
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From f784687cb27fcefcd0e86350929fabc54710f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:22 +0000
Subject: [PATCH 59/59] fix: fetch-certs: do not take a certificate that begins
 with '<' for HTML

---
 tools/cmd/fetch-certs/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index f23506f..87313b1 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -975,8 +975,9 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 		return nil, err
 	}
 
-	if len(data) > 0 && data[0] == '<' {
-		return nil, fmt.Errorf("received HTML instead of certificate data")
+	// A certificate may begin with any byte, '<' included, but is never text
+	if strings.HasPrefix(http.DetectContentType(data), "text/") {
+		return nil, fmt.Errorf("received text instead of certificate data")
 	}
 
 	if len(data) > maxSize {
-- 
2.43.0

