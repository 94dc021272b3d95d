From a4da78100823ac48fd95902b47382464ab2ad76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 01/29] fix: surface position V1 type code 7 without NIC
 supplement A is Rc < 0.1 NM

---
 pkg/adsb/surface_position/surface_position_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/surface_position/surface_position_v1.go b/pkg/adsb/surface_position/surface_position_v1.go
index 9b2ab32..8ca1003 100644
--- a/pkg/adsb/surface_position/surface_position_v1.go
+++ b/pkg/adsb/surface_position/surface_position_v1.go
@@ -65,7 +65,7 @@ func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.Horizon
 		if nicSupplementA {
 			return fields.HCRV1RcLowerThan75M, 9
 		} else {
-			return fields.HCRV1RcGreaterThan0Point1NM, 8
+			return fields.HCRV1RcLowerThan0Point1NM, 8
 		}
 	default:
 		return fields.HCRV1RcGreaterThan0Point1NM, 0
-- 
2.43.0


From c310581e4d901b307f3b8672f16b7defcebabe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/29] fix: status register 0,7: check all of the reserved
 bits 4 to 8

---
 pkg/bds/bds07/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/status.go b/pkg/bds/bds07/status.go
index fbb4980..b1f4a8c 100644
--- a/pkg/bds/bds07/status.go
+++ b/pkg/bds/bds07/status.go
@@ -49,7 +49,7 @@ func ReadStatus(data []byte) (*Status, error) {
 	}
 
 	// Bits 4 to 8 are reserved and must be 0
-	if data[0]&0x1C != 0 {
+	if data[0]&0x1F != 0 {
 		return nil, errors.New("the bits 4 to 8 are reserved and must be 0")
 	}
 
-- 
2.43.0


From 612a39fd5a2692beff861c54a9e12296ff0fff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 03/29] fix: register 1,0: read the surveillance identifier
 code from bit 35

---
 pkg/bds/bds10/fields/surveillance_identifier_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/surveillance_identifier_code.go b/pkg/bds/bds10/fields/surveillance_identifier_code.go
index 07634b5..b49d268 100644
--- a/pkg/bds/bds10/fields/surveillance_identifier_code.go
+++ b/pkg/bds/bds10/fields/surveillance_identifier_code.go
@@ -29,6 +29,6 @@ func (sic SurveillanceIdentifierCode) ToString() string {
 
 // ReadSurveillanceIdentifierCode reads the SurveillanceIdentifierCode from a 56 bits data field
 func ReadSurveillanceIdentifierCode(data []byte) SurveillanceIdentifierCode {
-	bits := (data[2] & 0x40) >> 5
+	bits := (data[4] & 0x20) >> 5
 	return SurveillanceIdentifierCode(bits)
 }
-- 
2.43.0


From 479bf54cb144a6d4888513af98787c4b9eeba8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 04/29] fix: register 1,0: show the continuation flag under its
 own label

---
 pkg/bds/bds10/data_link_capability_report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bds/bds10/data_link_capability_report.go b/pkg/bds/bds10/data_link_capability_report.go
index 7026d09..22f106f 100644
--- a/pkg/bds/bds10/data_link_capability_report.go
+++ b/pkg/bds/bds10/data_link_capability_report.go
@@ -74,6 +74,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Continuation Flag:                       %v\n"+
+		"Overlay Command Capability:              %v\n"+
 		"ACAS Status                              %v\n"+
 		"ModeS Subnetwork Version                 %v\n"+
 		"Transponder Enhanced Protocol Indicator  %v\n"+
@@ -89,6 +90,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 		"ACAS Applicable Document                 %v\n"+
 		"DTE SubAddress Statuses                  %v\n",
 		message.GetRegister().ToString(),
+		message.ContinuationFlag.ToString(),
 		message.OverlayCommandCapability.ToString(),
 		message.ACASStatus.ToString(),
 		message.ModeSSubnetworkVersion.ToString(),
-- 
2.43.0


From 82be850791aea994d8a2dd1f2b18dc4992270302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 05/29] fix: register 4,0: MCP/FCU and FMS selected altitudes
 were swapped

---
 pkg/bds/bds40/fields/fms_selected_altitude.go | 9 +++++----
 pkg/bds/bds40/fields/mcp_selected_altitude.go | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds40/fields/fms_selected_altitude.go b/pkg/bds/bds40/fields/fms_selected_altitude.go
index 4c1ac8f..a4eeab4 100644
--- a/pkg/bds/bds40/fields/fms_selected_altitude.go
+++ b/pkg/bds/bds40/fields/fms_selected_altitude.go
@@ -5,10 +5,11 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadFMSSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[1] & 0x04) != 0
 
-	byte1 := data[0] & 0x7F
-	byte2 := data[1] & 0xF8
-	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
-	fmsAltitude := uint32(allBits) * 16
+	byte1 := data[1] & 0x03
+	byte2 := data[2]
+	byte3 := data[3] & 0xC0
+	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
+	fmsAltitude := allBits * 16
 
 	return status, fmsAltitude
 }
diff --git a/pkg/bds/bds40/fields/mcp_selected_altitude.go b/pkg/bds/bds40/fields/mcp_selected_altitude.go
index 83f3c4c..39c7c79 100644
--- a/pkg/bds/bds40/fields/mcp_selected_altitude.go
+++ b/pkg/bds/bds40/fields/mcp_selected_altitude.go
@@ -5,11 +5,10 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadMCPSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[0] & 0x80) != 0
 
-	byte1 := data[1] & 0x03
-	byte2 := data[2]
-	byte3 := data[3] & 0xC0
-	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
-	altitude := allBits * 16
+	byte1 := data[0] & 0x7F
+	byte2 := data[1] & 0xF8
+	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
+	altitude := uint32(allBits) * 16
 
 	return status, altitude
 }
-- 
2.43.0


From efd47ccb45a4bb2e8ed3c4d289f71d2d793d19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 06/29] fix: register 4,0: the barometric pressure setting has
 its own status bit 27

---
 pkg/bds/bds40/fields/barometric_pressure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 971d522..8d0349f 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -3,7 +3,7 @@ package fields
 import "github.com/twuillemin/modes/pkg/bitutils"
 
 func ReadBarometricPressure(data []byte) (bool, float32) {
-	status := (data[0] & 0x80) != 0
+	status := (data[3] & 0x20) != 0
 
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
-- 
2.43.0


From 75df9f1370aa044f1bb99a028866c6c1b16b45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 07/29] fix: register 4,0: a report without barometric pressure
 setting is coherent

---
 pkg/bds/bds40/fields/barometric_pressure.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 8d0349f..dca50c1 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -8,6 +8,12 @@ func ReadBarometricPressure(data []byte) (bool, float32) {
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 1
+
+	// No value given, so there is no offset to apply
+	if !status && allBits == 0 {
+		return status, 0
+	}
+
 	pressure := (float32(allBits) * 0.1) + 800
 
 	return status, pressure
-- 
2.43.0


From c73a6b6a3797d43979cf23a6a34f7e74c8db5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 08/29] fix: register 4,4: wind speed lost its most significant
 bit

---
 pkg/bds/bds44/fields/wind_speed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/wind_speed.go b/pkg/bds/bds44/fields/wind_speed.go
index d296fa0..3e3b4ef 100644
--- a/pkg/bds/bds44/fields/wind_speed.go
+++ b/pkg/bds/bds44/fields/wind_speed.go
@@ -5,7 +5,7 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadWindSpeed(data []byte) (bool, uint32) {
 	status := (data[0] & 0x08) != 0
 
-	byte1 := data[0] & 0x03
+	byte1 := data[0] & 0x07
 	byte2 := data[1] & 0xFC
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 2
 	speed := uint32(allBits)
-- 
2.43.0


From a089da507c67ceb536b08cdc119488b85a32f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 09/29] fix: register 4,4 V0: the temperature sign is bit 24

---
 pkg/bds/bds44/fields/static_air_temperature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/static_air_temperature.go b/pkg/bds/bds44/fields/static_air_temperature.go
index 7a6f5e8..f3680b6 100644
--- a/pkg/bds/bds44/fields/static_air_temperature.go
+++ b/pkg/bds/bds44/fields/static_air_temperature.go
@@ -10,7 +10,7 @@ func ReadStaticAirTemperatureV0(data []byte) float32 {
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 6
 	temperature := float32(allBits) * 0.25
 
-	if (data[3] & 0x01) != 0 {
+	if (data[2] & 0x01) != 0 {
 		temperature = temperature - 128
 	}
 
-- 
2.43.0


From 8f74b1d21f769967737d7fd2fce8a0c365ecd276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 10/29] fix: aircraft status without information: check all of
 the reserved bits 17 to 56

---
 pkg/bds/bds61/aircraft_status_no_information.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_no_information.go b/pkg/bds/bds61/aircraft_status_no_information.go
index 2156941..d969495 100644
--- a/pkg/bds/bds61/aircraft_status_no_information.go
+++ b/pkg/bds/bds61/aircraft_status_no_information.go
@@ -67,7 +67,7 @@ func ReadAircraftStatusNoInformation(data []byte) (*AircraftStatusNoInformation,
 	}
 
 	for i := uint(2); i < 7; i++ {
-		if (data[1] & 0x1F) != 0 {
+		if data[i] != 0 {
 			return nil, errors.New("the bits 17 to 56 are expected to be 0")
 		}
 	}
-- 
2.43.0


From b1e1b5ac63b1a69489db2c6dadb8056fef564be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 11/29] fix: target state: the low bits of the target angle are
 in byte 5

---
 pkg/bds/bds62/fields/target_heading_track_angle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/target_heading_track_angle.go b/pkg/bds/bds62/fields/target_heading_track_angle.go
index 1f5d2b5..fa02562 100644
--- a/pkg/bds/bds62/fields/target_heading_track_angle.go
+++ b/pkg/bds/bds62/fields/target_heading_track_angle.go
@@ -40,7 +40,7 @@ func ReadTargetHeadingTrackIndicator(data []byte) TargetHeadingTrackIndicator {
 // Specified in Doc 9871 / B.2.3.9.9
 func ReadTargetHeadingTrackAngle(data []byte) (uint16, NumericValueStatus) {
 	byte1 := data[3] & 0x1F
-	byte2 := data[2] & 0xF0
+	byte2 := data[4] & 0xF0
 	targetHeading := bitutils.Pack2Bytes(byte1, byte2) >> 4
 
 	if targetHeading > 359 {
-- 
2.43.0


From cdc566eddbf62581935dcc40b7a31335cf82f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/29] fix: target state V2: the selected altitude type is bit
 9

---
 pkg/bds/bds62/fields/selected_altitude_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_altitude_type.go b/pkg/bds/bds62/fields/selected_altitude_type.go
index 7a822bd..d6c5602 100644
--- a/pkg/bds/bds62/fields/selected_altitude_type.go
+++ b/pkg/bds/bds62/fields/selected_altitude_type.go
@@ -29,6 +29,6 @@ func (status SelectedAltitudeType) ToString() string {
 
 // ReadSelectedAltitudeType reads the SelectedAltitudeType from a 56 bits data field
 func ReadSelectedAltitudeType(data []byte) SelectedAltitudeType {
-	bits := data[0] & 0x01
+	bits := (data[1] & 0x80) >> 7
 	return SelectedAltitudeType(bits)
 }
-- 
2.43.0


From a2ac26c67129308bcc98c9fd4900239540282ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 13/29] fix: target state V2: the selected heading is in two's
 complement

---
 pkg/bds/bds62/fields/selected_heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_heading.go b/pkg/bds/bds62/fields/selected_heading.go
index bfc65ba..f1b263e 100644
--- a/pkg/bds/bds62/fields/selected_heading.go
+++ b/pkg/bds/bds62/fields/selected_heading.go
@@ -40,7 +40,7 @@ func ReadSelectedHeading(data []byte) (float32, SelectedHeadingStatus) {
 	heading := float32(bitutils.Pack2Bytes(byte1, byte2) >> 1)
 
 	if negative {
-		heading = -heading
+		heading = heading - 256
 	}
 
 	return heading * 180 / 256, status
-- 
2.43.0


From 2abe678c66fbe3cf506eb87ac9199b08407c3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 14/29] fix: ACAS threat altitude: pulses C1 and A1 were added
 to D2, B4 and D4

---
 pkg/acas/ra/fields/threat_identity_altitude.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_altitude.go b/pkg/acas/ra/fields/threat_identity_altitude.go
index 3cc0894..c256838 100644
--- a/pkg/acas/ra/fields/threat_identity_altitude.go
+++ b/pkg/acas/ra/fields/threat_identity_altitude.go
@@ -37,7 +37,7 @@ func ReadThreatIdentityAltitude(data []byte) (ThreatIdentityAltitude, error) {
 	// Then C2 A2 C4 A4
 	altitudeCode += uint16(data[3]&0xF0) << 2
 	// Then C1 A1
-	altitudeCode += uint16(data[2]&0x03) << 2
+	altitudeCode += uint16(data[2]&0x03) << 10
 
 	// Detect invalid altitude
 	if altitudeCode == 0 {
-- 
2.43.0


From 017556f5b10fa6b5ca294c8fe233d1b8f6c056de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 15/29] fix: ACAS threat range: read bit 82 and not bit 83

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index 762e95a..d566ad5 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -39,6 +39,6 @@ func (threatRange ThreatIdentityRange) GetRange() float64 {
 // ReadThreatIdentityRange reads the ThreatIdentityRange
 func ReadThreatIdentityRange(data []byte) ThreatIdentityRange {
 
-	bits := (data[4]&0x1F)<<2 + (data[5]&0xA0)>>6
+	bits := (data[4]&0x1F)<<2 + (data[5]&0xC0)>>6
 	return ThreatIdentityRange(bits)
 }
-- 
2.43.0


From b1853e60f364916792fc1d28e64fc2f1072f42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 16/29] fix: ACAS advisory: show a downward sense as downward

---
 .../fields/active_resolution_advisory_one_or_same_separation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
index 5fd7c79..786ff46 100644
--- a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
+++ b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
@@ -119,7 +119,7 @@ const (
 
 // ToString returns a basic, but readable, representation of the field
 func (sense ActiveRASense) ToString() string {
-	switch ActiveRASenseUpward {
+	switch sense {
 	case ActiveRASenseUpward:
 		return "Upward"
 	case ActiveRASenseDownward:
-- 
2.43.0


From 9c10187bfc78c29ce981e2d6c2f651c873854ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 17/29] fix: ACAS threat texts: bearings above 252 degrees
 wrapped around, range 127 lacked its code

---
 pkg/acas/ra/fields/threat_identity_bearing.go | 2 +-
 pkg/acas/ra/fields/threat_identity_range.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/acas/ra/fields/threat_identity_bearing.go b/pkg/acas/ra/fields/threat_identity_bearing.go
index f4f39f3..a47044b 100644
--- a/pkg/acas/ra/fields/threat_identity_bearing.go
+++ b/pkg/acas/ra/fields/threat_identity_bearing.go
@@ -14,7 +14,7 @@ func (threatBearing ThreatIdentityBearing) ToString() string {
 	if threatBearing == 0 {
 		return " 0 - No bearing estimate available"
 	} else if 1 <= threatBearing && threatBearing <= 60 {
-		return fmt.Sprintf("%v - between %v and %v", threatBearing, (threatBearing-1)*6, threatBearing*6)
+		return fmt.Sprintf("%v - between %v and %v", threatBearing, (int(threatBearing)-1)*6, int(threatBearing)*6)
 	} else if 61 <= threatBearing && threatBearing <= 63 {
 		return fmt.Sprintf("%v - Not assigned", threatBearing)
 	}
diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index d566ad5..3ea3fa6 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -18,7 +18,7 @@ func (threatRange ThreatIdentityRange) ToString() string {
 	} else if 2 <= threatRange && threatRange <= 126 {
 		return fmt.Sprintf("%v - %v +/- 0.05 NM", threatRange, threatRange.GetRange())
 	} else if threatRange == 127 {
-		return "Greater than 12.55"
+		return "127 - Greater than 12.55"
 	}
 	return fmt.Sprintf("%v - Unknown code", threatRange)
 }
-- 
2.43.0


From 0b6089070df15fbd3896c5780133350e7d961cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 18/29] fix: texts of five coded fields quoted the wrong code
 or meaning

---
 pkg/bds/bds07/fields/transmission_rate_subfield.go      | 2 +-
 pkg/bds/bds09/fields/navigation_uncertainty_category.go | 8 ++++----
 pkg/bds/bds10/fields/modes_subnetwork_version.go        | 8 ++++----
 pkg/bds/bds62/fields/source_integrity_level.go          | 4 ++--
 pkg/bds/bds65/fields/geometric_vertical_accuracy.go     | 6 +++---
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pkg/bds/bds07/fields/transmission_rate_subfield.go b/pkg/bds/bds07/fields/transmission_rate_subfield.go
index cbe7abf..63f32f6 100644
--- a/pkg/bds/bds07/fields/transmission_rate_subfield.go
+++ b/pkg/bds/bds07/fields/transmission_rate_subfield.go
@@ -21,7 +21,7 @@ func (trs TransmissionRateSubfield) ToString() string {
 
 	switch trs {
 	case TransmissionRateNoCapability:
-		return "0 - Barometric altitude"
+		return "0 - No capability to determine surface squitter rate"
 	case TransmissionRateHigh:
 		return "1 - High surface squitter rate selected"
 	case TransmissionRateLow:
diff --git a/pkg/bds/bds09/fields/navigation_uncertainty_category.go b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
index 1cd8817..368af79 100644
--- a/pkg/bds/bds09/fields/navigation_uncertainty_category.go
+++ b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
@@ -34,15 +34,15 @@ func (category NavigationUncertaintyCategory) ToString() string {
 			nucpHorizontalLabel, "< 10 m/s",
 			nucpVerticalLabel, "< 15.2 m/s (50 fps)")
 	case NUCPHorizontalLowerThan3VerticalLowerThan4Point6:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("2 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 3 m/s",
 			nucpVerticalLabel, "< 4.6 m/s (15 fps)")
 	case NUCPHorizontalLowerThan1VerticalLowerThan1Point5:
-		return fmt.Sprintf("1 - %v %v / %v %v",
-			nucpHorizontalLabel, "< 2 m/s",
+		return fmt.Sprintf("3 - %v %v / %v %v",
+			nucpHorizontalLabel, "< 1 m/s",
 			nucpVerticalLabel, "< 1.5 m/s (5 fps)")
 	case NUCPHorizontalLowerThan0Point3VerticalLowerThan0Point46:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("4 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 0.3 m/s",
 			nucpVerticalLabel, "< 0.46 m/s (1.5 fps)")
 
diff --git a/pkg/bds/bds10/fields/modes_subnetwork_version.go b/pkg/bds/bds10/fields/modes_subnetwork_version.go
index 098d7a9..33e0250 100644
--- a/pkg/bds/bds10/fields/modes_subnetwork_version.go
+++ b/pkg/bds/bds10/fields/modes_subnetwork_version.go
@@ -31,13 +31,13 @@ func (mssv ModeSSubnetworkVersion) ToString() string {
 	case ModeSSubnetworkVersion1:
 		return "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)"
 	case ModeSSubnetworkVersion2:
-		return "1 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
+		return "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
 	case ModeSSubnetworkVersion3:
-		return "1 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
+		return "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
 	case ModeSSubnetworkVersion4:
-		return "1 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
+		return "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
 	case ModeSSubnetworkVersion5:
-		return "1 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
+		return "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
 	default:
 		return fmt.Sprintf("%v - Unknown code", mssv)
 	}
diff --git a/pkg/bds/bds62/fields/source_integrity_level.go b/pkg/bds/bds62/fields/source_integrity_level.go
index 2d4488c..8064c0b 100644
--- a/pkg/bds/bds62/fields/source_integrity_level.go
+++ b/pkg/bds/bds62/fields/source_integrity_level.go
@@ -27,9 +27,9 @@ func (level SourceIntegrityLevel) ToString() string {
 	case SILLevel1:
 		return "1 - SIL <= 1 * 10^-3 per flight hour or per sample"
 	case SILLevel2:
-		return "1 - SIL <= 1 * 10^-5 per flight hour or per sample"
+		return "2 - SIL <= 1 * 10^-5 per flight hour or per sample"
 	case SILLevel3:
-		return "1 - SIL <= 1 * 10^-7 per flight hour or per sample"
+		return "3 - SIL <= 1 * 10^-7 per flight hour or per sample"
 	default:
 		return fmt.Sprintf("%v - Unknown code", level)
 	}
diff --git a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
index 1ec808a..ea6353a 100644
--- a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
+++ b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
@@ -25,11 +25,11 @@ func (baro GeometricVerticalAccuracy) ToString() string {
 	case GVAUnknownOrGreaterThan150m:
 		return "0 - Unknown or GVA >= 150 meters"
 	case GVALowerThan150m:
-		return "0 - GVA <= 150 meters"
+		return "1 - GVA <= 150 meters"
 	case GVALowerThan45m:
-		return "0 - GVA <= 45 meters"
+		return "2 - GVA <= 45 meters"
 	case GVAReserved3:
-		return "0 - reserved"
+		return "3 - reserved"
 	default:
 		return fmt.Sprintf("%v - Unknown code", baro)
 	}
-- 
2.43.0


From 2c3bb4acb01156e342405de5b00872f7a477bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 19/29] fix: surface operational status V2 announced ADS-B
 version 1

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index 2c4ecd3..ead72a9 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -28,7 +28,7 @@ type AircraftOperationalStatusSurfaceADSB2 struct {
 }
 
 func (message AircraftOperationalStatusSurfaceADSB2) GetADSBLevel() byte {
-	return 1
+	return 2
 }
 
 // GetRegister returns the Register the message
-- 
2.43.0


From 6616014a3a07951e6045160eab1020c8a3bfc659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 20/29] fix: airborne global CPR: refuse a latitude beyond the
 poles

---
 pkg/geo/cpr_airborne_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_airborne_global_position.go b/pkg/geo/cpr_airborne_global_position.go
index 7da5cbb..39c7225 100644
--- a/pkg/geo/cpr_airborne_global_position.go
+++ b/pkg/geo/cpr_airborne_global_position.go
@@ -49,6 +49,11 @@ func GetCPRAirborneGlobalPosition(
 		latitudeOdd -= 360
 	}
 
+	// Only invalid data can give a latitude beyond the poles
+	if math.Abs(latitudeEven) > 90 || math.Abs(latitudeOdd) > 90 {
+		return 0, 0, errors.New("the latitude is out of range")
+	}
+
 	// Before proceeding to the longitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
 	//values are the same. If not, this means the pair of messages are from different longitude zones,
 	//and it is not possible to compute the correct global position.
-- 
2.43.0


From 1c09e19ce886befd68a9f1cf159d3156da8958cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 21/29] fix: surface global CPR: choose the latitude solution
 closest to the reference

---
 pkg/geo/cpr_surface_global_position.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 771c0b0..63624fa 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -43,14 +43,14 @@ func GetCPRSurfaceGlobalPosition(
 	latitudeEven := 90 / (4 * Nz) * (mod(latitudeIndex, 4*Nz) + cprLatitudeEven)
 	latitudeOdd := 90 / (4*Nz - 1) * (mod(latitudeIndex, 4*Nz-1) + cprLatitudeOdd)
 
-	// If the reference in the southern hemisphere latitude solution
+	// Use the southern hemisphere latitude solution if it is the closest to the reference
 	latitudeEvenFixed := latitudeEven
-	if referenceLatitude < 0 {
+	if math.Abs(latitudeEven-90-referenceLatitude) < math.Abs(latitudeEven-referenceLatitude) {
 		latitudeEvenFixed = latitudeEvenFixed - 90
 	}
 
 	latitudeOddFixed := latitudeOdd
-	if referenceLatitude < 0 {
+	if math.Abs(latitudeOdd-90-referenceLatitude) < math.Abs(latitudeOdd-referenceLatitude) {
 		latitudeOddFixed = latitudeOddFixed - 90
 	}
 
-- 
2.43.0


From 78db9e0b7f82882d9b1393835b81517bbe732248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 22/29] fix: surface global CPR: the closest longitude may be
 across the antimeridian

---
 pkg/geo/cpr_surface_global_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 63624fa..9568e41 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -108,7 +108,7 @@ func GetCPRSurfaceGlobalPosition(
 
 	distancesToRef := [4]float64{}
 	for i, longitudeCorrected := range longitudesCorrected {
-		distancesToRef[i] = math.Abs(referenceLongitude - longitudeCorrected)
+		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
 	}
 
 	smallestDistance := 10000000.0
-- 
2.43.0


From c3ca840fdf72d9e58c2d1dbd3d643d9a7dbbdd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 23/29] fix: local CPR: return longitudes between -180 and 180
 degrees

---
 pkg/geo/cpr_airborne_local_position.go | 7 +++++++
 pkg/geo/cpr_surface_local_position.go  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/pkg/geo/cpr_airborne_local_position.go b/pkg/geo/cpr_airborne_local_position.go
index 94f4a9d..cdd61e3 100644
--- a/pkg/geo/cpr_airborne_local_position.go
+++ b/pkg/geo/cpr_airborne_local_position.go
@@ -46,5 +46,12 @@ func GetCPRAirborneLocalPosition(
 	// Knowing the longitude zone index, the longitude of the new position is
 	longitude := dLon * (m + lonCPR)
 
+	// Crossing the antimeridian, keep the longitude between -180 and 180 degrees
+	if longitude > 180 {
+		longitude -= 360
+	} else if longitude < -180 {
+		longitude += 360
+	}
+
 	return latitude, longitude
 }
diff --git a/pkg/geo/cpr_surface_local_position.go b/pkg/geo/cpr_surface_local_position.go
index 3c31c76..e9f2c30 100644
--- a/pkg/geo/cpr_surface_local_position.go
+++ b/pkg/geo/cpr_surface_local_position.go
@@ -47,5 +47,12 @@ func GetCPRSurfaceLocalPosition(
 	// Knowing the longitude zone index, the longitude of the new position is
 	longitude := dLon * (m + lonCPR)
 
+	// Crossing the antimeridian, keep the longitude between -180 and 180 degrees
+	if longitude > 180 {
+		longitude -= 360
+	} else if longitude < -180 {
+		longitude += 360
+	}
+
 	return latitude, longitude
 }
-- 
2.43.0


From bb1e1285c1881ce5268be901901375f5bd18c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 24/29] fix: ground distance between antipodal points could be
 NaN

---
 pkg/geo/ground_distance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/geo/ground_distance.go b/pkg/geo/ground_distance.go
index a7ee98d..be1ff70 100644
--- a/pkg/geo/ground_distance.go
+++ b/pkg/geo/ground_distance.go
@@ -24,6 +24,9 @@ func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
 
 	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
 
+	// Rounding errors can exceed 1 for antipodal points
+	a = math.Min(a, 1)
+
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	metricDistance := earthRadius * c
-- 
2.43.0


From ec061118a6cb72bba1ce079c99578e18c2026821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 25/29] fix: command line: flags before a message given as
 argument were taken as the message

---
 cmd/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 07d2212..eddeb24 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -44,8 +44,8 @@ func main() {
 		return
 	}
 
-	if len(os.Args) > 1 {
-		processSingleLine(os.Args[1], adsbReaderLevel)
+	if flag.NArg() > 0 {
+		processSingleLine(flag.Arg(0), adsbReaderLevel)
 	} else {
 		fmt.Printf("No data provided")
 	}
-- 
2.43.0


From 883153d3a02c9474f8bbb54fe99355023856706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 26/29] fix: airborne position without type: keep surveillance
 status and antenna flag

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 33a0c0e..1dab5cf 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,9 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the format type code to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22,
+	// keeping the surveillance status and the single antenna flag
+	dataTmp := []byte{0xB0 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From be282e3d5686aa5433d30677647afabfad232008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 27/29] fix: airborne position and no position readers panicked
 on short data

---
 pkg/adsb/airborne_position/airborne_position.go             | 4 ++++
 pkg/adsb/airborne_position/airborne_position_type_0.go      | 4 ++++
 pkg/adsb/no_position_information/no_position_information.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 70ddabf..95546c1 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -8,6 +8,10 @@ import (
 // ReadAirbornePosition reads a message at the format AirbornePosition
 func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool) (adsb.Message, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	if data[0] == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 1dab5cf..2a8d6e1 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,6 +36,10 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the format type code to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22,
 	// keeping the surveillance status and the single antenna flag
 	dataTmp := []byte{0xB0 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index 0e04f6f..af8002f 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -37,6 +37,10 @@ func (message NoPositionInformation) ToString() string {
 // ReadNoPositionInformation reads a message at the format NoPositionInformation
 func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPositionInformation, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}
 
-- 
2.43.0


From ad0f994e5228f6d285e103869131c889ac88fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 28/29] fix: surface global CPR panicked on a reference which
 is not a position

---
 pkg/geo/cpr_surface_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 9568e41..64e566a 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -120,6 +120,11 @@ func GetCPRSurfaceGlobalPosition(
 		}
 	}
 
+	// Only a reference which is not a position on Earth is at no distance of the solutions
+	if minIndex < 0 {
+		return 0, 0, errors.New("the reference position is not valid")
+	}
+
 	longitude := longitudesCorrected[minIndex]
 
 	return latitude, longitude, nil
-- 
2.43.0


From d1b89542c05590b6ba7afe729129f910f2669ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 29/29] fix: operational status texts: surface capability class
 and track angle labelled as other fields

---
 pkg/bds/bds65/aircraft_operational_status_adsb0.go          | 4 ++--
 pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go | 2 +-
 pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go  | 4 ++--
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_adsb0.go b/pkg/bds/bds65/aircraft_operational_status_adsb0.go
index 20a2de7..c6702fe 100644
--- a/pkg/bds/bds65/aircraft_operational_status_adsb0.go
+++ b/pkg/bds/bds65/aircraft_operational_status_adsb0.go
@@ -44,8 +44,8 @@ func (message AircraftOperationalStatusADSB0) ToString() string {
 		"Terminal Area Operational Capability Status:    %v\n"+
 		"Approach/Landing Operational Capabilities:      %v\n"+
 		"Approach/Landing Operational Capability Status: %v\n"+
-		"SubtypeSurface Operational Capabilities:               %v\n"+
-		"SubtypeSurface Operational Capability Status:          %v",
+		"Surface Operational Capabilities:               %v\n"+
+		"Surface Operational Capability Status:          %v",
 		message.GetRegister().ToString(),
 		message.EnRouteOperationalCapabilities.ToString(),
 		message.EnRouteOperationalCapabilityStatus.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go
index c071fdf..bc91abb 100644
--- a/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_airborne_adsb2.go
@@ -46,7 +46,7 @@ func (message AircraftOperationalStatusAirborneADSB2) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"Airborne Capability Class:               \n%v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
 		"NIC Supplement:                          %v\n"+
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
index 0eb8ff0..4e029ea 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
@@ -45,14 +45,14 @@ func (message AircraftOperationalStatusSurfaceADSB1) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"Surface Capability Class:                \n%v\n"+
 		"Aircraft Length And Width                %v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
 		"Surveillance Integrity ReaderLevel:      \n%v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle/Heading:                     %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index ead72a9..b04b7f2 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -46,7 +46,7 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"Surface Capability Class:                \n%v\n"+
 		"Aircraft Length And Width                %v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
@@ -54,7 +54,7 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 		"Navigational Accuracy Category Position: %v\n"+
 		"Source Integrity ReaderLevel:            %v\n"+
 		"Source Integrity ReaderLevel Supplement: %v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle/Heading:                     %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-- 
2.43.0

