package main

// Model of the Comm-B registers (C14 to C17) and of the ACAS advisories (C18).

import (
	"fmt"
	"math"
	"strings"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

func byteIs(v byte) func(m M) int { return func(m M) int { return b2i(m.D[0] == v) } }

func withByte0(v byte) func(d []byte) { return func(d []byte) { d[0] = v } }

func rangesOf(fs []F) [][2]int {
	var out [][2]int
	for _, f := range fs {
		out = append(out, f.R...)
	}
	return out
}

func bds20Layout() *Layout {
	l := &Layout{Name: "bds20", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds20.ReadAircraftIdentification(d) },
		Accept: byteIs(0x20), Fields: []F{callsignF, reg("BDS 2,0")},
		Coherent: func(m M) int { return b2i(!callsignBad(m)) },
		Ranges:   [][2]int{{1, 8}}}
	l.Bases = [][]byte{{0x20, 0x50, 0x86, 0x73, 0xE1, 0x98, 0x20}}
	l.Bases = append(l.Bases, fill(7, withByte0(0x20))...)
	return l
}

func bds07Layout() *Layout {
	return &Layout{Name: "bds07", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds07.ReadStatus(d) },
		Accept:   func(m M) int { return b2i(zero(m, 4, 56)) },
		Fields:   []F{u("TransmissionRateSubfield", 1, 2), bit("AltitudeTypeSubfield", 3), reg("BDS 0,7")},
		Coherent: func(m M) int { return b2i(m.U(1, 2) < 3) },
		Bases:    [][]byte{{0x40, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}, {0xE0, 0, 0, 0, 0, 0, 0}},
		Ranges:   [][2]int{{1, 8}, {9, 16}, {17, 24}, {25, 32}, {33, 40}, {41, 48}, {49, 56}}}
}

func bds10Layout() *Layout {
	l := &Layout{Name: "bds10", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds10.ReadDataLinkCapabilityReport(d) },
		Accept: func(m M) int { return b2i(m.D[0] == 0x10 && zero(m, 10, 14)) },
		Fields: []F{bit("ContinuationFlag", 9), bit("OverlayCommandCapability", 15), bit("ACASStatus", 16), u("ModeSSubnetworkVersion", 17, 23),
			bit("TransponderEnhancedProtocolIndicator", 24), bit("ModeSSpecificServicesCapability", 25),
			u("UplinkELMThroughputCapability", 26, 28), u("DownlinkELMThroughputCapability", 29, 32),
			bit("AircraftIdentificationCapability", 33), bit("SquitterCapabilitySubfield", 34), bit("SurveillanceIdentifierCode", 35),
			bit("CommonUsageGICBCapability", 36), bit("ACASHybridSurveillanceCapability", 37), bit("ACASGenerationCapability", 38),
			u("ACASApplicableDocument", 39, 40), reg("BDS 1,0")},
		Coherent: func(m M) int {
			acas := m.U(16, 16)
			if acas == 0 && !zero(m, 37, 40) || acas == 1 && m.U(39, 40) > 2 {
				return 0
			}
			return b2i(m.U(17, 23) <= 5 && m.U(26, 28) <= 6 && m.U(29, 32) <= 6)
		},
		Ranges: [][2]int{{1, 8}, {10, 14}, {37, 40}, {41, 56}}}
	l.Fields = append(l.Fields, u("DTESubAddressStatuses", 41, 56))
	l.Bases = fill(7, func(d []byte) { d[0] = 0x10; d[1] &= 0x83 })
	l.Bases = append(l.Bases, []byte{0x10, 0x03, 0x0A, 0x80, 0xF5, 0, 0}, []byte{0x10, 0x01, 0x05<<1 | 1, 0x66, 0xF1, 0x80, 1})
	return l
}

var gicb = []string{"ExtendedSquitterAirbornePosition", "ExtendedSquitterSurfacePosition", "ExtendedSquitterStatus",
	"ExtendedSquitterIdentificationAndCategory", "ExtendedSquitterAirborneVelocityInformation", "ExtendedSquitterEventDrivenInformation",
	"AircraftIdentification", "AircraftRegistrationNumber", "SelectedVerticalIntention", "NextWaypointIdentifier", "NextWaypointPosition",
	"NextWaypointInformation", "MeteorologicalRoutineReport", "MeteorologicalHazardReport", "VHFChannelReport", "TrackAndTurnReport",
	"PositionCoarse", "PositionFine", "AirReferencedStateVector", "Waypoint1", "Waypoint2", "Waypoint3", "QuasiStaticParameterMonitoring",
	"HeadingAndSpeedReport"}

func bds17Layout() *Layout {
	l := &Layout{Name: "bds17", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds17.ReadCommonUsageGICBCapabilityReport(d) },
		Accept:   func(m M) int { return b2i(zero(m, 30, 56)) },
		Coherent: yes, Ranges: [][2]int{{30, 32}, {33, 40}, {41, 48}, {49, 56}, {1, 8}, {9, 16}, {17, 24}, {25, 32}}}
	for i, n := range gicb {
		l.Fields = append(l.Fields, bit(n, i+1))
	}
	l.Fields = append(l.Fields, bit("MilitaryApplications", 29), reg("BDS 1,7"))
	l.Bases = fill(7, func(d []byte) { d[3] &= 0xF8; d[4], d[5], d[6] = 0, 0, 0 })
	return l
}

func kn(status bool, ok bool) bool { return status || ok }

func bds40Layout() *Layout {
	l := &Layout{Name: "bds40", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds40.ReadSelectedVerticalIntention(d) },
		Accept: func(m M) int { return b2i(zero(m, 40, 47) && zero(m, 52, 53)) },
		Fields: []F{bit("MCPFCUSelectedAltitudeAvailable", 1), num("MCPFCUSelectedAltitude", 2, 13, mul(16)),
			bit("FMSSelectedAltitudeAvailable", 14), num("FMSSelectedAltitude", 15, 26, mul(16)),
			bit("BarometricPressureSettingAvailable", 27),
			{Path: "BarometricPressureSetting", R: [][2]int{{28, 39}, {27, 39}}, Want: func(m M) Val {
				r := m.U(28, 39)
				if !m.Bit(27) && r == 0 {
					return Any()
				}
				return N(float64(r)*0.1 + 800)
			}},
			bit("StatusOfModeBits", 48), bit("VNAVMode", 49), bit("AltitudeHoldMode", 50), bit("ApproachMode", 51),
			bit("StatusOfTargetAltitudeSource", 54), u("TargetAltitudeSource", 55, 56), reg("BDS 4,0")},
		Coherent: func(m M) int {
			some := m.Bit(1) || m.Bit(14) || m.Bit(27)
			return b2i(some && kn(m.Bit(1), zero(m, 2, 13)) && kn(m.Bit(14), zero(m, 15, 26)) && kn(m.Bit(27), zero(m, 28, 39)))
		},
		Ranges: [][2]int{{40, 47}, {52, 53}, {1, 13}, {14, 26}}}
	l.Bases = fill(7, func(d []byte) { d[4] &= 0xFE; d[5] &= 1; d[6] &= 0xE7 })
	l.Bases = append([][]byte{{0x85, 0xE4, 0x2F, 0x31, 0x30, 0, 0}, {0x80, 0, 0, 0, 0, 0, 0}, {0, 4, 0, 0, 0, 0, 0}, {0, 0, 0, 0x20, 0, 0, 0}}, l.Bases...)
	return l
}

// raw magnitudes of a temperature which lies between -80 and 60 degrees
func tempOK(t float64) bool { return t >= -80 && t <= 60 }

func bds44V12(name string, v2 bool) *Layout {
	l := &Layout{Name: name, Len: 7,
		Fields: []F{bit("WindSpeedStatus", 5), u("WindSpeed", 6, 14), bit("WindDirectionStatus", 15), num("WindDirection", 16, 23, mul(180.0/128)),
			bit("StaticAirTemperatureStatus", 24), twos("StaticAirTemperature", 25, 26, 35, 0.125),
			bit("AverageStaticPressureStatus", 36), u("AverageStaticPressure", 37, 47), bit("TurbulenceFlag", 48),
			bit("HumidityStatus", 49), u("Humidity", 50, 56), reg("BDS 4,4")},
		Coherent: func(m M) int {
			some := m.Bit(5) || m.Bit(15) || m.Bit(24) || m.Bit(36) || m.Bit(49)
			return b2i(some && m.U(1, 4) < 5 && kn(m.Bit(5), zero(m, 6, 14)) && kn(m.Bit(15), zero(m, 16, 23)) && kn(m.Bit(24), zero(m, 25, 35)) &&
				kn(m.Bit(36), zero(m, 37, 47)) && kn(m.Bit(49), zero(m, 50, 56)) && m.U(6, 14) <= 250 && tempOK(float64(m.T(25, 26, 35))*0.125))
		},
		Ranges: [][2]int{{1, 4}, {5, 14}, {15, 23}, {24, 35}}}
	good := [][]byte{{0x0A, 0x03, 0x21, 0x10, 0x18, 0x40, 0x80}, {0x08, 0, 0, 0, 0, 0, 0}, {0x00, 0x02, 0, 0, 0, 0, 0}, {0, 0, 1, 0x10, 0, 0, 0}, {0, 0, 0, 0, 0x10, 0, 0}, {0, 0, 0, 0, 0, 0, 0x80}}
	if v2 {
		for i := range good {
			good[i][0] |= byte(1+i%4) << 4
		}
		l.Fields = append(l.Fields, u("Source", 1, 4)) // GetSource() of it: see bds44V2Source
		l.Call = func(d []byte, _ []float64) (interface{}, error) {
			return bds44.ReadMeteorologicalRoutineAirReportV2(d)
		}
		l.Accept = func(m M) int {
			if s := m.U(1, 4); s >= 1 && s <= 4 {
				return 1
			}
			return -1
		}
		l.Bases = append(good, fill(7, func(d []byte) { d[0] = d[0]&0x0F | 0x10 })...)
	} else {
		l.Call = func(d []byte, _ []float64) (interface{}, error) {
			return bds44.ReadMeteorologicalRoutineAirReportV1(d)
		}
		l.Accept = func(m M) int { return b2i(zero(m, 1, 4)) }
		l.Bases = append(good, fill(7, func(d []byte) { d[0] &= 0x0F })...)
	}
	return l
}

// bds44V2Source: what the accessor of the source answers, for each source. It disagrees with the field (known findings),
// as a test of the project demands, so nothing else is explored with it.
func bds44V2Source() *Layout {
	l := bds44V12("bds44-v2-source", true)
	l.Bases = nil
	for i := byte(1); i <= 4; i++ {
		l.Bases = append(l.Bases, []byte{i<<4 | 0x08, 0xBB, 0xA9, 0xCD, 0xC0, 0, 0})
	}
	l.Fields, l.Fixed = []F{u("GetSource()", 1, 4)}, true
	return l
}

func bds44Dispatch() *Layout {
	v1, v2 := bds44V12("", false), bds44V12("", true)
	l := *v2
	l.Name = "bds44"
	l.Call = func(d []byte, _ []float64) (interface{}, error) {
		return bds44.ReadMeteorologicalRoutineAirReport(d)
	}
	l.Accept = func(m M) int { return b2i(m.U(1, 4) <= 4) }
	l.Fields = v1.Fields
	l.More = func(m M) []F {
		if zero(m, 1, 4) {
			return []F{konst("GetSource()", U(0))}
		}
		return []F{u("Source", 1, 4)}
	}
	l.Type = func(m M) string {
		if zero(m, 1, 4) {
			return "MeteorologicalRoutineAirReportV1"
		}
		return "MeteorologicalRoutineAirReportV2"
	}
	l.Bases = append(append([][]byte(nil), v1.Bases[:3]...), v2.Bases...)
	return &l
}

// bds44V0: the older layout, read on request only.
func bds44V0() *Layout {
	temp := func(m M) float64 {
		t := float64(m.U(25, 34)) * 0.25
		if m.Bit(24) {
			t -= 128
		}
		return t
	}
	l := &Layout{Name: "bds44-v0", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) {
		return bds44.ReadMeteorologicalRoutineAirReportV0(d)
	},
		Accept: func(m M) int { return -1 },
		Fields: []F{u("Source", 1, 4), u("GetSource()", 1, 4), bit("WindSpeedStatus", 5), u("WindSpeed", 6, 14), bit("WindDirectionStatus", 5), num("WindDirection", 15, 23, mul(180.0/256)),
			{Path: "StaticAirTemperature", Want: func(m M) Val { return N(temp(m)) }, R: [][2]int{{24, 24}, {25, 34}}},
			bit("AverageStaticPressureStatus", 35), u("AverageStaticPressure", 36, 46), bit("TurbulenceStatus", 47), u("Turbulence", 48, 49),
			bit("HumidityStatus", 50), num("Humidity", 51, 56, mul(100.0/64))},
		Coherent: func(m M) int {
			some := m.Bit(5) || m.Bit(35) || m.Bit(47) || m.Bit(50)
			return b2i(some && m.U(1, 4) < 5 && kn(m.Bit(5), zero(m, 6, 23)) && kn(m.Bit(35), zero(m, 36, 46)) &&
				kn(m.Bit(50), zero(m, 51, 56)) && m.U(6, 14) <= 250 && tempOK(temp(m)))
		}}
	l.Bases = append([][]byte{{0x1A, 0x03, 0x20, 0x10, 0x18, 0x40, 0x40}, {0x18, 0, 0, 0, 0, 0, 0}}, fill(7, func(d []byte) { d[0] = d[0]&0x0F | 0x10 })...)
	return l
}

var bds45V1Fields = []F{bit("WindShearStatus", 1), u("WindShear", 2, 3), bit("MicroBurstStatus", 4), u("MicroBurst", 5, 6),
	bit("IcingStatus", 7), u("Icing", 8, 9), bit("WakeVortexStatus", 10), u("WakeVortex", 11, 12),
	bit("StaticAirTemperatureStatus", 13), twos("StaticAirTemperature", 14, 15, 24, 0.125),
	bit("RadioHeightStatus", 25), num("RadioHeight", 26, 37, mul(2)),
	bit("TurbulenceStatus", 38), bit("GetTurbulenceStatus()", 38), num("TurbulenceAverageEDR", 39, 44, edr), num("TurbulencePeakEDR", 45, 50, edr), u("TurbulencePeakDelayInterval", 51, 54),
	reg("BDS 4,5")}

func edr(r uint64) float64 { return math.Min(float64(r)*0.02, 1.26) }

func bds45V1Coherent(m M) int {
	some := m.Bit(1) || m.Bit(4) || m.Bit(7) || m.Bit(10) || m.Bit(13) || m.Bit(25) || m.Bit(38)
	return b2i(some && kn(m.Bit(38), zero(m, 39, 54)) && kn(m.Bit(1), zero(m, 2, 3)) && kn(m.Bit(4), zero(m, 5, 6)) && kn(m.Bit(7), zero(m, 8, 9)) &&
		kn(m.Bit(10), zero(m, 11, 12)) && (!m.Bit(13) || tempOK(float64(m.T(14, 15, 24))*0.125)) && kn(m.Bit(25), zero(m, 26, 37)))
}

func bds45Layout(name string, dispatch bool) *Layout {
	l := &Layout{Name: name, Len: 7,
		Call:   func(d []byte, _ []float64) (interface{}, error) { return bds45.ReadMeteorologicalHazardReportV1(d) },
		Accept: func(m M) int { return b2i(zero(m, 55, 56)) }, Fields: bds45V1Fields, Coherent: bds45V1Coherent,
		Ranges: [][2]int{{55, 56}, {1, 12}, {13, 24}, {25, 37}}}
	if dispatch {
		l.Call = func(d []byte, _ []float64) (interface{}, error) { return bds45.ReadMeteorologicalHazardReport(d) }
		l.Type = func(M) string { return "MeteorologicalHazardReportV1" }
	}
	l.Bases = append([][]byte{{0, 0, 0, 0x80, 0x50, 0, 0}, {0, 0x08, 0x40, 0, 0, 0, 0}, {0x80, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 4, 0, 0}},
		fill(7, func(d []byte) { d[6] &= 0xFC })...)
	return l
}

func bds45V0() *Layout {
	l := &Layout{Name: "bds45-v0", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) {
		return bds45.ReadMeteorologicalHazardReportV0(d)
	},
		Accept: func(m M) int { return b2i(zero(m, 52, 56)) },
		Fields: []F{bit("TurbulenceStatus", 1), bit("GetTurbulenceStatus()", 1), u("Turbulence", 2, 3), bit("WindShearStatus", 4), u("WindShear", 5, 6), bit("MicroBurstStatus", 7), u("MicroBurst", 8, 9),
			bit("IcingStatus", 10), u("Icing", 11, 12), bit("WakeVortexStatus", 13), u("WakeVortex", 14, 15),
			bit("StaticAirTemperatureStatus", 16), twos("StaticAirTemperature", 17, 18, 26, 0.25),
			bit("AverageStaticPressureStatus", 27), u("AverageStaticPressure", 28, 38), bit("RadioHeightStatus", 39), num("RadioHeight", 40, 51, mul(16)), reg("BDS 4,5")},
		Coherent: func(m M) int {
			some := m.Bit(1) || m.Bit(4) || m.Bit(7) || m.Bit(10) || m.Bit(13) || m.Bit(16) || m.Bit(27) || m.Bit(39)
			return b2i(some && kn(m.Bit(1), zero(m, 2, 3)) && kn(m.Bit(4), zero(m, 5, 6)) && kn(m.Bit(7), zero(m, 8, 9)) && kn(m.Bit(10), zero(m, 11, 12)) &&
				kn(m.Bit(13), zero(m, 14, 15)) && kn(m.Bit(16), zero(m, 17, 26)) && kn(m.Bit(27), zero(m, 28, 38)) && kn(m.Bit(39), zero(m, 40, 51)) &&
				tempOK(float64(m.T(17, 18, 26))*0.25))
		},
		Ranges: [][2]int{{52, 56}}}
	l.Bases = append([][]byte{{0x80, 0, 0, 0, 0, 0, 0}, {0, 1, 0x20, 0, 0, 0, 0}, {0, 0, 0, 0x24, 0, 0, 0}}, fill(7, func(d []byte) { d[6] &= 0xE0 })...)
	return l
}

func bds50Layout() *Layout {
	l := &Layout{Name: "bds50", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds50.ReadTrackAndTurnReport(d) },
		Accept: yes,
		Fields: []F{bit("RollAngleStatus", 1), twos("RollAngle", 2, 3, 11, 45.0/256), bit("TrueTrackAngleStatus", 12), twos("TrueTrackAngle", 13, 14, 23, 90.0/512),
			bit("GroundSpeedStatus", 24), num("GroundSpeed", 25, 34, mul(2)), bit("TrackAngleRateStatus", 35), twos("TrackAngleRate", 36, 37, 45, 8.0/256),
			bit("TrueAirSpeedStatus", 46), num("TrueAirSpeed", 47, 56, mul(2)), reg("BDS 5,0")},
		Coherent: func(m M) int {
			some := m.Bit(1) || m.Bit(12) || m.Bit(24) || m.Bit(35) || m.Bit(46)
			roll := math.Abs(float64(m.T(2, 3, 11)) * 45 / 256)
			gs, tas := float64(m.U(25, 34)*2), float64(m.U(47, 56)*2)
			return b2i(some && kn(m.Bit(1), zero(m, 2, 11)) && kn(m.Bit(12), zero(m, 13, 23)) && kn(m.Bit(24), zero(m, 25, 34)) &&
				kn(m.Bit(35), zero(m, 36, 45)) && kn(m.Bit(46), zero(m, 47, 56)) && roll <= 50 && gs <= 600 && tas <= 500 && math.Abs(gs-tas) <= 200)
		},
		Ranges: [][2]int{{1, 11}, {12, 23}, {24, 34}, {35, 45}, {46, 56}}}
	l.Bases = append([][]byte{{0x80, 0x11, 0x11, 0x3F, 0x20, 0x04, 0xC0}, {0x80, 0, 0, 0, 0, 0, 0}, {0, 0x10, 0, 0, 0, 0, 0}, {0, 0, 1, 0x10, 0, 0, 0},
		{0, 0, 0, 0, 0x20, 0, 0}, {0, 0, 0, 0, 0, 4, 0x10}, {0x80, 0x10, 1, 0x40, 0x20, 4, 0x80}}, fill(7, nil)...)
	return l
}

func bds60Layout() *Layout {
	l := &Layout{Name: "bds60", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds60.ReadHeadingAndSpeedReport(d) },
		Accept: yes,
		Fields: []F{bit("MagneticHeadingStatus", 1), twos("MagneticHeading", 2, 3, 12, 90.0/512), bit("IndicatedAirSpeedStatus", 13), u("IndicatedAirSpeed", 14, 23),
			bit("MachStatus", 24), num("Mach", 25, 34, mul(2.048/512)), bit("BarometricAltitudeRateStatus", 35), twos("BarometricAltitudeRate", 36, 37, 45, 32),
			bit("InitialVerticalVelocityStatus", 46), twos("InitialVerticalVelocity", 47, 48, 56, 32), reg("BDS 6,0")},
		Coherent: func(m M) int {
			some := m.Bit(1) || m.Bit(13) || m.Bit(24) || m.Bit(35) || m.Bit(46)
			br, iv := m.T(36, 37, 45)*32, m.T(47, 48, 56)*32
			if br < 0 {
				br = -br
			}
			if iv < 0 {
				iv = -iv
			}
			return b2i(some && kn(m.Bit(1), zero(m, 2, 12)) && kn(m.Bit(13), zero(m, 14, 23)) && kn(m.Bit(24), zero(m, 25, 34)) &&
				kn(m.Bit(35), zero(m, 36, 45)) && kn(m.Bit(46), zero(m, 47, 56)) && m.U(14, 23) <= 500 && m.U(25, 34) <= 250 && br <= 6000 && iv <= 6000)
		},
		Ranges: [][2]int{{1, 12}, {13, 23}, {24, 34}, {35, 45}, {46, 56}}}
	l.Bases = append([][]byte{{0x80, 0x18, 0x31, 0x20, 0x20, 0x04, 0x10}, {0x80, 0, 0, 0, 0, 0, 0}, {0, 8, 0, 0, 0, 0, 0}, {0, 0, 1, 0x10, 0, 0, 0},
		{0, 0, 0, 0, 0x20, 0, 0}, {0, 0, 0, 0, 0, 4, 0x10}}, fill(7, nil)...)
	return l
}

// ---------------------------------------------------------------------------------------------------------------------
// ACAS

// threat altitude: bits 21.. of the advisory are C1 A1 C2 A2 C4 A4 M B1 D1 B2 D2 B4 D4 (bit 27 is not used)
// in the 48 bits: TTI 29-30? The advisory counts its own bits from 1: ARA 1-14, RAC 15-18, RAT 19, MTE 20, TTI 21-22, TID 23-48.
func threatAltitude(m M) (ft int32, valid, legal bool) {
	// 13 bits 23..35: C1 A1 C2 A2 C4 A4 M B1 D1 B2 D2 B4 D4
	p := uint16(m.U(23, 28))<<6 | uint16(m.U(30, 35))
	if p == 0 {
		return 0, false, true
	}
	ft, ok := gillhamPulses(p)
	return ft, ok, ok
}

func raAccept(m M) int {
	if m.U(21, 22) == 2 {
		_, _, legal := threatAltitude(m)
		return b2i(legal)
	}
	return 1
}

func raFieldsAt(prefix string, off int) []F {
	in := func(f func(m M) Val) func(m M) Val { return func(m M) Val { return f(m.sub(off+1, 48)) } }
	b := func(path string, i int) F {
		return F{prefix + path, func(m M) Val { return U(m.U(off+i, off+i)) }, [][2]int{{off + i, off + i}}}
	}
	fs := []F{
		{Path: prefix + "ActiveRA.GetType()", R: [][2]int{{off + 1, off + 1}, {off + 20, off + 20}}, Want: in(func(m M) Val {
			switch {
			case m.Bit(1):
				return U(0)
			case m.Bit(20):
				return U(1)
			}
			return U(2)
		})},
		{Path: prefix + "ActiveRA#", Want: in(func(m M) Val {
			switch {
			case m.Bit(1):
				return Val{K: 't', S: "ActiveRAOneThreatOrSameSeparation"}
			case m.Bit(20):
				return Val{K: 't', S: "ActiveRAMultipleThreatsDifferentSeparation"}
			}
			return Val{K: 't', S: "ActiveRANoVerticalRAGenerated"}
		})},
		b("RAComplement.DoNotPassBelow", 15), b("RAComplement.DoNotPassAbove", 16), b("RAComplement.DoNotTurnLeft", 17), b("RAComplement.DoNotTurnRight", 18),
		b("RATerminatedIndicator", 19), b("MultipleThreatEncounter", 20),
		{Path: prefix + "ThreatTypeIndicator", Want: func(m M) Val { return U(m.U(off+21, off+22)) }, R: [][2]int{{off + 21, off + 22}}},
		{Path: prefix + "ThreatIdentityAddress", R: [][2]int{{off + 23, off + 30}, {off + 31, off + 38}, {off + 39, off + 46}}, Want: in(func(m M) Val {
			if m.U(21, 22) != 1 {
				return Nil()
			}
			return U(m.U(23, 46))
		})},
		{Path: prefix + "ThreatIdentityRange", R: [][2]int{{off + 36, off + 42}}, Want: in(func(m M) Val {
			if m.U(21, 22) != 2 {
				return Nil()
			}
			return U(m.U(36, 42))
		})},
		{Path: prefix + "ThreatIdentityBearing", R: [][2]int{{off + 43, off + 48}}, Want: in(func(m M) Val {
			if m.U(21, 22) != 2 {
				return Nil()
			}
			return U(m.U(43, 48))
		})},
	}
	for k, p := range []struct{ name, what string }{{"AltitudeInFeet", "ft"}, {"AltitudeStatus", "st"}} {
		k := k
		fs = append(fs, F{Path: prefix + "ThreatIdentityAltitude." + p.name, R: [][2]int{{off + 23, off + 35}}, Want: in(func(m M) Val {
			if m.U(21, 22) != 2 {
				return Nil()
			}
			ft, valid, _ := threatAltitude(m)
			if k == 0 {
				return I(int64(ft))
			}
			return B(valid)
		})})
	}
	return fs
}

// raMore are the advisory's flags by kind, and range and bearing in units.
func raMoreAt(prefix string, off int) func(m M) []F {
	mk := func(names []string) []F {
		var fs []F
		for i, n := range names {
			i := i
			fs = append(fs, F{Path: prefix + "ActiveRA." + n, Want: func(m M) Val { return U(m.U(off+2+i, off+2+i)) }})
		}
		return fs
	}
	single := mk([]string{"PreventiveCorrective", "Sense", "IsIncreasedRate", "IsSenseReversal", "IsAltitudeCrossing", "VerticalSpeedLimitOrPositive"})
	multiple := mk([]string{"RequiresCorrectionUpwardSense", "RequiresPositiveClimb", "RequiresCorrectionDownwardSense", "RequiresPositiveDescend", "RequiresCrossing", "IsSenseReversal"})
	rb := []F{
		{Path: prefix + "ThreatIdentityRange.GetRange()", Want: func(m M) Val {
			switch r := m.U(off+36, off+42); {
			case r <= 1:
				return N(0)
			case r == 127:
				return N(12.6)
			default:
				return N(float64(r-1) / 10)
			}
		}},
		{Path: prefix + "ThreatIdentityBearing.GetBearing()", Want: func(m M) Val {
			switch r := m.U(off+43, off+48); {
			case r == 0:
				return N(0)
			case r <= 60:
				return N(float64(r)*6 - 3)
			}
			return Any()
		}},
	}
	return func(m M) []F {
		var fs []F
		if m.Bit(off + 1) {
			fs = single
		} else if m.Bit(off + 20) {
			fs = multiple
		}
		if m.U(off+21, off+22) == 2 {
			fs = append(append([]F(nil), fs...), rb...)
		}
		return fs
	}
}

var statusACAS = append(append([]F(nil), statusBase...), raFieldsAt("ResolutionAdvisory.", 8)...)

func raBases(n, off int, fix func(d []byte)) [][]byte {
	var out [][]byte
	for i, b := range fill(n, fix) {
		for t := uint64(0); t < 4; t++ {
			d := clone(b)
			setBits(d, off+21, off+22, t)
			if t == 2 {
				setBits(d, off+23, off+35, 0x0080>>uint(i%2)|0x200) // a legal altitude code
			}
			setBits(d, off+1, off+1, uint64(i&1))
			setBits(d, off+20, off+20, uint64(i>>1&1))
			out = append(out, d)
		}
	}
	return out
}

func raLayout(name string, n, off int, call func(d []byte) (interface{}, error), accept func(m M) int, prefix string, fix func(d []byte)) *Layout {
	more := raMoreAt(prefix, off)
	fs := raFieldsAt(prefix, off)
	l := &Layout{Name: name, Len: n, Call: func(d []byte, _ []float64) (interface{}, error) { return call(d) },
		Accept: accept, Fields: fs, More: more,
		Ranges: append(rangesOf(fs), [2]int{off + 1, off + 8}, [2]int{off + 9, off + 14}, [2]int{off + 15, off + 20}, [2]int{off + 21, off + 22}, [2]int{off + 29, off + 29}, [2]int{off + 20, off + 20}, [2]int{off + 19, off + 19}, [2]int{off + 8, off + 8}, [2]int{off + 15, off + 18})}
	for i := 1; i <= 7; i++ {
		l.Ranges = append(l.Ranges, [2]int{off + i, off + i})
	}
	l.Bases = raBases(n, off, fix)
	return l
}

// ---------------------------------------------------------------------------------------------------------------------
// Comm-B inference (C14)

var inferred = map[string]*Layout{}

func init() {
	if len(alphabet) != 64 {
		panic("alphabet")
	}
	for _, l := range []*Layout{bds07Layout(), bds20Layout(), bds10Layout(), bds17Layout(), bds40Layout(), bds44Dispatch(), bds45Layout("bds45", true), bds50Layout(), bds60Layout(), bds30Layout()} {
		inferred[l.Name] = l
	}
}

func bds30Layout() *Layout {
	l := raLayout("bds30", 7, 8, func(d []byte) (interface{}, error) { return bds30.ReadACASResolutionAdvisory(d) },
		func(m M) int { return b2i(m.D[0] == 0x30 && raAccept(m.sub(9, 48)) == 1) }, "ResolutionAdvisory.", withByte0(0x30))
	l.Coherent = yes
	l.Fields = append(l.Fields, reg("BDS 3,0"))
	return l
}

var registerIDs = map[string]string{"bds07": "BDS 0,7", "bds20": "BDS 2,0", "bds10": "BDS 1,0", "bds17": "BDS 1,7", "bds30": "BDS 3,0",
	"bds40": "BDS 4,0", "bds44": "BDS 4,4", "bds45": "BDS 4,5", "bds50": "BDS 5,0", "bds60": "BDS 6,0"}

func inferModel(m M) []string {
	all := true
	for _, b := range m.D {
		all = all && b == 0
	}
	if all {
		return []string{"bds00"}
	}
	for _, n := range []string{"bds07", "bds20"} {
		if l := inferred[n]; l.Accept(m) == 1 && l.Coherent(m) == 1 {
			return []string{n}
		}
	}
	var out []string
	for _, n := range []string{"bds10", "bds17", "bds30", "bds40", "bds44", "bds45", "bds50", "bds60"} {
		if l := inferred[n]; l.Accept(m) == 1 && l.Coherent(m) == 1 {
			out = append(out, n)
		}
	}
	return out
}

func evalInfer(s *State, verbose bool) Outcome {
	d := clone(s.Data)
	got, err := commb.ReadCommBMessage(d)
	o := Outcome{Sig: 3}
	if verbose {
		o.Text = fmt.Sprintf("error %v, messages:", err)
		for _, g := range got {
			o.Text += " " + typeName(g)
		}
	}
	if len(s.Data) != 7 {
		if err == nil {
			o.Problem = "accepted: content of a wrong length"
		}
		return o
	}
	if err != nil {
		o.Problem = fmt.Sprintf("refused: Comm-B inference gives an error: %v", err)
		return o
	}
	m := M{D: s.Data}
	want := inferModel(m)
	var names []string
	for _, g := range got {
		v := get(g, "GetRegister().GetId()")
		names = append(names, v.S)
	}
	if len(got) != len(want) {
		o.Problem = fmt.Sprintf("list: inference gives %v, want %v", names, want)
		return o
	}
	sig := uint64(5)
	for i, n := range want {
		id := registerIDs[n]
		if n == "bds00" {
			id = "BDS 0,0"
		}
		if names[i] != id {
			o.Problem = fmt.Sprintf("list: inference gives %v, want %v", names, want)
			return o
		}
		for _, c := range n {
			sig = mix(sig ^ uint64(c))
		}
		l := inferred[n]
		if l == nil {
			continue
		}
		g := got[i]
		l2 := *l
		l2.Call = func([]byte, []float64) (interface{}, error) { return g, nil }
		if p := evalLayout(&l2, s, false).Problem; p != "" {
			o.Problem = "content of inferred " + p
			return o
		}
	}
	o.Sig = sig
	return o
}

func exploreInfer(c *Ctx) {
	o := opts(c)
	o.hamming = 2
	o.hamBases = 99
	o.windows = 8
	o.winBases = 4
	o.pairs = 8
	if c.thorough {
		o.hamming = 3
		o.windows = 16
		o.pairs = 16
		o.winBases = 99
	}
	for _, n := range []string{"bds07", "bds10", "bds17", "bds20", "bds30", "bds40", "bds44", "bds45", "bds50", "bds60"} {
		l := *inferred[n]
		l.Name = "infer"
		if n == "bds20" || n == "bds30" || n == "bds10" {
			// registers which announce their number: every first byte too
			l.Ranges = append(append([][2]int(nil), l.Ranges...), [2]int{1, 8})
		}
		l.explore(c, o)
	}
	// contents of several registers at once: every pair of their fields
	joint, sets := jointContents(8)
	for _, b := range joint {
		var rs [][2]int
		have := map[[2]int]bool{}
		for _, n := range inferModel(M{D: b}) {
			for _, r := range layoutRanges(inferred[n]) {
				if !have[r] {
					have[r] = true
					rs = append(rs, r)
				}
			}
		}
		l := &Layout{Name: "infer"}
		l.tuplesOf(c, b, nil, rs, 2, func(w int) []uint64 { return grid(w, c.pick(12, 32)) })
		hammingBall(b, c.pick(2, 3), func(d []byte) bool {
			c.Step("infer", d)
			return !c.Stop()
		})
		if c.Stop() {
			return
		}
	}
	if c.root {
		c.Extra["sets_of_registers_with_common_contents"] = fmt.Sprint(sets)
		c.Extra["common_contents_explored_around"] = fmt.Sprint(len(joint))
	}
	// all contents with at most four non-zero bytes at boundary values
	vals := []byte{0, 1, 0x80, 0xFF, 0x10, 0x20, 0x30, 0x0F, 0x55}
	d := make([]byte, 7)
	var rec func(i int)
	rec = func(i int) {
		if c.Stop() {
			return
		}
		if i == 7 {
			c.Step("infer", d)
			return
		}
		for _, v := range vals[:c.pick(5, 9)] {
			d[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	// all combinations of the five status bits of 5,0 / 6,0 with values present or absent
	for _, n := range []string{"bds50", "bds60", "bds44", "bds45", "bds40"} {
		l := inferred[n]
		rs := layoutRanges(l)
		var parts [][2]int
		for _, r := range rs {
			if len(parts) < 12 {
				parts = append(parts, r)
			}
		}
		for x := 0; x < 1<<uint(len(parts)); x++ {
			for k := 0; k < 3; k++ {
				d := make([]byte, 7)
				if n == "bds44" {
					d[0] = byte(k) << 4
				}
				for i, r := range parts {
					if x>>uint(i)&1 == 1 {
						v := uint64(1)
						if k == 1 {
							v = 1 << uint(r[1]-r[0])
						} else if k == 2 {
							v = 1<<uint(r[1]-r[0]+1) - 1
						}
						setBits(d, r[0], r[1], v)
					}
				}
				c.Step("infer", d)
			}
		}
	}
}

// jointContents gives contents which are coherent for two registers and more: up to k for each set of registers.
func jointContents(k int) ([][]byte, int) {
	seen := map[string]int{}
	var out [][]byte
	d := make([]byte, 7)
	try := func() {
		w := inferModel(M{D: d})
		if len(w) < 2 {
			return
		}
		n := strings.Join(w, " ")
		if seen[n]++; seen[n]&(seen[n]-1) == 0 && seen[n] < 1<<uint(k) {
			out = append(out, clone(d))
		}
	}
	for _, n := range []string{"bds10", "bds17", "bds30", "bds40", "bds44", "bds45", "bds50", "bds60"} {
		l := inferred[n]
		rs := layoutRanges(l)
		for _, b := range l.Bases {
			for i := range rs {
				for j := i + 1; j < len(rs); j++ {
					for _, v := range grid(rs[i][1]-rs[i][0]+1, 6) {
						for _, w := range grid(rs[j][1]-rs[j][0]+1, 6) {
							copy(d, b)
							setBits(d, rs[i][0], rs[i][1], v)
							setBits(d, rs[j][0], rs[j][1], w)
							try()
						}
					}
				}
			}
		}
	}
	return out, len(seen)
}

func (c *Ctx) pick(q, t int) int {
	if c.thorough {
		return t
	}
	return q
}

func init() {
	register(&Check{ID: "C14", Eval: evalInfer, Explore: exploreInfer,
		Bounds: "around every coherent and incoherent base content of the ten registers: every field takes all values, pairs of fields, all 1- and 2-bit changes (thorough: 3), bit windows; around up to 8 contents of each of the 33 sets of registers which have common contents: all pairs of the fields of these registers with 12 (32) evenly spaced values, all 2- (3-)bit changes; all contents made of 5 (thorough 9) boundary bytes; all status/value presence combinations of registers 4,0 4,4 4,5 5,0 6,0; all lengths 0..40",
		Assume: []string{"which values are coherent is transcribed from the documented physical limits"}})
	register(layoutCheck("C15", layoutBounds, nil, bds07Layout(), bds10Layout(), bds17Layout(), bds00Layout()))
	register(layoutCheck("C16", layoutBounds, []string{"register 4,4 version 0 (read on request only) is held to the scaling of the code"},
		bds40Layout(), bds44V12("bds44-v1", false), bds44V12("bds44-v2", true), bds44V2Source(), bds44Dispatch(), bds44V0(), bds45Layout("bds45-v1", false), bds45Layout("bds45", true), bds45V0()))
	register(layoutCheck("C17", layoutBounds, nil, bds50Layout(), bds60Layout()))
	raL := raLayout("ra", 6, 0, func(d []byte) (interface{}, error) { return ra.ReadResolutionAdvisory(d) }, raAccept, "", nil)
	adsbRA := raLayout("adsb-acas", 7, 8, nil, func(m M) int {
		if tcOf(m) != 28 || m.U(6, 8) != 2 {
			return -1
		}
		return raAccept(m.sub(9, 48))
	}, "ResolutionAdvisory.", withByte0(28<<3|2))
	adsbRA.Call, adsbRA.Args = callADSB, [][]float64{{2, 0, 0}}
	fs, more := adsbRA.Fields, adsbRA.More
	adsbRA.Fields = nil
	adsbRA.More = func(m M) []F {
		if tcOf(m) != 28 || m.U(6, 8) != 2 {
			return nil
		}
		return append(append([]F(nil), fs...), more(m)...)
	}
	frame := raFrame()
	register(layoutCheck("C18", layoutBounds, []string{"bearing codes 61 to 63 are not assigned and left open"}, raL, bds30Layout(), adsbRA, frame))
}

// raFrame: the advisory inside a long air-air surveillance reply (DF16, message field of register 3,0).
func raFrame() *Layout {
	acc := func(m M) int {
		if frameAccept(m.D) != 1 || m.D[0]>>3 != 16 || m.D[4] != 0x30 {
			return -1
		}
		return raAccept(m.sub(41, 48))
	}
	l := raLayout("df16-acas", 14, 40, func(d []byte) (interface{}, error) {
		r, err := modesreader.ReadMessage(d)
		if err != nil {
			return nil, err
		}
		f, ok := r.(*messages.MessageDF16)
		if !ok || f.MessageACAS[0] != 0x30 {
			return nil, fmt.Errorf("no advisory in this frame")
		}
		return ra.ReadResolutionAdvisory(f.MessageACAS[1:])
	}, acc, "", func(d []byte) { d[0] = 16<<3 | d[0]&7; legalAltitude(d); d[4] = 0x30 })
	l.NoRefuse = true
	return l
}

func bds00Layout() *Layout {
	return &Layout{Name: "bds00", Len: 7, Call: func(d []byte, _ []float64) (interface{}, error) { return bds00.ReadNoMessageAvailable(d) },
		Accept: func(m M) int { return b2i(zero(m, 1, 56)) }, Coherent: yes, Fields: []F{reg("BDS 0,0")},
		Ranges: [][2]int{{1, 8}, {9, 16}, {17, 24}, {25, 32}, {33, 40}, {41, 48}, {49, 56}},
		Bases:  [][]byte{{0, 0, 0, 0, 0, 0, 0}}}
}
