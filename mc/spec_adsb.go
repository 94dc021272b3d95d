package main

// Model of the ADS-B (56-bit extended squitter) messages: C06 to C13.

import (
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
)

func adsbVersion(f float64) adsb.ADSBVersion { return adsb.ADSBVersion(int(f)) }

func tcOf(m M) int { return int(m.U(1, 5)) }

// allLevels are the reader versions with both NIC supplements.
func allLevels() [][]float64 {
	var out [][]float64
	for v := 0.0; v < 3; v++ {
		for k := 0; k < 4; k++ {
			out = append(out, []float64{v, float64(k & 1), float64(k >> 1)})
		}
	}
	return out
}

var levels = [][]float64{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {2, 1, 1}}

func withTC(tc byte, sub int) func(d []byte) {
	return func(d []byte) {
		d[0] = tc<<3 | d[0]&7
		if sub >= 0 {
			d[0] = tc<<3 | byte(sub)
		}
	}
}

// readVersion is the announced version of decoded messages.
func readVersion() F {
	return F{Path: "GetADSBVersion()", Want: func(m M) Val { return N(m.A[0]) }}
}

// ---- positions

func isAirborneTC(tc int) bool { return tc >= 9 && tc <= 18 || tc >= 20 && tc <= 22 }

func airborneCommon() []F {
	return []F{
		u("SurveillanceStatus", 6, 7), bit("SingleAntennaFlag", 8),
		{Path: "AltitudeSource", Want: func(m M) Val {
			tc := tcOf(m)
			if tc == 0 {
				return Any() // the standard gives no source for this one
			}
			return B(tc >= 20 && tc <= 22)
		}},
		ac12Fields()[0], ac12Fields()[1],
		bit("Time", 21), bit("CPRFormat", 22), u("EncodedLatitude", 23, 39), u("EncodedLongitude", 40, 56),
	}
}

// nicAirborne is the containment radius code and the navigation integrity category.
func nicAirborne(v, tc int, a, b bool) (code, nic int) {
	pick := func(x bool, p, q int) int {
		if x {
			return p
		}
		return q
	}
	code = tc
	if v == 1 && tc >= 20 {
		code = tc - 20
	}
	switch tc {
	case 9:
		return code, 11
	case 10:
		return code, 10
	case 11:
		return pick(a, 111, 11), pick(a, 9, 8)
	case 12:
		return code, 7
	case 13:
		if a {
			return 113, 6
		}
		if v == 2 && b {
			return 213, 6
		}
		return 13, 6
	case 14:
		return code, 5
	case 15:
		return code, 4
	case 16:
		return pick(a, 116, 16), pick(a, 3, 2)
	case 17:
		return code, 1
	case 18:
		return code, 0
	case 20:
		return code, 11
	case 21:
		return code, 10
	}
	return code, 0
}

func airborneMore(m M) []F {
	v, tc := int(m.A[0]), tcOf(m)
	switch {
	case tc == 0:
		return type0Fields
	case v == 0:
		return airV0
	case v == 1:
		return airV1
	}
	return airV2
}

func nicF(path string, airborne bool, what int) F {
	return F{Path: path, Want: func(m M) Val {
		var c, n int
		if airborne {
			c, n = nicAirborne(int(m.A[0]), tcOf(m), m.A[1] != 0, m.Bit(8))
		} else {
			c, n = nicSurface(int(m.A[0]), tcOf(m), m.A[1] != 0, m.A[2] != 0)
		}
		if what == 0 {
			return I(int64(c))
		}
		return I(int64(n))
	}}
}

var tcField = u("FormatTypeCode", 1, 5)
var nicAField = F{Path: "NavigationIntegrityCodeSupplementA", Want: func(m M) Val { return B(m.A[1] != 0) }}

var airV0 = cat([]F{tcField, {Path: "HorizontalProtectionLimit", Want: tcField.Want}, {Path: "ContainmentRadius", Want: tcField.Want}})
var airV1 = cat([]F{tcField, nicAField, nicF("HorizontalContainmentRadius", true, 0), nicF("NavigationIntegrityCategory", true, 1)})
var airV2 = cat([]F{tcField, nicAField, {Path: "NavigationIntegrityCodeSupplementB", Want: func(m M) Val { return U(m.U(8, 8)) }},
	nicF("HorizontalContainmentRadius", true, 0), nicF("NavigationIntegrityCategory", true, 1)})
var type0Fields = []F{tcField, konst("NavigationIntegrityCategory", N(0))}

func airborneAccept(m M) int {
	tc := tcOf(m)
	if !isAirborneTC(tc) && !(tc == 0 && m.U(21, 56) != 0) {
		return -1 // another message kind: C06
	}
	return ac12Accept(m)
}

func airborneLayout() *Layout {
	l := &Layout{Name: "adsb-airborne-position", Len: 7, Call: callADSB, Args: allLevels(),
		Accept: airborneAccept,
		More: func(m M) []F {
			tc := tcOf(m)
			if !isAirborneTC(tc) && !(tc == 0 && m.U(21, 56) != 0) {
				return nil
			}
			return append(append(append([]F{readVersion()}, airborneMore(m)...), airborneShared...), reg("BDS 0,5"))
		},
		Type: func(m M) string {
			tc := tcOf(m)
			switch {
			case tc == 0 && m.U(21, 56) != 0:
				return "AirbornePositionType0"
			case isAirborneTC(tc):
				return fmt.Sprintf("AirbornePositionV%v", m.A[0])
			}
			return ""
		},
		Ranges: [][2]int{{1, 5}, {1, 8}, {6, 7}, {8, 8}, {9, 20}, {21, 22}, {23, 39}, {40, 56}}}
	for i, tc := range []byte{11, 13, 18, 20, 0, 9, 10, 12, 14, 15, 16, 17, 21, 22} {
		f := withTC(tc, -1)
		bb := fill(7, func(d []byte) { f(d); d[1] |= 1 })
		l.Bases = append(l.Bases, bb[(i+1)%6])
	}
	return l
}

var airborneShared = airborneCommon()

func direct(name string, call func(d []byte) (interface{}, error), base *Layout, fields []F, accept func(m M) int) *Layout {
	l := *base
	l.Name, l.Args, l.Fields, l.Accept, l.More, l.Type = name, nil, fields, accept, nil, nil
	l.Call = func(d []byte, _ []float64) (interface{}, error) { return call(d) }
	return &l
}

// ---- surface

func surfaceSpeed(v uint64) float64 {
	switch {
	case v <= 1 || v > 124:
		return 0
	case v <= 8:
		return 0.125 * float64(v-1)
	case v <= 12:
		return 1 + 0.25*float64(v-9)
	case v <= 38:
		return 2 + 0.5*float64(v-13)
	case v <= 93:
		return 15 + float64(v-39)
	case v <= 108:
		return 70 + 2*float64(v-94)
	case v <= 123:
		return 100 + 5*float64(v-109)
	}
	return 175
}

func nicSurface(v, tc int, a, c bool) (code, nic int) {
	switch tc {
	case 5:
		return 0, 11
	case 6:
		return 1, 10
	case 7:
		if a {
			return 2, 9
		}
		return 3, 8
	}
	if v == 1 {
		return 4, 0
	}
	switch {
	case a && c:
		return 4, 7
	case a:
		return 5, 6
	case c:
		return 6, 6
	}
	return 7, 0
}

var surfaceCommon = []F{
	u("MovementStatus", 6, 12), num("MovementSpeed", 6, 12, surfaceSpeed),
	bit("GroundTrackStatus", 13), num("GroundTrack", 14, 20, mul(360.0/128)),
	bit("Time", 21), bit("CPRFormat", 22), u("EncodedLatitude", 23, 39), u("EncodedLongitude", 40, 56), reg("BDS 0,6"),
}
var surV0 = []F{tcField, {Path: "HorizontalProtectionLimit", Want: tcField.Want}, {Path: "ContainmentRadius", Want: tcField.Want},
	bound("HorizontalProtectionLimit.GetHPLLowerBound()", -1, -1, -1, 185.2), bound("HorizontalProtectionLimit.GetHPLHigherBound()", 7.5, 25, 185.2, -1),
	bound("ContainmentRadius.GetHorizontalContainmentLowerBound()", -1, 3, 10, 92.6), bound("ContainmentRadius.GetHorizontalContainmentHigherBound()", 3, 10, 92.6, -1)}

// bound is the limit in metres given to each of the type codes 5 to 8, -1 without one.
func bound(path string, of ...float64) F {
	return F{Path: path, Want: func(m M) Val { return N(of[tcOf(m)-5]) }}
}

var surV12 = []F{tcField, nicF("HorizontalContainmentRadius", false, 0), nicF("NavigationIntegrityCategory", false, 1)}

func surfaceLayout() *Layout {
	l := &Layout{Name: "adsb-surface-position", Len: 7, Call: callADSB, Args: allLevels(),
		Accept: func(m M) int {
			if tc := tcOf(m); tc >= 5 && tc <= 8 {
				return 1
			}
			return -1
		},
		Type: func(m M) string {
			if tc := tcOf(m); tc >= 5 && tc <= 8 {
				return fmt.Sprintf("SurfacePositionV%v", m.A[0])
			}
			return ""
		},
		More: func(m M) []F {
			if tc := tcOf(m); tc < 5 || tc > 8 {
				return nil
			}
			if m.A[0] == 0 {
				return surV0All
			}
			return surV12All
		},
		Ranges: [][2]int{{1, 5}, {1, 8}, {6, 12}, {13, 13}, {14, 20}, {21, 22}, {23, 39}, {40, 56}}}
	for i, tc := range []byte{5, 6, 7, 8, 8, 7} {
		l.Bases = append(l.Bases, fill(7, withTC(tc, -1))[i])
	}
	return l
}

var surV0All = append(append([]F{readVersion()}, surV0...), surfaceCommon...)
var surV12All = append(append([]F{readVersion()}, surV12...), surfaceCommon...)

// ---- identification

const alphabet = "#ABCDEFGHIJKLMNOPQRSTUVWXYZ##### ###############0123456789######"

func callsign(m M) string {
	var b []byte
	for i := 0; i < 8; i++ {
		b = append(b, alphabet[m.U(9+6*i, 14+6*i)])
	}
	return string(b)
}

func callsignBad(m M) bool {
	for i := 0; i < 8; i++ {
		if alphabet[m.U(9+6*i, 14+6*i)] == '#' {
			return true
		}
	}
	return false
}

var charRanges = [][2]int{{9, 14}, {15, 20}, {21, 26}, {27, 32}, {33, 38}, {39, 44}, {45, 50}, {51, 56}}
var callsignF = F{Path: "Identification", Want: func(m M) Val { return S(callsign(m)) }, R: charRanges}

var identFields = []F{tcField, u("Category", 6, 8),
	{Path: "Category#", Want: func(m M) Val {
		return Val{K: 't', S: "AircraftCategorySet" + string("?DCBA"[tcOf(m)])}
	}},
	callsignF, reg("BDS 0,8")}

func isIdent(m M) bool { tc := tcOf(m); return tc >= 1 && tc <= 4 }

func identLayout(name string, level bool) *Layout {
	l := &Layout{Name: name, Len: 7,
		Call: func(d []byte, _ []float64) (interface{}, error) {
			return bds08.ReadAircraftIdentificationAndCategory(d)
		},
		Accept: func(m M) int {
			if isIdent(m) {
				return 1
			}
			return 0
		},
		More: func(m M) []F {
			if !isIdent(m) {
				return nil
			}
			return identFields
		},
		Coherent: func(m M) int {
			if !isIdent(m) {
				return -1
			}
			cat := m.U(6, 8)
			if tcOf(m) == 1 && cat == 0 && !callsignBad(m) {
				return -1 // set D is reserved as a whole, or has this one value, depending on the edition
			}
			return b2i(!(callsignBad(m) || tcOf(m) == 1 || tcOf(m) == 2 && cat > 3))
		},
		Ranges: append([][2]int{{1, 5}, {1, 8}, {6, 8}}, charRanges...)}
	for i := 0; i < 4; i++ {
		f := withTC(byte(4-i), -1)
		l.Bases = append(l.Bases, fill(7, func(d []byte) { f(d) })[i])
	}
	good := []byte{0x20, 0x50, 0x86, 0x73, 0xE1, 0x98, 0x20}
	l.Bases = append([][]byte{good}, l.Bases...)
	if level {
		l.Call, l.Args = callADSB, levels
		l.Accept = func(m M) int {
			if isIdent(m) {
				return 1
			}
			return -1
		}
		l.Type = func(m M) string {
			if isIdent(m) {
				return "AircraftIdentificationAndCategory"
			}
			return ""
		}
		l.More = func(m M) []F {
			if !isIdent(m) {
				return nil
			}
			return identVersioned
		}
	}
	return l
}

var identVersioned = append([]F{readVersion()}, identFields...)

// ---- velocity

func statusOf(raw, max uint64) float64 {
	switch raw {
	case 0:
		return 0
	case max:
		return 2
	}
	return 1
}

func stat(path string, lo, hi int) F {
	max := uint64(1)<<uint(hi-lo+1) - 1
	return num(path, lo, hi, func(r uint64) float64 { return statusOf(r, max) })
}

func velocityValue(supersonic bool) func(r uint64) float64 {
	k := 1.0
	if supersonic {
		k = 4
	}
	return func(r uint64) float64 {
		switch r {
		case 0:
			return 0
		case 1023:
			if supersonic {
				return 4088
			}
			return 1023
		}
		return float64(r-1) * k
	}
}

func signed(path string, sign, lo, hi int, unit, max float64) F {
	top := uint64(1)<<uint(hi-lo+1) - 1
	return F{path, func(m M) Val {
		r := m.U(lo, hi)
		if r == 0 {
			return N(0)
		}
		v := float64(r-1) * unit
		if r == top {
			v = max
		}
		if m.Bit(sign) {
			v = -v
		}
		return N(v)
	}, [][2]int{{sign, sign}, {lo, hi}, {sign, hi}}}
}

func velocityFields(sub int) []F {
	fs := []F{tcField, u("Subtype", 6, 8), u("GetSubtype()", 6, 8), bit("IntentChange", 9), bit("IFRCapability", 10), u("NavigationUncertaintyCategory", 11, 13),
		bit("VerticalRateSource", 36), stat("VerticalRateStatus", 38, 46), signed("VerticalRate", 37, 38, 46, 64, 32640), reg("BDS 0,9")}
	val := velocityValue(sub == 2 || sub == 4)
	if sub <= 2 {
		comp := func(m M) (ew, ns float64, ok bool) {
			e, n := m.U(15, 24), m.U(26, 35)
			ok = e != 0 && e != 1023 && n != 0 && n != 1023
			return val(e), val(n), ok
		}
		return append(fs, bit("DirectionEastWest", 14), stat("VelocityEWStatus", 15, 24), num("VelocityEW", 15, 24, val),
			bit("DirectionNorthSouth", 25), stat("VelocityNSStatus", 26, 35), num("VelocityNS", 26, 35, val),
			stat("DifferenceAltitudeGNSSBaroStatus", 50, 56), signed("DifferenceAltitudeGNSSBaro", 49, 50, 56, 25, 3150),
			F{Path: "GetSpeed()", Want: func(m M) Val {
				e, n, ok := comp(m)
				if !ok {
					return Err()
				}
				return Floor(math.Sqrt(e*e + n*n))
			}},
			F{Path: "GetTrack()", Want: func(m M) Val {
				e, n, ok := comp(m)
				if !ok {
					return Err()
				}
				if m.Bit(14) {
					e = -e
				}
				if m.Bit(25) {
					n = -n
				}
				if e == 0 && n == 0 {
					return Any() // not moving: no track
				}
				t := math.Atan2(e, n) * 180 / math.Pi
				if t < 0 {
					t += 360
				}
				return N(t)
			}})
	}
	return append(fs, bit("MagneticHeadingStatus", 14), num("MagneticHeading", 15, 24, mul(360.0/1024)),
		stat("AirspeedStatus", 26, 35), num("Airspeed", 26, 35, val),
		stat("HeightDifferenceFromBaroStatus", 50, 56), signed("HeightDifferenceFromBaro", 49, 50, 56, 25, 3150))
}

var velocityTypes = []string{"", "AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic", "AirborneVelocityAirSpeedNormal", "AirborneVelocityAirSpeedSupersonic"}
var velocityByType [5][]F

func init() {
	for i := 1; i <= 4; i++ {
		velocityByType[i] = velocityFields(i)
	}
}

func velocityLayout(name string, versioned bool, sub int) *Layout {
	in := func(m M) bool { st := m.U(6, 8); return tcOf(m) == 19 && st >= 1 && st <= 4 }
	l := &Layout{Name: name, Len: 7,
		Call: func(d []byte, _ []float64) (interface{}, error) { return bds09.ReadAirborneVelocity(d) },
		Accept: func(m M) int {
			if versioned && tcOf(m) != 19 {
				return -1
			}
			return b2i(in(m))
		},
		Type: func(m M) string {
			if in(m) {
				return velocityTypes[m.U(6, 8)]
			}
			return ""
		},
		More: func(m M) []F {
			if !in(m) {
				return nil
			}
			fs := velocityByType[m.U(6, 8)]
			if versioned {
				return append(append([]F(nil), fs...), readVersion())
			}
			return fs
		},
		Ranges: [][2]int{{1, 8}, {6, 8}}}
	for _, f := range velocityFields(sub) {
		l.Ranges = append(l.Ranges, f.R...)
	}
	for _, b := range fill(7, withTC(19, sub)) {
		l.Bases = append(l.Bases, b)
	}
	if versioned {
		l.Call, l.Args = callADSB, levels
		l.Type = func(m M) string {
			if in(m) {
				return "AirborneVelocity"
			}
			return ""
		}
	}
	return l
}

// ---- aircraft status (type code 28)

func zero(m M, lo, hi int) bool { return m.U(lo, hi) == 0 }

func statusAccept(m M) int {
	if tcOf(m) != 28 {
		return 0
	}
	switch m.U(6, 8) {
	case 0:
		return b2i(zero(m, 12, 56))
	case 1:
		return b2i(zero(m, 25, 56))
	case 2:
		return raAccept(m.sub(9, 48))
	}
	return 0
}

func (m M) sub(lo, n int) M {
	d := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		if m.Bit(lo + i) {
			d[i>>3] |= 0x80 >> uint(i&7)
		}
	}
	return M{D: d}
}

var statusBase = []F{tcField, u("Subtype", 6, 8), u("GetSubtype()", 6, 8), reg("BDS 6,1")}
var statusEPS = append(append([]F(nil), statusBase...), u("EmergencyPriorityStatus", 9, 11))
var statusEmergency = append(append([]F(nil), statusEPS...), u("ModeACode", 12, 24))

func statusMore(m M) []F {
	if tcOf(m) != 28 {
		return nil
	}
	switch m.U(6, 8) {
	case 0:
		return statusEPS
	case 1:
		return statusEmergency
	case 2:
		return statusACAS
	}
	return nil
}

func statusCoherent(m M) int {
	if tcOf(m) != 28 {
		return -1
	}
	e := m.U(9, 11)
	switch m.U(6, 8) {
	case 0:
		return b2i(e == 0)
	case 1:
		if e == 6 {
			return -1 // downed aircraft: reserved in version 1, assigned in version 2
		}
		return b2i(e <= 5)
	}
	return 1
}

func statusType(m M) string {
	if tcOf(m) != 28 || m.U(6, 8) > 2 {
		return ""
	}
	return []string{"AircraftStatusNoInformation", "AircraftStatusEmergency", "AircraftStatusACAS"}[m.U(6, 8)]
}

func statusLayout(name string, versioned bool) *Layout {
	l := &Layout{Name: name, Len: 7,
		Call:   func(d []byte, _ []float64) (interface{}, error) { return bds61.ReadAircraftStatus(d) },
		Accept: statusAccept, More: statusMore, Coherent: statusCoherent, Type: statusType,
		Ranges: [][2]int{{1, 8}, {6, 8}, {9, 11}, {12, 24}, {25, 32}, {33, 40}, {41, 48}, {49, 56}, {12, 16}}}
	l.Bases = [][]byte{{28<<3 | 1, 0, 0, 0, 0, 0, 0}, {28 << 3, 0, 0, 0, 0, 0, 0}, {28<<3 | 1, 0x55, 0x55, 0, 0, 0, 0}, {28<<3 | 1, 0xAA, 0xAA, 0, 0, 0, 0}}
	for _, b := range fill(7, withTC(28, 2)) {
		b[3] &= 0xF3 // threat type none
		l.Bases = append(l.Bases, b)
	}
	if versioned {
		version(l, 28, "AircraftStatus")
	}
	return l
}

// statusACASLayout is the aircraft status of the advisory's subtype, by the advisory's own fields.
func statusACASLayout() *Layout {
	acc := func(m M) int {
		if tcOf(m) != 28 || m.U(6, 8) != 2 {
			return -1
		}
		return statusAccept(m)
	}
	l := raLayout("bds61-acas", 7, 8, func(d []byte) (interface{}, error) { return bds61.ReadAircraftStatus(d) }, acc, "ResolutionAdvisory.", withByte0(28<<3|2))
	more := l.More
	l.Fields = nil
	l.More = func(m M) []F {
		if acc(m) == -1 {
			return nil
		}
		return append(append([]F(nil), statusACAS...), more(m)...)
	}
	l.Coherent = statusCoherent
	l.Type = statusType
	return l
}

// version makes of a register layout the one of the ADS-B dispatcher.
func version(l *Layout, tc int, kind string) {
	acc, more, coh, typ := l.Accept, l.More, l.Coherent, l.Type
	l.Call, l.Args = callADSB, levels
	l.Accept = func(m M) int {
		if tcOf(m) != tc {
			return -1
		}
		return acc(m)
	}
	l.More = func(m M) []F {
		if tcOf(m) != tc {
			return nil
		}
		fs := more(m)
		if tc != 31 {
			return append(append([]F(nil), fs...), readVersion())
		}
		return append(append([]F(nil), fs...), F{Path: "GetADSBVersion()", Want: func(m M) Val { return U(m.U(41, 43)) }})
	}
	if coh != nil {
		l.Coherent = func(m M) int {
			if tcOf(m) != tc {
				return -1
			}
			return coh(m)
		}
	}
	// either the wrapper or the register's own kind
	_ = typ
	l.Type = func(m M) string {
		if tcOf(m) != tc {
			return ""
		}
		return kind
	}
}

// ---- target state and status (type code 29)

var tss0 = []F{tcField, u("Subtype", 6, 7), u("GetSubtype()", 6, 7), u("VerticalDataAvailableSourceIndicator", 8, 9), bit("TargetAltitudeType", 10),
	u("TargetAltitudeCapability", 12, 13), u("VerticalModeIndicator", 14, 15),
	num("TargetAltitude", 16, 25, func(r uint64) float64 {
		if r > 1010 {
			return 0
		}
		return float64(r)*100 - 1000
	}),
	num("TargetAltitudeStatus", 16, 25, func(r uint64) float64 {
		if r > 1010 {
			return 2
		}
		return 1
	}),
	u("HorizontalDataAvailableSourceIndicator", 26, 27),
	num("TargetHeadingTrackAngle", 28, 36, func(r uint64) float64 {
		if r > 359 {
			return 0
		}
		return float64(r)
	}),
	num("TargetHeadingTrackAngleStatus", 28, 36, func(r uint64) float64 {
		if r > 359 {
			return 2
		}
		return 1
	}),
	bit("TargetHeadingTrackIndicator", 37), u("HorizontalModeIndicator", 38, 39),
	u("NavigationalAccuracyCategoryPosition", 40, 43), bit("NICBaro", 44), u("SurveillanceIntegrityLevel", 45, 46),
	u("CapabilityModeCode", 52, 53), u("EmergencyPriorityStatus", 54, 56), reg("BDS 6,2")}

var tss1 = []F{tcField, u("Subtype", 6, 7), u("GetSubtype()", 6, 7), bit("SourceIntegrityLevelSupplement", 8), bit("SelectedAltitudeType", 9),
	num("SelectedAltitude", 10, 20, func(r uint64) float64 {
		if r == 0 {
			return 0
		}
		return float64(r-1) * 32
	}),
	num("SelectedAltitudeStatus", 10, 20, func(r uint64) float64 { return float64(b2i(r != 0)) }),
	num("BarometricPressureSetting", 21, 29, func(r uint64) float64 {
		if r == 0 {
			return 0
		}
		return float64(r-1)*0.8 + 800
	}),
	num("BarometricPressureSettingStatus", 21, 29, func(r uint64) float64 { return float64(b2i(r != 0)) }),
	bit("SelectedHeadingStatus", 30), twos("SelectedHeading", 31, 32, 39, 180.0/256),
	u("NavigationalAccuracyCategoryPosition", 40, 43), bit("NICBaro", 44), u("SourceIntegrityLevel", 45, 46),
	bit("StatusMCPFCUBits", 47), bit("AutopilotEngaged", 48), bit("VNAVModeEngaged", 49), bit("AltitudeHoldModeEngaged", 50),
	bit("ApproachModeEngaged", 52), bit("TCASACASOperational", 53), bit("LNAVModeEngaged", 54), reg("BDS 6,2")}

func tssAccept(m M) int {
	if tcOf(m) != 29 {
		return 0
	}
	switch m.U(6, 7) {
	case 0:
		return b2i(zero(m, 47, 51))
	case 1:
		return 1
	}
	return 0
}

func tssLayout(name string, versioned bool, sub int) *Layout {
	l := &Layout{Name: name, Len: 7,
		Call:   func(d []byte, _ []float64) (interface{}, error) { return bds62.ReadTargetStateAndStatus(d) },
		Accept: tssAccept, Coherent: func(m M) int {
			if tcOf(m) == 29 && m.U(6, 7) < 2 {
				return 1
			}
			return -1
		},
		More: func(m M) []F {
			if tcOf(m) != 29 {
				return nil
			}
			return [][]F{tss0, tss1, nil, nil}[m.U(6, 7)]
		},
		Type: func(m M) string {
			if tcOf(m) != 29 || m.U(6, 7) > 1 {
				return ""
			}
			return fmt.Sprintf("TargetStateAndStatus%d", m.U(6, 7))
		},
		Ranges: [][2]int{{1, 8}, {47, 51}, {51, 51}, {55, 56}, {11, 11}}}
	fs := tss0
	if sub == 1 {
		fs = tss1
	}
	for _, f := range fs {
		l.Ranges = append(l.Ranges, f.R...)
	}
	l.Bases = fill(7, func(d []byte) {
		d[0] = 29<<3 | byte(sub)<<1 | d[0]&1
		if sub == 0 {
			d[5] &= 0xFC
			d[6] &= 0x1F
		}
	})
	if versioned {
		version(l, 29, "TargetStateAndStatus")
	}
	return l
}

// ---- operational status (type code 31)

var op0 = []F{tcField, u("Subtype", 6, 8), u("GetADSBLevel()", 41, 43),
	u("EnRouteOperationalCapabilities", 9, 12), u("TerminalAreaOperationalCapabilities", 13, 16),
	u("ApproachLandingOperationalCapabilities", 17, 20), u("SurfaceOperationalCapabilities", 21, 24),
	u("EnRouteOperationalCapabilityStatus", 25, 28), u("TerminalAreaOperationalCapabilityStatus", 29, 32),
	u("ApproachLandingOperationalCapabilityStatus", 33, 36), u("SurfaceOperationalCapabilityStatus", 37, 40), reg("BDS 6,5")}

var opCommon = []F{tcField, u("Subtype", 6, 8), u("GetADSBLevel()", 41, 43), u("VersionNumber", 41, 43), u("NavigationalAccuracyCategoryPosition", 45, 48),
	bit("HorizontalReferenceDirection", 54), bit("OperationalMode.ACASResolutionAdvisoryActive", 27),
	bit("OperationalMode.IdentSwitchActive", 28), reg("BDS 6,5")}

var opAir1 = cat(opCommon, []F{
	bit("AirborneCapabilityClass.NotACASStatus", 11), bit("AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus", 12),
	bit("AirborneCapabilityClass.AirReferencedVelocityReportCapability", 15), bit("AirborneCapabilityClass.TargetStateReportCapability", 16),
	u("AirborneCapabilityClass.TargetChangeReportCapability", 17, 18),
	bit("OperationalMode.ReceivingATCServices", 29), bit("NICSupplement", 44), u("SurveillanceIntegrityLevel", 51, 52), bit("NICBaro", 53)})

var opAir2 = cat(opCommon, []F{
	bit("AirborneCapabilityClass.ACASOperational", 11), bit("AirborneCapabilityClass.ExtendedSquitterIn", 12),
	bit("AirborneCapabilityClass.AirReferencedVelocityReportCapability", 15), bit("AirborneCapabilityClass.TargetStateReportCapability", 16),
	u("AirborneCapabilityClass.TargetChangeReportCapability", 17, 18), bit("AirborneCapabilityClass.UniversalAccessTransceiverCapability", 19),
	bit("OperationalMode.SingleAntennaFlag", 30), u("OperationalMode.SystemDesignAssurance", 31, 32), bit("NICSupplementA", 44),
	u("GeometricVerticalAccuracy", 49, 50), u("SourceIntegrityLevel", 51, 52), bit("NICBaro", 53), bit("SourceIntegrityLevelSupplement", 55)})

var opSur1 = cat(opCommon, []F{
	bit("SurfaceCapabilityClass.PositionOffsetApplied", 11), bit("SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus", 12),
	bit("SurfaceCapabilityClass.B2Low", 15), u("LengthAndWidth", 21, 24),
	bit("OperationalMode.ReceivingATCServices", 29), bit("NICSupplement", 44), u("SurveillanceIntegrityLevel", 51, 52), bit("TrackAngleHeading", 53)})

var opSur2 = cat(opCommon, []F{
	bit("SurfaceCapabilityClass.ExtendedSquitterIn", 12), bit("SurfaceCapabilityClass.B2Low", 15),
	bit("SurfaceCapabilityClass.UniversalAccessTransceiverCapability", 16),
	u("SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity", 17, 19), bit("SurfaceCapabilityClass.NICSupplementC", 20),
	u("LengthAndWidth", 21, 24), bit("OperationalMode.SingleAntennaFlag", 30), u("OperationalMode.SystemDesignAssurance", 31, 32),
	u("OperationalMode.GPSAntenna.GPSAntennaLateral", 33, 35), u("OperationalMode.GPSAntenna.GPSAntennaLongitudinal", 36, 40),
	bit("NICSupplementA", 44), u("SourceIntegrityLevel", 51, 52), bit("TrackAngleHeading", 53), bit("SourceIntegrityLevelSupplement", 55)})

func opMore(m M) []F {
	if tcOf(m) != 31 {
		return nil
	}
	v, s := m.U(41, 43), m.U(6, 8)
	switch {
	case v == 0:
		return op0
	case s > 1 || v > 2:
		return nil
	}
	return [][]F{opAir1, opSur1, opAir2, opSur2}[(v-1)*2+s]
}

func opAccept(m M) int {
	if tcOf(m) != 31 {
		return 0
	}
	v, s := m.U(41, 43), m.U(6, 8)
	switch v {
	case 0:
		return b2i(s == 0 && zero(m, 41, 56))
	case 1:
		return b2i(s <= 1 && zero(m, 9, 10) && zero(m, 13, 14) && zero(m, 25, 26) && zero(m, 49, 50) && zero(m, 55, 56))
	case 2:
		return b2i(s <= 1 && zero(m, 9, 10) && zero(m, 25, 26) && zero(m, 56, 56))
	}
	return 0
}

func opType(m M) string {
	if tcOf(m) != 31 {
		return ""
	}
	v, s := m.U(41, 43), m.U(6, 8)
	switch {
	case v == 0:
		return "AircraftOperationalStatusADSB0"
	case s > 1 || v > 2:
		return ""
	}
	return fmt.Sprintf("AircraftOperationalStatus%sADSB%d", []string{"Airborne", "Surface"}[s], v)
}

func opLayout(name string, versioned bool, v, s int) *Layout {
	l := &Layout{Name: name, Len: 7,
		Call:   func(d []byte, _ []float64) (interface{}, error) { return bds65.ReadAircraftOperationalStatus(d) },
		Accept: opAccept, More: opMore, Type: opType, Coherent: func(m M) int { return 1 },
		Ranges: [][2]int{{1, 8}, {6, 8}, {41, 43}, {9, 10}, {13, 14}, {25, 26}, {49, 50}, {55, 56}, {56, 56}, {19, 20}, {30, 32}, {21, 24}, {33, 40}, {44, 44}}}
	l.Bases = fill(7, func(d []byte) {
		d[0] = 31<<3 | byte(s)
		d[5] = d[5]&0x1F | byte(v)<<5
		d[1] &= 0x3F
		d[3] &= 0x3F
		d[6] &= 0xFE
		if v == 1 {
			d[1] &= 0xF3
			d[6] &= 0x3C
		}
		if v == 0 {
			d[5], d[6] = 0, 0
		}
	})
	for _, f := range opMore(M{D: l.Bases[0]}) {
		l.Ranges = append(l.Ranges, f.R...)
	}
	if versioned {
		version(l, 31, "AircraftOperationalStatus")
	}
	return l
}

// ---- dispatch (C06): only the kind, the version and refusals

func adsbAccept(m M) int {
	v, tc := int(m.A[0]), tcOf(m)
	switch {
	case tc == 0:
		if v > 2 {
			return -1
		}
		return ac12Accept(m)
	case tc <= 4, tc == 19, tc == 28, tc == 29, tc == 31:
		if v > 2 {
			return -1
		}
	}
	switch {
	case tc <= 4:
		return 1
	case tc <= 8:
		return b2i(v <= 2)
	case isAirborneTC(tc):
		if v > 2 {
			return 0
		}
		return ac12Accept(m)
	case tc == 19:
		s := m.U(6, 8)
		return b2i(s >= 1 && s <= 4)
	case tc == 28:
		return statusAccept(m)
	case tc == 29:
		return tssAccept(m)
	case tc == 31:
		return opAccept(m)
	}
	return 0
}

func adsbKind(m M) string {
	tc := tcOf(m)
	v := int(m.A[0])
	switch {
	case tc == 0:
		if zero(m, 21, 56) {
			return "NoPositionInformation"
		}
		return "AirbornePositionType0"
	case tc <= 4:
		return "AircraftIdentificationAndCategory"
	case tc <= 8:
		return fmt.Sprintf("SurfacePositionV%d", v)
	case isAirborneTC(tc):
		return fmt.Sprintf("AirbornePositionV%d", v)
	case tc == 19:
		return velocityTypes[m.U(6, 8)%5]
	case tc == 28:
		return statusType(m)
	case tc == 29:
		return fmt.Sprintf("TargetStateAndStatus%d", m.U(6, 7))
	case tc == 31:
		return opType(m)
	}
	return ""
}

var dispatchFields = []F{{Path: "GetADSBVersion()", Want: func(m M) Val {
	if tcOf(m) == 31 {
		return U(m.U(41, 43))
	}
	if m.A[0] > 2 {
		return Any()
	}
	return N(m.A[0])
}}}

func dispatchLayout() *Layout {
	l := &Layout{Name: "adsb-dispatch", Len: 7, Call: callADSB, Accept: adsbAccept, Type: adsbKind, Fields: dispatchFields,
		Ranges: [][2]int{{1, 8}, {9, 20}, {6, 12}, {21, 22}, {21, 24}, {41, 43}, {41, 48}, {49, 56}, {33, 40}, {25, 32}}}
	l.Args = append(allLevels(), []float64{3, 0, 0}, []float64{4, 1, 0}, []float64{255, 0, 1})
	l.Bases = append(l.Bases, []byte{0, 1, 0, 0, 0, 0, 0}, []byte{0, 0x15, 0x10, 0, 0, 0, 1}, []byte{31 << 3, 0, 0, 0, 0, 0x40, 0},
		[]byte{28<<3 | 1, 0x55, 0x55, 0, 0, 0, 0}, []byte{29<<3 | 2, 0x55, 0x55, 0x33, 0x12, 0, 3})
	for tc := byte(0); tc < 32; tc++ {
		f := withTC(tc, -1)
		b := fill(7, func(d []byte) { f(d); d[1] |= 1 })
		l.Bases = append(l.Bases, b[1], b[5])
	}
	return l
}

func init() {
	register(&Check{ID: "C06", Bounds: "all 32 type codes x subtypes x reader versions 0..4,255 x NIC supplements; per type code several contents with every value of selector, altitude, reserved and version fields, all pairs of them, all 1- and 2-bit changes, and all lengths 0..40 (" + layoutBounds + ")",
		Assume: []string{"an airborne position whose altitude code is zero is left open (the standard calls it altitude not available)"},
		Eval:   func(s *State, verbose bool) Outcome { return evalLayout(dispatchL, s, verbose) },
		Explore: func(c *Ctx) {
			o := opts(c)
			o.hamming--
			o.windows = 0
			o.hamBases = 99
			o.pairs = 8
			dispatchL.explore(c, o)
		}})
	b05 := direct("bds05", func(d []byte) (interface{}, error) { return bds05.ReadAirbornePosition(d) }, airborneLayout(),
		append([]F{tcField, reg("BDS 0,5")}, airborneShared...), func(m M) int {
			if !isAirborneTC(tcOf(m)) {
				return 0
			}
			return ac12Accept(m)
		})
	register(layoutCheck("C07", layoutBounds, []string{"an airborne position whose altitude code is zero is left open"}, airborneLayout(), b05))
	b06 := direct("bds06", func(d []byte) (interface{}, error) { return bds06.ReadSurfacePosition(d) }, surfaceLayout(),
		append([]F{tcField}, surfaceCommon...), func(m M) int { tc := tcOf(m); return b2i(tc >= 5 && tc <= 8) })
	register(layoutCheck("C08", layoutBounds, nil, surfaceLayout(), b06))
	register(layoutCheck("C09", layoutBounds, nil, identLayout("bds08", false), identLayout("adsb-identification", true), bds20Layout()))
	var vel []*Layout
	for s := 1; s <= 4; s++ {
		vel = append(vel, velocityLayout(fmt.Sprintf("bds09-subtype%d", s), false, s))
	}
	vel = append(vel, velocityLayout("adsb-velocity", true, 1), velocityLayout("adsb-airspeed", true, 3))
	register(layoutCheck("C10", layoutBounds, []string{"the track of an aircraft with both components zero is left open"}, vel...))
	register(layoutCheck("C11", layoutBounds, []string{"coherence of emergency code 6 is left open (reserved in version 1, assigned in version 2)"},
		statusLayout("bds61", false), statusACASLayout(), statusLayout("adsb-status", true)))
	register(layoutCheck("C12", layoutBounds, nil, tssLayout("bds62-0", false, 0), tssLayout("bds62-1", false, 1),
		tssLayout("adsb-target-0", true, 0), tssLayout("adsb-target-1", true, 1)))
	var op []*Layout
	for _, vs := range [][2]int{{0, 0}, {1, 0}, {1, 1}, {2, 0}, {2, 1}} {
		op = append(op, opLayout(fmt.Sprintf("bds65-v%d-s%d", vs[0], vs[1]), false, vs[0], vs[1]))
	}
	op = append(op, opLayout("adsb-opstatus-v0", true, 0, 0), opLayout("adsb-opstatus-v1", true, 1, 0), opLayout("adsb-opstatus-v2", true, 2, 1))
	register(layoutCheck("C13", layoutBounds, nil, op...))
}

var dispatchL = dispatchLayout()
