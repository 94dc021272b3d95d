package main

// Model of the Mode-S frames: framing (C01), header fields (C03), altitude codes (C04) and identity codes (C05).

import (
	"fmt"

	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bitutils"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

var _ messages.ModeSMessage

// ---------------------------------------------------------------------------------------------------------------------
// Altitude: the ICAO table is built by encoding every altitude, not by decoding

var gillham = map[uint16]int32{} // D1 D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4 -> feet

func init() {
	cseq := []uint16{1, 3, 2, 6, 4} // C1 C2 C4 of the five 100 ft steps of one 500 ft band, going up in an even band
	for band := 0; band < 512; band++ {
		gray := uint16(band ^ band>>1)
		for k := 0; k < 5; k++ {
			c := cseq[k]
			if band%2 == 1 {
				c = cseq[4-k]
			}
			gillham[gray<<3|c] = int32(-1200 + 500*band + 100*k)
		}
	}
}

// altitude of the eleven pulses in the order C1 A1 C2 A2 C4 A4 B1 D1 B2 D2 B4 D4 (12 bits)
func gillhamPulses(p uint16) (int32, bool) {
	bit := func(i uint) uint16 { return p >> (11 - i) & 1 }
	c1, a1, c2, a2, c4, a4 := bit(0), bit(1), bit(2), bit(3), bit(4), bit(5)
	b1, d1, b2, d2, b4, d4 := bit(6), bit(7), bit(8), bit(9), bit(10), bit(11)
	code := d1<<11 | d2<<10 | d4<<9 | a1<<8 | a2<<7 | a4<<6 | b1<<5 | b2<<4 | b4<<3 | c1<<2 | c2<<1 | c4
	ft, ok := gillham[code]
	return ft, ok
}

// ac13 gives altitude, method (1 none, 2 metric, 3 100 ft Gillham, 4 25 ft) and whether the code is legal.
func ac13(code uint16) (ft int32, method int, ok bool) {
	switch {
	case code == 0:
		return 0, 1, true
	case code&0x40 != 0:
		return 0, 2, true
	case code&0x10 != 0:
		n := int32(code&0x1F80)>>2 | int32(code&0x20)>>1 | int32(code&0x0F)
		return 25*n - 1000, 4, true
	}
	// C1 A1 C2 A2 C4 A4 [M] B1 [Q] B2 D2 B4 D4
	p := code >> 7 << 6 // six first pulses
	p |= code & 0x20    // B1
	p |= code & 0x0F    // B2 D2 B4 D4, D1 is not transmitted
	ft, ok = gillhamPulses(p)
	return ft, 3, ok
}

// ac12 is the code without the metric bit; method 0 is 100 ft, 1 is 25 ft.
func ac12(code uint16) (ft int32, method int, ok bool) {
	if code&0x10 != 0 {
		n := int32(code>>5)<<4 | int32(code&0x0F)
		return 25*n - 1000, 1, true
	}
	p := code>>6<<6 | code&0x20 | code&0x0F
	ft, ok = gillhamPulses(p)
	return ft, 0, ok
}

// ---------------------------------------------------------------------------------------------------------------------
// Frames

func readFrame(d []byte, _ []float64) (interface{}, error) { return modesreader.ReadMessage(d) }

func frameLen(df int) int {
	switch {
	case df == 0 || df == 4 || df == 5 || df == 11:
		return 7
	case df >= 16 && df <= 21 || df >= 24:
		return 14
	}
	return 0
}

func hasAltitude(df int) bool { return df == 0 || df == 4 || df == 16 || df == 20 }

func frameAccept(d []byte) int {
	if len(d) != 7 && len(d) != 14 {
		return 0
	}
	df := int(d[0] >> 3)
	if frameLen(df) != len(d) {
		return 0
	}
	if hasAltitude(df) {
		if _, _, ok := ac13(uint16(d[2]&0x1F)<<8 | uint16(d[3])); !ok {
			return 0
		}
	}
	return 1
}

func frameKind(df int) string {
	if df >= 24 {
		df = 24
	}
	return fmt.Sprintf("MessageDF%d", df)
}

func sub(path string, from, to int) F {
	return F{Path: path, Want: func(m M) Val { return Bytes(m.D[from:to]) }}
}

func headerFields(n int) []F {
	return []F{
		u("DownLinkFormat", 1, 5), u("FirstField", 6, 8),
		sub("Payload", 1, n-3), sub("Parity", n-3, n),
		{Path: "GetDownLinkFormat()", Want: func(m M) Val {
			if df := m.U(1, 5); df < 24 {
				return U(df)
			}
			return U(24)
		}},
	}
}

var utility = []F{u("UtilityMessage.InterrogatorIdentifier", 14, 17), u("UtilityMessage.IdentifierDesignator", 18, 19)}
var flight = append([]F{u("FlightStatus", 6, 8), u("DownlinkRequest", 9, 13)}, utility...)
var commBField = sub("MessageCommB", 4, 11)
var squitterFields = []F{{Path: "AddressAnnounced.Address", Want: func(m M) Val { return U(m.U(9, 32)) },
	R: [][2]int{{9, 16}, {17, 24}, {25, 32}}}, sub("MessageExtendedSquitter", 4, 11)}

func cat(fs ...[]F) []F {
	var out []F
	for _, f := range fs {
		out = append(out, f...)
	}
	return out
}

// frameFields are the fields of C03 per downlink format.
func frameFields(df int) []F {
	switch {
	case df == 0:
		return []F{bit("VerticalStatus", 6), bit("CrossLinkCapability", 7), u("SensitivityLevel", 9, 11), u("ReplyInformation", 14, 17)}
	case df == 16:
		return []F{bit("VerticalStatus", 6), u("SensitivityLevel", 9, 11), u("ReplyInformation", 14, 17), sub("MessageACAS", 4, 11)}
	case df == 4, df == 5:
		return flight
	case df == 20, df == 21:
		return cat(flight, []F{commBField})
	case df == 11:
		return []F{u("Capability", 6, 8), squitterFields[0]}
	case df == 17:
		return cat([]F{u("Capability", 6, 8)}, squitterFields)
	case df == 18:
		return cat([]F{u("ControlField", 6, 8)}, squitterFields)
	case df == 19:
		return []F{u("ApplicationField", 6, 8)}
	}
	return []F{bit("ControlELM", 4), u("NumberOfDSegment", 5, 8), sub("MessageCommD", 1, 11)}
}

// fill gives base contents of n bytes; fix sets what is given.
func fill(n int, fix func(d []byte)) [][]byte {
	var out [][]byte
	for _, p := range []string{"zero", "count", "ones", "55", "aa", "lcg"} {
		d := make([]byte, n)
		x := uint32(12345)
		for i := range d {
			x = x*1664525 + 1013904223
			switch p {
			case "count":
				d[i] = byte(0x11*i + 3)
			case "ones":
				d[i] = 0xFF
			case "55":
				d[i] = 0x55
			case "aa":
				d[i] = 0xAA
			case "lcg":
				d[i] = byte(x >> 24)
			}
		}
		if fix != nil {
			fix(d)
		}
		out = append(out, d)
	}
	return out
}

func mod(b [][]byte, f func(d []byte)) [][]byte {
	for _, d := range b {
		f(d)
	}
	return b
}

// legalAltitude makes the AC13 code of a frame legal (25 ft code).
func legalAltitude(d []byte) { d[3] = d[3]&^0x40 | 0x10 }

func frameLayout(df int) *Layout {
	n := frameLen(df)
	l := &Layout{Name: fmt.Sprintf("frame-df%d", df), Len: n, Call: readFrame,
		Accept: func(m M) int { return frameAccept(m.D) },
		Type:   func(m M) string { return frameKind(int(m.D[0] >> 3)) },
		Ranges: [][2]int{{9, 13}, {20, 32}, {9, 19}},
	}
	l.Bases = fill(n, func(d []byte) {
		d[0] = byte(df)<<3 | d[0]&7
		legalAltitude(d)
	})
	l.More = func(m M) []F {
		if int(m.D[0]>>3) >= 24 && df >= 24 || int(m.D[0]>>3) == df {
			return frameFieldsCached(df)
		}
		return frameFieldsCached(int(m.D[0] >> 3))
	}
	for _, f := range frameFields(df) {
		l.Ranges = append(l.Ranges, f.R...)
	}
	return l
}

var ffCache [32][]F

func frameFieldsCached(df int) []F {
	if ffCache[df] == nil {
		ffCache[df] = frameFields(df)
	}
	return ffCache[df]
}

// framing (C01): dispatch and raw content only
func framingEval(s *State, verbose bool) Outcome {
	l := framing7
	if len(s.Data) == 14 {
		l = framing14
	}
	return evalLayout(l, s, verbose)
}

func framingLayout(n int) *Layout {
	return &Layout{Name: "frame", Len: n, Call: readFrame,
		Accept: func(m M) int { return frameAccept(m.D) },
		Type:   func(m M) string { return frameKind(int(m.D[0] >> 3)) },
		Fields: headerFields(n),
		Bases:  fill(n, nil)}
}

var framing7, framing14 = framingLayout(7), framingLayout(14)

func exploreFraming(c *Ctx) {
	// all lengths x all first bytes x contents
	for n := 0; n <= 64; n++ {
		for _, b := range append(fill(n, nil), fill(n, func(d []byte) {
			if n > 3 {
				legalAltitude(d)
			}
		})...) {
			if n == 0 {
				c.Init("frame", b)
				continue
			}
			for f := 0; f < 256; f++ {
				d := clone(b)
				d[0] = byte(f)
				c.Step("frame", d)
			}
		}
	}
	for _, n := range []int{127, 128, 255, 256, 257, 263, 270, 512 + 7, 512 + 14, 65536 + 7, 65536 + 14} {
		for f := 0; f < 256; f += 8 {
			d := make([]byte, n)
			d[0] = byte(f)
			c.Step("frame", d)
		}
	}
	// every first byte x every value of every byte x backgrounds; then pairs of bytes
	for _, n := range []int{7, 14} {
		bases := fill(n, legalAltitude)
		for bi, b := range bases {
			for f := 0; f < 256; f++ {
				for i := 1; i < n; i++ {
					for v := 0; v < 256; v++ {
						d := clone(b)
						d[0], d[i] = byte(f), byte(v)
						c.Step("frame", d)
					}
				}
			}
			if c.Stop() {
				return
			}
			if bi > 0 && !c.thorough {
				continue
			}
			for f := 0; f < 256; f++ {
				d0 := clone(b)
				d0[0] = byte(f)
				hammingBall(d0[1:], 2, func(x []byte) bool {
					d := append([]byte{byte(f)}, x...)
					c.Step("frame", d)
					return !c.Stop()
				})
			}
		}
		// all altitude codes for the formats which have one
		for _, df := range []int{0, 4, 16, 20, 5, 21, 17} {
			if frameLen(df) != n {
				continue
			}
			for _, b := range bases {
				for code := 0; code < 8192; code++ {
					d := clone(b)
					d[0] = byte(df)<<3 | d[0]&7
					d[2] = d[2]&0xE0 | byte(code>>8)
					d[3] = byte(code)
					c.Step("frame", d)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------------------------------
// Altitude check (C04) and identity check (C05)

func altFields() []F {
	return []F{
		{Path: "Altitude", Want: func(m M) Val { ft, _, _ := ac13(uint16(m.U(20, 32))); return I(int64(ft)) }, R: [][2]int{{20, 32}}},
		{Path: "AltitudeReportMethod", Want: func(m M) Val { _, meth, _ := ac13(uint16(m.U(20, 32))); return I(int64(meth)) }},
	}
}

func altLayout(df int) *Layout {
	l := frameLayout(df)
	l.Name = fmt.Sprintf("altitude-df%d", df)
	l.More = func(m M) []F {
		if d := int(m.D[0] >> 3); hasAltitude(d) {
			return altFieldsShared
		}
		return nil
	}
	l.Ranges = [][2]int{{20, 32}, {9, 19}, {6, 8}}
	return l
}

var altFieldsShared = altFields()

func ac12Fields() []F {
	return []F{
		{Path: "AltitudeInFeet", Want: func(m M) Val { ft, _, _ := ac12(uint16(m.U(9, 20))); return I(int64(ft)) }, R: [][2]int{{9, 20}}},
		{Path: "AltitudeReportMethod", Want: func(m M) Val { _, me, _ := ac12(uint16(m.U(9, 20))); return I(int64(me)) }},
	}
}

func ac12Accept(m M) int {
	code := uint16(m.U(9, 20))
	if code == 0 {
		return -1 // altitude not available: the code refuses the message, the standard leaves it without altitude
	}
	_, _, ok := ac12(code)
	return b2i(ok)
}

func alt05Layout() *Layout {
	l := &Layout{Name: "altitude-bds05", Len: 7,
		Call: func(d []byte, _ []float64) (interface{}, error) { return bds05.ReadAirbornePosition(d) },
		Accept: func(m M) int {
			tc := m.U(1, 5)
			if !(tc >= 9 && tc <= 18 || tc >= 20 && tc <= 22) {
				return 0
			}
			return ac12Accept(m)
		},
		Fields: ac12Fields(), Ranges: [][2]int{{1, 5}, {6, 8}, {21, 22}}}
	for tc := byte(9); tc <= 22; tc++ {
		if tc == 19 {
			continue
		}
		tc := tc
		l.Bases = append(l.Bases, fill(7, func(d []byte) { d[0] = tc<<3 | d[0]&7; d[1] |= 1 })[tc%6])
	}
	return l
}

// gillhamLayout: the pulse decoder itself on all 4096 pulse combinations (two bytes, the upper four bits unused).
func gillhamLayout() *Layout {
	type alt struct{ Feet int32 }
	return &Layout{Name: "gillham", Len: 2, NoRefuse: true,
		Call: func(d []byte, _ []float64) (interface{}, error) {
			m := M{D: d}
			b := func(i int) bool { return m.Bit(i + 4) }
			ft, err := bitutils.GillhamToAltitude(b(1), b(2), b(3), b(4), b(5), b(6), b(7), b(8), b(9), b(10), b(11), b(12))
			return alt{ft}, err
		},
		Accept: func(m M) int { _, ok := gillham[uint16(m.U(5, 16))]; return b2i(ok) },
		Fields: []F{{Path: "Feet", Want: func(m M) Val { return I(int64(gillham[uint16(m.U(5, 16))])) }, R: [][2]int{{5, 16}}}},
		Bases:  [][]byte{{0, 0}}}
}

// altADSB: the same codes through the ADS-B dispatcher, including type code 0.
func altADSB() *Layout {
	l := &Layout{Name: "altitude-adsb", Len: 7, Call: callADSB,
		Args: [][]float64{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}},
		Accept: func(m M) int {
			tc := m.U(1, 5)
			if !(tc >= 9 && tc <= 18 || tc >= 20 && tc <= 22 || tc == 0) {
				return -1
			}
			return ac12Accept(m)
		},
		More: func(m M) []F {
			tc := m.U(1, 5)
			if tc == 0 && m.U(21, 56) == 0 {
				return altNoPos
			}
			if tc >= 9 && tc <= 18 || tc >= 20 && tc <= 22 || tc == 0 {
				return altPos
			}
			return nil
		},
		Ranges: [][2]int{{9, 20}, {1, 5}, {6, 8}, {21, 22}}}
	for _, tc := range []byte{0, 9, 11, 18, 20, 22} {
		tc := tc
		l.Bases = append(l.Bases, fill(7, func(d []byte) { d[0] = tc<<3 | d[0]&7; d[1] |= 1 })[:2]...)
	}
	l.Bases = append(l.Bases, []byte{0, 1, 0, 0, 0, 0, 0})
	return l
}

var altPos = ac12Fields()
var altNoPos = []F{{Path: "AltitudeBarometric", Want: altPos[0].Want}}

func callADSB(d []byte, a []float64) (interface{}, error) {
	m, err := adsbreader.ReadADSBMessage(adsbVersion(a[0]), a[1] != 0, a[2] != 0, d)
	return m, err
}

// identity of the 13 bits C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4
func squawk(c uint16) string {
	b := func(i uint) byte { return byte(c >> (12 - i) & 1) }
	d := func(p4, p2, p1 byte) byte { return '0' + p4<<2 + p2<<1 + p1 }
	return string([]byte{
		d(b(5), b(3), b(1)), d(b(11), b(9), b(7)), d(b(4), b(2), b(0)), d(b(12), b(10), b(8))})
}

func identityFields() []F {
	id := func(m M) string { return squawk(uint16(m.U(20, 32))) }
	pred := func(path, code string) F {
		return F{Path: path, Want: func(m M) Val { return B(id(m) == code) }}
	}
	return []F{
		{Path: "Identity.Identity", Want: func(m M) Val { return S(id(m)) }, R: [][2]int{{20, 32}}},
		pred("Identity.IsSpecialEmergency()", "7700"),
		pred("Identity.IsSpecialRadiocommunicationFailure()", "7600"),
		pred("Identity.IsSpecialUnlawfulInterference()", "7500"),
		pred("Identity.IsSpecialInstructionNotReceived()", "2000"),
	}
}

var identityShared = identityFields()

func identityLayout(df int) *Layout {
	l := frameLayout(df)
	l.Name = fmt.Sprintf("identity-df%d", df)
	l.More = func(m M) []F {
		if d := int(m.D[0] >> 3); d == 5 || d == 21 {
			return identityShared
		}
		return nil
	}
	l.Ranges = [][2]int{{20, 32}, {9, 19}, {6, 8}}
	return l
}

func init() {
	register(&Check{ID: "C01", Eval: framingEval, Explore: exploreFraming,
		Bounds: "all lengths 0..64 (and some long ones) x all 256 first bytes x 12 contents; for 7 and 14 bytes all first bytes x every value of every byte x 6 contents, all first bytes x all 1- and 2-bit changes, all 8192 altitude codes x formats x 6 contents",
		Assume: []string{"Annex 10 downlink format list and lengths as transcribed in the model"}})
	var ls []*Layout
	for _, df := range []int{0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24, 31, 26} {
		ls = append(ls, frameLayout(df))
	}
	register(layoutCheck("C03", layoutBounds, []string{"Annex 10 bit assignment as transcribed in the model"}, ls...))
	register(layoutCheck("C04", layoutBounds, []string{"the altitude table is generated by encoding every altitude in the model"},
		altLayout(0), altLayout(4), altLayout(16), altLayout(20), alt05Layout(), altADSB(), gillhamLayout()))
	register(layoutCheck("C05", layoutBounds, []string{"Annex 10 pulse order as transcribed in the model"}, identityLayout(5), identityLayout(21)))
}
