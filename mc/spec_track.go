package main

// C28: the whole way of an aircraft's state. The model encodes an aircraft (address, position, altitude, velocity,
// identification, squawk) into the frames which the standard prescribes; the frames go through frame decoding, parity check,
// message decoding and position decoding, and what comes out has to be the aircraft.

import (
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

// arguments of a state
const (
	aLat     = iota
	aLon     // of the even message
	aLat2    //
	aLon2    // of the odd message
	aEven    // 1: the even message is the last
	aICAO    //
	aVersion // of the reader
	aType    // type code of the position messages
	aAlt     // feet
	aEast    // knots
	aNorth   // knots
	aRate    // feet per minute, multiple of 64
	aFormat  // 17 or 18
	aSquawk  // 13 bits
	aName    // seed of the identification
	aDamage  // damaged bit, -1: none
	aCount
)

// receive passes a frame through the frame decoder and the parity check. It returns the decoded frame.
func receive(d []byte, id uint32) (interface{}, string) {
	m, err := modesreader.ReadMessage(d)
	if err != nil {
		return nil, fmt.Sprintf("frame: %x is refused: %v", d, err)
	}
	for k := 0; k < 3; k++ {
		if k == 2 && (d[0]>>3 == 17 || d[0]>>3 == 18) {
			continue // squitters carry their address, no list applies to them
		}
		var list map[common.ICAOAddress]bool
		switch k {
		case 1:
			list = map[common.ICAOAddress]bool{common.ICAOAddress(id): true, common.ICAOAddress(id ^ 0x800001): true}
		case 2:
			list = map[common.ICAOAddress]bool{common.ICAOAddress(id ^ 0x000100): true}
		}
		a, err := modesreader.CheckCRC(m, d, list, nil)
		if k < 2 && err != nil {
			return nil, fmt.Sprintf("parity: %x of %06X is refused (list %d): %v", d, id, k, err)
		}
		if k == 2 && err == nil {
			return nil, fmt.Sprintf("list: %x of %06X is accepted although it is not in the list", d, id)
		}
		if k < 2 && uint32(a) != id {
			return nil, fmt.Sprintf("address: %x of %06X is taken for one of %06X", d, id, uint32(a))
		}
	}
	return m, ""
}

func squitter(format float64, icao uint32, me []byte) []byte {
	d := append([]byte{byte(format) << 3, byte(icao >> 16), byte(icao >> 8), byte(icao)}, me...)
	if format == 17 {
		d[0] |= 5
	}
	return sealFrame(append(d, 0, 0, 0), 0)
}

// altitudeBits gives the 12-bit code of an altitude.
var altitudeCodes = map[int32]uint16{}

func altitudeBits(ft int32) (uint16, bool) {
	if len(altitudeCodes) == 0 {
		for c := uint16(0); c < 4096; c++ {
			if f, _, ok := ac12(c); ok {
				if old, have := altitudeCodes[f]; !have || old&0x10 == 0 {
					altitudeCodes[f] = c
				}
			}
		}
	}
	c, ok := altitudeCodes[ft]
	return c, ok
}

func positionME(tc float64, odd bool, e cpr, alt uint16) []byte {
	me := make([]byte, 7)
	setBits(me, 1, 5, uint64(tc))
	if tc < 9 {
		setBits(me, 6, 12, 37)
		setBits(me, 13, 13, 1)
		setBits(me, 14, 20, 92)
	} else {
		setBits(me, 9, 20, uint64(alt))
	}
	setBits(me, 22, 22, uint64(b2i(odd)))
	setBits(me, 23, 39, uint64(e.yz))
	setBits(me, 40, 56, uint64(e.xz))
	return me
}

func velocityME(east, north, rate float64) []byte {
	me := make([]byte, 7)
	setBits(me, 1, 5, 19)
	setBits(me, 6, 8, 1)
	setBits(me, 14, 14, uint64(b2i(east < 0)))
	setBits(me, 15, 24, uint64(math.Abs(east))+1)
	setBits(me, 25, 25, uint64(b2i(north < 0)))
	setBits(me, 26, 35, uint64(math.Abs(north))+1)
	setBits(me, 37, 37, uint64(b2i(rate < 0)))
	setBits(me, 38, 46, uint64(math.Abs(rate)/64)+1)
	return me
}

const legalCharacters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// nameOf makes eight characters from a number: every character in every place comes up.
func nameOf(seed float64) string {
	b := make([]byte, 8)
	k := uint64(seed)
	for i := range b {
		b[i] = legalCharacters[(k+uint64(i)*(1+k/36))%36]
	}
	return string(b)
}

func nameBits(me []byte, name string) {
	for i := 0; i < 8; i++ {
		c := name[i]
		v := uint64(c)
		if c >= 'A' {
			v = uint64(c-'A') + 1
		}
		setBits(me, 9+6*i, 14+6*i, v)
	}
}

func wantVal(x interface{}, what, path string, want Val) string {
	got := get(x, path)
	if got.K == '?' {
		unobserved["track/"+path] = true
	} else if !sameVal(got, want) {
		return fmt.Sprintf("%s: %s is %v, want %v", what, path, got, want)
	}
	return ""
}

// content decodes the message in an extended squitter.
func content(a []float64, m interface{}, d []byte) (interface{}, string) {
	me := get(m, "MessageExtendedSquitter")
	if me.K != 'b' {
		return nil, fmt.Sprintf("frame: %x has no extended squitter", d)
	}
	x, err := callADSB([]byte(me.S), []float64{a[aVersion], 0, 0})
	if err != nil {
		return nil, fmt.Sprintf("message: %x is refused: %v", d, err)
	}
	return x, ""
}

func evalTrack(s *State, verbose bool) Outcome {
	var o Outcome
	if s.Op == "damaged" {
		return evalDamagedTrack(s, verbose)
	}
	o.Problem = track(s.Args, &o)
	return o
}

func track(a []float64, o *Outcome) string {
	icao := uint32(a[aICAO])
	surface := a[aType] < 9
	even, odd := encode(a[aLat], a[aLon], false, surface), encode(a[aLat2], a[aLon2], true, surface)
	if even.near || odd.near || even.nl != odd.nl {
		o.Open = true
		return ""
	}
	alt, ok := altitudeBits(int32(a[aAlt]))
	if !ok {
		o.Open = true
		return ""
	}
	// the two position messages
	var code [2]cpr
	for i, e := range []cpr{even, odd} {
		d := squitter(a[aFormat], icao, positionME(a[aType], i == 1, e, alt))
		m, p := receive(d, icao)
		if p != "" {
			return p
		}
		x, p := content(a, m, d)
		if p != "" {
			return p
		}
		for _, w := range []struct {
			path string
			v    Val
		}{{"CPRFormat", U(uint64(i))}, {"GetADSBVersion()", N(a[aVersion])}, {"FormatTypeCode", N(a[aType])}} {
			if p := wantVal(x, "position", w.path, w.v); p != "" {
				return p
			}
		}
		if surface {
			p = wantVal(x, "position", "GroundTrack", N(92*360.0/128))
		} else {
			p = wantVal(x, "altitude", "AltitudeInFeet", N(a[aAlt]))
		}
		if p != "" {
			return p
		}
		la, lo := get(x, "EncodedLatitude"), get(x, "EncodedLongitude")
		if la.K != 'n' || lo.K != 'n' || la.N < 0 || la.N >= p17 || lo.N < 0 || lo.N >= p17 {
			return fmt.Sprintf("position: encoded %v %v", la, lo)
		}
		code[i].yz, code[i].xz = uint32(la.N), uint32(lo.N)
	}
	last, lastCode, evenLast := odd, code[1], a[aEven] == 1
	if evenLast {
		last, lastCode = even, code[0]
	}
	var lat, lon, llat, llon float64
	var err error
	if surface {
		lat, lon, err = geo.GetCPRSurfaceGlobalPosition(code[0].yz, code[0].xz, code[1].yz, code[1].xz, evenLast, a[aLat], a[aLon])
		llat, llon = geo.GetCPRSurfaceLocalPosition(lastCode.yz, lastCode.xz, a[aLat], a[aLon], !evenLast)
	} else {
		lat, lon, err = geo.GetCPRAirborneGlobalPosition(code[0].yz, code[0].xz, code[1].yz, code[1].xz, evenLast)
		llat, llon = geo.GetCPRAirborneLocalPosition(lastCode.yz, lastCode.xz, a[aLat], a[aLon], !evenLast)
	}
	if err != nil {
		return fmt.Sprintf("pair: refused: %v", err)
	}
	o.Sig = sigPos(lat, lon)
	if p := badPosition("the pair", lat, lon, last); p != "" {
		return p
	}
	if p := badPosition("the last message alone", llat, llon, last); p != "" {
		return p
	}
	// the distance from the true position is that of the rounding
	trueLat, trueLon := a[aLat2], a[aLon2]
	if evenLast {
		trueLat, trueLon = a[aLat], a[aLon]
	}
	want := earth * arc(last.rlat, last.rlon, trueLat, trueLon)
	if dist := geo.ComputeGroundDistance(lat, lon, trueLat, trueLon); !(dist >= 0 && math.Abs(dist-want) < 0.8) {
		return fmt.Sprintf("distance: the decoded position is said to be %v m away from the true one, it is %v", dist, want)
	}
	// the velocity
	d := squitter(a[aFormat], icao, velocityME(a[aEast], a[aNorth], a[aRate]))
	m, p := receive(d, icao)
	if p != "" {
		return p
	}
	x, p := content(a, m, d)
	if p != "" {
		return p
	}
	speed := math.Sqrt(a[aEast]*a[aEast] + a[aNorth]*a[aNorth])
	if p := wantVal(x, "velocity", "AirborneVelocity.GetSpeed()", Floor(speed)); p != "" {
		return p
	}
	if speed > 0 {
		t := get(x, "AirborneVelocity.GetTrack()")
		want := math.Atan2(a[aEast], a[aNorth]) * 180 / math.Pi
		if t.K != '?' && (t.K != 'n' || angDiff(t.N, want) > 1e-3 || t.N < 0 || t.N > 360) {
			return fmt.Sprintf("velocity: track %v, want %v", t, fmod(want, 360))
		}
	}
	if p := wantVal(x, "velocity", "VerticalRate", N(a[aRate])); p != "" {
		return p
	}
	// the identification, broadcast and in a register; the squawk; the track and turn report
	name := nameOf(a[aName])
	me := []byte{4<<3 | byte(uint64(a[aName])%8), 0, 0, 0, 0, 0, 0}
	nameBits(me, name)
	d = squitter(a[aFormat], icao, me)
	if m, p = receive(d, icao); p != "" {
		return p
	}
	if x, p = content(a, m, d); p != "" {
		return p
	}
	if p := wantVal(x, "identification", "Identification", S(name)); p != "" {
		return p
	}
	me[0] = 0x20
	sq := uint64(a[aSquawk])
	d = append([]byte{21 << 3, 0, byte(sq >> 8 & 0x1F), byte(sq)}, me...)
	d = sealFrame(append(d, 0, 0, 0), icao)
	if m, p = receive(d, icao); p != "" {
		return p
	}
	if p := sameFields(m, d, identityFields()); p != "" {
		return p
	}
	mb := get(m, "MessageCommB")
	ms, err := commb.ReadCommBMessage([]byte(mb.S))
	if err != nil || len(ms) != 1 {
		return fmt.Sprintf("register: %x gives %d registers, error %v", mb.S, len(ms), err)
	}
	if p := wantVal(ms[0], "register", "Identification", S(name)); p != "" {
		return p
	}
	return trackRegister(a, icao, alt)
}

func sameFields(x interface{}, d []byte, fs []F) string {
	m := M{D: d}
	for _, f := range fs {
		if p := wantVal(x, "field", f.Path, f.Want(m)); p != "" {
			return p
		}
	}
	return ""
}

var trackLayout, headingLayout = bds50Layout(), bds60Layout()

// trackRegister: an altitude reply (DF 20) with the track and turn report of the aircraft.
func trackRegister(a []float64, icao uint32, alt uint16) string {
	mb := make([]byte, 7)
	speed := math.Sqrt(a[aEast]*a[aEast] + a[aNorth]*a[aNorth])
	track := math.Atan2(a[aEast], a[aNorth])/math.Pi*180 - 1e-9
	setBits(mb, 1, 1, 1)
	setBits(mb, 12, 12, 1)
	setBits(mb, 13, 13, uint64(b2i(track < 0)))
	setBits(mb, 14, 23, uint64(math.Floor(fmod(track, 180)/(90.0/512)))&1023)
	setBits(mb, 24, 24, 1)
	setBits(mb, 25, 34, uint64(speed/2)&1023)
	setBits(mb, 46, 46, 1)
	setBits(mb, 47, 56, uint64(math.Min(speed, 500)/2))
	// the 13-bit code has the M bit between the ninth last and the eighth last bit of the 12-bit one
	ac := uint16(alt>>6)<<7 | alt&0x3F
	d := append([]byte{20 << 3, 0, byte(ac >> 8), byte(ac)}, mb...)
	d = sealFrame(append(d, 0, 0, 0), icao)
	m, p := receive(d, icao)
	if p != "" {
		return p
	}
	if p := wantVal(m, "altitude reply", "Altitude", N(a[aAlt])); p != "" {
		return p
	}
	got := get(m, "MessageCommB")
	ms, err := commb.ReadCommBMessage([]byte(got.S))
	if err != nil {
		return fmt.Sprintf("register: %x: %v", got.S, err)
	}
	for _, l := range []*Layout{trackLayout, headingLayout} {
		want := l.Coherent(M{D: mb}) == 1
		var found interface{}
		for _, x := range ms {
			if sameVal(get(x, "GetRegister().GetId()"), l.Fields[len(l.Fields)-1].Want(M{D: mb})) {
				found = x
			}
		}
		if (found != nil) != want {
			return fmt.Sprintf("register: %x as %s: found %v, want %v", mb, l.Name, found != nil, want)
		}
		if found != nil {
			if p := sameFields(found, mb, l.Fields); p != "" {
				return p
			}
		}
	}
	return ""
}

// evalDamagedTrack: the position, velocity and identification squitters of the aircraft with one damaged bit.
func evalDamagedTrack(s *State, verbose bool) Outcome {
	var o Outcome
	a := s.Args
	icao := uint32(a[aICAO])
	surface := a[aType] < 9
	alt, _ := altitudeBits(int32(a[aAlt]))
	me := []byte{4 << 3, 0, 0, 0, 0, 0, 0}
	nameBits(me, nameOf(a[aName]))
	for _, m := range [][]byte{positionME(a[aType], false, encode(a[aLat], a[aLon], false, surface), alt), velocityME(a[aEast], a[aNorth], a[aRate]), me} {
		d := squitter(a[aFormat], icao, m)
		k := int(a[aDamage])
		d[k/8] ^= 0x80 >> uint(k%8)
		x, err := modesreader.ReadMessage(d)
		if err != nil {
			o.Problem = fmt.Sprintf("frame: %x is refused: %v", d, err)
			return o
		}
		for _, list := range []map[common.ICAOAddress]bool{nil, {common.ICAOAddress(icao): true}} {
			if got, err := modesreader.CheckCRC(x, d, list, nil); err == nil {
				o.Problem = fmt.Sprintf("damaged: %x with bit %d damaged is accepted as %06X", d, k+1, uint32(got))
				return o
			}
		}
	}
	o.Sig = mix(uint64(a[aDamage]))
	return o
}

func exploreTrack(c *Ctx) {
	types := []float64{5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}
	squawks := []float64{0, 0x1FFF, 0x0808, 0x0AAA, 0x1555, 0x0002, 0x1BE, 0x800}
	base := func(k int, lat, lon float64) []float64 {
		a := make([]float64, aCount)
		a[aLat], a[aLon], a[aLat2], a[aLon2], a[aEven] = lat, lon, lat, lon, float64(k&1)
		a[aICAO] = float64((k*0x9E3779 + 0x4840D6) & 0xFFFFFF)
		a[aVersion], a[aType] = float64(k/2%3), types[k/6%len(types)]
		a[aAlt] = float64(k%2048)*25 - 1000
		if k%7 == 0 {
			a[aAlt] = float64(k/7%760)*100 + 50200
		}
		a[aEast], a[aNorth], a[aRate] = float64(k*37%2043-1021), float64(k*101%2043-1021), float64(k*13%1019-509)*64
		a[aFormat], a[aSquawk], a[aName], a[aDamage] = float64(17+k/3%2), squawks[k%len(squawks)], float64(k%1296), -1
		return a
	}
	n := 0
	visit := func(lat, lon, lat2, lon2 float64) {
		for ord := 0.0; ord < 2; ord++ {
			a := base(n, lat, lon)
			a[aLat2], a[aLon2], a[aEven] = lat2, lon2, ord
			if a[aType] < 9 && lat > 89.9 {
				a[aType] += 9
			}
			c.Init("track", nil, a...)
			n++
		}
	}
	// positions: grid and critical places, at rest and moving
	for lat := -89.9; lat < 90; lat += c.step(0.9, 0.31) {
		for lon := -179.9; lon < 180; lon += c.step(1.3, 0.43) {
			visit(lat, lon, lat, lon)
		}
		if c.Stop() {
			return
		}
	}
	for i, lat := range criticalLats(false) {
		for _, lon := range criticalLons(lat, false) {
			visit(lat, lon, lat, lon)
			if math.Abs(lat) < 89.5 {
				visit(lat, lon, lat+0.004*float64(i%3-1), lon+0.004*float64(i/3%3-1))
			}
		}
		if c.Stop() {
			return
		}
	}
	set := func(a []float64, kv ...float64) []float64 {
		a = append([]float64(nil), a...)
		for i := 0; i < len(kv); i += 2 {
			a[int(kv[i])] = kv[i+1]
		}
		return a
	}
	places := [][2]float64{{48.86, 2.35}, {-33.9, 151.2}, {0.01, -0.02}, {71.3, -179.99}}
	step := func(a []float64, kv ...float64) { c.Step("track", nil, set(a, kv...)...) }
	for pi, p := range places {
		b := base(pi*35+5, p[0], p[1])
		// every altitude, with every type code and version
		for ft := -1200.0; ft <= 126700; ft += 25 {
			for ti, t := range types {
				if t >= 9 && (pi == 0 || c.thorough || ti%4 == pi) {
					for v := 0.0; v < 3; v++ {
						step(b, aAlt, ft, aType, t, aVersion, v)
					}
				}
			}
		}
		// every component of the velocity, and pairs of them
		st := c.pick(23, 7)
		for e := -1021; e <= 1021; e++ {
			step(b, aEast, float64(e), aNorth, 0)
			step(b, aEast, 0, aNorth, float64(e))
			step(b, aEast, float64(e), aNorth, float64(e))
			step(b, aEast, float64(e), aNorth, float64(-e))
			if (e+1021)%st == pi {
				for n := -1021 + pi; n <= 1021; n += st {
					step(b, aEast, float64(e), aNorth, float64(n))
				}
			}
			if e >= -510 && e <= 510 {
				step(b, aRate, float64(e)*64)
			}
		}
		// every squawk, many identifications
		for q := 0; q < 8192; q++ {
			step(b, aSquawk, float64(q), aName, float64(q%1296))
		}
		// addresses: a grid, boundaries, and all within two bits of them
		for k := 0; k < 1<<24; k += c.pick(509, 31) {
			step(b, aICAO, float64(k), aFormat, float64(17+k&1))
		}
		for _, id := range []uint32{0, 0xFFFFFF, 0x4840D6, 0x800000, 0xABCDEF} {
			for i := uint(0); i < 24; i++ {
				for j := i; j < 24; j++ {
					step(b, aICAO, float64(id^1<<i^(1<<j&^(1<<i))), aFormat, float64(17+(i+j)%2))
				}
			}
		}
		// damage
		for k := 5; k < 112; k++ {
			for _, t := range types {
				for f := 17.0; f < 19; f++ {
					c.Step("damaged", nil, set(b, aDamage, float64(k), aType, t, aFormat, f)...)
				}
			}
		}
		if c.Stop() {
			return
		}
	}
}

func init() {
	register(&Check{ID: "C28", Eval: evalTrack, Explore: exploreTrack,
		Assume: []string{"the model's encoders follow DO-260B and Annex 10", "positions whose latitude is within 1e-9 degree of a zone-count transition, and pairs over one, are left open"},
		Bounds: "aircraft on a grid of 0.9 by 1.3 (thorough 0.31 by 0.43) degrees over the Earth and at all critical latitudes and longitudes of the position checks, at rest and moving, both orders, type codes 5-18 and 20-22, three reader versions, formats 17 and 18 in rotation; at four places all altitudes with all airborne type codes and versions, all velocity components, diagonals and a grid of pairs, all vertical rates, all 8192 identity codes, 1296 identifications, addresses in steps of 509 (31) and within two bits of five; every single damaged bit of every kind of squitter"})
}
