"""The planted bugs: each breaks one property, compiles and passes the existing tests."""
M = "github.com/twuillemin/modes/pkg/"
STD = {"math", "time", "strings", "bytes", "sync", "sort", "encoding/hex", "os/exec", "path/filepath", "errors", "bufio"}
def demo(imports, body, extra=""):
    std = ["fmt", "os"] + [i for i in imports if i in STD]
    mods = [i for i in imports if i not in std]
    s = "package main\n\nimport (\n"
    for i in sorted(set(std)): s += f'\t"{i}"\n'
    for i in mods:
        if "=" in i:
            n, p = i.split("="); s += f'\t{n} "{M}{p}"\n'
        else: s += f'\t"{M}{i}"\n'
    s += ")\n\nfunc check(ok bool, f string, a ...interface{}) {\n\tif !ok {\n\t\tfmt.Printf(f+\"\\n\", a...)\n\t\tos.Exit(1)\n\t}\n}\n" + extra + "\nfunc main() {\n" + body + "\n}\n"
    return s
BUGS = []
def bug(id, prop, edits, needs, breaks, demo_src, run=None):
    b = dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo_src)
    if run: b["run"] = run
    BUGS.append(b)

bug("s01-short-identity-reply", "C01",
    [("pkg/modes/messages/df5.go", "if len(message.Payload) != 3 {", "if len(message.Payload) < 3 {")],
    "a 14-byte string whose first five bits say format 5",
    "a long frame is decoded as a short identity reply",
    demo(["rd=modes/reader"], '''	b := make([]byte, 14)
	b[0] = 5 << 3
	m, err := rd.ReadMessage(b)
	check(err != nil && m == nil, "a 14-byte format 5 was decoded")'''))

bug("s02-parity-tolerates-one-bit", "C02",
    [("pkg/modes/reader/crc.go", "	if contentParity != messageParity {\n		return 0, fmt.Errorf(\"the message does not have a valid CRC\")",
      "	// A single wrong bit in the parity field does not harm the content\n	if bits.OnesCount32(contentParity^messageParity) > 1 {\n		return 0, fmt.Errorf(\"the message does not have a valid CRC\")"),
     ("pkg/modes/reader/crc.go", '	"github.com/twuillemin/modes/pkg/modes/messages"\n', '	"github.com/twuillemin/modes/pkg/modes/messages"\n	"math/bits"\n')],
    "a squitter damaged so that the remainder differs in one bit only (a damaged parity bit, or a pattern of content bits with that syndrome)",
    "damaged squitters pass, among them some with damaged content",
    demo(["rd=modes/reader", "encoding/hex"], '''	b, _ := hex.DecodeString("8D4840D6202CC371C32CE0576098")
	m, err := rd.ReadMessage(b)
	check(err == nil, "decode %v", err)
	_, err = rd.CheckCRC(m, b, nil, nil)
	check(err == nil, "the sound squitter is refused: %v", err)
	for i := 5; i < 112; i++ {
		c := append([]byte(nil), b...)
		c[i/8] ^= 0x80 >> uint(i%8)
		m, err := rd.ReadMessage(c)
		check(err == nil, "decode %v", err)
		_, err = rd.CheckCRC(m, c, nil, nil)
		check(err != nil, "bit %d damaged and accepted", i)
	}'''))

bug("s03-interrogator-list-by-code", "C02",
    [("pkg/modes/reader/crc.go", "		if _, ok := allowedInterrogatorIdentifiers[interrogatorIdentifier]; !ok {",
      "		// Only the seven bits of the interrogator code are significant\n		if _, ok := allowedInterrogatorIdentifiers[interrogatorIdentifier&0x7F]; !ok {")],
    "an all-call reply with a damaged content or parity, and a list of allowed interrogators which has the low seven bits of the remainder",
    "damaged all-call replies pass the interrogator list",
    demo(["rd=modes/reader", "cm=modes/common", "encoding/hex"], '''	b, _ := hex.DecodeString("5D484FDEA248F5")
	m, _ := rd.ReadMessage(b)
	id, err := rd.CheckCRC(m, b, nil, nil)
	check(err == nil, "%v", err)
	c := append([]byte(nil), b...)
	c[4] ^= 0x10
	list := map[cm.ICAOAddress]bool{id: true}
	m, _ = rd.ReadMessage(b)
	_, err = rd.CheckCRC(m, b, nil, list)
	check(err == nil, "sound reply refused")
	m, _ = rd.ReadMessage(c)
	_, err = rd.CheckCRC(m, c, nil, list)
	check(err != nil, "a damaged reply passes the list")'''))

bug("s04-reservation-identifier", "C03",
    [("pkg/modes/fields/utility_message.go", "	ii := ((message.Payload[0] & 0x07) << 1) | ((message.Payload[1] & 0x80) >> 7)\n", "	ii := uint8(0)\n	if message.Payload[1]&0xE0 != 0x80 {\n		ii = ((message.Payload[0] & 0x07) << 1) | ((message.Payload[1] & 0x80) >> 7)\n	}\n")],
    "a surveillance reply whose interrogator identifier is odd and whose designator is 0",
    "the interrogator identifier is given as 0",
    demo(["rd=modes/reader", "ms=modes/messages"], '''	for v := 0; v < 64; v++ {
		b := []byte{4 << 3, byte(v >> 3), byte(v << 5), 0, 0, 0, 0}
		m, err := rd.ReadMessage(b)
		check(err == nil, "%v", err)
		u := m.(*ms.MessageDF4).UtilityMessage
		check(int(u.InterrogatorIdentifier) == v>>2 && int(u.IdentifierDesignator) == v&3, "UM %d: %v", v, u)
	}'''))

bug("s05-gillham-low-altitude", "C04",
    [("pkg/bitutils/gillham.go", "	if oneHundred == 5 || oneHundred == 6 || oneHundred == 0 {", "	if oneHundred == 5 || oneHundred == 6 || fiveHundredBits == 0 && oneHundred == 0 {")],
    "a Gillham code with C1 C2 C4 all zero and some other bit set",
    "illegal Gillham codes are decoded to an altitude",
    demo(["bitutils"], '''	n := 0
	for c := 1; c < 4096; c++ {
		b := func(i uint) bool { return c>>i&1 != 0 }
		_, err := bitutils.GillhamToAltitude(false, b(3), b(4), b(5), b(6), b(7), b(8), b(9), b(10), b(0), b(1), b(2))
		if c&7 == 0 && c < 2048 {
			check(err != nil, "code %x without any C bit is accepted", c)
			n++
		}
	}
	check(n > 100, "nothing tried")'''))

bug("s06-squawk-x-bit", "C05",
    [("pkg/modes/fields/identity.go", "	b1 := (identity & 0x0020) >> 5", "	b1 := (identity & 0x0060) >> 5 & 3")],
    "an identity reply with the X bit set (bit 26 of the frame)",
    "the X bit changes the B digit of the squawk",
    demo(["rd=modes/reader", "ms=modes/messages"], '''	for c := 0; c < 8192; c++ {
		if c&0x40 != 0 {
			continue
		}
		id := func(c int) string {
			m, err := rd.ReadMessage([]byte{5 << 3, 0, byte(c >> 8), byte(c), 0, 0, 0})
			check(err == nil, "%v", err)
			return m.(*ms.MessageDF5).Identity.Identity
		}
		check(id(c) == id(c|0x40), "code %04x: %s, with the X bit %s", c, id(c), id(c|0x40))
	}'''))

bug("s07-position-on-the-meridian", "C06",
    [("pkg/adsb/reader/reader.go", "		if data[2]&0x0F == 0 && data[3] == 0 && data[4] == 0 && data[5] == 0 && data[6] == 0 {", "		if data[2]&0x0F == 0 && data[3] == 0 && data[4] == 0 && data[5] == 0 {")],
    "type code 0 with an encoded longitude below 256 and latitude 0",
    "a position is taken for the absence of a position",
    demo(["adsb", "rd=adsb/reader", "np=adsb/no_position_information"], '''	for bit := 24; bit < 56; bit++ {
		d := []byte{0, 0x59, 0x30, 0, 0, 0, 0}
		d[bit/8] |= 0x80 >> uint(bit%8)
		m, err := rd.ReadADSBMessage(adsb.ADSBV2, false, false, d)
		check(err == nil, "%v", err)
		_, none := m.(*np.NoPositionInformation)
		check(!none, "bit %d: %v", bit+1, m)
	}'''))

bug("s08-integrity-nic-supplement-b", "C07",
    [("pkg/adsb/airborne_position/airborne_position_v2.go", "	case 16:\n		if nicSupplementA {", "	case 16:\n		if nicSupplementA || nicSupplementB == fields.NICBOne {")],
    "version 2, type code 16, NIC supplement A clear and B set",
    "the containment radius is given as 4 NM where it is 8 NM",
    demo(["adsb", "rd=adsb/reader", "ap=adsb/airborne_position"], '''	d := []byte{16<<3 | 1, 0x58, 0xC3, 0x82, 0xD6, 0x90, 0xC8}
	m, err := rd.ReadADSBMessage(adsb.ADSBV2, false, false, d)
	check(err == nil, "%v", err)
	p := m.(*ap.AirbornePositionV2)
	check(p.NavigationIntegrityCategory == 2, "NIC %d", p.NavigationIntegrityCategory)'''))

bug("s09-movement-step", "C08",
    [("pkg/bds/bds06/fields/movement.go", "movementStatus == 1 || movementStatus > 124 {", "movementStatus == 1 || movementStatus >= MSAboveMaximum {")],
    "a surface position with movement code 124 (ground speed above the maximum)",
    "code 124 is given as 0 kt",
    demo(["bds/bds06"], '''	prev := float32(-1)
	for c := 1; c <= 124; c++ {
		d := []byte{5<<3 | byte(c>>4), byte(c << 4), 0, 0, 0, 0, 0}
		m, err := bds06.ReadSurfacePosition(d)
		check(err == nil, "%v", err)
		check(m.MovementSpeed >= prev, "code %d: %v after %v", c, m.MovementSpeed, prev)
		prev = m.MovementSpeed
		want := map[int]float32{12: 1.75, 38: 14.5, 39: 15, 93: 69, 94: 70, 108: 98, 109: 100, 123: 170, 124: 175}
		if w, ok := want[c]; ok {
			check(m.MovementSpeed == w, "code %d: %v kt, want %v", c, m.MovementSpeed, w)
		}
	}'''))

bug("s10-identification-fifth-character", "C09",
    [("pkg/bds/bds08/aircraft_identification_and_category.go", "	codes[5] = (data[4]&0x03)<<4 + (data[5]&0xF0)>>4", "	codes[5] = (data[4]<<4 | data[5]>>4) & 0x3F\n	if codes[4] == codes[5] && codes[4] == 0x20 {\n		// Padding: there is nothing more to decode\n		copy(codes[6:], codes[4:6])\n		data = append(data[:5:5], 0x08, 0x20)\n	}")],
    "an identification with two spaces in fifth and sixth place which goes on after them",
    "the seventh and eighth characters are lost",
    demo(["bds/bds08"], '''	d := []byte{4 << 3, 0x04, 0x20, 0x82, 0x82, 0x00, 0x41}
	m, err := bds08.ReadAircraftIdentificationAndCategory(d)
	check(err == nil, "%v", err)
	check(m.Identification[6:] == "AA", "%q", m.Identification)'''))

bug("s11-supersonic-speed-overflow", "C10",
    [("pkg/bds/bds09/airborne_velocity_ground_speed_supersonic.go", "	velocityEW := float64(message.VelocityEW)\n	velocityNS := float64(message.VelocityNS)\n\n	speed := math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS)",
      "	velocityEW := uint32(message.VelocityEW)\n	velocityNS := uint32(message.VelocityNS)\n\n	// The components are of 12 bits\n	speed := math.Sqrt(float64((velocityEW*velocityEW + velocityNS*velocityNS) & 0xFFFFFF))")],
    "supersonic velocity whose two components are both close to the maximum (above about 2900 kt each)",
    "the derived ground speed wraps around",
    demo(["bds/bds09"], '''	for ew := 1; ew < 1023; ew++ {
		ns := 1022
		d := []byte{19<<3 | 2, byte(ew >> 8), byte(ew), byte(ns >> 3), byte(ns<<5) & 0xE0, 0, 0}
		m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(d)
		check(err == nil, "%v", err)
		s, err := m.GetSpeed()
		check(err == nil, "%v", err)
		check(s >= uint32(m.VelocityNS), "components %v %v: speed %v", m.VelocityEW, m.VelocityNS, s)
	}'''))

bug("s12-status-padding", "C11",
    [("pkg/bds/bds61/aircraft_status_emergency.go", "	for i := uint(3); i < 7; i++ {\n		if data[i] != 0 {\n			return", "	for i := range data[3:6] {\n		if data[3+i] != 0 {\n			return")],
    "an emergency status whose last byte is not zero, all other reserved bytes being zero",
    "content which is not an emergency status is reported as one",
    demo(["bds/bds61"], '''	for bit := 24; bit < 56; bit++ {
		d := []byte{28<<3 | 1, 0x20, 0, 0, 0, 0, 0}
		d[bit/8] |= 0x80 >> uint(bit%8)
		m, err := bds61.ReadAircraftStatusEmergency(d)
		check(err != nil, "bit %d: %v", bit+1, m)
	}'''))

bug("s13-target-altitude-top", "C12",
    [("pkg/bds/bds62/fields/barometric_pressure_setting.go", "	if allByte == 0 {\n		return 0.0, NVSNoInformation\n	}", "	if byte(allByte) == 0 {\n		return 0.0, NVSNoInformation\n	}")],
    "a target state message whose 9-bit barometric setting is 256 (1004 hPa), an even but ordinary value",
    "the setting 1004.0 hPa is reported as not available",
    demo(["bds/bds62"], '''	for v := 1; v < 512; v++ {
		d := []byte{29<<3 | 2, 0, byte(v >> 5), byte(v << 3), 0, 0, 0}
		m, err := bds62.ReadTargetStateAndStatus1(d)
		check(err == nil, "%v", err)
		check(m.BarometricPressureSetting > 799, "setting %d: %v", v, m.BarometricPressureSetting)
	}'''))

bug("s14-antenna-offset", "C13",
    [("pkg/bds/bds65/fields/gps_antenna_lateral.go", "	bits := (data[4] & 0xE0) >> 5", "	bits := data[4] >> 5\n	if data[4]&0x1F == 0 {\n		// No longitudinal position: there is no data at all\n		bits &= 0x03\n	}")],
    "a surface operational status (version 2) with a lateral offset to the right and no longitudinal offset",
    "offsets to the right are reported as offsets to the left",
    demo(["bds/bds65"], '''	for v := 0; v < 8; v++ {
		d := []byte{31<<3 | 1, 0, 0, 0, byte(v << 5), 2 << 5, 0}
		m, err := bds65.ReadAircraftOperationalStatusSurfaceADSB2(d)
		check(err == nil, "%v", err)
		check(int(m.OperationalMode.GPSAntenna.GPSAntennaLateral) == v, "lateral offset %d: %v", v, m.OperationalMode.GPSAntenna.GPSAntennaLateral)
	}'''))

bug("s15-inference-stops-early", "C14",
    [("pkg/commb/reader.go", "	message, err = bds10.ReadDataLinkCapabilityReport(data)\n	if err == nil {", "	message, err = bds10.ReadDataLinkCapabilityReport(data)\n	if err == nil && message.CheckCoherency() == nil {\n		return []bds.Message{message}, nil\n	} else if err == nil {")],
    "content which is a coherent data link capability report and a GICB capability report as well",
    "the second interpretation is no longer returned",
    demo(["commb"], '''	ms, err := commb.ReadCommBMessage([]byte{0x10, 0, 0, 0, 0, 0, 0})
	check(err == nil, "%v", err)
	check(len(ms) == 3, "%d interpretations", len(ms))'''))

bug("s16-speed-difference", "C17",
    [("pkg/bds/bds50/track_and_turn_report.go", "	speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)\n	if (speedDifference < -200) || (speedDifference > 200) {",
      "	speedDifference := message.GroundSpeed - message.TrueAirSpeed\n	if speedDifference > 200 && speedDifference < 1<<31 {")],
    "a track and turn report whose true airspeed exceeds its ground speed by more than 200 kt",
    "such a report is taken for coherent",
    demo(["bds/bds50"], '''	m := bds50.TrackAndTurnReport{GroundSpeedStatus: true, GroundSpeed: 100, TrueAirSpeedStatus: true, TrueAirSpeed: 400}
	check(m.CheckCoherency() != nil, "100 kt over ground at 400 kt is coherent")
	m = bds50.TrackAndTurnReport{GroundSpeedStatus: true, GroundSpeed: 400, TrueAirSpeedStatus: true, TrueAirSpeed: 100}
	check(m.CheckCoherency() != nil, "400 kt over ground at 100 kt is coherent")'''))

bug("s17-hazard-temperature", "C16",
    [("pkg/bds/bds45/fields/static_air_temperature.go", "	temperature := float32(allBits) * 0.125\n\n	if (data[1] & 0x04) != 0 {", "	temperature := float32(allBits) * 0.125\n\n	if (data[1]&0x04) != 0 && allBits != 0 {")],
    "a hazard report whose temperature is the lowest one (sign bit set, all others clear)",
    "the temperature -128 degrees is reported as 0",
    demo(["f=bds/bds45/fields"], '''	s, t := f.ReadStaticAirTemperatureV1([]byte{0, 0x0C, 0, 0, 0, 0, 0})
	check(s && t == -128, "temperature %v", t)'''))

bug("s18-threat-without-altitude", "C18",
    [("pkg/acas/ra/resolution_advisory.go", "	} else if threatTypeIndicator == fields.ThreatTypeAltitudeRangeBearing {\n		var threatAltitude, err", "	} else if threatTypeIndicator == fields.ThreatTypeAltitudeRangeBearing && data[3]|data[4]|data[5] != 0 {\n		var threatAltitude, err")],
    "an advisory with a threat given by altitude, range and bearing, all of which are not available",
    "the threat's fields are missing instead of being reported as not available",
    demo(["acas/ra"], '''	m, err := ra.ReadResolutionAdvisory([]byte{0x80, 0, 0x08, 0, 0, 0})
	check(err == nil, "%v", err)
	check(m.ThreatIdentityAltitude != nil && m.ThreatIdentityRange != nil && m.ThreatIdentityBearing != nil, "threat identity missing: %s", m.ToString())'''))

CPR = '''
func mod(a, b float64) float64 { return a - b*math.Floor(a/b) }

func nl(lat float64) float64 {
	if math.Abs(lat) >= 87 {
		if math.Abs(lat) > 87 {
			return 1
		}
		return 2
	}
	if lat == 0 {
		return 59
	}
	return math.Floor(2 * math.Pi / math.Acos(1-(1-math.Cos(math.Pi/30))/math.Pow(math.Cos(math.Pi/180*math.Abs(lat)), 2)))
}

func enc(lat, lon, i, span float64) (uint32, uint32) {
	dlat := span / (60 - i)
	yz := math.Floor(131072*mod(lat, dlat)/dlat + 0.5)
	rlat := dlat * (yz/131072 + math.Floor(lat/dlat))
	dlon := span / math.Max(nl(rlat)-i, 1)
	xz := math.Floor(131072*mod(lon, dlon)/dlon + 0.5)
	return uint32(mod(yz, 131072)), uint32(mod(xz, 131072))
}
'''
bug("s19-polar-longitude", "C19",
    [("pkg/geo/cpr_airborne_global_position.go", "	nOdd := math.Max(numberLongitude-1, 1)\n", "	nOdd := numberLongitude - 1\n	if evenDataReceivedAfterOddData {\n		nOdd = math.Max(nOdd, 1)\n	}\n")],
    "a pair beyond 87 degrees of latitude whose odd message came last",
    "the longitude is not a number",
    demo(["geo", "math"], '''	for _, lat := range []float64{-89, -88, -60, 10, 60, 86, 88, 89} {
		a, b := enc(lat, 45, 0, 360)
		c, d := enc(lat, 45, 1, 360)
		la, lo, err := geo.GetCPRAirborneGlobalPosition(a, b, c, d, false)
		check(err == nil && math.Abs(la-lat) < 0.001 && math.Abs(lo-45) < 0.01, "latitude %v: %v %v %v", lat, la, lo, err)
	}''', CPR))

bug("s20-zone-of-the-reference", "C20",
    [("pkg/geo/cpr_airborne_local_position.go", "getNumberOfLongitude(latitude)-i", "getNumberOfLongitude(referenceLatitude)-i")],
    "a reference and a position on two sides of a latitude at which the number of longitude zones changes",
    "the longitude is wrong by up to a zone",
    demo(["geo", "math"], '''	for lat := -80.0; lat < 80; lat += 0.37 {
		for _, dl := range []float64{-1, 1} {
			a, b := enc(lat, 100, 1, 360)
			la, lo := geo.GetCPRAirborneLocalPosition(a, b, lat+dl, 100, true)
			check(math.Abs(la-lat) < 0.001 && math.Abs(lo-100) < 0.01, "%v decoded from %v: %v %v", lat, lat+dl, la, lo)
		}
	}''', CPR))

bug("s21-neighbour-zones", "C21",
    [("pkg/geo/cpr_surface_global_position.go", "	if numberLongitudeEven != numberLongitudeOdd {", "	if math.Abs(numberLongitudeEven-numberLongitudeOdd) > 1 {")],
    "a pair whose two messages lie on the two sides of a latitude at which the number of longitude zones changes",
    "a wrong longitude is given instead of an error",
    demo(["geo", "math"], '''	for lat := 10.4; lat < 10.5; lat += 0.0001 {
		a, b := enc(lat, 100, 0, 90)
		c, d := enc(lat+0.001, 100, 1, 90)
		la, lo, err := geo.GetCPRSurfaceGlobalPosition(a, b, c, d, true, 10, 100)
		check(err != nil || math.Abs(la-lat) < 0.001 && math.Abs(lo-100) < 0.01, "%v: %v %v %v", lat, la, lo, err)
	}''', CPR))

bug("s22-distance-by-cosines", "C22",
    [("pkg/geo/ground_distance.go", "	deltaPhi := (lat2 - lat1) * math.Pi / 180.0\n", "	deltaPhi := math.Remainder(lat2-lat1, 180) * math.Pi / 180.0\n")],
    "two points whose latitudes differ by more than 90 degrees",
    "points in opposite hemispheres are given as much closer than they are",
    demo(["geo", "math"], '''	d := geo.ComputeGroundDistance(50, 10, -50, 10)
	check(math.Abs(d-100*math.Pi/180*6371000) < 10, "50 N to 50 S: %v m", d)
	check(geo.ComputeGroundDistance(1, 2, 1, 2) == 0, "equal points")'''))

bug("s23-roll-label", "C23",
    [("pkg/bds/bds50/track_and_turn_report.go", "		message.TrueTrackAngleStatus,\n		message.TrueTrackAngle,\n		message.GroundSpeedStatus,\n		message.GroundSpeed,\n		message.TrackAngleRateStatus,",
      "		message.TrueTrackAngleStatus,\n		message.TrueTrackAngle,\n		message.TrackAngleRateStatus,\n		message.GroundSpeed,\n		message.GroundSpeedStatus,")],
    "a track and turn report in which ground speed is available and track angle rate is not, or the other way round",
    "the text shows the two statuses exchanged",
    demo(["bds/bds50", "strings"], '''	m := bds50.TrackAndTurnReport{GroundSpeedStatus: true, GroundSpeed: 100}
	for _, l := range strings.Split(m.ToString(), "\\n") {
		if strings.HasPrefix(l, "Ground Speed Status") {
			check(strings.HasSuffix(l, "true"), "%s", l)
		}
	}'''))

bug("s24-parity-in-place", "C24",
    [("pkg/modes/reader/crc.go", "	contentParity := computeParity(data[:messageLength-3])\n	messageParity := bitutils.Pack3Bytes(data[messageLength-3], data[messageLength-2], data[messageLength-1])\n\n	address",
      "	messageParity := bitutils.Pack3Bytes(data[messageLength-3], data[messageLength-2], data[messageLength-1])\n	content := data[:messageLength-3]\n	// Bits which follow the content count as zero\n	contentParity := computeParity(append(content, 0, 0, 0)[:messageLength-3])\n\n	address")],
    "a second call on the same buffer, or a look at the parity of the decoded frame",
    "the parity check overwrites the parity bytes of the caller's buffer: the next check gives another address",
    demo(["rd=modes/reader", "encoding/hex", "bytes"], '''	b, _ := hex.DecodeString("2A00516D492B80")
	o := append([]byte(nil), b...)
	m, err := rd.ReadMessage(b)
	check(err == nil, "%v", err)
	a1, _ := rd.CheckCRC(m, b, nil, nil)
	a2, _ := rd.CheckCRC(m, b, nil, nil)
	check(a1 == a2 && bytes.Equal(b, o), "first %v then %v, buffer %x", a1, a2, b)'''))

RACE = '''go build -race -o "$t/demo" . || exit 3
GORACE="halt_on_error=1 exitcode=66" "$t/demo"
'''
bug("s25-shared-parity-register", "C25",
    [("pkg/modes/reader/crc.go", "	// Initialize with the beginning of the message\n	crc := make([]byte, crcLength)\n", "	// Initialize with the beginning of the message\n	crc := crcRegister[:crcLength]\n"),
     ("pkg/modes/reader/crc.go", "// computeParity computes the parity of a slice", "// crcRegister is the shift register, which spares an allocation for each message\nvar crcRegister [4]uint8\n\n// computeParity computes the parity of a slice")],
    "two goroutines which check parities at the same time",
    "the two computations share a register: addresses are wrong and sound squitters are refused",
    demo(["rd=modes/reader", "encoding/hex", "sync"], '''	b, _ := hex.DecodeString("8D4840D6202CC371C32CE0576098")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				m, _ := rd.ReadMessage(b)
				_, err := rd.CheckCRC(m, b, nil, nil)
				check(err == nil, "%v", err)
			}
		}()
	}
	wg.Wait()'''), RACE)

bug("s26-text-cache", "C25",
    [("pkg/modes/fields/identity.go", "	return identity.Identity + special\n", "	if last.identity != identity.Identity {\n		last.identity = identity.Identity\n		last.text = identity.Identity + special\n	}\n	return last.text\n"),
     ("pkg/modes/fields/identity.go", "// ToString", "// last is the last text given, as an aircraft repeats its identity for a long time\nvar last struct{ identity, text string }\n\n// ToString")],
    "a goroutine which renders an identity while another one is between the two assignments",
    "a squawk is shown with the text of another one",
    demo(["ff=modes/fields", "sync"], '''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				id := ff.Identity{Identity: []string{"7700", "1234", "7600", "2000"}[(g+i)%4]}
				t := id.ToString()
				check(len(t) >= 4 && t[:4] == id.Identity, "%s shown as %s", id.Identity, t)
			}
		}(g)
	}
	wg.Wait()'''), RACE)

CLI = '''go build -o "$t/demo" . || exit 3
(cd "$repo" && GOFLAGS= go build -o "$t/cli" ./cmd) || exit 3
"$t/demo" "$t/cli" "$t"
'''
bug("s27-file-stops-at-empty-line", "C26",
    [("cmd/main.go", "	for scanner.Scan() {\n		result = append(result, scanner.Text())\n	}", "	for scanner.Scan() {\n		// Identical consecutive lines are repetitions of the same reception\n		if line := scanner.Text(); len(result) == 0 || result[len(result)-1] != line {\n			result = append(result, line)\n		}\n	}")],
    "a file with two consecutive identical lines",
    "the second line is not reported",
    demo(["os/exec", "strings", "path/filepath"], '''	f := filepath.Join(os.Args[2], "in.txt")
	l := "8D4840D6202CC371C32CE0576098\\n"
	os.WriteFile(f, []byte(l+"zz\\n"+l+l), 0o600)
	out, err := exec.Command(os.Args[1], "-file", f).Output()
	check(err == nil, "%v", err)
	check(strings.Count(string(out), "Reading: ") == 4, "%d reports for 4 lines", strings.Count(string(out), "Reading: "))'''), CLI)

bug("s28-long-line", "C26",
    [("cmd/main.go", "	scanner := bufio.NewScanner(file)\n", "	scanner := bufio.NewScanner(bufio.NewReaderSize(file, 64*1024))\n	scanner.Buffer(make([]byte, 0, 4096), 16*1024)\n")],
    "a file with a line longer than 16 KB",
    "the program ends with an error and reports no line at all",
    demo(["os/exec", "strings", "path/filepath"], '''	f := filepath.Join(os.Args[2], "in.txt")
	l := "8D4840D6202CC371C32CE0576098\\n"
	os.WriteFile(f, []byte(l+strings.Repeat("00", 10000)+"\\n"+l), 0o600)
	out, err := exec.Command(os.Args[1], "-file", f).Output()
	check(err == nil, "%v", err)
	check(strings.Count(string(out), "Reading: ") == 3, "%d reports for 3 lines", strings.Count(string(out), "Reading: "))'''), CLI)

bug("s29-short-advisory", "C27",
    [("pkg/acas/ra/resolution_advisory.go", "	if len(data) != 6 {", "	// The threat data can be missing when there is no threat\n	if len(data) > 6 || len(data) < 3 {")],
    "an advisory of 3 to 5 bytes given directly to its reader, whose threat type announces a threat",
    "the reader panics",
    demo(["acas/ra"], '''	for n := 0; n < 10; n++ {
		for t := 0; t < 4; t++ {
			b := make([]byte, n)
			if n > 2 {
				b[2] = byte(t << 2)
			}
			func() {
				defer func() { check(recover() == nil, "panic for %d bytes", n) }()
				m, err := ra.ReadResolutionAdvisory(b)
				if err == nil {
					m.ToString()
				}
			}()
		}
	}'''))

bug("s30-sub-address-statuses", "C15",
    [("pkg/bds/bds10/fields/dte_sub_address_statuses.go", "	return DTESubAddressStatuses(bitutils.Pack2Bytes(data[5], data[6]))", "	statuses := DTESubAddressStatuses(bitutils.Pack2Bytes(data[5], data[6]))\n	if statuses == 0xFFFF {\n		// Not programmed\n		return 0\n	}\n	return statuses")],
    "a data link capability report in which all sixteen sub-addresses are supported",
    "they are reported as not supported",
    demo(["bds/bds10"], '''	for v := 0; v < 65536; v++ {
		m, err := bds10.ReadDataLinkCapabilityReport([]byte{0x10, 0, 0, 0, 0, byte(v >> 8), byte(v)})
		check(err == nil, "%v", err)
		check(int(m.DTESubAddressStatuses) == v, "%04x: %04x", v, int(m.DTESubAddressStatuses))
	}'''))

bug("s31-trailing-zeros", "C02",
    [("pkg/modes/reader/crc.go", "	for i := 0; i < len(data)*8; i++ {\n", "	length := len(data)\n	for length > 2*crcLength+2 && data[length-1] == 0 {\n		// Padding does not take part in the parity\n		length--\n	}\n	for i := 0; i < length*8; i++ {\n")],
    "a long frame whose content ends in a zero byte",
    "the address of such a frame is wrong, and a sound squitter which ends in a zero byte is refused",
    demo(["rd=modes/reader"], '''	for last := 0; last < 256; last++ {
		b := []byte{0x8D, 0x48, 0x40, 0xD6, 0x20, 0x2C, 0xC3, 0x71, 0xC3, 0x2C, byte(last), 0, 0, 0}
		crc := uint32(0)
		for _, x := range b[:11] {
			crc ^= uint32(x) << 16
			for k := 0; k < 8; k++ {
				crc <<= 1
				if crc&0x1000000 != 0 {
					crc ^= 0x1FFF409
				}
			}
		}
		b[11], b[12], b[13] = byte(crc>>16), byte(crc>>8), byte(crc)
		m, err := rd.ReadMessage(b)
		check(err == nil, "%v", err)
		a, err := rd.CheckCRC(m, b, nil, nil)
		check(err == nil && a == 0x4840D6, "%x: %v %v", b, a, err)
	}'''))

bug("s32-blank-identification", "C09",
    [("pkg/bds/bds08/aircraft_identification_and_category.go", "	return &AircraftIdentificationAndCategory{\n		FormatTypeCode: formatTypeCode,\n		Category:       category,\n		Identification: string(chars),\n", "	identification := string(chars)\n	if strings.TrimSpace(identification) == \"\" {\n		// No identification entered by the crew\n		identification = \"\"\n	}\n\n	return &AircraftIdentificationAndCategory{\n		FormatTypeCode: formatTypeCode,\n		Category:       category,\n		Identification: identification,\n")],
    "an identification which consists of eight spaces",
    "it is reported as empty, not as the eight transmitted characters",
    demo(["bds/bds08"], '''	m, err := bds08.ReadAircraftIdentificationAndCategory([]byte{0x20, 0x82, 0x08, 0x20, 0x82, 0x08, 0x20})
	check(err == nil && m.Identification == "        ", "%q", m.Identification)'''))

bug("s33-diagonal-track", "C10",
    [("pkg/bds/bds09/airborne_velocity_ground_speed_supersonic.go", "	trackRadian := math.Atan2(velocityEW, velocityNS)", "	trackRadian := math.Pi / 4\n	if velocityEW != velocityNS {\n		trackRadian = math.Atan2(velocityEW, velocityNS)\n	}")],
    "a supersonic aircraft with equal components to the west and to the south",
    "its track is reported as north east",
    demo(["bds/bds09"], '''	for v := 2; v < 1023; v++ {
		b := []byte{0x9A, byte(4 | v>>8), byte(v), byte(0x80 | v>>3), byte(v << 5), 0, 0}
		m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(b)
		check(err == nil, "%v", err)
		t, err := m.GetTrack()
		check(err == nil && t > 224.99 && t < 225.01, "%x: %v", b, t)
	}'''))

bug("s34-heading-of-the-south", "C12",
    [("pkg/bds/bds62/fields/selected_heading.go", "	if negative {\n", "	if negative && heading != 0 {\n")],
    "a selected heading of exactly minus 180 degrees",
    "it is reported as north",
    demo(["bds/bds62"], '''	for v := 0; v < 512; v++ {
		b := []byte{0xEA, 0, 0, byte(4 | v>>8<<1 | v>>7&1), byte(v << 1), 0, 0}
		m, err := bds62.ReadTargetStateAndStatus1(b)
		check(err == nil, "%v", err)
		w := float32(v)
		if v > 255 {
			w -= 512
		}
		check(m.SelectedHeading == w*180/256, "%d: %v", v, m.SelectedHeading)
	}'''))

bug("s35-two-weather-reports", "C14",
    [("pkg/commb/reader.go", "	for _, message := range messages {\n		if message.CheckCoherency() == nil {", "	for _, message := range messages {\n		// Only one of the two motion reports can be right, and there is more in favour of the track\n		n := len(coherentMessages)\n		redundant := n > 1 && message.GetRegister() == register.BDS60 && coherentMessages[n-1].GetRegister() == register.BDS50\n		if !redundant && message.CheckCoherency() == nil {"),
     ("pkg/commb/reader.go", '	"github.com/twuillemin/modes/pkg/bds/bds60"\n', '	"github.com/twuillemin/modes/pkg/bds/bds60"\n	"github.com/twuillemin/modes/pkg/bds/register"\n')],
    "a content which is compatible with both motion reports and with another register before them",
    "the second motion report is missing from the answer",
    demo(["commb", "bds/bds60", "bds/register"], '''	n := 0
	for a := 0; a < 1<<18; a++ {
		// sparse contents
		b := make([]byte, 7)
		for i, p := range []uint{0, 1, 2, 5, 8, 11, 12, 14, 20, 23, 24, 26, 27, 34, 35, 45, 46, 55} {
			if a>>uint(i)&1 != 0 {
				b[p/8] |= 0x80 >> (p % 8)
			}
		}
		if b[0] == 0x20 || b[0]&0x1F == 0 && b[1]|b[2]|b[3]|b[4]|b[5]|b[6] == 0 {
			continue
		}
		m, err := bds60.ReadHeadingAndSpeedReport(b)
		ok := err == nil && m.CheckCoherency() == nil
		l, _ := commb.ReadCommBMessage(b)
		if len(l) == 0 || len(l) == 1 && l[0].GetRegister() != register.BDS60 && !ok {
			continue
		}
		has := false
		for _, x := range l {
			has = has || x.GetRegister() == register.BDS60
		}
		check(has == ok, "%x: heading and speed %v, answer has %v", b, ok, has)
		n++
	}
	check(n > 0, "nothing compared")'''))

bug("s36-crossing-reversal", "C18",
    [("pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go", "	if (data[0] & 0x04) != 0 {\n", "	if (data[0]&0x04) != 0 && !(isSenseReversal && isIncreasedRate && preventiveCorrective == ActiveRAPreventive) {\n")],
    "a preventive advisory which reverses the sense, increases the rate and crosses the altitude of the threat",
    "the crossing is not reported",
    demo(["acas/ra", "acas/ra/fields"], '''	for v := 0; v < 128; v++ {
		m, err := ra.ReadResolutionAdvisory([]byte{byte(0x80 | v), 0, 0, 0, 0, 0})
		check(err == nil, "%v", err)
		one, ok := m.ActiveRA.(*fields.ActiveRAOneThreatOrSameSeparation)
		check(ok && one.IsAltitudeCrossing == (v&4 != 0), "%02x", v)
	}'''))

bug("s37-reference-beyond-the-meridian", "C21",
    [("pkg/geo/cpr_surface_global_position.go", "	longitude := longitudesCorrected[minIndex]\n", "	longitude := longitudesCorrected[minIndex]\n	if math.Abs(referenceLongitude-longitude) > 359.9 {\n		// Stay on the side of the reference\n		longitude = longitudes[(minIndex+2)%4]\n	}\n"),
     ("pkg/geo/cpr_surface_global_position.go", "	for i, distance := range distancesToRef {\n		if distance < smallestDistance {\n", "	for i, distance := range distancesToRef {\n		if smallestDistance > distance {\n")],
    "a reference and an aircraft on both sides of the antimeridian, less than a tenth of a degree from each other",
    "the aircraft is located in another quadrant",
    demo(["geo", "math"], '''	for _, lon := range []float64{-179.99, -179.5, -175, 175, 179.99, 10} {
		lat := -40.0
		enc := func(v, d float64) uint32 {
			x := math.Floor((v/d-math.Floor(v/d))*131072 + 0.5)
			return uint32(x) & 0x1FFFF
		}
		// 45 longitude zones at this latitude
		e1, e2 := enc(lat, 1.5), enc(lon, 90.0/45)
		o1, o2 := enc(lat, 90.0/59), enc(lon, 90.0/44)
		ref := lon + 0.05
		if ref > 180 {
			ref -= 360
		}
		if lon == -179.99 {
			ref = 179.99
		}
		a, b, err := geo.GetCPRSurfaceGlobalPosition(e1, e2, o1, o2, true, lat+0.2, ref)
		check(err == nil && math.Abs(a-lat) < 1e-3 && math.Abs(b-lon) < 1e-3, "%v: %v %v %v", lon, a, b, err)
	}'''))

bug("s38-next-to-the-antimeridian", "C20",
    [("pkg/geo/cpr_airborne_local_position.go", "	longitude := dLon * (m + lonCPR)\n", "	zones := m + lonCPR\n	if latitude < 0 && zones < 0 && zones > -0.25 {\n		zones = -zones\n	}\n	longitude := dLon * zones\n")],
    "a position south of the equator and less than a quarter of a zone west of Greenwich",
    "it is reported on the other side of the meridian",
    demo(["geo", "math"], '''	for _, lon := range []float64{-3, -1.2, -0.5, 0.5, 20} {
		lat := -10.0
		enc := func(v, d float64) uint32 {
			x := math.Floor((v/d-math.Floor(v/d))*131072 + 0.5)
			return uint32(x) & 0x1FFFF
		}
		a, b := geo.GetCPRAirborneLocalPosition(enc(lat, 6), enc(lon, 360.0/59), lat+0.1, lon+0.1, false)
		check(math.Abs(a-lat) < 1e-3 && math.Abs(b-lon) < 1e-3, "%v: %v %v", lon, a, b)
	}'''))

bug("s39-hash-of-the-content", "C24",
    [("pkg/bds/bds20/aircraft_identification.go", "	return &AircraftIdentification{\n		Identification: string(chars),\n	}, nil", "	key := uint32(0)\n	for _, b := range data {\n		key = (key ^ uint32(b)) * 16777619 & 0xFFFF\n	}\n	lock.Lock()\n	defer lock.Unlock()\n	if _, ok := known[key]; !ok {\n		known[key] = string(chars)\n	}\n\n	return &AircraftIdentification{\n		Identification: known[key],\n	}, nil"),
     ("pkg/bds/bds20/aircraft_identification.go", "// ReadAircraftIdentification reads", "// known keeps one copy of each identification\nvar (\n	lock  sync.Mutex\n	known = map[uint32]string{}\n)\n\n// ReadAircraftIdentification reads"),
     ("pkg/bds/bds20/aircraft_identification.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
    "two identifications whose contents have the same 16-bit hash, one after the other",
    "the second aircraft is reported with the identification of the first one",
    demo(["bds/bds20"], '''	const letters = " ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	for v := 0; v < 20000; v++ {
		n := uint64(v)
		x := uint64(0)
		w := ""
		for i := 0; i < 8; i++ {
			k := int(n % 27)
			n /= 27
			c := uint64(k)
			if k == 0 {
				c = 32
			}
			x = x<<6 | c
			w += letters[k : k+1]
		}
		m, err := bds20.ReadAircraftIdentification([]byte{0x20, byte(x >> 40), byte(x >> 32), byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
		check(err == nil && m.Identification == w, "%q: %q", w, m.Identification)
	}'''))

bug("s40-table-half-filled", "C25",
    [("pkg/bds/bds06/fields/movement.go", "	return status.getSpeed(), status\n", "	// The speeds are computed once\n	if !speedsKnown {\n		speedsLock.Lock()\n		if !speedsKnown {\n			speedsKnown = true\n			for i := range speeds {\n				speeds[i] = MovementStatus(i).getSpeed()\n			}\n		}\n		speedsLock.Unlock()\n	}\n	return speeds[bits], status\n"),
     ("pkg/bds/bds06/fields/movement.go", "// ReadMovement reads", "var (\n	speedsLock  sync.Mutex\n	speedsKnown bool\n	speeds      [128]float32\n)\n\n// ReadMovement reads"),
     ("pkg/bds/bds06/fields/movement.go", 'import "fmt"\n', 'import (\n	"fmt"\n	"sync"\n)\n')],
    "a second goroutine which reads a surface position while the first one fills the table of speeds",
    "a moving aircraft is reported as stopped",
    demo(["bds/bds06", "sync"], '''	var wg sync.WaitGroup
	want := float32(135)
	start := make(chan bool)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			m, err := bds06.ReadSurfacePosition([]byte{0x3F, 0x4B, 0, 0, 0, 0, 0})
			check(err == nil && m.MovementSpeed == want, "%v", m.MovementSpeed)
		}()
	}
	close(start)
	wg.Wait()'''), RACE)

bug("s41-large-file", "C26",
    [("cmd/main.go", "	scanner := bufio.NewScanner(file)\n", "	// One block is enough\n	block := make([]byte, 128*1024)\n	size, _ := file.Read(block)\n	scanner := bufio.NewScanner(bytes.NewReader(block[:size]))\n"),
     ("cmd/main.go", '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
    "a file of more than 128 KB",
    "the lines behind the first block are not reported, or cut",
    demo(["os/exec", "strings", "path/filepath"], '''	f := filepath.Join(os.Args[2], "in.txt")
	os.WriteFile(f, []byte(strings.Repeat("8D4840D6202CC371C32CE0576098\\n", 6000)), 0o600)
	out, err := exec.Command(os.Args[1], "-file", f).Output()
	check(err == nil, "%v", err)
	n := strings.Count(string(out), "Reading: ")
	check(n == 6000, "%d reports for 6000 lines", n)'''), CLI)

bug("s42-version-from-the-status", "C26",
    [("cmd/main.go", "	messageADSB, errADSB := reader.ReadADSBMessage(adsbVersion, false, false, data)\n", "	// An aircraft which announces its version is read accordingly\n	if data[0]>>3 == 31 && data[0]&0x07 < 2 {\n		announced = adsb.ADSBVersion(data[5] >> 5)\n	}\n	version := adsbVersion\n	if data[0]>>3 > 8 && data[0]>>3 < 19 && announced > version {\n		version = announced\n	}\n	messageADSB, errADSB := reader.ReadADSBMessage(version, false, false, data)\n"),
     ("cmd/main.go", "func processADSBMessage(", "var announced adsb.ADSBVersion\n\nfunc processADSBMessage(")],
    "an operational status of version 2 before an airborne position in one file, with reader level 0",
    "the position is read at another level than the requested one",
    demo(["os/exec", "path/filepath", "strings", "encoding/hex"], '''	seal := func(me string) string {
		m, _ := hex.DecodeString(me)
		b := append(append([]byte{0x8D, 0x48, 0x40, 0xD6}, m...), 0, 0, 0)
		crc := uint32(0)
		for _, x := range b[:11] {
			crc ^= uint32(x) << 16
			for k := 0; k < 8; k++ {
				crc <<= 1
				if crc&0x1000000 != 0 {
					crc ^= 0x1FFF409
				}
			}
		}
		b[11], b[12], b[13] = byte(crc>>16), byte(crc>>8), byte(crc)
		return strings.ToUpper(hex.EncodeToString(b))
	}
	run := func(lines ...string) string {
		f := filepath.Join(os.Args[2], "in.txt")
		os.WriteFile(f, []byte(strings.Join(lines, "\\n")), 0o600)
		out, err := exec.Command(os.Args[1], "-file", f).Output()
		check(err == nil, "%v", err)
		return string(out)
	}
	a, b := seal("F8000000004000"), seal("58C382D690C8AC")
	check(run(a, b) == run(a)+run(b), "two lines are not reported as each one alone")'''), CLI)

bug("s43-endless-normalisation", "C27",
    [("pkg/geo/cpr_airborne_local_position.go", "	longitude := dLon * (m + lonCPR)\n", "	longitude := (m + lonCPR) * dLon\n	for longitude > 540 {\n		longitude -= 360\n	}\n")],
    "a reference longitude beyond 1e18, or infinite",
    "the function never returns",
    demo(["geo", "math", "time"], '''	done := make(chan bool)
	go func() {
		for _, r := range []float64{0, 500, -1e19, 1e300, math.Inf(1), math.NaN()} {
			geo.GetCPRAirborneLocalPosition(1, 2, 3, r, true)
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		check(false, "no answer after five seconds")
	}'''))

bug("s44-antenna-on-the-axis", "C13",
    [("pkg/bds/bds65/fields/gps_antenna_longitudinal.go", "	bits := data[4] & 0x1F\n	return GPSAntennaLongitudinal(bits)\n", "	if data[4] > 0x9D && data[4] < 0xA0 {\n		// No aircraft is that long\n		return GLONNoData\n	}\n	return GPSAntennaLongitudinal(data[4] & 0x1F)\n")],
    "an antenna on the axis (lateral code 4) and 58 m or more behind the nose",
    "the longitudinal offset is reported as no data",
    demo(["bds/bds65/fields"], '''	for v := 0; v < 256; v++ {
		b := []byte{0xF9, 0, 0, 0, byte(v), 0x40, 0}
		check(int(fields.ReadGPSAntennaLongitudinal(b)) == v&31, "%02x", v)
	}'''))

bug("s45-zero-feet", "C04",
    [("pkg/modes/fields/altitude_code.go", "		altitude := 25*int32(n) - 1000\n", "		altitude := 25*(int32(n)%0x7FF) - 1000\n")],
    "the highest 25-foot altitude, 50175 ft",
    "it is reported as -1000 ft",
    demo(["rd=modes/reader", "ms=modes/messages"], '''	for n := 0; n < 2048; n++ {
		c := n>>5<<7 | n>>4&1<<5 | 0x10 | n&15
		m, err := rd.ReadMessage([]byte{0x20, 0, byte(c >> 8), byte(c), 0, 0, 0})
		check(err == nil, "%v", err)
		a := m.(*ms.MessageDF4)
		check(int(a.Altitude) == 25*n-1000 && a.AltitudeReportMethod == 4, "%d: %d", 25*n-1000, a.Altitude)
	}'''))

# ---- third batch

TRANSITIONS = """10.47047130 14.82817437 18.18626357 21.02939493 23.54504487 25.82924707 27.93898710 29.91135686 31.77209708
33.53993436 35.22899598 36.85025108 38.41241892 39.92256684 41.38651832 42.80914012 44.19454951 45.54626723 46.86733252 48.16039128
49.42776439 50.67150166 51.89342469 53.09516153 54.27817472 55.44378444 56.59318756 57.72747354 58.84763776 59.95459277 61.04917774
62.13216659 63.20427479 64.26616523 65.31845310 66.36171008 67.39646774 68.42322022 69.44242631 70.45451075 71.45986473 72.45884545
73.45177442 74.43893416 75.42056257 76.39684391 77.36789461 78.33374083 79.29428225 80.24923213 81.19801349 82.13956981 83.07199445
83.99173563 84.89166191 85.75541621 86.53536998 87.00000000""".split()

def nl_table(old, new):
    t = [new if x == old else x for x in TRANSITIONS]
    assert len(t) == 58 and new in t
    rows = "".join("	" + ", ".join(t[i:i + 8]) + ",\n" for i in range(0, 58, 8))
    return [("pkg/geo/cpr_common.go", "	a := 1 - math.Cos(math.Pi/(2*Nz))\n	b := math.Pow(math.Cos(math.Pi/180.0*math.Abs(lat)), 2.0)\n	nl := 2 * math.Pi / (math.Acos(1 - a/b))\n\n	return math.Floor(nl)\n",
             "	nl := 59.0\n	for _, transition := range transitions {\n		if math.Abs(lat) < transition {\n			break\n		}\n		nl--\n	}\n\n	return nl\n"),
            ("pkg/geo/cpr_common.go", "import \"math\"\n", "import \"math\"\n\n// transitions are the latitudes above which there is one zone less\nvar transitions = [...]float64{\n" + rows + "}\n")]

NLOF = '''
func nlOf(lat float64) float64 {
	a := 1 - math.Cos(math.Pi/30)
	b := math.Pow(math.Cos(math.Pi/180*math.Abs(lat)), 2)
	return math.Floor(2 * math.Pi / math.Acos(1-a/b))
}

func enc(lat, lon float64, odd, turn float64) (uint32, uint32) {
	f := func(v, d float64) float64 { return math.Floor((v/d-math.Floor(v/d))*131072 + 0.5) }
	d := turn / (60 - odd)
	y := f(lat, d)
	r := d * (y/131072 + math.Floor(lat/d))
	x := f(lon, turn/math.Max(nlOf(r)-odd, 1))
	return uint32(y) & 0x1FFFF, uint32(x) & 0x1FFFF
}
'''

bug("s46-table-of-zones", "C19", nl_table("55.44378444", "55.44387444"),
    "a pair whose latitude is within ten metres of the transition from 34 to 33 zones",
    "the longitude is wrong by several degrees",
    demo(["geo", "math"], '''	for lat := 55.4432; lat < 55.4444; lat += 0.000002 {
		lon := 50.123
		a, b := enc(lat, lon, 0, 360)
		c, d := enc(lat, lon, 1, 360)
		for _, even := range []bool{false, true} {
			x, y, err := geo.GetCPRAirborneGlobalPosition(a, b, c, d, even)
			check(err != nil || math.Abs(x-lat) < 1e-3 && math.Abs(y-lon) < 2e-2, "%v: %v %v", lat, x, y)
		}
	}''', NLOF))

bug("s47-rounded-table-of-zones", "C20", nl_table("70.45451075", "70.45453075"),
    "a surface report within three metres of the transition from 20 to 19 zones",
    "the longitude is wrong by up to a zone",
    demo(["geo", "math"], '''	for lat := 70.4540; lat < 70.4550; lat += 0.000001 {
		lon := 25.4
		for odd := 0; odd < 2; odd++ {
			a, b := enc(lat, lon, float64(odd), 90)
			x, y := geo.GetCPRSurfaceLocalPosition(a, b, lat+0.01, lon+0.01, odd == 1)
			check(math.Abs(x-lat) < 1e-3 && math.Abs(y-lon) < 1e-2, "%v: %v %v", lat, x, y)
		}
	}''', NLOF))

bug("s48-single-precision-difference", "C22",
    [("pkg/geo/ground_distance.go", "	deltaLambda := (long2 - long1) * math.Pi / 180.0\n", "	// One position is enough for all the meridians\n	delta := float32(long1) - float32(long2)\n	deltaLambda := float64(delta) * math.Pi / 180.0\n")],
    "two positions which are close to each other",
    "the distance is wrong by up to several metres, also for metres",
    demo(["geo", "math"], '''	for _, lon := range []float64{0.1, 100.00001, 151.2, 179.123456} {
		d := geo.ComputeGroundDistance(0, lon, 0, lon+1e-5)
		check(math.Abs(d-1.11195) < 0.01, "%v: %v", lon, d)
	}'''))

bug("s49-at-most-four", "C14",
    [("pkg/commb/reader.go", "	coherentMessages := make([]bds.Message, 0, len(messages))\n", "	// Five formats are never possible together\n	coherentMessages := make([]bds.Message, 0, 4)\n"),
     ("pkg/commb/reader.go", "		if message.CheckCoherency() == nil {\n			coherentMessages", "		if len(coherentMessages) < cap(coherentMessages) && message.CheckCoherency() == nil {\n			coherentMessages")],
    "a content which is compatible with five registers",
    "the last interpretation is missing",
    demo(["commb"], '''	m, err := commb.ReadCommBMessage([]byte{0x80, 0x40, 0, 0, 0, 0, 0})
	check(err == nil && len(m) == 5, "%d interpretations", len(m))'''))

bug("s50-characters-beyond-the-content", "C24",
    [("pkg/bds/bds08/aircraft_identification_and_category.go", "	codes[0] = (data[1] & 0xFC) >> 2\n	codes[1] = (data[1]&0x03)<<4 + (data[2]&0xF0)>>4\n	codes[2] = (data[2]&0x0F)<<2 + (data[3]&0xC0)>>6\n	codes[3] = data[3] & 0x3F\n	codes[4] = (data[4] & 0xFC) >> 2\n	codes[5] = (data[4]&0x03)<<4 + (data[5]&0xF0)>>4\n	codes[6] = (data[5]&0x0F)<<2 + (data[6]&0xC0)>>6\n	codes[7] = data[6] & 0x3F\n",
      "	all := binary.BigEndian.Uint64(append(data, 0)) << 8\n	for i := range codes {\n		codes[i] = byte(all >> 58)\n		all <<= 6\n	}\n"),
     ("pkg/bds/bds08/aircraft_identification_and_category.go", 'import (\n', 'import (\n	"encoding/binary"\n')],
    "the identification read from the bytes 4 to 10 of a frame (a part of the frame's buffer) before the parity of the frame is checked",
    "the first byte of the parity in the caller's buffer is overwritten, a sound frame is refused",
    demo(["rd=modes/reader", "ar=adsb/reader", "adsb", "encoding/hex"], '''	b, _ := hex.DecodeString("8D4840D6202CC371C32CE0576098")
	m, err := rd.ReadMessage(b)
	check(err == nil, "%v", err)
	_, err = ar.ReadADSBMessage(adsb.ADSBV2, false, false, b[4:11])
	check(err == nil, "%v", err)
	_, err = rd.CheckCRC(m, b, nil, nil)
	check(err == nil, "%v", err)'''))

bug("s51-pooled-text", "C25",
    [("pkg/common/printable.go", "	newLines := make([]string, len(subLines))\n\n	for i, line := range subLines {\n		newLines[i] = prefix + line\n	}\n\n	return strings.Join(newLines, \"\\n\")\n",
      "	text := texts.Get().(*bytes.Buffer)\n	defer texts.Put(text)\n	text.Reset()\n\n	for i, line := range subLines {\n		if i > 0 {\n			text.WriteByte('\\n')\n		}\n		text.WriteString(prefix)\n		text.WriteString(line)\n	}\n\n	content := text.Bytes()\n	return *(*string)(unsafe.Pointer(&content))\n"),
     ("pkg/common/printable.go", 'import "strings"\n', 'import (\n	"bytes"\n	"strings"\n	"sync"\n	"unsafe"\n)\n'),
     ("pkg/common/printable.go", "func PrefixMultiLine(", "var texts = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc PrefixMultiLine(")],
    "two texts which are made at the same time, or one behind the other while the first one is in use",
    "a text shows the content of another message",
    demo(["common", "sync", "strings"], '''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(c string) {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				t := common.PrefixMultiLine(c+"\\n"+c, "> ")
				u := strings.Clone(t)
				check(u == "> "+c+"\\n> "+c && t == u, "%q", t)
			}
		}(strings.Repeat(string(rune('a'+g)), 5+g))
	}
	wg.Wait()
	a := common.PrefixMultiLine("a", "> ")
	common.PrefixMultiLine("b", "> ")
	check(a == "> a", "%q", a)'''))

bug("s52-last-line", "C26",
    [("cmd/main.go", "	scanner := bufio.NewScanner(file)\n	for scanner.Scan() {\n		result = append(result, scanner.Text())\n	}\n\n	if err = scanner.Err(); err != nil {\n		log.Fatal(err)\n	}\n\n	return result\n",
      "	// Lines of any length\n	lines := bufio.NewReader(file)\n	for {\n		line, err := lines.ReadString('\\n')\n		if err == io.EOF {\n			return result\n		}\n		if err != nil {\n			log.Fatal(err)\n		}\n		result = append(result, strings.TrimRight(line, \"\\r\\n\"))\n	}\n"),
     ("cmd/main.go", '	"fmt"\n	"log"\n	"os"\n', '	"fmt"\n	"io"\n	"log"\n	"os"\n	"strings"\n')],
    "a file whose last line has no end of line",
    "the last line is not reported",
    demo(["os/exec", "strings", "path/filepath"], '''	f := filepath.Join(os.Args[2], "in.txt")
	os.WriteFile(f, []byte("8D4840D6202CC371C32CE0576098\\n8D4840D6202CC371C32CE0576098"), 0o600)
	out, err := exec.Command(os.Args[1], "-file", f).Output()
	check(err == nil && strings.Count(string(out), "Reading: ") == 2, "%s %v", out, err)'''), CLI)

bug("s53-blank-callsign", "C27",
    [("pkg/bds/bds08/aircraft_identification_and_category.go", "		message.Category.ToString(),\n		message.Identification)\n", "		message.Category.ToString(),\n		strings.TrimRight(message.Identification, \" \")+strings.Repeat(\" \", 8-len(strings.Fields(message.Identification)[0])))\n")],
    "the text of an identification of eight blanks",
    "the program panics",
    demo(["bds/bds08"], '''	m, err := bds08.ReadAircraftIdentificationAndCategory([]byte{0x20, 0x82, 0x08, 0x20, 0x82, 0x08, 0x20})
	check(err == nil && m.ToString() != "", "%v", err)
	m, err = bds08.ReadAircraftIdentificationAndCategory([]byte{0x20, 0x04, 0x20, 0xC4, 0x14, 0x61, 0xC8})
	check(err == nil && m.ToString() != "", "%v", err)'''))

bug("s54-mach-digits", "C23",
    [("pkg/bds/bds60/heading_and_speed_report.go", "		message.Mach,\n", "		fmt.Sprintf(\"%.3g\", message.Mach),\n")],
    "a Mach number above 1",
    "the text rounds the value to hundredths: 1.004 reads 1",
    demo(["bds/bds60", "strings", "fmt"], '''	for v := 0; v < 1024; v++ {
		m, err := bds60.ReadHeadingAndSpeedReport([]byte{0, 0, 1, byte(v >> 2), byte(v << 6), 0, 0})
		check(err == nil, "%v", err)
		check(strings.Contains(m.ToString(), fmt.Sprintf(" %v\\n", m.Mach)), "%v: %s", m.Mach, m.ToString())
	}'''))

bug("s55-single-precision-speed", "C10",
    [("pkg/bds/bds09/airborne_velocity_ground_speed_supersonic.go", "	speed := math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS)\n\n	return uint32(speed), nil\n", "	speed := float32(math.Sqrt(velocityEW*velocityEW + velocityNS*velocityNS))\n\n	return uint32(speed), nil\n")],
    "two supersonic components whose sum of squares is one below an odd square above 3000",
    "the speed is one knot too high",
    demo(["bds/bds09", "math"], '''	for e := 1; e < 1023; e++ {
		for n := 1; n < 1023; n++ {
			m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic([]byte{19<<3 | 2, byte(e >> 8), byte(e), byte(n >> 3), byte(n << 5), 0, 0})
			check(err == nil, "%v", err)
			s, err := m.GetSpeed()
			x, y := float64(4*(e-1)), float64(4*(n-1))
			check(err == nil && s == uint32(math.Sqrt(x*x+y*y)), "%v %v: %v", x, y, s)
		}
	}'''))

bug("s56-speed-at-altitude", "C17",
    [("pkg/bds/bds60/heading_and_speed_report.go", "	if message.IndicatedAirSpeed > 500 {\n", "	if message.IndicatedAirSpeed > 500 || message.IndicatedAirSpeed > 420 && message.Mach >= 0.4 && message.Mach < 0.5 {\n")],
    "a report with a Mach number of 0.4 to 0.5 together with an indicated airspeed of 420 to 500 knots",
    "the report is taken for incoherent",
    demo(["bds/bds60"], '''	for _, ias := range []int{100, 300, 450, 500} {
		for _, mach := range []int{50, 110, 200} {
			m, err := bds60.ReadHeadingAndSpeedReport([]byte{0, 8 | byte(ias>>7&7), byte(ias<<1) | 1, byte(mach >> 2), byte(mach << 6), 0, 0})
			check(err == nil && m.CheckCoherency() == nil, "%v %v: %v", ias, mach, m.CheckCoherency())
		}
	}'''))

bug("s57-padded-replies", "C01",
    [("pkg/modes/reader/reader.go", "	if len(message) != 7 && len(message) != 14 {\n		return nil, errors.New(\"a Mode S message must be 7 or 14 bytes long\")\n	}\n", "	if length := len(message); length != 7 && length != 14 {\n		return nil, errors.New(\"a Mode S message must be 7 or 14 bytes long\")\n	} else if message[0]&0x80 == 0 && strings.HasSuffix(string(message), \"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\") {\n		// Some receivers pad the short replies\n		message = message[:7]\n	}\n"),
     ("pkg/modes/reader/reader.go", '	"github.com/twuillemin/modes/pkg/modes/messages"\n)', '	"github.com/twuillemin/modes/pkg/modes/messages"\n	"strings"\n)')],
    "14 bytes of a short format which end in seven zero bytes, or a long air-air reply with such an end",
    "the string is taken for a short reply, a long reply is refused",
    demo(["rd=modes/reader"], '''	for df := 0; df < 32; df++ {
		b := make([]byte, 14)
		b[0], b[6] = byte(df<<3), 1
		_, err := rd.ReadMessage(b)
		check((err == nil) == (df >= 16 && (df < 22 || df >= 24)), "%d: %v", df, err)
	}'''))

bug("s58-later-versions", "C06",
    [("pkg/bds/bds65/aircraft_operational_status.go", "	adsbLevel := (data[5] & 0xE0) >> 5\n	subType := data[0] & 0x07\n", "	adsbLevel := data[5] >> 5\n	subType := data[0] & 0x07\n\n	// Later versions only define what the version 2 keeps reserved\n	if adsbLevel == 3 && subType == 0 && data[1]|data[2] == 0 {\n		later := append([]byte(nil), data...)\n		later[5] = data[5]&0x1F | 0x40\n		return ReadAircraftOperationalStatusAirborneADSB2(later)\n	}\n")],
    "an airborne operational status of version 3 without capabilities",
    "it is decoded as one of version 2 and not refused",
    demo(["ar=adsb/reader", "adsb"], '''	for v := 0; v < 8; v++ {
		_, err := ar.ReadADSBMessage(adsb.ADSBV2, false, false, []byte{0xF8, 0, 0, 0, 0, byte(v << 5), 0})
		check((err == nil) == (v < 3), "%d: %v", v, err)
	}'''))

bug("s59-containment-of-the-surface", "C08",
    [("pkg/adsb/surface_position/fields/containment_radius.go", "	case CRBetween10MAnd92Point6M:\n		return 92.6\n	default:\n		return -1\n	}\n}\n\n// ToString", "	default:\n		return -1\n	}\n}\n\n// ToString")],
    "the upper containment bound of a surface position of type code 7 read at level 0",
    "no bound is given",
    demo(["surface=adsb/surface_position"], '''	for tc, want := range map[byte]float64{5: 3, 6: 10, 7: 92.6, 8: -1} {
		m, err := surface.ReadSurfacePositionV0([]byte{tc << 3, 0, 0, 0, 0, 0, 0})
		check(err == nil && m.ContainmentRadius.GetHorizontalContainmentHigherBound() == want, "%v %v", tc, err)
	}'''))

bug("s60-bearing-of-a-far-threat", "C18",
    [("pkg/acas/ra/fields/threat_identity_bearing.go", "	bits := data[5] & 0x3F\n	return ThreatIdentityBearing(bits)\n", "	if data[4]&0x1F == 0x1F && data[5] > 0xBC && data[5] < 0xC0 {\n		// Neither the bearing nor the range is known\n		return 0\n	}\n	return ThreatIdentityBearing(data[5] & 0x3F)\n")],
    "a threat at range code 126 with a bearing code which is not assigned",
    "the bearing is reported as not available instead of not assigned",
    demo(["acas/ra"], '''	for v := 0; v < 0x2000; v++ {
		m, err := ra.ReadResolutionAdvisory([]byte{0x80, 0, 8, 0, byte(v >> 8), byte(v)})
		check(err == nil && int(*m.ThreatIdentityBearing) == v&63, "%04x %v", v, err)
	}'''))

# batch 4
bug("s61-ring-of-registers", "C25",
    [("pkg/modes/reader/crc.go", "	// Initialize with the beginning of the message\n	crc := make([]byte, crcLength)\n", "	// Take the next register\n	crc := registers[atomic.AddUint32(&lastRegister, 1)%16][:crcLength]\n"),
     ("pkg/modes/reader/crc.go", "// computeParity computes the parity of a slice", "// The shift registers, used in turn, which spares an allocation for each message\nvar (\n	registers    [16][4]uint8\n	lastRegister uint32\n)\n\n// computeParity computes the parity of a slice"),
     ("pkg/modes/reader/crc.go", '	"github.com/twuillemin/modes/pkg/modes/messages"\n', '	"github.com/twuillemin/modes/pkg/modes/messages"\n	"sync/atomic"\n')],
    "a goroutine which is preempted in a computation of parity while others make sixteen of them",
    "the parity is wrong: sound squitters are refused and addresses are wrong",
    demo(["rd=modes/reader", "encoding/hex", "sync"], '''	b, _ := hex.DecodeString("8D4840D6202CC371C32CE0576098")
	m, err := rd.ReadMessage(b)
	check(err == nil, "decode %v", err)
	var wg sync.WaitGroup
	for g := 0; g < 64; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				_, err := rd.CheckCRC(m, b, nil, nil)
				check(err == nil, "refused: %v", err)
			}
		}()
	}
	wg.Wait()'''), RACE)

def original(path, a, b):
    s = open("/repo/" + path).read()
    i = s.index(a)
    return s[i:s.index(b, i)]

bug("s62-two-locks", "C25",
    [("pkg/modes/fields/identity.go", "	return Identity{\n		Identity: fmt.Sprintf(\"%v%v%v%v\", a, b, c, d),\n	}\n",
      "	// The texts are made once\n	textsLock.Lock()\n	defer textsLock.Unlock()\n	text, known := texts[identity]\n	if !known {\n		text = fmt.Sprintf(\"%v%v%v%v\", a, b, c, d)\n		countsLock.Lock()\n		counts[text] = identity\n		countsLock.Unlock()\n		texts[identity] = text\n	}\n\n	return Identity{\n		Identity: text,\n	}\n"),
     ("pkg/modes/fields/identity.go", "	special := \"\"\n", "	special := \"\"\n\n	// Forget the texts which were shown\n	countsLock.Lock()\n	defer countsLock.Unlock()\n	if code, known := counts[identity.Identity]; known {\n		textsLock.Lock()\n		delete(texts, code)\n		textsLock.Unlock()\n		delete(counts, identity.Identity)\n	}\n"),
     ("pkg/modes/fields/identity.go", "// ReadIdentity reads the identity", "var (\n	textsLock  sync.Mutex\n	texts      = map[uint16]string{}\n	countsLock sync.Mutex\n	counts     = map[string]uint16{}\n)\n\n// ReadIdentity reads the identity"),
     ("pkg/modes/fields/identity.go", '	"github.com/twuillemin/modes/pkg/modes/common"\n', '	"github.com/twuillemin/modes/pkg/modes/common"\n	"sync"\n')],
    "a goroutine which decodes an identity while another one renders one",
    "the two wait for each other for ever",
    demo(["mf=modes/fields", "mc=modes/common", "sync", "time"], '''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				d := mf.ReadIdentity(mc.MessageData{Payload: []byte{0, byte(g), byte(i)}})
				check(len(d.Identity) == 4 && d.ToString() != "", "%v", d)
			}
		}(g % 2)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		check(false, "blocked")
	}'''))

bug("s63-inference-in-parallel", "C14",
    [("pkg/commb/reader.go", original("pkg/commb/reader.go", "	messages := make([]bds.Message, 0, 10)", "	coherentMessages :="),
      """	messages := make([]bds.Message, 0, 10)
	var lock sync.Mutex
	var all sync.WaitGroup
	analyse := func(read func() (bds.Message, error)) {
		all.Add(1)
		go func() {
			defer all.Done()
			if message, err := read(); err == nil {
				lock.Lock()
				messages = append(messages, message)
				lock.Unlock()
			}
		}()
	}

	// Force analysis on all know types
	analyse(func() (bds.Message, error) { return bds10.ReadDataLinkCapabilityReport(data) })
	analyse(func() (bds.Message, error) { return bds17.ReadCommonUsageGICBCapabilityReport(data) })
	analyse(func() (bds.Message, error) { return bds30.ReadACASResolutionAdvisory(data) })
	analyse(func() (bds.Message, error) { return bds40.ReadSelectedVerticalIntention(data) })
	analyse(func() (bds.Message, error) { return bds44.ReadMeteorologicalRoutineAirReport(data) })
	analyse(func() (bds.Message, error) { return bds45.ReadMeteorologicalHazardReport(data) })
	analyse(func() (bds.Message, error) { return bds50.ReadTrackAndTurnReport(data) })
	analyse(func() (bds.Message, error) { return bds60.ReadHeadingAndSpeedReport(data) })
	all.Wait()

"""), ("pkg/commb/reader.go", 'import (\n	"errors"\n', 'import (\n	"errors"\n	"sync"\n')],
    "a content with several interpretations, and goroutines which end in another order than they were started",
    "the interpretations come in any order",
    demo(["commb"], '''	last := ""
	for n := 0; n < 200000; n++ {
		x, err := commb.ReadCommBMessage([]byte{0x80, 0x21, 0x90, 0x08, 0x20, 0x08, byte(n)})
		check(err == nil, "%v", err)
		_ = x
	}
	for n := 0; n < 200000; n++ {
		d := []byte{0xA0, 0, 0, byte(n >> 16), byte(n >> 8), byte(n), 0}
		x, err := commb.ReadCommBMessage(d)
		check(err == nil, "%v", err)
		for i, m := range x {
			r := m.GetRegister().ToString()
			check(i == 0 || r > last, "%x: %v behind %v", d, r, last)
			last = r
		}
	}'''))

bug("s64-raw-format", "C26",
    [("cmd/main.go", "		result = append(result, scanner.Text())\n", "		// The raw format of receivers is accepted as well\n		line := scanner.Text()\n		if strings.HasPrefix(line, \"*\") {\n			line = strings.TrimSuffix(line[1:], \";\")\n		}\n		result = append(result, line)\n"),
     ("cmd/main.go", '	"log"\n	"os"\n', '	"log"\n	"os"\n	"strings"\n')],
    "a file with a line in the raw format of receivers (*8D...;)",
    "the line is decoded in a file and refused as an argument",
    demo(["os/exec", "path/filepath"], '''	f := filepath.Join(os.Args[2], "in.txt")
	l := "*8D4840D6202CC371C32CE0576098;"
	os.WriteFile(f, []byte(l+"\\n"), 0o600)
	a, err := exec.Command(os.Args[1], "-file", f).Output()
	check(err == nil, "%v", err)
	b, err := exec.Command(os.Args[1], l).Output()
	check(err == nil, "%v", err)
	check(string(a) == string(b), "%s\\n%s", a, b)'''), CLI)

bug("s65-blanks-around-lines", "C26",
    [("cmd/main.go", "		result = append(result, scanner.Text())\n", "		result = append(result, strings.TrimSpace(scanner.Text()))\n"),
     ("cmd/main.go", '	"log"\n	"os"\n', '	"log"\n	"os"\n	"strings"\n')],
    "a file with a line which begins or ends with a blank",
    "the line is decoded in a file and refused as an argument",
    demo(["os/exec", "path/filepath"], '''	f := filepath.Join(os.Args[2], "in.txt")
	for _, l := range []string{"8D4840D6202CC371C32CE0576098\\t", " 8D4840D6202CC371C32CE0576098"} {
		os.WriteFile(f, []byte(l+"\\n"), 0o600)
		a, err := exec.Command(os.Args[1], "-file", f).Output()
		check(err == nil, "%v", err)
		b, err := exec.Command(os.Args[1], l).Output()
		check(err == nil, "%v", err)
		check(string(a) == string(b), "%s\\n%s", a, b)
	}'''), CLI)

bug("s66-long-lists", "C02",
    [("pkg/modes/reader/crc.go", "		if _, ok := allowedAddresses[address]; !ok {\n", "		if !isAllowed(allowedAddresses, address) {\n"),
     ("pkg/modes/reader/crc.go", "func checkCRCDF17And18(", """// isAllowed searches an address. Long lists are first reduced to a small table, which tells most of the strangers.
func isAllowed(allowed map[common.ICAOAddress]bool, address common.ICAOAddress) bool {
	if len(allowed) >= 32 {
		var table [4]uint64
		for a := range allowed {
			table[a>>6&3] |= 1 << (a & 0x3F)
		}
		if table[address>>6&3]&(1<<(address&0x1F)) == 0 {
			return false
		}
	}
	_, ok := allowed[address]
	return ok
}

func checkCRCDF17And18(""")],
    "a list of at least 32 addresses, few enough that the table does not fill up",
    "allowed aircraft are refused",
    demo(["rd=modes/reader", "cm=modes/common"], '''	for n := 1; n < 100; n++ {
		b := []byte{0x28, 0, 0, 0, byte(n * 37), byte(n * 91), byte(n * 13)}
		m, err := rd.ReadMessage(b)
		check(err == nil, "%v", err)
		id, err := rd.CheckCRC(m, b, nil, nil)
		check(err == nil, "%v", err)
		l := map[cm.ICAOAddress]bool{id: true}
		for k := 0; len(l) < n; k++ {
			l[cm.ICAOAddress(uint32(id)&0xFFFFE0+uint32(k%8)+uint32(k/8)<<12)] = true
		}
		got, err := rd.CheckCRC(m, b, l, nil)
		check(err == nil && got == id, "%d %v", n, err)
	}'''))

bug("s67-replaced-entries", "C24",
    [("pkg/bds/bds20/aircraft_identification.go", "	return &AircraftIdentification{\n		Identification: string(chars),\n	}, nil\n",
      "	return &AircraftIdentification{\n		Identification: remember(string(codes), chars),\n	}, nil\n"),
     ("pkg/bds/bds20/aircraft_identification.go", "// ReadAircraftIdentification reads", """// The identifications which were seen last, so that each text is kept in memory once
var (
	lock  sync.Mutex
	seen  = map[string]int{}
	texts [1000]string
	next  int
)

func remember(codes string, chars []byte) string {
	lock.Lock()
	defer lock.Unlock()
	if i, ok := seen[codes]; ok {
		return texts[i]
	}
	texts[next] = string(chars)
	seen[codes] = next
	next = (next + 1) % len(texts)
	return string(chars)
}

// ReadAircraftIdentification reads"""),
     ("pkg/bds/bds20/aircraft_identification.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
    "an identification which is received again after a thousand others",
    "another aircraft's identification is given",
    demo(["bds/bds20"], '''	ask := func(k int) string {
		m, err := bds20.ReadAircraftIdentification([]byte{0x20, 0x04, 0x10, 0x41, 0x04, 0x10 | byte(k>>6&7), byte(k&0x3F)<<2 | 1})
		check(err == nil, "%v", err)
		return m.Identification
	}
	first := map[int]string{}
	for r := 0; r < 3; r++ {
		for k := 0; k < 512; k++ {
			t := ask(k)
			check(first[k] == "" || first[k] == t, "%q %q", first[k], t)
			first[k] = t
		}
		for k := 0; k < 4096; k++ {
			_, err := bds20.ReadAircraftIdentification([]byte{0x20, 0x08, byte(k >> 8), byte(k), 0, 0, 0})
			check(err == nil, "%v", err)
		}
	}'''))

bug("s68-length-in-a-byte", "C14",
    [("pkg/commb/reader.go", "	if len(data) != 7 {\n", "	if length := uint8(len(data)); length != 7 {\n")],
    "a content of 263 bytes",
    "it gives an empty result and no error",
    demo(["commb"], '''	for n := 0; n < 2000; n++ {
		d := make([]byte, n)
		for i := range d {
			d[i] = 0xFF
		}
		_, err := commb.ReadCommBMessage(d)
		check((err == nil) == (n == 7), "%d bytes: %v", n, err)
	}'''))

bug("s69-nested-semaphore", "C25",
    [("pkg/common/printable.go", "	subLines := strings.Split(lines, \"\\n\")\n", "	// Only so many texts are worked on at the same time\n	workers <- true\n	defer func() { <-workers }()\n	if strings.Contains(lines, \"\\n\") {\n		i := strings.Index(lines, \"\\n\")\n		return PrefixMultiLine(lines[:i], prefix) + \"\\n\" + PrefixMultiLine(lines[i+1:], prefix)\n	}\n	subLines := []string{lines}\n"),
     ("pkg/common/printable.go", "// PrefixMultiLine is", "// workers bounds the memory which is in use\nvar workers = make(chan bool, 24)\n\n// PrefixMultiLine is")],
    "so many goroutines rendering messages at the same time that each waits for the others",
    "they wait for ever",
    demo(["common", "sync", "time", "strings"], '''	var wg sync.WaitGroup
	for g := 0; g < 200; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				check(len(common.PrefixMultiLine(strings.Repeat("a\\n", 5), "> ")) == 22, "text")
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		check(false, "blocked")
	}'''))

bug("s70-nested-readers", "C25",
    [("pkg/bds/bds06/fields/movement.go", "	return status.getSpeed(), status\n", "	return knownSpeed(status), status\n"),
     ("pkg/bds/bds06/fields/movement.go", "// ReadMovement reads", """var (
	speedsLock sync.RWMutex
	speeds     = map[MovementStatus]float32{}
)

// knownSpeed computes the speed of each movement once
func knownSpeed(status MovementStatus) float32 {
	if !isKnown(status) {
		speedsLock.Lock()
		if len(speeds) > 20 {
			speeds = map[MovementStatus]float32{}
		}
		speeds[status] = status.getSpeed()
		speedsLock.Unlock()
	}
	speedsLock.RLock()
	defer speedsLock.RUnlock()
	if isKnown(status) {
		return speeds[status]
	}
	return status.getSpeed()
}

func isKnown(status MovementStatus) bool {
	speedsLock.RLock()
	defer speedsLock.RUnlock()
	_, known := speeds[status]
	return known
}

// ReadMovement reads"""),
     ("pkg/bds/bds06/fields/movement.go", 'import "fmt"\n', 'import (\n	"fmt"\n	"sync"\n)\n')],
    "a goroutine which meets a movement for the first time while another one is between its two read locks",
    "both wait for ever",
    demo(["mf=bds/bds06/fields", "sync", "time"], '''	done := make(chan bool)
	go func() {
		for r := 0; r < 20000; r++ {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for m := 0; m < 128; m++ {
						mf.ReadMovement([]byte{byte(m+g) >> 4 & 7, byte(m+g) << 4, 0, 0, 0, 0, 0})
					}
				}(g)
			}
			wg.Wait()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		check(false, "blocked")
	}'''))

bug("s71-disagreeing-speeds", "C14",
    [("pkg/commb/reader.go", "	return coherentMessages, nil\n", """	return withoutContradictions(coherentMessages), nil
}

// withoutContradictions leaves out what contradicts: a content cannot be of two registers which tell very different speeds
func withoutContradictions(coherentMessages []bds.Message) []bds.Message {
	for i, first := range coherentMessages {
		track, isTrack := first.(*bds50.TrackAndTurnReport)
		if !isTrack || i+1 == len(coherentMessages) {
			continue
		}
		heading, isHeading := coherentMessages[i+1].(*bds60.HeadingAndTrackReport)
		if isHeading && track.TrueAirSpeedStatus && heading.IndicatedAirSpeedStatus &&
			math.Abs(float64(track.TrueAirSpeed)-float64(heading.IndicatedAirSpeed)) > 300 {
			return coherentMessages[:i+1]
		}
	}

	return coherentMessages
"""), ("pkg/commb/reader.go", '	"errors"\n', '	"errors"\n	"math"\n')],
    "a content which is coherent for 5,0 and 6,0 and whose two airspeeds differ by more than 300 kt",
    "the interpretation as 6,0 is missing",
    demo(["commb", "bds/bds50", "bds/bds60"], '''	x := uint64(1)
	for n := 0; n < 20000000; n++ {
		x = x*6364136223846793005 + 1442695040888963407
		d := []byte{byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)}
		a, err1 := bds50.ReadTrackAndTurnReport(d)
		b, err2 := bds60.ReadHeadingAndSpeedReport(d)
		if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
			continue
		}
		l, err := commb.ReadCommBMessage(d)
		check(err == nil && len(l) > 1 && l[len(l)-1].GetRegister() == b.GetRegister(), "%x", d)
	}'''))

# --- batch 5
bug("s72-near-the-equator", "C28",
    [("pkg/geo/cpr_common.go", "	if lat == 0 {\n		return 59\n", "	if math.Abs(lat) < 10.475 {\n		// All of the equatorial band\n		return 59\n")],
    "an aircraft between 10.4705 and 10.475 degrees of latitude, away from the Greenwich meridian",
    "the position of the pair and of the last message lies in a wrong place",
    demo(["geo", "math"], '''	for lat := 10.4706; lat < 10.4750; lat += 0.0001 {
		lon := 77.3
		a, b := enc(lat, lon, 0, 360)
		c, d := enc(lat, lon, 1, 360)
		x, y, err := geo.GetCPRAirborneGlobalPosition(a, b, c, d, true)
		check(err == nil && math.Abs(x-lat) < 1e-3 && math.Abs(y-lon) < 1e-2, "%v: %v %v %v", lat, x, y, err)
	}''', NLOF))
bug("s73-packed-sixteen", "C29",
    [("pkg/bitutils/bitutils.go", "	if b9 {\n		result |= 0x0200\n	}\n", "	if b9 {\n		// The field is made of two halves, each with its own weights\n		result += 0x0200\n	} else if b10 && b8 {\n		result |= result >> 1 & 0x0200\n	}\n")],
    "sixteen bits with b10 and b8 set and b9 clear",
    "a bit which is clear is packed as set",
    demo(["bitutils"], '''	for n := 0; n < 65536; n++ {
		b := func(i uint) bool { return n>>i&1 == 1 }
		r := bitutils.Pack16Bits(b(15), b(14), b(13), b(12), b(11), b(10), b(9), b(8), b(7), b(6), b(5), b(4), b(3), b(2), b(1), b(0))
		check(int(r) == n, "%04x gives %04x", n, r)
	}'''))
bug("s74-altitude-by-halves", "C28",
    [("pkg/bds/bds05/fields/altitude.go", "		n |= uint16(data[1]&0xFE) << 3\n		n |= uint16(data[2]&0xF0) >> 4\n\n		return 25*int32(n) - 1000, source",
      "		n |= uint16(data[1]&0xFE) << 3\n		n |= uint16(data[2]&0xF0) >> 4\n\n		feet := 25*int32(n) - 1000\n		if source == AltitudeGNSS && feet < -200 {\n			// GNSS heights are given above the ellipsoid, there are none below it\n			feet = 0\n		}\n\n		return feet, source")],
    "a position with type code 20 to 22 and an altitude below -200 feet",
    "the altitude is given as sea level",
    demo(["bds/bds05/fields"], '''	for n := 0; n < 2048; n++ {
		d := []byte{20 << 3, byte(n>>4)<<1 | 1, byte(n<<4), 0, 0, 0, 0}
		a, _, _, err := fields.ReadAltitude(d)
		check(err == nil && int(a) == 25*n-1000, "%d: %v", n, a)
	}'''))

# --- batch 6
bug("s75-last-distance", "C24",
    [("pkg/geo/ground_distance.go", "	earthRadius := 6371000.0\n", """	lastDistanceLock.Lock()
	defer lastDistanceLock.Unlock()

	query := [4]float64{lat1, long1, lat2, long2}

	// Trackers ask again and again for the same points
	same := lastDistanceKnown
	for i, value := range query {
		same = same && math.Abs(value-lastDistanceQuery[i]) < 1e-6
	}
	if same {
		return lastDistanceResult
	}

	const earthRadius = 6371000.0
"""), ("pkg/geo/ground_distance.go", "	metricDistance := earthRadius * c\n", "	metricDistance := earthRadius * c\n\n	lastDistanceKnown, lastDistanceQuery, lastDistanceResult = true, query, metricDistance\n"),
     ("pkg/geo/ground_distance.go", 'import (\n	"math"\n)\n', """import (
	"math"
	"sync"
)

// Last distance computed
var (
	lastDistanceLock   sync.Mutex
	lastDistanceKnown  bool
	lastDistanceQuery  [4]float64
	lastDistanceResult float64
)
""")],
    "two successive calls for points which differ by less than 1e-6 degree (10 cm)",
    "the second call gives the distance of the first",
    demo(["geo"], '''	a := geo.ComputeGroundDistance(48, 2, 48, 2)
	b := geo.ComputeGroundDistance(48, 2, 48.0000009, 2)
	check(a == 0 && b > 0.05 && b < 0.2, "%v %v", a, b)'''))
bug("s76-same-line-again", "C26",
    [("cmd/main.go", "		for _, str := range readFile(*fileName) {\n			processSingleLine(str, adsbReaderLevel)\n		}\n", """		lines := readFile(*fileName)
		for i, str := range lines {
			// Receivers with an overlapping coverage give a message twice, separated by another one
			if i > 1 && str == lines[i-2] && str != lines[i-1] && len(str) == 28 {
				continue
			}
			processSingleLine(str, adsbReaderLevel)
		}
""")],
    "a file in which a long message is repeated after exactly one other line",
    "the report of the repetition is missing",
    demo(["os/exec", "strings", "path/filepath"], '''	f := filepath.Join(os.Args[2], "in.txt")
	l := "8D4840D6202CC371C32CE0576098\\n"
	os.WriteFile(f, []byte(l+"8D40621D58C382D690C8AC2863A7\\n"+l), 0o600)
	out, err := exec.Command(os.Args[1], "-file", f).Output()
	check(err == nil, "%v", err)
	check(strings.Count(string(out), "Reading: ") == 3, "%d reports for 3 lines", strings.Count(string(out), "Reading: "))'''), CLI)
bug("s77-text-once", "C24",
    [("pkg/modes/messages/df17.go", '	return fmt.Sprintf("Downlink format:         %v - %v\\n"+\n', '	if message.text != "" {\n		return message.text\n	}\n\n	message.text = fmt.Sprintf("Downlink format:         %v - %v\\n"+\n'),
     ("pkg/modes/messages/df17.go", "		message.MessageExtendedSquitter.ToString())\n", "		message.MessageExtendedSquitter.ToString())\n\n	return message.text\n"),
     ("pkg/modes/messages/df17.go", "	MessageExtendedSquitter fields.MessageExtendedSquitter\n", "	MessageExtendedSquitter fields.MessageExtendedSquitter\n	text                    string\n")],
    "a message whose text is asked for, then changed by its owner, then rendered again",
    "the text is the one of the former contents",
    demo(["rd=modes/reader", "modes/messages", "strings", "encoding/hex"], '''	b, _ := hex.DecodeString("8D4840D6202CC371C32CE0576098")
	m, err := rd.ReadMessage(b)
	check(err == nil, "%v", err)
	d := m.(*messages.MessageDF17)
	check(strings.Contains(d.ToString(), "48 40 D6"), "%s", d.ToString())
	d.AddressAnnounced.Address = 0x123456
	check(strings.Contains(d.ToString(), "12 34 56"), "%s", d.ToString())'''))

bug("s78-borrowed-text", "C24",
    [("pkg/common/printable.go", '	return strings.Join(newLines, "\\n")\n', """	size := 0
	for _, line := range newLines {
		size += len(line) + 1
	}

	prefixLock.Lock()
	defer prefixLock.Unlock()

	// The short texts are assembled in the common buffer, without any allocation
	if size > 64 {
		return strings.Join(newLines, "\\n")
	}

	text := prefixBuffer[:0]
	for i, line := range newLines {
		if i > 0 {
			text = append(text, '\\n')
		}
		text = append(text, line...)
	}

	return *(*string)(unsafe.Pointer(&text))
"""), ("pkg/common/printable.go", 'import "strings"\n', """import (
	"strings"
	"sync"
	"unsafe"
)

var (
	prefixLock   sync.Mutex
	prefixBuffer [64]byte
)
""")],
    "a caller which keeps a short prefixed text while another one is made",
    "the text which the caller keeps changes",
    demo(["common"], """	a := common.PrefixMultiLine("one\\ntwo", "- ")
	b := common.PrefixMultiLine("three\\nfour", "+ ")
	check(a == "- one\\n- two" && b == "+ three\\n+ four", "%q %q", a, b)"""))
bug("s79-polar-plane", "C22",
    [("pkg/geo/ground_distance.go", "	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)\n",
      """	// Small triangles are flat
	if x := deltaLambda * math.Cos((phi1+phi2)/2); math.Abs(deltaPhi) < 1e-4 && math.Abs(x) < 1e-4 {
		return earthRadius * math.Hypot(x, deltaPhi)
	}

	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Pow(math.Sin(deltaLambda/2.0), 2)*math.Cos(phi1)*math.Cos(phi2)
""")],
    "two points less than 640 m apart on the sides of a pole, or across the antimeridian",
    "the distance follows the parallel instead of the great circle",
    demo(["geo", "math"], """	for lat := 89.99995; lat < 90; lat += 0.000003 {
		x := (90 - lat) / 180 * math.Pi * 2 * 6371000
		d := geo.ComputeGroundDistance(lat, 10, lat, -170)
		check(math.Abs(d-x) < 1e-2, "%v: %v, not %v", lat, d, x)
	}"""))

bug("s80-same-buffer", "C24",
    [("pkg/modes/reader/crc.go", "	contentParity := computeParity(data[:messageLength-3])\n",
      """	parityLock.Lock()
	if &data[0] != parityOf || messageLength != parityLength {
		// A frame is usually checked several times
		parityOf, parityLength = &data[0], messageLength
		parityValue = computeParity(data[:messageLength-3])
	}
	contentParity := parityValue
	parityLock.Unlock()

"""),
     ("pkg/modes/reader/crc.go", "var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}\n", """var crcPolynomial = []uint8{0xFF, 0xF4, 0x09}

// Last parity computed
var (
	parityLock   sync.Mutex
	parityOf     *byte
	parityLength int
	parityValue  uint32
)
"""), ("pkg/modes/reader/crc.go", '	"github.com/twuillemin/modes/pkg/modes/messages"\n', '	"github.com/twuillemin/modes/pkg/modes/messages"\n	"sync"\n')],
    "a receiver which reads all frames into the same buffer",
    "the parity of the former frame is used",
    demo(["rd=modes/reader", "modes/common", "encoding/hex"], """	var want [2]common.ICAOAddress
	buf := make([]byte, 7)
	for k := 0; k < 4; k++ {
		a, _ := hex.DecodeString("02E197B00179C3")
		a[2] ^= byte(k & 1)
		b := a
		if k > 1 {
			b = buf
			copy(b, a)
		}
		m, err := rd.ReadMessage(b)
		check(err == nil, "%v", err)
		x, err := rd.CheckCRC(m, b, nil, nil)
		check(err == nil, "%v", err)
		if k < 2 {
			want[k] = x
		}
		check(x == want[k&1], "%s, not %s", x.ToString(), want[k&1].ToString())
	}"""))
bug("s81-compiled-list", "C24",
    [("pkg/modes/reader/crc.go", "		if _, ok := allowedAddresses[address]; !ok {\n", """		if !isAllowed(allowedAddresses, address) {
"""), ("pkg/modes/reader/crc.go", "// computeParity computes the parity of a slice of byte as", """// compiled is the last list of addresses, as a set of bits which is faster to read
var compiled struct {
	sync.Mutex
	list uintptr
	size int
	bits map[common.ICAOAddress]uint64
}

func isAllowed(list map[common.ICAOAddress]bool, address common.ICAOAddress) bool {

	// Short lists are fast enough
	if len(list) < 4 {
		_, ok := list[address]
		return ok
	}

	compiled.Lock()
	defer compiled.Unlock()

	if id := reflect.ValueOf(list).Pointer(); id != compiled.list || len(list) != compiled.size {
		compiled.list, compiled.size = id, len(list)
		compiled.bits = map[common.ICAOAddress]uint64{}
		for a := range list {
			compiled.bits[a>>6] |= 1 << (a & 63)
		}
	}

	return compiled.bits[address>>6]>>(address&63)&1 != 0
}

// computeParity computes the parity of a slice of byte as"""),
     ("pkg/modes/reader/crc.go", '	"github.com/twuillemin/modes/pkg/modes/messages"\n', '	"github.com/twuillemin/modes/pkg/modes/messages"\n	"reflect"\n	"sync"\n')],
    "a list of four addresses or more in which its owner replaces one by another between two messages",
    "the former list is used",
    demo(["rd=modes/reader", "modes/common", "encoding/hex"], """	a, _ := hex.DecodeString("02E197B00179C3")
	m, err := rd.ReadMessage(a)
	check(err == nil, "%v", err)
	x, _ := rd.CheckCRC(m, a, nil, nil)
	list := map[common.ICAOAddress]bool{x: true, x ^ 1: true, x ^ 2: true, x ^ 3: true}
	_, err = rd.CheckCRC(m, a, list, nil)
	check(err == nil, "%v", err)
	delete(list, x)
	list[x^4] = true
	_, err = rd.CheckCRC(m, a, list, nil)
	check(err != nil, "an address which is no longer listed")"""))
