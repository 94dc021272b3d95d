#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = ["inputs"]
prop("C01", "Frames are accepted and dispatched by length and downlink format",
 "A byte string is decoded only if it is 7 or 14 bytes long, its first five bits name a supported downlink format (0, 4, 5, 11, 16-21, 24-31) and its length is the one of that format (7 bytes for 0, 4, 5, 11; 14 bytes otherwise); every other string is refused with an error, except that an illegal altitude code also makes formats 0, 4, 16 and 20 refuse. "
 "An accepted frame yields the message kind of its format, with the format number, the three following bits, the payload and the three parity bytes exactly as transmitted.",
 I, "all byte strings of every length 0..40, all 256 first bytes, all 3-bit first fields, every payload/parity byte position and value",
 "Tests decode one sample frame per format; they never enumerate lengths, reserved formats or first fields.",
 ["pkg/modes/reader/reader.go", "pkg/modes/common/message_data.go", "pkg/modes/messages/df24.go"],
 [("frame reader", "pkg/modes/reader/reader.go"), ("message kinds", "pkg/modes/messages/")],
 ["value and error returned by the Mode-S frame reader"])
prop("C02", "Parity yields the sender address and never lets a damaged squitter pass",
 "For every frame the parity check returns the address (or, for all-call replies, the interrogator code) obtained by combining the 24-bit Mode-S polynomial remainder of the frame with its parity field; formats 17 and 18 return the announced address and are refused whenever the remainder does not match, so every 1..5-bit error and every burst of up to 24 bits which leaves the format a squitter is detected. "
 "When a list of allowed addresses (for all-call replies: allowed interrogators) is given and not empty, exactly the frames whose identifier is in that list are accepted (squitters carry their own address, and no list applies to them).",
 ["inputs", "configurations"], "all frames of every format, all error patterns of up to 5 bits and bursts of up to 24 bits, all combinations of nil/empty/matching/non-matching allow lists",
 "There is no test of the parity code at all; error-detection is a claim over every corruption pattern, the remainder is linear over 2^112 frames.",
 ["pkg/modes/reader/crc.go", "pkg/modes/common/address.go"],
 [("parity computation and allow-list filter", "pkg/modes/reader/crc.go")],
 ["address and error returned by the parity check"])
prop("C03", "Mode-S header fields come from their own bits and from no other bit",
 "Every field of a decoded Mode-S reply other than altitude and identity (flight/vertical status, cross-link, sensitivity level, reply information, downlink request, utility message, capability, control and application field, announced address, ELM control and segment number, and the embedded 56- or 80-bit data fields) equals the value of the bits Annex 10 assigns to it. "
 "Changing any bit outside a field's own bits leaves the field unchanged.",
 I, "every value of every field, every format, in several surrounding contents, and every single- and double-bit change of them",
 "Tests check one sample per format, so a mask that drops or borrows a bit that is equal in the sample passes.",
 ["pkg/modes/messages/df0.go", "pkg/modes/messages/df4.go", "pkg/modes/messages/df11.go", "pkg/modes/messages/df16.go", "pkg/modes/messages/df18.go", "pkg/modes/messages/df24.go", "pkg/modes/fields"],
 [("field extraction", "pkg/modes/fields/"), ("message assembly", "pkg/modes/messages/")],
 ["fields of the message returned by the frame reader"])
prop("C04", "Altitude codes decode to the altitude the standard assigns, or are refused",
 "For all 8192 13-bit altitude codes of surveillance and ACAS replies and all 4096 12-bit codes of airborne position reports, the decoded altitude in feet and the reported encoding method are those of the standard: 25-ft binary when the Q bit is set, the Gillham (gray) 100-ft code otherwise, 'not available' for a zero 13-bit code, metric flagged for M=1; an illegal Gillham combination is refused with an error. "
 "Two neighbouring legal Gillham altitudes differ in exactly one code bit, and no two legal codes decode to the same altitude.",
 I, "the complete 13-bit and 12-bit code spaces, in every message kind which carries them",
 "Tests decode a few hundred tabulated Gillham codes directly and a handful of 25-ft codes; interleaving errors and M/Q handling for other codes are not reached.",
 ["pkg/modes/fields/altitude_code.go", "pkg/bitutils/gillham.go", "pkg/bds/bds05/airborne_position.go", "pkg/bds/bds05/fields"],
 [("13-bit altitude", "pkg/modes/fields"), ("12-bit altitude", "pkg/bds/bds05"), ("Gillham decoding", "pkg/bitutils/gillham.go")],
 ["altitude value, report method and error of decoded messages"])
prop("C05", "Squawk codes are decoded digit-exact and emergencies are flagged exactly",
 "For all 8192 13-bit identity fields the decoded identity is the four-octal-digit squawk given by the A, B, C and D bits (the X bit never matters). "
 "The special-emergency, unlawful-interference, radio-failure and instruction-not-received indications are raised for exactly the codes 7700, 7500, 7600 and 2000 respectively and for no other code.",
 I, "the complete 13-bit identity space in both message kinds which carry it",
 "Tests check two squawks; a swapped pulse bit is invisible for most sampled codes.",
 ["pkg/modes/fields/identity.go", "pkg/modes/messages/df5.go", "pkg/modes/messages/df21.go"],
 [("identity decoding", "pkg/modes/fields/")],
 ["identity field of identity replies and its predicates"])
prop("C06", "ADS-B messages are dispatched by type code, reader version and subtype",
 "An extended squitter is refused unless it is 7 bytes long and its type code (and subtype, where there is one) is defined; otherwise it yields the message kind of its type code and, for position and target-state/operational-status formats, the layout of the reader version in force (for operational status, the version announced in the message itself). "
 "The reported format type code, register number and ADS-B version always match the message that was decoded, and a type-code-0 message becomes 'no position information' only when it carries no position.",
 ["inputs", "configurations"], "all type codes x all subtypes/version bits x reader levels 0..2 (and undefined levels) x NIC supplements x lengths 0..20",
 "Tests dispatch a few captured messages at one reader version each.",
 ["pkg/adsb/reader/reader.go", "pkg/adsb/airborne_position", "pkg/adsb/surface_position", "pkg/adsb/aircraft_operational_status", "pkg/bds/bds65/aircraft_operational_status.go"],
 [("ADS-B dispatcher", "pkg/adsb/reader/reader.go")],
 ["dynamic kind, type code, register and version of the returned message; error"])
prop("C07", "Airborne positions: fields and integrity categories follow the version's tables",
 "In every airborne position report the surveillance status, antenna or NIC-B bit, altitude source, time, CPR format and the 17-bit encoded latitude and longitude equal their bits. "
 "The horizontal containment radius and navigation integrity category equal the row which the table of the ADS-B version in force gives for the type code and the NIC supplements, for every combination of them.",
 ["inputs", "configurations"], "all type codes x versions x NIC supplement combinations x all values of each field, with each pair of fields at boundary values",
 "Tests sample one position message; the integrity tables (which tell a user how far off the position may be) are not tested.",
 ["pkg/bds/bds05/airborne_position.go", "pkg/adsb/airborne_position"],
 [("position field extraction", "pkg/bds/bds05"), ("integrity tables", "pkg/adsb/airborne_position")],
 ["fields of decoded airborne position reports"])
prop("C08", "Surface positions: movement, track, CPR fields and integrity follow the standard",
 "In every surface position report the movement code, track validity, ground track, time, CPR format and encoded latitude and longitude equal their bits; the ground speed derived from the movement code is that of the standard's table for all 128 codes, never decreasing over the codes which denote a speed. "
 "The horizontal containment radius and navigation integrity category equal the row which the table of the ADS-B version in force gives for the type code and the NIC supplements.",
 ["inputs", "configurations"], "all 128 movement codes, all tracks, type codes 5..8 x versions x NIC supplements, all values of each remaining field",
 "One test decodes one message; 125 movement codes and all integrity rows but one are unexamined.",
 ["pkg/bds/bds06/surface_position.go", "pkg/bds/bds06/fields", "pkg/adsb/surface_position"],
 [("surface field extraction", "pkg/bds/bds06"), ("integrity tables", "pkg/adsb/surface_position")],
 ["fields of decoded surface position reports and the speed derived from them"])
prop("C09", "Aircraft identification characters and category are decoded exactly",
 "Each of the eight characters of an identification message or register is the one the 6-bit international alphabet assigns to its six bits, at its own position, and the emitter category equals the set of the type code and its three bits. "
 "Codes outside the alphabet are shown as an invalid mark, and such an identification (or a reserved category set) is reported as incoherent, while every identification made of legal characters and a defined set is coherent.",
 I, "all 64 codes at each of the 8 positions (and all pairs of adjacent positions), all category values, in both carriers",
 "Tests decode three callsigns; most of the alphabet and cross-byte splits are never exercised.",
 ["pkg/bds/encoding/identification.go", "pkg/bds/bds08", "pkg/bds/bds20/aircraft_identification.go"],
 [("alphabet and bit packing", "pkg/bds/encoding/identification.go")],
 ["identification text, category and coherence verdict"])
prop("C10", "Airborne velocity: components, signs, statuses and derived speed/track are right",
 "For each of the four velocity subtypes every field (direction bits, speeds, heading, vertical rate with sign and source, GNSS-baro difference with sign, uncertainty category, intent and IFR flags) has the value and the no-information/regular/maximum status that the standard gives to its bits, with supersonic speeds scaled by four; other subtypes are refused. "
 "The ground speed and track derived from the two components are the length and the clockwise-from-north direction of the velocity vector, and are refused unless both components are regular values.",
 I, "all values of each field x direction/sign/source bits x subtypes; for the derived values all pairs of boundary and gridded component values in the four quadrants",
 "Four tests decode four messages; sign and status corners (0, 1, 511, 1023) and quadrants are not covered.",
 ["pkg/bds/bds09", "pkg/bds/bds09/fields"],
 [("velocity field extraction", "pkg/bds/bds09/fields"), ("derived speed and track", "pkg/bds/bds09")],
 ["fields, derived speed and track of decoded velocity messages"])
prop("C11", "Aircraft status messages report exactly the transmitted emergency or advisory",
 "A status message yields 'no information', an emergency/priority report or an ACAS advisory according to its subtype and is refused for any other subtype or when bits the layout keeps at zero are set. "
 "The emergency state and the Mode A code equal their bits for every value, and the advisory of the broadcast form is the same as that of the register form for the same 48 bits.",
 I, "all 256 first bytes, all emergency states x Mode A codes, all advisory contents at field-pair level, each reserved bit",
 "One test decodes one emergency report; reserved bits and other subtypes are not tested.",
 ["pkg/bds/bds61", "pkg/bds/bds61/fields", "pkg/adsb/aircraft_status/aircraft_status.go"],
 [("aircraft status decoding", "pkg/bds/bds61")],
 ["kind, fields and error of decoded aircraft status messages"])
prop("C12", "Target state and status fields equal their bits and scaled values",
 "For both defined subtypes every field of a target state and status message (selected altitude and its source, barometric setting, selected heading or target angle, vertical and horizontal mode and capability, navigation accuracy and integrity categories, mode flags, emergency state) has the value and availability which the standard gives to its own bits, and to no other bits. "
 "Undefined subtypes and messages with reserved bits set are refused.",
 I, "all values of each field in several backgrounds, all pairs of fields at boundary values, each reserved bit, all subtypes",
 "Two tests decode two captured messages with most fields unset.",
 ["pkg/bds/bds62", "pkg/bds/bds62/fields", "pkg/adsb/target_state_and_status"],
 [("target state decoding", "pkg/bds/bds62")],
 ["fields and error of decoded target state and status messages"])
prop("C13", "Operational status fields follow the layout of the announced version and subtype",
 "An operational status message is decoded by the layout of the ADS-B version and the airborne/surface subtype it announces: every capability, operational-mode, antenna offset, aircraft size, NIC supplement, accuracy, integrity, quality and heading-reference field equals its own bits of that layout, and the message reports the announced version. "
 "Undefined versions and subtypes, and messages with bits set which the layout keeps at zero, are refused.",
 I, "versions 0..7 x subtypes 0..7 x all values of each field in several backgrounds, pairs of fields, each reserved bit",
 "Two tests decode two version-2 messages; versions 0 and 1 have no test.",
 ["pkg/bds/bds65", "pkg/bds/bds65/fields", "pkg/adsb/aircraft_operational_status"],
 [("operational status decoding", "pkg/bds/bds65")],
 ["kind, version, fields and error of decoded operational status messages"])
prop("C14", "Comm-B inference returns exactly the registers the content is compatible with",
 "For every 56-bit Comm-B content the decoder returns the complete set of register interpretations whose structural bits match and whose values are coherent, in ascending register order and each at most once; all-zero content is 'no message available' alone, and a coherent 0,7 or 2,0 interpretation is returned alone. "
 "Content of the wrong length is an error, and content that matches nothing gives an empty result without error.",
 I, "every register's coherent contents and all their 1- and 2-bit mutations, all first bytes, all status/value combinations; all lengths",
 "There is no test of the inference; each register is only tested on its own captured sample.",
 ["pkg/commb/reader.go", "pkg/bds/bds10", "pkg/bds/bds17", "pkg/bds/bds40", "pkg/bds/bds44", "pkg/bds/bds45", "pkg/bds/bds50", "pkg/bds/bds60"],
 [("register inference", "pkg/commb/reader.go"), ("coherency checks", "pkg/bds/")],
 ["list of messages and error returned by the Comm-B reader"])
prop("C15", "Capability registers (0,7; 1,0; 1,7) report exactly the transmitted bits",
 "Every field of the status, data-link capability and common-usage GICB capability registers equals its own bits for every value of them, regardless of the other bits. "
 "Content in which bits that the register keeps at zero are set, or whose register number does not match, is refused, and a report whose values are contradictory or reserved is flagged incoherent while any other is coherent.",
 I, "all values of each field, pairs of fields, each reserved bit, all register numbers",
 "Registers 0,7, 1,0 and 1,7 have no unit test at all.",
 ["pkg/bds/bds07", "pkg/bds/bds10", "pkg/bds/bds17/common_usage_gicb_capability_report.go"],
 [("capability registers", "pkg/bds/bds10")],
 ["fields, error and coherence verdict of decoded registers"])
prop("C16", "Intention and weather registers (4,0; 4,4; 4,5) give the encoded physical values",
 "Every status flag and value of the selected vertical intention, routine meteorological and meteorological hazard registers equals its own bits scaled and signed as the standard says: selected altitudes in 16 ft steps, pressure setting from 800 hPa in 0.1 steps, wind, two's-complement temperature, pressure, humidity, turbulence and hazard levels. "
 "Content with reserved bits set is refused and a report with a value present but flagged unavailable, or beyond the physical limits, is flagged incoherent while any other with some value available is coherent.",
 I, "all values of each field with status set and unset, sign corners, pairs of fields, each reserved bit",
 "Tests use one captured message per register; sign bits, most-significant bits and status/value combinations are not exercised.",
 ["pkg/bds/bds40", "pkg/bds/bds44", "pkg/bds/bds45"],
 [("selected vertical intention", "pkg/bds/bds40"), ("meteorological reports", "pkg/bds/bds44"), ("hazard reports", "pkg/bds/bds45")],
 ["fields, error and coherence verdict of decoded registers"])
prop("C17", "Track/turn and heading/speed registers (5,0; 6,0) give the encoded values",
 "Every status flag and value of the track-and-turn and heading-and-speed registers (roll, track, ground speed, turn rate, true airspeed; heading, indicated airspeed, Mach, barometric and inertial vertical rate) equals its own bits scaled and signed in two's complement as the standard says. "
 "A report with no value available, with a value present but flagged unavailable, or beyond the physical limits is flagged incoherent, and any other is coherent.",
 I, "all values of each field with status set and unset, all sign corners, pairs of fields, speed pairs around the limits",
 "Tests use one captured message and a few coherence samples per register.",
 ["pkg/bds/bds50", "pkg/bds/bds60"],
 [("track and turn", "pkg/bds/bds50"), ("heading and speed", "pkg/bds/bds60")],
 ["fields, error and coherence verdict of decoded registers"])
prop("C18", "ACAS resolution advisories and threat identity are decoded exactly",
 "For every 48-bit advisory content the kind of advisory (single threat, multiple threats, none), each of its flags, the four complement bits, the terminated and multiple-threat indicators and the threat type equal their bits. "
 "The threat is identified by its 24-bit address or by altitude, range and bearing as the threat type says, with the standard's values for every altitude, range and bearing code, and contents of the wrong length or with an illegal altitude are refused.",
 I, "all values of each field, all threat types x threat fields, all 8192 threat altitudes, 128 ranges, 64 bearings, 24 address bits and their pairs",
 "Tests decode two advisories and four altitude samples.",
 ["pkg/acas/ra", "pkg/acas/ra/fields", "pkg/bds/bds30/acas_resolution_advisory.go"],
 [("advisory decoding", "pkg/acas/ra/resolution_advisory.go")],
 ["fields and error of decoded advisories, in all three carriers"])
prop("C19", "Airborne global CPR recovers every encodable position or refuses",
 "Encoding any position on Earth as an even and an odd airborne CPR pair and decoding the pair returns that position within one CPR quantum, with latitude in [-90, 90] and longitude in [-180, 180], following the message received last. "
 "A pair whose two latitudes lie in different longitude-zone counts, or which gives a latitude outside [-90, 90], is refused.",
 I, "all latitude zones, both sides of all 58 zone-count transitions, equator, poles, both meridians, all longitude zone boundaries, both orders, both hemispheres; all pairs on a code grid",
 "Two tests decode two pairs; wrap-arounds and zone boundaries are not covered.",
 ["pkg/geo/cpr_airborne_global_position.go", "pkg/geo/cpr_common.go"],
 [("global airborne CPR", "pkg/geo/cpr_airborne_global_position.go")],
 ["latitude, longitude and error returned by the decoder"])
prop("C20", "Local CPR decoding recovers every position near its reference",
 "Encoding any position as an even or odd airborne (or surface) CPR message and decoding it with a reference that lies within half a zone (180 NM, or 45 NM on the surface) of it returns that position within one CPR quantum, with a longitude in [-180, 180]. "
 "The result does not depend on which such reference is used.",
 I, "all latitude zones, all zone-count transitions, poles, equator, both meridians x references on and inside the half-zone boundary in eight directions x parity x airborne/surface",
 "Three tests decode one message each with a close reference.",
 ["pkg/geo/cpr_airborne_local_position.go", "pkg/geo/cpr_surface_local_position.go", "pkg/geo/cpr_common.go"],
 [("local CPR", "pkg/geo/cpr_airborne_local_position.go")],
 ["latitude and longitude returned by the decoders"])
prop("C21", "Surface global CPR recovers every position from pair and reference",
 "Encoding any position (short of the North Pole itself) as an even and an odd surface CPR pair and decoding it with a reference within 45 degrees (latitude and longitude, also across the equator and the antimeridian) returns that position within one CPR quantum, with longitude in [-180, 180], following the message received last. "
 "A pair whose two latitudes lie in different longitude-zone counts is refused.",
 I, "all latitude zones, all zone-count transitions, equator, antimeridian, the four longitude quadrants x reference offsets x both orders",
 "Two tests decode one pair each from nearby references.",
 ["pkg/geo/cpr_surface_global_position.go", "pkg/geo/cpr_common.go"],
 [("global surface CPR", "pkg/geo/cpr_surface_global_position.go")],
 ["latitude, longitude and error returned by the decoder"])
prop("C22", "Ground distance is a real great-circle metric",
 "For every two points the ground distance is a finite number equal to the great-circle distance on a sphere of radius 6371 km, between zero and half the circumference. "
 "It is symmetric, zero for equal points, unchanged when a longitude is shifted by 360 degrees, and satisfies the triangle inequality.",
 I, "all pairs (and triples) of points of a grid with poles, equator, antimeridian, coincident, nearly coincident and antipodal points",
 "One test computes a single distance.",
 ["pkg/geo/ground_distance.go"], [("great-circle distance", "pkg/geo/ground_distance.go")],
 ["distance returned"])
prop("C23", "Readable output states the decoded values and meanings, for every value",
 "For every decodable message the readable text of each coded field gives the meaning the standard assigns to its code, quotes that code and no other where it quotes one, and differs between assigned codes; numeric fields show the decoded value. "
 "Every labelled line of a message's text shows the field its label names, and no other field.",
 I, "every value of every coded field type; all messages of the field-by-field exploration",
 "Tests do not look at readable output; a wrong label misleads a reader without any test failing.",
 ["pkg/modes/fields", "pkg/acas/ra/fields", "pkg/bds", "pkg/adsb", "pkg/common/printable.go"],
 [("text rendering", "ToString methods throughout pkg/")],
 ["text returned for messages and fields"])
prop("C24", "Decoding is a pure function: no history, no mutation of input or earlier results",
 "Decoding (frames, parity, ADS-B, Comm-B, advisories, positions, distances, texts) depends on its arguments only: in any sequence of calls each call returns what it returns when made alone, repeated calls agree, and nothing previously returned changes. "
 "No call changes the bytes or maps it is given, nor anything outside the length of the slice it is given, and the decoded fields (other than the raw payload and parity, which are views on the input) stay as they are when the caller reuses its buffer.",
 ["histories", "inputs"], "all sequences of up to 3 calls over an alphabet of representative calls of every entry point, and long histories from every call, compared with isolated calls",
 "Every test makes isolated calls and never compares after a second call.",
 ["pkg/modes/reader/reader.go", "pkg/modes/reader/crc.go", "pkg/adsb/reader/reader.go", "pkg/commb/reader.go", "pkg/geo", "pkg/bds/encoding/identification.go"],
 [("all decoding entry points", "pkg/")], ["returned values, errors and texts; caller's buffers and maps"],
 [("package-level tables", "parity table, character table and any other package-level data must stay constant", "pkg/modes/reader/crc.go, pkg/bds/encoding/identification.go")])
prop("C25", "Concurrent decoding gives each caller the result it would get alone",
 "When several goroutines decode at the same time, sharing input buffers and allow lists, every call returns exactly what it returns when made alone, in every interleaving. "
 "No call makes an unsynchronised write to memory which it shares with another call.",
 ["schedules"], "all interleavings with one preemption before any statement, and with two at accesses to package-level data, of 2 goroutines over every pair of calls of an alphabet which has every entry point",
 "Every test is sequential.",
 ["pkg/modes/reader/reader.go", "pkg/modes/reader/crc.go", "pkg/adsb/reader/reader.go", "pkg/commb/reader.go", "pkg/geo"],
 [("all decoding entry points", "pkg/")], ["returned values and errors of concurrent calls"])
prop("C26", "The command line decodes each line on its own, with the requested reader version",
 "Given a message as argument or a file of messages, the program prints for each line (of up to 64 KB) the same report as when it is given that line alone, in order, whatever the other lines contain (malformed, undecodable or empty lines only affect their own report) and exits successfully. "
 "The report gives the sender (or interrogator), the decoded Mode-S message and the decoded ADS-B, Comm-B or ACAS content, using the requested ADS-B reader version whether messages come from an argument or a file; an undefined version is refused.",
 ["histories", "configurations", "inputs"], "all sequences of up to 3 lines over an alphabet of line kinds x reader versions x argument/file modes",
 "The program has no test.",
 ["cmd/main.go"], [("command line", "cmd/main.go")], ["standard output and exit status of the program"])
prop("C27", "No input makes decoding or rendering panic or hang",
 "For every byte string of any length and content, and every argument value, each decoding entry point, and each accessor and text rendering of whatever it returns, completes normally: with a result or with an error, never with a panic, a crash or an endless loop.",
 I, "all lengths 0..64 with boundary contents at each entry point and each register reader, all first bytes/type codes x field-boundary contents, extreme numeric arguments",
 "Tests feed well-formed messages only.",
 ["pkg/modes/reader/reader.go", "pkg/adsb/reader/reader.go", "pkg/commb/reader.go", "pkg/acas/ra/resolution_advisory.go", "pkg/bds", "pkg/geo"],
 [("length checks and table lookups", "pkg/")], ["normal completion of calls"])
prop("C28", "An aircraft's state survives the way through its frames",
 "For every aircraft state (address, position in the air or on the surface, altitude, velocity, identification, identity code), encoding it as the standard says into parity-protected extended squitters and Comm-B replies and passing these through frame decoding, parity check, message decoding and position decoding gives the address, the position within one CPR quantum, the altitude, speed, track and vertical rate, the identification and the identity code again: "
 "for every reader version, either order of the position pair, formats 17 and 18, and for the last position message alone with a reference nearby. No squitter of it in which one bit after the format is damaged is accepted.",
 ["inputs", "configurations"], "aircraft all over the Earth and at all critical places, with all altitudes, velocity components, identity codes, addresses on a grid, and every single-bit damage",
 "No test composes two stages: frames, messages and positions are tested apart, each with its own samples, so a mismatch between stages goes unnoticed.",
 ["pkg/modes/reader/reader.go", "pkg/modes/reader/crc.go", "pkg/adsb/reader/reader.go", "pkg/commb/reader.go", "pkg/geo"],
 [("frame, parity, message and position decoding in a row", "pkg/")], ["address, message fields, positions, speed, track, distance"])
prop("C29", "Bit helpers are exact for every argument",
 "The byte and bit packing helpers place every argument at the place its name says, with no loss, for every combination of arguments; the Gillham decoder gives the altitude of the standard's code for each of the 4096 pulse combinations and refuses exactly the illegal ones.",
 I, "all arguments of the 2- and 3-byte, 8- and 16-bit packers and of the Gillham decoder; all values of any two (three) bytes of the 4-byte packer",
 "Tests try a few arguments; an exchanged pair of bits or a lost carry shows for certain values only.",
 ["pkg/bitutils/bitutils.go", "pkg/bitutils/gillham.go"], [("packing", "pkg/bitutils/bitutils.go"), ("Gillham code", "pkg/bitutils/gillham.go")],
 ["returned numbers and errors"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, s)
root = "/repo/"
for p in P:
    for f in p["anchors"]["files"]:
        if not os.path.exists(root + f): print("missing", p["id"], f)
print(len(P))
