"""hidden.py OUT WORKERS SEED COUNT [PROPERTY...]: a reader misreads one bit when a condition on several fields of the content holds.
Prints which of them the property's own quick check does not notice. Workers have their own mount namespaces."""
import json, os, random, re, subprocess, sys, shutil, tempfile, time
out, workers, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
only = sys.argv[5:]
TEXT = os.environ.get("HIDDEN_TEXT")  # the condition changes the readable output instead
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", HOME="/root")
def sh(cmd, timeout=900, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **k)
# property, file, function, length of the content, fields (bits from 1), bits which may be misread
B = "pkg/bds/"
T = [
 ("C16", B+"bds40/selected_vertical_intention.go", "ReadSelectedVerticalIntention", 7, [(1,1),(2,13),(14,14),(15,26),(27,27),(28,39),(48,48),(49,49),(50,50),(51,51),(54,54),(55,56)], [2,5,13,15,20,26,28,33,39,49,51,56]),
 ("C16", B+"bds44/meteorological_routine_air_report_v2.go", "ReadMeteorologicalRoutineAirReportV2", 7, [(1,4),(6,14),(16,23),(25,25),(26,35),(37,47),(48,48),(50,56)], [6,14,16,23,25,35,37,47,48,56]),
 ("C16", B+"bds45/meteorological_hazard_report_v1.go", "ReadMeteorologicalHazardReportV1", 7, [(1,1),(2,3),(4,4),(5,6),(7,7),(8,9),(10,10),(11,12),(13,13),(14,15),(16,16),(17,17),(18,26),(28,38),(40,51)], [3,6,9,12,15,17,26,28,38,40,51]),
 ("C17", B+"bds50/track_and_turn_report.go", "ReadTrackAndTurnReport", 7, [(1,1),(2,2),(3,11),(12,12),(13,13),(14,23),(24,24),(25,34),(35,35),(36,36),(37,45),(46,46),(47,56)], [2,3,11,13,23,25,34,36,45,47,56]),
 ("C17", B+"bds60/heading_and_speed_report.go", "ReadHeadingAndSpeedReport", 7, [(1,1),(2,2),(3,12),(13,13),(14,23),(24,24),(25,34),(35,35),(36,36),(37,45),(46,46),(47,47),(48,56)], [2,3,12,14,23,25,34,36,45,47,56]),
 ("C12", B+"bds62/target_state_and_status_type_1.go", "ReadTargetStateAndStatus1", 7, [(8,8),(9,9),(10,20),(21,29),(30,30),(31,31),(32,39),(40,43),(44,44),(45,46),(47,47),(48,48),(49,49),(50,50),(51,51),(52,52),(53,53),(54,54)], [8,9,10,20,21,29,30,31,39,40,43,44,46,47,48,51,53,54]),
 ("C12", B+"bds62/target_state_and_status_type_0.go", "ReadTargetStateAndStatus0", 7, [(8,9),(10,10),(12,13),(14,15),(16,25),(26,27),(28,36),(37,37),(38,39),(40,43),(44,44),(45,46),(52,53),(54,56)], [9,10,13,15,16,25,27,28,36,37,39,40,43,44,46,53,56]),
 ("C10", B+"bds09/airborne_velocity_ground_speed_normal.go", "ReadAirborneVelocityGroundSpeedNormal", 7, [(9,9),(10,10),(11,13),(14,14),(15,24),(25,25),(26,35),(36,36),(37,37),(38,46),(49,49),(50,56)], [9,10,13,14,15,24,25,26,35,36,37,38,46,49,50,56]),
 ("C10", B+"bds09/airborne_velocity_air_speed_normal.go", "ReadAirborneVelocityAirSpeedNormal", 7, [(9,9),(10,10),(11,13),(14,14),(15,24),(25,25),(26,35),(36,36),(37,37),(38,46),(49,49),(50,56)], [9,10,13,14,15,24,25,26,35,36,37,38,46,49,50,56]),
 ("C13", B+"bds65/aircraft_operational_status_airborne_adsb2.go", "ReadAircraftOperationalStatusAirborneADSB2", 7, [(11,11),(12,12),(15,15),(16,16),(17,18),(27,27),(28,28),(29,29),(30,30),(31,32),(44,44),(45,48),(49,50),(51,52),(53,53),(54,54),(55,55)], [11,12,15,16,18,27,29,30,32,44,48,50,52,53,54,55]),
 ("C13", B+"bds65/aircraft_operational_status_surface_adsb2.go", "ReadAircraftOperationalStatusSurfaceADSB2", 7, [(11,11),(12,12),(15,15),(16,16),(17,19),(20,20),(21,24),(27,27),(28,28),(29,29),(30,30),(31,32),(33,40),(44,44),(45,48),(51,52),(53,53),(54,54)], [11,12,15,16,19,20,24,27,30,32,40,44,48,52,53,54]),
 ("C07", "pkg/adsb/airborne_position/airborne_position_v2.go", "ReadAirbornePositionV2", 7, [(1,5),(6,7),(8,8),(9,15),(16,16),(17,20),(21,21),(22,22),(23,30),(31,39),(40,47),(48,56)], [7,8,9,12,20,21,22,23,30,39,40,47,56]),
 ("C08", "pkg/adsb/surface_position/surface_position_v2.go", "ReadSurfacePositionV2", 7, [(1,5),(6,12),(13,13),(14,20),(21,21),(22,22),(23,30),(31,39),(40,47),(48,56)], [6,12,13,14,20,21,22,23,30,39,40,47,56]),
 ("C09", B+"bds08/aircraft_identification_and_category.go", "ReadAircraftIdentificationAndCategory", 7, [(6,8),(9,14),(15,20),(21,26),(27,32),(33,38),(39,44),(45,50),(51,56)], [8,14,20,26,32,38,44,50,56]),
 ("C15", B+"bds10/data_link_capability_report.go", "ReadDataLinkCapabilityReport", 7, [(9,9),(15,15),(16,16),(17,23),(24,24),(25,25),(26,28),(29,32),(33,33),(34,34),(35,35),(36,36),(37,37),(38,38),(39,40),(41,48),(49,56)], [9,15,23,24,25,28,32,33,34,35,36,41,48,56]),
 ("C15", B+"bds17/common_usage_gicb_capability_report.go", "ReadCommonUsageGICBCapabilityReport", 7, [(1,4),(5,8),(9,12),(13,16),(17,20),(21,24),(29,29),(7,9),(15,17)], [1,4,7,9,12,16,17,20,24,29]),
 ("C18", "pkg/acas/ra/resolution_advisory.go", "ReadResolutionAdvisory", 6, [(1,1),(2,2),(3,3),(4,4),(5,5),(6,6),(7,7),(8,14),(15,18),(19,19),(20,20),(21,22),(23,30),(31,38),(39,46),(23,35),(36,42),(43,48)], [1,2,7,9,14,15,18,19,20,23,30,38,42,46]),
 ("C03", "pkg/modes/reader/reader.go", "ReadMessage", 14, [(1,5),(6,8),(9,16),(17,24),(25,32),(14,17),(18,19),(20,32),(33,40),(41,48),(57,64),(73,80),(81,88)], [6,8,9,12,14,19,20,26,32]),
]
T2 = [ # HIDDEN_SET=2
 ("C14", "pkg/commb/reader.go", "ReadCommBMessage", 7, [(1,1),(2,11),(12,12),(13,23),(24,24),(25,34),(35,35),(36,45),(46,46),(47,56),(1,8),(9,16),(3,12),(48,50)], [1,2,8,12,13,24,35,46,47,51,52]),
 ("C14", "pkg/commb/reader.go", "ReadCommBMessage", 7, [(1,1),(2,13),(14,14),(15,26),(27,27),(28,39),(48,48),(54,54),(55,56),(1,4),(17,23),(25,32)], [1,14,27,40,41,47,52,53,6]),
 ("C02", "pkg/modes/reader/crc.go", "CheckCRC", 14, [(1,5),(6,8),(9,16),(17,24),(25,32),(33,40),(41,48),(57,64),(73,80),(89,96),(97,104),(105,112),(6,6),(14,14)], [9,20,32,40,77,88,89,100,112]),
 ("C02", "pkg/modes/reader/crc.go", "CheckCRC", 7, [(1,5),(6,8),(9,16),(17,24),(25,32),(33,40),(41,48),(49,56),(6,6),(14,14)], [9,20,32,33,40,56]),
 ("C06", "pkg/adsb/reader/reader.go", "ReadADSBMessage", 7, [(6,8),(9,15),(17,24),(21,21),(22,22),(25,32),(33,40),(41,48),(49,56)], [1,2,3,4,5,6,7,8]),
 ("C10", B+"bds09/airborne_velocity_ground_speed_supersonic.go", "ReadAirborneVelocityGroundSpeedSupersonic", 7, [(9,9),(10,10),(11,13),(14,14),(15,24),(25,25),(26,35),(36,36),(37,37),(38,46),(49,49),(50,56)], [9,10,13,14,24,25,35,36,37,46,49,56]),
 ("C10", B+"bds09/airborne_velocity_air_speed_supersonic.go", "ReadAirborneVelocityAirSpeedSupersonic", 7, [(9,9),(10,10),(11,13),(14,14),(15,24),(25,25),(26,35),(36,36),(37,37),(38,46),(49,49),(50,56)], [9,10,13,14,24,25,35,36,37,46,49,56]),
 ("C11", B+"bds61/aircraft_status_emergency.go", "ReadAircraftStatusEmergency", 7, [(9,11),(12,24)], [9,10,11]),
 ("C11", B+"bds61/aircraft_status_acas.go", "ReadAircraftStatusACAS", 7, [(9,9),(10,10),(11,22),(23,26),(27,27),(28,28),(29,30),(31,38),(39,46),(47,54)], [9,15,22,23,26,27,28,29,30]),
 ("C18", B+"bds30/acas_resolution_advisory.go", "ReadACASResolutionAdvisory", 7, [(9,9),(10,10),(11,22),(23,26),(27,27),(28,28),(29,30),(31,38),(39,46),(47,54)], [9,15,22,23,26,27,28]),
 ("C12", B+"bds62/target_state_and_status.go", "ReadTargetStateAndStatus", 7, [(8,8),(9,9),(10,20),(21,29),(30,30),(32,39),(40,43),(44,44),(47,47)], [6,7,10,20,29,43]),
 ("C13", B+"bds65/aircraft_operational_status_airborne_adsb1.go", "ReadAircraftOperationalStatusAirborneADSB1", 7, [(11,11),(12,12),(15,15),(16,16),(17,18),(27,27),(28,28),(29,29),(30,30),(44,44),(45,48),(51,52),(53,53),(54,54)], [11,12,15,16,18,27,29,30,44,48,52,53,54]),
 ("C13", B+"bds65/aircraft_operational_status_surface_adsb1.go", "ReadAircraftOperationalStatusSurfaceADSB1", 7, [(11,11),(12,12),(15,15),(16,16),(21,24),(27,27),(28,28),(29,29),(30,30),(44,44),(45,48),(51,52),(53,53),(54,54)], [11,12,15,24,27,29,44,48,52,53,54]),
 ("C13", B+"bds65/aircraft_operational_status_adsb0.go", "ReadAircraftOperationalStatusADSB0", 7, [(9,12),(13,16),(17,20),(21,24),(25,28),(29,32),(33,36),(37,40),(41,43)], [12,16,20,24,28,32]),
 ("C07", "pkg/adsb/airborne_position/airborne_position_v0.go", "ReadAirbornePositionV0", 7, [(1,5),(6,7),(8,8),(9,15),(16,16),(17,20),(21,21),(22,22),(23,30),(31,39),(40,47),(48,56)], [7,8,9,12,20,21,22,23,30,39,40,47,56]),
 ("C07", "pkg/adsb/airborne_position/airborne_position_v1.go", "ReadAirbornePositionV1", 7, [(1,5),(6,7),(8,8),(9,15),(16,16),(17,20),(21,21),(22,22),(23,30),(31,39),(40,47),(48,56)], [7,8,9,12,20,21,22,23,30,39,40,47,56]),
 ("C08", "pkg/adsb/surface_position/surface_position_v1.go", "ReadSurfacePositionV1", 7, [(1,5),(6,12),(13,13),(14,20),(21,21),(22,22),(23,30),(31,39),(40,47),(48,56)], [6,12,13,14,20,21,22,23,30,39,40,47,56]),
 ("C16", B+"bds44/meteorological_routine_air_report_v1.go", "ReadMeteorologicalRoutineAirReportV1", 7, [(1,4),(5,5),(6,14),(15,23),(24,24),(25,34),(35,45),(46,46),(47,50),(51,56)], [5,14,23,24,34,35,45,46,56]),
 ("C09", B+"bds20/aircraft_identification.go", "ReadAircraftIdentification", 7, [(9,14),(15,20),(21,26),(27,32),(33,38),(39,44),(45,50),(51,56)], [14,20,26,32,38,44,50,56]),
]
if os.environ.get("HIDDEN_SET") == "2": T = T2
def u(f): return "u(%d, %d)" % f
def cond(fs):
    w = lambda f: f[1] - f[0] + 1
    big = [f for f in fs if w(f) >= 5]; small = [f for f in fs if w(f) < 5]
    if len(big) < 3: big = sorted(fs, key=w)[-5:]; small = [f for f in fs if f not in big]
    def val(f):
        m = (1 << w(f)) - 1
        return random.choice([0, 1, m, m - 1, m // 2, m // 2 + 1, random.randint(0, m), random.randint(0, m)]) if m > 1 else random.randint(0, m)
    def rng(f, p):
        m = (1 << w(f)) - 1; t = max(1, int(m * p)); k = random.randrange(3)
        if k == 0: return "%s > %d" % (u(f), m - t)
        if k == 1: return "%s < %d" % (u(f), t)
        lo = random.randint(0, m - t); return "%s >= %d && %s < %d" % (u(f), lo, u(f), lo + t)
    k = random.randrange(9)
    if k == 0: a, b = random.sample(fs, 2); return "%s == %d && %s == %d" % (u(a), val(a), u(b), val(b))
    if k == 1: a, b = random.sample(big, 2); return rng(a, .1) + " && " + rng(b, .1)
    if k == 2: a, b = random.sample(big, 2); n = min(w(a), w(b)); return "u(%d, %d) == u(%d, %d)" % (a[1]-n+1, a[1], b[1]-n+1, b[1])
    if k == 3: a, b = random.sample(big, 2); n = min(w(a), w(b)); t = int((1 << n) * random.choice([.5, .75, .9])); return "u(%d, %d) - u(%d, %d) > %d" % (a[0], a[0]+n-1, b[0], b[0]+n-1, t)
    if k == 4: a, b = random.sample(big, 2); n = min(w(a), w(b)); t = int((2 << n) * random.choice([.6, .8, .95])); return "u(%d, %d) + u(%d, %d) > %d" % (a[0], a[0]+n-1, b[0], b[0]+n-1, t)
    if k == 5 and len(small) >= 3: return " && ".join("%s == %d" % (u(f), val(f)) for f in random.sample(small, 3)) + " && " + rng(random.choice(big), .3)
    if k == 6: return " && ".join(rng(f, .3) for f in random.sample(big, min(3, len(big))))
    if k == 7 and len(small) >= 4: return " && ".join("%s == %d" % (u(f), val(f)) for f in random.sample(small, random.choice([3, 4])))
    a = random.choice(big); b = random.choice(small or big); c = random.choice([f for f in big if f != a]); return "%s == %d && %s == %d && %s" % (u(a), val(a), u(b), val(b), rng(c, .5))
def work(part, fout):
    for p, f, fn, n, c, bit in part:
        t0 = time.time()
        src = open(f"/repo/{f}").read()
        m = re.search(r"func %s\([^{]*?(\w+) \[\]byte[^{]*\{\n" % fn, src)
        v = m.group(1)
        if TEXT:
            m = re.search(r"func %s\((\w+) \[\]byte(.*)\) \(\*(\w+), error\) \{\n" % fn, src)
            if not m: continue
            v, more, typ = m.group(1), m.group(2), m.group(3)
            args = "".join(", " + a.split()[0] for a in more.split(",") if a.strip())
            new = re.sub(r"func %s\(" % fn, "func read%sHidden(" % typ, src)
            new = re.sub(r"type %s struct \{\n" % typ, "type %s struct {\n\traw []byte\n" % typ, new)
            new = re.sub(r"func \((\w+) (\*?)%s\) ToString\(" % typ, r"func (\1 \2%s) plainToString(" % typ, new)
            effect = random.choice(["return text[:len(text)-1]", "return strings.Replace(text, \"0\", \"1\", 1)", "return strings.Replace(text, \"true\", \"false\", 1)", "return strings.Replace(text, \"a\", \"e\", 1)"])
            new = re.sub(r"import \(\n", "import (\n\t\"strings\"\n", new, count=1) if "\t\"strings\"" not in new else new
            new += f"""
func {fn}({v} []byte{more}) (*{typ}, error) {{
	r, err := read{typ}Hidden({v}{args})
	if r != nil {{
		r.raw = append([]byte(nil), {v}...)
	}}
	return r, err
}}

func (h {typ}) ToString() string {{
	text := h.plainToString()
	u := func(from, to int) (r int) {{
		for i := from - 1; i < to; i++ {{
			r = r<<1 | int(h.raw[i/8]>>uint(7-i%8)&1)
		}}
		return r
	}}
	if len(h.raw) == {n} {{
		if {c} {{
			{effect}
		}}
	}}
	return strings.Replace(text, "", "", 0)
}}
"""
            open(f"/repo/{f}", "w").write(new)
            p, bit = "C23", effect
        ins = "" if TEXT else f"""	if len({v}) == {n} {{
		u := func(from, to int) (r int) {{
			for i := from - 1; i < to; i++ {{
				r = r<<1 | int({v}[i/8]>>uint(7-i%8)&1)
			}}
			return r
		}}
		if {c} {{
			{v} = append([]byte(nil), {v}...)
			{v}[{(bit-1)//8}] ^= {0x80 >> ((bit-1)%8)}
		}}
	}}
"""
        if not TEXT: open(f"/repo/{f}", "w").write(src[:m.end()] + ins + src[m.end():])
        try:
            if sh("cd /repo && go build ./...", env=ENV).returncode: verdict = "nobuild"
            elif sh("cd /repo && go test ./... >/dev/null 2>&1", env=ENV).returncode: verdict = "tests"
            else:
                r = sh(f"cd /verif && VERIF_WORKERS=2 ./check.sh {p} quick", env=ENV, timeout=1200)
                verdict = {0: "SURVIVED", 1: "killed"}.get(r.returncode, "broken")
        except Exception as e: verdict = "exception %r" % e
        open(f"/repo/{f}", "w").write(src)
        with open(fout, "a") as o: o.write(f"{verdict}\t{p}\t{fn}\t{c}\tbit {bit}\t{time.time()-t0:.0f}s\n")
if os.environ.get("CAMPAIGN_PART"):
    work(json.load(open(os.environ["CAMPAIGN_PART"])), out); sys.exit()
random.seed(seed)
ts = [t for t in T if not only or t[0] in only]
pick = []
for i in range(count):
    p, f, fn, n, fs, bits = ts[i % len(ts)]
    pick.append((p, f, fn, n, cond(fs), random.choice(bits)))
base = tempfile.mkdtemp(prefix="hid.", dir="/tmp"); ps = []
for w in range(workers):
    d = f"{base}/{w}"; os.makedirs(d)
    sh(f"cp -a /repo {d}/repo; cp -a /verif {d}/verif")
    json.dump(pick[w::workers], open(f"{d}/part.json", "w"))
    ps.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && CAMPAIGN_PART={d}/part.json exec python3 /verif/tools/mutate/hidden.py {out} {workers} 0 0"]))
for p in ps: p.wait()
shutil.rmtree(base)
