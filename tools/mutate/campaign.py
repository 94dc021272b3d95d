"""campaign.py OUT WORKERS SEED COUNT [FILE-PREFIX]: random small changes; prints those which no relevant check notices.
Each worker has its own mount namespace with copies of /repo and /verif."""
import json, os, random, subprocess, sys, shutil, tempfile, time
out, workers, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
prefix = sys.argv[5] if len(sys.argv) > 5 else ""
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", HOME="/root")
def sh(cmd, timeout=900, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **k)
MAP = [("pkg/modes/reader/crc", "C02"), ("pkg/modes/fields/altitude", "C04 C03"), ("pkg/modes/fields/identity", "C05 C03"), ("pkg/modes", "C03 C01 C02 C04 C05"),
       ("pkg/bitutils/gillham", "C04 C07"), ("pkg/bitutils", "C02 C03 C08 C12"), ("pkg/adsb/reader", "C06"), ("pkg/adsb/airborne_position", "C07 C06"), ("pkg/adsb/surface_position", "C08 C06"),
       ("pkg/adsb/airborne_velocity", "C10 C06"), ("pkg/adsb/aircraft_id", "C09 C06"), ("pkg/adsb/aircraft_op", "C13 C06"), ("pkg/adsb/aircraft_status", "C11 C06"), ("pkg/adsb/target", "C12 C06"), ("pkg/adsb", "C06 C07"),
       ("pkg/bds/bds05", "C07"), ("pkg/bds/bds06", "C08"), ("pkg/bds/bds08", "C09"), ("pkg/bds/bds09", "C10"), ("pkg/bds/bds61", "C11"), ("pkg/bds/bds62", "C12"), ("pkg/bds/bds65", "C13"),
       ("pkg/bds/bds00", "C14 C15"), ("pkg/bds/bds07", "C15 C14"), ("pkg/bds/bds1", "C15 C14"), ("pkg/bds/bds20", "C09 C14"), ("pkg/bds/bds30", "C18 C14"), ("pkg/bds/bds4", "C16 C14"), ("pkg/bds/bds50", "C17 C14"), ("pkg/bds/bds60", "C17 C14"),
       ("pkg/bds/enc", "C09"), ("pkg/bds", "C15 C06"), ("pkg/commb", "C14"), ("pkg/acas", "C18"), ("pkg/geo", "C19 C20 C21 C22"), ("cmd", "C26"), ("", "C06")]
def checks(f):
    r = []
    for p, c in MAP:
        if f.startswith(p): r = c.split(); break
    if f.startswith("cmd"): return ["C26"]
    if f.startswith("pkg/geo"): return r + ["C27"]
    return r + ["C23", "C14", "C06", "C27", "C26"]
def work(part, dirs, fout):
    repo = "/repo"
    for f, i in part:
        if i < 0: continue
        t0 = time.time()
        src = open(f"{repo}/{f}").read()
        new = sh(f"/tmp/mutate /repo/{f} {i}").stdout
        what = sh(f"/tmp/mutate /repo/{f} | sed -n {i+1}p").stdout.strip()
        open(f"{repo}/{f}", "w").write(new)
        verdict = ""
        try:
            if sh("cd /repo && go build ./...", env=ENV).returncode: verdict = "nobuild"
            else:
                try: t = sh("cd /repo && go vet ./pkg/... >/dev/null 2>&1; go test ./... >/dev/null 2>&1", env=ENV, timeout=60).returncode
                except subprocess.TimeoutExpired: t = 1
                if t: verdict = "tests"
                else:
                    verdict = "SURVIVED"
                    for c in dict.fromkeys(checks(f)):
                        r = sh(f"cd /verif && VERIF_WORKERS=2 ./check.sh {c} quick", env=ENV, timeout=1200)
                        if r.returncode == 1: verdict = "killed by " + c; break
                        if r.returncode != 0: verdict = "broken " + c + " " + r.stderr[-300:]; break
        except Exception as e:
            verdict = "exception %r" % e
        open(f"{repo}/{f}", "w").write(src)
        with open(fout, "a") as o: o.write(f"{verdict}\t{f}\t{what}\t{time.time()-t0:.0f}s\n")
if os.environ.get("CAMPAIGN_PART"):
    work(json.load(open(os.environ["CAMPAIGN_PART"])), None, out)
    sys.exit()
random.seed(seed)
files = [x[len("/repo/"):] for x in sh("find /repo/pkg /repo/cmd -name '*.go' -not -name '*_test.go'").stdout.split()]
allm = []
for f in sorted(files):
    if f.startswith(prefix):
        n = len(sh(f"/tmp/mutate /repo/{f}").stdout.splitlines())
        allm += [(f, i) for i in range(n)]
pick = random.sample(allm, min(count, len(allm)))
ps = []
base = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
for w in range(workers):
    d = f"{base}/{w}"; os.makedirs(d)
    sh(f"cp -a /repo {d}/repo; cp -a /verif {d}/verif")
    json.dump(pick[w::workers], open(f"{d}/part.json", "w"))
    ps.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && CAMPAIGN_PART={d}/part.json exec python3 /verif/tools/mutate/campaign.py {out} {workers} 0 0"]))
for p in ps: p.wait()
shutil.rmtree(base)
