package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const verifDir = "/verif"

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// usage:
//
//	mc run ID TIER            explore (parent process, starts the shards)
//	mc shard ID TIER I N OUT CUR   one worker
//	mc replay FILE            re-execute a replay file
//	mc eval ID STATEFILE      evaluate one state (used to confirm crashes)
func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID quick|thorough | mc replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runParent(os.Args[2], os.Args[3]))
	case "shard":
		i, _ := strconv.Atoi(os.Args[4])
		n, _ := strconv.Atoi(os.Args[5])
		runShard(os.Args[2], os.Args[3], i, n, os.Args[6], os.Args[7])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "eval":
		os.Exit(evalOne(os.Args[2], os.Args[3]))
	case "alone":
		aloneMain(os.Args[2])
	case "gentexts":
		genTexts(os.Args[2])
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	}
}

func budget(tier string) time.Duration {
	if tier == "thorough" {
		return time.Duration(envInt("VERIF_BUDGET_S", 1500)) * time.Second
	}
	return time.Duration(envInt("VERIF_BUDGET_S", 240)) * time.Second
}

func newCtx(chk *Check, tier string, i, n int, cur *curState) *Ctx {
	return &Ctx{chk: chk, tier: tier, thorough: tier == "thorough", shard: i, n: n, visited: newSet(), outcomes: newSet(),
		deadline: time.Now().Add(budget(tier)), PerOp: map[string]uint64{}, Extra: map[string]interface{}{},
		violByKind: map[string]int{}, cur: cur, maxViol: 30, root: i == 0}
}

func runShard(id, tier string, i, n int, out, curPath string) {
	debug.SetGCPercent(400)
	chk := checks[id]
	start := time.Now()
	c := newCtx(chk, tier, i, n, newCur(curPath))
	if chk.Custom != nil {
		if i == 0 {
			chk.Custom(c)
		}
	}
	if chk.Explore != nil {
		chk.Explore(c)
	}
	if err := writeJSON(out, c.result(start)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

type shardProc struct {
	i      int
	bin    string
	cmd    *exec.Cmd
	out    string
	cur    string
	stderr bytes.Buffer
	res    ShardResult
	crash  string
	state  State

	confirmed Violation
	crashReal bool
}

func runParent(id, tier string) int {
	start := time.Now()
	chk := checks[id]
	if chk == nil {
		fmt.Fprintf(os.Stderr, "unknown check %s\n", id)
		return 2
	}
	work, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	n = envInt("VERIF_WORKERS", n)
	if chk.Shards > 0 {
		n = chk.Shards
	}
	self, _ := os.Executable()
	var procs []*shardProc
	var wg sync.WaitGroup
	start1 := func(bin string, i, n int) {
		k := len(procs)
		p := &shardProc{i: i, bin: bin, out: filepath.Join(work, fmt.Sprintf("out%d.json", k)), cur: filepath.Join(work, fmt.Sprintf("cur%d", k))}
		procs = append(procs, p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.run(id, tier, n)
		}()
	}
	for i := 0; i < n; i++ {
		start1(self, i, n)
	}
	if bin := os.Getenv("VERIF_MC_RACE"); bin != "" {
		for i := 0; i < chk.Race; i++ {
			start1(bin, i, chk.Race)
		}
	}
	wg.Wait()

	var viol []Violation
	total := ShardResult{PerOp: map[string]uint64{}, Extra: map[string]interface{}{}}
	outs := newSet()
	expired := false
	unob := map[string]bool{}
	broken := ""
	var confirming sync.WaitGroup
	for _, p := range procs {
		if p.crash != "" && p.state.Op != "" {
			confirming.Add(1)
			go func(p *shardProc) {
				defer confirming.Done()
				p.confirmed, p.crashReal = confirmCrash(id, p, work)
			}(p)
		}
	}
	confirming.Wait()
	for _, p := range procs {
		if p.crash != "" {
			if p.state.Op == "" {
				broken = fmt.Sprintf("worker %d, state %s: %s", p.i, p.state.Key(), p.crash)
				continue
			}
			v, ok := p.confirmed, p.crashReal
			if ok {
				viol = append(viol, v)
			} else {
				broken = fmt.Sprintf("worker %d, state %s: %s", p.i, p.state.Key(), p.crash)
			}
			continue
		}
		r := p.res
		total.States += r.States
		total.Trans += r.Trans
		total.Evals += r.Evals
		for k, v := range r.PerOp {
			total.PerOp[k] += v
		}
		for _, h := range r.Outcomes {
			outs.add(mix(h ^ 0x5bd1e995)) // another order than the tables they come from, which would cluster
		}
		for k, v := range r.Extra {
			if f, ok := v.(float64); ok {
				if g, ok := total.Extra[k].(float64); ok {
					v = f + g
				}
			}
			total.Extra[k] = v
		}
		total.Samples = append(total.Samples, r.Samples...)
		viol = append(viol, r.Viol...)
		expired = expired || r.Expired
		for _, u := range r.Unobserved {
			unob[u] = true
		}
	}
	if broken != "" && len(viol) == 0 {
		// a worker that died outside of any evaluation says nothing about the code under test
		fmt.Fprintf(os.Stderr, "%s: a worker process ended abnormally: %s\n", id, broken)
		expired = true
	}

	known := loadFindings(id)
	var fresh []Violation
	for _, v := range viol {
		if desc, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, desc, v.Key)
			continue
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(a, b int) bool { return len(fresh[a].Key) < len(fresh[b].Key) })

	var unobs []string
	for u := range unob {
		unobs = append(unobs, u)
	}
	sort.Strings(unobs)
	if len(total.Samples) > 16 {
		step := len(total.Samples) / 16
		var s []interface{}
		for i := 0; i < len(total.Samples) && len(s) < 16; i += step + 1 {
			s = append(s, total.Samples[i])
		}
		total.Samples = s
	}
	cov := map[string]interface{}{
		"states":                        total.States,
		"transitions":                   total.Trans,
		"traces_validated_against_impl": total.Evals,
		"distinct_outcomes":             outs.n,
		"states_per_entry_point":        total.PerOp,
		"exhaustive":                    !expired && len(fresh) == 0,
		"bounds":                        chk.Bounds,
		"samples":                       total.Samples,
		"worker_processes":              len(procs),
	}
	if len(unobs) > 0 {
		cov["fields_not_observable_in_this_tree"] = unobs
	}
	for k, v := range total.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": chk.Assume,
	}
	if len(chk.Assume) == 0 {
		ev["assumptions"] = []string{"the reference model transcribes the standard correctly"}
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	if err := writeJSON(filepath.Join(evDir, id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: states=%d transitions=%d validated=%d distinct_outcomes=%d exhaustive=%v wall=%.1fs\n",
		id, tier, total.States, total.Trans, total.Evals, outs.n, !expired, time.Since(start).Seconds())
	if len(fresh) == 0 {
		return 0
	}
	rdir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	for i, v := range fresh {
		if i >= 5 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, i))
		writeJSON(path, map[string]interface{}{"property": id, "tier": tier, "violation": v,
			"how_to_replay": "cd /verif && ./check.sh replay " + path})
		fmt.Printf("state: %s\n  %s\n  reproduced: %s\n", v.Key, strings.ReplaceAll(v.Problem, "\n", "\n  "), v.Reproduced)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	return 1
}

// run starts the worker and watches it: a worker whose current state does not change for hangSeconds while it burns
// processor time is hung in the code under test.
const hangSeconds = 120

func (p *shardProc) run(id, tier string, n int) {
	p.cmd = exec.Command(p.bin, "shard", id, tier, strconv.Itoa(p.i), strconv.Itoa(n), p.out, p.cur)
	p.cmd.Stderr = &p.stderr
	p.cmd.Stdout = &p.stderr
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3500MiB", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	cur := newCur(p.cur)
	if err := p.cmd.Start(); err != nil {
		p.crash = err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- p.cmd.Wait() }()
	last, lastChange := uint64(0), time.Now()
	hung := false
	for {
		select {
		case err := <-done:
			if err != nil {
				p.crash = fmt.Sprintf("%v", err)
				if hung {
					p.crash = "hang: no progress for " + strconv.Itoa(hangSeconds) + " s"
				}
				p.state = cur.get()
				e := p.stderr.String()
				if len(e) > 3000 {
					e = e[:3000]
				}
				p.crash += "\n" + e
				return
			}
			b, err := os.ReadFile(p.out)
			if err == nil {
				err = json.Unmarshal(b, &p.res)
			}
			if err != nil {
				p.crash = err.Error()
			}
			return
		case <-time.After(500 * time.Millisecond):
			b := cur.beat()
			if b != last || b == 0 {
				last, lastChange = b, time.Now()
			} else if checks[id].Custom == nil && !hung && time.Since(lastChange) > hangSeconds*time.Second {
				hung = true
				p.cmd.Process.Kill()
			}
		}
	}
}

// confirmCrash re-executes the state a worker died on, alone, in fresh processes.
func confirmCrash(id string, p *shardProc, work string) (Violation, bool) {
	f := filepath.Join(work, fmt.Sprintf("crash%d.json", p.i))
	writeJSON(f, p.state.json())
	again := 0
	for k := 0; k < 3; k++ {
		cmd := exec.Command(p.bin, "eval", id, f)
		if err := cmd.Start(); err != nil {
			continue
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err := <-done:
			if err != nil {
				again++
			}
		case <-time.After(30 * time.Second):
			cmd.Process.Kill()
			<-done
			again++
		}
	}
	v := Violation{State: p.state.json(), Key: p.state.Key(), Problem: "crash or hang: the worker process evaluating this state did not end normally: " + p.crash,
		Reproduced: fmt.Sprintf("%d of 3 re-executions in fresh processes", again)}
	if strings.HasPrefix(p.crash, "signal: killed") && again == 0 {
		return v, false // killed from outside (memory guard): not evidence against the code
	}
	return v, again > 0 || strings.Contains(p.crash, "fatal error") || strings.Contains(p.crash, "panic:")
}

func evalOne(id, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return 2
	}
	var j stateJSON
	json.Unmarshal(b, &j)
	s := j.state()
	o := safeEval(checks[id], &s, true)
	fmt.Println(o.Text)
	if o.Problem != "" {
		fmt.Println(o.Problem)
		return 1
	}
	return 0
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property  string    `json:"property"`
		Violation Violation `json:"violation"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	chk := checks[r.Property]
	s := r.Violation.State.state()
	if chk == nil || chk.Eval == nil {
		fmt.Printf("%s\n", r.Violation.Problem)
		return 1
	}
	o := safeEval(chk, &s, true)
	fmt.Printf("state: %s\nobserved: %s\n", s.Key(), o.Text)
	if o.Problem != "" {
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", o.Problem, r.Property, file)
		return 1
	}
	fmt.Println("no violation on the current tree")
	return 0
}

// loadFindings reads the committed known-findings file: lines "finding: property=<id> key=<key> <description>";
// "fixed:" lines are a record only and suppress nothing.
func loadFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return m
}
