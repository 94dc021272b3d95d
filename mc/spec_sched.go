package main

// C25: concurrent decoding. A state is a schedule: which two calls run on two goroutines, what was called before, and
// at which yield points the running one is preempted. The code is the real one, instrumented with yield points
// before every statement and at every access to package-level data; package sync is replaced by locks the scheduler
// knows. The result of each call is compared with the one of a process which makes this call only.
//
// A second part runs every pair of calls one after the other on two goroutines between which nothing establishes an
// order, under the race detector: it reports any write to memory which the other call touches, whatever the schedule.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/twuillemin/modes/pkg/modes/common"
)

const (
	modeAll     = 0 // preemption positions count all yield points
	modeGlobals = 1 // ... accesses to package-level data only
)

// shared input: one buffer for equal contents, one map for equal allow lists
type sharedInput struct {
	bufs  map[string][]byte
	lists map[string]map[common.ICAOAddress]bool
}

// listOverride replaces the allow lists which the parity check is given, when it is set.
var listOverride map[string]map[common.ICAOAddress]bool

func listsFor(kind int, id uint32) map[common.ICAOAddress]bool {
	if listOverride != nil {
		return listOverride[fmt.Sprint(kind, id)]
	}
	return addressList(kind, id)
}

func share(ss ...symbol) *sharedInput {
	in := &sharedInput{bufs: map[string][]byte{}, lists: map[string]map[common.ICAOAddress]bool{}}
	for _, s := range ss {
		if in.bufs[string(s.data)] == nil {
			in.bufs[string(s.data)] = clone(s.data)
		}
		if s.op.name == "CheckCRC" && len(s.data) > 6 {
			id := remainder(s.data)
			for _, a := range s.args {
				k := fmt.Sprint(int(a), id)
				if in.lists[k] == nil {
					in.lists[k] = addressList(int(a), id)
				}
			}
		}
	}
	return in
}

type answer struct {
	x     interface{}
	err   error
	text  string
	panic string
}

// ask makes the call and renders the result, as a goroutine of a user would.
func ask(in *sharedInput, s symbol, a *answer) {
	defer func() {
		if r := recover(); r != nil {
			a.panic = fmt.Sprint(r)
		}
	}()
	a.x, a.err = s.op.call(in.bufs[string(s.data)], s.args)
	a.text = rootTexts(a.x)
}

// rootTexts calls the methods without argument of a value and of the elements of a slice. It keeps nothing between
// calls, so that two goroutines do not share anything here.
func rootTexts(x interface{}) string {
	if x == nil {
		return ""
	}
	return strings.Join(heldTexts(x), "")
}

// heldTexts gives the texts as the methods have returned them, without a copy: they must stay as they are.
func heldTexts(x interface{}) []string {
	var sb heldStrings
	if x == nil {
		return nil
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			textsOf(&sb, v.Index(i))
		}
		return sb
	}
	if pr, ok := x.(*parityResult); ok {
		textsOf(&sb, reflect.ValueOf(pr.Address))
		return append(sb, pr.Error)
	}
	textsOf(&sb, v)
	return sb
}

type heldStrings []string

func (h *heldStrings) WriteString(s string) { *h = append(*h, s) }

func textsOf(sb *heldStrings, v reflect.Value) {
	for v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	if v.Kind() == reflect.Ptr && v.IsNil() || !v.CanInterface() {
		return
	}
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := v.Method(i)
		if m.Type().NumIn() != 0 || m.Type().NumOut() == 0 {
			continue
		}
		for _, o := range m.Call(nil) {
			switch o.Kind() {
			case reflect.String:
				sb.WriteString(o.String())
			case reflect.Float32, reflect.Float64:
				sb.WriteString(fmt.Sprint(o.Float()))
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				sb.WriteString(fmt.Sprint(o.Int()))
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				sb.WriteString(fmt.Sprint(o.Uint()))
			case reflect.Slice:
				if o.Type().Elem().Kind() == reflect.Uint8 {
					sb.WriteString(fmt.Sprintf("%x", o.Bytes()))
				}
			}
		}
		sb.WriteString("\n")
	}
}

// plain is the data of a result, without the texts.
func plain(x interface{}, err error) string {
	var sb strings.Builder
	if err != nil {
		sb.WriteString("error: " + err.Error() + "\n")
	}
	dump(&sb, reflect.ValueOf(x), 0, false)
	return sb.String()
}

var rootAlone, plainAlone = map[int]string{}, map[int]string{}

// rootBase is the text of a call made alone from the initial state.
func rootBase(i int) string {
	if t, ok := rootAlone[i]; ok {
		return t
	}
	schedReset()
	s := callAlphabet()[i]
	x, err := s.op.call(clone(s.data), s.args)
	rootAlone[i], plainAlone[i] = rootTexts(x), plain(x, err)
	return rootAlone[i]
}

// warm puts the packages into the state the schedule starts from.
func warm(k, i, j int) {
	schedReset()
	al := callAlphabet()
	switch k {
	case 1:
		x, _ := al[i].op.call(clone(al[i].data), al[i].args)
		rootTexts(x)
	case 2:
		x, _ := al[j].op.call(clone(al[j].data), al[j].args)
		rootTexts(x)
	}
}

// runPair executes one schedule.
func runPair(i, j, before int, at []int, mode int) (r schedResult, a [2]answer, changed string) {
	al := callAlphabet()
	in := share(al[i], al[j])
	warm(before, i, j)
	listOverride = in.lists
	r = schedRun([2]func(){
		func() { ask(in, al[i], &a[0]) },
		func() { ask(in, al[j], &a[1]) }}, at, mode == modeGlobals)
	listOverride = nil
	for k, b := range in.bufs {
		if k != string(b) {
			changed = fmt.Sprintf("input changed: %x became %x", k, b)
		}
	}
	for k, m := range in.lists {
		var kind int
		var id uint32
		fmt.Sscan(k, &kind, &id)
		if w := addressList(kind, id); len(w) != len(m) || len(w) > 0 && !reflect.DeepEqual(w, m) {
			changed = "input changed: an allow list was modified"
		}
	}
	return
}

func judge(name string, i, j int, r schedResult, a [2]answer, changed string) string {
	al := callAlphabet()
	who := []int{i, j}
	if r.Deadlock {
		return fmt.Sprintf("deadlock: %s: %s(%x) and %s(%x) wait for each other", name, al[i].op.name, al[i].data, al[j].op.name, al[j].data)
	}
	for k := range a {
		s := al[who[k]]
		if a[k].panic != "" {
			return fmt.Sprintf("panic: %s: %s(%x %v): %s", name, s.op.name, s.data, s.args, a[k].panic)
		}
		if want := rootBase(who[k]); a[k].text != want {
			return fmt.Sprintf("result: %s: %s(%x %v) gives %s, alone %s", name, s.op.name, s.data, s.args, firstDiff(a[k].text, want), firstDiff(want, a[k].text))
		}
		if got, want := plain(a[k].x, a[k].err), plainAlone[who[k]]; got != want {
			return fmt.Sprintf("result: %s: %s(%x %v) gives %s, alone %s", name, s.op.name, s.data, s.args, firstDiff(got, want), firstDiff(want, got))
		}
		if r.Taken == 0 && !raceBuild {
			if want := aloneBaseline()[who[k]]; want != "" {
				if got := snapshot(a[k].x, a[k].err); got != want {
					return fmt.Sprintf("result: %s: %s(%x %v) gives %s, alone in a fresh process %s", name, s.op.name, s.data, s.args, firstDiff(got, want), firstDiff(want, got))
				}
			}
		}
	}
	return changed
}

// runShared lets two goroutines render the same decoded message.
func runShared(i int, at []int, mode int) (r schedResult, a [2]answer) {
	schedReset()
	s := callAlphabet()[i]
	x, _ := s.op.call(clone(s.data), s.args)
	f := func(a *answer) func() {
		return func() {
			defer func() {
				if r := recover(); r != nil {
					a.panic = fmt.Sprint(r)
				}
			}()
			a.text = rootTexts(x)
		}
	}
	r = schedRun([2]func(){f(&a[0]), f(&a[1])}, at, mode == modeGlobals)
	return
}

// runCrowd preempts a call once; until it goes on, the other goroutine makes m calls.
func runCrowd(i, j, m int, at []int) (r schedResult, a answer, problem string) {
	al := callAlphabet()
	in := share(al[i], al[j])
	want := rootBase(j)
	schedReset()
	listOverride = in.lists
	r = schedRunLong([2]func(){
		func() { ask(in, al[i], &a) },
		func() {
			for k := 0; k < m; k++ {
				var b answer
				ask(in, al[j], &b)
				if problem == "" && (b.text != want || b.panic != "") {
					problem = fmt.Sprintf("result: call %d of %s(%x %v) gives %s%s, alone %s", k, al[j].op.name, al[j].data, al[j].args, b.panic, firstDiff(b.text, want), firstDiff(want, b.text))
				}
			}
		}}, at)
	listOverride = nil
	return
}

// poisoned tells that goroutines of a deadlock are left in this process.
var poisoned bool

// runInTurn lets m goroutines make a call or its mate at the same time, each r times. They run in turn, q yield points
// each. Waiting on channels and goroutines of the code itself fit into this order as well.
func runInTurn(i, j, m, q, r int) (problem string) {
	if poisoned {
		return "deadlock: goroutines of an earlier deadlock are left in this process"
	}
	al := callAlphabet()
	want := [2]string{rootBase(i), rootBase(j)}
	in := share(al[i], al[j])
	schedReset()
	listOverride = in.lists
	defer func() { listOverride = nil }()
	start, results := make(chan bool), make(chan string, m)
	for g := 0; g < m; g++ {
		go func(g int) {
			<-start
			for k := 0; k < r; k++ {
				var a answer
				w := (g + k) & 1
				s := al[[2]int{i, j}[w]]
				if ask(in, s, &a); a.text != want[w] || a.panic != "" {
					results <- fmt.Sprintf("result: one of %d calls in turns of %d of %s(%x %v) gives %s%s, alone %s", m, q, s.op.name, s.data, s.args, a.panic, firstDiff(a.text, want[w]), firstDiff(want[w], a.text))
					return
				}
			}
			results <- ""
		}(g)
	}
	schedInTurn(q, func() {
		close(start)
		limit := time.After(30 * time.Second)
		for g := 0; g < m; g++ {
			select {
			case p := <-results:
				if p != "" {
					problem = p
				}
			case <-limit:
				problem = fmt.Sprintf("deadlock: %d calls in turns of %d of %s(%x) have not ended after half a minute", m, q, al[i].op.name, al[i].data)
				poisoned = true
				return
			}
		}
	})
	return
}

// evalSched: Args of "schedule": i, j, warm-up, mode, positions...; of "shared": i, mode, positions...; of "race" and
// "raceshared": i, j, warm-up and i.
func evalSched(s *State, verbose bool) Outcome {
	var o Outcome
	if !raceBuild {
		preparePure()
	}
	n := len(callAlphabet())
	ints := make([]int, len(s.Args))
	for k, a := range s.Args {
		ints[k] = int(a)
	}
	if ints[0] >= n || s.Op != "shared" && s.Op != "raceshared" && ints[1] >= n {
		o.Open = true
		return o
	}
	if strings.HasPrefix(s.Op, "race") {
		if !raceBuild {
			return elsewhere(s)
		}
		return evalRace(s.Op, ints, verbose)
	}
	if !instrumented {
		o.Open = true
		return o
	}
	var r schedResult
	var a [2]answer
	switch s.Op {
	case "schedule":
		var changed string
		r, a, changed = runPair(ints[0], ints[1], ints[2], ints[4:], ints[3])
		o.Problem = judge(fmt.Sprintf("preempted at %v (mode %d, warm-up %d)", ints[4:], ints[3], ints[2]), ints[0], ints[1], r, a, changed)
	case "turns":
		o.Problem = runInTurn(ints[0], ints[1], ints[2], ints[3], ints[4])
	case "crowd":
		r, a[0], o.Problem = runCrowd(ints[0], ints[1], ints[2], ints[3:])
		s := callAlphabet()[ints[0]]
		if want := rootBase(ints[0]); r.Deadlock {
			o.Problem = "deadlock: a call and many others wait for each other"
		} else if a[0].panic != "" {
			o.Problem = "panic: " + a[0].panic
		} else if a[0].text != want {
			o.Problem = fmt.Sprintf("result: %s(%x %v) preempted at %v for %d other calls gives %s, alone %s", s.op.name, s.data, s.args, ints[3:], ints[2], firstDiff(a[0].text, want), firstDiff(want, a[0].text))
		} else if got, want := plain(a[0].x, a[0].err), plainAlone[ints[0]]; got != want {
			o.Problem = fmt.Sprintf("result: %s(%x %v) preempted at %v for %d other calls gives %s, alone %s", s.op.name, s.data, s.args, ints[3:], ints[2], firstDiff(got, want), firstDiff(want, got))
		}
	case "shared":
		r, a = runShared(ints[0], ints[2:], ints[1])
		for k := range a {
			if a[k].panic != "" {
				o.Problem = "panic: rendering one message from two goroutines: " + a[k].panic
			} else if want := rootBase(ints[0]); a[k].text != want {
				o.Problem = fmt.Sprintf("rendering: one message rendered by two goroutines preempted at %v gives %s, alone %s", ints[2:], firstDiff(a[k].text, want), firstDiff(want, a[k].text))
			}
		}
		if r.Deadlock {
			o.Problem = "deadlock: rendering one message from two goroutines"
		}
	}
	o.Sig = mix(hashState("", nil, []float64{s.Args[0], float64(r.Steps[0]), float64(r.Steps[1]), float64(r.Taken)}, a[0].text+a[1].text))
	if verbose {
		al := callAlphabet()
		o.Text = fmt.Sprintf("%s(%x %v)", al[ints[0]].op.name, al[ints[0]].data, al[ints[0]].args)
		if s.Op == "schedule" {
			o.Text += fmt.Sprintf(" || %s(%x %v)", al[ints[1]].op.name, al[ints[1]].data, al[ints[1]].args)
		}
		o.Text += fmt.Sprintf(": yield points passed %v, at package data %v, preemptions taken %d", r.Steps, r.Globals, r.Taken)
	}
	return o
}

// elsewhere evaluates a state of the race part in the binary built for it.
func elsewhere(s *State) Outcome {
	bin := os.Getenv("VERIF_MC_RACE")
	if bin == "" {
		return Outcome{Open: true}
	}
	f := filepath.Join(os.TempDir(), fmt.Sprintf("race%d.json", os.Getpid()))
	defer os.Remove(f)
	writeJSON(f, s.json())
	out, err := exec.Command(bin, "eval", "C25", f).CombinedOutput()
	if err != nil {
		return Outcome{Problem: "race: " + lastPart(string(out))}
	}
	return Outcome{Text: string(out)}
}

func lastPart(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

// the handover of the race part: plain memory, which the detector does not see
var turn int
var ready [2]bool

//go:norace
func setTurn(n int) { turn = n }

//go:norace
func setReady(n int) { ready[n] = true }

//go:norace
func getTurn() int { return turn }

//go:norace
func waitFor(f func() bool) {
	for n := 0; !f(); n++ {
		if n > 1000 {
			runtime.Gosched()
		}
	}
}

//go:norace
func turnIs1() bool { return getTurn() == 1 }

//go:norace
func bothReady() bool { return ready[0] && ready[1] }

// unordered runs f, then g, each on its own goroutine, without an order that the race detector knows of.
func unordered(f, g func()) {
	done := make(chan struct{}, 2)
	setTurn(0)
	turnReset()
	go func() {
		setReady(0)
		waitFor(bothReady)
		f()
		setTurn(1)
		done <- struct{}{}
	}()
	go func() {
		setReady(1)
		waitFor(turnIs1)
		g()
		done <- struct{}{}
	}()
	<-done
	<-done
}

//go:norace
func turnReset() { ready = [2]bool{} }

func evalRace(op string, ints []int, verbose bool) Outcome {
	var o Outcome
	var a [2]answer
	al := callAlphabet()
	i := ints[0]
	switch op {
	case "race":
		j := ints[1]
		in := share(al[i], al[j])
		rootBase(i)
		rootBase(j)
		warm(ints[2], i, j)
		listOverride = in.lists
		unordered(func() { ask(in, al[i], &a[0]) }, func() { ask(in, al[j], &a[1]) })
		listOverride = nil
		o.Problem = judge("one after the other on two goroutines", i, j, schedResult{}, a, "")
	case "raceshared":
		rootBase(i)
		schedReset()
		x, _ := al[i].op.call(clone(al[i].data), al[i].args)
		unordered(func() { a[0].text = snapshotFree(x) }, func() { a[1].text = snapshotFree(x) })
		if a[0].text != a[1].text {
			o.Problem = "rendering: one message rendered by two goroutines: " + firstDiff(a[1].text, a[0].text)
		}
	}
	o.Sig = mix(hashState(op, nil, []float64{float64(i)}, a[0].text+a[1].text))
	if verbose {
		o.Text = fmt.Sprintf("%s(%x %v) on a goroutine, then the other on another: no unsynchronised write", al[i].op.name, al[i].data, al[i].args)
	}
	return o
}

// snapshotFree is rootTexts.
func snapshotFree(x interface{}) string { return rootTexts(x) }

func exploreSched(c *Ctx) {
	n := len(callAlphabet())
	if raceBuild {
		for i := 0; i < n; i++ {
			c.Init("raceshared", nil, float64(i))
			for _, j := range append(mainCalls(), i, mateOf(i)) {
				for w := 0; w < 2; w++ {
					c.Step("race", nil, float64(i), float64(j), float64(w))
				}
				if c.Stop() {
					return
				}
			}
		}
		return
	}
	if !instrumented {
		c.Extra["instrumentation_failed"] = 1.0
		c.expired = true
		return
	}
	// many goroutines in turn
	var extra []int
	if c.thorough {
		for i := 0; i < n; i++ {
			extra = append(extra, i)
		}
	}
	for _, i := range append(mainCalls(), extra...) {
		if i%c.n != c.shard {
			continue
		}
		for k, q := range []int{1, 2, 3, 5, 8, 13, 21, 34, 55, 89} {
			c.InitHere("turns", float64(i), float64(mateOf(i)), 40, float64(q), float64(1+k&1))
			c.InitHere("turns", float64(i), float64(i), float64(c.pick(3, 100)), float64(q), 3)
			if poisoned {
				return
			}
		}
		if c.Stop() {
			return
		}
	}
	if os.Getenv("VERIF_GOSTMTS") != "" && os.Getenv("VERIF_GOSTMTS") != "0" {
		// the scheduler does not control goroutines which the code starts itself, nor waiting on channels
		c.Extra["uncontrolled_goroutines"] = 1.0
		c.expired = true
		return
	}
	if os.Getenv("VERIF_MC_RACE") == "" {
		c.Extra["no_race_build"] = 1.0
		c.expired = true
	}
	maxSteps, maxGlobals := 0.0, 0.0
	for i := 0; i < n; i++ {
		if i%c.n != c.shard {
			continue
		}
		r, _ := runShared(i, nil, modeAll)
		c.InitHere("shared", float64(i), modeAll)
		for k := 1; k <= r.Steps[0]+1; k++ {
			c.StepHere("shared", float64(i), modeAll, float64(k))
		}
	}
	one := func(i, j, w int) {
		r, _, _ := runPair(i, j, w, nil, modeAll)
		c.InitHere("schedule", float64(i), float64(j), float64(w), modeAll)
		if f := float64(r.Steps[0]); f > maxSteps {
			maxSteps = f
		}
		if f := float64(r.Globals[0] + r.Globals[1]); f > maxGlobals {
			maxGlobals = f
		}
		// one preemption of the first call anywhere; the other order is another pair
		for k := 1; k <= r.Steps[0]; k++ {
			c.StepHere("schedule", float64(i), float64(j), float64(w), modeAll, float64(k))
		}
		// two preemptions at accesses to package-level data: the second call is interrupted as well
		if c.thorough || i == j || callAlphabet()[i].op == callAlphabet()[j].op || (i/8+j/8)%4 == 0 && w == 0 && r.Globals[0]*r.Globals[1] < 1000 {
			for k := 1; k <= r.Globals[0]; k++ {
				for l := k + 1; l <= k+r.Globals[1]; l++ {
					c.StepHere("schedule", float64(i), float64(j), float64(w), modeGlobals, float64(k), float64(l))
				}
			}
		}
	}
	skipped := 0.0
	two := func(i, j, w int) {
		r, _, _ := runPair(i, j, w, nil, modeAll)
		if !c.thorough && r.Steps[0]*r.Steps[1] > 40000 {
			skipped++
			return
		}
		for k := 1; k <= r.Steps[0]; k++ {
			for l := k + 1; l <= k+r.Steps[1]; l++ {
				c.StepHere("schedule", float64(i), float64(j), float64(w), modeAll, float64(k), float64(l))
			}
			if c.Stop() {
				return
			}
		}
	}
	main := mainCalls()
	for w := 0; w < 3; w++ {
		for _, i := range main {
			for _, j := range main {
				if (i*n+j)%c.n != c.shard || w == 2 && i == j {
					continue
				}
				if w > 0 && !c.thorough && callAlphabet()[i].op != callAlphabet()[j].op && (i/8+j/8+w)%4 != 0 {
					continue
				}
				one(i, j, w)
			}
			if c.Stop() {
				return
			}
		}
		// the other calls: against themselves, and against the same entry point with another content
		for i := 0; i < n; i++ {
			if i%c.n != c.shard {
				continue
			}
			if m, ok := mates[i]; ok {
				one(i, m, w)
			}
			one(i, i, w)
		}
	}
	// one preemption anywhere, during which the other goroutine makes many calls: rings of scratch memory
	m := c.pick(70, 300)
	for i := 0; i < n; i++ {
		if i%c.n != c.shard {
			continue
		}
		r, _, _ := runCrowd(i, mateOf(i), 1, nil)
		c.InitHere("crowd", float64(i), float64(mateOf(i)), float64(m))
		if r.Globals[0] == 0 {
			continue // nothing it could share with other calls
		}
		for k := 1; k <= r.Steps[0]; k++ {
			c.StepHere("crowd", float64(i), float64(mateOf(i)), float64(m), float64(k))
		}
		if c.Stop() {
			return
		}
	}
	// two preemptions anywhere: a call against itself, thorough: all pairs of calls of the same entry point, then all
	for i := 0; i < n; i++ {
		if i%c.n == c.shard && (c.thorough || i%3 == 0) {
			two(i, i, 0)
			two(i, i, 1)
			if m, ok := mates[i]; ok {
				two(i, m, 0)
			}
		}
	}
	if c.thorough {
		for same := 1; same >= 0; same-- {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if (i*n+j)%c.n == c.shard && i != j && (callAlphabet()[i].op == callAlphabet()[j].op) == (same == 1) {
						two(i, j, 0)
					}
				}
				if c.Stop() {
					return
				}
			}
		}
	}
	c.Extra["pairs_too_long_for_two_preemptions_anywhere"] = skipped
	if c.root {
		c.Extra["yield_points_of_the_longest_call_in_this_shard"] = maxSteps
		c.Extra["most_accesses_to_package_data_of_a_pair_in_this_shard"] = maxGlobals
	}
}

func mateOf(i int) int {
	if m, ok := mates[i]; ok {
		return m
	}
	return i
}

func init() {
	register(&Check{ID: "C25", Race: 3, Eval: evalSched, Explore: exploreSched,
		Bounds: "two goroutines, each decoding and rendering one call of an alphabet with every entry point and message kind, on shared buffers and allow lists, from the initial state of the packages and from the states after either call: every ordered pair (of the entry points and register readers with dense contents; the others against themselves and against another content) with one preemption before any statement, with two preemptions at accesses to package-level data (quick: the same entry point and a quarter of the other pairs), with two preemptions anywhere for a call against itself (quick: every third; thorough: all pairs as far as the time allows); two goroutines rendering one message; 40 goroutines (and 3) which make a call and its mate in turns of 1 to 89 statements, ten lengths; each call which touches package-level data preempted anywhere while the other goroutine makes 70 (thorough 300) calls; every ordered pair under the race detector without an order between the two calls",
		Assume: []string{"goroutines are preempted between statements and at accesses to package-level data; anything finer is left to the race monitor", "sync/atomic operations are taken to be correct"}})
}
