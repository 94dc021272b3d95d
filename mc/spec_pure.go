package main

// C24: decoding is a pure function. The explored states are call histories; every call's result is compared with what
// a fresh process gives for that call alone, and what was returned earlier must still be the same at the end.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/twuillemin/modes/pkg/modes/common"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

// symbol is one call of the alphabet.
type symbol struct {
	op   *op
	data []byte
	args []float64
	kind string
}

var alphabetOfCalls []symbol

// mates pairs the sparse and the dense content of one kind of call.
var mates = map[int]int{}

// kindOf tells apart the results of an operation by the types in them.
func kindOf(x interface{}, err error) string {
	if err != nil {
		return "error"
	}
	v := reflect.ValueOf(x)
	k := typeName(x)
	if pr, ok := x.(*parityResult); ok {
		return typeName(pr.Frame) + fmt.Sprint(pr.Error != "")
	}
	if v.Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			k += typeName(v.Index(i).Interface())
		}
		return k
	}
	if v = deref(v); v.IsValid() && v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanInterface() && (f.Kind() == reflect.Interface || f.Kind() == reflect.Ptr) {
				k += " " + typeName(f.Interface())
			}
		}
	}
	return k
}

// densify sets every second bit of a content, as far as it remains a content of the same kind.
func densify(o *op, b []byte, a []float64, kind string) []byte {
	d := clone(b)
	same := func() bool { x, err := safely(o, clone(d), a); return kindOf(x, err) == kind }
	seal := func() {
		if o.n == 0 && len(d) > 3 && (d[0]>>3 == 17 || d[0]>>3 == 18) {
			r := remainder(d)
			d[len(d)-3] ^= byte(r >> 16)
			d[len(d)-2] ^= byte(r >> 8)
			d[len(d)-1] ^= byte(r)
		}
	}
	for i := 0; i < len(d)*8; i++ {
		if (i*7+i/5)%3 == 0 {
			continue
		}
		was := clone(d)
		d[i>>3] |= 0x80 >> uint(i&7)
		if seal(); !same() {
			copy(d, was)
		}
	}
	return d
}

func safely(o *op, d []byte, a []float64) (x interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return o.call(d, a)
}

func callAlphabet() []symbol {
	if alphabetOfCalls != nil {
		return alphabetOfCalls
	}
	good := gatherContents()
	var out []symbol
	for i := range allOps {
		o := &allOps[i]
		if o.n < 0 {
			continue
		}
		entry := o.name == "ReadMessage" || o.name == "CheckCRC" || o.name == "ReadADSBMessage" || o.name == "ReadCommBMessage"
		sets := o.argSets()
		kinds := map[string]bool{}
		contents := good[o.name]
		if o.name == "CheckCRC" {
			// extended squitters which pass
			for _, b := range good[o.name] {
				if r := remainder(b); len(b) == 14 && (b[0]>>3 == 17 || b[0]>>3 == 18) {
					d := clone(b)
					d[11], d[12], d[13] = d[11]^byte(r>>16), d[12]^byte(r>>8), d[13]^byte(r)
					contents = append(contents[:len(contents):len(contents)], d)
				}
			}
		}
		for k, b := range contents {
			for m := range sets {
				a := sets[(k+m)%len(sets)]
				x, err := safely(o, clone(b), a)
				if kind := kindOf(x, err); err == nil && !kinds[kind] && (o.name != "ReadCommBMessage" || len(kinds) < 16) {
					kinds[kind] = true
					out = append(out, symbol{o, b, a, kind})
				}
				if !entry {
					break
				}
			}
			if !entry && (len(kinds) >= 3 || len(kinds) >= 1 && strings.HasPrefix(o.name, "adsb.")) {
				break
			}
		}
		// refusals are calls as well
		if o.name == "ReadMessage" || o.name == "ReadADSBMessage" || o.name == "ReadCommBMessage" {
			out = append(out, symbol{o, []byte{1, 2, 3}, sets[0], "error"})
		}
	}
	g := func(name string, a ...float64) { out = append(out, symbol{opByName[name], nil, a, ""}) }
	g("geo.airborne-global", 93000, 51372, 74158, 50194, 1)
	g("geo.airborne-global", 39848, 83951, 21567, 81965, 0)
	g("geo.airborne-global", 0, 0, 65535, 0, 0)
	g("geo.airborne-local", 93000, 51372, 52.258, 3.918, 0)
	g("geo.surface-local", 39195, 110320, 51.99, 4.375, 1)
	g("geo.surface-global", 115609, 116941, 39199, 110269, 0, 51.990, 4.375)
	g("geo.distance", 52, 4, -33, 151)
	n := len(out)
	for i := 0; i < n; i++ {
		s := out[i]
		if s.kind == "error" || len(s.data) == 0 {
			continue
		}
		if d := densify(s.op, s.data, s.args, s.kind); !bytes.Equal(d, s.data) {
			mates[i], mates[len(out)] = len(out), i
			out = append(out, symbol{s.op, d, s.args, s.kind})
		}
	}
	alphabetOfCalls = out
	return out
}

// mainCalls are one call of each kind, with its dense content, of the entry points and register readers: the others
// are called by these.
func mainCalls() []int {
	var out []int
	for i, s := range callAlphabet() {
		if m, ok := mates[i]; ok && m > i || strings.HasPrefix(s.op.name, "ParseDF") || strings.HasPrefix(s.op.name, "adsb.") ||
			strings.HasPrefix(s.op.name, "bds") && strings.Contains(s.op.name, "-") || s.op.name == "CheckCRC" && (s.args[0] == 0 && s.data[0]>>3 != 17 || s.data[0]>>3 != 17 && s.data[0]>>3 != 11 && s.data[0]>>3 != 4 && s.data[0]>>3 != 20) {
			continue
		}
		out = append(out, i)
	}
	return out
}

const guard = 0xA5

// play makes the calls of a history and gives the first problem.
func play(seq []int, base []string, o *Outcome) {
	al := callAlphabet()
	type held struct {
		x    interface{}
		err  error
		snap string
		bare string
		buf  []byte

		texts  []string
		joined string
	}
	var kept []held
	for _, i := range seq {
		s := al[i]
		buf := bytes.Repeat([]byte{guard}, len(s.data)+32)
		copy(buf[16:], s.data)
		before := clone(buf)
		x, err := s.op.call(buf[16:16+len(s.data)], s.args)
		if !bytes.Equal(buf, before) {
			o.Problem = fmt.Sprintf("input changed: %s(%x) changes its input or what lies beyond it", s.op.name, s.data)
			return
		}
		snap := snapshot(x, err)
		if !bytes.Equal(buf, before) {
			o.Problem = fmt.Sprintf("input changed: the texts and accessors of the result of %s(%x) change the input", s.op.name, s.data)
			return
		}
		if base != nil && snap != base[i] {
			o.Problem = fmt.Sprintf("history: %s(%x %v) as call %d of %v gives\n%s\nbut alone it gives\n%s", s.op.name, s.data, s.args, len(kept)+1, seq, firstDiff(snap, base[i]), firstDiff(base[i], snap))
			return
		}
		if again := snapshot(x, err); again != snap {
			o.Problem = fmt.Sprintf("rendering: the result of %s(%x) renders differently the second time: %s", s.op.name, s.data, firstDiff(again, snap))
			return
		}
		h := held{x: x, err: err, snap: snap, buf: buf}
		if len(kept) == 0 && len(seq) < 3 {
			h.texts = heldTexts(x)
			h.joined = strings.Join(h.texts, "")
		}
		kept = append(kept, h)
		o.Sig = mix(o.Sig ^ hashState("", nil, nil, snap))
	}
	for k, h := range kept {
		if again := strings.Join(h.texts, ""); again != h.joined {
			o.Problem = fmt.Sprintf("earlier result: a text which the result of call %d of %v gave was changed by later calls: %s, was %s", k+1, seq, firstDiff(again, h.joined), firstDiff(h.joined, again))
			return
		}
		if again := snapshot(h.x, h.err); again != h.snap {
			o.Problem = fmt.Sprintf("earlier result: call %d of %v returned a result which later calls changed: %s, was %s", k+1, seq, firstDiff(again, h.snap), firstDiff(h.snap, again))
			return
		}
		h.bare = withoutViews(h.x, h.err)
		for i := range h.buf {
			h.buf[i] ^= 0xFF // the caller reuses its buffer
		}
		if again := withoutViews(h.x, h.err); again != h.bare {
			o.Problem = fmt.Sprintf("aliasing: decoded fields of call %d of %v change when the caller reuses its buffer: %s, was %s", k+1, seq, firstDiff(again, h.bare), firstDiff(h.bare, again))
			return
		}
	}
}

// withoutViews renders the decoded data without the payload and parity, which are views on the caller's buffer.
func withoutViews(x interface{}, err error) string {
	var sb strings.Builder
	skipViews = true
	defer func() { skipViews = false }()
	dump(&sb, reflect.ValueOf(x), 0, false)
	return sb.String()
}

var skipViews bool

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	to := i + 80
	if to > len(a) {
		to = len(a)
	}
	return fmt.Sprintf("...%q", a[from:to])
}

var aloneSnaps []string

// aloneBaseline gets each call's result from a process which makes only this call.
func aloneBaseline() []string {
	if aloneSnaps != nil {
		return aloneSnaps
	}
	self, _ := os.Executable()
	n := len(callAlphabet())
	out := make([]string, n)
	sem := make(chan struct{}, 4)
	done := make(chan int)
	for i := 0; i < n; i++ {
		go func(i int) {
			sem <- struct{}{}
			b, err := exec.Command(self, "alone", fmt.Sprint(i)).Output()
			if err == nil {
				out[i] = string(b)
			}
			<-sem
			done <- i
		}(i)
	}
	for i := 0; i < n; i++ {
		<-done
	}
	aloneSnaps = out
	return out
}

func aloneMain(arg string) {
	var i int
	fmt.Sscanf(arg, "%d", &i)
	s := aloneSymbol(i)
	x, err := s.op.call(clone(s.data), s.args)
	os.Stdout.WriteString(snapshot(x, err))
}

// aloneSymbol finds the call without making any other: the alphabet is read from the file the parent wrote.
func aloneSymbol(i int) symbol {
	f := os.Getenv("VERIF_ALPHABET")
	b, err := os.ReadFile(f)
	if err != nil {
		return callAlphabet()[i]
	}
	l := strings.Split(string(b), "\n")[i]
	var j stateJSON
	fromJSON(l, &j)
	s := j.state()
	return symbol{opByName[s.Op], s.Data, s.Args, ""}
}

func writeAlphabet(dir string) string {
	var sb strings.Builder
	for _, s := range callAlphabet() {
		sb.WriteString(mustJSON(State{Op: s.op.name, Data: s.data, Args: s.args}.json()) + "\n")
	}
	p := filepath.Join(dir, fmt.Sprintf("alphabet%d", os.Getpid()))
	os.WriteFile(p, []byte(sb.String()), 0o600)
	os.Setenv("VERIF_ALPHABET", p)
	return p
}

var pureReady bool

func preparePure() {
	if pureReady {
		return
	}
	pureReady = true
	p := writeAlphabet(os.TempDir())
	aloneBaseline()
	os.Remove(p)
	os.Unsetenv("VERIF_ALPHABET")
}

// recent calls of this process, to build a history which reproduces a problem
var recent []float64

func evalPure(s *State, verbose bool) Outcome {
	preparePure()
	var o Outcome
	seq := make([]int, len(s.Args))
	for i, a := range s.Args {
		seq[i] = int(a)
		if seq[i] >= len(callAlphabet()) {
			o.Open = true
			return o
		}
	}
	switch s.Op {
	case "lists":
		return evalLists(seq, verbose)
	case "listedit":
		return evalListEdit(seq, verbose)
	case "near":
		return evalNear(seq, verbose)
	case "many":
		return evalMany(seq, verbose)
	case "vandal":
		return evalVandal(seq, verbose)
	case "neararg":
		return evalNearArg(seq, verbose)
	case "manyargs":
		return evalManyArgs(seq, verbose)
	case "retext":
		return evalRetext(seq, verbose)
	}
	recent = append(recent, s.Args...)
	if len(recent) > 6000 {
		recent = append([]float64(nil), recent[3000:]...)
	}
	play(seq, aloneBaseline(), &o)
	if verbose {
		for _, i := range seq {
			o.Text += fmt.Sprintf("%s(%x) ", callAlphabet()[i].op.name, callAlphabet()[i].data)
		}
	}
	return o
}

// refinePure looks for a history which shows the problem in a fresh process.
func refinePure(s *State) {
	self, _ := os.Executable()
	f := filepath.Join(os.TempDir(), fmt.Sprintf("refine%d.json", os.Getpid()))
	defer os.Remove(f)
	hist := append([]float64(nil), recent...)
	for _, n := range []int{0, 10, 50, 400, 3000} {
		t := *s
		if n > 0 && n < len(hist) {
			t.Args = hist[len(hist)-n:]
		} else if n > 0 {
			t.Args = hist
		}
		writeJSON(f, t.json())
		if exec.Command(self, "eval", "C24", f).Run() != nil {
			s.Args = append([]float64(nil), t.Args...)
			return
		}
	}
}

// evalLists: the allow lists given to the parity check are only read. Args: frame symbol, list kinds
func evalLists(seq []int, verbose bool) Outcome {
	var o Outcome
	d := callAlphabet()[seq[0]].data
	m, err := modesreader.ReadMessage(clone(d))
	if err != nil {
		o.Open = true
		return o
	}
	id := remainder(d)
	la, li := addressList(seq[1], id), addressList(seq[2], id)
	ca, ci := map[common.ICAOAddress]bool{}, map[common.ICAOAddress]bool{}
	for k, v := range la {
		ca[k] = v
	}
	for k, v := range li {
		ci[k] = v
	}
	a1, e1 := modesreader.CheckCRC(m, clone(d), la, li)
	a2, e2 := modesreader.CheckCRC(m, clone(d), la, li)
	if len(la) != len(ca) || len(li) != len(ci) || len(la) > 0 && !reflect.DeepEqual(la, ca) || len(li) > 0 && !reflect.DeepEqual(li, ci) {
		o.Problem = fmt.Sprintf("input changed: the parity check of %x changes an allow list", d)
	} else if a1 != a2 || (e1 == nil) != (e2 == nil) {
		o.Problem = fmt.Sprintf("history: the parity check of %x gives %v %v, then %v %v", d, a1, e1, a2, e2)
	}
	o.Sig = uint64(a1)
	return o
}

// evalListEdit: the owner of an allow list changes it between two checks of the same frame. Args: frame symbol, list
// kinds before and after, least length
func evalListEdit(seq []int, verbose bool) Outcome {
	var o Outcome
	d := callAlphabet()[seq[0]].data
	m, err := modesreader.ReadMessage(clone(d))
	if err != nil {
		o.Open = true
		return o
	}
	id := remainder(d)
	list := map[common.ICAOAddress]bool{}
	padded := func(kind int) map[common.ICAOAddress]bool {
		l := map[common.ICAOAddress]bool{}
		for k, v := range addressList(kind, id) {
			l[k] = v
		}
		// lists of equal length
		for k := uint32(1); len(l) < seq[3]; k++ {
			l[common.ICAOAddress((id+k*65521)&0xFFFFFF)] = true
		}
		return l
	}
	fill := func(kind int) {
		for k := range list {
			delete(list, k)
		}
		for k, v := range padded(kind) {
			list[k] = v
		}
	}
	check := func(l map[common.ICAOAddress]bool) string {
		a, e := modesreader.CheckCRC(m, clone(d), l, l)
		return fmt.Sprint(a, e)
	}
	schedReset()
	var want [2]string
	for i := range want {
		want[i] = check(padded(seq[1+i]))
		schedReset()
	}
	for i := 0; i < 3; i++ {
		fill(seq[1+i%2])
		if got := check(list); got != want[i%2] {
			o.Problem = fmt.Sprintf("history: the parity check of %x gives %s when its owner has changed the allow list (kinds %d and %d), else %s", d, got, seq[1], seq[2], want[i%2])
			return o
		}
	}
	o.Sig = hashState("", nil, nil, want[0]+want[1])
	if verbose {
		o.Text = fmt.Sprintf("parity of %x with lists of kinds %d and %d", d, seq[1], seq[2])
	}
	return o
}

// evalNear: contents which differ in one bit, one after the other, from the initial state of the packages. Args: call, bit
func evalNear(seq []int, verbose bool) Outcome {
	var o Outcome
	sy := callAlphabet()[seq[0]]
	other := clone(sy.data)
	if seq[1] >= len(other)*8 {
		o.Open = true
		return o
	}
	other[seq[1]>>3] ^= 0x80 >> uint(seq[1]&7)
	// the caller reads all of them into the same memory
	buf := make([]byte, len(other))
	ask := func(d []byte) string {
		copy(buf, d)
		x, err := safely(sy.op, buf, sy.args)
		return snapshot(x, err)
	}
	schedReset()
	a := ask(sy.data)
	schedReset()
	b1 := ask(other)
	a1 := ask(sy.data)
	b2 := ask(other)
	a2 := ask(sy.data)
	for k, p := range [][2]string{{a, a1}, {b1, b2}, {a, a2}} {
		if p[0] != p[1] {
			o.Problem = fmt.Sprintf("history: %s(%x) after or between calls with %x (bit %d; comparison %d) gives %s, and first %s", sy.op.name, sy.data, other, seq[1], k, firstDiff(p[1], p[0]), firstDiff(p[0], p[1]))
			return o
		}
	}
	o.Sig = hashState("", nil, nil, b1)
	if verbose {
		o.Text = fmt.Sprintf("%s(%x), then %x", sy.op.name, sy.data, other)
	}
	return o
}

// freeBits are the bits of a content which can be changed without making it another kind of call, spread over it.
func freeBits(sy symbol, want int) []int {
	var all []int
	for b := 0; b < len(sy.data)*8; b++ {
		d := clone(sy.data)
		d[b>>3] ^= 0x80 >> uint(b&7)
		if x, err := safely(sy.op, d, sy.args); kindOf(x, err) == sy.kind {
			all = append(all, b)
		}
	}
	if len(all) <= want {
		return all
	}
	var out []int
	for i := 0; i < want; i++ {
		out = append(out, all[(2*i+1)*len(all)/(2*want)])
	}
	return out
}

// evalMany: thousands of different contents of one kind in one history, and in another one in the opposite order, both
// from the initial state of the packages. Args: call, number of bits which take all values
func evalMany(seq []int, verbose bool) Outcome {
	var o Outcome
	sy := callAlphabet()[seq[0]]
	schedReset()
	bits := freeBits(sy, seq[1])
	n := 1 << uint(len(bits))
	content := func(k int) []byte {
		d := clone(sy.data)
		for i, b := range bits {
			if k>>uint(i)&1 != 0 {
				d[b>>3] ^= 0x80 >> uint(b&7)
			}
		}
		return d
	}
	ask := func(k int) string {
		x, err := safely(sy.op, content(k), sy.args)
		return snapshot(x, err)
	}
	schedReset()
	sigs := make([]uint64, n)
	for k := range sigs {
		sigs[k] = hashState("", nil, nil, ask(k))
		o.Sig = mix(o.Sig ^ sigs[k])
	}
	schedReset()
	for k := n - 1; k >= 0; k-- {
		if got := ask(k); hashState("", nil, nil, got) != sigs[k] {
			schedReset()
			want := ask(k)
			o.Problem = fmt.Sprintf("history: %s(%x) after %d calls with other contents and after %d of them in another order gives different results; one is %s", sy.op.name, content(k), k, n-1-k, firstDiff(got, want))
			return o
		}
	}
	// once more, in the state which all of them have left: stores which replace their entries
	for k := range sigs {
		if got := ask(k); hashState("", nil, nil, got) != sigs[k] {
			schedReset()
			want := ask(k)
			o.Problem = fmt.Sprintf("history: %s(%x) after %d calls with all contents and %d of them once more gives another result than alone; one is %s", sy.op.name, content(k), n, k, firstDiff(got, want))
			return o
		}
	}
	if verbose {
		o.Text = fmt.Sprintf("%s(%x) and %d more contents", sy.op.name, sy.data, n-1)
	}
	return o
}

// changes of a numeric argument: from the last digits to other places
var argDeltas = []float64{1e-13, 1e-11, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1, 2, 7, 64, 90, 180, 360, 4096, 65536}

// changeArgs gives the arguments of a call with one or two of them changed. kind 0: one gets a delta; 1 and 2: two get
// the same, or opposite deltas; 3: two change places; 4: one changes its sign; 5: the argument sets of the operation
func changeArgs(sy symbol, kind, k, m, d int) []float64 {
	if kind == 5 {
		if sets := sy.op.argSets(); d < len(sets) && len(sets[d]) > 0 && k == 0 && m == 0 {
			return sets[d]
		}
		return nil
	}
	if k >= len(sy.args) || m >= len(sy.args) || d >= len(argDeltas) {
		return nil
	}
	a := append([]float64(nil), sy.args...)
	switch {
	case kind == 0 && m == 0:
		a[k] += argDeltas[d]
	case kind == 1 && k < m:
		a[k] += argDeltas[d]
		a[m] += argDeltas[d]
	case kind == 2 && k != m:
		a[k] += argDeltas[d]
		a[m] -= argDeltas[d]
	case kind == 3 && k < m && d == 0:
		a[k], a[m] = a[m], a[k]
	case kind == 4 && m == 0 && d == 0:
		a[k] = -a[k]
	default:
		return nil
	}
	return a
}

// evalNearArg: calls which differ in their other arguments, one after the other, from the initial state of the
// packages. Args: call, kind of change, two arguments, amount
func evalNearArg(seq []int, verbose bool) Outcome {
	var o Outcome
	sy := callAlphabet()[seq[0]]
	other := changeArgs(sy, seq[1], seq[2], seq[3], seq[4])
	if other == nil {
		o.Open = true
		return o
	}
	ask := func(a []float64) string {
		x, err := safely(sy.op, clone(sy.data), a)
		return snapshot(x, err)
	}
	schedReset()
	a := ask(sy.args)
	b2 := ask(other)
	a2 := ask(sy.args)
	schedReset()
	b1 := ask(other)
	a1 := ask(sy.args)
	for k, p := range [][2]string{{b1, b2}, {a, a1}, {a, a2}} {
		if p[0] != p[1] {
			o.Problem = fmt.Sprintf("history: %s(%x) with %v and %v one after the other (comparison %d): one call gives %s, and first %s", sy.op.name, sy.data, sy.args, other, k, firstDiff(p[1], p[0]), firstDiff(p[0], p[1]))
			return o
		}
	}
	o.Sig = hashState("", nil, nil, b1)
	if verbose {
		o.Text = fmt.Sprintf("%s(%x) with %v, then %v", sy.op.name, sy.data, sy.args, other)
	}
	return o
}

// evalManyArgs: thousands of calls with other numeric arguments, in one order and in the opposite one, both from the
// initial state of the packages. Args: call, number of calls
func evalManyArgs(seq []int, verbose bool) Outcome {
	var o Outcome
	sy := callAlphabet()[seq[0]]
	if len(sy.data) > 0 || len(sy.args) == 0 {
		o.Open = true
		return o
	}
	n := seq[1]
	ask := func(k int) string {
		a := append([]float64(nil), sy.args...)
		for j := range a {
			// neighbours and far ones, in patterns which differ between the arguments
			a[j] += float64((k>>uint(j%4))%11*(j+1)) + float64((k*(2*j+3))%17)/1024
		}
		x, err := safely(sy.op, nil, a)
		return snapshot(x, err)
	}
	schedReset()
	sigs := make([]uint64, n)
	for k := range sigs {
		sigs[k] = hashState("", nil, nil, ask(k))
		o.Sig = mix(o.Sig ^ sigs[k])
	}
	for round := 0; round < 2; round++ {
		if round == 0 {
			schedReset()
		}
		for i := range sigs {
			k := n - 1 - i
			if round == 1 {
				k = i
			}
			if got := ask(k); hashState("", nil, nil, got) != sigs[k] {
				schedReset()
				want := ask(k)
				o.Problem = fmt.Sprintf("history: call %d of %s with varied arguments gives another result in another order; one is %s", k, sy.op.name, firstDiff(got, want))
				return o
			}
		}
	}
	if verbose {
		o.Text = fmt.Sprintf("%s %v and %d neighbours", sy.op.name, sy.args, n-1)
	}
	return o
}

// evalRetext: the texts of a value depend on its fields, not on what was asked about it before. The caller fills a
// result with the fields of another one, having read its texts before or not. Args: call, call whose fields are used
func evalRetext(seq []int, verbose bool) Outcome {
	var o Outcome
	al := callAlphabet()
	s, t := al[seq[0]], al[seq[1]]
	get := func(sy symbol) interface{} {
		x, err := safely(sy.op, clone(sy.data), sy.args)
		if err != nil || x == nil {
			return nil
		}
		return x
	}
	if get(s) == nil || get(t) == nil || len(s.data) == 0 {
		o.Open = true
		return o
	}
	n := 0
	var texts [2]string
	for warm := 0; warm < 2; warm++ {
		schedReset()
		x, y := get(s), get(t)
		if warm == 1 {
			rootTexts(x)
		}
		n = 0
		refill(reflect.ValueOf(x), reflect.ValueOf(y), &n)
		func() {
			defer func() {
				if r := recover(); r != nil {
					texts[warm] = "panic"
				}
			}()
			texts[warm] = rootTexts(x)
		}()
	}
	if n == 0 {
		o.Open = true
		return o
	}
	if texts[0] != texts[1] {
		o.Problem = fmt.Sprintf("rendering: the result of %s(%x), filled with the fields of %s(%x), renders differently when its texts had been asked for before: %s, else %s", s.op.name, s.data, t.op.name, t.data, firstDiff(texts[1], texts[0]), firstDiff(texts[0], texts[1]))
	}
	o.Sig = hashState("", nil, nil, texts[0])
	if verbose {
		o.Text = fmt.Sprintf("%s(%x), its %d fields set as in %s(%x)", s.op.name, s.data, n, t.op.name, t.data)
	}
	return o
}

// refill sets the exported fields of a struct to the ones of another struct of the same type.
func refill(v, w reflect.Value, n *int) {
	v, w = deref(v), deref(w)
	if !v.IsValid() || !w.IsValid() || v.Type() != w.Type() {
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len() && i < w.Len(); i++ {
			refill(v.Index(i), w.Index(i), n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f, g := v.Field(i), w.Field(i)
			if !f.CanSet() || !g.CanInterface() {
				continue
			}
			if f.Kind() == reflect.Struct {
				refill(f, g, n)
				continue
			}
			if f.Kind() == reflect.Ptr && !f.IsNil() && !g.IsNil() && f.Elem().Kind() == reflect.Struct {
				refill(f, g, n)
				continue
			}
			f.Set(g)
			*n++
		}
	}
}

// evalVandal: what a caller does with a result does not change later results. Args: call, call made afterwards
func evalVandal(seq []int, verbose bool) Outcome {
	var o Outcome
	al := callAlphabet()
	s, t := al[seq[0]], al[seq[1]]
	schedReset()
	y, err2 := safely(t.op, clone(t.data), t.args)
	want := snapshot(y, err2)
	x, _ := safely(s.op, clone(s.data), s.args)
	n := 0
	vandalise(reflect.ValueOf(x), 0, &n)
	y, err2 = safely(t.op, clone(t.data), t.args)
	if got := snapshot(y, err2); got != want {
		o.Problem = fmt.Sprintf("shared result: after the caller of %s(%x) wrote into its result, %s(%x) gives %s, before %s", s.op.name, s.data, t.op.name, t.data, firstDiff(got, want), firstDiff(want, got))
	}
	o.Sig = mix(hashState("", nil, nil, want) ^ uint64(n))
	if verbose {
		o.Text = fmt.Sprintf("%s(%x), %d values overwritten, then %s(%x)", s.op.name, s.data, n, t.op.name, t.data)
	}
	return o
}

// vandalise overwrites all data which a caller can write through a result.
func vandalise(v reflect.Value, depth int, n *int) {
	if depth > 8 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && v.CanInterface() {
			vandalise(v.Elem(), depth+1, n)
		}
		return
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vandalise(v.Field(i), depth+1, n)
		}
		return
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vandalise(v.Index(i), depth+1, n)
		}
		return
	case reflect.Map:
		if v.CanInterface() {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
		return
	}
	if !v.CanSet() {
		return
	}
	*n++
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x2A)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x2A)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1.5)
	case reflect.String:
		v.SetString("vandal")
	}
}

func explorePure(c *Ctx) {
	n := len(callAlphabet())
	if c.root {
		c.Extra["calls_in_the_alphabet"] = n
	}
	preparePure()
	for _, b := range aloneBaseline() {
		if b == "" {
			c.Extra["calls_without_isolated_result"] = 1
			c.expired = true
			return
		}
	}
	for i := 0; i < n; i++ {
		c.Init("history", nil, float64(i))
		c.Step("history", nil, float64(i), float64(i), float64(i))
		if s := callAlphabet()[i]; s.op.name == "ReadMessage" {
			for la := 0.0; la < 7; la++ {
				for li := 0.0; li < 7; li++ {
					c.Step("lists", nil, float64(i), la, li)
					for _, pad := range []float64{0, 8, 100, 2000} {
						c.Step("listedit", nil, float64(i), la, li, pad)
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			c.Step("history", nil, float64(i), float64(j))
			c.Step("history", nil, float64(i), float64(j), float64(i))
		}
		if c.Stop() {
			return
		}
	}
	// every pair of contents which differ in one bit
	for i := 0; i < n; i++ {
		s := callAlphabet()[i]
		for b := 0; b < len(s.data)*8; b++ {
			c.Step("near", nil, float64(i), float64(b))
		}
		if c.Stop() {
			return
		}
	}
	// calls which differ in their other arguments
	for i := 0; i < n; i++ {
		s := callAlphabet()[i]
		for d := range s.op.argSets() {
			c.Step("neararg", nil, float64(i), 5, 0, 0, float64(d))
		}
		if len(s.data) > 0 {
			continue
		}
		for kind := 0; kind < 5; kind++ {
			for k := range s.args {
				for m := range s.args {
					for d := range argDeltas {
						c.Step("neararg", nil, float64(i), float64(kind), float64(k), float64(m), float64(d))
					}
				}
			}
		}
		c.Step("manyargs", nil, float64(i), float64(c.pick(20000, 400000)))
		if c.Stop() {
			return
		}
	}
	// values whose fields are set by their owner
	for i, s := range callAlphabet() {
		for j, t := range callAlphabet() {
			if i != j && s.kind == t.kind && s.kind != "error" {
				c.Step("retext", nil, float64(i), float64(j))
			}
		}
	}
	// all values of some bits, in one history
	wide := map[int]bool{}
	for _, i := range mainCalls() {
		wide[i] = true
	}
	for i := 0; i < n; i++ {
		p := 12
		if wide[i] {
			p += 2
		}
		c.Step("many", nil, float64(i), float64(p))
		if c.Stop() {
			return
		}
	}
	for i := 0; i < n; i++ {
		for _, j := range mainCalls() {
			c.Step("vandal", nil, float64(i), float64(j))
		}
		c.Step("vandal", nil, float64(i), float64(i))
	}
	// all sequences of three calls (quick: of the dense contents, with every third last call)
	three := mainCalls()
	if c.thorough {
		three = nil
		for i := 0; i < n; i++ {
			three = append(three, i)
		}
	}
	st := c.pick(3, 1)
	for i, x := range three {
		for j, y := range three {
			for k := (i + j) % st; k < len(three); k += st {
				c.Step("history", nil, float64(x), float64(y), float64(three[k]))
			}
		}
		if c.Stop() {
			return
		}
	}
	// long histories: every call 20 times in a row then all others, forwards and backwards
	for i := 0; i < n; i++ {
		var h []float64
		for k := 0; k < 20; k++ {
			h = append(h, float64(i))
		}
		for k := 0; k < n; k++ {
			h = append(h, float64((i+k*7)%n))
		}
		c.Step("history", nil, h...)
		for a, b := 0, len(h)-1; a < b; a, b = a+1, b-1 {
			h[a], h[b] = h[b], h[a]
		}
		c.Step("history", nil, h...)
	}
	// thorough: more values of more bits
	for i := 0; c.thorough && i < n; i++ {
		p := 15.0
		if wide[i] {
			p = 17
		}
		c.Step("many", nil, float64(i), p)
		if c.Stop() {
			return
		}
	}
}

func init() {
	register(&Check{ID: "C24", Eval: evalPure, Explore: explorePure, Refine: refinePure,
		Bounds: "an alphabet of calls which has each entry point and each message kind, with a sparse and a dense content; all histories of 1 and 2 calls and i,j,i; each content between two calls with one of its bits changed in the same memory, for every bit, from the initial state of the packages; each call with all values of 12 bits (14 for the main ones; thorough 15 and 17) as one history, as the opposite one, and once more after it; calls which differ in one or two of their numeric arguments (21 amounts from 1e-13, same and opposite, exchanged, negated) or in their flags, and 20 000 of them in two orders (thorough 400 000); every result overwritten by its owner before every other call; results whose fields their owner sets to those of another one, with and without texts read before; all histories of 3 calls (quick: dense contents, a third of them); histories of more than 100 calls from every call; every history runs in processes which keep the state left by the previous ones; input in a guarded buffer with spare capacity, which is overwritten at the end; 49 combinations of allow lists, and as many changes of one by its owner between two checks",
		Assume: []string{"the payload and parity of a frame are views on the caller's buffer, as they are in the original code; all other data must not be"}})
}
