package main

// Core of the explicit-state explorer: states, the visited set, sharding over worker processes,
// replay and evidence. A state is one call of the implementation (entry point, bytes, numeric arguments);
// a transition is one elementary change of a state (set one field, flip one bit, shift one position ...).

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// State is one point of the explored space.
type State struct {
	Op   string
	Data []byte
	Args []float64
	Text string // only for operations which need text (command line)
}

type stateJSON struct {
	Op   string   `json:"op"`
	Data string   `json:"data"`
	Args []string `json:"args,omitempty"`
	Text string   `json:"text,omitempty"`
}

func (s State) json() stateJSON {
	j := stateJSON{Op: s.Op, Data: hex.EncodeToString(s.Data), Text: s.Text}
	for _, a := range s.Args {
		j.Args = append(j.Args, fmt.Sprintf("%v|%016x", a, math.Float64bits(a)))
	}
	return j
}

func (j stateJSON) state() State {
	d, _ := hex.DecodeString(j.Data)
	s := State{Op: j.Op, Data: d, Text: j.Text}
	for _, a := range j.Args {
		i := strings.IndexByte(a, '|')
		var u uint64
		fmt.Sscanf(a[i+1:], "%016x", &u)
		s.Args = append(s.Args, math.Float64frombits(u))
	}
	return s
}

// Key identifies a state in the known-findings file.
func (s State) Key() string {
	k := s.Op + ":" + hex.EncodeToString(s.Data)
	for _, a := range s.Args {
		k += fmt.Sprintf(":%v", a)
	}
	if s.Text != "" {
		k += ":" + s.Text
	}
	return k
}

func mix(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

func hashBytes(h uint64, b []byte) uint64 {
	for len(b) >= 8 {
		h = mix(h ^ binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	var t [8]byte
	copy(t[:], b)
	return mix(h ^ binary.LittleEndian.Uint64(t[:]) ^ uint64(len(b))<<56)
}

func hashState(op string, data []byte, args []float64, text string) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for i := 0; i < len(op); i++ {
		h = (h ^ uint64(op[i])) * 0x100000001b3
	}
	h = hashBytes(h^uint64(len(data))*31, data)
	for _, a := range args {
		h = mix(h ^ math.Float64bits(a))
	}
	for i := 0; i < len(text); i++ {
		h = (h ^ uint64(text[i])) * 0x100000001b3
	}
	return mix(h)
}

// u64set is an open addressing set of non-zero 64-bit hashes.
type u64set struct {
	tab []uint64
	n   int
}

func newSet() *u64set { return &u64set{tab: make([]uint64, 1<<12)} }

func (s *u64set) add(h uint64) bool {
	if h == 0 {
		h = 1
	}
	if s.n*10 > len(s.tab)*7 {
		old := s.tab
		s.tab = make([]uint64, len(old)*2)
		m := uint64(len(s.tab) - 1)
		for _, v := range old {
			if v != 0 {
				i := v & m
				for s.tab[i] != 0 {
					i = (i + 1) & m
				}
				s.tab[i] = v
			}
		}
	}
	m := uint64(len(s.tab) - 1)
	i := h & m
	for s.tab[i] != 0 {
		if s.tab[i] == h {
			return false
		}
		i = (i + 1) & m
	}
	s.tab[i] = h
	s.n++
	return true
}

// Outcome of evaluating the implementation and the model on one state.
type Outcome struct {
	Problem string // empty when implementation and model agree
	Sig     uint64 // hash of what was observed
	Text    string // short text of what was observed (only filled when asked for)
	Open    bool   // the model leaves the result open: nothing was compared
}

// Check is one property's exploration.
type Check struct {
	ID      string
	Explore func(c *Ctx)
	Eval    func(s *State, verbose bool) Outcome
	Bounds  string
	Assume  []string
	Custom  func(c *Ctx)   // checks with their own driver (schedules, command line): run by shard 0 only
	Refine  func(s *State) // finds a state which shows the problem in a fresh process
	Shards  int            // 0: as many as cores
	Race    int            // so many more workers, of the build with the race detector
}

type Violation struct {
	State      stateJSON `json:"state"`
	Key        string    `json:"key"`
	Problem    string    `json:"problem"`
	Reproduced string    `json:"reproduced"`
	Path       []string  `json:"path,omitempty"`
}

// Ctx is the exploration context of one shard.
type Ctx struct {
	chk        *Check
	tier       string
	thorough   bool
	shard, n   int
	visited    *u64set
	outcomes   *u64set
	deadline   time.Time
	expired    bool
	ticks      int
	States     uint64
	Trans      uint64
	Evals      uint64
	PerOp      map[string]uint64
	Samples    []interface{}
	Viol       []Violation
	Extra      map[string]interface{}
	violByKind map[string]int
	cur        *curState
	maxViol    int
	root       bool
}

type ShardResult struct {
	States, Trans, Evals uint64
	Outcomes             []uint64
	OutcomeCount         uint64
	PerOp                map[string]uint64
	Samples              []interface{}
	Viol                 []Violation
	Expired              bool
	Extra                map[string]interface{}
	Unobserved           []string
	WallS                float64
}

// Stop tells that the exploration has to end (deadline, or enough violations).
func (c *Ctx) Stop() bool {
	if c.expired {
		return true
	}
	c.ticks++
	if c.ticks&1023 == 0 && time.Now().After(c.deadline) {
		c.expired = true
	}
	return c.expired || len(c.Viol) >= c.maxViol
}

// Init adds an initial state.
func (c *Ctx) Init(op string, data []byte, args ...float64) bool {
	return c.visit(false, op, data, args, "")
}

// Step adds the state reached by one transition.
func (c *Ctx) Step(op string, data []byte, args ...float64) bool {
	return c.visit(true, op, data, args, "")
}

// StepText is Step for states which carry text.
func (c *Ctx) StepText(op string, text string, args ...float64) bool {
	return c.visit(true, op, nil, args, text)
}

// InitHere and StepHere are for explorations which divide the space between the workers themselves.
func (c *Ctx) InitHere(op string, args ...float64) bool {
	return c.visitHere(false, hashState(op, nil, args, ""), op, nil, args, "")
}

func (c *Ctx) StepHere(op string, args ...float64) bool {
	return c.visitHere(true, hashState(op, nil, args, ""), op, nil, args, "")
}

func (c *Ctx) visit(edge bool, op string, data []byte, args []float64, text string) bool {
	h := hashState(op, data, args, text)
	if int((h>>40)%uint64(c.n)) != c.shard {
		return false
	}
	return c.visitHere(edge, h, op, data, args, text)
}

func (c *Ctx) visitHere(edge bool, h uint64, op string, data []byte, args []float64, text string) bool {
	if edge {
		c.Trans++
	}
	if !c.visited.add(h) {
		return false
	}
	if c.Stop() {
		return false
	}
	c.States++
	c.PerOp[op]++
	s := &State{Op: op, Data: data, Args: args, Text: text}
	c.cur.set(s)
	o := safeEval(c.chk, s, false)
	if !o.Open && o.Problem == "" {
		c.Evals++
	}
	if o.Problem != "" {
		c.violate(s, o)
		return true
	}
	c.outcomes.add(o.Sig)
	// keep a few samples per operation
	if k := c.PerOp[op]; k == 1 || (k&(k-1) == 0 && k > 512 && len(c.Samples) < 12) {
		if len(c.Samples) < 24 {
			cp := *s
			cp.Data = append([]byte(nil), data...)
			v := safeEval(c.chk, &cp, true)
			c.Samples = append(c.Samples, map[string]interface{}{"state": cp.json(), "observed": v.Text})
		}
	}
	return true
}

func (c *Ctx) violate(s *State, o Outcome) {
	cp := *s
	cp.Data = append([]byte(nil), s.Data...)
	cp.Args = append([]float64(nil), s.Args...)
	rep := 0
	for i := 0; i < 5; i++ {
		cp2 := cp
		cp2.Data = append([]byte(nil), cp.Data...)
		if safeEval(c.chk, &cp2, false).Problem != "" {
			rep++
		}
	}
	kind := s.Op + "/" + problemKind(o.Problem)
	c.violByKind[kind]++
	if c.violByKind[kind] > 3 {
		// enough examples of this one; still look for other kinds, for a while
		if c.violByKind[kind] > 2000 {
			c.expired = true
		}
		return
	}
	if c.chk.Refine != nil {
		c.chk.Refine(&cp)
	}
	c.Viol = append(c.Viol, Violation{State: cp.json(), Key: cp.Key(), Problem: o.Problem,
		Reproduced: fmt.Sprintf("%d of 5 re-executions in the same process", rep)})
}

func problemKind(p string) string {
	if i := strings.IndexByte(p, ':'); i > 0 && i < 80 {
		return p[:i]
	}
	if len(p) > 40 {
		return p[:40]
	}
	return p
}

func safeEval(chk *Check, s *State, verbose bool) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Problem: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
		}
	}()
	return chk.Eval(s, verbose)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "twuillemin/modes") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (c *Ctx) result(start time.Time) ShardResult {
	r := ShardResult{States: c.States, Trans: c.Trans, Evals: c.Evals, PerOp: c.PerOp, Samples: c.Samples,
		Viol: c.Viol, Expired: c.expired, Extra: c.Extra, WallS: time.Since(start).Seconds()}
	r.OutcomeCount = uint64(c.outcomes.n)
	for _, v := range c.outcomes.tab {
		if v != 0 && len(r.Outcomes) < 600000 {
			r.Outcomes = append(r.Outcomes, v)
		}
	}
	for p := range unobserved {
		r.Unobserved = append(r.Unobserved, p)
	}
	sort.Strings(r.Unobserved)
	return r
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
