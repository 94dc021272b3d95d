package main

// The reference model of the message layouts: a table of the bits and the meaning the standards give to them, written
// independently from the code under test, and the bounded exploration of the space of contents around it.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
)

// M is one message content with the arguments of the call.
type M struct {
	D []byte
	A []float64
}

// U is the unsigned value of bits lo..hi (numbered from 1, most significant first).
func (m M) U(lo, hi int) uint64 {
	var v uint64
	for i := lo; i <= hi; i++ {
		v = v<<1 | uint64(m.D[(i-1)>>3]>>(7-uint(i-1)&7)&1)
	}
	return v
}

func (m M) Bit(i int) bool { return m.U(i, i) == 1 }

// T is the two's complement value of a sign bit followed by bits lo..hi.
func (m M) T(sign, lo, hi int) int64 {
	v := int64(m.U(lo, hi))
	if m.Bit(sign) {
		v -= 1 << uint(hi-lo+1)
	}
	return v
}

// F is one observed quantity with the value the model gives to it.
type F struct {
	Path string
	Want func(m M) Val
	R    [][2]int // bits which are its own (used to direct the exploration)
}

// Layout is one way to read a content.
type Layout struct {
	Name     string
	Len      int
	Args     [][]float64
	Call     func(d []byte, a []float64) (interface{}, error)
	Accept   func(m M) int // 1 accepted, 0 refused, -1 left open
	Type     func(m M) string
	Fields   []F
	More     func(m M) []F // fields which exist for some contents only
	Coherent func(m M) int // 1 coherent, 0 incoherent, -1 left open; nil: not claimed
	Bases    [][]byte
	Ranges   [][2]int // further bit ranges to enumerate (reserved bits, selectors)
	NoRefuse bool
	Fixed    bool // only the bases are visited
}

func u(path string, lo, hi int) F {
	return F{path, func(m M) Val { return U(m.U(lo, hi)) }, [][2]int{{lo, hi}}}
}

func bit(path string, i int) F { return u(path, i, i) }

func num(path string, lo, hi int, f func(raw uint64) float64) F {
	return F{path, func(m M) Val { return N(f(m.U(lo, hi))) }, [][2]int{{lo, hi}}}
}

func twos(path string, sign, lo, hi int, scale float64) F {
	return F{path, func(m M) Val { return N(float64(m.T(sign, lo, hi)) * scale) }, [][2]int{{sign, sign}, {lo, hi}, {sign, hi}}}
}

func konst(path string, v Val) F { return F{Path: path, Want: func(M) Val { return v }} }

func reg(id string) F { return konst("GetRegister().GetId()", S(id)) }

func mul(k float64) func(uint64) float64 { return func(r uint64) float64 { return float64(r) * k } }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func yes(M) int { return 1 }

// evalLayout compares the implementation with the model on one content.
func evalLayout(l *Layout, s *State, verbose bool) Outcome {
	d := append(make([]byte, 0, len(s.Data)), s.Data...)
	m := M{s.Data, s.Args}
	got, err := l.Call(d, s.Args)
	accept := 0
	if len(s.Data) == l.Len {
		accept = l.Accept(m)
	}
	o := Outcome{}
	if verbose {
		if err != nil {
			o.Text = "error: " + err.Error()
		} else {
			o.Text = fmt.Sprintf("%s %s", typeName(got), describe(got))
		}
	}
	if err != nil {
		if accept == 1 {
			o.Problem = fmt.Sprintf("refused: %s refuses a content which the layout allows: %v", l.Name, err)
		}
		o.Sig = 7
		o.Open = accept < 0
		return o
	}
	if accept == 0 {
		o.Problem = fmt.Sprintf("accepted: %s accepts a content which it has to refuse, as %s", l.Name, typeName(got))
		return o
	}
	if isNil(got) {
		o.Problem = fmt.Sprintf("nothing: %s gives neither a result nor an error", l.Name)
		return o
	}
	if len(s.Data) != l.Len {
		return o
	}
	if l.Type != nil {
		if want := l.Type(m); want != "" && !hasType(got, want) {
			o.Problem = fmt.Sprintf("kind: %s gives a %s, want a %s", l.Name, typeName(got), want)
			return o
		}
	}
	sig := hashState(typeName(got), nil, nil, "")
	fields := l.Fields
	if l.More != nil {
		fields = append(append([]F(nil), fields...), l.More(m)...)
	}
	for i := range fields {
		f := &fields[i]
		v := get(got, f.Path)
		if v.K == '?' {
			unobserved[l.Name+"/"+f.Path] = true
			continue
		}
		w := f.Want(m)
		if !sameVal(v, w) {
			o.Problem = fmt.Sprintf("field %s of %s: got %v, want %v", f.Path, l.Name, v, w)
			return o
		}
		sig = mix(sig ^ v.sig())
	}
	if l.Coherent != nil {
		if want := l.Coherent(m); want >= 0 {
			v := get(got, "CheckCoherency()")
			switch {
			case v.K == '?':
				unobserved[l.Name+"/CheckCoherency"] = true
			case v.K == 'e' && want == 1:
				o.Problem = fmt.Sprintf("coherent: %s flags a coherent report as incoherent", l.Name)
				return o
			case v.K != 'e' && want == 0:
				o.Problem = fmt.Sprintf("incoherent: %s does not flag an incoherent report", l.Name)
				return o
			}
			sig = mix(sig ^ uint64(want))
		}
	}
	o.Sig = sig
	return o
}

// hasType tells that the value, or something it embeds, is of the named type.
func hasType(x interface{}, want string) bool {
	v := deref(reflect.ValueOf(x))
	for v.IsValid() && v.Kind() == reflect.Struct {
		if v.Type().Name() == want {
			return true
		}
		next := reflect.Value{}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.Anonymous && f.PkgPath == "" {
				next = deref(v.Field(i))
				break
			}
		}
		v = next
	}
	return false
}

func describe(x interface{}) string {
	s := fmt.Sprintf("%+v", deref(reflect.ValueOf(x)))
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func setBits(d []byte, lo, hi int, v uint64) {
	for i := hi; i >= lo; i-- {
		k, b := (i-1)>>3, byte(1)<<(7-uint(i-1)&7)
		if v&1 == 1 {
			d[k] |= b
		} else {
			d[k] &^= b
		}
		v >>= 1
	}
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func boundary(w int) []uint64 {
	if w <= 4 {
		v := make([]uint64, 0, 16)
		for i := uint64(0); i < 1<<uint(w); i++ {
			v = append(v, i)
		}
		return v
	}
	max := uint64(1)<<uint(w) - 1
	seen := map[uint64]bool{}
	var out []uint64
	add := func(x uint64) {
		x &= max
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, x := range []uint64{0, 1, 2, 3, max, max - 1, max - 2, max >> 1, max>>1 + 1, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA} {
		add(x)
	}
	for i := 0; i < w; i++ {
		add(1 << uint(i))
		add(max ^ 1<<uint(i))
	}
	return out
}

// layoutRanges are the distinct bit ranges of a layout.
func layoutRanges(l *Layout) [][2]int {
	var out [][2]int
	seen := map[[2]int]bool{}
	add := func(r [2]int) {
		if !seen[r] && r[0] > 0 {
			seen[r] = true
			out = append(out, r)
		}
	}
	for _, f := range l.Fields {
		for _, r := range f.R {
			add(r)
		}
	}
	for _, r := range l.Ranges {
		add(r)
	}
	return out
}

type exploreOpts struct {
	hamming   int // radius of the ball of bit changes around each base
	windows   int // width of the bit-aligned windows which take all values (0: none)
	full      int // width up to which a field takes all values
	pairs     int // total width up to which a pair of fields takes all values
	winBases  int
	hamBases  int
	hamFirst  int // additional bit changes for the first base
	lengths   bool
	pairBases int
	triples   int  // bases around which all triples of fields take critical values
	quads     int  // ... and all quadruples
	gridPairs int  // evenly spaced values which two fields take together
	grid3     int  // evenly spaced values which three fields take together
	grid3base int  // ... around that many bases
	related   int  // bases around which two wide fields take all equal, neighbouring and complementary values
	relBits   int  // two fields with more bits are left out
	wide      bool // ... but around the first base
	patterns  int  // bases whose tail, from several places on, takes all periodic contents
	bytePairs int  // bases of which each two bytes take all their values
	product   int  // bases around which all small fields take all values together, with each wide field
	prodBits  int  // bits of the small fields which are taken together
}

// pairCost is the number of value pairs which two fields of at most bits together have.
func pairCost(ls []*Layout, o exploreOpts, bits int) float64 {
	n := 0.0
	for _, l := range ls {
		rs := layoutRanges(l)
		k := 0.0
		for i, r := range rs {
			for _, q := range rs[:i] {
				if w := r[1] - r[0] + 1 + q[1] - q[0] + 1; w <= bits {
					k += float64(uint64(1) << uint(w))
				}
			}
		}
		args := len(l.Args)
		if args == 0 {
			args = 1
		}
		bases := len(l.Bases)
		if bases > o.pairBases {
			bases = o.pairBases
		}
		n += k * float64(args*bases)
	}
	return n
}

// widen raises the bounds of small layouts to what the time allows.
func (o exploreOpts) widen(c *Ctx, ls []*Layout) exploreOpts {
	limit := 3e7
	if c.thorough {
		limit = 4e8
	}
	for o.pairs < 24 && pairCost(ls, o, o.pairs+1) < limit {
		o.pairs++
	}
	return o
}

// narrow is a cheap part of the bounds.
func (o exploreOpts) narrow() exploreOpts {
	return exploreOpts{hamming: 2, windows: 8, full: o.full, pairs: 8, winBases: 2, hamBases: 2, lengths: o.lengths, pairBases: 2, triples: 1, patterns: 1}
}

func opts(c *Ctx) exploreOpts {
	if c.thorough {
		return exploreOpts{hamming: 4, hamFirst: 1, windows: 16, full: 20, pairs: 18, winBases: 99, hamBases: 3, lengths: true, pairBases: 99, triples: 99, quads: 2, gridPairs: 256, grid3: 20, grid3base: 99, related: 99, relBits: 24, wide: true, patterns: 99, bytePairs: 99, product: 99, prodBits: 18}
	}
	return exploreOpts{hamming: 3, hamFirst: 1, windows: 12, full: 17, pairs: 12, winBases: 4, hamBases: 4, lengths: true, pairBases: 4, triples: 4, quads: 1, gridPairs: 96, grid3: 10, grid3base: 2, related: 2, relBits: 24, wide: true, patterns: 2, bytePairs: 3, product: 2, prodBits: 14}
}

// explore visits the bounded space of contents of a layout.
func (l *Layout) explore(c *Ctx, o exploreOpts) {
	args := l.Args
	if len(args) == 0 {
		args = [][]float64{nil}
	}
	if l.Fixed {
		for _, a := range args {
			for _, b := range l.Bases {
				c.Init(l.Name, b, a...)
			}
		}
		return
	}
	ranges := layoutRanges(l)
	for ai, a := range args {
		for bi, b := range l.Bases {
			if c.Stop() {
				return
			}
			c.Init(l.Name, b, a...)
			d := clone(b)
			// one field takes every value
			for _, r := range ranges {
				w := r[1] - r[0] + 1
				if w <= o.full {
					for v := uint64(0); v < 1<<uint(w); v++ {
						copy(d, b)
						setBits(d, r[0], r[1], v)
						c.Step(l.Name, d, a...)
					}
				} else {
					for _, v := range boundary(w) {
						copy(d, b)
						setBits(d, r[0], r[1], v)
						c.Step(l.Name, d, a...)
					}
				}
			}
			// two fields together
			if bi < o.pairBases {
				for i, r := range ranges {
					for _, q := range ranges[:i] {
						if c.Stop() {
							return
						}
						wr, wq := r[1]-r[0]+1, q[1]-q[0]+1
						vr, vq := boundary(wr), boundary(wq)
						if wr+wq <= o.pairs {
							vr, vq = allValues(wr), allValues(wq)
						}
						for _, x := range vr {
							for _, y := range vq {
								copy(d, b)
								setBits(d, q[0], q[1], y)
								setBits(d, r[0], r[1], x)
								c.Step(l.Name, d, a...)
							}
						}
					}
				}
			}
			// all contents within a number of bit changes
			if bi < o.hamBases {
				rad := o.hamming
				if ai == 0 && bi == 0 {
					rad += o.hamFirst
				}
				if ai > 0 && !c.thorough && rad > 2 {
					rad = 2
				}
				if l.Len > 7 {
					rad-- // 112 bits
				}
				hammingBall(b, rad, func(x []byte) bool {
					c.Step(l.Name, x, a...)
					return !c.Stop()
				})
			}
			// windows of adjacent bits take all values
			if o.windows > 0 && bi < o.winBases {
				step := 1
				if l.Len > 7 {
					step = 4
				}
				for lo := 1; lo+o.windows-1 <= l.Len*8; lo += step {
					if c.Stop() {
						return
					}
					for v := uint64(0); v < 1<<uint(o.windows); v++ {
						copy(d, b)
						setBits(d, lo, lo+o.windows-1, v)
						c.Step(l.Name, d, a...)
					}
				}
			}
		}
		for bi, b := range l.Bases {
			if bi < o.related {
				bits := o.relBits
				if o.wide && (ai == 0 && bi == 0 || c.thorough) {
					bits = 99
				} else if !c.thorough && ai > 0 && bi > 0 && bits > 20 {
					bits = 20
				}
				l.relatedFields(c, b, a, ranges, bits)
			}
			if bi < o.patterns {
				l.repeatedPatterns(c, b, a)
			}
			if bi < o.bytePairs && (c.thorough || ai == 0 || ai == len(args)-1) {
				l.bytePairs(c, b, a)
			}
			if bi < o.product && (c.thorough || bi == 0 || ai == 0) {
				l.product(c, b, a, ranges, o.prodBits)
			}
			if bi < o.triples {
				l.tuples(c, b, a, ranges, 3)
			}
			if bi < o.quads {
				l.tuples(c, b, a, ranges, 4)
			}
			if o.gridPairs > 0 && bi < o.pairBases {
				l.tuplesOf(c, b, a, ranges, 2, func(w int) []uint64 { return grid(w, o.gridPairs) })
			}
			if bi < o.grid3base {
				l.tuplesOf(c, b, a, ranges, 3, func(w int) []uint64 { return grid(w, o.grid3) })
			}
		}
		if o.lengths && !l.NoRefuse {
			for n := 0; n <= 40; n++ {
				for _, fill := range []byte{0x00, 0xFF, 0x5A} {
					d := make([]byte, n)
					for i := range d {
						d[i] = fill
					}
					if n > 0 {
						d[0] = l.Bases[0][0]
					}
					c.Step(l.Name, d, a...)
				}
				d := make([]byte, n)
				copy(d, l.Bases[0])
				c.Step(l.Name, d, a...)
			}
			for _, n := range []int{64, 127, 128, 255, 256, 256 + len(l.Bases[0]), 512 + len(l.Bases[0]), 65536 + len(l.Bases[0])} {
				d := make([]byte, n)
				copy(d, l.Bases[0])
				c.Step(l.Name, d, a...)
			}
		}
	}
}

// product visits the contents in which all small fields (statuses, codes of up to two bits) of a base take all values
// together, and with each of them each wide field 16 values. Too many small fields are taken in three overlapping sets.
func (l *Layout) product(c *Ctx, b []byte, a []float64, ranges [][2]int, bits int) {
	var small, wide [][2]int
	used := map[int]bool{}
	for w := 1; w <= 2; w++ {
		for _, r := range ranges {
			if r[1]-r[0]+1 == w && !used[r[0]] && !used[r[1]] {
				used[r[0]], used[r[1]] = true, true
				small = append(small, r)
			}
		}
	}
	for _, r := range ranges {
		if r[1]-r[0] > 1 {
			wide = append(wide, r)
		}
	}
	sort.Slice(small, func(i, j int) bool { return small[i][0] < small[j][0] })
	size := func(s [][2]int) (n int) {
		for _, r := range s {
			n += r[1] - r[0] + 1
		}
		return
	}
	sets := [][][2]int{small}
	if size(small) > bits {
		sets = nil
		order := append([][2]int(nil), small...)
		for k := 0; k < 3; k++ {
			var s [][2]int
			for _, r := range order {
				if size(s)+r[1]-r[0]+1 <= bits {
					s = append(s, r)
				}
			}
			sets = append(sets, s)
			// the last ones first, then every second one
			if k == 0 {
				for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
					order[i], order[j] = order[j], order[i]
				}
			} else {
				var e, u [][2]int
				for i, r := range small {
					if i%2 == 0 {
						e = append(e, r)
					} else {
						u = append(u, r)
					}
				}
				order = append(e, u...)
			}
		}
	}
	d, e := clone(b), clone(b)
	g := clone(b)
	for _, s := range sets {
		var free [][2]int
		var values [][]uint64
		for _, r := range wide {
			inside := false
			for _, q := range s {
				inside = inside || q[0] >= r[0] && q[1] <= r[1]
			}
			if !inside {
				free = append(free, r)
				values = append(values, grid(r[1]-r[0]+1, 16))
			}
		}
		two := size(s) <= 16 && len(free)*len(free)*24<<uint(size(s)) <= 4<<20
		for v := uint64(0); v < 1<<uint(size(s)); v++ {
			copy(d, b)
			x := v
			for _, r := range s {
				setBits(d, r[0], r[1], x)
				x >>= uint(r[1] - r[0] + 1)
			}
			c.Step(l.Name, d, a...)
			for i, r := range free {
				for _, y := range values[i] {
					copy(e, d)
					setBits(e, r[0], r[1], y)
					c.Step(l.Name, e, a...)
					if !two {
						continue
					}
					for j := i + 1; j < len(free); j++ {
						q := free[j]
						if q[0] <= r[1] && r[0] <= q[1] {
							continue
						}
						for _, z := range []uint64{0, 1 << uint(q[1]-q[0]), 1<<uint(q[1]-q[0]+1) - 1} {
							copy(g, e)
							setBits(g, q[0], q[1], z)
							c.Step(l.Name, g, a...)
						}
					}
				}
			}
			if v&255 == 0 && c.Stop() {
				return
			}
		}
	}
}

// relatedFields visits the contents in which two fields of 4 bits and more have values that depend on each other.
func (l *Layout) relatedFields(c *Ctx, b []byte, a []float64, ranges [][2]int, bits int) {
	d := clone(b)
	for i, r := range ranges {
		for _, q := range ranges[:i] {
			wr, wq := r[1]-r[0]+1, q[1]-q[0]+1
			if wr+wq > bits {
				continue
			}
			if wr < 4 || wq < 4 || wr > 17 || wq > 17 {
				continue
			}
			if c.Stop() {
				return
			}
			mr, mq := uint64(1)<<uint(wr)-1, uint64(1)<<uint(wq)-1
			for v := uint64(0); v <= mr; v++ {
				for k, x := range []uint64{v, v + 1, mq - v, v - 1, ^v + 1, v << 1, v >> 1} {
					if k > 2 && wr+wq > 24 {
						break
					}
					copy(d, b)
					setBits(d, q[0], q[1], x&mq)
					setBits(d, r[0], r[1], v)
					c.Step(l.Name, d, a...)
				}
			}
		}
	}
}

// bytePairs visits the contents which differ from a base in two bytes (of a long frame: two of the first seven).
func (l *Layout) bytePairs(c *Ctx, b []byte, a []float64) {
	d := clone(b)
	for j := 1; j < len(b) && j < 7; j++ {
		for i := 0; i < j; i++ {
			for v := 0; v < 1<<16; v++ {
				d[i], d[j] = byte(v>>8), byte(v)
				c.Step(l.Name, d, a...)
			}
			d[i], d[j] = b[i], b[j]
			if c.Stop() {
				return
			}
		}
	}
}

// repeatedPatterns visits the contents which repeat 6, 8 or 12 bits up to their end, or up to the last byte.
func (l *Layout) repeatedPatterns(c *Ctx, b []byte, a []float64) {
	d := clone(b)
	for from := 1; from <= 17 && from < len(b)*8; from++ {
		if from > 1 && from != 6 && from != 9 && from != 17 {
			continue
		}
		for _, period := range []int{6, 8, 12} {
			for v := uint64(0); v < 1<<uint(period); v++ {
				copy(d, b)
				for lo := from; lo <= len(b)*8; lo += period {
					hi, x := lo+period-1, v
					if hi > len(b)*8 {
						x >>= uint(hi - len(b)*8)
						hi = len(b) * 8
					}
					setBits(d, lo, hi, x)
				}
				c.Step(l.Name, d, a...)
			}
			if c.Stop() {
				return
			}
		}
	}
}

// critical are the values at which a field is special: all of a small field, ends and sign corners of a wide one.
func critical(w, arity int) []uint64 {
	if w <= 2 || w == 3 && arity == 3 {
		return allValues(w)
	}
	max := uint64(1)<<uint(w) - 1
	if arity > 3 {
		return []uint64{0, 1, max >> 1, max}
	}
	return []uint64{0, 1, max >> 1, max>>1 + 1, max - 1, max}
}

// tuples visits all contents in which some fields of a base take critical values together.
func (l *Layout) tuples(c *Ctx, b []byte, a []float64, ranges [][2]int, arity int) {
	l.tuplesOf(c, b, a, ranges, arity, func(w int) []uint64 { return critical(w, arity) })
}

// grid are n values of a field at equal distances, all of a small field.
func grid(w, n int) []uint64 {
	if w < 20 && 1<<uint(w) <= n {
		return allValues(w)
	}
	v := make([]uint64, n)
	for i := range v {
		v[i] = uint64((float64(i) + 0.5) * math.Pow(2, float64(w)) / float64(n))
	}
	return v
}

// tuplesOf visits all contents in which some fields of a base take the given values together.
func (l *Layout) tuplesOf(c *Ctx, b []byte, a []float64, ranges [][2]int, arity int, values func(w int) []uint64) {
	d := clone(b)
	var rec func(from, left int) bool
	rec = func(from, left int) bool {
		if left == 0 {
			c.Step(l.Name, d, a...)
			return !c.Stop()
		}
		for i := from; i < len(ranges); i++ {
			r := ranges[i]
			was := clone(d)
			for _, v := range values(r[1] - r[0] + 1) {
				setBits(d, r[0], r[1], v)
				if !rec(i+1, left-1) {
					return false
				}
			}
			copy(d, was)
		}
		return true
	}
	rec(0, arity)
}

func allValues(w int) []uint64 {
	v := make([]uint64, 1<<uint(w))
	for i := range v {
		v[i] = uint64(i)
	}
	return v
}

func hammingBall(b []byte, radius int, f func([]byte) bool) {
	d := clone(b)
	n := len(b) * 8
	var rec func(from, left int) bool
	rec = func(from, left int) bool {
		if !f(d) {
			return false
		}
		if left == 0 {
			return true
		}
		for i := from; i < n; i++ {
			d[i>>3] ^= 0x80 >> uint(i&7)
			ok := rec(i+1, left-1)
			d[i>>3] ^= 0x80 >> uint(i&7)
			if !ok {
				return false
			}
		}
		return true
	}
	rec(0, radius)
}

// layoutCheck makes the check which decides a set of layouts.
func layoutCheck(id, bounds string, assume []string, ls ...*Layout) *Check {
	by := map[string]*Layout{}
	for _, l := range ls {
		if by[l.Name] != nil {
			panic("duplicate layout " + l.Name)
		}
		by[l.Name] = l
	}
	checkLayouts[id] = ls
	return &Check{ID: id, Bounds: bounds, Assume: assume,
		Eval: func(s *State, verbose bool) Outcome { return evalLayout(by[s.Op], s, verbose) },
		Explore: func(c *Ctx) {
			o := opts(c).widen(c, ls)
			c.Extra["value_pairs_of_fields_up_to_bits_together"] = fmt.Sprint(o.pairs)
			// a narrow pass over every layout first: little is left out when the time runs out
			for _, l := range ls {
				l.explore(c, o.narrow())
			}
			for _, l := range ls {
				l.explore(c, o)
			}
		}}
}

const layoutBounds = "per layout and argument combination: several base contents; every field takes all its values (up to 17 bits quick, 20 thorough); every pair of fields takes all value pairs (up to at least 12 bits together quick, 18 thorough; see value_pairs_of_fields_up_to_bits_together) or all pairs of boundary values; every triple of fields takes all combinations of boundary values around 4 (thorough all) base contents, every quadruple around 1 (2); every pair of fields all combinations of 96 (256) evenly spaced values, every triple around 2 (all) bases those of 10 (20); every two fields of 4 to 17 bits with equal, neighbouring, doubled, negated and complementary values around 2 (all) base contents (quick: two fields with more than 24 bits together for the first arguments and base only, with more than 20 bits for the first arguments or base only); all fields of one and two bits (up to 14 bits of them, thorough 18; else three overlapping sets) take all values together, with 16 values of each wider field (and, when there are few, three values of a second one); all contents which repeat 6, 8 or 12 bits behind the first 0, 5, 8 or 16 bits of two (every) bases; each two bytes of three (every) bases take all their values (of frames: two of the first seven bytes; quick: for the first and last arguments only); all contents within 4 (thorough 5) bit changes of the first base and 3 (4) of three others; every window of 12 (thorough 16) adjacent bits of 4 (all) bases takes all values; lengths 0 to 40, and longer ones up to 65536 more than the right one"

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }
