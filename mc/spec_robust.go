package main

// C27: no input makes decoding or rendering panic or hang.

import (
	"math"
	"strings"
)

func evalRobust(s *State, verbose bool) Outcome {
	o := opByName[s.Op]
	if strings.HasPrefix(s.Op, layoutPrefix) {
		o = robustLayouts()[s.Op].op
	}
	// the content lies at the end of its memory: reading past its length panics
	d := make([]byte, len(s.Data))
	copy(d, s.Data)
	d = d[:len(d):len(d)]
	x, err := o.call(d, s.Args)
	t := snapshot(x, err)
	out := Outcome{Sig: hashState("", nil, nil, t)}
	if verbose {
		if len(t) > 300 {
			t = t[:300] + "..."
		}
		out.Text = t
	}
	return out
}

const layoutPrefix = "layout "

type robustLayout struct {
	l  *Layout
	op *op
}

var robustByName map[string]robustLayout
var robustList []robustLayout

// robustLayouts are the layouts of the other checks, as entry points of their own.
func robustLayouts() map[string]robustLayout {
	if robustByName == nil {
		robustByName = map[string]robustLayout{}
		for _, id := range layoutChecks {
			for _, l := range checkLayouts[id] {
				n := *l
				n.Name = layoutPrefix + l.Name
				r := robustLayout{&n, &op{name: n.Name, call: l.Call}}
				robustByName[n.Name] = r
				robustList = append(robustList, r)
			}
		}
	}
	return robustByName
}

// goodContents are contents which the operation decodes, gathered from the layout models.
var goodContents map[string][][]byte

func gatherContents() map[string][][]byte {
	if goodContents != nil {
		return goodContents
	}
	goodContents = map[string][][]byte{}
	var pool7, poolF, pool6 [][]byte
	for _, id := range layoutChecks {
		for _, l := range checkLayouts[id] {
			for _, b := range l.Bases {
				switch {
				case len(l.Name) > 5 && (l.Name[:5] == "frame" || l.Name[:5] == "ident") || l.Len == 14:
					poolF = append(poolF, b)
				case len(l.Name) > 11 && l.Name[:11] == "altitude-df":
					poolF = append(poolF, b)
				case l.Len == 7:
					pool7 = append(pool7, b)
				case l.Len == 6:
					pool6 = append(pool6, b)
				}
			}
		}
	}
	for _, o := range allOps {
		var pool [][]byte
		switch {
		case o.n == 0 || len(o.name) > 7 && o.name[:7] == "ParseDF":
			pool = poolF
		case o.n == 7:
			pool = pool7
		case o.n == 6:
			pool = pool6
		case o.n < 0:
			pool = [][]byte{nil}
		default:
			pool = fill(o.n, nil)
		}
		goodContents[o.name] = pool
	}
	return goodContents
}

var layoutChecks = []string{"C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18"}

var checkLayouts = map[string][]*Layout{}

func accepted(o *op, d []byte, a []float64) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = true
		}
	}()
	_, err := o.call(clone(d), a)
	return err == nil
}

func exploreRobust(c *Ctx) {
	good := gatherContents()
	// fields together
	robustLayouts()
	for _, r := range robustList {
		o := exploreOpts{full: 8, hamming: 1, hamBases: 99, pairBases: 1, pairs: 6, triples: 1, patterns: 2}
		if c.thorough {
			o = exploreOpts{full: 12, hamming: 2, hamBases: 99, pairBases: 4, pairs: 10, triples: 4, quads: 1, patterns: 9, related: 2, relBits: 14, gridPairs: 24, grid3: 6, grid3base: 1}
		}
		l := *r.l
		if !c.thorough && len(l.Args) > 3 {
			l.Args = [][]float64{l.Args[0], l.Args[len(l.Args)/2], l.Args[len(l.Args)-1]}
		}
		l.explore(c, o)
		if c.Stop() {
			return
		}
	}
	for i := range allOps {
		o := &allOps[i]
		if o.n < 0 {
			continue
		}
		for _, a := range o.argSets() {
			// all lengths
			for n := 0; n <= 64; n++ {
				for _, b := range fill(n, nil) {
					c.Init(o.name, b, a...)
					if n == 0 {
						continue
					}
					for f := 0; f < 256; f += c.pick(1, 1) {
						d := clone(b)
						d[0] = byte(f)
						c.Step(o.name, d, a...)
					}
				}
				if o.args == 3 && n > 20 && !c.thorough {
					n += 6
				}
			}
			if c.Stop() {
				return
			}
			// all first bytes with every value of every other byte
			ns := []int{o.n}
			if o.n == 0 {
				ns = []int{7, 14}
			}
			bases := [][]byte{}
			for _, n := range ns {
				k := c.pick(2, 6)
				bases = append(bases, fill(n, nil)[:k]...)
			}
			if o.args != 3 || c.thorough {
				for _, b := range bases {
					for f := 0; f < 256; f++ {
						for i := 1; i < len(b); i++ {
							for v := 0; v < 256; v += c.pick(5, 1) {
								d := clone(b)
								d[0], d[i] = byte(f), byte(v)
								c.Step(o.name, d, a...)
							}
						}
					}
				}
			}
			if c.Stop() {
				return
			}
			// around the contents which are decoded
			cnt := 0
			for _, b := range good[o.name] {
				if !accepted(o, b, a) {
					continue
				}
				cnt++
				if !c.thorough && o.args == 3 && cnt%4 != 0 {
					continue
				}
				c.Init(o.name, b, a...)
				for i := range b {
					for v := 0; v < 256; v++ {
						d := clone(b)
						d[i] = byte(v)
						c.Step(o.name, d, a...)
					}
				}
				if cnt <= c.pick(3, 20) || o.args == 0 && cnt <= c.pick(12, 60) {
					hammingBall(b, 2, func(x []byte) bool {
						c.Step(o.name, x, a...)
						return !c.Stop()
					})
				}
				// cut and extended
				for n := 0; n < 2*len(b)+2; n++ {
					d := make([]byte, n)
					copy(d, b)
					c.Step(o.name, d, a...)
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	// numbers
	codes := []float64{0, 1, 65535, 65536, 131071, 131072, 4294967295}
	angles := []float64{0, math.Copysign(0, -1), 1e-300, 44.9999, 45, 87, -87, 89.99999, 90, -90, 90.0001, 180, -180, 360, -720, 1e10, -1e17, 1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64}
	for _, y0 := range codes {
		for _, x0 := range codes {
			for _, y1 := range codes {
				for _, x1 := range codes {
					for o := 0.0; o < 2; o++ {
						c.Step("geo.airborne-global", nil, y0, x0, y1, x1, o)
						for i, la := range angles {
							for j, lo := range angles {
								if c.thorough || i == j || y0 == x0 && y1 == x1 || i == 0 || j == 0 {
									c.Step("geo.surface-global", nil, y0, x0, y1, x1, o, la, lo)
								}
							}
						}
					}
				}
			}
			for _, la := range angles {
				for _, lo := range angles {
					for o := 0.0; o < 2; o++ {
						c.Step("geo.airborne-local", nil, y0, x0, la, lo, o)
						c.Step("geo.surface-local", nil, y0, x0, la, lo, o)
					}
				}
			}
		}
	}
	for _, a := range angles {
		for _, b := range angles {
			for _, d := range angles {
				for _, e := range angles {
					c.Step("geo.distance", nil, a, b, d, e)
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C27", Eval: evalRobust, Explore: exploreRobust,
		Bounds: "72 decoding entry points (every exported reader) x all argument combinations: lengths 0 to 64 x 256 first bytes x 6 contents; every first byte x every value (quick: every fifth) of every other byte; around every decodable base content all 1-byte changes, all 1- and 2-bit changes, all truncations and extensions; on each result every method without argument of every reachable value is called; positions and distances with boundary, huge, infinite and NaN arguments",
		Assume: []string{"parity is asked for the frame which was decoded, as documented"}})
}
