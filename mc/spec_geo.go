package main

// Model of the compact position reports (C19, C20, C21) and of the ground distance (C22). The model encodes positions as
// DO-260B does; what the decoders give for the encoded pair has to be the encoded position.

import (
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/geo"
)

const p17 = 131072.0

// nlTransitions[k] is the latitude above which there are fewer than k+2 longitude zones: NL = number of them above |lat| + 1.
var nlTransitions = map[int]float64{}

func init() {
	for nl := 2; nl <= 59; nl++ {
		// latitude at which the number of zones falls below nl
		x := (1 - math.Cos(math.Pi/30)) / (1 - math.Cos(2*math.Pi/float64(nl)))
		nlTransitions[nl] = 180 / math.Pi * math.Acos(math.Sqrt(math.Min(x, 1)))
	}
	nlTransitions[2] = 87 // exactly, by definition
}

// zones is the number of longitude zones; near tells that the latitude is too close to a transition to tell.
func zones(lat float64) (nl int, near bool) {
	a := math.Abs(lat)
	nl = 1
	for k := 59; k >= 2; k-- {
		t := nlTransitions[k]
		if k == 2 {
			if a <= 87 {
				nl = 2
			}
			break
		}
		if math.Abs(a-t) < 1e-9 {
			near = true
		}
		if a <= t {
			nl = k
			break
		}
	}
	return
}

func fmod(x, y float64) float64 { return x - y*math.Floor(x/y) }

type cpr struct {
	yz, xz     uint32
	rlat, rlon float64 // the position which the code stands for
	nl         int
	near       bool
}

// encode makes the airborne (range 360) or surface (range 90) report of a position.
func encode(lat, lon float64, odd, surface bool) cpr {
	i := 0.0
	if odd {
		i = 1
	}
	scale := p17
	if surface {
		scale *= 4
	}
	dlat := 360 / (60 - i)
	yf := math.Floor(scale*fmod(lat, dlat)/dlat + 0.5)
	rlat := dlat * (yf/scale + math.Floor(lat/dlat))
	nl, near := zones(rlat)
	dlon := 360 / math.Max(float64(nl)-i, 1)
	xf := math.Floor(scale*fmod(lon, dlon)/dlon + 0.5)
	rlon := dlon * (xf/scale + math.Floor(lon/dlon))
	return cpr{uint32(fmod(yf, p17)), uint32(fmod(xf, p17)), rlat, rlon, nl, near}
}

func dlonOf(nl int, odd bool) float64 {
	i := 0
	if odd {
		i = 1
	}
	if nl-i < 1 {
		return 360
	}
	return 360 / float64(nl-i)
}

func angDiff(a, b float64) float64 { return math.Abs(fmod(a-b+180, 360) - 180) }

// badPosition compares a decoded position with the encoded one.
func badPosition(what string, lat, lon float64, want cpr) string {
	if math.IsNaN(lat) || math.IsNaN(lon) || math.IsInf(lat, 0) || math.IsInf(lon, 0) {
		return fmt.Sprintf("not a number: %s gives %v %v", what, lat, lon)
	}
	if lat < -90-1e-9 || lat > 90+1e-9 || lon < -180-1e-9 || lon > 180+1e-9 {
		return fmt.Sprintf("range: %s gives %v %v, outside of the Earth's coordinates", what, lat, lon)
	}
	if math.Abs(lat-want.rlat) > 1e-6 {
		return fmt.Sprintf("latitude: %s gives %v, want %v", what, lat, want.rlat)
	}
	if math.Abs(want.rlat) < 90-1e-9 && angDiff(lon, want.rlon) > 1e-6 {
		return fmt.Sprintf("longitude: %s gives %v, want %v", what, lon, want.rlon)
	}
	return ""
}

func sigPos(lat, lon float64) uint64 {
	return mix(uint64(int64(lat*1e5))*0x9E3779B97F4A7C15 ^ uint64(int64(lon*1e5)))
}

// Args: lat lon, lat lon (of the even and of the odd message), 1 when the even one is the last.
func evalAirGlobal(s *State, verbose bool) Outcome {
	var o Outcome
	if s.Op == "airborne-global-codes" {
		return evalAirCodes(s, verbose)
	}
	a := s.Args
	even, odd := encode(a[0], a[1], false, false), encode(a[2], a[3], true, false)
	last := odd
	if a[4] == 1 {
		last = even
	}
	lat, lon, err := geo.GetCPRAirborneGlobalPosition(even.yz, even.xz, odd.yz, odd.xz, a[4] == 1)
	if verbose {
		o.Text = fmt.Sprintf("codes %v %v / %v %v decoded %v %v error %v", even.yz, even.xz, odd.yz, odd.xz, lat, lon, err)
	}
	o.Sig = sigPos(lat, lon)
	if even.near || odd.near {
		o.Open = true
		return o
	}
	if even.nl != odd.nl {
		if err == nil {
			o.Problem = fmt.Sprintf("accepted: a pair in %d and %d longitude zones is accepted", even.nl, odd.nl)
		}
		return o
	}
	if err != nil {
		o.Problem = fmt.Sprintf("refused: the pair of position %v %v is refused: %v", a[0], a[1], err)
		return o
	}
	o.Problem = badPosition("the decoding", lat, lon, last)
	return o
}

// evalAirCodes: any four codes. The latitudes are computed in integers.
func evalAirCodes(s *State, verbose bool) Outcome {
	var o Outcome
	a := s.Args
	y0, x0, y1, x1 := int64(a[0]), int64(a[1]), int64(a[2]), int64(a[3])
	lat, lon, err := geo.GetCPRAirborneGlobalPosition(uint32(y0), uint32(x0), uint32(y1), uint32(x1), a[4] == 1)
	if verbose {
		o.Text = fmt.Sprintf("decoded %v %v error %v", lat, lon, err)
	}
	o.Sig = sigPos(lat, lon)
	j := floorDiv(59*y0-60*y1+65536, 131072)
	r0 := wrapLat(6 * (float64(posMod(j, 60)) + float64(y0)/p17))
	r1 := wrapLat(360.0 / 59 * (float64(posMod(j, 59)) + float64(y1)/p17))
	out := math.Abs(r0) > 90+1e-9 || math.Abs(r1) > 90+1e-9
	n0, near0 := zones(r0)
	n1, near1 := zones(r1)
	if near0 || near1 || math.Abs(math.Abs(r0)-90) < 1e-9 || math.Abs(math.Abs(r1)-90) < 1e-9 {
		o.Open = true
		return o
	}
	if out || n0 != n1 {
		if err == nil {
			o.Problem = fmt.Sprintf("accepted: the pair of latitudes %v and %v (%d and %d longitude zones) is accepted", r0, r1, n0, n1)
		}
		return o
	}
	if err != nil {
		o.Problem = fmt.Sprintf("refused: the pair of latitudes %v and %v, both in %d longitude zones, is refused: %v", r0, r1, n0, err)
		return o
	}
	nl := int64(n0)
	m := floorDiv(2*(x0*(nl-1)-x1*nl)+131072, 262144)
	w := cpr{rlat: r1}
	d := nl - 1
	x := x1
	if a[4] == 1 {
		w.rlat, d, x = r0, nl, x0
	}
	if d < 1 {
		d = 1
	}
	w.rlon = 360 / float64(d) * (float64(posMod(m, d)) + float64(x)/p17)
	o.Problem = badPosition("the decoding", lat, lon, w)
	return o
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func posMod(a, b int64) int64 { return a - b*floorDiv(a, b) }

func wrapLat(l float64) float64 {
	if l >= 270 {
		return l - 360
	}
	return l
}

// criticalLats are the latitudes around everything which changes with latitude.
func criticalLats(thorough bool) []float64 {
	q := 6 / p17
	var out []float64
	add := func(l float64) {
		if l >= -90 && l <= 90 {
			out = append(out, l)
			if l != 0 {
				out = append(out, -l)
			}
		}
	}
	offs := []float64{0, q / 2, q, 3 * q, 40 * q, 0.02, 0.07}
	if thorough {
		offs = []float64{0, q / 4, q / 2, q * 3 / 4, q, 2 * q, 3 * q, 10 * q, 40 * q, 150 * q, 0.02, 0.05, 0.07, 0.12}
	}
	around := func(l float64) {
		for _, o := range offs {
			add(l + o)
			add(l - o)
		}
	}
	for nl := 2; nl <= 59; nl++ {
		around(nlTransitions[nl])
	}
	for k := 0; k <= 15; k++ {
		around(float64(k) * 6)
		around(float64(k) * 360 / 59)
		around((float64(k) + 0.5) * 6)
	}
	step := 1.0
	if thorough {
		step = 0.1
	}
	for l := 0.0; l <= 90; l += step {
		add(l + 0.0123)
	}
	around(90)
	around(87)
	around(45)
	return out
}

// criticalLons are the longitudes around the zone boundaries at one latitude.
func criticalLons(lat float64, thorough bool) []float64 {
	nl, _ := zones(lat)
	var out []float64
	add := func(l float64) {
		if l >= -180 && l <= 180 {
			out = append(out, l)
		}
	}
	for _, odd := range []bool{false, true} {
		d := dlonOf(nl, odd)
		q := d / p17
		n := int(360/d + 0.5)
		ks := []int{0, 1, n / 4, n / 2, n - 1}
		if thorough {
			ks = nil
			for k := 0; k < n; k++ {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			b := float64(k) * d
			for _, o := range []float64{0, q / 2, -q / 2, 2 * q, -2 * q, d / 2, d/2 - q, d/2 + q} {
				add(fmod(b+o+180, 360) - 180)
			}
		}
	}
	for _, l := range []float64{-180, -179.9999, -179.5, -90, -45.5, -0.0001, 0, 0.0001, 44.9, 89.9999, 90.0001, 135.3, 179.5, 179.9999, 180} {
		add(l)
	}
	return out
}

// denseLines visits positions a code apart: all codes of some latitude zones, and of some longitude zones.
func denseLines(c *Ctx, scale float64, f func(k int, lat, lon float64)) {
	zs := []float64{0, 1, 3, 7, 11, 14, -1, -4, -9, -12, -15}
	lats := []float64{0.5, -0.5, 12.7, 29.5, 47.3, -33.2, -52.1, 61.3, 75.9, -82.2, 86.9, -88.3}
	if c.thorough {
		zs, lats = nil, nil
		for z := -15.0; z < 15; z++ {
			zs = append(zs, z)
		}
		for l := -89.1; l < 90; l += 1.7 {
			lats = append(lats, l)
		}
	}
	for _, z := range zs {
		for _, lon := range []float64{-73.9, 100.3} {
			for k := 0; k < 131072; k++ {
				f(k, (6*z+(float64(k)+0.01)*6/p17)/scale, lon)
			}
			if c.Stop() {
				return
			}
		}
	}
	for _, lat := range lats {
		nl, _ := zones(lat)
		d := dlonOf(nl, false) / scale
		for _, z := range []float64{0, 5, -2} {
			for k := 0; k < 131072; k++ {
				f(k, lat, fmod(d*(z+(float64(k)+0.01)/p17)+180, 360)-180)
			}
			if c.Stop() {
				return
			}
		}
	}
}

// transitionBands visits every latitude code, even and odd, around the latitudes at which the number of zones changes.
func transitionBands(c *Ctx, scale float64, f func(k int, lat, lon float64)) {
	lons := []float64{25.4, -100.7, 179.3}
	n := 64
	if c.thorough {
		lons = append(lons, -0.2, -45.3, 91.1, -178.8)
		n = 512
	}
	cnt := 0
	for nl := 2; nl <= 59; nl++ {
		for _, zones := range []float64{60, 59} {
			q := 360 / zones / p17 / scale
			at := math.Floor(nlTransitions[nl] / q)
			for k := -n; k <= n; k++ {
				lat := (at + float64(k) + 0.01) * q
				if lat > 90 {
					continue
				}
				for _, lon := range lons {
					for _, l := range []float64{lat, -lat} {
						f(2*cnt, l, lon)
						f(2*cnt+1, l, lon)
						cnt++
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
}

// positionGrid visits positions all over the Earth.
func positionGrid(c *Ctx, f func(k int, lat, lon float64)) {
	k := 0
	for lat := -89.97; lat < 90; lat += c.step(0.13, 0.031) {
		for lon := -179.98; lon < 180; lon += c.step(0.17, 0.043) {
			f(k, lat, lon)
			k++
		}
		if c.Stop() {
			return
		}
	}
}

func (c *Ctx) step(q, t float64) float64 {
	if c.thorough {
		return t
	}
	return q
}

func exploreAirGlobal(c *Ctx) {
	visit := func(k int, lat, lon float64) { c.Init("airborne-global", nil, lat, lon, lat, lon, float64(k&1)) }
	transitionBands(c, 1, visit)
	positionGrid(c, visit)
	denseLines(c, 1, visit)
	for _, lat := range criticalLats(c.thorough) {
		// the code can stand for a latitude with one zone more
		nl, _ := zones(math.Max(math.Abs(lat)-0.05, 0))
		lim := 80.0
		if nl > 1 {
			lim = math.Min(80, 0.4*180/float64(nl*(nl-1)))
		}
		for _, lon := range criticalLons(lat, c.thorough) {
			for ord := 0.0; ord < 2; ord++ {
				c.Init("airborne-global", nil, lat, lon, lat, lon, ord)
				// the aircraft moves between the two messages
				if math.Abs(lat) > 89.9 {
					continue
				}
				for _, dla := range []float64{-0.03, 0, 0.03} {
					for _, dlo := range []float64{-lim, 0, lim} {
						c.Step("airborne-global", nil, lat, lon, lat+dla, lon+dlo, ord)
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
	// all pairs of codes of a grid
	codes := []float64{0, 1, 2, 1000, 32768, 43690, 65535, 65536, 65537, 87381, 98304, 100000, 131070, 131071}
	for _, y0 := range codes {
		for _, x0 := range codes {
			for _, y1 := range codes {
				for _, x1 := range codes {
					c.Step("airborne-global-codes", nil, y0, x0, y1, x1, 0)
					c.Step("airborne-global-codes", nil, y0, x0, y1, x1, 1)
				}
			}
		}
	}
	// all latitude code pairs of a finer grid (all zone indexes, also the impossible ones)
	st := c.pick(149, 61)
	for y0 := 0; y0 < 131072; y0 += st {
		for y1 := 0; y1 < 131072; y1 += st {
			for _, x := range [][2]float64{{0, 0}, {70000, 12345}, {131071, 1}} {
				c.Step("airborne-global-codes", nil, float64(y0), x[0], float64(y1), x[1], float64((y0+y1)&1))
			}
		}
		if c.Stop() {
			return
		}
	}
}

// Args: lat lon, reference lat lon, odd, surface
func evalLocal(s *State, verbose bool) Outcome {
	var o Outcome
	a := s.Args
	odd, surface := a[4] == 1, a[5] == 1
	e := encode(a[0], a[1], odd, surface)
	var lat, lon float64
	if surface {
		lat, lon = geo.GetCPRSurfaceLocalPosition(e.yz, e.xz, a[2], a[3], odd)
	} else {
		lat, lon = geo.GetCPRAirborneLocalPosition(e.yz, e.xz, a[2], a[3], odd)
	}
	if verbose {
		o.Text = fmt.Sprintf("codes %v %v decoded %v %v", e.yz, e.xz, lat, lon)
	}
	o.Sig = sigPos(lat, lon)
	if e.near {
		o.Open = true
		return o
	}
	o.Problem = badPosition("the local decoding", lat, lon, e)
	return o
}

func exploreLocal(c *Ctx) {
	fr := []float64{-0.49, -0.3, -0.01, 0, 0.01, 0.3, 0.49}
	for surface := 0; surface < 2; surface++ {
		scale := float64(1 + 3*surface)
		visit := func(k int, lat, lon float64) {
			odd := k&1 == 1
			rla, rlo := lat+fr[k/2%7]*5.9/scale, lon+0.9*fr[k/14%7]*dlonOf(encode(lat, lon, odd, surface == 1).nl, odd)/scale
			if rlo > 180 {
				rlo -= 360
			} else if rlo < -180 {
				rlo += 360
			}
			if rla >= -90 && rla <= 90 {
				c.Init("local", nil, lat, lon, rla, rlo, float64(k&1), float64(surface))
			}
		}
		transitionBands(c, scale, visit)
		positionGrid(c, visit)
		denseLines(c, scale, visit)
	}
	for _, lat := range criticalLats(c.thorough) {
		for _, lon := range criticalLons(lat, c.thorough) {
			for v := 0; v < 4; v++ {
				odd, surface := v&1 == 1, v&2 == 2
				e := encode(lat, lon, odd, surface)
				dlat, dlon := 6.0, dlonOf(e.nl, odd)
				if odd {
					dlat = 360.0 / 59
				}
				if surface {
					dlat, dlon = dlat/4, dlon/4
				}
				c.Init("local", nil, lat, lon, lat, lon, float64(v&1), float64(v>>1))
				for _, fy := range fr {
					for _, fx := range fr {
						rla, rlo := lat+fy*dlat, lon+fx*dlon
						if rla < -90 || rla > 90 {
							continue
						}
						if rlo > 180 {
							rlo -= 360
						} else if rlo < -180 {
							rlo += 360
						}
						c.Step("local", nil, lat, lon, rla, rlo, float64(v&1), float64(v>>1))
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
}

// Args: lat lon, lat lon (even, odd), even last, reference lat lon
func evalSurfaceGlobal(s *State, verbose bool) Outcome {
	var o Outcome
	a := s.Args
	even, odd := encode(a[0], a[1], false, true), encode(a[2], a[3], true, true)
	last := odd
	if a[4] == 1 {
		last = even
	}
	lat, lon, err := geo.GetCPRSurfaceGlobalPosition(even.yz, even.xz, odd.yz, odd.xz, a[4] == 1, a[5], a[6])
	if verbose {
		o.Text = fmt.Sprintf("codes %v %v / %v %v decoded %v %v error %v", even.yz, even.xz, odd.yz, odd.xz, lat, lon, err)
	}
	o.Sig = sigPos(lat, lon)
	if even.near || odd.near {
		o.Open = true
		return o
	}
	if even.nl != odd.nl {
		if err == nil {
			o.Problem = fmt.Sprintf("accepted: a pair in %d and %d longitude zones is accepted", even.nl, odd.nl)
		}
		return o
	}
	if err != nil {
		o.Problem = fmt.Sprintf("refused: the surface pair of position %v %v is refused: %v", a[0], a[1], err)
		return o
	}
	o.Problem = badPosition("the surface decoding", lat, lon, last)
	return o
}

func exploreSurfaceGlobal(c *Ctx) {
	offs := []float64{-44.9, -20, 0, 0.3, 44.9}
	if c.thorough {
		offs = []float64{-44.9, -30, -10, -0.3, 0, 0.3, 5, 25, 44.9}
	}
	dense := []float64{-44, -20, -0.3, 0, 7, 31, 44}
	visit := func(k int, lat, lon float64) {
		rla, rlo := lat+dense[k/2%7], lon+dense[k/14%7]
		if rlo > 180 {
			rlo -= 360
		} else if rlo < -180 {
			rlo += 360
		}
		if rla >= -90 && rla <= 90 {
			c.Init("surface-global", nil, lat, lon, lat, lon, float64(k&1), rla, rlo)
		}
	}
	transitionBands(c, 4, visit)
	positionGrid(c, visit)
	denseLines(c, 4, visit)
	for _, lat := range criticalLats(c.thorough) {
		if lat > 90-1e-3 {
			continue // the North Pole's report is the South Pole's or the equator's: only a hint within a quantum of it
		}
		nl, _ := zones(math.Max(math.Abs(lat)-0.05, 0))
		lim := 20.0
		if nl > 1 {
			lim = math.Min(20, 0.4*45/float64(nl*(nl-1)))
		}
		for li, lon := range criticalLons(lat, c.thorough) {
			for ord := 0.0; ord < 2; ord++ {
				for _, oy := range offs {
					for _, ox := range offs {
						rla, rlo := lat+oy, lon+ox
						if rla < -90 || rla > 90 {
							continue
						}
						if rlo > 180 {
							rlo -= 360
						} else if rlo < -180 {
							rlo += 360
						}
						c.Step("surface-global", nil, lat, lon, lat, lon, ord, rla, rlo)
						if (c.thorough || li%8 == 0 && oy == ox) && math.Abs(lat) < 89.9 && math.Abs(oy) < 44 && math.Abs(ox)+lim < 44 {
							c.Step("surface-global", nil, lat, lon, lat+0.008, lon+lim, ord, rla, rlo)
							c.Step("surface-global", nil, lat, lon, lat-0.008, lon-lim, ord, rla, rlo)
						}
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
}

// great circle distance by vectors: angle between the two directions from the centre
func arc(lat1, lon1, lat2, lon2 float64) float64 {
	v := func(la, lo float64) (x, y, z float64) {
		la, lo = la*math.Pi/180, lo*math.Pi/180
		return math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)
	}
	x1, y1, z1 := v(lat1, lon1)
	x2, y2, z2 := v(lat2, lon2)
	cx, cy, cz := y1*z2-z1*y2, z1*x2-x1*z2, x1*y2-y1*x2
	return math.Atan2(math.Sqrt(cx*cx+cy*cy+cz*cz), x1*x2+y1*y2+z1*z2)
}

const earth = 6371000.0

func evalDistance(s *State, verbose bool) Outcome {
	var o Outcome
	a := s.Args
	d := geo.ComputeGroundDistance(a[0], a[1], a[2], a[3])
	want := earth * arc(a[0], a[1], a[2], a[3])
	if verbose {
		o.Text = fmt.Sprintf("distance %v, reference %v", d, want)
	}
	o.Sig = mix(math.Float64bits(math.Round(d)))
	back := geo.ComputeGroundDistance(a[2], a[3], a[0], a[1])
	switch {
	case math.IsNaN(d) || math.IsInf(d, 0):
		o.Problem = fmt.Sprintf("not a number: distance is %v", d)
	case d < 0 || d > math.Pi*earth+1e-3:
		o.Problem = fmt.Sprintf("range: distance is %v", d)
	case math.Abs(d-want) > 0.7+1e-9*want:
		o.Problem = fmt.Sprintf("value: distance is %v, want %v", d, want)
	case math.Abs(d-back) > 1e-3 && math.Abs(d-back) > 0.7*b2f(want > 1.9e7):
		o.Problem = fmt.Sprintf("symmetry: distance is %v one way and %v the other", d, back)
	case a[0] == a[2] && a[1] == a[3] && d != 0:
		o.Problem = fmt.Sprintf("identity: distance of a point to itself is %v", d)
	case want > 0.01 && want < 1e6 && math.Abs(d-want) > 2e-3+1e-6*want:
		o.Problem = fmt.Sprintf("precision: distance is %v, want %v", d, want)
	}
	if o.Problem == "" && len(a) > 4 {
		e := geo.ComputeGroundDistance(a[2], a[3], a[4], a[5])
		f := geo.ComputeGroundDistance(a[0], a[1], a[4], a[5])
		if f > d+e+1.5 {
			o.Problem = fmt.Sprintf("triangle: %v > %v + %v", f, d, e)
		}
	}
	return o
}

func b2f(b bool) float64 { return float64(b2i(b)) }

func exploreDistance(c *Ctx) {
	lats := []float64{-90, -89.999, -72, -60, -51.4778, -45.5, -37, -30, -23.4, -10, -1, -1e-7, 0, 1e-9, 0.5, 5, 15, 25, 30, 33.9, 45, 48.85, 52.3, 60, 66.56, 75, 80, 87, 89.9999, 90}
	lons := []float64{-180, -179.9999, -150, -135, -122.4, -100, -90, -77.03, -60, -45, -30, -15, -5, -1, -1e-8, 0, 1e-6, 2.35, 4.4, 10, 20, 30, 45, 60, 72, 90, 100, 116.4, 120, 135, 139.7, 150, 151.2, 165, 179, 179.99999, 180}
	if c.thorough {
		lats, lons = nil, nil
		for l := -90.0; l <= 90; l += 6 {
			lats = append(lats, l, l+1.37)
		}
		lats = lats[:len(lats)-1]
		for l := -180.0; l <= 180; l += 12 {
			lons = append(lons, l, l+0.77)
		}
	}
	type pt struct{ a, o float64 }
	var pts []pt
	for _, a := range lats {
		for _, o := range lons {
			pts = append(pts, pt{a, o})
		}
	}
	for _, p := range pts {
		c.Init("distance", nil, p.a, p.o, p.a, p.o)
		for _, q := range pts {
			c.Step("distance", nil, p.a, p.o, q.a, q.o)
			for _, k := range []float64{-360, 360} {
				c.Step("distance", nil, p.a, p.o, q.a, q.o+k)
			}
		}
		// near and antipodal points
		for e := 1e-9; e < 10; e *= 10 {
			for dx := -1.0; dx <= 1; dx++ {
				for dy := -1.0; dy <= 1; dy++ {
					if p.a+dy*e <= 90 && p.a+dy*e >= -90 {
						c.Step("distance", nil, p.a, p.o, p.a+dy*e, p.o+dx*e)
					}
					if -p.a+dy*e <= 90 && -p.a+dy*e >= -90 {
						c.Step("distance", nil, p.a, p.o, -p.a+dy*e, p.o+180+dx*e)
						c.Step("distance", nil, p.a, p.o, -p.a+dy*e, p.o-180+dx*e)
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
	// a grid over the Earth from origins of every kind
	g := c.step(0.37, 0.11)
	org := c.pick(len(pts)/60, len(pts)/90)
	for i := 0; i < len(pts); i += org {
		p := pts[i]
		c.Init("distance", nil, p.a, p.o, p.a, p.o)
		for a := -90.0; a <= 90; a += g {
			for o := -180 + math.Mod(float64(i)*0.013, g); o <= 180; o += g {
				c.Step("distance", nil, p.a, p.o, a, o)
			}
		}
		if c.Stop() {
			return
		}
	}
	// triples
	k := c.pick(13, 29)
	for i := 0; i < len(pts); i += k {
		for j := 1; j < len(pts); j += k {
			for l := 2; l < len(pts); l += k {
				c.Step("distance", nil, pts[i].a, pts[i].o, pts[j].a, pts[j].o, pts[l].a, pts[l].o)
			}
		}
	}
}

func init() {
	b := "a grid of 0.13 by 0.17 (thorough 0.031 by 0.043) degrees over the Earth; every even and odd latitude code within 64 (thorough 512) of the 58 zone-count transitions in both hemispheres; latitudes at, and from a quarter of a quantum to 0.12 degree around, all 58 zone-count transitions, all even and odd zone boundaries and middles, equator, 45, 87 and 90 degrees in both hemispheres, and a grid of 1 degree (thorough 0.1); longitudes around zone boundaries (thorough: all of them) and middles, meridian, antimeridian and quadrants"
	dl := "; every position code of 11 (thorough all 30) latitude zones and of 36 (318) longitude zones, with rotating references"
	as := []string{"positions whose latitude is within 1e-9 degree of a zone-count transition are left open"}
	register(&Check{ID: "C19", Eval: evalAirGlobal, Explore: exploreAirGlobal, Assume: as,
		Bounds: b + dl + "; both orders; aircraft at rest and moving in 8 directions between the messages; all quadruples of 14 boundary codes; all pairs of latitude codes of a grid of 149 (thorough 61)"})
	register(&Check{ID: "C20", Eval: evalLocal, Explore: exploreLocal, Assume: as,
		Bounds: b + dl + "; both parities; airborne and surface; 49 references up to 0.49 zone away"})
	register(&Check{ID: "C21", Eval: evalSurfaceGlobal, Explore: exploreSurfaceGlobal, Assume: append(as, "the last 0.001 degree before the North Pole is left out: its reports are those of the equator and the South Pole"),
		Bounds: b + dl + "; both orders; references up to 44.9 degrees away in both directions; moving aircraft"})
	register(&Check{ID: "C22", Eval: evalDistance, Explore: exploreDistance, Assume: []string{"spherical Earth of radius 6371 km; 0.7 m of rounding near antipodes"},
		Bounds: "all pairs of 1110 (thorough 3600) points with poles, meridians, also shifted by a turn; points 1e-9 to 1 degree apart and from antipodes; 60 (thorough 90) origins with a grid of 0.37 (thorough 0.11) degrees over the Earth; triples"})
}
