package main

// Model of the parity (C02). The remainder is linear in the frame: the model keeps the remainder of each single bit,
// computed by long division on the polynomial, and a frame's remainder is the sum over its bits.

import (
	"fmt"

	"github.com/twuillemin/modes/pkg/modes/common"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

const generator = 1<<24 | 0xFFF409

// bitRemainder[k] is x^k modulo the generator, for k from 0: the last transmitted bit of the frame.
var bitRemainder [112]uint32

func init() {
	r := uint32(1)
	for k := range bitRemainder {
		bitRemainder[k] = r
		r <<= 1
		if r&(1<<24) != 0 {
			r ^= generator
		}
	}
}

// remainder of the whole frame, parity field included: the address (or interrogator) overlaid on the parity.
func remainder(d []byte) uint32 {
	n := len(d) * 8
	var r uint32
	for i := 0; i < n; i++ {
		if d[i>>3]&(0x80>>uint(i&7)) != 0 {
			r ^= bitRemainder[n-1-i]
		}
	}
	return r
}

// addressList makes the allow list of one kind: nil, empty, with the identifier, without it, many with it, many without it.
func addressList(kind int, id uint32) map[common.ICAOAddress]bool {
	near := []uint32{id ^ 1, id ^ 0x800000, id ^ 0xFFFFFF, (id >> 8) | id<<16&0xFFFFFF, id + 1&0xFFFFFF}
	m := map[common.ICAOAddress]bool{}
	switch kind {
	case 0:
		return nil
	case 1:
		return m
	case 2:
		m[common.ICAOAddress(id)] = true
	case 3:
		m[common.ICAOAddress(id^0x40)] = true
	case 4, 5:
		for _, n := range near {
			if n != id {
				m[common.ICAOAddress(n)] = true
			}
		}
		if kind == 4 {
			m[common.ICAOAddress(id)] = true
		}
	case 6:
		m[0] = true
	case 7:
		m[0x4840D6] = true
		m[5] = true
	}
	// long lists: 20+2k of k neighbours in steps of a prime, with (odd) or without the identifier
	if kind >= 20 {
		v := id
		for n := 0; n < (kind-20)/2; n++ {
			v = (v + 0x35A3B1) & 0xFFFFFF
			m[common.ICAOAddress(v)] = true
		}
		delete(m, common.ICAOAddress(id))
		if kind&1 == 1 {
			m[common.ICAOAddress(id)] = true
		}
	}
	return m
}

func inList(m map[common.ICAOAddress]bool, id uint32) bool {
	if len(m) == 0 {
		return true
	}
	_, ok := m[common.ICAOAddress(id)]
	return ok
}

func evalParity(s *State, verbose bool) Outcome {
	o := Outcome{Sig: 1}
	msg, err := modesreader.ReadMessage(clone(s.Data))
	if err != nil {
		o.Open = true
		return o // not a frame: C01 decides which are
	}
	df := int(s.Data[0] >> 3)
	if len(s.Data) != frameLen(df) {
		return o
	}
	la, li := 0, 0
	if len(s.Args) > 1 {
		la, li = int(s.Args[0]), int(s.Args[1])
	}
	r := remainder(s.Data)
	id := r
	ok := true
	switch {
	case df == 17 || df == 18:
		id = uint32(s.Data[1])<<16 | uint32(s.Data[2])<<8 | uint32(s.Data[3])
		ok = r == 0
	case df == 11:
		ok = inList(addressList(li, r), r)
	default:
		ok = inList(addressList(la, r), r)
	}
	lid := id
	if df == 17 || df == 18 {
		lid = r
	}
	got, err := modesreader.CheckCRC(msg, clone(s.Data), addressList(la, lid), addressList(li, lid))
	if verbose {
		o.Text = fmt.Sprintf("address %06X error %v", uint32(got), err)
	}
	switch {
	case ok && err != nil:
		o.Problem = fmt.Sprintf("refused: the parity of a valid DF%d frame is refused (lists %d/%d): %v", df, la, li, err)
	case !ok && err == nil:
		o.Problem = fmt.Sprintf("accepted: DF%d frame with remainder %06X is accepted (lists %d/%d) as %06X", df, r, la, li, uint32(got))
	case ok && uint32(got) != id:
		o.Problem = fmt.Sprintf("address: DF%d gives %06X, want %06X", df, uint32(got), id)
	}
	o.Sig = mix(uint64(id)<<8 | uint64(b2i(ok)))
	return o
}

// sealFrame puts the parity field which makes the remainder equal to id.
func sealFrame(d []byte, id uint32) []byte {
	n := len(d)
	d[n-3], d[n-2], d[n-1] = 0, 0, 0
	r := remainder(d) ^ id
	d[n-3], d[n-2], d[n-1] = byte(r>>16), byte(r>>8), byte(r)
	return d
}

func exploreParity(c *Ctx) {
	dfs := []int{0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24, 27, 31}
	ids := []uint32{0, 1, 0x40, 0x80, 0x800000, 0xFFFFFF, 0x4840D6, 0xABCDEF, 0x00FF00, 0x7F}
	frame := func(df int, b []byte) []byte {
		d := clone(b)
		d[0] = byte(df)<<3 | d[0]&7
		if hasAltitude(df) {
			legalAltitude(d)
		}
		return d
	}
	bases := func(df int) [][]byte {
		var out [][]byte
		for _, b := range fill(frameLen(df), nil) {
			out = append(out, frame(df, b))
		}
		return out
	}
	// allow lists
	for _, df := range dfs {
		for _, b := range bases(df) {
			for _, id := range ids {
				for la := 0.0; la < 7; la++ {
					for li := 0.0; li < 7; li++ {
						d := sealFrame(clone(b), id)
						c.Init("parity", d, la, li)
						// one bit of damage with every list
						if la < 4 && li < 4 {
							for i := 5; i < len(d)*8; i += c.pick(7, 1) {
								d[i>>3] ^= 0x80 >> uint(i&7)
								c.Step("parity", d, la, li)
								d[i>>3] ^= 0x80 >> uint(i&7)
							}
						}
					}
				}
			}
		}
	}
	// lists of many lengths
	for _, df := range []int{0, 5, 11, 16, 21, 24, 17} {
		for _, id := range ids {
			d := sealFrame(clone(bases(df)[1]), id)
			for n := 0; n < 70; n++ {
				for k := 0.0; k < 2; k++ {
					l := float64(20+2*n) + k
					c.Step("parity", d, l, 0)
					c.Step("parity", d, 0, l)
					c.Step("parity", d, l, l)
				}
			}
			for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4096} {
				l := float64(20 + 2*n)
				c.Step("parity", d, l, l)
				c.Step("parity", d, l+1, l+1)
			}
		}
	}
	// every interrogator code of all-call replies, every byte of the address
	for _, b := range bases(11) {
		for id := uint32(0); id < 256; id++ {
			c.Step("parity", sealFrame(clone(b), id), 0, 0)
			c.Step("parity", sealFrame(clone(b), id), 2, 2)
			c.Step("parity", sealFrame(clone(b), id), 3, 3)
		}
	}
	for _, df := range dfs {
		b := bases(df)[1]
		for sh := uint(0); sh < 24; sh += 8 {
			for v := uint32(0); v < 256; v++ {
				c.Step("parity", sealFrame(clone(b), v<<sh), 0, 0)
				c.Step("parity", sealFrame(clone(b), v<<sh^0xABCDEF), 2, 3)
			}
		}
	}
	// every value of two adjacent bytes
	for _, df := range dfs {
		b := sealFrame(clone(bases(df)[1]), 0)
		d := clone(b)
		for i := 0; i+1 < len(d); i++ {
			for v := 0; v < 1<<16; v++ {
				copy(d, b)
				d[i], d[i+1] = byte(v>>8), byte(v)
				if i == 0 {
					d[0] = byte(df)<<3 | d[0]&7
				}
				c.Step("parity", d, 0, 0)
			}
		}
		if c.Stop() {
			return
		}
	}
	// every identifier (or remainder) against a list of two, and without list
	for k, df := range []int{17, 11, 5, 20, 18, 4, 0, 21, 16, 24} {
		if k >= c.pick(4, 10) {
			break
		}
		b := bases(df)[1]
		l := 7.0
		if df == 17 || df == 18 {
			l = 0
		}
		for id := uint32(0); id < 1<<24; id++ {
			c.Step("parity", sealFrame(b, id), l, l)
			if id&0xFFFF == 0 && c.Stop() {
				return
			}
		}
	}
	// all patterns of up to 3 (thorough 4) damaged bits, on every format; the squitters from several frames
	for _, df := range dfs {
		bb := bases(df)
		rad := c.pick(2, 3)
		if frameLen(df) == 7 {
			rad++
		}
		n := 2
		if df == 17 || df == 18 {
			n, rad = c.pick(2, 3), c.pick(3, 4)
			if df == 18 {
				n = 1
			}
		}
		for k := 0; k < n; k++ {
			d := sealFrame(clone(bb[(k*4+1)%6]), 0)
			hammingBall(d, rad, func(x []byte) bool {
				c.Step("parity", x, 0, 0)
				return !c.Stop()
			})
			if c.Stop() {
				return
			}
		}
	}
	// all bursts: every pattern of up to 12 (thorough 18) adjacent bits at every place
	for _, df := range dfs {
		w := c.pick(10, 14)
		if df == 17 || df == 18 {
			w = c.pick(13, 18)
		}
		b := sealFrame(clone(bases(df)[5]), 0)
		d := clone(b)
		for lo := 1; lo+w-1 <= len(b)*8; lo++ {
			base := M{D: b}.U(lo, lo+w-1)
			for v := uint64(1); v < 1<<uint(w); v++ {
				copy(d, b)
				setBits(d, lo, lo+w-1, base^v)
				c.Step("parity", d, 0, 0)
			}
			if c.Stop() {
				return
			}
		}
		// longer bursts with sparse or dense inside
		for w := 13; w <= 24; w++ {
			for lo := 1; lo+w-1 <= len(b)*8; lo++ {
				base := M{D: b}.U(lo, lo+w-1)
				for _, v := range boundary(w) {
					copy(d, b)
					setBits(d, lo, lo+w-1, base^v^(1<<uint(w-1)|1))
					c.Step("parity", d, 0, 0)
				}
			}
		}
	}
	c.modelErrorPatterns()
}

// modelErrorPatterns enumerates on the model, which the states above bind to the code, all patterns of up to five bits
// and all bursts of up to 24 bits: no such pattern has remainder 0.
func (c *Ctx) modelErrorPatterns() {
	n := 112
	bad := 0
	count := 0.0
	r := bitRemainder[:]
	for a := 0; a < n; a++ {
		if a%c.n != c.shard {
			continue
		}
		for b := a; b < n; b++ { // equal indices cancel: fewer bits
			rb := r[a]
			if b > a {
				rb ^= r[b]
			}
			for d := b; d < n; d++ {
				rd := rb
				if d > b {
					rd ^= r[d]
				}
				for e := d; e < n; e++ {
					re := rd
					if e > d {
						re ^= r[e]
					}
					if re == 0 {
						bad++
					}
					for f := e + 1; f < n; f++ {
						if re^r[f] == 0 {
							bad++
						}
						count++
					}
				}
			}
		}
	}
	for lo := 0; lo < n; lo++ {
		if lo%c.n != c.shard {
			continue
		}
		w := 24
		if lo+w > n {
			w = n - lo
		}
		var v uint32
		for g := uint32(1); g < 1<<uint(w); g++ {
			k := 0
			for g>>uint(k)&1 == 0 {
				k++
			}
			v ^= r[lo+k]
			if v == 0 {
				bad++
			}
			count++
		}
	}
	c.Extra["error_patterns_enumerated_on_the_model"] = count
	c.Extra["undetected_error_patterns_on_the_model"] = float64(bad)
}

func init() {
	register(&Check{ID: "C02", Eval: evalParity, Explore: exploreParity,
		Bounds: "13 formats x 6 contents x 10 identifiers x 49 combinations of allow lists, with all 1-bit errors; lists of 0 to 69 and of 13 longer lengths up to 4096, with and without the identifier; all 256 interrogator codes; every two adjacent bytes with all values; all 2^24 identifiers (squitters: remainders) of formats 17, 11, 5 and 20 (thorough: ten formats) against a list of two; all damage of up to 3 bits on squitters and short frames, 2 on other long ones (thorough: 4 and 3); all bursts of up to 13 (thorough 18) bits on squitters, 10 (14) elsewhere, sparse and dense ones up to 24 bits; on the model all 5-bit patterns and all 24-bit bursts",
		Assume: []string{"which frames are accepted by the reader is decided by C01", "the remainder is linear, so that the patterns enumerated on the model carry over to the code through the states compared with it"}})
}
