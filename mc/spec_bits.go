//go:build !nobits

package main

// C29: the bit helpers which every reader is built on.

import (
	"fmt"

	"github.com/twuillemin/modes/pkg/bitutils"
)

func evalBits(s *State, verbose bool) Outcome {
	var o Outcome
	d := s.Data
	var got, want uint64
	for _, b := range d {
		want = want<<8 | uint64(b)
	}
	bit := func(i uint) bool { return want>>i&1 == 1 }
	switch s.Op {
	case "pack2":
		got = uint64(bitutils.Pack2Bytes(d[0], d[1]))
	case "pack3":
		got = uint64(bitutils.Pack3Bytes(d[0], d[1], d[2]))
	case "pack4":
		got = uint64(bitutils.Pack4Bytes(d[0], d[1], d[2], d[3]))
	case "pack8bits":
		got = uint64(bitutils.Pack8Bits(bit(7), bit(6), bit(5), bit(4), bit(3), bit(2), bit(1), bit(0)))
	case "pack16bits":
		got = uint64(bitutils.Pack16Bits(bit(15), bit(14), bit(13), bit(12), bit(11), bit(10), bit(9), bit(8), bit(7), bit(6), bit(5), bit(4), bit(3), bit(2), bit(1), bit(0)))
	case "gillham":
		ft, err := bitutils.GillhamToAltitude(bit(11), bit(10), bit(9), bit(8), bit(7), bit(6), bit(5), bit(4), bit(3), bit(2), bit(1), bit(0))
		w, ok := gillham[uint16(want)]
		if ok != (err == nil) || ok && ft != w {
			o.Problem = fmt.Sprintf("gillham: pulses %012b give %v, error %v; want %v, legal %v", want, ft, err, w, ok)
		}
		o.Sig = mix(uint64(uint32(ft)))
		return o
	}
	o.Sig = mix(got)
	if got != want {
		o.Problem = fmt.Sprintf("%s: %x gives %x", s.Op, d, got)
	}
	return o
}

func exploreBits(c *Ctx) {
	for k := 0; k < 65536; k++ {
		b1, b0 := byte(k>>8), byte(k)
		c.Init("pack2", []byte{b1, b0})
		c.Init("pack16bits", []byte{b1, b0})
		if k < 256 {
			c.Init("pack8bits", []byte{b0})
		}
		if k < 4096 {
			c.Init("gillham", []byte{b1, b0})
		}
		for _, f := range []byte{0, 0xFF, 0x55, 0x80, 0x01} {
			for i := 0; i < 4; i++ {
				for j := i + 1; j < 4; j++ {
					d := []byte{f, f, f, f}
					d[i], d[j] = b1, b0
					c.Init("pack4", d)
				}
			}
		}
	}
	for k := 0; k < 1<<24; k++ {
		c.Step("pack3", []byte{byte(k >> 16), byte(k >> 8), byte(k)})
		if c.Stop() {
			return
		}
	}
	if c.thorough { // every four bytes with 24 free bits, in four ways
		for k := 0; k < 1<<24; k++ {
			x, y, z := byte(k>>16), byte(k>>8), byte(k)
			c.Step("pack4", []byte{0, x, y, z})
			c.Step("pack4", []byte{x, 0xFF, y, z})
			c.Step("pack4", []byte{x, y, 0, z})
			c.Step("pack4", []byte{x, y, z, 0xFF})
			if c.Stop() {
				return
			}
		}
	}
}

func init() {
	register(&Check{ID: "C29", Eval: evalBits, Explore: exploreBits,
		Bounds: "all arguments of Pack8Bits, Pack16Bits, Pack2Bytes, Pack3Bytes and GillhamToAltitude; for Pack4Bytes every value of every two bytes with the others at 0, FF, 55, 80 and 01 (thorough: every value of every three bytes)"})
}
