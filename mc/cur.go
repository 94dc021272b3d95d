package main

import (
	"encoding/json"
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// curState is a small shared-memory file in which a worker process keeps the state it is evaluating, so that the
// parent can name it when the worker dies or hangs.
type curState struct {
	mem []byte
	cnt *uint64
}

const curSize = 1 << 16

func newCur(path string) *curState {
	if path == "" {
		return &curState{}
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return &curState{}
	}
	defer f.Close()
	if err := f.Truncate(curSize); err != nil {
		return &curState{}
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return &curState{}
	}
	return &curState{mem: m, cnt: (*uint64)(unsafe.Pointer(&m[0]))}
}

func (c *curState) beat() uint64 {
	if c.cnt == nil {
		return 0
	}
	return atomic.LoadUint64(c.cnt)
}

// set is called for each state: layout is counter, op length, op, data length, data, args, text.
func (c *curState) set(s *State) {
	if c.mem == nil {
		return
	}
	p := 16
	put := func(n int) { c.mem[p] = byte(n); c.mem[p+1] = byte(n >> 8); p += 2 }
	if 16+8+len(s.Op)+len(s.Data)+8*len(s.Args)+len(s.Text) > curSize {
		return
	}
	put(len(s.Op))
	p += copy(c.mem[p:], s.Op)
	put(len(s.Data))
	p += copy(c.mem[p:], s.Data)
	put(len(s.Args))
	for _, a := range s.Args {
		*(*float64)(unsafe.Pointer(&c.tmp()[0])) = a
		p += copy(c.mem[p:], c.tmp())
	}
	put(len(s.Text))
	copy(c.mem[p:], s.Text)
	atomic.AddUint64(c.cnt, 1)
}

var tmpBuf [8]byte

func (c *curState) tmp() []byte { return tmpBuf[:] }

func (c *curState) get() State {
	var s State
	if c.mem == nil {
		return s
	}
	p := 16
	take := func() int { n := int(c.mem[p]) | int(c.mem[p+1])<<8; p += 2; return n }
	n := take()
	s.Op = string(c.mem[p : p+n])
	p += n
	n = take()
	s.Data = append([]byte(nil), c.mem[p:p+n]...)
	p += n
	n = take()
	for i := 0; i < n; i++ {
		copy(tmpBuf[:], c.mem[p:p+8])
		s.Args = append(s.Args, *(*float64)(unsafe.Pointer(&tmpBuf[0])))
		p += 8
	}
	n = take()
	s.Text = string(c.mem[p : p+n])
	return s
}

func mustJSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func fromJSON(s string, v interface{}) { json.Unmarshal([]byte(s), v) }
