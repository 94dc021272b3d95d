//go:build go1.21

// Package verifsched is the scheduler of the instrumented packages. Two goroutines run one at a time; at each yield
// point the running one asks whether the schedule says to switch.
package verifsched

import "runtime"

// Active tells that a schedule is being executed.
var active bool

// Fair is how long a goroutine may run, far more than it takes, before the other one gets a turn in any case.
var Fair = 50000

type thread struct {
	wake    chan struct{}
	done    bool
	blocked bool
}

var (
	threads  [2]*thread
	cur      int
	steps    int   // yield points passed in this execution
	globals  int   // those which are accesses to package-level variables
	switches []int // positions of the preemptions, increasing
	next     int
	byGlobal bool // positions count accesses to package-level variables only
	finished chan struct{}
	deadlock bool
	spun     int
	since    int    // yield points passed since the last switch
	trace    [2]int // yield points passed by each
	gtrace   [2]int
	limit    int
	overrun  bool
)

// Quantum makes all goroutines run in turn, when no schedule is executed: each passes that many yield points. There
// has to be one processor only.
var Quantum int
var passed int

func pass() {
	if passed++; passed >= Quantum {
		passed = 0
		runtime.Gosched()
	}
}

// Y is a yield point before a statement.
func Y() {
	if active {
		step(false)
	} else if Quantum > 0 {
		pass()
	}
}

// At is a yield point at an access to a package-level variable.
func At[T any](p *T) *T {
	if active {
		step(true)
	} else if Quantum > 0 {
		pass()
	}
	return p
}

// Zero gives a variable its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func step(global bool) {
	steps++
	trace[cur]++
	n := steps
	if since++; since > Fair {
		// it may wait, in a loop of its own, for something which only the other one can do
		switchTo(1 - cur)
		return
	}
	if global {
		globals++
		gtrace[cur]++
	}
	if byGlobal {
		if !global {
			return
		}
		n = globals
	}
	if next < len(switches) && n == switches[next] {
		next++
		switchTo(1 - cur)
	}
}

// switchTo lets the other goroutine run, when it can.
func switchTo(o int) {
	if threads[o].done {
		return
	}
	me := threads[cur]
	cur, since = o, 0
	threads[o].wake <- struct{}{}
	<-me.wake
}

// Blocked is called by a goroutine which waits for a lock: the other one has to run.
func Blocked() {
	if !active {
		runtime.Gosched()
		return
	}
	o := 1 - cur
	spun++
	if threads[o].done || spun > 10000 {
		// nobody will ever release the lock
		deadlock = true
		panic("verifsched: deadlock")
	}
	switchTo(o)
}

// Running tells whether a schedule is being executed.
func Running() bool { return active }

// Result of one execution.
type Result struct {
	Steps    [2]int
	Globals  [2]int
	Taken    int // preemptions of the schedule which were reached
	Deadlock bool
}

// Run executes the two functions, the first one first, with preemptions at the given positions.
func Run(f [2]func(), at []int, onlyGlobals bool) Result {
	threads = [2]*thread{{wake: make(chan struct{}, 1)}, {wake: make(chan struct{}, 1)}}
	cur, steps, globals, next, spun, since = 0, 0, 0, 0, 0, 0
	trace, gtrace = [2]int{}, [2]int{}
	switches, byGlobal, deadlock = at, onlyGlobals, false
	finished = make(chan struct{}, 1)
	for i := range f {
		i := i
		go func() {
			<-threads[i].wake
			defer func() {
				threads[i].done = true
				if o := 1 - i; !threads[o].done {
					cur, since = o, 0
					threads[o].wake <- struct{}{}
				} else {
					active = false
					finished <- struct{}{}
				}
			}()
			f[i]()
		}()
	}
	active = true
	threads[0].wake <- struct{}{}
	<-finished
	return Result{Steps: trace, Globals: gtrace, Taken: next, Deadlock: deadlock}
}

var resets []func()

// OnReset registers what gives a package its initial state. Packages register in the order of their initialisation.
func OnReset(f func()) { resets = append(resets, f) }

// Reset gives all packages their initial state.
func Reset() {
	if active {
		panic("verifsched: reset while a schedule is running")
	}
	for _, f := range resets {
		f()
	}
}
