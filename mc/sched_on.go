//go:build inst

package main

// Built against the instrumented copies of the packages.

import (
	"runtime"

	"github.com/twuillemin/modes/pkg/verifsched"
)

const instrumented = true

type schedResult = verifsched.Result

func schedRun(f [2]func(), at []int, onlyGlobals bool) schedResult {
	return verifsched.Run(f, at, onlyGlobals)
}

// The packages have started goroutines of their own when the program starts: what these work with cannot be replaced
// under them. (Measured in the first init function of this program, after the ones of the packages.)
var ownGoroutines = runtime.NumGoroutine() > 1

func schedReset() {
	if !ownGoroutines {
		verifsched.Reset()
	}
}

func schedRunLong(f [2]func(), at []int) schedResult {
	verifsched.Fair *= 4
	defer func() { verifsched.Fair /= 4 }()
	return verifsched.Run(f, at, false)
}

// schedInTurn lets all goroutines run in turn until f returns, q yield points each.
func schedInTurn(q int, f func()) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	verifsched.Quantum = q
	defer func() { verifsched.Quantum = 0 }()
	f()
}
