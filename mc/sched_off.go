//go:build !inst

package main

const instrumented = false

type schedResult struct {
	Steps, Globals [2]int
	Taken          int
	Deadlock       bool
}

func schedRun(f [2]func(), at []int, onlyGlobals bool) schedResult {
	f[0]()
	f[1]()
	return schedResult{}
}

func schedReset() {}

func schedRunLong(f [2]func(), at []int) schedResult { return schedRun(f, at, false) }

func schedInTurn(q int, f func()) { f() }
