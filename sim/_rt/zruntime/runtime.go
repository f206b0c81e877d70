// Package zruntime stands in for the scheduler's part of package runtime.
package zruntime

import "robpike.io/ivy/zzsim"

// Procs is the simulated number of processors.
var Procs = 1

func GOMAXPROCS(n int) int {
	old := Procs
	if n > 0 {
		Procs = n
	}
	return old
}

func NumCPU() int       { return Procs }
func Gosched()          { zzsim.Gosched() }
func Goexit()           { zzsim.Goexit() }
func NumGoroutine() int { return zzsim.NumTasks() }
