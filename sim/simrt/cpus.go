package simrt

import (
	"os"
	"strconv"
)

// The number of processors as the library sees it.
var cpus, procs = 8, 8

func init() {
	if n, err := strconv.Atoi(os.Getenv("VERIF_CPUS")); err == nil && n > 0 {
		cpus, procs = n, n
	}
}

// NumCPU replaces runtime.NumCPU.
func NumCPU() int { return cpus }

// GOMAXPROCS replaces runtime.GOMAXPROCS; the simulation goes on with one.
//
//go:norace
func GOMAXPROCS(n int) int {
	old := procs
	if n > 0 {
		procs = n
	}
	return old
}

// CPUs of a life.
func CPUs(life uint64) int { return []int{8, 1, 2, 16, 4, 8, 3, 64, 8, 2, 32}[life%11] }
