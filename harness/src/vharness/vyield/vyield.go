// Package vyield holds the yield points that vinstr injects, at build time
// and through a go build overlay, before the statements of the packages under
// test. It widens the set of interleavings a run produces and records which
// statements ran and which pairs of statements of different goroutines
// followed each other. None of it synchronises: it uses no atomics and no
// locks, so the race detector sees exactly the synchronisation of the program.
package vyield

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
	"unsafe"
)

const maxSites = 2048

var (
	hits  [maxSites]uint32
	pairs [maxSites * maxSites / 8]byte
	last  uintptr // stack page of the goroutine that last passed a site
	lastS int
	rate  = envInt("VERIF_YIELD", 0) // 1 in rate yields; 0: never
	sleep = envInt("VERIF_SLEEP", 0) // 1 in sleep pauses for some microseconds
	off   bool
)

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Y is called before a statement of the code under test.
//
//go:norace
func Y(site int) {
	if site >= maxSites {
		site = maxSites - 1
	}
	hits[site]++
	var local byte
	g := uintptr(unsafe.Pointer(&local)) >> 13
	if g != last {
		i := lastS*maxSites + site
		pairs[i/8] |= 1 << (i % 8)
	}
	last, lastS = g, site
	if rate == 0 || off {
		return
	}
	r := rand.Uint32()
	if sleep > 0 && int(r>>8)%sleep == 0 {
		time.Sleep(time.Duration(r%40) * time.Microsecond)
		return
	}
	if int(r>>8)%rate == 0 {
		runtime.Gosched()
	}
}

// SetRate changes the yield rate (1 in n).
//
//go:norace
func SetRate(n, s int) { rate, sleep = n, s }

// Sites returns how many distinct sites were reached.
//
//go:norace
func Sites() (n int, total uint64) {
	for i := range hits {
		if hits[i] > 0 {
			n++
			total += uint64(hits[i])
		}
	}
	return
}

// Pairs returns how many distinct ordered pairs of sites were seen back to
// back in different goroutines.
//
//go:norace
func Pairs() (n int) {
	for _, b := range pairs {
		for ; b != 0; b &= b - 1 {
			n++
		}
	}
	return
}
