// Package vh supports the executable-contract harnesses: seeded randomness,
// tier scaling and reporting. It is laid over /repo as the virtual package
// github.com/openconfig/gnmi/verifh for the duration of a check.
package vh

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Seed is the check's seed (VERIF_SEED).
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N scales an iteration count by tier.
func N(quick int) int {
	if Thorough() {
		return quick * 8
	}
	return quick
}

// Rand returns the generator of case i of a named family.
func Rand(name string, i int) *rand.Rand {
	h := Seed()*1000003 + int64(i)*7919
	for _, c := range name {
		h = h*31 + int64(c)
	}
	return rand.New(rand.NewSource(h))
}

var (
	mu    sync.Mutex
	stats = map[string]int{}
)

// Stat counts covered cases; Flush prints them for the driver.
func Stat(k string, n int) {
	mu.Lock()
	defer mu.Unlock()
	stats[k] += n
}

// Flush prints the statistics.
func Flush() {
	mu.Lock()
	defer mu.Unlock()
	for k, v := range stats {
		fmt.Printf("VERIF-STAT %s=%d\n", k, v)
	}
	stats = map[string]int{}
}

// Fail reports a failing input of the real code.
func Fail(t testing.TB, f string, a ...any) {
	t.Helper()
	Flush()
	fmt.Printf("VERIF-FAIL %s\n", fmt.Sprintf(f, a...))
	t.Fatalf("VERIF-FAIL "+f, a...)
}

// Sample records one actual case.
func Sample(f string, a ...any) {
	mu.Lock()
	n := samples
	samples++
	mu.Unlock()
	if n < 3 {
		fmt.Printf("VERIF-SAMPLE %s\n", fmt.Sprintf(f, a...))
	}
}

var samples int

// Budget returns a deadline function for loops.
func Budget(quick time.Duration) func() bool {
	if Thorough() {
		quick *= 8
	}
	end := time.Now().Add(quick)
	return func() bool { return time.Now().Before(end) }
}

// NoPanic runs f and returns the panic value, if any.
func NoPanic(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

var pointRate atomic.Int64

// Perturb sets how often schedule points disturb the scheduler: about n in 1024.
func Perturb(n int64) { pointRate.Store(n) }

// Point is a schedule point, inserted mechanically into instrumented sources.
func Point() {
	n := pointRate.Load()
	if n == 0 {
		return
	}
	r := int64(rand.Uint32() & 1023)
	if r >= n {
		return
	}
	switch r & 7 {
	case 0:
		time.Sleep(time.Duration(rand.Uint32()%64) * time.Microsecond)
	default:
		for i := r & 3; i >= 0; i-- {
			runtime.Gosched()
		}
	}
}

// Within runs f and reports whether it returned in time.
func Within(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}
