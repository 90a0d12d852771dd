package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"time"
)

// stuckAfter is how long an operation that takes microseconds may take before
// the goroutines are looked at. A verdict needs a goroutine blocked in the code
// under test, not just time gone by.
const stuckAfter = 20 * time.Second

var stateRE = regexp.MustCompile(`^goroutine (\d+) .*\[([^\],]*)`)

func stacks() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return strings.Split(string(buf[:n]), "\n\n")
		}
		buf = make([]byte, 2*len(buf))
	}
}

// blockedInTricorder returns the stacks of goroutines serving calls that are
// blocked inside tricorder. Goroutines tricorder itself started are not calls.
func blockedInTricorder() map[string]string {
	res := map[string]string{}
	for _, g := range stacks() {
		m := stateRE.FindStringSubmatch(g)
		if m == nil || !strings.Contains(g, "Symantec/tricorder") {
			continue
		}
		if i := strings.LastIndex(g, "created by "); i >= 0 && strings.Contains(g[i:], "Symantec/tricorder") {
			continue
		}
		switch {
		case strings.HasPrefix(m[2], "run"), strings.HasPrefix(m[2], "syscall"), strings.HasPrefix(m[2], "sleep"):
			continue
		}
		res[m[1]] = g
	}
	return res
}

// within runs f, which must complete. If it does not, it decides whether f
// hangs in the code under test.
func within(c *Ctx, sig, what string, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer c.Guard(sig+"-panic", what)
		f()
	}()
	awaitDone(c, sig, what, done)
}

func awaitDone(c *Ctx, sig, what string, done <-chan struct{}) {
	for i := 0; i < 12; i++ {
		t := time.NewTimer(stuckAfter)
		select {
		case <-done:
			t.Stop()
			return
		case <-t.C:
		}
		a := blockedInTricorder()
		time.Sleep(2 * time.Second)
		b := blockedInTricorder()
		for id, s := range a {
			if b[id] != "" {
				select {
				case <-done:
					return
				default:
				}
				c.Violate(sig, s, "%s does not complete: a goroutine is blocked\n%s", what, s)
			}
		}
	}
	panic(fmt.Sprintf("%s did not complete and nothing is seen to block it", what))
}
