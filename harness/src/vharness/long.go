package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"os"
	"sync"
	"sync/atomic"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { children["long"] = longChild }

// long starts a program in which requests are stalled for many seconds, longer
// than any time limit someone may think of, and idle groups are not asked for
// as long. The result waits for it.
func (c *Ctx) long() (wait func()) {
	if c.Shard != 0 {
		return func() {}
	}
	d := "13"
	if c.Tier == "thorough" {
		d = "65"
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer c.Guard("panic", nil)
		c.runChild("long", c.Seed, d, c.Prop)
	}()
	return func() { <-done }
}

// slowWriter is a connection that takes nothing until it is let go.
type slowWriter struct {
	*httptest.ResponseRecorder
	in   chan struct{}
	once sync.Once
	out  chan struct{}
}

func (w *slowWriter) Write(b []byte) (int, error) {
	w.once.Do(func() { close(w.in) })
	<-w.out
	return w.ResponseRecorder.Write(b)
}

type longGroup struct {
	g       *tr.Group
	v       int64
	updates int32
	gate    gate // update function
	cb      gate // callback
	dir     string
}

func newLongGroup(i int) *longGroup {
	l := &longGroup{g: tr.NewGroup(), dir: fmt.Sprintf("/l%d", i)}
	l.g.RegisterUpdateFunc(func() time.Time {
		atomic.AddInt32(&l.updates, 1)
		l.gate.pass()
		l.v++
		return stamp(0, l.v)
	})
	l.g.RegisterMetric(l.dir+"/x/a", &l.v, units.None, "")
	l.g.RegisterMetric(l.dir+"/x/b", &l.v, units.None, "")
	l.g.RegisterMetric(l.dir+"/y/a", &l.v, units.None, "")
	l.g.RegisterMetric(l.dir+"/y/b", func() int64 { l.cb.pass(); return l.v }, units.None, "")
	return l
}

func longChild() {
	rep := &childReport{}
	var mu sync.Mutex
	fail := func(sig string, format string, args ...interface{}) {
		mu.Lock() // the first one ends the process
		rep.fail(sig, nil, format, args...)
	}
	ok := func(key string) { mu.Lock(); rep.ok(key); mu.Unlock() }
	var secs int
	fmt.Sscan(os.Args[1], &secs)
	exact := os.Args[2] == "C03" // or only that all goes on
	d := time.Duration(secs) * time.Second
	r := rand.New(rand.NewSource(childSeed()))
	read := func(how, dir string) []reading {
		var cl *rpc.Client
		if how == "rpc" {
			cl = newRPC()
			defer cl.Close()
		}
		got, err := readInts(how, dir, cl)
		if err != nil || len(got) != 2 {
			fail("failed", "%s of %s: %v %v", how, dir, got, err)
		}
		return got
	}
	expect := func(l *longGroup, how, dir string, want int64, when string) {
		for _, y := range read(how, dir) {
			if exact && (y.val != want || !y.ts.IsZero() && !y.ts.Equal(stamp(0, want))) {
				fail("long", "%s, %s shows %s with version %d and time %v, want version %d", when, how, y.path, y.val, y.ts, want)
			}
		}
	}
	// prompt runs something that nothing may hold up
	prompt := func(what string, f func()) {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			fail("held-up", "%s did not complete within 100 s while other requests were stalled", what)
		}
	}
	var wg sync.WaitGroup
	start := func(f func(r randT)) {
		wg.Add(1)
		rr := rand.New(rand.NewSource(r.Int63()))
		go func() { defer wg.Done(); f(rr) }()
	}
	// polls of everything else while d passes
	spend := func(f func()) {
		for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(300 * time.Millisecond) {
			f()
		}
	}
	n := 0
	next := func() *longGroup { n++; return newLongGroup(n) }

	// an update that takes long, with requests waiting for it
	for _, how := range listIfaces {
		how, l := how, next()
		start(func(r randT) {
			l.gate.shut()
			var finished int32
			var in sync.WaitGroup
			ask := func(how string) {
				in.Add(1)
				go func() {
					defer in.Done()
					for _, y := range read(how, l.dir+"/x") {
						if exact && (y.val < 1 || y.val > int64(atomic.LoadInt32(&l.updates)) || !y.ts.IsZero() && !y.ts.Equal(stamp(0, y.val))) {
							fail("stale", "after an update of %v, %s shows version %d with time %v", d, how, y.val, y.ts)
						}
					}
					atomic.AddInt32(&finished, 1)
				}()
			}
			ask(how)
			<-l.gate.arrived
			for _, other := range listIfaces {
				ask(other)
			}
			spend(func() {
				if k := atomic.LoadInt32(&finished); k > 0 {
					fail("early", "%d requests answered before the update of their group, begun for a %s request, had returned", k, how)
				}
				if k := atomic.LoadInt32(&l.updates); exact && k > 1 {
					fail("overlap", "update function called again while it runs")
				}
			})
			l.gate.open()
			prompt("a request waiting for an update that has returned", in.Wait)
			expect(l, how, l.dir+"/x", int64(atomic.LoadInt32(&l.updates))+1, "after a long update")
			ok("long update " + how)
		})
	}
	// a request that stays inside a group for long, in a callback or in a write
	for _, how := range append(append([]string{}, listIfaces...), "write text", "write html", "write json") {
		how, l := how, next()
		start(func(r randT) {
			done, in := make(chan struct{}), make(chan struct{})
			var w *slowWriter
			var used bool
			switch how {
			case "write text", "write html", "write json":
				w = &slowWriter{ResponseRecorder: httptest.NewRecorder(), in: make(chan struct{}), out: make(chan struct{})}
				url := map[string]string{"write text": "/metrics" + l.dir + "?format=text", "write html": "/metrics" + l.dir + "/x", "write json": "/metricsapi" + l.dir}[how]
				go func() {
					defer close(done)
					http.DefaultServeMux.ServeHTTP(w, httptest.NewRequest("GET", url, nil))
				}()
				in = w.in
			default:
				l.cb.shut()
				go func() { defer close(done); read(how, l.dir+"/y") }()
				arr := l.cb.arrived
				go func() { <-arr; close(in) }()
				used = true
			}
			<-in
			version := int64(1)
			if !used {
				// what is written before the group is read, or after, does not
				// need it
				first := read("read", l.dir+"/x")[0].val
				version = read("read", l.dir+"/x")[0].val
				used = version == first
			}
			spend(func() {
				if !used {
					version++
				}
				h := pick(r, listIfaces)
				prompt(h+" request for a group in use", func() {
					expect(l, h, l.dir+"/x", version, fmt.Sprintf("while another request (%s) stays inside the group (%v)", how, used))
				})
			})
			if w != nil {
				close(w.out)
			} else {
				l.cb.open()
			}
			prompt("a stalled request let go", func() { <-done })
			h := pick(r, listIfaces)
			expect(l, h, l.dir+"/x", int64(atomic.LoadInt32(&l.updates))+1, "after a long request")
			ok("long request " + how)
		})
	}
	// a group nobody asks for, and one asked for now and then
	for k, pause := range []time.Duration{d, d / 2, d / 4, d / 13} {
		l, pause, k := next(), pause, k
		start(func(r randT) {
			version := int64(0)
			for t := time.Duration(0); t <= d; t += pause {
				version++
				h := pick(r, listIfaces)
				prompt(h+" request", func() {
					expect(l, h, l.dir+pick(r, []string{"/x", "/y"}), version, fmt.Sprint("asked for every ", pause))
				})
				time.Sleep(pause)
			}
			ok(fmt.Sprint("idle ", k))
		})
	}
	// the rest of the program
	start(func(r randT) {
		dist := tr.PowersOfTen.NewCumulativeDistribution()
		list := tr.NewList([]int64{1}, tr.MutableSlice)
		tr.RegisterMetric("/o/dist", dist, units.None, "")
		tr.RegisterMetric("/o/list", list, units.None, "")
		var v int64
		spend(func() {
			prompt("other work", func() {
				dist.Add(1.0)
				list.Change([]int64{2, 3}, tr.ImmutableSlice)
				if err := tr.RegisterMetric("/o/v", &v, units.None, ""); err != nil {
					fail("failed", "%v", err)
				}
				tr.ReadMyMetrics("/o")
				tr.UnregisterPath("/o/v")
			})
		})
		ok("other work")
	})
	wg.Wait()
	rep.count("stalled_seconds", int64(secs))
	rep.emit()
}
