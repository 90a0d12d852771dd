package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
	"weak"

	"github.com/Symantec/tricorder/go/healthserver"
	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C23"] = c23 }

// c23 runs operations in great numbers and looks at what they leave behind:
// heap, goroutines and descriptors that grow with the number of operations, and
// single objects that ought to have been let go, watched by weak pointers.
func c23(c *Ctx) {
	c.rule = "a case is one run of many operations of a kind after which heap, goroutines and descriptors were measured, or one object whose release was watched; distinct by the kind of operations or object, the way it was registered and let go"
	log.SetOutput(io.Discard)
	w := newC23world(c)
	kinds := w.kinds()
	rounds := 1
	if c.Tier == "thorough" {
		rounds = 12
	}
	for round := 0; round < rounds; round++ {
		for i, k := range kinds {
			if i%c.NSh == (c.Shard+round)%c.NSh {
				w.slope(k)
			}
		}
		// every object with every way of letting go
		n := len(c23objects) * len(c23ways) * 3
		for i := c.Shard; i < n; i += c.NSh {
			w.release(round, i)
		}
	}
}

type c23kind struct {
	name string
	n    int     // operations of the first measured run
	per  float64 // bytes an operation may leave without suspicion
	f    func(i int)
}

type c23world struct {
	c      *Ctx
	r      randT
	cl     *rpc.Client
	paths  []string // of metrics
	dirs   []string
	cum    *tr.CumulativeDistribution
	tim    *tr.CumulativeDistribution
	non    *tr.NonCumulativeDistribution
	list   *tr.List
	groups []*tr.Group
	addr   string
	next   int // for names and values not used before
	boom   bool
}

func newC23world(c *Ctx) *c23world {
	w := &c23world{c: c, r: c.Sub("world"), cl: newRPC()}
	must := func(err error) {
		if err != nil {
			c.Violate("refused", nil, "registering: %v", err)
		}
	}
	w.groups = []*tr.Group{tr.NewGroup(), tr.NewGroup()}
	for _, g := range w.groups {
		g.RegisterUpdateFunc(time.Now)
	}
	add := func(p string, m interface{}, g *tr.Group, u units.Unit) {
		must(regVia(w.r, p, m, g, u, "a metric"))
		w.paths = append(w.paths, p)
	}
	for i := 0; i < 12; i++ {
		i := i
		p := fmt.Sprintf("/w/d%d/m%d", i%3, i)
		switch i % 4 {
		case 0:
			add(p, new(int64), w.groups[0], units.Byte)
		case 1:
			add(p, func() float64 { return float64(i) / 7 }, w.groups[1], units.Second)
		case 2:
			s := "text"
			add(p, &s, nil, units.None)
		default:
			add(p, func() time.Duration { return time.Duration(i) * time.Millisecond }, w.groups[0], units.None)
		}
	}
	w.cum = tr.PowersOfTen.NewCumulativeDistribution()
	w.non = tr.NewLinearBucketer(20, 0, 50).NewNonCumulativeDistribution()
	w.tim = tr.PowersOfTwo.NewCumulativeDistribution()
	add("/w/x/tim", w.tim, nil, units.Second)
	w.list = tr.NewList([]string{"a", "b"}, true)
	add("/w/x/cum", w.cum, nil, units.None)
	add("/w/x/non", w.non, nil, units.None)
	add("/w/x/list", w.list, nil, units.None)
	must(tr.RegisterMetric("/wp/boom", func() int64 {
		if w.boom {
			panic("a callback panics")
		}
		return 1
	}, units.None, ""))
	w.dirs = []string{"/w", "/w/d0", "/w/d1", "/w/x", "/"}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(ln)
	w.addr = ln.Addr().String()
	return w
}

// path returns a path to ask for: of a metric, of a directory, or of nothing,
// most of the latter asked for once only.
func (w *c23world) path() string {
	w.next++
	switch w.r.Intn(6) {
	case 0, 1:
		return pick(w.r, w.paths)
	case 2:
		return pick(w.r, w.dirs[1:])
	case 3:
		return fmt.Sprintf("%s/none%d", pick(w.r, w.paths), w.next)
	case 4:
		return fmt.Sprintf("/none%d/of", w.next)
	default:
		return fmt.Sprintf("/w/d1/none%d", w.next)
	}
}

func (w *c23world) header() []string {
	w.next++
	var h []string
	if w.r.Intn(2) == 0 {
		h = append(h, "Accept-Encoding", "gzip")
	}
	if w.r.Intn(2) == 0 {
		h = append(h, "User-Agent", fmt.Sprintf("client/%d", w.next), "X-Forwarded-For", fmt.Sprint("10.0.0.", w.next))
	}
	return h
}

func (w *c23world) kinds() []c23kind {
	quiet := func(f func()) { Panics(f) }
	// changed, but not read while they are
	unread := tr.PowersOfTen.NewCumulativeDistribution()
	unreadNon := tr.NewLinearBucketer(20, 0, 50).NewNonCumulativeDistribution()
	unreadList := tr.NewList([]int{1}, false)
	for p, m := range map[string]interface{}{"/unread/cum": unread, "/unread/non": unreadNon, "/unread/list": unreadList} {
		if err := tr.RegisterMetric(p, m, units.None, ""); err != nil {
			w.c.Violate("refused", p, "registering %q: %v", p, err)
		}
	}
	ks := []c23kind{
		{"changes of a list nobody reads", 20000, 4, func(i int) {
			if i%2 == 0 {
				unreadList.Change([]int{i, i}, i%3 == 0)
			} else {
				unreadList.Change([]int64{int64(i)}, i%3 == 0)
			}
		}},
		{"changes of distributions nobody reads", 100000, 2, func(i int) {
			a, b := w.r.NormFloat64()*1000, w.r.Float64()*1000
			unread.Add(a)
			unreadNon.Add(a)
			if i%2 == 0 {
				unreadNon.Update(a, b)
				a = b
			}
			unreadNon.Remove(a)
		}},
		{"reads in process", 20000, 4, func(int) { tr.ReadMyMetrics(w.path()) }},
		{"RPC requests", 4000, 12, func(int) {
			p := w.path()
			if w.r.Intn(2) == 0 {
				rpcList(w.cl, p)
			} else {
				rpcGet(w.cl, p)
			}
			if w.r.Intn(50) == 0 {
				var names []string
				w.cl.Call(pick(w.r, []string{"MetricsServer.None", "MetricsServer.GetMetric"}), 5, &names)
			}
		}},
		{"JSON requests", 4000, 4, func(i int) {
			q := ""
			switch w.r.Intn(3) {
			case 0:
				q = "?singleton=true"
			case 1:
				q = fmt.Sprintf("?q=%d", w.next)
			}
			get(urlFor("/metricsapi", w.path())+q, w.header()...)
		}},
		{"HTML requests", 3000, 4, func(int) { get(urlFor("/metrics", w.path()), w.header()...) }},
		{"text requests", 6000, 4, func(i int) { get(urlFor("/metrics", w.path())+"?format=text", w.header()...) }},
		{"requests for the other pages", 8000, 4, func(i int) {
			get(pick(w.r, []string{"/has-tricorder-metrics", "/metricsstatic/theme.css", "/healthz", "/readiness", fmt.Sprintf("/metricsstatic/none%d", i)}), w.header()...)
		}},
		{"health changes", 20000, 4, func(i int) {
			switch w.r.Intn(4) {
			case 0:
				healthserver.SetHealthy()
			case 1:
				healthserver.SetReady()
			case 2:
				healthserver.SetNotReady(fmt.Sprintf("status %d", i))
			default:
				healthserver.SetNotHealthy(fmt.Sprintf("status %d", i))
			}
			if i%16 == 0 {
				get("/healthz")
				get("/readiness")
			}
		}},
		{"values added to a cumulative distribution", 200000, 2, func(i int) {
			if i%3 == 0 {
				w.tim.Add(time.Duration(w.r.Int63n(1e10)))
			} else {
				w.cum.Add(w.r.Float64() * 1e7)
			}
			if i%5000 == 0 {
				tr.ReadMyMetrics("/w/x")
			}
		}},
		{"changes of a distribution", 100000, 2, func(i int) {
			a, b := w.r.Float64()*1000, w.r.Float64()*1000
			if i%5 == 0 {
				b = a
			}
			w.non.Add(a)
			w.non.Update(a, b)
			if i%3 == 0 {
				w.non.UpdateMinMax()
			}
			if i%7 == 0 {
				w.non.Sum()
				w.non.Count()
			}
			w.non.Remove(b)
			if i%5000 == 0 {
				tr.ReadMyMetrics("/w/x")
			}
		}},
		{"changes of a list", 20000, 4, func(i int) {
			w.list.Change([]string{fmt.Sprint("element ", i), "b"}, w.r.Intn(2) == 0)
			if i%16 == 0 {
				tr.ReadMyMetrics("/w/x/list")
			}
		}},
		{"refused changes of a list", 20000, 4, func(i int) {
			quiet(func() { w.list.Change([]int{i}, i%2 == 0) })
			quiet(func() { w.cum.Add(fmt.Sprint(i)) })
		}},
		{"metrics registered and unregistered", 12000, 4, func(i int) {
			p := fmt.Sprintf("/r/e%d/n%d", i%5, i)
			var m interface{}
			switch w.r.Intn(5) {
			case 0:
				m = new(int32)
			case 1:
				m = func() string { return fmt.Sprint(i) }
			case 2:
				m = tr.NewList([]int64{int64(i)}, i%2 == 0)
			case 3:
				m = tr.PowersOfTwo.NewCumulativeDistribution()
			default:
				m = new(float64)
			}
			g := pick(w.r, []*tr.Group{nil, w.groups[0], w.groups[1]})
			if err := regVia(w.r, p, m, g, units.None, fmt.Sprint("metric ", i)); err != nil {
				w.c.Violate("refused", p, "registering %q: %v", p, err)
			}
			if i%8 == 0 {
				tr.ReadMyMetrics(p)
			}
			tr.UnregisterPath(p)
		}},
		{"directories registered and unregistered", 12000, 4, func(i int) {
			d, err := tr.RegisterDirectory(fmt.Sprintf("/q/f%d", i))
			if err != nil {
				w.c.Violate("refused", nil, "registering a directory: %v", err)
			}
			sub, err := d.RegisterDirectory("g/h")
			if err == nil {
				sub.RegisterMetric("m", new(int), units.None, "")
				sub.AbsPath()
			}
			tr.GetDirectory(fmt.Sprintf("/q/f%d/g", i))
			switch i % 3 {
			case 0:
				d.UnregisterDirectory()
			case 1:
				tr.UnregisterPath(fmt.Sprintf("/q/f%d", i))
			default:
				d.UnregisterPath("g")
				d.UnregisterDirectory()
			}
			// the handle of a directory no longer there
			sub.RegisterMetric("late", new(int), units.None, "")
		}},
		{"refused registrations", 12000, 4, func(i int) {
			tr.RegisterMetric(pick(w.r, w.paths), new(int64), units.None, fmt.Sprint(i))
			tr.RegisterMetric(pick(w.r, w.paths)+fmt.Sprint("/under", i), new(int64), units.None, "")
			tr.RegisterMetric("/w/d1", func() int64 { return int64(i) }, units.None, "")
			tr.RegisterDirectory(pick(w.r, w.paths) + fmt.Sprint("/", i))
			tr.GetDirectory(fmt.Sprint("/none", i))
			tr.UnregisterPath(fmt.Sprint("/none", i))
			quiet(func() { tr.RegisterMetric(fmt.Sprintf("/bad%d/m", i), make(chan int), units.None, "") })
			quiet(func() { tr.RegisterMetric("/w/bad", make(chan int), units.None, fmt.Sprint(i)) })
			quiet(func() { tr.NewList(i, true) })
		}},
		{"directories looked up", 12000, 4, func(i int) {
			p := pick(w.r, w.dirs)
			d, err := tr.GetDirectory(p)
			if err != nil {
				w.c.Violate("directory", p, "directory %q: %v", p, err)
			}
			d.AbsPath()
			tr.RegisterDirectory(p)
			d.RegisterDirectory("")
			d.UnregisterPath(fmt.Sprint("none", i))
		}},
		{"requests whose client is gone", 4000, 4, func(i int) {
			method := pick(w.r, []string{"GET", "GET", "HEAD", "POST"})
			target := pick(w.r, []string{"/metrics", "/metricsapi"})
			req := httptest.NewRequest(method, urlFor(target, w.path())+pick(w.r, []string{"", "?format=text", "?singleton=true"}), nil)
			if i%2 == 0 {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			quiet(func() { http.DefaultServeMux.ServeHTTP(&c23gone{left: w.r.Intn(2000)}, req) })
		}},
		{"update functions replaced", 30000, 4, func(i int) {
			t := time.Unix(int64(i), 0)
			pick(w.r, w.groups).RegisterUpdateFunc(func() time.Time { return t })
			if i%16 == 0 {
				tr.ReadMyMetrics("/w/d0")
			}
		}},
		{"requests whose callback panics", 3000, 4, func(i int) {
			w.boom = true
			defer func() { w.boom = false }()
			p := pick(w.r, []string{"/wp", "/wp/boom"})
			quiet(func() { get(urlFor(pick(w.r, []string{"/metrics", "/metricsapi"}), p), w.header()...) })
			quiet(func() { tr.ReadMyMetrics(p) })
		}},
		{"bucketers and distributions made", 4000, 4, func(i int) {
			b := pick(w.r, []*tr.Bucketer{
				tr.NewGeometricBucketer(float64(1+i), float64(10+i*100)),
				tr.NewArbitraryBucketer(float64(i), float64(i+1)),
				tr.NewExponentialBucketer(4, float64(1+i), 2),
				tr.NewLinearBucketer(4, float64(i), 2)})
			b.NewCumulativeDistribution()
			b.NewNonCumulativeDistribution()
		}},
		{"durations and messages converted", 20000, 4, func(i int) {
			d := duration.New(time.Duration(w.r.Int63()))
			s := d.StringUsingUnits(units.Millisecond)
			duration.ParseWithUnit(s, units.Millisecond)
			_ = fmt.Sprint(d)
			m := messages.Metric{Path: fmt.Sprint("/p", i), Kind: "string", Value: fmt.Sprint(i)}
			m.ConvertToJson()
			m.ConvertToGoRPC()
		}},
		{"connections", 200, 64, func(i int) { w.connection(i) }},
		{"requests at the same time", 1500, 16, func(i int) {
			var wg sync.WaitGroup
			for k := 0; k < 4; k++ {
				p := w.path()
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch k {
					case 0:
						tr.ReadMyMetrics(p)
					case 1:
						get(urlFor("/metricsapi", p))
					case 2:
						get(urlFor("/metrics", p) + "?format=text")
					default:
						q := fmt.Sprint("/rr/n", i)
						tr.RegisterMetric(q, new(int64), units.None, "")
						w.list.Change([]string{p}, true)
						tr.UnregisterPath(q)
					}
				}()
			}
			wg.Wait()
		}},
	}
	return ks
}

// c23gone is a client that takes some bytes of an answer.
type c23gone struct {
	h    http.Header
	left int
}

func (g *c23gone) Header() http.Header {
	if g.h == nil {
		g.h = http.Header{}
	}
	return g.h
}

func (g *c23gone) WriteHeader(int) {}

func (g *c23gone) Write(b []byte) (int, error) {
	if len(b) > g.left {
		n := g.left
		g.left = 0
		return n, io.ErrClosedPipe
	}
	g.left -= len(b)
	return len(b), nil
}

// connection opens a connection, uses it in some way, and lets it go.
func (w *c23world) connection(i int) {
	conn, err := net.Dial("tcp", w.addr)
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	switch i % 5 {
	case 0: // RPC, then closed by the client
		io.WriteString(conn, "CONNECT "+rpc.DefaultRPCPath+" HTTP/1.0\n\n")
		buf := make([]byte, 0, 200)
		one := make([]byte, 1)
		for !strings.HasSuffix(string(buf), "\n\n") {
			if _, err := conn.Read(one); err != nil {
				return
			}
			buf = append(buf, one[0])
		}
		cl := rpc.NewClient(conn)
		rpcList(cl, w.path())
		rpcGet(cl, w.path())
		cl.Close()
	case 1: // the answer is read
		fmt.Fprintf(conn, "GET /metricsapi/w HTTP/1.0\r\nAccept-Encoding: gzip\r\n\r\n")
		io.Copy(io.Discard, conn)
	case 2: // the answer is not read
		fmt.Fprintf(conn, "GET /metrics/w HTTP/1.1\r\nHost: x\r\n\r\nGET /metricsapi/ HTTP/1.1\r\nHost: x\r\n\r\n")
	case 3: // half a request
		fmt.Fprintf(conn, "GET /metrics/w HTTP/1.1\r\nHo")
	case 4: // a page and the connection closed after it
		fmt.Fprintf(conn, "GET /metrics/w/none%d?format=text HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", i)
		io.Copy(io.Discard, conn)
	}
}

// left is what is in use.
type c23left struct {
	heap       int64
	goroutines int
	fds        int
}

// measure waits for finished work to be cleaned away. want tells what would be
// fine; when that is not reached, the least seen within some seconds counts.
func (w *c23world) measure(ok func(c23left) bool) c23left {
	var best c23left
	for try := 0; ; try++ {
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		l := c23left{heap: int64(ms.HeapAlloc), goroutines: runtime.NumGoroutine()}
		if es, err := os.ReadDir("/proc/self/fd"); err == nil {
			l.fds = len(es)
		}
		if try == 0 {
			best = l
		}
		best.heap = min(best.heap, l.heap)
		best.goroutines = min(best.goroutines, l.goroutines)
		best.fds = min(best.fds, l.fds)
		if ok == nil && try == 3 || ok != nil && ok(best) || try == 60 {
			return best
		}
		time.Sleep(time.Duration(1+try) * 3 * time.Millisecond)
	}
}

// slope runs operations in batches. What is left has to grow over each of
// several batches, each larger than the one before, to be a violation.
func (w *c23world) slope(k c23kind) {
	run := func(n int) {
		for i := 0; i < n; i++ {
			k.f(w.next)
			w.next++
		}
	}
	run(k.n / 2)
	before := w.measure(nil)
	n := k.n
	var grown []string
	for stage := 0; stage < 4; stage++ {
		run(n)
		limHeap := before.heap + int64(k.per*float64(n)) + 8<<10
		limG := before.goroutines + 6 + n/1000
		limF := before.fds + 6 + n/1000
		fine := func(l c23left) bool {
			return l.heap <= limHeap && l.goroutines <= limG && l.fds <= limF
		}
		after := w.measure(fine)
		w.c.Count("operations", int64(n))
		if fine(after) {
			w.c.Case(k.name)
			w.c.Sample(map[string]interface{}{"operations": k.name, "number": n, "heap": after.heap - before.heap, "goroutines": after.goroutines - before.goroutines, "descriptors": after.fds - before.fds})
			w.c.Count("kinds of operations measured", 1)
			return
		}
		grown = append(grown, fmt.Sprintf("%d operations: heap %+d bytes, goroutines %+d, descriptors %+d", n, after.heap-before.heap, after.goroutines-before.goroutines, after.fds-before.fds))
		before = after
		n *= 2
	}
	w.c.Violate("left/"+k.name, grown, "%s leave more behind the more there are: %s", k.name, strings.Join(grown, "; then "))
}

// c23big makes a value large enough that its being kept matters, and that it
// does not share its memory with others.
type c23big struct {
	i   int64
	f   float64
	s   string
	d   time.Duration
	pad [8 << 10]byte
}

// release registers objects, reads them, lets them go and sees whether they
// are.
//
//go:noinline
func (w *c23world) release(round, i int) {
	r := w.c.Sub("release", round, i)
	const n = 64
	alive := func(ws []func() bool) int {
		k := 0
		for _, f := range ws {
			if f() {
				k++
			}
		}
		return k
	}
	how := i % len(c23ways)
	what := i / len(c23ways) % len(c23objects)
	var ws []func() bool
	name := fmt.Sprintf("/rel%d", i)
	for k := 0; k < n; k++ {
		ws = append(ws, w.object(r, what, how, name, k))
	}
	label := fmt.Sprintf("%s, %s", c23objects[what], c23ways[how])
	if how == 1 || how == 2 { // the directory as a whole
		if how == 1 {
			tr.UnregisterPath(name)
		} else if d, err := tr.GetDirectory(name); err == nil {
			d.UnregisterDirectory()
		}
	}
	// One or the other may be kept as the last value; each of them may not.
	const few = 8
	left := 0
	for try := 0; try < 40; try++ {
		runtime.GC()
		left = alive(ws)
		if left <= few {
			break
		}
		time.Sleep(time.Duration(1+try) * 5 * time.Millisecond)
	}
	if left > few {
		w.c.Violate("kept", label, "%d of %d objects (%s) are kept for ever", left, n, label)
	}
	tr.UnregisterPath(name)
	for range ws {
		w.c.Case(label)
	}
	w.c.Count("objects watched", n)
}

var c23objects = []string{"pointers to integers", "pointers to strings", "callbacks", "callbacks of durations", "lists", "cumulative distributions", "distributions", "slices of lists replaced", "update functions replaced", "directories"}
var c23ways = []string{"each unregistered", "unregistered with their directory", "unregistered with the handle of their directory", "each unregistered through a handle", "refused", "read while unregistered"}

//go:noinline
func (w *c23world) object(r randT, what, how int, dir string, k int) (alive func() bool) {
	b := &c23big{i: int64(k), s: strings.Repeat("x", 10), f: 1, d: 5}
	wb := weak.Make(b)
	alive = func() bool { return wb.Value() != nil }
	var m interface{}
	switch what {
	case 0:
		m = &b.i
	case 1:
		m = &b.s
	case 2:
		m = func() float64 { return b.f }
	case 3:
		m = func() time.Duration { return b.d }
	case 4, 7:
		sl := make([]int64, 1000)
		sl[0] = int64(k)
		wsl := weak.Make(&sl[0])
		l := tr.NewList(sl, r.Intn(2) == 0)
		wl := weak.Make(l)
		m = l
		alive = func() bool { return wl.Value() != nil || wsl.Value() != nil }
	case 5:
		d := tr.PowersOfTen.NewCumulativeDistribution()
		wd := weak.Make(d)
		m = d
		alive = func() bool { return wd.Value() != nil }
	case 6:
		d := tr.PowersOfTen.NewNonCumulativeDistribution()
		wd := weak.Make(d)
		m = d
		alive = func() bool { return wd.Value() != nil }
	case 8:
		pick(r, w.groups).RegisterUpdateFunc(func() time.Time { return time.Unix(b.i, 0) })
		if r.Intn(2) == 0 {
			tr.ReadMyMetrics("/w/d0")
		}
		return alive
	}
	g := pick(r, []*tr.Group{nil, w.groups[0], w.groups[1]})
	name := fmt.Sprintf("m%d", k)
	p := dir + "/" + name
	if how == 4 {
		p = w.paths[0]
		if r.Intn(2) == 0 {
			p += "/x"
		}
		if what == 9 {
			m = &b.i
		}
		if regVia(r, p, m, g, units.None, "refused") == nil {
			w.c.Violate("accepted", p, "registering %q was not refused", p)
		}
		return alive
	}
	if what == 9 {
		d, err := tr.RegisterDirectory(p)
		if err == nil {
			err = regVia(r, p+"/sub/m", &b.i, g, units.None, "to be let go")
		}
		if err != nil {
			w.c.Violate("refused", p, "registering %q: %v", p, err)
		}
		wd := weak.Make(d)
		alive = func() bool { return wb.Value() != nil || wd.Value() != nil }
		if how == 0 && r.Intn(2) == 0 {
			d.UnregisterDirectory()
		}
	} else if err := regVia(r, p, m, g, units.None, "to be let go"); err != nil {
		w.c.Violate("refused", p, "registering %q: %v", p, err)
	}
	w.read(r, p)
	if d, ok := m.(*tr.CumulativeDistribution); ok {
		d.Add(5.0)
		w.read(r, p)
	}
	if l, ok := m.(*tr.List); ok && what == 7 {
		// the slices are replaced in the one list of the world
		for _, mutable := range []bool{true, false} {
			sl := make([]string, 500)
			sl[0] = p
			wsl := weak.Make(&sl[0])
			w.list.Change(sl, mutable)
			w.read(r, "/w/x/list")
			if !mutable {
				alive = func() bool { return wsl.Value() != nil }
			}
		}
		w.list.Change([]string{"a"}, true)
		l.Change([]int64{1}, false)
	}
	switch how {
	case 0:
		tr.UnregisterPath(p)
	case 3:
		d, err := tr.GetDirectory(dir)
		if err != nil {
			w.c.Violate("directory", p, "directory of %q: %v", p, err)
		}
		d.UnregisterPath(name)
	case 5:
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			tr.ReadMyMetrics(dir)
			get(urlFor("/metrics", dir))
		}()
		tr.UnregisterPath(p)
		wg.Wait()
	}
	return alive
}

func (w *c23world) read(r randT, p string) {
	switch r.Intn(7) {
	case 0:
		tr.ReadMyMetrics(p)
	case 1:
		rpcList(w.cl, p)
	case 2:
		rpcGet(w.cl, p)
	case 3:
		get(urlFor("/metricsapi", p))
	case 4:
		get(urlFor("/metrics", p))
	case 5:
		get(urlFor("/metrics", p) + "?format=text")
	}
}
