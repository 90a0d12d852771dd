package main

import (
	"bufio"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/rpc"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C20"] = c20 }

// gate stalls whoever passes while it is closed.
type gate struct {
	mu      sync.Mutex
	ch      chan struct{} // nil when open
	arrived chan struct{}
}

func (g *gate) shut() {
	g.mu.Lock()
	g.ch = make(chan struct{})
	g.arrived = make(chan struct{}, 1024)
	g.mu.Unlock()
}

func (g *gate) open() {
	g.mu.Lock()
	if g.ch != nil {
		close(g.ch)
		g.ch = nil
	}
	g.mu.Unlock()
}

func (g *gate) pass() {
	g.mu.Lock()
	ch, arr := g.ch, g.arrived
	g.mu.Unlock()
	if ch == nil {
		return
	}
	select {
	case arr <- struct{}{}:
	default:
	}
	<-ch
}

type c20world struct {
	c      *Ctx
	r      randT
	groups []*tr.Group
	gates  []*gate // of the update functions
	cb     *gate
	vals   []int64
	cum    *tr.CumulativeDistribution
	non    *tr.NonCumulativeDistribution
	list   *tr.List
	cl     *rpc.Client
	nreg   int
	inFn   func() // run inside the update function of group 0
}

func newC20world(c *Ctx, groups []*tr.Group) *c20world {
	w := &c20world{c: c, groups: groups, cb: &gate{}, vals: make([]int64, len(groups))}
	for i, g := range groups {
		i := i
		gt := &gate{}
		w.gates = append(w.gates, gt)
		g.RegisterUpdateFunc(func() time.Time {
			gt.pass()
			if i == 0 && w.inFn != nil {
				w.inFn()
			}
			w.vals[i]++
			return time.Now()
		})
	}
	w.cum = tr.PowersOfTen.NewCumulativeDistribution()
	w.non = tr.PowersOfTen.NewNonCumulativeDistribution()
	w.list = tr.NewList([]int64{1}, true)
	return w
}

func (w *c20world) populate(r randT) {
	w.r = r
	reg := func(p string, spec interface{}, g *tr.Group) {
		var err error
		err = regVia(r, p, spec, g, units.None, "")
		if err != nil {
			w.c.Violate("refused", p, "%v", err)
		}
	}
	reg("/t/a/v", &w.vals[0], w.groups[0])
	reg("/t/a/w", &w.vals[0], w.groups[0])
	reg("/t/a/zcb", func() int64 { w.cb.pass(); return 7 }, w.groups[0])
	for i := 1; i < len(w.groups); i++ {
		reg(fmt.Sprintf("/t/b%d/v", i), &w.vals[i], w.groups[i])
	}
	k := int64(5)
	reg("/t/c/v", &k, nil)
	reg("/t/d/cum", w.cum, nil)
	reg("/t/d/non", w.non, nil)
	reg("/t/d/list", w.list, nil)
}

// request reads path over the interface; an error of the interface is a violation.
func (w *c20world) request(iface, path string) []reading {
	cl := w.cl
	if strings.HasPrefix(iface, "rpc") {
		cl = newRPC()
		defer cl.Close()
	}
	res, err := readInts(iface, path, cl)
	if err != nil {
		w.c.Violate("request", path, "%s of %q: %v", iface, path, err)
	}
	return res
}

type c20op struct {
	name string
	f    func()
}

// ops is work that needs nothing of the stalled group.
func (w *c20world) ops(r randT) []c20op {
	var ops []c20op
	add := func(name string, f func()) { ops = append(ops, c20op{name, f}) }
	for i := 1; i < len(w.groups); i++ {
		i := i
		for _, iface := range listIfaces {
			p := fmt.Sprintf("/t/b%d", i)
			add(iface+" of another group", func() {
				if n := len(w.request(iface, p)); n != 1 {
					w.c.Violate("values", p, "%s of %q shows %d metrics", iface, p, n)
				}
			})
		}
		for _, iface := range getIfaces {
			add(iface+" of another group", func() { w.request(iface, fmt.Sprintf("/t/b%d/v", i)) })
		}
		add("RegisterUpdateFunc of another group", func() {
			w.groups[i].RegisterUpdateFunc(func() time.Time { w.gates[i].pass(); w.vals[i]++; return time.Now() })
		})
	}
	for _, iface := range []string{"rpc", "json", "text", "html", "read", "jsongz"} {
		add(iface+" of the default group", func() { w.request(iface, "/t/c") })
		add(iface+" of distributions and lists", func() { w.request(iface, "/t/d") })
		add(iface+" of built-in metrics", func() { w.request(iface, "/proc/memory") })
		add(iface+" of a missing path", func() {
			if iface != "text" {
				w.request(iface, "/t/nope")
			}
		})
	}
	add("html of a directory above", func() { htmlPage("/") })
	add("Cumulative.Add", func() { w.cum.Add(1.5) })
	add("NonCumulative changes", func() { w.non.Add(2.0); w.non.Update(2.0, 3.0); w.non.Remove(3.0); w.non.Sum(); w.non.Count() })
	add("List.Change", func() { w.list.Change([]int64{3, 4}, r.Intn(2) == 0) })
	add("NewList and NewDistribution", func() {
		tr.NewList([]string{"a"}, true)
		tr.NewArbitraryBucketer(1, 2).NewCumulativeDistribution()
	})
	name := func(dir string) string { w.nreg++; return fmt.Sprintf("%s/n%d", dir, w.nreg) }
	v := new(int64)
	add("registering in the stalled group", func() {
		p := name("/t/a")
		if err := w.groups[0].RegisterMetric(p, v, units.None, ""); err != nil {
			w.c.Violate("register", p, "%v", err)
		}
		tr.UnregisterPath(p)
	})
	add("registering a callback in the stalled group", func() {
		p := name("/t/new/dir")
		if err := tr.RegisterMetricInGroup(p, func() int64 { return 1 }, w.groups[0], units.None, ""); err != nil {
			w.c.Violate("register", p, "%v", err)
		}
		tr.UnregisterPath("/t/new")
	})
	add("registering in the same directory", func() {
		p := name("/t/a")
		if err := tr.RegisterMetric(p, v, units.None, ""); err != nil {
			w.c.Violate("register", p, "%v", err)
		}
		tr.UnregisterPath(p)
	})
	add("directories", func() {
		d, err := tr.RegisterDirectory(name("/t/dirs"))
		if err != nil {
			w.c.Violate("register", nil, "%v", err)
			return
		}
		d.RegisterMetric("m", v, units.None, "")
		d.UnregisterPath("m")
		d.UnregisterDirectory()
		if _, err := tr.GetDirectory("/t/a"); err != nil {
			w.c.Violate("register", nil, "GetDirectory of /t/a: %v", err)
		}
	})
	add("unregistering a metric of the stalled group", func() {
		tr.UnregisterPath("/t/a/w")
		if err := w.groups[0].RegisterMetric("/t/a/w", &w.vals[0], units.None, ""); err != nil {
			w.c.Violate("register", nil, "%v", err)
		}
	})
	add("a distribution registered under two names", func() {
		tr.RegisterMetric("/t/e/cum2", w.cum, units.None, "")
		tr.UnregisterPath("/t/e")
	})
	add("health", func() {
		healthserver.SetNotHealthy("x")
		get("/healthz")
		healthserver.SetHealthy()
		get("/readiness")
	})
	add("static pages", func() { get("/metricsstatic/theme.css"); get("/has-tricorder-metrics") })
	return ops
}

func c20(c *Ctx) {
	c.rule = "a case is one piece of work completed while an update function, a callback or a client was stalled, or one kind of request checked for goroutines left behind; distinct by what is stalled and what completed"
	log.SetOutput(io.Discard)
	var groups []*tr.Group
	for i := 0; i < 4; i++ {
		groups = append(groups, tr.NewGroup())
	}
	defer c.long()()
	n := c.N(900, 12000)
	if c.Race() {
		n = c.N(240, 3000)
	}
	for i := 0; i < n; i++ {
		c20Stall(c, groups, i)
	}
	for i := 0; i < c.N(12, 100); i++ {
		c20Crowd(c, groups, i)
	}
	c20NewGroups(c)
	c20Leaks(c, groups)
}

func c20Stall(c *Ctx, groups []*tr.Group, i int) {
	r := c.Sub("stall", i)
	w := newC20world(c, groups)
	w.populate(r)
	defer clearRoot("t")
	what := []string{"update function", "callback", "client", "inside the update function", "inside a callback", "rpc client", "server client"}[i%7]
	iface := pick(r, listIfaces)
	path := pick(r, []string{"/t/a", "/t", "/t/a/"})
	if iface == "html" {
		path = "/t/a" // pages show one directory
	}
	ops := w.ops(r)
	r.Shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
	if c.Race() {
		ops = ops[:12]
	}
	stalledDone := make(chan struct{})
	release := func() {}
	switch what {
	case "inside the update function", "inside a callback":
		// the same work done by the update function or callback itself
		work := func() {
			for _, op := range ops[:len(ops)/2] {
				op.f()
				c.Case(what + op.name)
			}
		}
		if what == "inside a callback" {
			done := false
			w.groups[1].RegisterMetric("/t/a/reentrant", func() int64 {
				if !done {
					done = true
					work()
				}
				return 1
			}, units.None, "")
		} else {
			done := false
			w.inFn = func() {
				if !done {
					done = true
					work()
				}
			}
		}
		c20Complete(c, "reentrant", "work done "+what+" during "+iface+" of "+path, func() { w.request(iface, path) })
		if r.Intn(2) == 0 {
			c20Complete(c, "after", "a later request", func() { w.request("read", "/t") })
		}
		return
	case "update function":
		w.gates[0].shut()
		release = w.gates[0].open
		go func() {
			defer close(stalledDone)
			defer c.Guard("panic", nil)
			w.request(iface, path)
		}()
		if !awaitArrival(c, w.gates[0], iface+" of "+path, stalledDone) {
			return
		}
	case "callback":
		w.cb.shut()
		release = w.cb.open
		go func() {
			defer close(stalledDone)
			defer c.Guard("panic", nil)
			w.request(iface, path)
		}()
		if !awaitArrival(c, w.cb, iface+" of "+path, stalledDone) {
			return
		}
		for _, p := range []string{"/t/a/v", "/t/a/w"} {
			for _, ifc := range getIfaces {
				ops = append(ops, c20op{ifc + " of the same group", func() { w.request(ifc, p) }})
			}
		}
	case "client", "server client":
		// a client that stops reading its response
		target := pick(r, []string{"/metrics/t?format=text", "/metrics/t/a", "/metricsapi/t", "/metrics/t/a?format=text",
			"/metrics/t/d?format=text", "/metrics/t/d/list?format=text", "/metrics/t/d/cum?format=text", "/metrics/t/d/non?format=text", "/metrics/t/d", "/metrics/t/d/list", "/metrics/t/d/non", "/metricsapi/t/d", "/metricsapi/t/d/list?singleton=true", "/metrics/t/c/v?format=text", "/metrics/t/a/zcb",
			"/healthz", "/readiness", "/metricsstatic/theme.css", "/has-tricorder-metrics"})
		if r.Intn(2) == 0 {
			w.list.Change([]int64{5, 6, 7, 8, 9, 10, 11}, true)
		}
		if what == "client" {
			g := &gate{}
			g.shut()
			release = g.open
			go func() {
				defer close(stalledDone)
				defer c.Guard("panic", nil)
				req, _ := http.NewRequest("GET", target, nil)
				http.DefaultServeMux.ServeHTTP(&stallWriter{http.Header{}, r.Intn(pick(r, []int{4, 20, 400})), g}, req)
			}()
			if !awaitArrival(c, g, target, stalledDone) {
				return
			}
		} else {
			// a response larger than what is buffered on the way
			big := strings.Repeat("x", 20000)
			w.groups[0].RegisterMetric("/t/a/big", &big, units.None, "")
			if r.Intn(2) == 0 {
				w.list.Change(make([]int64, 8000), true)
			}
			a, b := net.Pipe()
			handled := make(chan struct{})
			srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				defer close(handled)
				http.DefaultServeMux.ServeHTTP(w, r)
			}), ErrorLog: log.New(io.Discard, "", 0)}
			ln := newOneConn(a)
			go srv.Serve(ln)
			fmt.Fprintf(b, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", target)
			br := bufio.NewReaderSize(b, 16)
			br.ReadByte() // the response has begun
			cut := r.Intn(2) == 0
			release = func() {
				go func() {
					defer close(stalledDone)
					if !cut {
						resp, err := http.ReadResponse(bufio.NewReader(io.MultiReader(strings.NewReader("H"), br)), nil)
						if err == nil {
							io.Copy(io.Discard, resp.Body)
						}
					}
					b.Close()
					srv.Close()
					<-handled
				}()
			}
		}
		for _, p := range []string{"/t/a/v", "/t/a/zcb"} {
			for _, ifc := range getIfaces {
				ops = append(ops, c20op{ifc + " of the same group", func() { w.request(ifc, p) }})
			}
		}
		for _, ifc := range listIfaces {
			ops = append(ops, c20op{ifc + " of everything", func() { w.request(ifc, "/t") }})
		}
	case "rpc client":
		a, b := net.Pipe()
		g := &gate{}
		g.shut()
		go rpc.DefaultServer.ServeConn(a)
		cl := rpc.NewClient(&stallConn{Conn: b, g: g})
		go func() {
			defer close(stalledDone)
			rpcList(cl, "/t")
			cl.Close()
		}()
		release = g.open
		if !awaitArrival(c, g, "RPC", stalledDone) {
			return
		}
		for _, ifc := range listIfaces {
			ops = append(ops, c20op{ifc + " of everything", func() { w.request(ifc, "/t") }})
		}
	}
	// others that need what is stalled wait for it
	var waiters sync.WaitGroup
	if what == "update function" || what == "callback" {
		for k := r.Intn(4); k > 0; k-- {
			ifc := pick(r, listIfaces)
			waiters.Add(1)
			go func() {
				defer waiters.Done()
				defer c.Guard("panic", nil)
				w.request(ifc, "/t/a")
			}()
			c.Count("waiting_requests", 1)
		}
		runtime.Gosched()
	}
	for _, op := range ops {
		c20Complete(c, "stalled", op.name+" while a "+what+" is stalled ("+iface+" of "+path+")", op.f)
		c.Case(what + op.name)
	}
	release()
	c20Complete(c, "not-released", "what waited for the "+what+" ("+iface+" of "+path+")", func() {
		<-stalledDone
		waiters.Wait()
	})
	c20Complete(c, "after", "a request after the "+what+" was released", func() {
		v0 := w.vals[0]
		for k, ifc := range []string{"read", pick(r, listIfaces)} {
			for _, x := range w.request(ifc, "/t/a") {
				if (x.path == "/t/a/v" || x.path == "/t/a/w") && x.val != v0+int64(k)+1 {
					c.Violate("stale-after", x, "after the %s was released %s of %q shows %d, want %d", what, ifc, x.path, x.val, v0+int64(k)+1)
				}
			}
		}
	})
	c.Count("stalls_"+strings.ReplaceAll(what, " ", "_"), 1)
	if c.WantSample() {
		c.Sample(map[string]interface{}{"stalled": what, "request": iface + " of " + path, "completed": len(ops)})
	}
}

// c20Crowd stalls hundreds of requests at a time.
func c20Crowd(c *Ctx, groups []*tr.Group, i int) {
	r := c.Sub("crowd", i)
	w := newC20world(c, groups)
	w.populate(r)
	defer clearRoot("t")
	n := 150 + r.Intn(400)
	if c.Race() {
		n = 150
	}
	what := []string{"callback", "client", "update function", "health client"}[i%4]
	if what == "health client" {
		healthserver.SetNotHealthy("some error")
		defer healthserver.SetHealthy()
	}
	only := pick(r, append([]string{"", "", ""}, listIfaces...))
	g := w.cb
	switch what {
	case "update function":
		g = w.gates[0]
	case "client", "health client":
		g = &gate{}
	}
	g.shut()
	var wg sync.WaitGroup
	arr := make(chan struct{}, 2048)
	g.mu.Lock()
	g.arrived = arr
	g.mu.Unlock()
	for k := 0; k < n; k++ {
		ifc := only
		if ifc == "" {
			ifc = pick(r, listIfaces)
		}
		target := pick(r, []string{"/metrics/t?format=text", "/metrics/t/a", "/metricsapi/t", "/metrics/t/d?format=text", "/metricsapi/t/d"})
		switch only {
		case "text":
			target = "/metrics/t?format=text"
		case "html":
			target = "/metrics/t/a"
		case "json":
			target = "/metricsapi/t"
		}
		if what == "health client" {
			target = pick(r, []string{"/healthz", "/readiness"})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.Guard("panic", nil)
			if g != w.cb && g != w.gates[0] {
				req, _ := http.NewRequest("GET", target, nil)
				sw := &stallWriter{http.Header{}, 1, g}
				http.DefaultServeMux.ServeHTTP(sw, req)
				if sw.left < 1<<20 {
					arr <- struct{}{} // ended without having written
				}
				return
			}
			w.request(ifc, "/t/a")
		}()
	}
	await := n
	if what == "update function" {
		await = 1
	}
	c20Complete(c, "not-reached", fmt.Sprintf("reaching the %s by %d requests", what, n), func() {
		for k := 0; k < await; k++ {
			<-arr
		}
	})
	ops := w.ops(r)
	r.Shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
	for _, op := range ops {
		c20Complete(c, "stalled", fmt.Sprintf("%s while %d requests are stalled in a %s", op.name, n, what), op.f)
		c.Case("crowd" + what + op.name)
	}
	g.open()
	c20Complete(c, "not-released", fmt.Sprintf("%d requests that waited for the %s", n, what), wg.Wait)
	c20Complete(c, "after", "a request after the "+what+" was released", func() { w.request("read", "/t") })
	c.Count("crowded_requests", int64(n))
}

// c20Complete runs f, which must complete although something is stalled on
// purpose. The verdict that it does not needs its goroutine to be blocked.
func c20Complete(c *Ctx, sig, what string, f func()) {
	done := make(chan struct{})
	started := make(chan string, 1)
	go func() {
		defer close(done)
		defer c.Guard(sig+"-panic", what)
		started <- goid()
		f()
	}()
	me := <-started
	for i := 0; i < 12; i++ {
		t := time.NewTimer(stuckAfter)
		select {
		case <-done:
			t.Stop()
			return
		case <-t.C:
		}
		a := blockedBy(me)
		time.Sleep(2 * time.Second)
		b := blockedBy(me)
		select {
		case <-done:
			return
		default:
		}
		if i > 0 && a != "" && b != "" {
			c.Violate(sig, b, "%s does not complete: a goroutine is blocked\n%s", what, b)
		}
	}
	panic(fmt.Sprintf("%s did not complete and nothing is seen to block it", what))
}

func goid() string {
	buf := make([]byte, 64)
	s := string(buf[:runtime.Stack(buf, false)])
	return strings.Fields(s)[1]
}

// blockedBy returns the stack of the goroutine if it is blocked, in tricorder or
// waiting for a response that tricorder has to give.
func blockedBy(id string) string {
	for _, g := range stacks() {
		m := stateRE.FindStringSubmatch(g)
		if m == nil || m[1] != id {
			continue
		}
		if strings.HasPrefix(m[2], "run") || strings.HasPrefix(m[2], "syscall") || strings.HasPrefix(m[2], "sleep") {
			return ""
		}
		return g
	}
	return ""
}

// awaitArrival waits until the gate has stalled the request. It is not C20's
// business if the request ends without passing it.
func awaitArrival(c *Ctx, g *gate, what string, done chan struct{}) bool {
	ok := false
	c20Complete(c, "not-reached", "reaching the gate during "+what, func() {
		select {
		case <-g.arrived:
			ok = true
		case <-done:
		}
	})
	if !ok {
		c.Count("not_stalled", 1)
		g.open()
	}
	return ok
}

// stallWriter is a response writer that stalls after some writes.
type stallWriter struct {
	h    http.Header
	left int
	g    *gate
}

func (s *stallWriter) Header() http.Header { return s.h }
func (s *stallWriter) WriteHeader(int)     {}
func (s *stallWriter) Write(b []byte) (int, error) {
	if s.left <= len(b) {
		s.g.pass()
		s.left = 1 << 30
	}
	s.left -= len(b)
	return len(b), nil
}

// stallConn is a client's connection whose responses are not read for a while.
type stallConn struct {
	net.Conn
	g *gate
}

func (s *stallConn) Read(b []byte) (int, error) {
	s.g.pass()
	return s.Conn.Read(b)
}

// oneConn is a listener with a single connection.
type oneConn struct {
	c    net.Conn
	done chan struct{}
	once sync.Once
	got  bool
}

func newOneConn(c net.Conn) *oneConn { return &oneConn{c: c, done: make(chan struct{})} }
func (l *oneConn) Accept() (net.Conn, error) {
	if !l.got {
		l.got = true
		return l.c, nil
	}
	<-l.done
	return nil, io.EOF
}
func (l *oneConn) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *oneConn) Addr() net.Addr { return l.c.LocalAddr() }

// c20NewGroups makes groups, distributions and lists while one is stalled.
func c20NewGroups(c *Ctx) {
	w := newC20world(c, []*tr.Group{tr.NewGroup(), tr.NewGroup()})
	w.populate(c.Rng)
	defer clearRoot("t")
	w.gates[0].shut()
	done := make(chan struct{})
	go func() {
		defer close(done)
		w.request("read", "/t/a")
	}()
	if !awaitArrival(c, w.gates[0], "read of /t/a", done) {
		return
	}
	for i := 0; i < 10; i++ {
		c20Complete(c, "stalled", "making a group while an update function is stalled", func() {
			g := tr.NewGroup()
			x := int64(i)
			p := fmt.Sprintf("/t/g%d/v", i)
			if err := g.RegisterMetric(p, &x, units.None, ""); err != nil {
				c.Violate("register", nil, "%v", err)
			}
			g.RegisterUpdateFunc(func() time.Time { x += 10; return time.Now() })
			if got := w.request("read", p); len(got) != 1 || got[0].val != int64(i)+10 {
				c.Violate("values", got, "a new group's metric reads %v", got)
			}
		})
		c.Case(fmt.Sprint("newgroup", i))
	}
	w.gates[0].open()
	c20Complete(c, "not-released", "the stalled request", func() { <-done })
}

// tricorderGoroutines counts goroutines that tricorder takes part in.
func tricorderGoroutines() (n int, sample string) {
	for _, g := range stacks() {
		if strings.Contains(g, "Symantec/tricorder") {
			n++
			sample = g
		}
	}
	return
}

// c20Leaks looks for goroutines requests leave behind.
func c20Leaks(c *Ctx, groups []*tr.Group) {
	w := newC20world(c, groups)
	w.populate(c.Rng)
	defer clearRoot("t")
	boom := false
	tr.RegisterMetric("/t/boom", func() int64 {
		if boom {
			panic("boom")
		}
		return 1
	}, units.None, "")
	const times = 40
	type kind struct {
		name string
		f    func(k int)
	}
	var ks []kind
	for _, iface := range listIfaces {
		ks = append(ks, kind{iface, func(int) { w.request(iface, "/t") }})
		if iface != "text" {
			ks = append(ks, kind{iface + " of a missing path", func(int) { w.request(iface, "/t/nope") }})
		}
		if iface != "rpc" {
			ks = append(ks, kind{iface + " with a panicking callback", func(int) {
				boom = true
				Panics(func() { readInts(iface, "/t", nil) })
				boom = false
			}})
		}
	}
	for _, iface := range getIfaces {
		ks = append(ks, kind{iface, func(int) { w.request(iface, "/t/a/v") }})
	}
	for _, t := range []string{"/metrics/t", "/metrics/t?format=text", "/metricsapi/t", "/metricsapi/t/a/v?singleton=1"} {
		for _, gz := range []string{"", "gzip"} {
			ks = append(ks, kind{"failing connection to " + t + " " + gz, func(k int) {
				req, _ := http.NewRequest("GET", t, nil)
				req.Header.Set("Accept-Encoding", gz)
				Panics(func() {
					http.DefaultServeMux.ServeHTTP(&faultWriter{h: http.Header{}, left: k * 7, mode: k % 3}, req)
				})
			}})
		}
	}
	ks = append(ks, kind{"rpc client that goes away", func(k int) {
		a, b := net.Pipe()
		go rpc.DefaultServer.ServeConn(&cutConn{a, k * 9})
		cl := rpc.NewClient(b)
		rpcList(cl, "/t")
		cl.Close()
	}}, kind{"changes", func(k int) {
		w.cum.Add(1.0)
		w.non.Add(1.0)
		w.non.Update(1.0, 2.0)
		w.non.Remove(2.0)
		w.list.Change([]int64{1}, true)
		x := 1
		tr.RegisterMetric("/t/tmp/x", &x, units.None, "")
		tr.UnregisterPath("/t/tmp")
		w.groups[1].RegisterUpdateFunc(func() time.Time { return time.Now() })
		healthserver.SetHealthy()
		get("/healthz")
	}})
	for _, k := range ks {
		c20Complete(c, "leak-hang", k.name, func() {
			k.f(1)
			time.Sleep(time.Millisecond)
		})
		n0, _ := tricorderGoroutines()
		for j := 0; j < times; j++ {
			c20Complete(c, "leak-hang", k.name, func() { k.f(j) })
		}
		var n1 int
		var s string
		for t := 0; t < 200; t++ {
			n1, s = tricorderGoroutines()
			if n1-n0 < times/2 {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		if n1-n0 >= times/2 {
			c.Violate("leak", s, "%d requests (%s) left %d goroutines behind, such as\n%s", times, k.name, n1-n0, s)
		}
		c.Case("leak" + k.name)
		c.Count("leak_checks", 1)
	}
}
