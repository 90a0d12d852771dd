package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"reflect"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C04"] = c04 }

// c04world is a set of groups and metrics whose reads can be made to fail.
type c04world struct {
	c       *Ctx
	ng      int
	groups  []*tr.Group
	version []int64
	vars    []*int64
	paths   []string
	grp     []int
	armed   int // metric whose callback panics, -1: none
	after   int // panics at the after-th call from now on
	calls   int
	pval    interface{}
	cl      *rpc.Client
}

func newC04world(c *Ctx, r randT) *c04world {
	w := &c04world{c: c, ng: 2 + r.Intn(2), armed: -1, cl: newRPC()}
	gv := make([][]*int64, w.ng)
	for g := 0; g < w.ng; g++ {
		g := g
		w.version = append(w.version, 0)
		w.groups = append(w.groups, tr.NewGroup())
		w.groups[g].RegisterUpdateFunc(func() time.Time {
			w.version[g]++
			for _, p := range gv[g] {
				*p = w.version[g]
			}
			return stamp(g, w.version[g])
		})
	}
	for k := 0; k < 5; k++ {
		k := k
		g := r.Intn(w.ng)
		p := new(int64)
		gv[g] = append(gv[g], p)
		var spec interface{} = func() int64 {
			if w.armed == k {
				panic(w.pval)
			}
			return *p
		}
		path := fmt.Sprintf("/t/%s%d", pick(r, []string{"", "", "a/"}), k)
		if err := regVia(r, path, spec, w.groups[g], units.None, "some description"); err != nil {
			c.Violate("refused", path, "%v", err)
		}
		w.vars, w.paths, w.grp = append(w.vars, p), append(w.paths, path), append(w.grp, g)
	}
	// plain variables, a list and a distribution among them
	x := int64(7)
	tr.RegisterMetric("/t/b/plain", &x, units.None, "")
	tr.RegisterMetric("/t/1list", tr.NewList([]string{"some", "elements"}, tr.ImmutableSlice), units.None, "")
	d := tr.PowersOfTwo.NewCumulativeDistribution()
	tr.RegisterMetric("/t/2dist", d, units.None, "")
	d.Add(3.0)
	return w
}

func (w *c04world) close() {
	w.cl.Close()
	clearRoot("t")
}

// checkAll makes one request on each interface and demands fresh, correct
// values for every metric.
func (w *c04world) checkAll(after string) {
	for _, iface := range []string{"read", "rpc", "json", "jsongz", "text", "html"} {
		before := append([]int64(nil), w.version...)
		var got []reading
		var err error
		within(w.c, "hang", fmt.Sprintf("%s request after %s", iface, after), func() { got, err = readInts(iface, "/t", w.cl) })
		if err != nil {
			w.c.Violate("unusable", after, "%s request after %s: %v", iface, after, err)
		}
		have := map[string]int64{}
		for _, x := range got {
			have[x.path] = x.val
		}
		touched := make([]bool, w.ng)
		for k, p := range w.paths {
			if iface == "html" && strings.Contains(p[3:], "/") {
				continue
			}
			g := w.grp[k]
			touched[g] = true
			v, ok := have[p]
			if !ok {
				w.c.Violate("missing", after, "%s request after %s does not report %q", iface, after, p)
			}
			if v != before[g]+1 {
				w.c.Violate("stale", after, "%s request after %s: %q shows update %d of its group, a fresh one would be %d", iface, after, p, v, before[g]+1)
			}
		}
		for g := range touched {
			want := before[g]
			if touched[g] {
				want++
			}
			if w.version[g] != want {
				w.c.Violate("updates", after, "%s request after %s made %d updates of group %d, want %d", iface, after, w.version[g]-before[g], g, want-before[g])
			}
		}
		w.c.Count("requests_after_faults", 1)
	}
}

// faultWriter fails after n bytes.
type faultWriter struct {
	h     http.Header
	left  int
	short bool
	hit   bool
	wrote int
	mode  int
}

var errConn = errors.New("connection reset by peer")

func (f *faultWriter) Header() http.Header { return f.h }
func (f *faultWriter) WriteHeader(int)     {}
func (f *faultWriter) Write(b []byte) (int, error) {
	if len(b) <= f.left {
		f.left -= len(b)
		f.wrote += len(b)
		return len(b), nil
	}
	f.hit = true
	n := f.left
	f.left = 0
	switch f.mode {
	case 1:
		panic(http.ErrAbortHandler)
	case 2:
		n = 0
	}
	f.wrote += n
	return n, errConn
}

func c04(c *Ctx) {
	c.rule = "a case is one injected fault (a panicking callback, a connection failing at one byte, a bad argument) followed by requests on every interface; distinct by fault, position and interface"
	log.SetOutput(io.Discard)
	// requests that fail log to the process's stderr logger; that is fine
	defer c.otherClients("rpc", "read", "json", "jsongz", "text", "html")()
	n := c.N(48, 400)
	if c.Race() {
		n = c.N(6, 60)
		for i := 0; i < n; i++ {
			c04Panics(c, i)
			c04Conns(c, i)
			c04Args(c, i)
		}
		return
	}
	for i := 0; i < n; i++ {
		c04Panics(c, i)
	}
	for i := 0; i < n/2+1; i++ {
		c04Conns(c, i)
	}
	for i := 0; i < c.N(24, 120); i++ {
		c04RPC(c, i)
	}
	for i := 0; i < n; i++ {
		c04Args(c, i)
	}
	for i := 0; i < c.N(24, 120); i++ {
		c04Server(c, i)
	}
}

func c04Panics(c *Ctx, i int) {
	r := c.Sub("panics", i)
	w := newC04world(c, r)
	defer w.close()
	for k, p := range w.paths {
		for _, iface := range []string{"read", "json", "jsongz", "text", "html", "readget", "jsonget", "textget", "htmlget"} {
			if iface == "html" && strings.Contains(p[3:], "/") {
				continue
			}
			path := "/t"
			if isGet(iface) {
				path = p
			}
			w.armed = k
			w.pval = pick(r, []interface{}{"boom", errConn, http.ErrAbortHandler, 5})
			what := fmt.Sprintf("%s request of %s whose callback %s panicked", iface, path, p)
			within(c, "hang", what, func() {
				defer func() { recover() }()
				readInts(iface, path, w.cl)
			})
			w.armed = -1
			c.Case(fmt.Sprint("p", iface, len(w.paths), k, w.grp))
			w.checkAll(what)
		}
	}
	if c.WantSample() {
		c.Sample(map[string]interface{}{"paths": w.paths, "groups": w.grp})
	}
}

func c04Conns(c *Ctx, i int) {
	r := c.Sub("conns", i)
	w := newC04world(c, r)
	defer w.close()
	targets := []struct{ url, hdr string }{{"/metrics/t?format=text", ""}, {"/metrics/t", ""}, {"/metricsapi/t", ""}, {"/metricsapi/t", "gzip"},
		{"/metrics" + w.paths[0], ""}, {"/metricsapi" + w.paths[1] + "?singleton=true", ""}, {"/metrics" + w.paths[2] + "?format=text", ""}}
	t := targets[i%len(targets)]
	full := get(t.url).Body.Len()
	step := 1
	if full > 1200 {
		step = full / 600
	}
	for n := 0; n <= full; n += step {
		fw := &faultWriter{h: http.Header{}, left: n, mode: i % 3}
		req := httptest.NewRequest("GET", t.url, nil)
		if t.hdr != "" {
			req.Header.Set("Accept-Encoding", t.hdr)
		}
		what := fmt.Sprintf("%s (accept %q) with the connection failing after byte %d (mode %d)", t.url, t.hdr, n, fw.mode)
		within(c, "hang", what, func() {
			defer func() { recover() }()
			http.DefaultServeMux.ServeHTTP(fw, req)
		})
		c.Case(fmt.Sprint("w", t.url, t.hdr, n, fw.mode, fw.hit))
		if fw.hit {
			c.Count("connections_failed", 1)
		}
		if n%7 == 0 || n == full {
			w.checkAll(what)
		} else {
			// a cheap version of the same demand
			before := append([]int64(nil), w.version...)
			for _, m := range tr.ReadMyMetrics("/t") {
				for k, p := range w.paths {
					if p == m.Path && m.Value != before[w.grp[k]]+1 {
						c.Violate("stale", what, "request after %s: %q shows update %v of its group, a fresh one would be %d", what, p, m.Value, before[w.grp[k]]+1)
					}
				}
			}
		}
	}
}

// cutConn is a server side connection that fails after n bytes written.
type cutConn struct {
	net.Conn
	left int
}

func (f *cutConn) Write(b []byte) (int, error) {
	if len(b) > f.left {
		n, _ := f.Conn.Write(b[:f.left])
		f.left = 0
		f.Conn.Close()
		return n, errConn
	}
	f.left -= len(b)
	return f.Conn.Write(b)
}

func c04RPC(c *Ctx, i int) {
	r := c.Sub("rpc", i)
	w := newC04world(c, r)
	defer w.close()
	for n := 0; n < 1500; n += 1 + r.Intn(40) {
		a, b := net.Pipe()
		go rpc.DefaultServer.ServeConn(&cutConn{a, n})
		cl := rpc.NewClient(b)
		what := fmt.Sprintf("RPC connection failing after byte %d", n)
		var err error
		within(c, "hang", what, func() {
			_, err = rpcList(cl, "/t")
			cl.Close()
		})
		if err != nil {
			c.Count("connections_failed", 1)
		}
		c.Case(fmt.Sprint("r", n, err != nil))
		w.checkAll(what)
	}
}

// c04Server does the same through a real server and sockets.
func c04Server(c *Ctx, i int) {
	r := c.Sub("server", i)
	w := newC04world(c, r)
	defer w.close()
	srv := httptest.NewUnstartedServer(http.DefaultServeMux)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	for k := 0; k < len(w.paths); k++ {
		w.armed = k
		w.pval = "boom"
		for _, u := range []string{"/metrics/t?format=text", "/metrics/t", "/metricsapi/t", "/metricsapi" + w.paths[k] + "?singleton=1"} {
			within(c, "hang", "request of "+u, func() {
				resp, err := http.Get(srv.URL + u)
				if err == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
			})
			c.Case(fmt.Sprint("s", u, k, w.grp))
		}
		w.armed = -1
		w.checkAll("panics behind a real server")
	}
	// clients that go away
	for k := 0; k < 10; k++ {
		conn, err := net.Dial("tcp", srv.Listener.Addr().String())
		if err != nil {
			continue
		}
		fmt.Fprintf(conn, "GET /metrics/t?format=text HTTP/1.1\r\nHost: x\r\n\r\n")
		if k%2 == 0 {
			io.ReadFull(conn, make([]byte, 1+r.Intn(60)))
		}
		conn.Close()
	}
	srv.Close() // waits for the requests to end
	w.checkAll("clients that went away")
}

// c04Args makes calls that panic because of their arguments.
func c04Args(c *Ctx, i int) {
	r := c.Sub("args", i)
	defer clearRoot("t")
	cum := tr.PowersOfTen.NewCumulativeDistribution()
	non := tr.PowersOfTen.NewNonCumulativeDistribution()
	empty := tr.PowersOfTen.NewNonCumulativeDistribution()
	nounit := tr.PowersOfTen.NewNonCumulativeDistribution()
	nounitC := tr.PowersOfTen.NewCumulativeDistribution()
	bytes := tr.PowersOfTen.NewNonCumulativeDistribution()
	l := tr.NewList([]int64{1, 2, 3}, tr.MutableSlice)
	ls := tr.NewList([]string{}, tr.ImmutableSlice)
	tu := pick(r, []units.Unit{units.Second, units.Millisecond})
	reg := func(p string, m interface{}, u units.Unit) {
		if err := tr.RegisterMetric(p, m, u, ""); err != nil {
			c.Violate("refused", p, "%v", err)
		}
	}
	reg("/t/cum", cum, tu)
	reg("/t/non", non, tu)
	reg("/t/empty", empty, tu)
	reg("/t/bytes", bytes, units.Byte)
	reg("/t/l", l, units.None)
	reg("/t/ls", ls, units.None)
	for k := 0; k < r.Intn(5); k++ {
		cum.Add(float64(k))
		bytes.Add(float64(k))
	}
	non.Add(2.0)
	bytes.Add(5.0)
	type nd time.Duration
	bad := []interface{}{nil, 5, int64(5), uint8(1), "1.0", true, []float64{1}, struct{}{}, complex(1, 1), nF64(1), new(float64), nd(5)}
	type call struct {
		name string
		f    func()
	}
	var calls []call
	add := func(name string, f func()) { calls = append(calls, call{name, f}) }
	for _, b := range bad {
		b := b
		add(fmt.Sprintf("Cumulative.Add(%T)", b), func() { cum.Add(b) })
		add(fmt.Sprintf("NonCumulative.Add(%T)", b), func() { non.Add(b) })
		add(fmt.Sprintf("Update(%T, 1.0)", b), func() { non.Update(b, 1.0) })
		add(fmt.Sprintf("Update(2.0, %T)", b), func() { non.Update(2.0, b) })
		add(fmt.Sprintf("Remove(%T)", b), func() { non.Remove(b) })
		add(fmt.Sprintf("empty.Add(%T)", b), func() { empty.Add(b) })
	}
	for _, v := range []interface{}{1.0, float32(2), time.Second} {
		v := v
		add(fmt.Sprintf("Add(%T) without unit", v), func() { nounit.Add(v) })
		add(fmt.Sprintf("Cumulative Add(%T) without unit", v), func() { nounitC.Add(v) })
		add(fmt.Sprintf("Update(%T) without unit", v), func() { nounit.Update(v, v) })
		add(fmt.Sprintf("Remove(%T) without unit", v), func() { nounit.Remove(v) })
		add(fmt.Sprintf("Update(%T) of empty", v), func() { empty.Update(v, v) })
		add(fmt.Sprintf("Remove(%T) of empty", v), func() { empty.Remove(v) })
	}
	add("Add(Duration) to bytes", func() { bytes.Add(time.Second) })
	add("Update(Duration) of bytes", func() { bytes.Update(5.0, time.Second) })
	add("Update(Duration) of bytes 2", func() { bytes.Update(time.Second, 5.0) })
	add("Remove(Duration) of bytes", func() { bytes.Remove(time.Second) })
	for _, b := range []interface{}{nil, 5, "x", []string{"a"}, []int32{1}, []*int64{}, [3]int64{1, 2, 3}, []interface{}{int64(1)}, [][]int64{}, []uint64{1},
		[]time.Duration{1}, []struct{}{}, map[int]int{}, (*[]int64)(nil), []error{}} {
		b := b
		m := r.Intn(2) == 0
		add(fmt.Sprintf("Change(%T)", b), func() { l.Change(b, m) })
		if _, ok := b.([]string); !ok {
			add(fmt.Sprintf("string Change(%T)", b), func() { ls.Change(b, m) })
		}
	}
	for _, f := range []interface{}{func() {}, func() (int, error) { return 0, nil }, func() (int, int, int) { return 0, 0, 0 }} {
		f := f
		add(fmt.Sprintf("RegisterMetric(%T)", f), func() { tr.RegisterMetric("/t/new/dir/f", f, units.None, "") })
	}
	add("SetNotHealthy('')", func() { healthserver.SetNotHealthy("") })
	add("SetNotHealthy(OK)", func() { healthserver.SetNotHealthy("OK") })
	add("SetNotReady('')", func() { healthserver.SetNotReady("") })
	add("SetNotReady(OK)", func() { healthserver.SetNotReady("OK") })
	r.Shuffle(len(calls), func(a, b int) { calls[a], calls[b] = calls[b], calls[a] })
	healthserver.SetHealthy()
	healthserver.SetNotReady("warming up")
	report := func() (res []string) {
		for _, m := range tr.ReadMyMetrics("/t") {
			v := m.Value
			if d, ok := v.(*messages.Distribution); ok {
				x := *d
				var rs []messages.RangeWithCount
				for _, q := range d.Ranges {
					rs = append(rs, *q)
				}
				x.Ranges = nil
				v = fmt.Sprintf("%+v %v", x, rs)
			}
			res = append(res, fmt.Sprintf("%s %v %v %v %v", m.Path, m.Kind, m.Unit, v, m.TimeStamp))
		}
		res = append(res, fmt.Sprint(non.Sum(), non.Count(), nounit.Sum(), nounit.Count(), empty.Sum(), empty.Count()))
		for _, u := range []string{"/healthz", "/readiness"} {
			w := get(u)
			res = append(res, fmt.Sprint(w.Code, w.Body.String()))
		}
		return
	}
	before := report()
	for _, cc := range calls {
		var pan bool
		within(c, "hang", cc.name, func() { pan, _ = Panics(cc.f) })
		if !pan {
			c.Violate("no-panic", cc.name, "%s does not panic", cc.name)
		}
		var after []string
		within(c, "hang-after", "reading after "+cc.name, func() { after = report() })
		if !reflect.DeepEqual(before, after) {
			for k := range before {
				if k < len(after) && before[k] != after[k] {
					c.Violate("changed", cc.name, "%s changed %q to %q", cc.name, before[k], after[k])
				}
			}
			c.Violate("changed", cc.name, "%s changed what is reported: %q to %q", cc.name, before, after)
		}
		if _, err := tr.GetDirectory("/t/new"); err != tr.ErrNotFound {
			c.Violate("trace", cc.name, "%s left a directory behind: %v", cc.name, err)
		}
		c.Case("a" + cc.name)
	}
	// everything still works
	within(c, "hang-after", "use after bad calls", func() {
		cum.Add(1.0)
		non.Add(1.0)
		non.Update(1.0, 2.0)
		non.Remove(2.0)
		empty.Add(time.Second)
		bytes.Add(float32(1))
		l.Change([]int64{9}, true)
		ls.Change([]string{"x"}, true)
		reg("/t/nounit", nounit, units.Byte)
		reg("/t/nounitC", nounitC, units.Second)
		nounit.Add(1.0)
		nounitC.Add(time.Second)
		healthserver.SetReady()
		if got := report(); len(got) != len(before)+2 || reflect.DeepEqual(got[:len(before)], before) {
			c.Violate("stuck", got, "changes after bad calls are not reported: %q", got)
		}
	})
}
