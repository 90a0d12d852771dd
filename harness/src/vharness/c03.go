package main

import (
	"fmt"
	"math/rand"
	"net/rpc"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C03"] = c03 }

func c03(c *Ctx) {
	c.rule = "a case is one step of a scheduled execution (a request advanced to its next blocking callback, or an update function replaced) checked against the reference of groups, or one response of a stress run; distinct by interface, groups in use and schedule prefix"
	defer c.long()()
	for i := 0; i < c.N(4800, 60000); i++ {
		c03Sched(c, i)
	}
	n := c.N(160, 2000)
	for i := 0; i < n; i++ {
		c03Stress(c, i)
	}
	for i := 0; i < c.N(16, 160); i++ {
		c03Crowd(c, i)
	}
}

// c03Crowd has hundreds of requests inside one group at a time.
func c03Crowd(c *Ctx, i int) {
	r := c.Sub("crowd", i)
	defer clearRoot("t")
	g := tr.NewGroup()
	var v int64
	var updates int32
	g.RegisterUpdateFunc(func() time.Time {
		atomic.AddInt32(&updates, 1)
		v++
		return stamp(0, v)
	})
	var gated int32 = 1
	arrived := make(chan chan struct{}, 1)
	g.RegisterMetric("/t/a", &v, units.None, "")
	g.RegisterMetric("/t/b", func() int64 {
		if atomic.LoadInt32(&gated) == 1 {
			ch := make(chan struct{})
			arrived <- ch
			<-ch
		}
		return v
	}, units.None, "")
	g.RegisterMetric("/t/c", &v, units.None, "")
	n := 100 + r.Intn(400)
	type inside struct {
		resume chan struct{}
		done   chan struct{}
		want   int64
	}
	var in []inside
	want := int64(1)
	enter := func() {
		how := pick(r, listIfaces)
		x := inside{done: make(chan struct{})}
		if len(in) == 0 {
			want = int64(atomic.LoadInt32(&updates)) + 1
		}
		x.want = want
		go func() {
			defer close(x.done)
			defer c.Guard("panic", nil)
			var cl *rpc.Client
			if how == "rpc" {
				cl = newRPC()
				defer cl.Close()
			}
			got, err := readInts(how, "/t", cl)
			if err != nil || len(got) != 3 {
				c.Violate("failed", how, "%s: %v %v", how, got, err)
			}
			for _, y := range got {
				if y.val != x.want || !y.ts.IsZero() && !y.ts.Equal(stamp(0, x.want)) {
					c.Violate("torn", fmt.Sprint(got), "%s with %d requests inside the group shows %v, want version %d", how, n, got, x.want)
				}
			}
			c.Case(fmt.Sprint("crowd", how, n, x.want))
		}()
		x.resume = <-arrived
		in = append(in, x)
		if u := int64(atomic.LoadInt32(&updates)); u != want {
			c.Violate("crowd-update", n, "%d updates with %d requests inside the group, want %d", u, len(in), want)
		}
	}
	leave := func() {
		k := r.Intn(len(in))
		x := in[k]
		in[k] = in[len(in)-1]
		in = in[:len(in)-1]
		close(x.resume)
		<-x.done
	}
	for len(in) < n {
		enter()
		if r.Intn(20) == 0 {
			leave()
		}
	}
	for len(in) > 0 {
		leave()
		if len(in) > 0 && r.Intn(20) == 0 {
			enter()
		}
	}
	enter() // alone: a new update
	leave()
	c.Count("crowds", 1)
}

// stamp is the time an update function returns for a version.
func stamp(g int, version int64) time.Time {
	switch g % 4 {
	case 1: // in the future
		return time.Unix(8000000000+version, int64(g)).UTC()
	case 2: // going backwards
		return time.Unix(3000000000-version*1000, 999999999).UTC()
	case 3: // always the same
		return time.Unix(1500000000, 5).UTC()
	}
	return time.Unix(1000000*int64(g+1)+version, 123456789).UTC()
}

type c03metric struct {
	path  string
	group int // -1: none
	gated bool
	typ   int
}

// c03var makes a variable of a random type that shows whole numbers, and what
// to register for it.
func c03var(r *rand.Rand, m *c03metric, gate, ungate func()) (interface{}, func(int64)) {
	switch m.typ = r.Intn(8); m.typ {
	case 0:
		return c03spec(m, gate, ungate, func(v int64) int32 { return int32(v) })
	case 1:
		return c03spec(m, gate, ungate, func(v int64) uint16 { return uint16(v) })
	case 2:
		return c03spec(m, gate, ungate, func(v int64) float64 { return float64(v) })
	case 3:
		return c03spec(m, gate, ungate, func(v int64) float32 { return float32(v) })
	case 4:
		return c03spec(m, gate, ungate, func(v int64) string { return fmt.Sprint(v) })
	case 5:
		return c03spec(m, gate, ungate, func(v int64) time.Duration { return time.Duration(v) * time.Second })
	}
	return c03spec(m, gate, ungate, func(v int64) int64 { return v })
}

func c03spec[T any](m *c03metric, gate, ungate func(), conv func(int64) T) (interface{}, func(int64)) {
	v := new(T)
	*v = conv(0)
	set := func(x int64) { *v = conv(x) }
	if !m.gated {
		return v, set
	}
	return func() T {
		gate()
		defer ungate()
		return *v
	}, set
}

type c03arrival struct {
	metric int
	resume chan struct{}
}

type c03req struct {
	id    int
	iface string
	path  string
	reads []int // indexes of metrics in reading order
	pos   int   // first of reads not yet visited
	seen  map[int]int64
	fn    map[int]int64
	at    chan struct{} // resume channel if blocked
	done  chan struct{}
	got   []reading
	err   error
	pan   interface{}
}

// c03Sched runs requests one step at a time: a request runs until it reaches a
// callback that blocks, or ends. As only one request moves at a time, what
// every step must do is known exactly.
func c03Sched(c *Ctx, i int) {
	r := c.Sub("sched", i)
	defer clearRoot("t")
	ng := 1 + r.Intn(4)
	wide := i%150 == 7
	if wide { // requests that read many groups
		ng = 60 + r.Intn(100)
	}
	var (
		mu       sync.Mutex
		events   []string // of the current step
		versions = make([]int64, ng)
		fnID     = make([]int64, ng)
		log      []string
	)
	groups := make([]*tr.Group, ng)
	gvars := make([][]func(int64), ng)
	arrive := make(chan c03arrival)
	mkUpdate := func(g int, id int64) func() time.Time {
		return func() time.Time {
			mu.Lock()
			defer mu.Unlock()
			versions[g]++
			events = append(events, fmt.Sprintf("update g%d f%d v%d", g, id, versions[g]))
			for _, set := range gvars[g] {
				set(versions[g])
			}
			return stamp(g, versions[g])
		}
	}
	for g := range groups {
		groups[g] = tr.NewGroup()
		groups[g].RegisterUpdateFunc(mkUpdate(g, 0))
	}
	// metrics: in two directories, of random groups, some with blocking callbacks
	var ms []c03metric
	nm := 3 + r.Intn(6)
	if wide {
		nm = ng * 2
	}
	for k := 0; k < nm; k++ {
		m := c03metric{group: r.Intn(ng+1) - 1, gated: r.Intn(2) == 0}
		if wide {
			m.gated = r.Intn(20) == 0
		}
		m.path = fmt.Sprintf("/t/%s%02d", pick(r, []string{"", "", "a/", "b/"}), k)
		idx := k
		gate := func() {
			a := c03arrival{idx, make(chan struct{})}
			arrive <- a
			<-a.resume
			mu.Lock()
		}
		spec, set := c03var(r, &m, gate, mu.Unlock)
		var err error
		if m.group >= 0 {
			gvars[m.group] = append(gvars[m.group], set)
			err = regVia(r, m.path, spec, groups[m.group], units.None, "")
		} else {
			err = regVia(r, m.path, spec, nil, units.None, "")
		}
		if err != nil {
			c.Violate("refused", m.path, "%v", err)
		}
		ms = append(ms, m)
	}
	order := make([]int, nm)
	for k := range order {
		order[k] = k
	}
	sort.Slice(order, func(a, b int) bool { return lessPath(ms[order[a]].path, ms[order[b]].path) })

	// reference state
	inUse := make([]map[int]bool, ng) // group -> requests using it
	for g := range inUse {
		inUse[g] = map[int]bool{}
	}
	ver := make([]int64, ng)
	fail := func(sig, f string, a ...interface{}) {
		c.Violate(sig, log, f, a...)
	}
	var active []*c03req
	nextID := 0
	visit := func(q *c03req, k int) []string { // reference of reading metric k
		g := ms[k].group
		if g < 0 {
			return nil
		}
		if inUse[g][q.id] {
			return nil
		}
		var ev []string
		if len(inUse[g]) == 0 {
			ver[g]++
			ev = append(ev, fmt.Sprintf("update g%d f%d v%d", g, fnID[g], ver[g]))
		}
		inUse[g][q.id] = true
		q.seen[g] = ver[g]
		return ev
	}
	// step lets q run until it blocks again or ends, and checks what happened
	step := func(q *c03req) {
		mu.Lock()
		events = nil
		mu.Unlock()
		if q.at != nil {
			close(q.at)
			q.at = nil
		} else {
			go func() {
				defer close(q.done)
				defer func() { q.pan = recover() }()
				var cl *rpc.Client
				if strings.HasPrefix(q.iface, "rpc") {
					cl = newRPC()
					defer cl.Close()
				}
				q.got, q.err = readWhole(q.iface, q.path, cl, true)
			}()
		}
		var want []string
		var ended bool
		var where int
		select {
		case a := <-arrive:
			q.at = a.resume
			where = a.metric
			// A callback may be called again by the read under way.
			again := q.pos > 0 && q.reads[q.pos-1] == a.metric
			if again {
				c.Count("callbacks_called_again", 1)
			}
			// everything up to this metric has been read
			for !again && q.pos < len(q.reads) {
				k := q.reads[q.pos]
				if k == a.metric {
					want = append(want, visit(q, k)...)
					q.pos++
					break
				}
				// A metric with a blocking callback cannot be passed over.
				if ms[k].gated {
					break
				}
				want = append(want, visit(q, k)...)
				q.pos++
			}
		case <-q.done:
			ended = true
			for ; q.pos < len(q.reads); q.pos++ {
				want = append(want, visit(q, q.reads[q.pos])...)
			}
		}
		mu.Lock()
		got := append([]string(nil), events...)
		mu.Unlock()
		state := "ended"
		if !ended {
			state = "blocked reading " + ms[where].path
		}
		log = append(log, fmt.Sprintf("request %d %s %s %s; updates %v", q.id, q.iface, q.path, state, got))
		c.Case(fmt.Sprint(q.iface, state, got, len(active), hash(log)))
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("updates", "request %d (%s %s), now %s, made updates %v, must have made %v", q.id, q.iface, q.path, state, got, want)
		}
		if !ended {
			c.Count("blocked_reads", 1)
			return
		}
		if q.pan != nil || q.err != nil {
			fail("failed", "request %d (%s %s) failed: %v %v", q.id, q.iface, q.path, q.pan, q.err)
		}
		// the response
		exp := map[string]int{}
		for _, k := range q.reads {
			exp[ms[k].path] = k
		}
		for _, x := range q.got {
			k, ok := exp[x.path]
			if !ok {
				fail("extra", "request %d reports %q twice or without need", q.id, x.path)
			}
			delete(exp, x.path)
			g := ms[k].group
			if g < 0 {
				continue
			}
			if x.val != q.seen[g] {
				fail("inconsistent", "request %d (%s %s) shows version %d of group %d at %q, its view is version %d", q.id, q.iface, q.path, x.val, g, x.path, q.seen[g])
			}
			if !x.ts.IsZero() && !x.ts.Equal(stamp(g, q.seen[g])) {
				fail("timestamp", "request %d (%s %s) reports timestamp %v for %q, the update returned %v", q.id, q.iface, q.path, x.ts, x.path, stamp(g, q.seen[g]))
			}
		}
		if len(exp) > 0 {
			fail("missing", "request %d (%s %s) does not report %v", q.id, q.iface, q.path, exp)
		}
		for g := range inUse {
			delete(inUse[g], q.id)
		}
		for j := range active {
			if active[j] == q {
				active = append(active[:j], active[j+1:]...)
				break
			}
		}
		c.Count("responses", 1)
	}
	total := 2 + r.Intn(5)
	for started := 0; started < total || len(active) > 0; {
		switch x := r.Intn(10); {
		case x < 4 && started < total && len(active) < 4:
			started++
			q := &c03req{id: nextID, done: make(chan struct{}), seen: map[int]int64{}, fn: map[int]int64{}}
			nextID++
			if r.Intn(3) == 0 {
				k := r.Intn(nm)
				q.iface, q.path = pick(r, getIfaces), ms[k].path
				q.reads = []int{k}
			} else {
				q.iface, q.path = pick(r, listIfaces), pick(r, []string{"/t", "/t", "/t", "/t/a", "/t/b"})
				for _, k := range order {
					p := ms[k].path
					if !strings.HasPrefix(p, q.path+"/") {
						continue
					}
					if q.iface == "html" && strings.Contains(p[len(q.path)+1:], "/") {
						continue
					}
					q.reads = append(q.reads, k)
				}
				if len(q.reads) == 0 {
					// a directory that may not exist
					q.iface, q.path = "rpc", "/t"
					q.reads = order
				}
			}
			active = append(active, q)
			step(q)
		case x < 9 && len(active) > 0:
			step(pick(r, active))
		case x == 9:
			g := r.Intn(ng)
			fnID[g]++
			groups[g].RegisterUpdateFunc(mkUpdate(g, fnID[g]))
			log = append(log, fmt.Sprintf("new update function f%d of group %d", fnID[g], g))
			c.Count("update_functions_replaced", 1)
		}
	}
	if c.WantSample() {
		l := log
		if len(l) > 8 {
			l = l[:8]
		}
		c.Sample(l)
	}
	c.Count("schedules", 1)
}

type c03rec struct {
	s, e int64
	how  string
	ver  map[int]int64
}

type c03extra struct {
	s string
	f float32
	b bool
	d time.Duration
	u uint16
	t time.Time
	p *time.Time
	// pt is what p points to
	pt *time.Time
}

// c03Stress runs free requests of all kinds against update functions that
// write plain variables slowly, as programs do.
func c03Stress(c *Ctx, i int) {
	r := c.Sub("stress", i)
	defer clearRoot("t")
	ng := 1 + r.Intn(3)
	nv := 4
	type upd struct{ s, e int64 }
	groups := make([]*tr.Group, ng)
	vars := make([][]int64, ng)
	upds := make([][]upd, ng) // written by update functions only
	inCB := make([]int32, ng)
	inUp := make([]int32, ng)
	fnGen := make([]int32, ng)
	// values of other types that the updates write, for the race detector
	extra := make([]*c03extra, ng)
	for g := range extra {
		extra[g] = &c03extra{pt: new(time.Time)}
	}
	var intPaths, extraPaths []string
	watch := !c.Race() // the counters would hide races
	mk := func(g int, gen int32) func() time.Time {
		return func() time.Time {
			s := now()
			if watch {
				if cur := atomic.LoadInt32(&fnGen[g]); cur > gen {
					c.Violate("old-function", nil, "update function %d of group %d called after RegisterUpdateFunc of function %d returned", gen, g, cur)
				}
				if atomic.AddInt32(&inUp[g], 1) != 1 {
					c.Violate("update-concurrent", nil, "update function of group %d runs concurrently with itself", g)
				}
				if n := atomic.LoadInt32(&inCB[g]); n != 0 {
					c.Violate("update-during-read", nil, "update function of group %d starts while %d reads of the group are in progress", g, n)
				}
			}
			v := vars[g][0] + 1
			for k := range vars[g] {
				vars[g][k] = v
				runtime.Gosched()
			}
			x := extra[g]
			x.s, x.f, x.b, x.d, x.u = fmt.Sprintf("v%d", v), float32(v)+0.5, v%2 == 0, time.Duration(v)*time.Second, uint16(v)
			x.t = stamp(g, v)
			if v%3 == 0 {
				x.p = nil
			} else {
				*x.pt = stamp(g, v)
				x.p = x.pt
			}
			if watch {
				if n := atomic.LoadInt32(&inCB[g]); n != 0 {
					c.Violate("read-during-update", nil, "%d reads of group %d in progress during its update function", n, g)
				}
				atomic.AddInt32(&inUp[g], -1)
			}
			upds[g] = append(upds[g], upd{s, now()})
			return stamp(g, v)
		}
	}
	for g := range groups {
		g := g
		groups[g] = tr.NewGroup()
		vars[g] = make([]int64, nv)
		for k := 0; k < nv; k++ {
			k := k
			var spec interface{} = &vars[g][k]
			if k%2 == 1 {
				spec = func() int64 {
					if watch {
						atomic.AddInt32(&inCB[g], 1)
						defer atomic.AddInt32(&inCB[g], -1)
						if atomic.LoadInt32(&inUp[g]) != 0 {
							c.Violate("read-during-update", nil, "group %d is read during its update function", g)
						}
						runtime.Gosched()
					}
					return vars[g][k]
				}
			}
			p := fmt.Sprintf("/t/%s%d-%d", pick(r, []string{"", "a/", "b/"}), k, g)
			if err := regVia(r, p, spec, groups[g], units.None, ""); err != nil {
				c.Violate("refused", nil, "%v", err)
			}
			intPaths = append(intPaths, p)
		}
		x := extra[g]
		for k, spec := range []interface{}{&x.s, &x.f, &x.b, &x.d, &x.u, &x.t, &x.p, func() *time.Time { return x.p }} {
			p := fmt.Sprintf("/t/x/%d-%d", k, g)
			if err := regVia(r, p, spec, groups[g], units.None, ""); err != nil {
				c.Violate("refused", nil, "%T: %v", spec, err)
			}
			extraPaths = append(extraPaths, p)
		}
		groups[g].RegisterUpdateFunc(mk(g, 0))
	}
	nreq := 2 + r.Intn(6)
	each := 30
	recs := make([][]c03rec, nreq)
	var wg sync.WaitGroup
	bar := newBarrier(nreq)
	for q := 0; q < nreq; q++ {
		wg.Add(1)
		qr := c.Sub("stress", i, "q", q)
		go func(q int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			cl := newRPC()
			defer cl.Close()
			bar.wait()
			for n := 0; n < each; n++ {
				rec := c03rec{how: pick(qr, listIfaces), ver: map[int]int64{}}
				path := "/t"
				switch qr.Intn(6) {
				case 0, 1:
					rec.how, path = pick(qr, getIfaces), pick(qr, intPaths)
				case 2:
					path = pick(qr, extraPaths)
				case 3:
					path = "/t/x"
				}
				rec.s = now()
				got, err := readInts(rec.how, path, cl)
				if strings.HasPrefix(path, "/t/x/") && rec.how == "text" {
					err = nil // a value alone, and no integer
				}
				rec.e = now()
				if err != nil {
					c.Violate("failed", rec.how, "%s: %v", rec.how, err)
				}
				for _, x := range got {
					var g int
					fmt.Sscanf(x.path[strings.LastIndex(x.path, "-"):], "-%d", &g)
					if old, ok := rec.ver[g]; ok && old != x.val {
						c.Violate("torn", fmt.Sprint(got), "one %s response shows versions %d and %d of group %d", rec.how, old, x.val, g)
					}
					rec.ver[g] = x.val
					if !x.ts.IsZero() && !x.ts.Equal(stamp(g, x.val)) {
						c.Violate("timestamp", fmt.Sprint(got), "%s: version %d of group %d has timestamp %v", rec.how, x.val, g, x.ts)
					}
				}
				// requests that show no version of a group they use
				for g := range groups {
					if _, ok := rec.ver[g]; !ok && (path == "/t/x" || strings.HasPrefix(path, "/t/x/") && strings.HasSuffix(path, fmt.Sprint("-", g))) {
						rec.ver[g] = -1
					}
				}
				recs[q] = append(recs[q], rec)
			}
		}(q)
	}
	// replace update functions meanwhile
	for k := int32(1); k <= 5; k++ {
		g := r.Intn(ng)
		gen := atomic.LoadInt32(&fnGen[g]) + 1
		groups[g].RegisterUpdateFunc(mk(g, gen))
		atomic.StoreInt32(&fnGen[g], gen)
		runtime.Gosched()
	}
	wg.Wait()
	// synchronise with the groups before reading what their functions wrote
	tr.ReadMyMetrics("/t")
	var all []c03rec
	for _, x := range recs {
		all = append(all, x...)
	}
	skipped := int64(0)
	for _, x := range all {
		for g, v := range x.ver {
			if v == -1 {
				continue
			}
			if v < 1 || int(v) > len(upds[g]) {
				c.Violate("no-update", fmt.Sprint(x), "%s reports version %d of group %d before any update", x.how, v, g)
				continue
			}
			u := upds[g][v-1]
			if u.s > x.e {
				c.Violate("future", fmt.Sprint(x), "%s reports a version made after it ended", x.how)
			}
			if u.s >= x.s {
				continue
			}
			// An update from before the request: some other request that saw
			// the same version must have been in progress meanwhile.
			ok := false
			for _, y := range all {
				if (y.s != x.s || y.e != x.e) && y.s < x.e && y.e > x.s && (y.ver[g] == v || y.ver[g] == -1) {
					ok = true
					break
				}
			}
			if !ok {
				c.Violate("stale", fmt.Sprintf("%+v update %+v", x, u), "%s shows version %d of group %d although no other request using that version was in progress", x.how, v, g)
			}
			skipped++
		}
		c.Case(fmt.Sprint("s", x.how, x.ver))
	}
	for g := range upds {
		if n := len(upds[g]); n > nreq*each+1 {
			c.Violate("too-many-updates", nil, "%d updates of group %d for %d requests", n, g, nreq*each+1)
		}
		c.Count("stress_updates", int64(len(upds[g])))
	}
	c.Count("shared_updates", skipped)
	c.Count("stress_responses", int64(len(all)))
}
