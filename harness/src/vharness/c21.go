package main

import (
	"encoding/json"
	"fmt"
	"net/rpc"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C21"] = c21 }

func c21(c *Ctx) {
	c.rule = "a case is one response whose group ids and timestamps were checked against the sources of its metrics and the recorded updates and changes; distinct by the sources, values shown and interface"
	defer c.keep()()
	if !c.Race() {
		n := c.N(16000, 300000)
		for i := 0; i < n; i++ {
			c21Seq(c, i)
		}
		c21Wide(c)
		if c.Shard == 1%c.NSh {
			c21Apart(c, c.N(c.NSh*(1<<21), c.NSh*(1<<25)))
		}
	}
	n := c.N(2400, 60000)
	if c.Race() {
		n = c.N(480, 12000)
	}
	for i := 0; i < n; i++ {
		c21Conc(c, i)
	}
}

// c21Apart lists metrics between whose creation many others were created.
func c21Apart(c *Ctx, total int) {
	defer tr.UnregisterPath("/apart")
	var ones []int64
	n := 0
	wanted := map[int]bool{0: true}
	for k := 1; k <= total; k *= 2 {
		wanted[k] = true
	}
	for k := 1; k <= total; k *= 10 {
		wanted[k] = true
	}
	for i := 0; i <= total; i++ {
		l := tr.NewList(ones, tr.ImmutableSlice)
		if wanted[i] || wanted[i-1] {
			if err := tr.RegisterMetric(fmt.Sprintf("/apart/l%d", i), l, units.None, ""); err != nil {
				c.Violate("register", i, "%v", err)
			}
			n++
		}
	}
	seen := map[int]string{}
	ml := tr.ReadMyMetrics("/apart")
	if len(ml) != n {
		c.Violate("apart", n, "%d of %d metrics", len(ml), n)
	}
	for _, m := range ml {
		if other, ok := seen[m.GroupId]; ok {
			c.Violate("id-shared", nil, "lists %s and %s of %d, created that many apart, have group id %d", other, m.Path, total, m.GroupId)
		}
		seen[m.GroupId] = m.Path
	}
	c.Case(fmt.Sprint("apart", total))
	c.Count("lists_apart", int64(total))
}

// c21obs is one metric of one response.
type c21obs struct {
	path   string
	gid    int
	ts     time.Time
	id     int64 // integer value, first list element, or generation
	counts []uint64
	kind   string
}

type c21dist struct {
	Generation uint64
	Ranges     []struct{ Count uint64 }
}

var c21ifaces = []string{"rpc", "json", "jsongz", "read", "rpcget", "jsonget"}

// c21fetch reads the metrics under path. Lists hold the identity as their first
// element, as a number or as a string.
func c21fetch(iface, path string, cl *rpc.Client) (res []c21obs, err error) {
	fromMsg := func(ml messages.MetricList) error {
		for _, m := range ml {
			o := c21obs{path: m.Path, gid: m.GroupId, kind: string(m.Kind)}
			ts, ok := m.TimeStamp.(time.Time)
			if !ok {
				return fmt.Errorf("timestamp of %q is %T", m.Path, m.TimeStamp)
			}
			o.ts = ts.Round(0)
			switch v := m.Value.(type) {
			case int64:
				o.id = v
			case []int64:
				o.id = -1 // empty
				if len(v) > 0 {
					o.id = v[0]
				}
			case []string:
				o.id = -1
				if len(v) > 0 {
					o.id, _ = strconv.ParseInt(v[0], 10, 64)
				}
			case []time.Duration:
				o.id = -1
				if len(v) > 0 {
					o.id = int64(v[0] / time.Second)
				}
			case *messages.Distribution:
				o.id = int64(v.Generation)
				for _, r := range v.Ranges {
					o.counts = append(o.counts, r.Count)
				}
			case messages.Distribution:
				o.id = int64(v.Generation)
				for _, r := range v.Ranges {
					o.counts = append(o.counts, r.Count)
				}
			default:
				return fmt.Errorf("value of %q is %T", m.Path, m.Value)
			}
			res = append(res, o)
		}
		return nil
	}
	fromJSON := func(js []*jsonMetric) error {
		for _, j := range js {
			o := c21obs{path: j.Path, gid: j.GroupId, kind: j.Kind}
			var err error
			if o.ts, err = parseStamp(j.TimeStamp); err != nil {
				return err
			}
			switch j.Kind {
			case "int64":
				o.id, err = strconv.ParseInt(string(j.Value), 10, 64)
			case "list":
				var l []json.RawMessage
				if err = json.Unmarshal(j.Value, &l); err == nil {
					if len(l) == 0 {
						o.id = -1
						break
					}
					s := strings.Trim(string(l[0]), `"`)
					if k := strings.IndexByte(s, '.'); k >= 0 {
						s = s[:k]
					}
					o.id, err = strconv.ParseInt(s, 10, 64)
				}
			case "distribution":
				var d c21dist
				if err = json.Unmarshal(j.Value, &d); err == nil {
					o.id = int64(d.Generation)
					for _, r := range d.Ranges {
						o.counts = append(o.counts, r.Count)
					}
				}
			default:
				return fmt.Errorf("kind of %q is %q", j.Path, j.Kind)
			}
			if err != nil {
				return err
			}
			res = append(res, o)
		}
		return nil
	}
	switch iface {
	case "rpc":
		ml, err := rpcList(cl, path)
		if err != nil {
			return nil, err
		}
		err = fromMsg(ml)
		return res, err
	case "read":
		err := fromMsg(tr.ReadMyMetrics(path))
		return res, err
	case "rpcget":
		m, err := rpcGet(cl, path)
		if err != nil {
			return nil, err
		}
		err = fromMsg(messages.MetricList{m})
		return res, err
	case "json", "jsongz":
		var hdr []string
		if iface == "jsongz" {
			hdr = []string{"Accept-Encoding", "gzip"}
		}
		jl, err := jsonList(path, hdr...)
		if err != nil {
			return nil, err
		}
		err = fromJSON(jl)
		return res, err
	case "jsonget":
		j, code, err := jsonGet(path)
		if err != nil || j == nil {
			return nil, fmt.Errorf("status %d %v", code, err)
		}
		err = fromJSON([]*jsonMetric{j})
		return res, err
	}
	return nil, fmt.Errorf("no such interface %q", iface)
}

func wall() time.Time { return time.Now().Round(0) }

// c21src is where metrics come from: a group, distribution or list.
type c21src struct {
	name string
	kind string // group, dist, list
	grp  *tr.Group
	// group: val is the variable, rets the time returned with each value.
	// rets is nil while the group has the default update function.
	val  int64
	rets map[int64]time.Time
	d    *adist
	l    *tr.List
	elem int
	id   int64
	held []float64
	// window of the last change, or of creation
	lo, hi time.Time
	// second window accepted (UpdateMinMax is not called a change)
	lo2, hi2 time.Time
}

// c21ids remembers, over the whole process, which source an id belongs to.
var c21ids = map[int]string{}

// c21check checks one response against the sources of its metrics.
func c21check(c *Ctx, what string, obs []c21obs, srcOf map[string]*c21src) {
	byGid := map[int]*c21src{}
	bySrc := map[*c21src]c21obs{}
	for _, o := range obs {
		s := srcOf[o.path]
		if s == nil {
			c.Violate("unknown-path", what, "%s reports %q", what, o.path)
			return
		}
		if t, ok := byGid[o.gid]; ok && t != s {
			c.Violate("shared-id", what, "%s: group id %d of %q (%s) is also that of %s", what, o.gid, o.path, s.name, t.name)
		}
		byGid[o.gid] = s
		if p, ok := bySrc[s]; ok {
			if p.gid != o.gid {
				c.Violate("split-id", what, "%s: %q and %q both come from %s but have group ids %d and %d", what, p.path, o.path, s.name, p.gid, o.gid)
			}
			if !p.ts.Equal(o.ts) {
				c.Violate("split-timestamp", what, "%s: %q and %q have group id %d but timestamps %v and %v", what, p.path, o.path, o.gid, p.ts, o.ts)
			}
		}
		bySrc[s] = o
	}
}

func c21newList(elem int, id int64, extra int) interface{} {
	if id < 0 {
		return [...]interface{}{[]int64{}, []string(nil), []time.Duration{}}[elem]
	}
	switch elem {
	case 0:
		x := []int64{id}
		for k := 0; k < extra; k++ {
			x = append(x, int64(k))
		}
		return x
	case 1:
		x := []string{fmt.Sprint(id)}
		for k := 0; k < extra; k++ {
			x = append(x, "x")
		}
		return x
	}
	return []time.Duration{time.Duration(id) * time.Second}
}

// groups whose update function is still the default; each costs a goroutine
var c21pool []*tr.Group

func c21stamp(r randT) time.Time {
	switch r.Intn(6) {
	case 0:
		return time.Now()
	case 4:
		if r.Intn(2) == 0 {
			return time.Unix(0, int64(r.Intn(2)))
		}
		return time.Time{}
	case 1:
		return time.Unix(r.Int63n(4e9), r.Int63n(1e9)).In(time.FixedZone("z", 7200))
	case 2:
		return time.Unix(1+r.Int63n(1000), int64(r.Intn(3)))
	case 3:
		return time.Date(1900+r.Intn(300), 1, 1+r.Intn(300), 0, 0, 0, r.Intn(1e9), time.UTC)
	}
	return time.Now().Add(time.Duration(r.Int63n(int64(100 * time.Hour))))
}

func (s *c21src) setUpdate(r randT, next *int64) {
	s.rets = map[int64]time.Time{}
	frozen := r.Intn(6) == 0 // same time again and again
	last := c21stamp(r)
	s.grp.RegisterUpdateFunc(func() time.Time {
		*next++
		s.val = *next
		if !frozen && r.Intn(4) != 0 {
			last = c21stamp(r)
		}
		s.rets[s.val] = last.Round(0)
		return last
	})
}

func c21Seq(c *Ctx, i int) {
	r := c.Sub("seq", i)
	defer clearRoot("t")
	cl := newRPC()
	defer cl.Close()
	var next int64 = 1000
	var srcs []*c21src
	defGrp := &c21src{name: "the default group", kind: "group", grp: tr.DefaultGroup}
	srcs = append(srcs, defGrp)
	ng, nd, nl := r.Intn(4), r.Intn(4), r.Intn(4)
	for k := 0; k < ng; k++ {
		s := &c21src{name: fmt.Sprint("group ", k), kind: "group"}
		if len(c21pool) > k && len(c21pool) > 20 {
			s.grp = c21pool[r.Intn(len(c21pool))]
			dup := false
			for _, o := range srcs {
				dup = dup || o.grp == s.grp
			}
			if dup {
				continue
			}
		} else {
			s.grp = tr.NewGroup()
			c21pool = append(c21pool, s.grp)
		}
		s.grp.RegisterUpdateFunc(time.Now)
		if r.Intn(3) > 0 {
			s.setUpdate(r, &next)
		}
		srcs = append(srcs, s)
	}
	for k := 0; k < nd; k++ {
		s := &c21src{name: fmt.Sprint("distribution ", k), kind: "dist", lo: wall()}
		s.d = newAdist(tr.NewArbitraryBucketer(10, 20), r.Intn(2) == 0)
		s.hi = wall()
		srcs = append(srcs, s)
	}
	for k := 0; k < nl; k++ {
		next++
		s := &c21src{name: fmt.Sprint("list ", k), kind: "list", elem: r.Intn(3), id: next, lo: wall()}
		if r.Intn(4) == 0 {
			s.id = -1
		}
		s.l = tr.NewList(c21newList(s.elem, s.id, int(s.id)%3), r.Intn(2) == 0)
		s.hi = wall()
		srcs = append(srcs, s)
	}
	// some time passes before the creation is looked at
	if r.Intn(4) == 0 {
		time.Sleep(time.Microsecond * time.Duration(r.Intn(300)))
	}
	srcOf := map[string]*c21src{}
	var paths []string
	reg := func() {
		s := pick(r, srcs)
		p := fmt.Sprintf("/t/%s/m%d", pick(r, []string{"a", "b", "b/c"}), len(paths))
		var m interface{}
		unit := units.None
		switch s.kind {
		case "group":
			if s == defGrp || r.Intn(3) > 0 {
				m = &s.val
			} else {
				m = func() int64 { return s.val }
			}
		case "dist":
			m = s.d.spec
		case "list":
			m = s.l
		}
		var err error
		switch {
		case s.kind == "group" && s == defGrp, s.kind != "group" && r.Intn(2) == 0:
			err = regVia(r, p, m, nil, unit, "d")
		case s.kind == "group":
			err = regVia(r, p, m, s.grp, unit, "d")
		default:
			// a distribution or list registered in a group keeps its own id
			err = regVia(r, p, m, pick(r, srcs[:1]).grp, unit, "d")
		}
		if err != nil {
			c.Violate("refused", p, "registering %s at %s: %v", s.name, p, err)
		}
		srcOf[p] = s
		paths = append(paths, p)
	}
	for k := 2 + r.Intn(8); k > 0; k-- {
		reg()
	}
	var log []string
	for step := 3 + r.Intn(12); step > 0; step-- {
		s := pick(r, srcs)
		switch x := r.Intn(10); {
		case x == 0:
			reg()
			log = append(log, "register "+paths[len(paths)-1]+" from "+srcOf[paths[len(paths)-1]].name)
		case x == 1 && s.kind == "group" && s != defGrp:
			if r.Intn(4) == 0 {
				s.rets = nil
				s.grp.RegisterUpdateFunc(time.Now)
			} else {
				s.setUpdate(r, &next)
			}
			log = append(log, "new update function for "+s.name)
		case x < 6 && s.kind == "dist":
			registered := false
			for _, p := range paths {
				registered = registered || srcOf[p] == s
			}
			if !registered {
				continue
			}
			v := float64(r.Intn(40))
			lo := wall()
			switch {
			case s.d.non != nil && len(s.held) > 0 && r.Intn(3) == 0:
				s.d.non.Remove(s.held[0])
				s.held = s.held[1:]
			case s.d.non != nil && len(s.held) > 0 && r.Intn(2) == 0:
				if r.Intn(3) == 0 {
					v = s.held[0]
				}
				s.d.non.Update(s.held[0], v)
				s.held[0] = v
			case s.d.non != nil && r.Intn(6) == 0:
				s.d.non.UpdateMinMax()
				s.lo2, s.hi2 = lo, wall()
				log = append(log, s.name+".UpdateMinMax()")
				continue
			case s.d.non != nil && r.Intn(5) == 0:
				s.d.non.Sum()
				s.d.non.Count()
				continue
			case r.Intn(8) == 0:
				// refused: not a change
				Panics(func() { s.d.add("x") })
				log = append(log, s.name+".Add of a string")
				continue
			default:
				s.d.add(v)
				s.held = append(s.held, v)
			}
			s.lo, s.hi = lo, wall()
			s.lo2, s.hi2 = time.Time{}, time.Time{}
			log = append(log, s.name+" changed")
		case x < 6 && s.kind == "list":
			if r.Intn(8) == 0 {
				Panics(func() { s.l.Change([]float32{1}, false) })
				log = append(log, s.name+".Change refused")
				continue
			}
			next++
			switch r.Intn(4) {
			case 0:
				s.id = -1 // empty
			case 1:
				// the same again
			default:
				s.id = next
			}
			s.lo = wall()
			s.l.Change(c21newList(s.elem, s.id, int(s.id)%3), r.Intn(2) == 0)
			s.hi = wall()
			log = append(log, fmt.Sprintf("%s changed to %d", s.name, s.id))
		default:
			iface := pick(r, c21ifaces)
			path := pick(r, []string{"/t", "/t/a", "/t/b", "/t/b/c"})
			if isGet(iface) || r.Intn(6) == 0 {
				path = pick(r, paths)
			}
			lo := wall()
			obs, err := c21fetch(iface, path, cl)
			hi := wall()
			if err != nil {
				c.Violate("failed", log, "%s of %s: %v", iface, path, err)
			}
			what := iface + " of " + path
			c21check(c, what, obs, srcOf)
			var key []string
			for _, o := range obs {
				s := srcOf[o.path]
				w := map[string]interface{}{"history": log, "metrics": fmt.Sprintf("%+v", obs)}
				switch {
				case s.kind == "group" && s.rets != nil:
					want, ok := s.rets[o.id]
					if !ok {
						c.Violate("stale-group", w, "%s: %q of %s shows %d, which its present update function never set", what, o.path, s.name, o.id)
					} else if !want.Equal(o.ts) {
						c.Violate("group-timestamp", w, "%s: %q of %s shows %d; the update function that set it returned %v, the timestamp is %v", what, o.path, s.name, o.id, want, o.ts)
					}
				case s.kind == "group":
					if (o.ts.Before(lo) || o.ts.After(hi)) && !clockStepped() {
						c.Violate("default-timestamp", w, "%s: %q of %s with the default update function has timestamp %v, the request ran from %v to %v", what, o.path, s.name, o.ts, lo, hi)
					}
				default:
					if s.kind == "list" && o.id != s.id {
						c.Violate("list-value", w, "%s: %q shows %d, want %d", what, o.path, o.id, s.id)
					}
					if (o.ts.Before(s.lo) || o.ts.After(s.hi)) && (s.lo2.IsZero() || o.ts.Before(s.lo2) || o.ts.After(s.hi2)) && !clockStepped() {
						c.Violate("change-timestamp", w, "%s: %q of %s has timestamp %v, its last change ran from %v to %v", what, o.path, s.name, o.ts, s.lo, s.hi)
					}
				}
				key = append(key, fmt.Sprint(s.name, o.id))
			}
			// ids are for life, also across responses and unregistering
			for _, o := range obs {
				s := srcOf[o.path]
				var name string
				switch s.kind {
				case "group":
					name = fmt.Sprintf("g%p", s.grp)
				default:
					name = fmt.Sprintf("%s of scene %d", s.name, i)
				}
				if was, ok := c21ids[o.gid]; ok && was != name {
					c.Violate("reused-id", log, "group id %d of %s was that of %s before", o.gid, name, was)
				}
				c21ids[o.gid] = name
			}
			log = append(log, "read "+what)
			if len(obs) == 0 {
				c.Case("")
			} else {
				c.Case(iface + strings.Join(key, ";"))
			}
			if c.WantSample() && len(obs) > 3 {
				c.Sample(map[string]interface{}{"interface": iface, "path": path, "history": log, "metrics": fmt.Sprintf("%+v", obs)})
			}
		}
	}
}

// c21Conc: requests while distributions and lists change and groups update.
// Goroutine g only adds to range g of each distribution, so the counts of a
// snapshot tell exactly which changes it includes.
func c21Conc(c *Ctx, i int) {
	r := c.Sub("conc", i)
	defer clearRoot("t")
	ng := 1 + r.Intn(3)
	var ends []float64
	for k := 1; k < ng || k == 1; k++ {
		ends = append(ends, float64(10*k))
	}
	type win struct{ lo, hi time.Time }
	cdLo := wall()
	d := newAdist(tr.NewArbitraryBucketer(ends...), r.Intn(2) == 0)
	cdHi := wall()
	clLo := wall()
	l := tr.NewList([]int64{0}, false)
	clHi := wall()
	if len(c21pool) == 0 {
		c21pool = append(c21pool, tr.NewGroup())
	}
	g := c21pool[0]
	var val int64
	var rmu sync.Mutex
	rets := map[int64]time.Time{}
	gr0 := c.Sub("conc", i, "upd")
	g.RegisterUpdateFunc(func() time.Time {
		val++
		t := c21stamp(gr0)
		rmu.Lock()
		rets[val] = t.Round(0)
		rmu.Unlock()
		return t
	})
	defer g.RegisterUpdateFunc(time.Now)
	S := map[string]*c21src{"d": {name: "d", kind: "dist"}, "l": {name: "l", kind: "list"}, "g": {name: "g", kind: "group"}, "0": {name: "default", kind: "group"}}
	srcOf := map[string]*c21src{}
	var zero int64
	for k := 0; k < 9; k++ {
		p := fmt.Sprintf("/t/x%d", k)
		var err error
		switch k % 3 {
		case 0:
			err = tr.RegisterMetric(p, d.spec, units.None, "")
			srcOf[p] = S["d"]
		case 1:
			err = tr.RegisterMetric(p, l, units.None, "")
			srcOf[p] = S["l"]
		case 2:
			err = regVia(r, p, &val, g, units.None, "")
			srcOf[p] = S["g"]
		}
		if err != nil {
			c.Violate("refused", p, "%v", err)
		}
	}
	tr.RegisterMetric("/t/y", &zero, units.None, "")
	srcOf["/t/y"] = S["0"]
	dops := make([][]win, ng)
	lops := make([]map[int64][]win, ng)
	empties := r.Intn(3) == 0
	nops := 20 + r.Intn(200)
	type resp struct {
		lo, hi time.Time
		iface  string
		obs    []c21obs
		err    error
	}
	nr := 2 + r.Intn(3)
	resps := make([][]resp, nr)
	bar := newBarrier(ng + nr)
	var wg, rwg sync.WaitGroup
	var stop int32
	for w := 0; w < ng; w++ {
		wg.Add(1)
		lops[w] = map[int64][]win{}
		gr := c.Sub("conc", i, "w", w)
		go func(w int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			bar.wait()
			for k := 0; k < nops; k++ {
				if gr.Intn(2) == 0 {
					lo := wall()
					d.add(float64(10*w + gr.Intn(10)))
					dops[w] = append(dops[w], win{lo, wall()})
				} else {
					id := int64(1 + w*1000 + k)
					x := []int64{id, id}
					if empties && gr.Intn(2) == 0 {
						id, x = -1, nil
					}
					lo := wall()
					l.Change(x, gr.Intn(2) == 0)
					lops[w][id] = append(lops[w][id], win{lo, wall()})
				}
				if gr.Intn(8) == 0 {
					time.Sleep(time.Microsecond * time.Duration(gr.Intn(50)))
				}
			}
		}(w)
	}
	for q := 0; q < nr; q++ {
		rwg.Add(1)
		gr := c.Sub("conc", i, "r", q)
		go func(q int) {
			defer rwg.Done()
			defer c.Guard("panic", nil)
			cl := newRPC()
			defer cl.Close()
			bar.wait()
			for k := 0; k < 200 && (k < 3 || atomic.LoadInt32(&stop) == 0); k++ {
				p := resp{lo: wall(), iface: pick(gr, c21ifaces)}
				path := "/t"
				if isGet(p.iface) {
					path = fmt.Sprintf("/t/x%d", gr.Intn(9))
				}
				p.obs, p.err = c21fetch(p.iface, path, cl)
				p.hi = wall()
				resps[q] = append(resps[q], p)
			}
		}(q)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rwg.Wait()
	all := map[int64][]win{0: {{clLo, clHi}}}
	for _, m := range lops {
		for k, v := range m {
			all[k] = append(all[k], v...)
		}
	}
	var starts []time.Time
	for _, rs := range resps {
		for _, p := range rs {
			starts = append(starts, p.lo)
		}
	}
	sort.Slice(starts, func(a, b int) bool { return starts[a].Before(starts[b]) })
	for _, rs := range resps {
		for _, p := range rs {
			if p.err != nil {
				c.Violate("failed", nil, "%s: %v", p.iface, p.err)
			}
			c21check(c, p.iface, p.obs, srcOf)
			var key []string
			for _, o := range p.obs {
				w := fmt.Sprintf("%+v", p.obs)
				switch srcOf[o.path].name {
				case "g":
					if t, ok := rets[o.id]; !ok || !t.Equal(o.ts) {
						c.Violate("group-timestamp", w, "%s: %q shows %d with timestamp %v; the update that set it returned %v (%v)", p.iface, o.path, o.id, o.ts, t, ok)
					}
				case "default":
					// overlapping requests share one update
					if (o.ts.After(p.hi) || o.ts.Before(starts[0])) && !clockStepped() {
						c.Violate("default-timestamp", w, "%s: %q has timestamp %v outside the run of the requests from %v to %v", p.iface, o.path, o.ts, starts[0], p.hi)
					}
				case "l":
					ok := false
					for _, t := range all[o.id] {
						ok = ok || !o.ts.Before(t.lo) && !o.ts.After(t.hi)
					}
					if !ok && !clockStepped() {
						c.Violate("change-timestamp", w, "%s: list %q shows %d with timestamp %v; the changes to that ran at %v", p.iface, o.path, o.id, o.ts, all[o.id])
					}
				case "d":
					var cand []win
					n := 0
					for g, k := range o.counts {
						n += int(k)
						if g >= ng && k > 0 || g < ng && int(k) > len(dops[g]) {
							c.Violate("dist-value", w, "%s: %q has impossible counts %v", p.iface, o.path, o.counts)
							return
						}
						if k > 0 {
							cand = append(cand, dops[g][k-1])
						}
					}
					if n == 0 {
						cand = []win{{cdLo, cdHi}}
					}
					ok := false
					for _, a := range cand {
						last := true
						for _, b := range cand {
							last = last && !b.lo.After(a.hi)
						}
						if last && !o.ts.Before(a.lo) && !o.ts.After(a.hi) {
							ok = true
						}
					}
					if !ok && !clockStepped() {
						c.Violate("change-timestamp", w, "%s: distribution %q with counts %v has timestamp %v, outside the calls that can have been its last change: %v", p.iface, o.path, o.counts, o.ts, cand)
					}
				}
				key = append(key, fmt.Sprint(o.id))
			}
			c.Case(p.iface + strings.Join(key, ","))
			c.Count("concurrent_responses", 1)
		}
	}
}

// c21Wide: hundreds of groups, distributions and lists in one response.
func c21Wide(c *Ctx) {
	for i := 0; i < c.N(2, 6); i++ {
		r := c.Sub("wide", i)
		srcOf := map[string]*c21src{}
		n := 400 + r.Intn(200)
		for k := 0; k < n; k++ {
			if i == 0 && k == n/2 {
				// Sources that are gone by the time of the listing, so that ids of
				// 16 or 24 bits would be given twice.
				bits := uint(16)
				if c.Tier == "thorough" && c.Shard == 0 {
					bits = 24
				}
				for j := 1<<bits - k; j > 0; j-- {
					tr.NewList([]int64(nil), false)
				}
			}
			s := &c21src{name: fmt.Sprint("source ", k)}
			var m interface{}
			switch r.Intn(4) {
			case 0:
				s.kind = "dist"
				m = newAdist(tr.NewArbitraryBucketer(1), true).spec
			case 1:
				s.kind = "list"
				m = tr.NewList([]int64{int64(k)}, false)
			default:
				s.kind = "group"
				s.grp = tr.NewGroup()
				m = &s.val
			}
			for j := 1 + r.Intn(2); j > 0; j-- {
				p := fmt.Sprintf("/t/w%d/m%d", r.Intn(20), len(srcOf))
				var err error
				err = regVia(r, p, m, s.grp, units.None, "")
				if err != nil {
					c.Violate("refused", p, "%v", err)
				}
				srcOf[p] = s
			}
		}
		cl := newRPC()
		for _, iface := range []string{"rpc", "json", "read"} {
			obs, err := c21fetch(iface, "/t", cl)
			if err != nil || len(obs) != len(srcOf) {
				c.Violate("failed", nil, "%s: %d metrics of %d: %v", iface, len(obs), len(srcOf), err)
			}
			c21check(c, iface, obs, srcOf)
			c.Case(fmt.Sprint("wide", i, iface))
			c.Count("sources_in_wide_responses", int64(n))
		}
		cl.Close()
		clearRoot("t")
	}
}
