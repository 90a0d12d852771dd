package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C02"] = c02 }

type c02in struct {
	key string
	op  string
	id  int64             // of the metric to register
	dir *tr.DirectorySpec // to unregister
}

type c02out struct {
	err string
	id  int64 // read: id of the metric found, 0 if none
	dir *tr.DirectorySpec
}

type c02st struct {
	id  int64 // metric
	dir *tr.DirectorySpec
}

var c02model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(c02in).key
			m[k] = append(m[k], o)
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var res [][]porcupine.Operation
		for _, k := range ks {
			res = append(res, m[k])
		}
		return res
	},
	Init: func() interface{} { return c02st{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		s, in, out := state.(c02st), input.(c02in), output.(c02out)
		empty := s.id == 0 && s.dir == nil
		switch in.op {
		case "metric":
			if empty {
				return out.err == "", c02st{id: in.id}
			}
			return out.err == "inuse", s
		case "mkdir":
			switch {
			case empty:
				return out.err == "" && out.dir != nil, c02st{dir: out.dir}
			case s.dir != nil:
				return out.err == "" && out.dir == s.dir, s
			}
			return out.err == "inuse", s
		case "getdir":
			switch {
			case empty:
				return out.err == "notfound", s
			case s.dir != nil:
				return out.err == "" && out.dir == s.dir, s
			}
			return out.err == "inuse", s
		case "unreg":
			return true, c02st{}
		case "unregdir":
			if s.dir != nil && s.dir == in.dir {
				return true, c02st{}
			}
			return true, s
		case "read":
			return out.id == s.id, s
		}
		return false, s
	},
	DescribeOperation: func(input, output interface{}) string {
		in, out := input.(c02in), output.(c02out)
		return fmt.Sprintf("%s %s id=%d dir=%p -> err=%q id=%d dir=%p", in.op, in.key, in.id, in.dir, out.err, out.id, out.dir)
	},
}

func errName(err error) string {
	switch err {
	case nil:
		return ""
	case tr.ErrPathInUse:
		return "inuse"
	case tr.ErrNotFound:
		return "notfound"
	case tr.ErrWrongUnit:
		return "unit"
	case tr.ErrWrongType:
		return "type"
	}
	return err.Error()
}

// barrier releases n goroutines as simultaneously as it can.
type barrier struct {
	n    int32
	left int32
}

func newBarrier(n int) *barrier { return &barrier{int32(n), int32(n)} }
func (b *barrier) wait() {
	atomic.AddInt32(&b.left, -1)
	for atomic.LoadInt32(&b.left) > 0 {
		runtime.Gosched()
	}
}

func describe(ops []porcupine.Operation, m porcupine.Model) []string {
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var res []string
	for i, o := range ops {
		if i > 300 {
			break
		}
		res = append(res, fmt.Sprintf("[%d %d] c%d %s", o.Call, o.Return, o.ClientId, m.DescribeOperation(o.Input, o.Output)))
	}
	return res
}

// overlaps counts pairs of calls of different clients that overlapped.
func overlaps(ops []porcupine.Operation) (n int64) {
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	for i := range ops {
		for j := i + 1; j < len(ops) && ops[j].Call < ops[i].Return; j++ {
			if ops[i].ClientId != ops[j].ClientId {
				n++
			}
		}
	}
	return
}

func c02(c *Ctx) {
	c.rule = "a case is one concurrent history checked for linearizability, one listing checked against the life spans of the metrics, or one set of racing registrations; distinct by the observed order of calls and outcomes"
	n := c.N(5000, 80000)
	if c.Race() {
		n = c.N(1000, 16000)
	}
	for i := 0; i < n; i++ {
		c02Linear(c, i)
	}
	for i := 0; i < n; i++ {
		c02Race(c, i)
	}
	for i := 0; i < n/8+1; i++ {
		c02List(c, i)
	}
}

func c02Linear(c *Ctx, i int) {
	r := c.Sub("lin", i)
	defer clearRoot("t")
	base := "/t"
	if r.Intn(2) == 0 {
		base = "/t/sub/dir"
	}
	bd, err := tr.RegisterDirectory(base)
	if err != nil {
		c.Violate("mkdir", base, "RegisterDirectory(%q): %v", base, err)
		return
	}
	ng := 2 + r.Intn(5)
	nk := 1 + r.Intn(2)
	nops := 6 + r.Intn(8)
	hist := make([][]porcupine.Operation, ng)
	var wg sync.WaitGroup
	bar := newBarrier(ng)
	for g := 0; g < ng; g++ {
		wg.Add(1)
		gr := c.Sub("lin", i, "g", g)
		go func(g int) {
			defer wg.Done()
			defer c.Guard("panic", base)
			cl := newRPC()
			defer cl.Close()
			var mine []c02in
			bar.wait()
			for k := 0; k < nops; k++ {
				key := fmt.Sprint("k", gr.Intn(nk))
				path := base + "/" + key
				in := c02in{key: key}
				var out c02out
				switch x := gr.Intn(12); {
				case x < 4:
					in.op, in.id = "metric", int64(g+1)*1000+int64(k)
					v := in.id
					viaDir := gr.Intn(2) == 0
					t0 := now()
					var err error
					if viaDir {
						err = bd.RegisterMetric(key, &v, units.None, "")
					} else {
						err = tr.RegisterMetric(path, &v, units.None, "")
					}
					t1 := now()
					out.err = errName(err)
					hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
					continue
				case x < 6:
					in.op = "mkdir"
					t0 := now()
					var err error
					if gr.Intn(2) == 0 {
						out.dir, err = bd.RegisterDirectory(key)
					} else {
						out.dir, err = tr.RegisterDirectory(path)
					}
					t1 := now()
					out.err = errName(err)
					if out.err == "" {
						mine = append(mine, c02in{key: key, op: "unregdir", dir: out.dir})
					}
					hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
				case x < 7:
					in.op = "getdir"
					t0 := now()
					d, err := tr.GetDirectory(path)
					t1 := now()
					out.dir, out.err = d, errName(err)
					if d != nil {
						mine = append(mine, c02in{key: key, op: "unregdir", dir: d})
					}
					hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
				case x < 9:
					in.op = "unreg"
					t0 := now()
					if gr.Intn(2) == 0 {
						bd.UnregisterPath(key)
					} else {
						tr.UnregisterPath(path)
					}
					t1 := now()
					hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
				case x < 10:
					if len(mine) == 0 {
						continue
					}
					in = pick(gr, mine)
					t0 := now()
					in.dir.UnregisterDirectory()
					t1 := now()
					hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
				default:
					in.op = "read"
					t0 := now()
					var t1 int64
					if gr.Intn(2) == 0 {
						m, err := rpcGet(cl, path)
						t1 = now()
						if err == nil {
							out.id = m.Value.(int64)
						} else if err.Error() != messages.ErrMetricNotFound.Error() {
							out.err = err.Error()
							c.Violate("read-error", path, "GetMetric(%q): %v", path, err)
						}
					} else {
						ml := tr.ReadMyMetrics(path)
						t1 = now()
						if len(ml) > 1 {
							c.Violate("read-many", path, "ReadMyMetrics(%q) returned %d metrics", path, len(ml))
						}
						if len(ml) == 1 {
							out.id = ml[0].Value.(int64)
						}
					}
					hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: t0, Output: out, Return: t1})
				}
			}
		}(g)
	}
	wg.Wait()
	var ops []porcupine.Operation
	for _, h := range hist {
		ops = append(ops, h...)
	}
	res := porcupine.CheckOperationsTimeout(c02model, ops, 20*time.Second)
	switch res {
	case porcupine.Illegal:
		c.Violate("not-linearizable", describe(ops, c02model), "no one-at-a-time order explains the outcomes of %d concurrent calls", len(ops))
	case porcupine.Unknown:
		c.Count("undecided_histories", 1)
	}
	c.Count("linearized_calls", int64(len(ops)))
	c.Count("overlapping_call_pairs", overlaps(ops))
	d := describe(ops, c02model)
	if c.WantSample() && len(d) > 4 {
		c.Sample(d[:4])
	}
	c.Case(strings.Join(orderOf(ops), ";"))
}

// orderOf identifies a history by the order of its calls and returns.
func orderOf(ops []porcupine.Operation) []string {
	type ev struct {
		t int64
		s string
	}
	var evs []ev
	for _, o := range ops {
		in, out := fmt.Sprint(o.Input), fmt.Sprint(o.Output)
		if x, ok := o.Input.(c02in); ok {
			in, out = x.op+x.key, o.Output.(c02out).err
		}
		evs = append(evs, ev{o.Call, fmt.Sprint("c", o.ClientId, in)}, ev{o.Return, fmt.Sprint("r", o.ClientId, out)})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	res := make([]string, len(evs))
	for i := range evs {
		res[i] = evs[i].s
	}
	return res
}

// c02Race races registrations under directories that do not exist yet, and
// for one path.
func c02Race(c *Ctx, i int) {
	r := c.Sub("race", i)
	defer clearRoot("t")
	ng := 2 + r.Intn(7)
	segs := make([]string, 1+r.Intn(4))
	for j := range segs {
		segs[j] = fmt.Sprint("d", j)
	}
	dir := "/t/" + strings.Join(segs, "/")
	var base *tr.DirectorySpec
	if r.Intn(3) == 0 {
		base, _ = tr.RegisterDirectory("/t")
	}
	bar := newBarrier(ng)
	errs := make([]error, ng)
	ferrs := make([]error, ng)
	dirs := make([]*tr.DirectorySpec, ng)
	var wg sync.WaitGroup
	kind := r.Intn(4)
	for g := 0; g < ng; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer c.Guard("panic", dir)
			v := int64(g)
			bar.wait()
			own := fmt.Sprint(dir, "/m", g)
			switch {
			case base != nil:
				errs[g] = base.RegisterMetric(strings.Join(segs, "/")+fmt.Sprint("/m", g), &v, units.None, "")
			case kind == 0:
				d, err := tr.RegisterDirectory(dir)
				dirs[g] = d
				errs[g] = err
				if err == nil {
					errs[g] = d.RegisterMetric(fmt.Sprint("m", g), &v, units.None, "")
				}
			default:
				errs[g] = tr.RegisterMetric(own, &v, units.None, "")
			}
			ferrs[g] = tr.RegisterMetric(dir+"/first", &v, units.None, "")
		}(g)
	}
	wg.Wait()
	got := map[string]int64{}
	ml := tr.ReadMyMetrics("/t")
	for _, m := range ml {
		if _, dup := got[m.Path]; dup {
			c.Violate("twice", dir, "%q reported twice", m.Path)
		}
		got[m.Path] = m.Value.(int64)
	}
	winners := 0
	for g := 0; g < ng; g++ {
		if errs[g] != nil {
			c.Violate("lost", dir, "concurrent registration of %s/m%d failed: %v", dir, g, errs[g])
		}
		p := fmt.Sprint(dir, "/m", g)
		if v, ok := got[p]; !ok || v != int64(g) {
			c.Violate("lost", map[string]interface{}{"goroutines": ng, "reported": fmt.Sprint(got)}, "metric %q registered concurrently with %d others is not reported (%v %v)", p, ng-1, v, ok)
		}
		switch ferrs[g] {
		case nil:
			winners++
			if v := got[dir+"/first"]; v != int64(g) {
				c.Violate("winner", dir, "registration %d succeeded but %d is reported", g, v)
			}
		case tr.ErrPathInUse:
		default:
			c.Violate("winner", dir, "registration of a path in use: %v", ferrs[g])
		}
		if dirs[g] != nil && dirs[g].AbsPath() != dir {
			c.Violate("handle", dir, "RegisterDirectory returned a handle of %q", dirs[g].AbsPath())
		}
	}
	if winners != 1 {
		c.Violate("winners", dir, "%d of %d concurrent registrations of one path succeeded", winners, ng)
	}
	if len(got) != ng+1 {
		c.Violate("extra", dir, "%d metrics reported, %d registered", len(got), ng+1)
	}
	c.Count("racing_registrations", int64(2*ng))
	c.Case(fmt.Sprint("race", ng, len(segs), kind, base != nil, got[dir+"/first"]))
}

type c02life struct {
	path                       string
	id                         int64
	regS, regE, unregS, unregE int64
	dirUnreg                   bool
}

// c02List checks listings that run during registrations and removals.
func c02List(c *Ctx, i int) {
	r := c.Sub("list", i)
	defer clearRoot("t")
	var ids int64
	var mu sync.Mutex
	var lives []*c02life
	names := []string{"a", "b", "b/c", "b/d", "e/f", "g"}
	// stable metrics next to what changes
	stable := []string{"a", "b", "b/c", "e/f", "z"}
	if i%10 == 0 {
		// a directory with many entries
		for k := 0; k < 150+r.Intn(200); k++ {
			stable = append(stable, fmt.Sprintf("g/x%03d", k))
		}
	}
	for _, n := range stable {
		ids++
		id := ids
		v := id
		l := &c02life{path: "/t/" + n + "/stable", id: id, regS: now(), unregS: 1 << 62, unregE: 1 << 62}
		if err := tr.RegisterMetric(l.path, &v, units.None, ""); err != nil {
			c.Violate("refused", l.path, "%v", err)
		}
		l.regE = now()
		lives = append(lives, l)
	}
	ng := 2 + r.Intn(4)
	nl := 1 + r.Intn(3)
	steps := 60
	var wg, lwg sync.WaitGroup
	var stop int32
	mine := make([][]*c02life, ng)
	bar := newBarrier(ng + nl)
	for g := 0; g < ng; g++ {
		wg.Add(1)
		gr := c.Sub("list", i, "g", g)
		go func(g int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			bar.wait()
			var open []*c02life
			for k := 0; k < steps; k++ {
				if len(open) > 0 && gr.Intn(2) == 0 {
					j := gr.Intn(len(open))
					l := open[j]
					open = append(open[:j], open[j+1:]...)
					l.unregS = now()
					tr.UnregisterPath(l.path)
					l.unregE = now()
					continue
				}
				id := int64(g+1)*100000 + int64(k)
				v := id
				l := &c02life{path: fmt.Sprint("/t/", pick(gr, names), "/m", g, "-", gr.Intn(3)), id: id}
				taken := false
				for _, o := range open {
					taken = taken || o.path == l.path
				}
				l.regS = now()
				err := tr.RegisterMetric(l.path, &v, units.None, "")
				l.regE = now()
				l.unregS, l.unregE = 1<<62, 1<<62
				if err != nil {
					if !taken || err != tr.ErrPathInUse {
						c.Violate("refused", l.path, "registration of free path %q: %v", l.path, err)
					}
					continue
				}
				if taken {
					c.Violate("double", l.path, "registration of used path %q succeeded", l.path)
				}
				open = append(open, l)
				mine[g] = append(mine[g], l)
			}
		}(g)
	}
	type listing struct {
		s, e  int64
		how   string
		under string // only metrics of which the path begins so
		flat  bool   // and only those directly there
		got   []*messages.Metric
	}
	var ls []listing
	for g := 0; g < nl; g++ {
		lwg.Add(1)
		gr := c.Sub("list", i, "l", g)
		go func() {
			defer lwg.Done()
			defer c.Guard("panic", nil)
			cl := newRPC()
			defer cl.Close()
			bar.wait()
			for n := 0; n < 400 && atomic.LoadInt32(&stop) == 0; n++ {
				var l listing
				dir := pick(gr, []string{"/t", "/t", "/t", "/t/b", "/t/b/c", "/t/g"})
				l.under = dir + "/"
				l.s = now()
				switch gr.Intn(6) {
				case 5:
					l.how, l.flat = "html", true
					rs, err := readInts("html", dir, nil)
					l.e = now()
					if err != nil {
						c.Violate("html", nil, "%v", err)
					}
					for _, x := range rs {
						l.got = append(l.got, &messages.Metric{Path: x.path, Value: x.val})
					}
				case 0:
					l.how = "ListMetrics"
					ml, err := rpcList(cl, dir)
					l.e = now()
					if err != nil {
						c.Violate("rpc", nil, "ListMetrics: %v", err)
					}
					l.got = ml
				case 1:
					l.how = "JSON"
					jl, err := jsonList(dir)
					l.e = now()
					if err != nil {
						c.Violate("json", nil, "%v", err)
					}
					for _, j := range jl {
						var v int64
						fmt.Sscan(string(j.Value), &v)
						l.got = append(l.got, &messages.Metric{Path: j.Path, Value: v})
					}
				case 2:
					l.how = "text"
					t := textPage(dir)
					l.e = now()
					if t == "" || strings.HasPrefix(t, "*Path does not exist") {
						break
					}
					for _, line := range strings.Split(strings.TrimSuffix(t, "\n"), "\n") {
						var p string
						var v int64
						if n, _ := fmt.Sscan(line, &p, &v); n != 2 {
							c.Violate("text", t, "bad line %q", line)
						}
						l.got = append(l.got, &messages.Metric{Path: p, Value: v})
					}
				default:
					l.how = "ReadMyMetrics"
					l.got = tr.ReadMyMetrics(dir)
					l.e = now()
				}
				mu.Lock()
				ls = append(ls, l)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	lwg.Wait()
	for _, m := range mine {
		lives = append(lives, m...)
	}
	byID := map[int64]*c02life{}
	for _, l := range lives {
		byID[l.id] = l
	}
	for _, l := range ls {
		seen := map[int64]bool{}
		last := ""
		for _, m := range l.got {
			id := m.Value.(int64)
			f := byID[id]
			if f == nil || f.path != m.Path || !strings.HasPrefix(m.Path, l.under) {
				c.Violate("phantom", m.Path, "%s reports %q with value %d which was never registered so", l.how, m.Path, id)
				continue
			}
			if seen[id] {
				c.Violate("twice", m.Path, "%s reports %q twice", l.how, m.Path)
			}
			seen[id] = true
			if last != "" && !lessPath(last, m.Path) {
				c.Violate("order", m.Path, "%s reports %q after %q", l.how, m.Path, last)
			}
			last = m.Path
			if f.regS > l.e || f.unregE < l.s {
				c.Violate("ghost", fmt.Sprintf("%+v listing [%d %d]", *f, l.s, l.e), "%s reports %q although it was not registered at any time during the listing", l.how, m.Path)
			}
		}
		for _, f := range lives {
			if !strings.HasPrefix(f.path, l.under) || l.flat && strings.Contains(f.path[len(l.under):], "/") {
				continue
			}
			if f.regE < l.s && f.unregS > l.e && !seen[f.id] {
				c.Violate("missed", fmt.Sprintf("%+v listing [%d %d]", *f, l.s, l.e), "%s omits %q although it was registered all through the listing", l.how, f.path)
			}
		}
		c.Count("listings", 1)
		c.Case(fmt.Sprint(l.how, len(l.got), hash(seen)))
	}
	c.Count("lives", int64(len(lives)))
}
