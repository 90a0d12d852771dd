package main

import (
	"fmt"
	"math/rand"
	"net/rpc"
	"sort"
	"strings"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C09"] = c09 }

// genMany returns metrics at distinct paths under base which register.
func genMany(c *Ctx, r randT, base string, n int, o genOpt) []*gm {
	used := map[string]bool{}
	dirs := map[string]bool{}
	var res []*gm
	var huge *gm
	if o.large && r.Intn(150) == 0 {
		// a large tree, and a large response
		n = 150 + r.Intn(400)
		v := strings.Repeat(pick(r, []string{"x", "ab ", "é<"}), 1<<20)
		huge = &gm{Spec: &v, Kind: types.String, Class: "string", Form: "*string (huge)"}
		huge.Cur = func() interface{} { return v }
		huge.Set = func(r *rand.Rand) { v = v[3:] + "abc" }
	}
	for len(res) < n {
		var g *gm
		switch x := r.Intn(4); {
		case huge != nil && r.Intn(20) == 0:
			g, huge = huge, nil
		case x == 0:
			g = genList(r, o)
		default:
			g = genScalar(r, o)
		}
		var path string
		for {
			path = base
			for d := r.Intn(3); d >= 0; d-- {
				path += "/" + pick(r, genNames)
				if r.Intn(3) == 0 {
					path += fmt.Sprint(r.Intn(50))
				}
			}
			ok := !used[path] && !dirs[path]
			for p := path; ok && len(p) > len(base); {
				p = p[:strings.LastIndex(p, "/")]
				if used[p] {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		used[path] = true
		for p := path; len(p) > len(base); {
			p = p[:strings.LastIndex(p, "/")]
			dirs[p] = true
		}
		g.Path = path
		g.Unit = pick(r, allUnits)
		g.Desc = genString(r, genOpt{validUTF8: o.validUTF8, plainStrings: o.plainStrings})
		res = append(res, g)
	}
	return res
}

// lessPath orders metrics as a depth first listing does.
func lessPath(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

func sortGm(gs []*gm) {
	sort.Slice(gs, func(i, j int) bool { return lessPath(gs[i].Path, gs[j].Path) })
}

// compareLists checks a listing against the expected metrics.
func compareLists(ml messages.MetricList, want []*gm) string {
	for i := 0; i < len(ml) || i < len(want); i++ {
		if i >= len(ml) {
			return fmt.Sprintf("%d metrics, missing %s", len(ml), want[i])
		}
		if i >= len(want) {
			return fmt.Sprintf("%d metrics, extra %q", len(ml), ml[i].Path)
		}
		if d := want[i].diffRPC(ml[i], want[i].Path); d != "" {
			return fmt.Sprintf("%s: %s", want[i], d)
		}
	}
	return ""
}

func under(gs []*gm, path string) (res []*gm) {
	for _, g := range gs {
		if g.Path == path || path == "" || strings.HasPrefix(g.Path, path+"/") {
			res = append(res, g)
		}
	}
	return
}

func c09(c *Ctx) {
	c.rule = "a case is one read (ListMetrics, GetMetric or ReadMyMetrics) of one metric over a real gob RPC connection, compared with the value the program holds; distinct by form, kind, unit and value"
	defer c.keep()()
	cl := newRPC()
	defer cl.Close()
	defer c.otherClients("rpc", "rpc", "rpcget", "rpcget", "read", "rpcmissing")()
	rounds := c.N(3000, 40000)
	if c.Race() {
		rounds /= 40
	}
	for i := 0; i < rounds; i++ {
		c09Round(c, cl, i)
	}
	c09Dist(c, cl)
	c09NotFound(c, cl)
}

func c09Round(c *Ctx, cl *rpc.Client, i int) {
	r := c.Sub("round", i)
	base := genBase(r)
	gs := genMany(c, r, base, 1+r.Intn(25), genOpt{large: true})
	defer clearTops(gmPaths(gs))
	for _, g := range gs {
		if err := g.register(); err != nil {
			c.Violate("refused", g.String(), "RegisterMetric refused %s: %v", g, err)
		}
	}
	sortGm(gs)
	for step := 0; step < 4; step++ {
		if step > 0 {
			for _, g := range gs {
				if r.Intn(2) == 0 {
					g.Set(r)
				}
			}
		}
		paths := []string{base, strings.TrimPrefix(base, "/"), base + "/"}
		for j := 0; j < 3; j++ {
			p := pick(r, gs).Path
			for k := r.Intn(3); k > 0; k-- {
				p = p[:strings.LastIndex(p, "/")]
				if p == "" {
					p = "/"
				}
			}
			paths = append(paths, p)
		}
		for _, p := range paths {
			at := "/" + strings.Trim(p, "/")
			want := gs
			if at != "/" {
				want = under(gs, at)
			}
			ml, err := rpcList(cl, p)
			if err != nil {
				c.Violate("list-error", p, "ListMetrics(%q) failed: %v", p, err)
				return
			}
			if d := compareLists(notBuiltIn(ml), want); d != "" {
				c.Violate("list-differs", d, "ListMetrics(%q): %s", p, d)
			}
			mine := tr.ReadMyMetrics(p)
			if d := compareLists(notBuiltIn(mine), want); d != "" {
				c.Violate("read-differs", d, "ReadMyMetrics(%q): %s", p, d)
			}
			for _, g := range want {
				c.Case(fmt.Sprint("l", g.Form, g.Unit, g.Cur()))
			}
		}
		for _, g := range gs {
			if r.Intn(3) > 0 && step > 0 {
				continue
			}
			m, err := rpcGet(cl, g.Path)
			if err != nil {
				c.Violate("get-error", g.String(), "GetMetric(%s) failed: %v", g, err)
				return
			}
			if d := g.diffRPC(m, g.Path); d != "" {
				c.Violate("get-differs", g.String(), "GetMetric(%s): %s", g, d)
			}
			c.Case(fmt.Sprint("g", g.Form, g.Unit, g.Cur()))
		}
	}
	if c.WantSample() {
		c.Sample(map[string]interface{}{"metrics": len(gs), "first": gs[0].String(), "last": gs[len(gs)-1].String()})
	}
	c.Count("metrics_registered", int64(len(gs)))
}

// c09Dist checks kind and metadata of distributions; C05 checks their values.
func c09Dist(c *Ctx, cl *rpc.Client) {
	for i := 0; i < c.N(1200, 8000); i++ {
		r := c.Sub("dist", i)
		u := pick(r, allUnits)
		desc := genString(r, genOpt{})
		n := r.Intn(6)
		var ends []float64
		for j := 0; j < 1+r.Intn(4); j++ {
			ends = append(ends, float64(j*10))
		}
		var spec interface{}
		non := r.Intn(2) == 0
		if non {
			d := tr.NewArbitraryBucketer(ends...).NewNonCumulativeDistribution()
			spec = d
			if err := tr.RegisterMetric("/t/d", spec, u, desc); err != nil {
				c.Violate("refused", fmt.Sprintf("%T", spec), "RegisterMetric refused a distribution: %v", err)
			}
			for j := 0; j < n; j++ {
				d.Add(float64(j))
			}
		} else {
			d := tr.NewArbitraryBucketer(ends...).NewCumulativeDistribution()
			spec = d
			if err := tr.RegisterMetric("/t/d", spec, u, desc); err != nil {
				c.Violate("refused", fmt.Sprintf("%T", spec), "RegisterMetric refused a distribution: %v", err)
			}
			for j := 0; j < n; j++ {
				d.Add(float64(j))
			}
		}
		g := &gm{Path: "/t/d", Unit: u, Desc: desc, Kind: types.Dist, Form: fmt.Sprintf("%T", spec), Cur: func() interface{} { return nil }}
		m, err := rpcGet(cl, "/t/d")
		if err != nil {
			c.Violate("get-error", g.String(), "GetMetric of a distribution failed: %v", err)
			return
		}
		ml, err := rpcList(cl, "/t")
		if err != nil || len(ml) != 1 {
			c.Violate("list-error", g.String(), "ListMetrics of a distribution: %d metrics, %v", len(ml), err)
			return
		}
		for _, m := range []*messages.Metric{m, ml[0]} {
			if d := g.diffRPC(m, "/t/d"); d != "" {
				c.Violate("dist-differs", g.String(), "distribution: %s", d)
			}
			d, ok := m.Value.(*messages.Distribution)
			if !ok {
				c.Violate("dist-type", g.String(), "value of a distribution is a %T", m.Value)
			}
			if d.Count != uint64(n) || d.IsNotCumulative != non || len(d.Ranges) != len(ends)+1 || d.Generation != uint64(n) {
				c.Violate("dist-value", g.String(), "distribution of %d values in %d ranges reported as %+v", n, len(ends)+1, *d)
			}
			for j := range ends {
				if d.Ranges[j].Upper != ends[j] || d.Ranges[j+1].Lower != ends[j] {
					c.Violate("dist-value", g.String(), "range %d is %+v next %+v, endpoints %v", j, *d.Ranges[j], *d.Ranges[j+1], ends)
				}
			}
		}
		c.Case(fmt.Sprint("d", u, desc, n, ends, non))
		clearRoot("t")
	}
}

func c09NotFound(c *Ctx, cl *rpc.Client) {
	x := int64(5)
	if err := tr.RegisterMetric("/t/dir/m", &x, units.None, ""); err != nil {
		c.Violate("refused", nil, "%v", err)
	}
	defer clearRoot("t")
	for _, p := range []string{"", "/", "//", "/t", "t", "/t/dir", "/t/dir/", "/t/dir/m/x", "/t/dir/n", "/nope", "/t/nope/m", " ", "/t/ /dir", "t//dir", "/t/dir/M", "/t/dir/m "} {
		m, err := rpcGet(cl, p)
		if err == nil {
			c.Violate("get-found", p, "GetMetric(%q) found %+v", p, *m)
			continue
		}
		if err.Error() != messages.ErrMetricNotFound.Error() {
			c.Violate("get-error-kind", p, "GetMetric(%q): %v", p, err)
		}
		c.Case("nf" + p)
	}
	for _, p := range []string{"/t/dir/m/x", "/t/dir/n", "/nope", "/t/nope/m", "/t/dir/m /"} {
		ml, err := rpcList(cl, p)
		if err != nil || len(ml) != 0 {
			c.Violate("list-nothing", p, "ListMetrics(%q) = %d metrics, %v", p, len(ml), err)
		}
		mine := tr.ReadMyMetrics(p)
		if len(mine) != 0 {
			c.Violate("read-nothing", p, "ReadMyMetrics(%q) = %d metrics", p, len(mine))
		}
		c.Case("ln" + p)
	}
	for _, p := range []string{"/t/dir/m", "t/dir/m", "//t//dir//m//", "/t/ /dir/\t/m", "t/dir/m/"} {
		m, err := rpcGet(cl, p)
		if err != nil || m.Path != "/t/dir/m" || m.Value != int64(5) {
			c.Violate("get-spelling", p, "GetMetric(%q) = %+v, %v", p, m, err)
		}
		c.Case("sp" + p)
	}
	// values as they are at the time of each call
	last := time.Now()
	calls := 0
	tr.RegisterMetric("/t/now", func() time.Time { calls++; last = time.Now(); return last }, units.None, "")
	for i := 0; i < 50; i++ {
		before := time.Now()
		m, err := rpcGet(cl, "/t/now")
		if err != nil {
			c.Violate("get-error", nil, "%v", err)
			return
		}
		v := m.Value.(time.Time)
		if v.Before(before.Round(0)) || v.After(time.Now()) {
			c.Violate("stale", nil, "callback value %v is not of this request (%v)", v, before)
		}
		c.Case("")
	}
}
