package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"net/rpc"
	"sort"
	"strings"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C15"] = c15 }

var nonFinites = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}

func isNonFinite(f float64) bool { return math.IsNaN(f) || math.IsInf(f, 0) }

// finite tells whether a metric's current value has only finite numbers.
func (g *gm) finite() bool {
	switch v := g.Cur().(type) {
	case float64:
		return !isNonFinite(v)
	case float32:
		return !isNonFinite(float64(v))
	case []float64:
		for _, x := range v {
			if isNonFinite(x) {
				return false
			}
		}
	case []float32:
		for _, x := range v {
			if isNonFinite(float64(x)) {
				return false
			}
		}
	}
	return true
}

// c15kind tells what a listing owes a path: "must" (finite), "absent" (a single
// value that is not finite), "free" (lists, distributions and values that flip).
type c15world struct {
	c    *Ctx
	gs   map[string]*gm
	free map[string]bool
}

func (w *c15world) kind(p string) string {
	if w.free[p] {
		return "free"
	}
	g := w.gs[p]
	switch {
	case g == nil:
		return "unknown"
	case g.finite():
		return "must"
	case g.Kind == types.List:
		return "free"
	}
	return "absent"
}

// check compares the paths found in one listing, given in order, with what is owed.
func (w *c15world) check(iface, dir string, deep bool, found []string, same func(i int, g *gm) string) {
	c := w.c
	seen := map[string]bool{}
	for i, p := range found {
		if builtIn(p) {
			continue
		}
		if seen[p] {
			c.Violate("twice", w.describe(), "%s listing of %q has %q twice", iface, dir, p)
		}
		seen[p] = true
		switch w.kind(p) {
		case "unknown":
			c.Violate("extra", w.describe(), "%s listing of %q has unknown %q", iface, dir, p)
		case "must":
			if s := same(i, w.gs[p]); s != "" {
				c.Violate("value", w.describe(), "%s listing of %q: %s: %s", iface, dir, w.gs[p], s)
			}
			c.Case(fmt.Sprint(iface, w.gs[p].Form, w.gs[p].Cur()))
		case "absent":
			if iface != "html" {
				c.Violate("not-left-out", w.describe(), "%s listing of %q has %s", iface, dir, w.gs[p])
			}
		}
	}
	for p, g := range w.gs {
		if !strings.HasPrefix(p, dir+"/") && p != dir || w.kind(p) != "must" {
			if w.kind(p) == "absent" {
				c.Count("nonfinite_left_out", 1)
			}
			continue
		}
		if !deep && strings.Contains(strings.TrimPrefix(p, dir+"/"), "/") {
			continue
		}
		if !seen[p] {
			c.Violate("hidden", w.describe(), "%s listing of %q lacks %s", iface, dir, g)
		}
	}
}

func (w *c15world) describe() (res []string) {
	for p, g := range w.gs {
		res = append(res, p+" "+w.kind(p)+" "+g.String())
	}
	return
}

func (w *c15world) all(cl *rpc.Client, dir string) {
	c := w.c
	rpcCheck := func(iface string, ml messages.MetricList) {
		var found []string
		for _, m := range ml {
			found = append(found, m.Path)
		}
		w.check(iface, dir, true, found, func(i int, g *gm) string { return g.diffRPC(ml[i], g.Path) })
	}
	ml, err := rpcList(cl, dir)
	if err != nil {
		c.Violate("rpc-fails", w.describe(), "ListMetrics(%q) failed: %v", dir, err)
	}
	rpcCheck("rpc", ml)
	rpcCheck("read", tr.ReadMyMetrics(dir))
	for _, gz := range []bool{false, true} {
		var hdr []string
		if gz {
			hdr = []string{"Accept-Encoding", "gzip"}
		}
		jl, err := jsonList(dir, hdr...)
		if err != nil {
			c.Violate("json-fails", w.describe(), "JSON listing of %q (gzip %v): %v", dir, gz, err)
		}
		var found []string
		for _, j := range jl {
			found = append(found, j.Path)
			if !json.Valid(j.Value) {
				c.Violate("json-value", string(j.Value), "JSON listing of %q: value of %q is %s", dir, j.Path, j.Value)
			}
		}
		w.check("json", dir, true, found, func(i int, g *gm) string {
			if g.Kind == types.List {
				return sameJSON(jl[i].Value, g.Cur(), "", g.Unit)
			}
			return sameJSONValue(jl[i].Value, g.Cur(), g.Unit)
		})
	}
	if _, isMetric := w.gs[dir]; isMetric || w.free[dir] {
		return
	}
	page := textPage(dir)
	var found, vals []string
	for _, line := range strings.Split(strings.TrimSuffix(page, "\n"), "\n") {
		best := ""
		for p := range w.gs {
			if strings.HasPrefix(line, p+" ") && len(p) > len(best) {
				best = p
			}
		}
		for p := range w.free {
			if strings.HasPrefix(line, p+" ") && len(p) > len(best) {
				best = p
			}
		}
		if best == "" {
			if line == "" && page == "" || builtIn(line) {
				continue
			}
			c.Violate("text-line", page, "text page of %q has line %q", dir, line)
		}
		found = append(found, best)
		vals = append(vals, line[len(best)+1:])
	}
	w.check("text", dir, true, found, func(i int, g *gm) string {
		if !g.textLine(vals[i]) {
			return fmt.Sprintf("shown as %q", vals[i])
		}
		return ""
	})
	hw := get(urlFor("/metrics", dir))
	items, err := parsePage(hw.Body.String())
	if hw.Code != 200 || err != nil {
		c.Violate("html-fails", hw.Body.String(), "HTML page of %q: status %d, %v", dir, hw.Code, err)
	}
	found = nil
	var shown []*hitem
	for _, it := range items {
		if it.kind == "link" {
			continue
		}
		best := ""
		for p := range w.gs {
			if q := squeeze(p); (squeeze(it.text) == q || strings.HasPrefix(squeeze(it.text), q+" ")) && len(p) > len(best) {
				best = p
			}
		}
		for p := range w.free {
			if q := squeeze(p); (squeeze(it.text) == q || strings.HasPrefix(squeeze(it.text), q+" ")) && len(p) > len(best) {
				best = p
			}
		}
		if best == "" {
			c.Violate("html-item", it.text, "HTML page of %q has %q", dir, it.text)
		}
		found = append(found, best)
		shown = append(shown, it)
	}
	w.check("html", dir, false, found, func(i int, g *gm) string { return checkItem(shown[i], g.Path, w.gs, nil) })
}

func c15(c *Ctx) {
	c.rule = "a case is one finite metric found with its value in a listing (RPC, in process, JSON, gzipped JSON, text or HTML) of a directory that also holds non-finite ones; distinct by interface, form and value"
	cl := newRPC()
	defer cl.Close()
	defer c.otherClients("rpc", "read", "json", "jsongz", "text", "html")()
	rounds := c.N(2000, 30000)
	if c.Race() {
		rounds /= 40
	}
	for i := 0; i < rounds; i++ {
		c15Round(c, cl, i)
	}
}

func c15Round(c *Ctx, cl *rpc.Client, i int) {
	r := c.Sub("round", i)
	o := genOpt{plainStrings: true, validUTF8: true, nonFinite: true}
	w := &c15world{c: c, gs: map[string]*gm{}, free: map[string]bool{}}
	base := genBase(r)
	var all []string
	defer func() { clearTops(all) }()
	gs := genMany(c, r, base, 2+r.Intn(10), o)
	// values sure not to be finite, at paths that come first and last
	for k := 0; k < 1+r.Intn(3); k++ {
		kk := kinds[9+r.Intn(2)]
		g := kk.genMetric(r, o)
		g.Path = fmt.Sprintf("%s/%s%d/f", base, pick(r, []string{"", "zz", "m"}), k)
		g.Unit = pick(r, allUnits)
		gs = append(gs, g)
	}
	if r.Intn(2) == 0 {
		fs := flag.NewFlagSet("x", flag.ContinueOnError)
		p := fs.Float64("f", pick(r, nonFinites), "")
		g := &gm{Path: base + "/flag-f", Spec: fs.Lookup("f").Value, Kind: types.Float64, Class: "float", Bits: 64, Form: "flag float64", Unit: units.None}
		g.Cur = func() interface{} { return *p }
		g.Set = func(r randT) { fs.Set("f", pick(r, []string{"NaN", "1.5", "+Inf", "-2"})) }
		gs = append(gs, g)
	}
	shown := map[string]bool{} // as HTML shows white space
	for _, g := range gs {
		if shown[squeeze(g.Path)] {
			continue
		}
		shown[squeeze(g.Path)] = true
		if err := g.register(); err != nil {
			continue // a path in use by another one
		}
		w.gs[g.Path] = g
		all = append(all, g.Path)
	}
	reg := func(p string, spec interface{}) {
		if regVia(r, p, spec, nil, units.None, "") == nil {
			w.free[p] = true
			all = append(all, p)
		}
	}
	// callbacks whose value is another at each call
	for k := 0; k < 1+r.Intn(3); k++ {
		n := r.Intn(5)
		every := 2 + r.Intn(3)
		bad := pick(r, nonFinites)
		p := fmt.Sprintf("%s/%s%d", base, pick(r, []string{"!flip", "flip", "~flip"}), k)
		if r.Intn(2) == 0 {
			reg(p, func() float64 {
				n++
				if n%every == 0 {
					return bad
				}
				return 1.5
			})
		} else {
			reg(p, func() float32 {
				n++
				if n%every != 0 {
					return float32(bad)
				}
				return 2.5
			})
		}
	}
	// distributions
	for k := 0; k < r.Intn(3); k++ {
		b, _, _ := genBucketer(r)
		switch r.Intn(6) {
		case 0: // ends that overflow
			b = tr.NewExponentialBucketer(20+r.Intn(20), 1e300, 10)
		case 1:
			b = tr.NewArbitraryBucketer(pick(r, [][]float64{{math.Inf(-1), 0, 5}, {0, 5, math.Inf(1)}, {math.Inf(1)}, {math.Inf(-1), math.Inf(1)}})...)
		}
		d := newAdist(b, r.Intn(2) == 0)
		p := fmt.Sprintf("%s/%s%d", base, pick(r, []string{"!dist", "dist", "~dist"}), k)
		reg(p, d.spec)
		for n := r.Intn(6); n > 0; n-- {
			f := r.NormFloat64()
			if r.Intn(2) == 0 {
				f = pick(r, nonFinites)
			}
			d.add(f)
		}
	}
	for step := 0; step < 3; step++ {
		dirs := []string{base}
		var any []string
		for p := range w.gs {
			any = append(any, p)
		}
		sort.Strings(any)
		p := pick(r, any)
		dirs = append(dirs, p, p[:strings.LastIndex(p, "/")])
		for _, d := range dirs {
			w.all(cl, d)
		}
		for _, g := range w.gs {
			if r.Intn(2) == 0 {
				g.Set(r)
			}
		}
	}
	if c.WantSample() {
		c.Sample(w.describe())
	}
	c.Count("flipping_or_distribution", int64(len(w.free)))
}
