package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C06"] = c06 }

func c06(c *Ctx) {
	c.rule = "a case is one snapshot taken while goroutines change the distribution, checked for consistency and against what had begun and ended, or one race to register; distinct by the counts and generation seen"
	n := c.N(1200, 20000)
	if c.Race() {
		n = c.N(480, 8000)
	}
	for i := 0; i < n; i++ {
		c06Run(c, i)
	}
	for i := 0; i < n*2; i++ {
		c06Units(c, i)
	}
}

type c06op struct {
	s, e int64
	a, b uint64 // values in the goroutine's two ranges after the call
	gen  uint64 // changes made by the goroutine after the call
}

type c06snap struct {
	s, e int64
	how  string
	d    messages.Distribution
	cnt  []uint64
}

// c06Run: goroutine g owns the ranges 2g and 2g+1 and one value for each, so
// that a snapshot tells exactly which of its changes are included.
func c06Run(c *Ctx, i int) {
	r := c.Sub("run", i)
	defer clearRoot("t")
	ng := 2 + r.Intn(4)
	non := r.Intn(2) == 0
	var ends []float64
	for k := 1; k < 2*ng; k++ {
		ends = append(ends, float64(k*16))
	}
	val := func(k int) float64 { return float64(k*16 + k%7) }
	d := newAdist(tr.NewArbitraryBucketer(ends...), non)
	unit := pick(r, []units.Unit{units.Second, units.Millisecond})
	if err := regVia(r, "/t/d", d.spec, nil, unit, ""); err != nil {
		c.Violate("refused", nil, "%v", err)
	}
	arg := func(gr randT, k int) interface{} {
		switch gr.Intn(3) {
		case 0:
			return float32(val(k))
		case 1:
			if unit == units.Second {
				return time.Duration(val(k)) * time.Second
			}
			return time.Duration(val(k)) * time.Millisecond
		}
		return val(k)
	}
	ops := make([][]c06op, ng)
	nops := 20 + r.Intn(60)
	if i%25 == 0 {
		nops = 500 + r.Intn(500)
	}
	var wg, rwg sync.WaitGroup
	var stop int32
	nr := 1 + r.Intn(3)
	bar := newBarrier(ng + nr)
	for g := 0; g < ng; g++ {
		wg.Add(1)
		gr := c.Sub("run", i, "g", g)
		go func(g int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			var a, b uint64
			bar.wait()
			for k := 0; k < nops; k++ {
				x := gr.Intn(10)
				v, w := arg(gr, 2*g), arg(gr, 2*g+1)
				if gr.Intn(2) == 0 {
					runtime.Gosched()
				}
				var op c06op
				op.s = now()
				switch {
				case !non && x < 5, x < 3 || non && a+b == 0:
					d.add(v)
					a++
				case !non, x < 4:
					d.add(w)
					b++
				case x < 8 && a > 0:
					d.non.Update(v, w)
					a--
					b++
				case x < 8:
					d.non.Update(w, v)
					a++
					b--
				case a > 0:
					d.non.Remove(v)
					a--
				default:
					d.non.Remove(w)
					b--
				}
				op.e = now()
				op.a, op.b, op.gen = a, b, uint64(k+1)
				ops[g] = append(ops[g], op)
			}
		}(g)
	}
	snaps := make([][]c06snap, nr)
	type sc struct {
		s, e  int64
		count uint64
		sum   float64
		which int
	}
	scs := make([][]sc, nr)
	for q := 0; q < nr; q++ {
		rwg.Add(1)
		qr := c.Sub("run", i, "r", q)
		go func(q int) {
			defer rwg.Done()
			defer c.Guard("panic", nil)
			cl := newRPC()
			defer cl.Close()
			bar.wait()
			for n := 0; n < 300 && (atomic.LoadInt32(&stop) == 0 || n < 2); n++ {
				x := c06snap{s: now()}
				switch qr.Intn(6) {
				case 0:
					x.how = "rpc"
					m, err := rpcGet(cl, "/t/d")
					x.e = now()
					if err != nil {
						c.Violate("rpc", nil, "%v", err)
					}
					x.d = *m.Value.(*messages.Distribution)
				case 1:
					x.how = "json"
					j, _, err := jsonGet("/t/d")
					x.e = now()
					if err != nil || j == nil {
						c.Violate("json", nil, "%v", err)
					}
					if err := json.Unmarshal(j.Value, &x.d); err != nil {
						c.Violate("json", string(j.Value), "%v", err)
					}
				case 2:
					if d.non == nil {
						continue
					}
					y := sc{s: now(), which: qr.Intn(2)}
					if y.which == 0 {
						y.count = d.non.Count()
					} else {
						y.sum = d.non.Sum()
					}
					y.e = now()
					scs[q] = append(scs[q], y)
					continue
				case 3:
					x.how = "text"
					t := textPage("/t/d")
					x.e = now()
					if !c06text(t, ends, &x.d) {
						c.Violate("text", t, "cannot read %q", t)
					}
				default:
					x.how = "read"
					ml := tr.ReadMyMetrics("/t")
					x.e = now()
					x.d = *ml[0].Value.(*messages.Distribution)
				}
				snaps[q] = append(snaps[q], x)
			}
		}(q)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rwg.Wait()
	final := c06snap{s: now(), how: "final"}
	final.d = *tr.ReadMyMetrics("/t")[0].Value.(*messages.Distribution)
	final.e = now()
	var all []c06snap
	for _, s := range snaps {
		all = append(all, s...)
	}
	all = append(all, final)
	// window gives for goroutine g the changes that may be included in what
	// was read between s and e
	window := func(g int, s, e int64) (lo, hi int) {
		o := ops[g]
		lo = sort.Search(len(o), func(k int) bool { return o[k].e >= s })
		hi = sort.Search(len(o), func(k int) bool { return o[k].s > e })
		return
	}
	state := func(g, k int) c06op {
		if k == 0 {
			return c06op{}
		}
		return ops[g][k-1]
	}
	for _, x := range all {
		m := &x.d
		if len(m.Ranges) != 2*ng {
			c.Violate("ranges", nil, "%d ranges, want %d", len(m.Ranges), 2*ng)
		}
		var total uint64
		sum := 0.0
		lo, hi := -1.0, -1.0
		for k, rg := range m.Ranges {
			total += rg.Count
			sum += float64(rg.Count) * val(k)
			if rg.Count > 0 {
				if lo < 0 {
					lo = val(k)
				}
				hi = val(k)
			}
		}
		desc := fmt.Sprintf("%s snapshot %+v ranges %v", x.how, *m, c06counts(m))
		if total != m.Count {
			c.Violate("counts", desc, "ranges hold %d values, count is %d: %s", total, m.Count, desc)
		}
		if x.how == "text" {
			// single precision, no generation
			if float32(sum) != float32(m.Sum) {
				c.Violate("sum", desc, "values held add up to %v, sum is %v: %s", sum, m.Sum, desc)
			}
		} else {
			if sum != m.Sum {
				c.Violate("sum", desc, "values held add up to %v, sum is %v: %s", sum, m.Sum, desc)
			}
			if m.IsNotCumulative != non {
				c.Violate("flag", desc, "IsNotCumulative %v", m.IsNotCumulative)
			}
		}
		if total > 0 {
			if avg := sum / float64(total); !close64(m.Average, avg, 1e-6*avg) {
				c.Violate("average", desc, "average %v, want %v", m.Average, avg)
			}
			if m.Min > lo || m.Max < hi || !non && (m.Min != lo || m.Max != hi) {
				c.Violate("minmax", desc, "min %v max %v of values from %v to %v: %s", m.Min, m.Max, lo, hi, desc)
			}
		}
		// every goroutine's part is a state it went through in time, and the
		// generation adds up
		var genLo, genHi uint64
		for g := 0; g < ng; g++ {
			wlo, whi := window(g, x.s, x.e)
			var first, last = -1, -1
			for k := wlo; k <= whi; k++ {
				st := state(g, k)
				if st.a == m.Ranges[2*g].Count && st.b == m.Ranges[2*g+1].Count {
					if first < 0 {
						first = k
					}
					last = k
				}
			}
			if first < 0 {
				c.Violate("not-atomic", map[string]interface{}{"snapshot": desc, "window": []int{wlo, whi}, "ops": fmt.Sprint(ops[g])},
					"%s: goroutine %d's values are (%d,%d), which they were at no time between its changes %d and %d", desc, g, m.Ranges[2*g].Count, m.Ranges[2*g+1].Count, wlo, whi)
			}
			genLo += uint64(first)
			genHi += uint64(last)
		}
		if x.how != "text" && (m.Generation < genLo || m.Generation > genHi) {
			c.Violate("generation", desc, "%s: generation %d, the values belong to %d to %d changes", desc, m.Generation, genLo, genHi)
		}
		c.Case(fmt.Sprint(x.how, c06counts(m), m.Generation))
	}
	// snapshots form one order: same generation, same values; and real time
	byGen := map[uint64]string{}
	for _, x := range all {
		if x.how == "text" {
			continue
		}
		cs := fmt.Sprint(c06counts(&x.d), x.d.Min, x.d.Max)
		if old, ok := byGen[x.d.Generation]; ok && old != cs {
			c.Violate("two-states", []string{old, cs}, "generation %d was reported with %s and with %s", x.d.Generation, old, cs)
		}
		byGen[x.d.Generation] = cs
	}
	sort.Slice(all, func(a, b int) bool { return all[a].s < all[b].s })
	var maxEnded uint64
	type ended struct {
		e   int64
		gen uint64
	}
	var es []ended
	for _, x := range all {
		if x.how != "text" {
			es = append(es, ended{x.e, x.d.Generation})
		}
	}
	sort.Slice(es, func(a, b int) bool { return es[a].e < es[b].e })
	k := 0
	for _, x := range all {
		for k < len(es) && es[k].e < x.s {
			if es[k].gen > maxEnded {
				maxEnded = es[k].gen
			}
			k++
		}
		if x.how != "text" && x.d.Generation < maxEnded {
			c.Violate("backwards", nil, "generation %d reported after %d had been", x.d.Generation, maxEnded)
		}
	}
	for _, l := range scs {
		for _, y := range l {
			// possible totals
			var clo, chi uint64
			slo, shi := 0.0, 0.0
			for g := 0; g < ng; g++ {
				wlo, whi := window(g, y.s, y.e)
				var a, b uint64
				var sa, sb float64
				for k := wlo; k <= whi; k++ {
					st := state(g, k)
					n := st.a + st.b
					s := float64(st.a)*val(2*g) + float64(st.b)*val(2*g+1)
					if k == wlo || n < a {
						a = n
					}
					if k == wlo || n > b {
						b = n
					}
					if k == wlo || s < sa {
						sa = s
					}
					if k == wlo || s > sb {
						sb = s
					}
				}
				clo, chi, slo, shi = clo+a, chi+b, slo+sa, shi+sb
			}
			if y.which == 0 && (y.count < clo || y.count > chi) {
				c.Violate("count", nil, "Count() %d, was between %d and %d", y.count, clo, chi)
			}
			if y.which == 1 && (y.sum < slo || y.sum > shi) {
				c.Violate("sum", nil, "Sum() %v, was between %v and %v", y.sum, slo, shi)
			}
			c.Case("")
		}
	}
	if want := uint64(ng * nops); final.d.Generation != want {
		c.Violate("lost", c06counts(&final.d), "%d changes returned, generation is %d", want, final.d.Generation)
	}
	if c.WantSample() {
		c.Sample(map[string]interface{}{"goroutines": ng, "changes": ng * nops, "snapshots": len(all), "final": c06counts(&final.d)})
	}
	c.Count("changes", int64(ng*nops))
	c.Count("snapshots", int64(len(all)))
	c.Count("distinct_generations", int64(len(byGen)))
}

func c06counts(m *messages.Distribution) (res []uint64) {
	for _, r := range m.Ranges {
		res = append(res, r.Count)
	}
	return
}

// c06text reads the text form back.
func c06text(t string, ends []float64, d *messages.Distribution) bool {
	t = strings.TrimSpace(t)
	if !strings.HasPrefix(t, "{") || !strings.HasSuffix(t, "}") {
		return false
	}
	d.Ranges = make([]*messages.RangeWithCount, len(ends)+1)
	for i := range d.Ranges {
		d.Ranges[i] = &messages.RangeWithCount{}
	}
	for _, f := range strings.Split(t[1:len(t)-1], ";") {
		i := strings.LastIndexByte(f, ':')
		if i < 0 {
			return false
		}
		var v float64
		if n, _ := fmt.Sscan(f[i+1:], &v); n != 1 {
			return false
		}
		switch k := f[:i]; k {
		case "min":
			d.Min = v
		case "max":
			d.Max = v
		case "avg":
			d.Average = v
		case "median":
			d.Median = v
		case "sum":
			d.Sum = v
		case "count":
			d.Count = uint64(v)
		default:
			if k[0] != '[' || k[len(k)-1] != ')' {
				return false
			}
			j := strings.IndexByte(k, ',')
			if j < 0 {
				return false
			}
			lo := k[1:j]
			idx := 0
			if lo != "-inf" {
				var x float64
				if n, _ := fmt.Sscan(lo, &x); n != 1 {
					return false
				}
				idx = -1
				for q, e := range ends {
					if e == x {
						idx = q + 1
					}
				}
				if idx < 0 {
					return false
				}
			}
			d.Ranges[idx].Count = uint64(v)
		}
	}
	return true
}

// c06Units races registrations of one distribution under different units.
func c06Units(c *Ctx, i int) {
	r := c.Sub("units", i)
	defer clearRoot("t")
	d := newAdist(tr.PowersOfTwo, r.Intn(2) == 0)
	ng := 2 + r.Intn(6)
	us := make([]units.Unit, ng)
	errs := make([]error, ng)
	for g := range us {
		us[g] = pick(r, allUnits[:4])
	}
	bar := newBarrier(ng)
	var wg sync.WaitGroup
	for g := 0; g < ng; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			bar.wait()
			errs[g] = tr.RegisterMetric(fmt.Sprint("/t/d", g), d.spec, us[g], "")
		}(g)
	}
	// Adding works from the moment the distribution has a unit.
	na := r.Intn(3)
	added := make([]uint64, na)
	for g := 0; g < na; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 2000 && added[g] < 20; k++ {
				if p, _ := Panics(func() { d.add(float64(k)) }); !p {
					added[g]++
				}
			}
		}(g)
	}
	wg.Wait()
	won := map[units.Unit]int{}
	for g := range us {
		switch errs[g] {
		case nil:
			won[us[g]]++
		case tr.ErrWrongUnit:
		default:
			c.Violate("unit-error", us, "registration with unit %q: %v", string(us[g]), errs[g])
		}
	}
	if len(won) != 1 {
		c.Violate("unit-winners", fmt.Sprint(us, errs), "racing registrations under %v: units %v won", us, won)
	}
	var u units.Unit
	for u = range won {
	}
	for g := range us {
		if us[g] == u && errs[g] != nil {
			c.Violate("unit-refused", fmt.Sprint(us, errs), "unit %q won and was refused", string(u))
		}
	}
	ml := tr.ReadMyMetrics("/t")
	if len(ml) != won[u] {
		c.Violate("unit-trace", fmt.Sprint(us, errs), "%d registrations succeeded, %d metrics reported", won[u], len(ml))
	}
	for _, m := range ml {
		if m.Unit != u {
			c.Violate("unit-reported", fmt.Sprint(us, errs), "%q reported with unit %q, %q won", m.Path, string(m.Unit), string(u))
		}
	}
	var n uint64
	for _, x := range added {
		n += x
	}
	for _, m := range ml {
		if x := m.Value.(*messages.Distribution); x.Count != n || x.Generation != n {
			c.Violate("unit-adds", fmt.Sprint(us, errs), "%d values were added while it was registered, %q holds %d, generation %d", n, m.Path, x.Count, x.Generation)
		}
	}
	c.Count("adds_while_registering", int64(n))
	c.Count("unit_races", 1)
	c.Case(fmt.Sprint("u", us, errs))
}
