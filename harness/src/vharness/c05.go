package main

import (
	"fmt"
	"math"
	"net/rpc"
	"sort"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C05"] = c05 }

// dmodel is what a distribution must report.
type dmodel struct {
	ends     []float64 // endpoints between the ranges
	vals     []float64 // held now
	min, max float64
	gen      uint64
	non      bool
	exact    bool // all values and partial sums are exactly representable
	mag      float64
}

func (d *dmodel) see(v float64) {
	if len(d.vals) == 0 {
		d.min, d.max = v, v
	}
	d.min = math.Min(d.min, v)
	d.max = math.Max(d.max, v)
	d.mag += math.Abs(v)
}

func (d *dmodel) add(v float64) {
	d.see(v)
	d.vals = append(d.vals, v)
	d.gen++
}

func (d *dmodel) remove(i int) {
	d.mag += math.Abs(d.vals[i])
	d.vals = append(d.vals[:i:i], d.vals[i+1:]...)
	d.gen++
}

func (d *dmodel) update(i int, v float64) {
	d.min = math.Min(d.min, v)
	d.max = math.Max(d.max, v)
	d.mag += math.Abs(v) + math.Abs(d.vals[i])
	d.vals[i] = v
	d.gen++
}

// rangeOf is the range holding v: lower inclusive, upper exclusive.
func (d *dmodel) rangeOf(v float64) int {
	i := 0
	for i < len(d.ends) && v >= d.ends[i] {
		i++
	}
	return i
}

func close64(a, b, tol float64) bool { return a == b || math.Abs(a-b) <= tol }

// diff compares a reported distribution with the model.
func (d *dmodel) diff(m *messages.Distribution) string {
	n := len(d.vals)
	if m.Count != uint64(n) {
		return fmt.Sprintf("count %d, want %d", m.Count, n)
	}
	if m.Generation != d.gen {
		return fmt.Sprintf("generation %d, want %d", m.Generation, d.gen)
	}
	if m.IsNotCumulative != d.non {
		return fmt.Sprintf("isNotCumulative %v, want %v", m.IsNotCumulative, d.non)
	}
	if len(m.Ranges) != len(d.ends)+1 {
		return fmt.Sprintf("%d ranges, want %d", len(m.Ranges), len(d.ends)+1)
	}
	counts := make([]uint64, len(d.ends)+1)
	sum := 0.0
	for _, v := range d.vals {
		counts[d.rangeOf(v)]++
		sum += v
	}
	for i, r := range m.Ranges {
		if r.Count != counts[i] {
			return fmt.Sprintf("range %d [%v %v) holds %d values, want %d of %v", i, r.Lower, r.Upper, r.Count, counts[i], d.vals)
		}
	}
	for _, x := range []float64{m.Sum, m.Average, m.Median, m.Min, m.Max} {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return fmt.Sprintf("non-finite statistics %+v", *m)
		}
	}
	tol := 0.0
	if !d.exact {
		tol = 1e-12 * d.mag
	}
	if !close64(m.Sum, sum, tol) {
		return fmt.Sprintf("sum %v, want %v", m.Sum, sum)
	}
	if n == 0 {
		return ""
	}
	avg := sum / float64(n)
	if !close64(m.Average, avg, tol+1e-12*math.Abs(avg)) {
		return fmt.Sprintf("average %v, want %v", m.Average, avg)
	}
	if m.Min != d.min || m.Max != d.max {
		return fmt.Sprintf("min %v max %v, want %v %v", m.Min, m.Max, d.min, d.max)
	}
	s := append([]float64(nil), d.vals...)
	sort.Float64s(s)
	a, b := d.rangeOf(s[(n-1)/2]), d.rangeOf(s[n/2])
	lo, hi := d.min, d.max
	if a > 0 {
		lo = math.Max(lo, d.ends[a-1])
	}
	if b < len(d.ends) {
		hi = math.Min(hi, d.ends[b])
	}
	slack := 1e-9*(math.Abs(lo)+math.Abs(hi)) + tol
	if m.Median < lo-slack || m.Median > hi+slack {
		return fmt.Sprintf("median %v outside [%v, %v], the range of the true median of %v", m.Median, lo, hi, s)
	}
	return ""
}

// adist is either kind of distribution.
type adist struct {
	spec interface{}
	add  func(interface{})
	non  *tr.NonCumulativeDistribution
}

func newAdist(b *tr.Bucketer, non bool) *adist {
	if non {
		d := b.NewNonCumulativeDistribution()
		return &adist{d, d.Add, d}
	}
	d := b.NewCumulativeDistribution()
	return &adist{d, d.Add, nil}
}

// genBucketer returns a bucketer with known endpoints.
func genBucketer(r randT) (*tr.Bucketer, []float64, string) {
	switch r.Intn(7) {
	case 0:
		var e []float64
		x := 1.0
		for i := 0; i < 19; i++ {
			e = append(e, x)
			x *= 2
		}
		return tr.PowersOfTwo, e, "PowersOfTwo"
	case 1:
		var e []float64
		x := 1.0
		for i := 0; i < 10; i++ {
			e = append(e, x)
			x *= 4
		}
		return tr.PowersOfFour, e, "PowersOfFour"
	case 2:
		return tr.PowersOfTen, []float64{1, 10, 100, 1000, 10000, 100000}, "PowersOfTen"
	case 3:
		n, s, inc := 2+r.Intn(10), float64(r.Intn(40)-20)/4, float64(1+r.Intn(80))/8
		var e []float64
		for i := 0; i < n-1; i++ {
			e = append(e, s+float64(i)*inc)
		}
		return tr.NewLinearBucketer(n, s, inc), e, fmt.Sprintf("linear(%d,%v,%v)", n, s, inc)
	case 4:
		n, s := 2+r.Intn(8), float64(1+r.Intn(16))/8
		var e []float64
		x := s
		for i := 0; i < n-1; i++ {
			e = append(e, x)
			x *= 1.5
		}
		return tr.NewExponentialBucketer(n, s, 1.5), e, fmt.Sprintf("exponential(%d,%v,1.5)", n, s)
	case 5:
		return tr.NewGeometricBucketer(0.5, 50), []float64{0.5, 1, 2, 5, 10, 20, 50}, "geometric(0.5,50)"
	default:
		set := map[float64]bool{}
		for i := 0; i < 1+r.Intn(8); i++ {
			set[float64(r.Intn(600)-300)/8] = true
		}
		var e []float64
		for x := range set {
			e = append(e, x)
		}
		sort.Float64s(e)
		return tr.NewArbitraryBucketer(e...), e, fmt.Sprintf("arbitrary%v", e)
	}
}

func c05(c *Ctx) {
	c.rule = "a case is one reading of a distribution after a random history of changes, compared with statistics recomputed from the values it holds; distinct by bucketer and history"
	defer c.keep()()
	cl := newRPC()
	defer cl.Close()
	if c.Race() {
		c.each(c.N(2000, 30000), func(i int) { c05One(c, cl, i) })
		return
	}
	c.each(c.N(40000, 600000), func(i int) { c05One(c, cl, i) })
	c.each(c.N(40, 400), func(i int) { c05Many(c, cl, i) })
	if c.Shard == 3%c.NSh {
		// numbers that 24 bits, or in the thorough tier 32, do not hold
		c05Huge(c, false, c.N(c.NSh*(1<<24+500), c.NSh*(1<<32+500)))
		c05Huge(c, true, c.N(c.NSh*(1<<24+500), c.NSh*(1<<28)))
	}
	c05Units(c)
}

// c05Huge makes very many changes.
func c05Huge(c *Ctx, non bool, total int) {
	d := newAdist(tr.NewArbitraryBucketer(1, 5, 10), non)
	const dir = "/huge"
	defer tr.UnregisterPath(dir)
	if err := tr.RegisterMetric(dir, d.spec, units.None, ""); err != nil {
		c.Violate("register", dir, "%v", err)
	}
	vals := [4]float64{0.5, 3, 3, 11}
	boxed := [4]interface{}{0.5, 3.0, 3.0, 11.0}
	var held [4]uint64
	look := func(gen int) {
		m := tr.ReadMyMetrics(dir)[0].Value.(*messages.Distribution)
		want := [4]uint64{held[0], held[1] + held[2], 0, held[3]}
		var n uint64
		var sum float64
		for i, k := range held {
			n += k
			sum += float64(k) * vals[i]
		}
		bad := m.Count != n || m.Sum != sum || m.Generation != uint64(gen) || len(m.Ranges) != 4 || m.IsNotCumulative != non ||
			m.Min != 0.5 || m.Max != 11 || math.Abs(m.Average-sum/float64(n)) > 1e-9
		if !bad {
			for i, rg := range m.Ranges {
				bad = bad || rg.Count != want[i]
			}
			bad = bad || m.Median < 1 || m.Median > 5
		}
		if bad {
			c.Violate("huge", gen, "after %d changes, holding %v of %v: %s", gen, held, vals, short(fmt.Sprintf("%+v", *m)))
		}
		c.Case(fmt.Sprint("huge", non, gen))
	}
	for k := 1; k <= total; k++ {
		i := k & 3
		if non && held[i] > 3 {
			d.non.Remove(boxed[i])
			held[i]--
		} else if non {
			d.non.Add(boxed[i])
			held[i]++
		} else {
			d.add(boxed[i])
			held[i]++
		}
		if k%(1<<22) == 0 || k == total {
			look(k)
		}
	}
	c.Count("changes", int64(total))
}

func c05One(c *Ctx, cl *rpc.Client, i int) {
	r := c.Sub("one", i)
	b, ends, bname := genBucketer(r)
	non := r.Intn(3) > 0
	d := newAdist(b, non)
	m := &dmodel{ends: ends, non: non, exact: r.Intn(3) > 0}
	unit := pick(r, allUnits)
	var log []string
	dir := c.dirOf(i)
	defer tr.UnregisterPath(dir)
	if err := regVia(r, dir+"/d", d.spec, nil, unit, ""); err != nil {
		c.Violate("refused", bname, "%v", err)
	}
	isTime := unit == units.Second || unit == units.Millisecond
	// value returns an argument and its number
	value := func() (interface{}, float64) {
		if isTime && r.Intn(2) == 0 {
			dur := time.Duration(r.Intn(4000)-1000) * 15625000
			if !m.exact {
				dur = time.Duration(r.Int63n(int64(time.Hour))) - time.Minute
			}
			if unit == units.Second {
				return dur, float64(dur) / 1e9
			}
			return dur, float64(dur) / 1e6
		}
		var v float64
		switch {
		case r.Intn(4) == 0:
			v = pick(r, ends)
			if r.Intn(2) == 0 && !m.exact {
				v = math.Nextafter(v, pick(r, []float64{-1e9, 1e9}))
			}
		case m.exact:
			v = float64(r.Intn(8000)-2000) / 64
		default:
			v = r.NormFloat64() * math.Pow(10, float64(r.Intn(8)-3))
		}
		if r.Intn(4) == 0 {
			f := float32(v)
			return f, float64(f)
		}
		return v, v
	}
	check := func() {
		var rep []*messages.Metric
		mm := tr.ReadMyMetrics(dir + "/d")
		if len(mm) != 1 {
			c.Violate("missing", log, "%d metrics", len(mm))
		}
		rep = append(rep, mm[0])
		if r.Intn(6) == 0 {
			g, err := rpcGet(cl, dir+"/d")
			if err != nil {
				c.Violate("rpc", log, "%v", err)
			}
			rep = append(rep, g)
		}
		for _, x := range rep {
			dd, ok := x.Value.(*messages.Distribution)
			if !ok {
				c.Violate("type", log, "%T", x.Value)
			}
			if s := m.diff(dd); s != "" {
				c.Violate("statistics", map[string]interface{}{"bucketer": bname, "unit": unit, "history": log}, "%s unit %q after %v: %s", bname, string(unit), log, s)
			}
		}
		if d.non != nil {
			sum := 0.0
			for _, v := range m.vals {
				sum += v
			}
			tol := 0.0
			if !m.exact {
				tol = 1e-12 * m.mag
			}
			if d.non.Count() != uint64(len(m.vals)) || !close64(d.non.Sum(), sum, tol) {
				c.Violate("sum-count", log, "Sum() %v Count() %d, want %v %d", d.non.Sum(), d.non.Count(), sum, len(m.vals))
			}
		}
		c.Case(fmt.Sprint(bname, unit, log))
	}
	check()
	steps := 1 + r.Intn(40)
	emptying := r.Intn(4) == 0
	for s := 0; s < steps; s++ {
		x := r.Intn(10)
		if emptying && r.Intn(2) == 0 {
			x = 9
		}
		switch {
		case !non || len(m.vals) == 0 || x < 5:
			a, v := value()
			d.add(a)
			m.add(v)
			log = append(log, fmt.Sprintf("Add(%v)", a))
		case x < 8:
			k := r.Intn(len(m.vals))
			a, v := value()
			d.non.Update(m.vals[k], a)
			log = append(log, fmt.Sprintf("Update(%v,%v)", m.vals[k], a))
			m.update(k, v)
		case x < 9 && r.Intn(3) == 0:
			// UpdateMinMax promises bounds only
			d.non.UpdateMinMax()
			log = append(log, "UpdateMinMax")
			dd := tr.ReadMyMetrics(dir + "/d")[0].Value.(*messages.Distribution)
			lo, hi := m.vals[0], m.vals[0]
			for _, v := range m.vals {
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
			if dd.Min < m.min || dd.Min > lo || dd.Max > m.max || dd.Max < hi {
				c.Violate("updateminmax", log, "after UpdateMinMax min %v max %v, allowed [%v %v] [%v %v]", dd.Min, dd.Max, m.min, lo, hi, m.max)
			}
			m.min, m.max = dd.Min, dd.Max
			if dd.Generation == m.gen+1 {
				m.gen++ // may count as a change
			}
		default:
			k := r.Intn(len(m.vals))
			d.non.Remove(m.vals[k])
			log = append(log, fmt.Sprintf("Remove(%v)", m.vals[k]))
			m.remove(k)
			if len(m.vals) == 0 {
				c.Count("emptied", 1)
				if !m.exact {
					// rounding errors of what was held before stay within mag
					m.mag++
				}
			}
		}
		check()
	}
	if c.WantSample() {
		c.Sample(map[string]interface{}{"bucketer": bname, "unit": unit, "history": log})
	}
	c.Count("changes", int64(len(log)))
}

// c05Many holds many values.
func c05Many(c *Ctx, cl *rpc.Client, i int) {
	r := c.Sub("many", i)
	b, ends, bname := genBucketer(r)
	non := r.Intn(2) == 0
	d := newAdist(b, non)
	m := &dmodel{ends: ends, non: non, exact: true}
	dir := c.dirOf(i)
	defer tr.UnregisterPath(dir)
	tr.RegisterMetric(dir+"/d", d.spec, units.None, "")
	total := 30000
	if i%4 == 0 {
		total = 150000 + r.Intn(50000) // more than 16 bits count
	}
	for k := 0; k < total; k++ {
		if non && len(m.vals) > 0 && r.Intn(3) == 0 {
			j := r.Intn(len(m.vals))
			if r.Intn(2) == 0 {
				d.non.Remove(m.vals[j])
				m.vals[j] = m.vals[len(m.vals)-1]
				m.vals = m.vals[:len(m.vals)-1]
				m.gen++
				continue
			}
			v := float64(r.Intn(6400)-100) / 64
			d.non.Update(m.vals[j], v)
			m.update(j, v)
			continue
		}
		v := float64(r.Intn(6400)-100) / 64
		d.add(v)
		m.add(v)
		if k%(total/6) == 0 || k > total-10 {
			g, err := rpcGet(cl, dir+"/d")
			if err != nil {
				c.Violate("rpc", bname, "%v", err)
			}
			if s := m.diff(g.Value.(*messages.Distribution)); s != "" {
				c.Violate("statistics", bname, "%s after %d changes: %s", bname, m.gen, short(s))
			}
			c.Case(fmt.Sprint(bname, i, k))
		}
	}
	c.Count("changes", int64(m.gen))
}

// c05Units checks that a distribution keeps the first unit it was registered
// with, and what durations count as in each.
func c05Units(c *Ctx) {
	for i := 0; i < c.N(2000, 20000); i++ {
		r := c.Sub("units", i)
		d := newAdist(tr.NewArbitraryBucketer(0, 1, 1000), r.Intn(2) == 0)
		var first *units.Unit
		want := 0.0
		n := 0
		for k := 0; k < 8; k++ {
			u := pick(r, allUnits)
			path := fmt.Sprintf("/t/d%d", k)
			err := regVia(r, path, d.spec, nil, u, "")
			switch {
			case first == nil || *first == u:
				if err != nil {
					c.Violate("unit-refused", u, "registration %d with unit %q: %v", k, string(u), err)
				}
				if first == nil {
					first = &u
				}
			case err != tr.ErrWrongUnit:
				c.Violate("unit-accepted", u, "registration with unit %q of a distribution of unit %q: %v", string(u), string(*first), err)
			}
			if r.Intn(2) == 0 {
				dur := time.Duration(r.Intn(1<<20)-1000) * 15625000
				pan, _ := Panics(func() { d.add(dur) })
				switch *first {
				case units.Second:
					want += float64(dur) / 1e9
				case units.Millisecond:
					want += float64(dur) / 1e6
				default:
					if !pan {
						c.Violate("duration-accepted", *first, "duration added to a distribution of unit %q", string(*first))
					}
					continue
				}
				if pan {
					c.Violate("duration-refused", *first, "duration not added to a distribution of unit %q", string(*first))
				}
				n++
			}
			if r.Intn(4) == 0 {
				tr.UnregisterPath(path)
			}
		}
		for _, m := range tr.ReadMyMetrics("/t") {
			dd := m.Value.(*messages.Distribution)
			if m.Unit != *first || dd.Count != uint64(n) || dd.Sum != want {
				c.Violate("unit-value", m.Path, "%q unit %q count %d sum %v, want %q %d %v", m.Path, string(m.Unit), dd.Count, dd.Sum, string(*first), n, want)
			}
			c.Case(fmt.Sprint("u", *first, n, want))
		}
		clearRoot("t")
	}
}
