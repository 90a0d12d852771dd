package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C07"] = c07 }

func c07(c *Ctx) {
	c.rule = "a case is one bucketer whose reported ranges are compared with the documented endpoints and in which endpoints, their floating point neighbours and random values are placed; distinct by parameters"
	div := 1
	if c.Race() {
		div = 20
	}
	c.each(c.N(120000, 1600000)/div, func(i int) { c07One(c, i) })
	c.each(c.N(12000, 200000)/div, func(i int) { c07Shared(c, i) })
	c07Bad(c)
}

// bspec is a bucketer with its documented endpoints, each to be met within tol.
type bspec struct {
	name string
	b    *tr.Bucketer
	ends []float64
	tol  []float64
}

// geometricEnds lists the endpoints documented for a geometric bucketer.
// The endpoints there are, in ascending order.
var geometricAll = func() (all []float64) {
	for e := -305; e <= 305; e++ {
		for _, k := range []int{1, 2, 5} {
			f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", k, e), 64)
			all = append(all, f)
		}
	}
	return
}()

func geometricEnds(lower, upper float64) []float64 {
	all := geometricAll
	first := 0
	for i, f := range all {
		if f <= lower {
			first = i
		}
	}
	last := first
	for last < len(all)-1 && all[last] < upper {
		last++
	}
	return all[first : last+1]
}

func genBspec(r randT) *bspec {
	s := &bspec{}
	switch r.Intn(5) {
	case 0: // exponential
		var count int
		var start, scale float64
		if r.Intn(2) == 0 {
			count = 2 + r.Intn(4)
		} else {
			count = 2 + r.Intn(40)
		}
		start = pick(r, []float64{1, 3, 0.1, 1e-9, 0.5, 7.25, 1e6, math.Exp(r.NormFloat64() * 4)})
		scale = pick(r, []float64{2, 1.7, 10, 1.01, 4, 1.5, 3, 1 + math.Exp(r.NormFloat64()*2)})
		s.b = tr.NewExponentialBucketer(count, start, scale)
		s.name = fmt.Sprintf("NewExponentialBucketer(%d, %v, %v)", count, start, scale)
		x := new(big.Float).SetPrec(200).SetFloat64(start)
		k := new(big.Float).SetPrec(200).SetFloat64(scale)
		for i := 0; i < count-1; i++ {
			f, _ := x.Float64()
			s.ends = append(s.ends, f)
			s.tol = append(s.tol, f*1e-15*float64(i+2))
			x.Mul(x, k)
		}
		if r.Intn(6) == 0 {
			s.tol = nil
			switch r.Intn(3) {
			case 0:
				s.b, s.ends, s.name = tr.PowersOfTwo, nil, "PowersOfTwo"
				for i := 0; i < 19; i++ {
					s.ends = append(s.ends, float64(int(1)<<uint(i)))
				}
			case 1:
				s.b, s.ends, s.name = tr.PowersOfFour, nil, "PowersOfFour"
				for i := 0; i < 10; i++ {
					s.ends = append(s.ends, float64(int(1)<<uint(2*i)))
				}
			case 2:
				s.b, s.ends, s.name = tr.PowersOfTen, []float64{1, 10, 100, 1000, 1e4, 1e5}, "PowersOfTen"
			}
		}
	case 1: // linear
		count := 2 + r.Intn(40)
		if r.Intn(2) == 0 {
			count = 2 + r.Intn(4)
		}
		start := pick(r, []float64{0, 1, -10, 0.1, -0.3, 1e6, r.NormFloat64() * 100})
		inc := pick(r, []float64{1, 10, 0.1, 0.25, 1e-3, 1e5, math.Abs(r.NormFloat64()) + 1e-6})
		s.b = tr.NewLinearBucketer(count, start, inc)
		s.name = fmt.Sprintf("NewLinearBucketer(%d, %v, %v)", count, start, inc)
		x := new(big.Float).SetPrec(200).SetFloat64(start)
		k := new(big.Float).SetPrec(200).SetFloat64(inc)
		for i := 0; i < count-1; i++ {
			f, _ := x.Float64()
			s.ends = append(s.ends, f)
			s.tol = append(s.tol, 1e-15*float64(i+2)*(math.Abs(start)+inc*float64(count)))
			x.Add(x, k)
		}
	case 2: // arbitrary
		set := map[float64]bool{}
		for i := 0; i < 1+r.Intn(12); i++ {
			switch r.Intn(3) {
			case 0:
				set[float64(r.Intn(200)-100)] = true
			case 1:
				set[r.NormFloat64()*math.Pow(10, float64(r.Intn(20)-10))] = true
			case 2:
				f := float64(r.Intn(20) - 10)
				set[f] = true
				set[math.Nextafter(f, 1e9)] = true
			}
		}
		for f := range set {
			s.ends = append(s.ends, f)
		}
		sort.Float64s(s.ends)
		given := append([]float64(nil), s.ends...)
		s.b = tr.NewArbitraryBucketer(given...)
		s.name = fmt.Sprintf("NewArbitraryBucketer(%v)", s.ends)
		for i := range given {
			given[i] = -1 // the caller may use its slice for something else
		}
	default: // geometric
		// Up to 1e22 floats hold the endpoints, or the correctly rounded
		// quotients, exactly. Beyond, keep off the endpoints.
		base, wide := -21, 42
		far := r.Intn(4) == 0
		if far {
			base, wide = r.Intn(560)-290, 20
		}
		var one func() float64
		one = func() float64 {
			if far {
				f := math.Exp(r.NormFloat64()) * math.Pow10(r.Intn(wide)+base)
				i := sort.SearchFloat64s(geometricAll, f)
				if f/geometricAll[i-1] < 1+1e-12 || geometricAll[i]/f < 1+1e-12 {
					return one()
				}
				return f
			}
			f := pick(r, []float64{1, 2, 5, 0.7, 3, 9.99, 1.5, 4.999, math.Exp(r.NormFloat64())}) * math.Pow10(r.Intn(wide)+base)
			if r.Intn(2) == 0 {
				f, _ = strconv.ParseFloat(fmt.Sprintf("%de%d", pick(r, []int{1, 2, 5}), r.Intn(wide)+base), 64)
			}
			switch r.Intn(8) {
			case 0:
				f = math.Nextafter(f, 0)
			case 1:
				f = math.Nextafter(f, math.MaxFloat64)
			}
			return f
		}
		a := one()
		b := one()
		if r.Intn(2) == 0 {
			b = a * math.Pow10(r.Intn(4)) * (1 + r.Float64())
		}
		if r.Intn(8) == 0 {
			b = a
		}
		if b < a {
			a, b = b, a
		}
		s.b = tr.NewGeometricBucketer(a, b)
		s.name = fmt.Sprintf("NewGeometricBucketer(%v, %v)", a, b)
		s.ends = geometricEnds(a, b)
		for _, e := range s.ends {
			s.tol = append(s.tol, e*1e-15)
		}
	}
	return s
}

func distOf(path string) *messages.Distribution {
	ml := tr.ReadMyMetrics(path)
	if len(ml) != 1 {
		return nil
	}
	d, _ := ml[0].Value.(*messages.Distribution)
	return d
}

// checkEnds compares the ranges reported with the endpoints and returns the
// endpoints as reported.
func (s *bspec) checkEnds(c *Ctx, d *messages.Distribution) []float64 {
	if d == nil || len(d.Ranges) != len(s.ends)+1 {
		n := -1
		if d != nil {
			n = len(d.Ranges)
		}
		c.Violate("ranges", s.name, "%s has %d ranges, want %d (endpoints %v)", s.name, n, len(s.ends)+1, s.ends)
	}
	var got []float64
	for i, e := range s.ends {
		a, b := d.Ranges[i].Upper, d.Ranges[i+1].Lower
		if a != b {
			c.Violate("gap", s.name, "%s: range %d ends at %v, the next begins at %v", s.name, i, a, b)
		}
		t := 0.0
		if s.tol != nil {
			t = s.tol[i]
		}
		if math.Abs(a-e) > t {
			c.Violate("endpoint", s.name, "%s: endpoint %d is %v, want %v", s.name, i, a, e)
		}
		if i > 0 && !(a > got[i-1]) {
			if e > s.ends[i-1]+2*t {
				c.Violate("order", s.name, "%s: endpoint %d is %v after %v", s.name, i, a, got[i-1])
			}
		}
		got = append(got, a)
	}
	return got
}

func c07One(c *Ctx, i int) {
	r := c.Sub("one", i)
	s := genBspec(r)
	d := newAdist(s.b, r.Intn(2) == 0)
	dir := c.dirOf(i)
	defer tr.UnregisterPath(dir)
	if err := tr.RegisterMetric(dir+"/d", d.spec, units.None, ""); err != nil {
		c.Violate("refused", s.name, "%v", err)
	}
	ends := s.checkEnds(c, distOf(dir+"/d"))
	m := &dmodel{ends: ends}
	want := make([]uint64, len(ends)+1)
	var placed []float64
	put := func(v float64) {
		if math.IsInf(v, 0) {
			return
		}
		if r.Intn(3) == 0 {
			f := float32(v)
			if !math.IsInf(float64(f), 0) {
				d.add(f)
				v = float64(f)
			} else {
				d.add(v)
			}
		} else {
			d.add(v)
		}
		want[m.rangeOf(v)]++
		placed = append(placed, v)
		if r.Intn(4) == 0 {
			// one at a time, so that errors cannot cancel out
			c07Counts(c, dir, s, d, want, placed)
		}
	}
	for _, e := range ends {
		if len(ends) > 12 && r.Intn(len(ends)) > 12 {
			continue
		}
		put(e)
		put(math.Nextafter(e, math.MaxFloat64))
		put(math.Nextafter(e, -math.MaxFloat64))
	}
	for k := 0; k < 8; k++ {
		a := pick(r, ends)
		put(a * (1 + r.NormFloat64()*0.3))
	}
	for _, v := range []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64} {
		if r.Intn(2) == 0 {
			put(v)
		}
	}
	c07Counts(c, dir, s, d, want, placed)
	// placing values has not changed the bucketer
	e2 := newAdist(s.b, r.Intn(2) == 0)
	tr.RegisterMetric(dir+"/e", e2.spec, units.None, "")
	dd := distOf(dir + "/e")
	s.checkEnds(c, dd)
	if dd.Count != 0 {
		c.Violate("not-independent", s.name, "%s: a new distribution holds %d values", s.name, dd.Count)
	}
	for _, x := range dd.Ranges {
		if x.Count != 0 {
			c.Violate("not-independent", s.name, "%s: a new distribution holds values: %+v", s.name, *x)
		}
	}
	c.Case(s.name)
	c.Count("values_placed", int64(len(placed)))
	if c.WantSample() {
		c.Sample(map[string]interface{}{"bucketer": s.name, "endpoints": ends, "values_placed": len(placed)})
	}
}

func c07Counts(c *Ctx, dir string, s *bspec, d *adist, want []uint64, placed []float64) {
	got := distOf(dir + "/d")
	for i, x := range got.Ranges {
		if x.Count != want[i] {
			c.Violate("placement", map[string]interface{}{"bucketer": s.name, "values": placed},
				"%s: range %d [%v, %v) holds %d values, want %d, after %v", s.name, i, x.Lower, x.Upper, x.Count, want[i], placed)
		}
	}
	if got.Count != uint64(len(placed)) {
		c.Violate("placement", s.name, "%s: %d values, want %d", s.name, got.Count, len(placed))
	}
}

// c07Shared uses one bucketer for several distributions.
func c07Shared(c *Ctx, i int) {
	r := c.Sub("shared", i)
	s := genBspec(r)
	dir := c.dirOf(i)
	defer tr.UnregisterPath(dir)
	n := 2 + r.Intn(4)
	var ds []*adist
	var held [][]float64
	var want [][]uint64
	ends := s.ends
	for k := 0; k < n; k++ {
		d := newAdist(s.b, r.Intn(2) == 0)
		if err := tr.RegisterMetric(fmt.Sprintf("%s/d%d", dir, k), d.spec, pick(r, allUnits), ""); err != nil {
			c.Violate("refused", s.name, "%v", err)
		}
		ends = s.checkEnds(c, distOf(fmt.Sprintf("%s/d%d", dir, k)))
		ds = append(ds, d)
		want = append(want, make([]uint64, len(ends)+1))
		held = append(held, nil)
	}
	m := &dmodel{ends: ends}
	for k := 0; k < 30; k++ {
		x := r.Intn(n)
		if ds[x].non != nil && len(held[x]) > 0 && r.Intn(3) == 0 {
			j := r.Intn(len(held[x]))
			ds[x].non.Remove(held[x][j])
			want[x][m.rangeOf(held[x][j])]--
			held[x] = append(held[x][:j], held[x][j+1:]...)
			continue
		}
		v := pick(r, ends) * (1 + r.NormFloat64())
		ds[x].add(v)
		want[x][m.rangeOf(v)]++
		held[x] = append(held[x], v)
	}
	for k := range ds {
		got := distOf(fmt.Sprintf("%s/d%d", dir, k))
		s.checkEnds(c, got)
		for j, x := range got.Ranges {
			if x.Count != want[k][j] {
				c.Violate("shared", s.name, "%s shared by %d distributions: range %d of the %d. holds %d values, want %d", s.name, n, j, k, x.Count, want[k][j])
			}
		}
	}
	c.Case(fmt.Sprint("shared", n, s.name))
}

func c07Bad(c *Ctx) {
	type bad struct {
		name string
		f    func()
	}
	var bads []bad
	exp := func(n int, s, k float64) {
		bads = append(bads, bad{fmt.Sprintf("NewExponentialBucketer(%d, %v, %v)", n, s, k), func() { tr.NewExponentialBucketer(n, s, k) }})
	}
	lin := func(n int, s, k float64) {
		bads = append(bads, bad{fmt.Sprintf("NewLinearBucketer(%d, %v, %v)", n, s, k), func() { tr.NewLinearBucketer(n, s, k) }})
	}
	for _, n := range []int{1, 0, -1, -1000} {
		exp(n, 1, 2)
		lin(n, 0, 1)
		lin(n, -3, 1)
	}
	for _, x := range []float64{0, -1, -1e-9, -1e300} {
		exp(5, x, 2)
		exp(2, x, 2)
		lin(5, 1, x)
		lin(2, 1, x)
	}
	for _, x := range []float64{1, 0.5, 0, -2, math.Nextafter(1, 0)} {
		exp(5, 1, x)
		exp(2, 1, x)
	}
	bads = append(bads, bad{"NewArbitraryBucketer()", func() { tr.NewArbitraryBucketer() }},
		bad{"NewArbitraryBucketer(nil...)", func() { tr.NewArbitraryBucketer([]float64{}...) }})
	for _, x := range [][2]float64{{5, 4}, {1, math.Nextafter(1, 0)}, {3, 0}, {3, -3}, {-3, -4}, {-2, -1}, {-1, 5}, {0, 5}, {0, 0}} {
		x := x
		bads = append(bads, bad{fmt.Sprintf("NewGeometricBucketer(%v, %v)", x[0], x[1]), func() { tr.NewGeometricBucketer(x[0], x[1]) }})
	}
	for _, b := range bads {
		done := make(chan bool, 1)
		go func() {
			p, _ := Panics(b.f)
			done <- p
		}()
		select {
		case p := <-done:
			if !p {
				c.Violate("bad-accepted", b.name, "%s does not panic", b.name)
			}
		case <-time.After(6 * time.Second):
			c.Violate("bad-accepted", b.name, "%s does not return", b.name)
		}
		c.Case("bad " + b.name)
	}
	// the least that is allowed
	for _, f := range []func() *tr.Bucketer{
		func() *tr.Bucketer {
			return tr.NewExponentialBucketer(2, math.SmallestNonzeroFloat64, math.Nextafter(1, 2))
		},
		func() *tr.Bucketer { return tr.NewLinearBucketer(2, 0, math.SmallestNonzeroFloat64) },
		func() *tr.Bucketer { return tr.NewArbitraryBucketer(0) },
		func() *tr.Bucketer { return tr.NewGeometricBucketer(1, 1) },
	} {
		d := newAdist(f(), false)
		tr.RegisterMetric("/t/d", d.spec, units.None, "")
		if x := distOf("/t/d"); x == nil || len(x.Ranges) != 2 {
			c.Violate("least", nil, "a bucketer with one endpoint reports %+v", x)
		}
		clearRoot("t")
		c.Case("least")
	}
}
