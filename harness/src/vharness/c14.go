package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C14"] = c14 }

func sliceLen(v interface{}) int               { return reflect.ValueOf(v).Len() }
func sliceAt(v interface{}, i int) interface{} { return reflect.ValueOf(v).Index(i).Interface() }

var (
	groupedRE = regexp.MustCompile(`^-?[0-9]{1,3}(,[0-9]{3})*$`)
	roundRE   = regexp.MustCompile(`^(-?[0-9]+(?:\.[0-9]+)?) ?(\S.*)?$`)
)

var decSuffix = map[string]int{"thousand": 1, "million": 2, "billion": 3, "trillion": 4, "K trillion": 5, "M trillion": 6}
var binSuffix = map[string]int{"KiB": 1, "MiB": 2, "GiB": 3, "TiB": 4, "PiB": 5, "EiB": 6}

// humanInt tells how s fails to denote the integer v.
func humanInt(s string, v interface{}, u units.Unit) string {
	n := new(big.Int)
	switch rv := reflect.ValueOf(v); rv.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n.SetInt64(rv.Int())
	default:
		n.SetUint64(rv.Uint())
	}
	if u == units.None {
		if !groupedRE.MatchString(s) {
			return "not grouped in thousands"
		}
		if strings.ReplaceAll(s, ",", "") != n.String() {
			return "not the number"
		}
		return ""
	}
	m := roundRE.FindStringSubmatch(s)
	if m == nil {
		return "not a number with a suffix"
	}
	scale := big.NewInt(1)
	if m[2] != "" {
		suffix, radix, tab := m[2], int64(1000), decSuffix
		switch u {
		case units.Byte:
			radix, tab = 1024, binSuffix
		case units.BytePerSecond:
			radix, tab = 1024, binSuffix
			var ok bool
			if suffix, ok = strings.CutSuffix(suffix, "/s"); !ok {
				return "suffix is not per second"
			}
		}
		e, ok := tab[suffix]
		if !ok {
			return "suffix does not fit the unit"
		}
		scale.Exp(big.NewInt(radix), big.NewInt(int64(e)), nil)
	} else if m[1] != n.String() {
		return "not the number"
	}
	shown, _ := new(big.Rat).SetString(m[1])
	shown.Mul(shown, new(big.Rat).SetInt(scale))
	diff := new(big.Rat).Sub(shown, new(big.Rat).SetInt(n))
	diff.Abs(diff)
	// half a percent, and an ulp for the arithmetic
	lim := new(big.Rat).SetInt(new(big.Int).Abs(n))
	lim.Mul(lim, big.NewRat(5000001, 1000000000))
	if diff.Cmp(lim) > 0 {
		return "more than half a percent off"
	}
	if n.Sign()*shown.Sign() < 0 || n.Sign() != 0 && shown.Sign() == 0 {
		return "sign differs"
	}
	return ""
}

var durTokRE = regexp.MustCompile(`^([0-9]+)(?:\.([0-9]+))?(d|h|m|s|ms|us|μs|µs|ns)$`)
var durUnits = map[string]*big.Int{"d": big.NewInt(86400e9), "h": big.NewInt(3600e9), "m": big.NewInt(60e9), "s": big.NewInt(1e9),
	"ms": big.NewInt(1e6), "us": big.NewInt(1e3), "μs": big.NewInt(1e3), "µs": big.NewInt(1e3), "ns": big.NewInt(1)}

// humanDuration tells how s fails to denote the duration.
func humanDuration(s string, d time.Duration, u units.Unit) string {
	if d < 0 {
		if s != durString(d, u) {
			return "want " + durString(d, u)
		}
		return ""
	}
	return humanLength(s, big.NewInt(int64(d)))
}

func humanLength(s string, ns *big.Int) string {
	sum := new(big.Rat)
	var gran *big.Rat
	var prev *big.Int
	for _, tok := range strings.Split(s, " ") {
		m := durTokRE.FindStringSubmatch(tok)
		if m == nil {
			return "not a duration"
		}
		un := durUnits[m[3]]
		if prev != nil && prev.Cmp(un) <= 0 {
			return "units not descending"
		}
		prev = un
		x := m[1]
		if m[2] != "" {
			x += "." + m[2]
		}
		v, _ := new(big.Rat).SetString(x)
		v.Mul(v, new(big.Rat).SetInt(un))
		sum.Add(sum, v)
		gran = new(big.Rat).SetInt(un)
		gran.Quo(gran, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(m[2]))), nil)))
	}
	true1 := new(big.Rat).SetInt(ns)
	if sum.Cmp(true1) > 0 || new(big.Rat).Add(sum, gran).Cmp(true1) <= 0 {
		return fmt.Sprintf("not %v ns rounded down to the last unit shown", ns)
	}
	// at least a tenth of the length is resolved
	ten := new(big.Rat).Mul(true1, big.NewRat(1, 10))
	if ns.Sign() > 0 && gran.Cmp(ten) > 0 && gran.Cmp(big.NewRat(1, 1)) > 0 {
		return "too coarse"
	}
	return ""
}

// humanTime tells how s fails to denote the instant in UTC.
func humanTime(s string, t time.Time) string {
	if !strings.HasSuffix(s, "Z") {
		return "not in UTC"
	}
	x, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return err.Error()
	}
	if !x.Equal(t) {
		return fmt.Sprintf("is %v away", x.Sub(t))
	}
	return ""
}

func c14(c *Ctx) {
	c.rule = "a case is one integer, duration or time read off an HTML page and compared with the exact value; distinct by type, unit and value"
	time.Local = pick(c.Rng, []*time.Location{time.FixedZone("X", 5*3600+1800), time.FixedZone("Y", -9*3600)})
	div := 1
	if c.Race() {
		div = 30
	}
	defer c.otherClients("html", "htmlget")()
	for i := 0; i < c.N(7000, 120000)/div; i++ {
		c14Round(c, i)
	}
	c.each(c.workers(), func(w int) {
		r := c.Sub("pretty", w)
		for i := 0; i < c.N(800000, 8000000)/div/c.workers(); i++ {
			c14Pretty(c, r)
		}
	})
}

func c14Pretty(c *Ctx, r *rand.Rand) {
	d := c14dur(r)
	if d < 0 {
		if p, _ := Panics(func() { duration.New(d).PrettyFormat() }); !p {
			c.Violate("pretty-negative", int64(d), "PrettyFormat of %d ns does not panic", int64(d))
		}
		return
	}
	if s := humanLength(duration.New(d).PrettyFormat(), big.NewInt(int64(d))); s != "" {
		c.Violate("pretty", int64(d), "%d ns shown as %q: %s", int64(d), duration.New(d).PrettyFormat(), s)
	}
	c.Case(fmt.Sprint("p", int64(d)))
}

// c14dur: durations around the places where the form changes.
func c14dur(r *rand.Rand) time.Duration {
	switch r.Intn(3) {
	case 0:
		return genDur(r)
	case 1:
		edge := pick(r, []time.Duration{10 * time.Microsecond, 1000 * time.Microsecond, 10 * time.Millisecond, time.Second, 10 * time.Second, time.Minute, time.Hour, 24 * time.Hour, 100 * 24 * time.Hour})
		return edge*time.Duration(1+r.Intn(3)) + time.Duration(r.Intn(2001)-1000)*pick(r, []time.Duration{1, 1000, 1000000, 1000000000})
	}
	return time.Duration(r.Int63() >> uint(r.Intn(63)))
}

// c14int: integers around the places where the form changes.
func c14int(r *rand.Rand, k *kindInfo) reflect.Value {
	v := k.genValue(r, genOpt{})
	if r.Intn(2) == 0 {
		return v
	}
	radix := pick(r, []float64{1000, 1024})
	f := pick(r, []float64{1, 9.994, 9.995, 9.996, 10, 99.94, 99.95, 99.96, 100, 100.5, 999.4, 999.5, 999.6, 1000, 1023, 10.05, 1.005, 1 + r.Float64()*1022}) * math.Pow(radix, float64(r.Intn(7)))
	f += float64(r.Intn(5) - 2)
	if k.class == "int" {
		if r.Intn(2) == 0 {
			f = -f
		}
		if math.Abs(f) < 9e18 {
			x := int64(f)
			nv := reflect.New(k.gt).Elem()
			nv.SetInt(x)
			return nv
		}
		return v
	}
	if f >= 0 && f < 1.8e19 {
		nv := reflect.New(k.gt).Elem()
		nv.SetUint(uint64(f))
		return nv
	}
	return v
}

func c14Round(c *Ctx, i int) {
	r := c.Sub("round", i)
	base := genBase(r)
	byPath := map[string]*gm{}
	n := 20
	var all []string
	for k := 0; k < n; k++ {
		all = append(all, fmt.Sprintf("%s/m%02d", base, k))
	}
	defer clearTops(all)
	for k := 0; k < n; k++ {
		var kk *kindInfo
		var val func() reflect.Value
		switch r.Intn(4) {
		case 0:
			kk = &kinds[13]
			val = func() reflect.Value { return reflect.ValueOf(c14dur(r)) }
		case 1:
			kk = &kinds[12]
			val = func() reflect.Value { return kk.genValue(r, genOpt{}) }
		default:
			kk = &kinds[1+r.Intn(8)]
			val = func() reflect.Value { return c14int(r, kk) }
		}
		if r.Intn(4) == 0 {
			// any other way to have such a metric
			g := kk.genMetric(r, genOpt{})
			g.Path, g.Unit = all[k], pick(r, allUnits)
			if err := g.register(); err != nil {
				c.Violate("refused", g.String(), "%v", err)
			}
			byPath[g.Path] = g
			continue
		}
		g := &gm{Path: all[k], Unit: pick(r, allUnits), Kind: kk.kind, Bits: kk.bits, Class: kk.class}
		if r.Intn(4) == 0 {
			s := reflect.MakeSlice(reflect.SliceOf(kk.gt), 0, 4)
			for j := r.Intn(4); j >= 0; j-- {
				s = reflect.Append(s, val())
			}
			g.Kind, g.Sub, g.Spec = types.List, kk.kind, tr.NewList(s.Interface(), false)
			x := s.Interface()
			g.Cur = func() interface{} { return x }
			l := g.Spec.(*tr.List)
			g.Set = func(*rand.Rand) {
				s := reflect.MakeSlice(reflect.SliceOf(kk.gt), 0, 4)
				for j := r.Intn(4); j >= 0; j-- {
					s = reflect.Append(s, val())
				}
				x = s.Interface()
				l.Change(x, false)
			}
		} else {
			p := reflect.New(kk.gt)
			p.Elem().Set(val())
			g.Spec = p.Interface()
			g.Cur = func() interface{} { return p.Elem().Interface() }
			g.Set = func(*rand.Rand) { p.Elem().Set(val()) }
		}
		if err := g.register(); err != nil {
			c.Violate("refused", g.String(), "%v", err)
		}
		byPath[g.Path] = g
	}
	for step := 0; step < 2; step++ {
		page := htmlPage(base)
		found, err := parsePage(page)
		var items []*hitem
		for _, it := range found {
			if it.kind != "link" {
				items = append(items, it)
			}
		}
		if err != nil || len(items) != n {
			c.Violate("page", page, "%d entries, %v", len(items), err)
		}
		for k, it := range items {
			p := all[k]
			if s := checkItem(it, p, byPath, nil); s != "" {
				c.Violate("shown", byPath[p].String(), "%s unit %q: %s", p, string(byPath[p].Unit), s)
			}
			c.Case(fmt.Sprint(byPath[p].Kind, byPath[p].Sub, byPath[p].Unit, byPath[p].Cur()))
		}
		if c.WantSample() {
			p := all[0]
			c.Sample(map[string]interface{}{"value": fmt.Sprint(byPath[p].Cur()), "unit": byPath[p].Unit, "shown": squeeze(items[0].text + fmt.Sprint(items[0].list))})
		}
		// pages of their own, and other values the next time
		p := pick(r, all)
		page = htmlPage(p)
		found, err = parsePage(page)
		if err != nil || len(found) != 1 {
			c.Violate("page", page, "page of %s has %d entries, %v", p, len(found), err)
		}
		if s := checkItem(found[0], p, byPath, nil); s != "" {
			c.Violate("shown", byPath[p].String(), "page of %s unit %q: %s", p, string(byPath[p].Unit), s)
		}
		for _, p := range all {
			if byPath[p].Set != nil && r.Intn(2) == 0 {
				byPath[p].Set(r)
			}
		}
	}
}
