package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C11"] = c11 }

func c11(c *Ctx) {
	c.rule = "a case is one conversion of a metric between Go RPC and JSON form compared with exact decimal arithmetic, or one text that must be refused; distinct by kind, unit, timestamp and value"
	div := 1
	if c.Race() {
		div = 20
	}
	c.each(c.N(300000, 6000000)/div, func(i int) { c11Round(c, c.Sub("rt", i)) })
	c.each(c.N(400000, 8000000)/div, func(i int) { c11Text(c, c.Sub("bad", i)) })
	c.each(c.N(40000, 400000)/div, func(i int) { c11Mismatch(c, c.Sub("mis", i)) })
	c.each(c.N(200, 4000), func(i int) { c11Served(c, i) })
}

// c11Served converts what the JSON API serves back.
func c11Served(c *Ctx, i int) {
	r := c.Sub("served", i)
	dir := c.dirOf(i)
	defer tr.UnregisterPath(dir)
	var gs []*gm
	for k := 0; k < 10; k++ {
		kk := &kinds[len(kinds)-1-r.Intn(2)]
		var g *gm
		if r.Intn(2) == 0 {
			g = kk.genMetric(r, genOpt{})
		} else {
			_, want := kk.genSlice(r, genOpt{}, kk.gt, genLen(r))
			g = &gm{Kind: types.List, Sub: kk.kind, Class: kk.class, Form: "list", Spec: tr.NewList(want.Interface(), false)}
			w := want.Interface()
			g.Cur = func() interface{} { return w }
		}
		g.Path, g.Unit = fmt.Sprintf("%s/m%d", dir, k), pick(r, allUnits)
		if err := g.register(); err != nil {
			c.Violate("refused", g.String(), "%v", err)
		}
		gs = append(gs, g)
	}
	jl, err := jsonList(dir)
	if err != nil || len(jl) != len(gs) {
		c.Violate("served", nil, "%d metrics %v", len(jl), err)
	}
	for k, j := range jl {
		g := gs[k]
		m := messages.Metric{Path: j.Path, Kind: types.Type(j.Kind), SubType: types.Type(j.SubType), Unit: units.Unit(j.Unit), TimeStamp: j.TimeStamp}
		if j.Kind == "list" {
			var s []string
			if err := jsonInto(j, &s); err != nil {
				c.Violate("served", string(j.Value), "%v", err)
			}
			m.Value = s
		} else {
			var s string
			if err := jsonInto(j, &s); err != nil {
				c.Violate("served", string(j.Value), "%v", err)
			}
			m.Value = s
		}
		if err := m.ConvertToGoRPC(); err != nil {
			c.Violate("served-error", g.String(), "%s cannot be converted back: %v", g, err)
		}
		want := zeroAsEpoch(g.Cur())
		if !sameValue(m.Value, want) || m.Kind != g.Kind || m.SubType != g.Sub {
			c.Violate("served-differs", g.String(), "%s served as %s converts back to %v", g, short(string(j.Value)), m.Value)
		}
		c.Case(fmt.Sprint("served", g.Unit, want))
	}
}

// zeroAsEpoch: the zero time has no JSON form of its own.
func zeroAsEpoch(x interface{}) interface{} {
	switch v := x.(type) {
	case time.Time:
		if v.IsZero() {
			return time.Unix(0, 0)
		}
	case []time.Time:
		w := append([]time.Time(nil), v...)
		for i := range w {
			if w[i].IsZero() {
				w[i] = time.Unix(0, 0)
			}
		}
		return w
	}
	return x
}

func nonZeroTime(r *rand.Rand) time.Time {
	for {
		if t := genTime(r); !t.IsZero() {
			return t
		}
	}
}

func c11Round(c *Ctx, r *rand.Rand) {
	u := pick(r, allUnits)
	m := messages.Metric{Path: "/p" + fmt.Sprint(r.Intn(9)), Description: pick(r, []string{"", "d"}), Unit: u, Bits: r.Intn(2) * 8, GroupId: r.Intn(5)}
	var wantJSON interface{}
	var wantKind, wantSub types.Type
	switch r.Intn(6) {
	case 0:
		d := genDur(r)
		m.Value, m.Kind = d, types.GoDuration
		wantJSON, wantKind = durString(d, u), types.Duration
	case 1:
		t := nonZeroTime(r)
		m.Value, m.Kind = t, types.GoTime
		wantJSON, wantKind = timeString(t, u), types.Time
	case 2:
		n := genLen(r)
		l, s := make([]time.Duration, n), make([]string, n)
		for i := range l {
			l[i] = genDur(r)
			s[i] = durString(l[i], u)
		}
		m.Value, m.Kind, m.SubType = l, types.List, types.GoDuration
		wantJSON, wantKind, wantSub = s, types.List, types.Duration
	case 3:
		n := genLen(r)
		l, s := make([]time.Time, n), make([]string, n)
		for i := range l {
			l[i] = nonZeroTime(r)
			s[i] = timeString(l[i], u)
		}
		m.Value, m.Kind, m.SubType = l, types.List, types.GoTime
		wantJSON, wantKind, wantSub = s, types.List, types.Time
	case 4:
		k := &kinds[r.Intn(len(kinds)-2)]
		v := k.genValue(r, genOpt{}).Interface()
		m.Value, m.Kind = v, k.kind
		wantJSON, wantKind = v, k.kind
	case 5:
		k := &kinds[r.Intn(len(kinds)-2)]
		_, v := k.genSlice(r, genOpt{}, k.gt, genLen(r))
		m.Value, m.Kind, m.SubType = v.Interface(), types.List, k.kind
		wantJSON, wantKind, wantSub = v.Interface(), types.List, k.kind
		if r.Intn(8) == 0 {
			m.Value = reflect.Zero(v.Type()).Interface()
			wantJSON = reflect.MakeSlice(v.Type(), 0, 0).Interface()
		}
	}
	var wantTs interface{} = ""
	if r.Intn(4) > 0 {
		t := nonZeroTime(r)
		m.TimeStamp = t
		wantTs = decimal(timeNs(t))
	}
	orig := m
	fail := func(sig, f string, a ...interface{}) {
		c.Violate(sig, fmt.Sprintf("%+v", orig), "%+v: %s", orig, fmt.Sprintf(f, a...))
	}
	jv, jk, js := messages.AsJsonWithSubType(m.Value, m.Kind, m.SubType, m.Unit)
	if !sameValue(jv, wantJSON) || jk != wantKind || js != wantSub {
		fail("as-json", "AsJsonWithSubType gives %v %s %s, want %v %s %s", jv, jk, js, wantJSON, wantKind, wantSub)
	}
	m.ConvertToJson()
	checkJSON := func(how string) {
		if !sameValue(m.Value, wantJSON) || m.Kind != wantKind || m.SubType != wantSub {
			fail("to-json", "%s gives %v %s %s, want %v %s %s", how, m.Value, m.Kind, m.SubType, wantJSON, wantKind, wantSub)
		}
		if v := reflect.ValueOf(m.Value); v.Kind() == reflect.Slice && v.IsNil() {
			fail("nil-list", "%s leaves a nil list", how)
		}
		if m.TimeStamp != wantTs {
			fail("timestamp", "%s gives timestamp %v, want %v", how, m.TimeStamp, wantTs)
		}
		if m.Path != orig.Path || m.Description != orig.Description || m.Unit != orig.Unit || m.Bits != orig.Bits || m.GroupId != orig.GroupId {
			fail("other-fields", "%s changes other fields: %+v", how, m)
		}
	}
	checkJSON("ConvertToJson")
	m.ConvertToJson()
	checkJSON("ConvertToJson twice")
	checkGo := func(how string) {
		if !sameValue(m.Value, orig.Value) || m.Kind != orig.Kind || m.SubType != orig.SubType {
			fail("to-gorpc", "%s gives %v (%T) %s %s", how, m.Value, m.Value, m.Kind, m.SubType)
		}
		switch t := orig.TimeStamp.(type) {
		case nil:
			if m.TimeStamp != nil {
				fail("timestamp-back", "%s gives timestamp %v", how, m.TimeStamp)
			}
		case time.Time:
			if x, ok := m.TimeStamp.(time.Time); !ok || !x.Equal(t) {
				fail("timestamp-back", "%s gives timestamp %v", how, m.TimeStamp)
			}
		}
		if m.Path != orig.Path || m.Description != orig.Description || m.Unit != orig.Unit || m.Bits != orig.Bits || m.GroupId != orig.GroupId {
			fail("other-fields", "%s changes other fields: %+v", how, m)
		}
	}
	if r.Intn(4) == 0 {
		// also a metric that is in Go RPC form already
		n := orig
		if err := n.ConvertToGoRPC(); err != nil {
			fail("to-gorpc-error", "ConvertToGoRPC of a Go RPC metric: %v", err)
		}
		if !sameValue(n.Value, orig.Value) || n.Kind != orig.Kind || n.SubType != orig.SubType {
			fail("to-gorpc", "ConvertToGoRPC of a Go RPC metric gives %+v", n)
		}
	}
	if err := m.ConvertToGoRPC(); err != nil {
		fail("to-gorpc-error", "ConvertToGoRPC of %v: %v", wantJSON, err)
	}
	checkGo("ConvertToGoRPC")
	if err := m.ConvertToGoRPC(); err != nil {
		fail("to-gorpc-error", "ConvertToGoRPC twice: %v", err)
	}
	checkGo("ConvertToGoRPC twice")
	if m.Kind == types.GoDuration {
		d := orig.Value.(time.Duration)
		if duration.New(d).AsGoDuration() != d || duration.New(d).String() != durString(d, units.Second) || duration.New(d).StringUsingUnits(u) != durString(d, u) || duration.New(d).IsNegative() != (d < 0) {
			fail("duration", "duration.New gives %+v %q %q", duration.New(d), duration.New(d), duration.New(d).StringUsingUnits(u))
		}
	}
	if m.Kind == types.GoTime {
		t := orig.Value.(time.Time)
		d := duration.SinceEpoch(t)
		if !d.AsGoTime().Equal(t) || d.StringUsingUnits(u) != timeString(t, u) || d.IsNegative() != t.Before(time.Unix(0, 0)) {
			fail("duration", "duration.SinceEpoch gives %+v %q", d, d.StringUsingUnits(u))
		}
	}
	c.Case(fmt.Sprint(orig.Kind, orig.SubType, u, wantJSON, wantTs))
	if c.WantSample() {
		c.Sample(fmt.Sprintf("%+v <-> %v %v", orig, wantJSON, wantTs))
	}
}

var (
	plainRE = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)
	maybeRE = regexp.MustCompile(`^-?[0-9]*(\.[0-9]*)?$`)
)

// genNumber returns text that may or may not be a decimal number.
func genNumber(r *rand.Rand) string {
	var s string
	switch r.Intn(5) {
	case 0:
		s = durString(genDur(r), pick(r, []units.Unit{units.Second, units.Millisecond}))
	case 1:
		s = fmt.Sprint(genBits(r))
	case 2:
		s = fmt.Sprintf("%d.%d", genBits(r), r.Intn(1e9))
	case 3:
		// around the largest durations
		n := new(big.Int).SetUint64(1 << 63)
		n.Add(n, big.NewInt(int64(r.Intn(5)-2)))
		if r.Intn(2) == 0 {
			n.Mul(n, big.NewInt(1000))
			n.Add(n, big.NewInt(int64(r.Intn(2001)-1000)))
		}
		if r.Intn(2) == 0 {
			n.Neg(n)
		}
		if r.Intn(3) == 0 {
			s = n.String()
		} else {
			s = decimal(n)
		}
	default:
		for i := r.Intn(8); i >= 0; i-- {
			s += string("0123456789.-+eE xX_"[r.Intn(19)])
		}
		return s
	}
	for i := r.Intn(3); i > 0 && len(s) > 0; i-- {
		p := r.Intn(len(s) + 1)
		switch r.Intn(4) {
		case 0:
			s = s[:p] + pick(r, []string{"-", "+", ".", "e5", "x", " ", "\n", "_", ",", "٣", "0", "9", "--", "-.", "\x00", "∞", "1", "é"}) + s[p:]
		case 1:
			if p < len(s) {
				s = s[:p] + s[p+1:]
			}
		case 2:
			s = s + pick(r, []string{"0", "x", " ", ".", "s", "e1", "000000000000"})
		case 3:
			s = pick(r, []string{"+", "-", " ", "0", "0x", ".", "000000000000000000000"}) + s
		}
	}
	return s
}

// c11Text converts text to a duration or time and compares with big integers.
func c11Text(c *Ctx, r *rand.Rand) {
	s := genNumber(r)
	u := pick(r, []units.Unit{units.Second, units.Millisecond, units.None, units.Unknown})
	kind := pick(r, []types.Type{types.Duration, types.Duration, types.Time})
	m := messages.Metric{Value: s, Kind: kind, Unit: u, TimeStamp: "5.000000000"}
	list := r.Intn(3) == 0
	at := 0 // where in the list s is
	var given []string
	if list {
		m.Kind, m.SubType = types.List, kind
		// among good ones
		l := make([]string, 1+r.Intn(5))
		for i := range l {
			l[i] = pick(r, []string{"1.5", "0.000000000", "-2", "1500000.000000001"})
		}
		at = r.Intn(len(l))
		l[at] = s
		given = append([]string(nil), l...)
		m.Value = l
	}
	where := "value"
	if kind == types.Time && r.Intn(3) == 0 {
		// as the timestamp, which is in seconds
		where = "timestamp"
		m.Kind, m.SubType, m.Value, m.TimeStamp = types.Int64, types.Unknown, int64(5), s
		list = false
		u = units.Second
	}
	orig := m
	err := m.ConvertToGoRPC()
	fail := func(sig, f string, a ...interface{}) {
		c.Violate(sig, map[string]interface{}{"text": s, "unit": u, "kind": kind, "where": where}, "%s %q unit %q: %s", kind, s, string(u), fmt.Sprintf(f, a...))
	}
	if where == "timestamp" && s == "" {
		if err != nil || m.TimeStamp != nil {
			fail("empty-timestamp", "%v %v", m.TimeStamp, err)
		}
		return
	}
	if l, ok := orig.Value.([]string); ok && !reflect.DeepEqual(l, given) {
		fail("touched", "the list %q was changed to %q", given, l)
	}
	if err != nil && !reflect.DeepEqual(m, orig) {
		fail("touched", "refused with %v but changed to %+v", err, m)
	}
	plain, maybe := plainRE.MatchString(s), maybeRE.MatchString(s) && strings.ContainsAny(s, "0123456789")
	key := fmt.Sprint(kind, list, where, u, s)
	switch {
	case !maybe:
		if err == nil {
			fail("accepted", "accepted as %v", m.Value)
		}
		c.Count("malformed_refused", 1)
		c.Case(key)
		return
	case !plain:
		return
	}
	// exact value in billionths of a nanosecond
	neg := strings.HasPrefix(s, "-")
	t := strings.TrimPrefix(s, "-")
	w, f, _ := strings.Cut(t, ".")
	scale := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(f))), nil)
	n, _ := new(big.Int).SetString(w+f, 10)
	n.Mul(n, nine) // in nanoseconds * scale, if seconds
	if u == units.Millisecond {
		n.Div(n, big.NewInt(1000))
		if len(f) > 6 && strings.Trim(f[6:], "0") != "" {
			// finer than a nanosecond
			c11Near(c, key, &m, at, where, err, n, scale, neg, fail)
			return
		}
	} else if len(f) > 9 && strings.Trim(f[9:], "0") != "" {
		c11Near(c, key, &m, at, where, err, n, scale, neg, fail)
		return
	}
	n.Div(n, scale)
	if neg {
		n.Neg(n)
	}
	if kind == types.Time {
		sec, ns := new(big.Int).DivMod(n, nine, new(big.Int))
		if !sec.IsInt64() || sec.Int64() < -62135596800 || sec.Int64() > 253402300799 {
			return // beyond what is claimed
		}
		want := time.Unix(sec.Int64(), ns.Int64())
		var got interface{} = m.Value
		if where == "timestamp" {
			got = m.TimeStamp
		} else if l, ok := got.([]time.Time); ok && list {
			got = l[at]
		}
		g, ok := got.(time.Time)
		if err != nil || !ok || !g.Equal(want) {
			fail("value", "converted to %v (%v), want %v", got, err, want)
		}
		c.Case(key)
		return
	}
	if !n.IsInt64() {
		if err == nil {
			fail("overflow", "accepted as %v", m.Value)
		}
		c.Count("overflow_refused", 1)
		c.Case(key)
		return
	}
	if len(w) > 18 && n.Sign() != 0 || len(w) > 100 {
		// padded with zeros: whether that is plain is open
		if err != nil {
			return
		}
	}
	var got interface{} = m.Value
	if l, ok := got.([]time.Duration); ok && list {
		got = l[at]
	}
	if g, ok := got.(time.Duration); err != nil || !ok || int64(g) != n.Int64() {
		fail("value", "converted to %v (%v), want %v", got, err, time.Duration(n.Int64()))
	}
	c.Case(key)
}

// c11Near: digits beyond a nanosecond may be refused or dropped, no more.
func c11Near(c *Ctx, key string, m *messages.Metric, at int, where string, err error, n, scale *big.Int, neg bool, fail func(string, string, ...interface{})) {
	if err != nil {
		return
	}
	var got *big.Int
	switch v := m.Value.(type) {
	case time.Duration:
		got = big.NewInt(int64(v))
	case []time.Duration:
		got = big.NewInt(int64(v[at]))
	case time.Time:
		got = timeNs(v)
	case []time.Time:
		got = timeNs(v[at])
	default:
		if t, ok := m.TimeStamp.(time.Time); ok && where == "timestamp" {
			got = timeNs(t)
		} else {
			fail("value", "converted to %T", m.Value)
		}
	}
	w := new(big.Int).Div(n, scale)
	if neg {
		w.Neg(w)
	}
	if !w.IsInt64() {
		if m.Kind == types.GoDuration || m.SubType == types.GoDuration {
			if w.CmpAbs(new(big.Int).Lsh(big.NewInt(1), 63)) > 0 {
				fail("overflow", "accepted as %v", m.Value)
			}
		}
		return
	}
	if d := new(big.Int).Sub(got, w); d.CmpAbs(big.NewInt(1)) > 0 {
		fail("value", "converted to %v, want about %v", got, w)
	}
	c.Case(key)
}

// c11Mismatch gives values that do not match their kind.
func c11Mismatch(c *Ctx, r *rand.Rand) {
	others := []interface{}{nil, 5, int64(5), 1.5, true, []byte("5"), []string{"5"}, map[string]string{}, []int64{5}, struct{}{}, uint64(7), []float64{}}
	m := messages.Metric{Path: "/p", Unit: pick(r, allUnits), TimeStamp: pick(r, []interface{}{nil, "", "5.000000000", time.Unix(7, 0)})}
	what := ""
	switch r.Intn(4) {
	case 0:
		m.Kind = pick(r, []types.Type{types.Duration, types.Time})
		m.Value = pick(r, others)
		what = "value"
	case 1:
		m.Kind, m.SubType = types.List, pick(r, []types.Type{types.Duration, types.Time})
		m.Value = pick(r, []interface{}{nil, 5, "5.0", int64(5), []int64{5}, []byte("5"), true, map[string]string{}, [][]string{{"5"}}})
		what = "list"
	case 2:
		m.Kind, m.Value = types.Int64, int64(5)
		m.TimeStamp = pick(r, []interface{}{5, int64(5), 1.5, true, []byte("5"), []string{"5"}, time.Second})
		what = "timestamp"
	case 3:
		// a good value with a bad timestamp
		m.Kind, m.Value = types.Duration, "5.000000000"
		if r.Intn(2) == 0 {
			m.Kind, m.SubType, m.Value = types.List, types.Time, []string{"5.000000000", "6.000000000"}
		}
		m.TimeStamp = pick(r, []interface{}{5, "x", "5.0.0", "1e5", " 5", "--5", true})
		what = "timestamp of a good value"
	}
	orig := m
	var err error
	if p, v := Panics(func() { err = m.ConvertToGoRPC() }); p {
		c.Violate("mismatch-panic", fmt.Sprintf("%#v", orig), "%s: ConvertToGoRPC of %#v panics: %v", what, orig, v)
	}
	if err == nil {
		c.Violate("mismatch-accepted", fmt.Sprintf("%#v", orig), "%s: ConvertToGoRPC of %#v succeeds", what, orig)
	}
	if !reflect.DeepEqual(m, orig) {
		c.Violate("touched", fmt.Sprintf("%#v", orig), "%s: refused with %v but changed from %#v to %#v", what, err, orig, m)
	}
	c.Case(fmt.Sprint("mis", what, orig.Kind, orig.SubType, orig.Value, orig.TimeStamp))
	c.Count("mismatched_refused", 1)
}
