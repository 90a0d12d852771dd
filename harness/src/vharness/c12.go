package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C12"] = c12 }

func c12(c *Ctx) {
	c.rule = "a case is one conversion to or from float64 compared with exact arithmetic, or one row of the type tables; distinct by type and value"
	div := 1
	if c.Race() {
		div = 30
	}
	c.each(c.workers(), func(w int) {
		r := c.Sub("all", w)
		for i := 0; i < c.N(2000000, 12000000)/div/c.workers(); i++ {
			k := &kinds[1+r.Intn(10)]
			c12To(c, k, r)
			c12From(c, k, r)
		}
		for i := 0; i < c.N(1200000, 8000000)/div/c.workers(); i++ {
			c12Dur(c, r)
			c12Time(c, r)
		}
	})
	c12Tables(c)
	// all of the small types
	for _, k := range kinds {
		if k.bits != 8 && k.bits != 16 {
			continue
		}
		for x := -32768; x < 65536; x++ {
			v := reflect.New(k.gt).Elem()
			if k.class == "int" {
				v.SetInt(int64(x))
				if v.Int() != int64(x) {
					continue
				}
			} else {
				if x < 0 {
					continue
				}
				v.SetUint(uint64(x))
				if v.Uint() != uint64(x) {
					continue
				}
			}
			c12Check(c, &k, v)
		}
	}
}

// exact returns the exact value of a number.
func exact(v reflect.Value) *big.Float {
	f := new(big.Float).SetPrec(200)
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return f.SetFloat64(v.Float())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return f.SetInt64(v.Int())
	default:
		return f.SetUint64(v.Uint())
	}
}

// c12Check converts a value to float and back.
func c12Check(c *Ctx, k *kindInfo, v reflect.Value) {
	x := v.Interface()
	f := k.kind.ToFloat(x)
	e := exact(v)
	near, acc := e.Float64()
	if f != near {
		c.Violate("to-float", fmt.Sprint(x), "%s.ToFloat(%v) = %v, want %v", k.kind, x, f, near)
	}
	if acc == big.Exact {
		if back := k.kind.FromFloat(f); back != x {
			c.Violate("round-trip", fmt.Sprint(x), "%s %v converted to float is %v and back %v (%T)", k.kind, x, f, back, back)
		}
	}
	c.Case(fmt.Sprint(k.kind, x))
}

func c12To(c *Ctx, k *kindInfo, r *rand.Rand) {
	v := k.genValue(r, genOpt{})
	if r.Intn(3) == 0 && k.bits == 64 && k.class != "float" {
		// exactly representable, beyond 2^52
		sh := uint(r.Intn(11))
		x := (r.Uint64()>>11 | 1) << sh
		if k.class == "int" {
			y := int64(x &^ (1 << 63))
			if r.Intn(2) == 0 {
				y = -y
			}
			v.SetInt(y)
		} else {
			v.SetUint(x)
		}
	}
	c12Check(c, k, v)
}

// c12From converts floats, among them halves, to a type that can hold them.
func c12From(c *Ctx, k *kindInfo, r *rand.Rand) {
	var f float64
	switch r.Intn(4) {
	case 0:
		f = float64(r.Intn(600)-300) / 2
	case 1:
		f = exactFloat(k.genValue(r, genOpt{})) + pick(r, []float64{0, 0.5, -0.5, 0.25, 0.75, -0.25, 0.49999999999999994, -0.49999999999999994})
	case 2:
		f = math.Nextafter(float64(r.Intn(2000)-1000)+0.5, float64(r.Intn(3)-1)*1e9)
	default:
		f = genFloat(r)
	}
	var got interface{}
	if k.class == "float" {
		got = k.kind.FromFloat(f)
		var want interface{} = f
		if k.bits == 32 {
			want = float32(f)
		}
		if got != want && f == f {
			c.Violate("from-float", f, "%s.FromFloat(%v) = %v, want %v", k.kind, f, got, want)
		}
		c.Case(fmt.Sprint("f", k.kind, f))
		return
	}
	// the nearest integer, halves away from zero
	b := new(big.Float).SetPrec(2000).SetFloat64(f)
	h := big.NewFloat(0.5)
	if f < 0 {
		b.Sub(b, h)
	} else {
		b.Add(b, h)
	}
	n, _ := b.Int(nil)
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(k.bits))
	if k.class == "int" {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
		return // cannot hold it
	}
	want := reflect.New(k.gt).Elem()
	if k.class == "int" {
		want.SetInt(n.Int64())
	} else {
		want.SetUint(n.Uint64())
	}
	got = k.kind.FromFloat(f)
	if got != want.Interface() {
		c.Violate("from-float", f, "%s.FromFloat(%v) = %v (%T), want %v", k.kind, f, got, got, want.Interface())
	}
	c.Case(fmt.Sprint("f", k.kind, f))
}

func exactFloat(v reflect.Value) float64 {
	f, _ := exact(v).Float64()
	return f
}

const thirteenDays = 13 * 24 * time.Hour

func c12Dur(c *Ctx, r *rand.Rand) {
	d := genDur(r)
	if r.Intn(2) == 0 || d > thirteenDays || d < -thirteenDays {
		d = time.Duration(r.Int63n(int64(2*thirteenDays))) - thirteenDays
		if r.Intn(2) == 0 {
			d >>= uint(r.Intn(50))
		}
	}
	f := types.GoDuration.ToFloat(d)
	if w := float64(d) / 1e9; math.Abs(f-w) > math.Abs(w)*4e-16 || f != duration.ToFloat(d) {
		c.Violate("duration-to-float", int64(d), "%v (%d ns) converted to float is %v", d, int64(d), f)
	}
	if back := types.GoDuration.FromFloat(f); back != d {
		c.Violate("duration-round-trip", int64(d), "%d ns converted to float and back is %d ns", int64(d), back)
	}
	if back := duration.FromFloat(f); back != d {
		c.Violate("duration-round-trip", int64(d), "%d ns converted to float and back is %d ns", int64(d), back)
	}
	// any float within range: the nearest nanosecond
	g := (r.Float64() - 0.5) * 2 * float64(thirteenDays) / 1e9 / math.Pow10(r.Intn(12))
	got := types.GoDuration.FromFloat(g).(time.Duration)
	e := new(big.Float).SetPrec(200).SetFloat64(g)
	e.Mul(e, big.NewFloat(1e9))
	e.Sub(e, new(big.Float).SetInt64(int64(got)))
	if x, _ := e.Float64(); math.Abs(x) > 0.5+math.Abs(float64(got))*2.3e-16 {
		c.Violate("duration-from-float", g, "%v seconds become %d ns, %v away", g, got, x)
	}
	c.Case(fmt.Sprint("d", int64(d)))
}

func c12Time(c *Ctx, r *rand.Rand) {
	// 1900 to 2100
	t := time.Unix(-2208988800+r.Int63n(6311433600), r.Int63n(1e9)).In(pick(r, zones))
	switch r.Intn(3) {
	case 0:
		t = t.Truncate(time.Second)
	case 1:
		t = time.Unix(int64(r.Intn(5)-2), r.Int63n(1e9))
	}
	f := types.GoTime.ToFloat(t)
	w := float64(t.Unix()) + float64(t.Nanosecond())/1e9
	if math.Abs(f-w) > 1e-6 || f != duration.TimeToFloat(t) {
		c.Violate("time-to-float", t.String(), "%v converted to float is %v, want %v", t, f, w)
	}
	for _, back := range []time.Time{types.GoTime.FromFloat(f).(time.Time), duration.FloatToTime(f)} {
		if d := back.Sub(t); d > time.Microsecond || d < -time.Microsecond {
			c.Violate("time-round-trip", t.String(), "%v converted to float and back is %v away", t, d)
		}
	}
	if d := duration.SinceEpochFloat(f).AsGoTime().Sub(t); d > time.Microsecond || d < -time.Microsecond {
		c.Violate("time-round-trip", t.String(), "SinceEpochFloat(%v) is %v away from %v", f, d, t)
	}
	if g := duration.SinceEpoch(t).AsFloat(); math.Abs(g-w) > 1e-6 {
		c.Violate("time-to-float", t.String(), "SinceEpoch(%v).AsFloat() is %v", t, g)
	}
	c.Case(fmt.Sprint("t", t.UnixNano()))
}

type c12named struct{}

func (c12named) Type() types.Type { return types.Dist }

func c12Tables(c *Ctx) {
	type row struct {
		t     types.Type
		gt    reflect.Type // nil: no zero value
		bits  int
		class string
	}
	rows := []row{{types.Dist, nil, 0, "dist"}, {types.List, nil, 0, "list"}, {types.Unknown, nil, 0, "unknown"},
		{types.Time, rt(""), 0, "jtime"}, {types.Duration, rt(""), 0, "jdur"}, {types.Type("furlong"), nil, 0, "other"}, {types.Type("Int8"), nil, 0, "other"}}
	for _, k := range kinds {
		rows = append(rows, row{k.kind, k.gt, k.bits, k.class})
	}
	fail := func(sig string, t types.Type, f string, a ...interface{}) {
		c.Violate(sig, string(t), "type %q: %s", string(t), fmt.Sprintf(f, a...))
	}
	for _, w := range rows {
		t := w.t
		c.Case("table " + string(t))
		if t.Bits() != w.bits {
			fail("bits", t, "%d bits, want %d", t.Bits(), w.bits)
		}
		if t.IsInt() != (w.class == "int") || t.IsUint() != (w.class == "uint") || t.IsFloat() != (w.class == "float") {
			fail("class", t, "IsInt %v IsUint %v IsFloat %v, is %s", t.IsInt(), t.IsUint(), t.IsFloat(), w.class)
		}
		if t.UsesSubType() != (t == types.List) {
			fail("subtype", t, "UsesSubType %v", t.UsesSubType())
		}
		if eq := t != types.List && t != types.Dist && t != types.Unknown; w.class != "other" && t.SupportsEquality() != eq {
			fail("equality", t, "SupportsEquality %v", t.SupportsEquality())
		}
		num := w.class == "int" || w.class == "uint" || w.class == "float" || w.class == "time" || w.class == "dur"
		if t.CanToFromFloat() != num {
			fail("can-float", t, "CanToFromFloat %v", t.CanToFromFloat())
		}
		if p, _ := Panics(func() { t.FromFloat(1) }); p == num {
			fail("from-float-panic", t, "FromFloat panics: %v", p)
		}
		z, err := t.SafeZeroValue()
		n, err2 := t.SafeNilSlice()
		if w.gt == nil {
			if err == nil || z != nil || err2 == nil || n != nil {
				fail("zero", t, "has a zero value %v or nil slice %v", z, n)
			}
			if p, _ := Panics(func() { t.ZeroValue() }); !p {
				fail("zero-panic", t, "ZeroValue does not panic")
			}
			if p, _ := Panics(func() { t.NilSlice() }); !p {
				fail("slice-panic", t, "NilSlice does not panic")
			}
			mz, err := messages.ZeroValue(t)
			if t == types.Dist {
				if d, ok := mz.(*messages.Distribution); !ok || d != nil || err != nil {
					fail("messages-zero", t, "messages.ZeroValue gives %v %v", mz, err)
				}
			} else if err == nil || mz != nil {
				fail("messages-zero", t, "messages.ZeroValue gives %v %v", mz, err)
			}
			for _, x := range []interface{}{nil, 5, int64(5), "5", true} {
				if p, _ := Panics(func() { t.ToFloat(x) }); !p {
					fail("to-float-panic", t, "ToFloat(%T) does not panic", x)
				}
			}
			continue
		}
		mz, err3 := messages.ZeroValue(t)
		if err != nil || err2 != nil || err3 != nil {
			fail("zero", t, "%v %v %v", err, err2, err3)
		}
		want := reflect.Zero(w.gt).Interface()
		if w.class == "jtime" || w.class == "jdur" {
			want = "0.000000000"
		}
		if z != want || t.ZeroValue() != want || mz != want {
			fail("zero", t, "zero value %v (%T) %v %v, want %v (%T)", z, z, t.ZeroValue(), mz, want, want)
		}
		if reflect.TypeOf(n) != reflect.SliceOf(w.gt) || !reflect.ValueOf(n).IsNil() || reflect.TypeOf(t.NilSlice()) != reflect.SliceOf(w.gt) || !reflect.ValueOf(t.NilSlice()).IsNil() {
			fail("nil-slice", t, "nil slice %v (%T)", n, n)
		}
		as := t
		if w.class == "jtime" || w.class == "jdur" {
			as = types.String
		}
		if g := types.FromGoValue(z); g != as {
			fail("from-go", t, "FromGoValue of its zero value gives %q", string(g))
		}
		if k, s := types.FromGoValueWithSubType(z); k != as || s != types.Unknown {
			fail("from-go", t, "FromGoValueWithSubType of its zero value gives %q %q", string(k), string(s))
		}
		if k, s := types.FromGoValueWithSubType(n); k != types.List || s != as {
			fail("from-go", t, "FromGoValueWithSubType of its nil slice gives %q %q", string(k), string(s))
		}
		if g := types.FromGoValue(n); g != types.List {
			fail("from-go", t, "FromGoValue of its nil slice gives %q", string(g))
		}
		if num {
			if f := t.ToFloat(z); f != 0 && w.class != "time" {
				fail("to-float", t, "ToFloat of its zero value is %v", f)
			}
			if x := t.FromFloat(0); reflect.TypeOf(x) != w.gt || w.class != "time" && x != z || w.class == "time" && !x.(time.Time).Equal(time.Unix(0, 0)) {
				fail("from-float", t, "FromFloat(0) is %v (%T)", x, x)
			}
		} else if p, _ := Panics(func() { t.ToFloat(z) }); !p {
			fail("to-float-panic", t, "ToFloat does not panic")
		}
	}
	// values of no documented type
	for _, x := range []interface{}{nil, 5, uint(5), nInt64(1), nStr(""), nBool(true), struct{}{}, complex(1, 1), []int{1}, []uint{}, []interface{}{}, [2]int64{}, map[string]int{},
		new(int64), new(time.Time), []*int64{}, [][]int64{}, func() {}, make(chan int), errNope, uintptr(3), []nInt64{}, []complex64{}} {
		k, s := types.FromGoValueWithSubType(x)
		if k != types.Unknown || s != types.Unknown || types.FromGoValue(x) != types.Unknown {
			c.Violate("unknown-known", fmt.Sprintf("%T", x), "FromGoValueWithSubType(%T) = %q %q", x, string(k), string(s))
		}
		c.Case(fmt.Sprintf("unknown %T", x))
	}
	var nilDist *messages.Distribution
	for _, x := range []interface{}{nilDist, &messages.Distribution{}, &messages.Distribution{Count: 5}} {
		if k, s := types.FromGoValueWithSubType(x); k != types.Dist || s != types.Unknown {
			c.Violate("dist", nil, "FromGoValueWithSubType(%T) = %q %q", x, string(k), string(s))
		}
	}
	// units
	for _, u := range allUnits {
		want := 1.0
		if u == units.Millisecond {
			want = 1000
		}
		n, d := units.FromSecondsRational(u)
		if units.FromSeconds(u) != want || d == 0 || float64(n)/float64(d) != want {
			c.Violate("unit", string(u), "unit %q: FromSeconds %v, %d/%d", string(u), units.FromSeconds(u), n, d)
		}
		s := string(u)
		if u == units.Unknown {
			s = "Unknown"
		}
		if u.String() != s {
			c.Violate("unit", string(u), "unit %q is shown as %q", string(u), u.String())
		}
		c.Case("unit " + string(u))
	}
}

var errNope = fmt.Errorf("nope")
