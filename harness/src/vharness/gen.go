package main

import (
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// User-defined types, some with methods that must not influence reporting.
type (
	nBool   bool
	nInt    int
	nInt8   int8
	nInt16  int16
	nInt32  int32
	nInt64  int64
	nUint   uint
	nUint8  uint8
	nUint16 uint16
	nUint32 uint32
	nUint64 uint64
	nF32    float32
	nF64    float64
	nStr    string

	// names that look like those of special types
	Duration int64
	Time     int64
	Value    string
)

func (d Duration) Seconds() float64   { return 1 }
func (d Duration) Nanoseconds() int64 { return 1 }
func (t Time) Unix() int64            { return 1 }
func (v *Value) Set(s string) error   { return nil }

func (n nInt64) String() string                { return "not the value" }
func (n nStr) String() string                  { return "not the value" }
func (n nF64) MarshalJSON() ([]byte, error)    { return []byte(`"not the value"`), nil }
func (n nUint32) MarshalJSON() ([]byte, error) { return []byte(`"not the value"`), nil }
func (n nInt32) GobEncode() ([]byte, error)    { return []byte("x"), nil }
func (n *nInt32) GobDecode([]byte) error       { return nil }

// Different types of one name.
func localInt() reflect.Type    { type Local int64; return rt(Local(0)) }
func localInt8() reflect.Type   { type Local int8; return rt(Local(0)) }
func localUint() reflect.Type   { type Local uint32; return rt(Local(0)) }
func localFloat() reflect.Type  { type Local float64; return rt(Local(0)) }
func localString() reflect.Type { type Local string; return rt(Local("")) }
func localBool() reflect.Type   { type Local bool; return rt(Local(false)) }

// kindInfo describes one kind of single value.
type kindInfo struct {
	kind  types.Type   // as documented
	gt    reflect.Type // documented Go type
	alts  []reflect.Type
	bits  int
	class string // bool int uint float string time dur
}

func rt(x interface{}) reflect.Type { return reflect.TypeOf(x) }

var kinds = []kindInfo{
	{types.Bool, rt(false), []reflect.Type{rt(nBool(false)), localBool()}, 0, "bool"},
	{types.Int8, rt(int8(0)), []reflect.Type{rt(nInt8(0)), localInt8()}, 8, "int"},
	{types.Int16, rt(int16(0)), []reflect.Type{rt(nInt16(0))}, 16, "int"},
	{types.Int32, rt(int32(0)), []reflect.Type{rt(nInt32(0))}, 32, "int"},
	{types.Int64, rt(int64(0)), []reflect.Type{rt(int(0)), rt(nInt64(0)), localInt(), rt(nInt(0)), rt(Duration(0)), rt(Time(0)), rt(time.Month(0)), rt(syscall.Signal(0))}, 64, "int"},
	{types.Uint8, rt(uint8(0)), []reflect.Type{rt(nUint8(0))}, 8, "uint"},
	{types.Uint16, rt(uint16(0)), []reflect.Type{rt(nUint16(0))}, 16, "uint"},
	{types.Uint32, rt(uint32(0)), []reflect.Type{rt(nUint32(0)), localUint(), rt(os.FileMode(0))}, 32, "uint"},
	{types.Uint64, rt(uint64(0)), []reflect.Type{rt(uint(0)), rt(nUint64(0)), rt(nUint(0)), rt(reflect.Kind(0))}, 64, "uint"},
	{types.Float32, rt(float32(0)), []reflect.Type{rt(nF32(0))}, 32, "float"},
	{types.Float64, rt(float64(0)), []reflect.Type{rt(nF64(0)), localFloat()}, 64, "float"},
	{types.String, rt(""), []reflect.Type{rt(nStr("")), localString(), rt(Value("")), rt(types.Type("")), rt(units.Unit(""))}, 0, "string"},
	{types.GoTime, rt(time.Time{}), nil, 0, "time"},
	{types.GoDuration, rt(time.Duration(0)), nil, 0, "dur"},
}

var allUnits = []units.Unit{units.None, units.Second, units.Millisecond, units.Byte,
	units.BytePerSecond, units.Celsius, units.Unknown, units.Unit("Furlongs")}

// genOpt limits what is generated.
type genOpt struct {
	plainStrings bool // no quotes, bars, newlines or other control characters in strings
	validUTF8    bool
	nonFinite    bool
	large        bool // now and then many metrics, and a huge one
}

var stringPool = []string{"", "a", "hello world", "ünïcode ☃", "<script>alert(1)</script>", "&amp;", "a&b<c>d'e",
	"\"quoted\"", "tab\tnew\nline", "back\\slash", "\u2028\u2029", "\x00nul", "日本語", "%d%s%v{{.}}", " lead and trail ",
	strings.Repeat("long ", 300), "|", "a|b", "'", "`", "the `file` to use", "`a``b`", "</td></tr>", "null", "NaN", `\u0026 \u003c \\u003e`, "\u00e9 vs e\u0301", "\U0001F600"}

func genString(r *rand.Rand, o genOpt) string {
	for {
		var s string
		if r.Intn(500) == 0 {
			// beyond the sizes of buffers, fields of 8 and 16 bits, and pages
			n := pick(r, []int{255, 256, 257, 1000, 4096, 5000, 32768, 65536, 70000})
			return strings.Repeat(pick(r, []string{"a", "bc ", "é", "<&", "日本"}), n)[:n-n%6]
		}
		switch r.Intn(3) {
		case 0:
			s = pick(r, stringPool)
		case 1:
			var b strings.Builder
			for i := r.Intn(12); i > 0; i-- {
				b.WriteString(pick(r, []string{"a", "b", "Z", "0", " ", "<", ">", "&", "'", "\"", "é", "/", "=", "{", "}", "\\", ";", "#", "+", "|", "\n"}))
			}
			s = b.String()
		default:
			bs := make([]byte, r.Intn(10))
			for i := range bs {
				bs[i] = byte(r.Intn(256))
			}
			s = string(bs)
			if o.validUTF8 {
				s = strings.ToValidUTF8(s, "?")
			}
		}
		if o.plainStrings && strings.ContainsAny(s, "\"|\r\n\x00") {
			continue
		}
		return s
	}
}

var intPool = []int64{0, 1, -1, 2, 9, 10, 99, 100, 127, 128, -128, -129, 255, 256, 999, 1000, -999, -1000, 1023, 1024, -1023, -1024,
	9994, 9995, 9999, 10000, 10234, 32767, 32768, -32768, 65535, 65536, 99949, 99950, 99999, 999499, 999500, 999999, 1000000, 1048575, 1048576,
	1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 999999999999999999, 1000000000000000000,
	math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}

func genBits(r *rand.Rand) int64 {
	if r.Intn(2) == 0 {
		return pick(r, intPool)
	}
	x := int64(r.Uint64() >> uint(r.Intn(64)))
	if r.Intn(2) == 0 {
		x = -x
	}
	return x
}

var floatPool = []float64{0, 1, -1, 0.5, -0.5, 0.1, 1.0 / 3, 2.5, 1e6, 1e9, 1e15, 1e16, 1e21, 1e22, 1e-5, 1e-7, 1e-9, 123456789.125,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Pi, -1e300, 1e300,
	math.Nextafter(1, 2), math.Nextafter(1, 0), 1 << 53, 1<<53 + 2}

func genFloat(r *rand.Rand) float64 {
	switch r.Intn(3) {
	case 0:
		return pick(r, floatPool)
	case 1:
		return float64(r.Intn(4000)-2000) / 8
	default:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

var durPool = []time.Duration{0, 1, -1, 999, 1000, 999999, 1000000, 999999999, 1000000000, 1000000001, -999999999, -1000000000, -1000000001,
	59 * time.Second, time.Minute, time.Hour - 1, time.Hour, 24*time.Hour - 1, 24 * time.Hour, 26*time.Hour + 3*time.Minute + 4*time.Second,
	math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1500 * time.Microsecond, 100 * time.Millisecond, -time.Millisecond / 2}

func genDur(r *rand.Rand) time.Duration {
	if r.Intn(2) == 0 {
		return pick(r, durPool)
	}
	return time.Duration(genBits(r))
}

var zones = []*time.Location{time.UTC, time.FixedZone("E", 5*3600+30*60), time.FixedZone("W", -11*3600), time.FixedZone("S", 3723)}

var timePool = []time.Time{
	{}, time.Unix(0, 0), time.Unix(0, 1), time.Unix(-1, 0), time.Unix(-1, 999999999), time.Unix(0, -1), time.Unix(-1, 1),
	time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
	time.Date(1969, 12, 31, 23, 59, 58, 500000000, time.UTC), time.Date(2016, 2, 29, 1, 2, 3, 4, time.UTC),
	time.Unix(1<<31, 0), time.Unix(1<<32, 5), time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2262, 4, 11, 23, 47, 16, 854775808, time.UTC),
	time.Date(1677, 9, 21, 0, 12, 43, 145224191, time.UTC), time.Unix(1e9, 100000000), time.Unix(1e9, 123456000),
}

func genTime(r *rand.Rand) time.Time {
	switch r.Intn(4) {
	case 0:
		return pick(r, timePool)
	case 1:
		return time.Now()
	default:
		// any instant of the years 1 to 9999, in some zone
		sec := r.Int63n(315537897599-1) - 62135596800 + 1
		return time.Unix(sec, r.Int63n(1e9)).In(pick(r, zones))
	}
}

// genValue returns a value of the documented Go type of the kind.
func (k *kindInfo) genValue(r *rand.Rand, o genOpt) reflect.Value {
	v := reflect.New(k.gt).Elem()
	switch k.class {
	case "bool":
		v.SetBool(r.Intn(2) == 0)
	case "int":
		x := genBits(r)
		switch k.bits {
		case 8:
			x = int64(int8(x))
		case 16:
			x = int64(int16(x))
		case 32:
			x = int64(int32(x))
		}
		v.SetInt(x)
	case "uint":
		x := uint64(genBits(r))
		if k.bits < 64 {
			x &= 1<<uint(k.bits) - 1
		}
		v.SetUint(x)
	case "float":
		f := genFloat(r)
		if k.bits == 32 {
			for math.IsInf(float64(float32(f)), 0) {
				f = genFloat(r)
			}
			f = float64(float32(f))
		}
		if o.nonFinite && r.Intn(3) == 0 {
			f = pick(r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
		}
		v.SetFloat(f)
	case "string":
		v.SetString(genString(r, o))
	case "time":
		v.Set(reflect.ValueOf(genTime(r)))
	case "dur":
		v.SetInt(int64(genDur(r)))
	}
	return v
}

// gm is a metric to register together with what must be reported for it.
type gm struct {
	Path  string
	Spec  interface{}
	Form  string
	Unit  units.Unit
	Desc  string
	Kind  types.Type
	Sub   types.Type
	Bits  int
	Class string // of the value or the elements
	Cur   func() interface{}
	Set   func(r *rand.Rand)
	Group *tr.Group
}

func (g *gm) String() string {
	return fmt.Sprintf("%q %s unit=%q desc=%q value=%v", g.Path, g.Form, string(g.Unit), g.Desc, short(fmt.Sprintf("%#v", g.Cur())))
}

func (g *gm) register() error {
	h := fnv.New32a()
	io.WriteString(h, g.Path)
	return regVia(rand.New(rand.NewSource(int64(h.Sum32()))), g.Path, g.Spec, g.Group, g.Unit, g.Desc)
}

// regVia registers a metric in g, the default group if nil, by one of all
// the ways there are.
func regVia(r *rand.Rand, path string, spec interface{}, g *tr.Group, unit units.Unit, desc string) error {
	if g == nil {
		if r.Intn(3) == 0 {
			return tr.RegisterMetric(path, spec, unit, desc)
		}
		g = tr.DefaultGroup
	}
	how := r.Intn(4)
	if how > 1 {
		dir, rest := "", path
		if slashes := strings.Count(path, "/"); slashes > 0 {
			for k := 1 + r.Intn(slashes); k > 0; k-- {
				i := strings.Index(rest, "/")
				if strings.TrimSpace(strings.Replace(rest[i+1:], "/", " ", -1)) == "" {
					break // names nothing
				}
				dir, rest = dir+rest[:i+1], rest[i+1:]
			}
		}
		d, err := tr.RegisterDirectory(dir)
		if err != nil {
			return err
		}
		switch {
		case g == tr.DefaultGroup && r.Intn(2) == 0:
			return d.RegisterMetric(rest, spec, unit, desc)
		case how == 2:
			return d.RegisterMetricInGroup(rest, spec, g, unit, desc)
		default:
			return tr.DirectoryGroup{Group: g, Directory: d}.RegisterMetric(rest, spec, unit, desc)
		}
	}
	if how == 0 {
		return g.RegisterMetric(path, spec, unit, desc)
	}
	return tr.RegisterMetricInGroup(path, spec, g, unit, desc)
}

type userFlag struct{ s string }

func (f *userFlag) String() string     { return f.s }
func (f *userFlag) Set(s string) error { f.s = s; return nil }

type getterFlag struct{ n int64 }

func (f *getterFlag) String() string     { return "n=" + fmt.Sprint(f.n) }
func (f *getterFlag) Set(s string) error { _, err := fmt.Sscan(s, &f.n); return err }
func (f *getterFlag) Get() interface{}   { return f.n }

type structFlag struct{ a, b int }

func (f *structFlag) String() string     { return fmt.Sprintf("%d/%d", f.a, f.b) }
func (f *structFlag) Set(s string) error { return nil }
func (f *structFlag) Get() interface{}   { return *f }

// genFlag returns a metric that is a flag value.
func genFlag(r *rand.Rand, o genOpt) *gm {
	fs := flag.NewFlagSet("x", flag.ContinueOnError)
	g := &gm{}
	cur := func(f func() interface{}) { g.Cur = f }
	switch r.Intn(11) {
	case 0:
		p := fs.Bool("f", r.Intn(2) == 0, "")
		g.Kind, g.Class = types.Bool, "bool"
		cur(func() interface{} { return *p })
		g.Set = func(r *rand.Rand) { fs.Set("f", fmt.Sprint(r.Intn(2) == 0)) }
	case 1:
		p := fs.Int("f", int(genBits(r)), "")
		g.Kind, g.Class, g.Bits = types.Int64, "int", 64
		cur(func() interface{} { return int64(*p) })
		g.Set = func(r *rand.Rand) { fs.Set("f", fmt.Sprint(genBits(r))) }
	case 2:
		p := fs.Int64("f", genBits(r), "")
		g.Kind, g.Class, g.Bits = types.Int64, "int", 64
		cur(func() interface{} { return *p })
		g.Set = func(r *rand.Rand) { fs.Set("f", fmt.Sprint(genBits(r))) }
	case 3:
		p := fs.Uint("f", uint(genBits(r)), "")
		g.Kind, g.Class, g.Bits = types.Uint64, "uint", 64
		cur(func() interface{} { return uint64(*p) })
		g.Set = func(r *rand.Rand) { fs.Set("f", fmt.Sprint(uint64(genBits(r)))) }
	case 4:
		p := fs.Uint64("f", uint64(genBits(r)), "")
		g.Kind, g.Class, g.Bits = types.Uint64, "uint", 64
		cur(func() interface{} { return *p })
		g.Set = func(r *rand.Rand) { fs.Set("f", fmt.Sprint(uint64(genBits(r)))) }
	case 5:
		p := fs.Float64("f", genFloat(r), "")
		g.Kind, g.Class, g.Bits = types.Float64, "float", 64
		cur(func() interface{} { return *p })
		g.Set = func(r *rand.Rand) { fs.Set("f", fmt.Sprint(genFloat(r))) }
	case 6:
		p := fs.String("f", genString(r, o), "")
		g.Kind, g.Class = types.String, "string"
		cur(func() interface{} { return *p })
		g.Set = func(r *rand.Rand) { fs.Set("f", genString(r, o)) }
	case 7:
		p := fs.Duration("f", genDur(r), "")
		g.Kind, g.Class = types.GoDuration, "dur"
		cur(func() interface{} { return *p })
		g.Set = func(r *rand.Rand) { fs.Set("f", genDur(r).String()) }
	case 8:
		p := &userFlag{genString(r, o)}
		fs.Var(p, "f", "")
		g.Kind, g.Class = types.String, "string"
		cur(func() interface{} { return p.s })
		g.Set = func(r *rand.Rand) { fs.Set("f", genString(r, o)) }
	case 9:
		p := &getterFlag{genBits(r)}
		fs.Var(p, "f", "")
		g.Kind, g.Class, g.Bits = types.Int64, "int", 64
		cur(func() interface{} { return p.n })
		g.Set = func(r *rand.Rand) { fs.Set("f", fmt.Sprint(genBits(r))) }
	case 10:
		p := &structFlag{r.Intn(9), r.Intn(9)}
		fs.Var(p, "f", "")
		g.Kind, g.Class = types.String, "string"
		cur(func() interface{} { return p.String() })
		g.Set = func(r *rand.Rand) { p.a = r.Intn(100) }
	}
	f := fs.Lookup("f")
	g.Spec = f.Value
	g.Form = fmt.Sprintf("flag %T", f.Value)
	return g
}

// namedSlice is a slice type of the program's own.
type namedSlice []int32
type namedDurSlice []time.Duration

// genSlice returns a slice of n elements of the kind, as the type to be given
// to the list and as the documented one.
func (k *kindInfo) genSlice(r *rand.Rand, o genOpt, elem reflect.Type, n int) (given, want reflect.Value) {
	given = reflect.MakeSlice(reflect.SliceOf(elem), n, n+r.Intn(3))
	want = reflect.MakeSlice(reflect.SliceOf(k.gt), n, n)
	for i := 0; i < n; i++ {
		v := k.genValue(r, o)
		want.Index(i).Set(v)
		given.Index(i).Set(v.Convert(elem))
	}
	return
}

func (k *kindInfo) elemType(r *rand.Rand) reflect.Type {
	if len(k.alts) > 0 && r.Intn(2) == 0 {
		return pick(r, k.alts)
	}
	return k.gt
}

func genLen(r *rand.Rand) int {
	switch x := r.Intn(1500); {
	case x == 0:
		return 4000 + r.Intn(3000)
	case x < 20:
		return 40 + r.Intn(1200)
	}
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return r.Intn(6)
	default:
		return r.Intn(40)
	}
}

// genList returns a metric that is a list.
func genList(r *rand.Rand, o genOpt) *gm {
	k := &kinds[r.Intn(len(kinds))]
	et := k.elemType(r)
	var want reflect.Value
	next := func(r *rand.Rand) interface{} {
		var given reflect.Value
		if r.Intn(10) == 0 {
			given, want = reflect.Zero(reflect.SliceOf(et)), reflect.MakeSlice(reflect.SliceOf(k.gt), 0, 0)
		} else {
			given, want = k.genSlice(r, o, et, genLen(r))
		}
		if et == rt(int32(0)) && r.Intn(3) == 0 {
			given = given.Convert(rt(namedSlice(nil)))
		}
		if k.class == "dur" && r.Intn(3) == 0 {
			given = given.Convert(rt(namedDurSlice(nil)))
		}
		return given.Interface()
	}
	l := tr.NewList(next(r), r.Intn(2) == 0)
	g := &gm{Spec: l, Kind: types.List, Sub: k.kind, Bits: k.bits, Class: k.class, Form: fmt.Sprintf("list of %v", et)}
	g.Cur = func() interface{} { return want.Interface() }
	g.Set = func(r *rand.Rand) { l.Change(next(r), r.Intn(2) == 0) }
	return g
}

// genScalar returns a metric that is a single value.
func genScalar(r *rand.Rand, o genOpt) *gm {
	if r.Intn(8) == 0 {
		return genFlag(r, o)
	}
	k := &kinds[r.Intn(len(kinds))]
	return k.genMetric(r, o)
}

func (k *kindInfo) genMetric(r *rand.Rand, o genOpt) *gm {
	g := &gm{Kind: k.kind, Bits: k.bits, Class: k.class}
	t := k.elemType(r)
	if k.class == "time" && r.Intn(2) == 0 {
		// pointers to times, possibly nil
		var p *time.Time
		set := func(r *rand.Rand) {
			if r.Intn(4) == 0 {
				p = nil
				return
			}
			tm := genTime(r)
			p = &tm
		}
		set(r)
		g.Set = set
		g.Cur = func() interface{} {
			if p == nil {
				return time.Time{}
			}
			return *p
		}
		if r.Intn(2) == 0 {
			g.Spec, g.Form = &p, "**time.Time"
		} else {
			g.Spec, g.Form = func() *time.Time { return p }, "func() *time.Time"
		}
		return g
	}
	p := reflect.New(t)
	g.Set = func(r *rand.Rand) { p.Elem().Set(k.genValue(r, o).Convert(t)) }
	g.Set(r)
	g.Cur = func() interface{} { return p.Elem().Convert(k.gt).Interface() }
	if r.Intn(2) == 0 {
		g.Spec, g.Form = p.Interface(), "*"+t.String()
	} else {
		g.Form = "func() " + t.String()
		g.Spec = reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{t}, false), func([]reflect.Value) []reflect.Value {
			v := reflect.New(t).Elem()
			v.Set(p.Elem())
			return []reflect.Value{v}
		}).Interface()
	}
	return g
}

// sameValue compares a reported Go RPC value with the expected one. Times are
// compared as instants, floats as numbers (NaN equals NaN), and a list of no
// elements equals any other.
func sameValue(got, want interface{}) bool {
	switch w := want.(type) {
	case time.Time:
		g, ok := got.(time.Time)
		return ok && g.Equal(w) && g.IsZero() == w.IsZero()
	case []time.Time:
		g, ok := got.([]time.Time)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !g[i].Equal(w[i]) {
				return false
			}
		}
		return true
	case float64:
		g, ok := got.(float64)
		return ok && (g == w || g != g && w != w)
	case float32:
		g, ok := got.(float32)
		return ok && (g == w || g != g && w != w)
	case []float64:
		g, ok := got.([]float64)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !(g[i] == w[i] || g[i] != g[i] && w[i] != w[i]) {
				return false
			}
		}
		return true
	case []float32:
		g, ok := got.([]float32)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !(g[i] == w[i] || g[i] != g[i] && w[i] != w[i]) {
				return false
			}
		}
		return true
	}
	gv, wv := reflect.ValueOf(got), reflect.ValueOf(want)
	if gv.IsValid() && wv.IsValid() && gv.Type() == wv.Type() && gv.Kind() == reflect.Slice && gv.Len() == 0 && wv.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(got, want)
}

// diffRPC tells how a reported metric differs from the expected one.
func (g *gm) diffRPC(m *messages.Metric, path string) string {
	switch {
	case m == nil:
		return "nil metric"
	case m.Path != path:
		return fmt.Sprintf("path %q, want %q", m.Path, path)
	case m.Description != g.Desc:
		return fmt.Sprintf("description %q, want %q", m.Description, g.Desc)
	case m.Unit != g.Unit:
		return fmt.Sprintf("unit %q, want %q", string(m.Unit), string(g.Unit))
	case m.Kind != g.Kind:
		return fmt.Sprintf("kind %q, want %q", m.Kind, g.Kind)
	case m.SubType != g.Sub:
		return fmt.Sprintf("sub-type %q, want %q", m.SubType, g.Sub)
	case m.Bits != g.Bits:
		return fmt.Sprintf("bits %d, want %d", m.Bits, g.Bits)
	}
	if g.Kind == types.Dist {
		return ""
	}
	if w := g.Cur(); !sameValue(m.Value, w) {
		return fmt.Sprintf("value %s (%T), want %s (%T)", short(fmt.Sprintf("%v", m.Value)), m.Value, short(fmt.Sprintf("%v", w)), w)
	}
	if _, ok := m.TimeStamp.(time.Time); !ok {
		return fmt.Sprintf("timestamp is a %T", m.TimeStamp)
	}
	return ""
}

var nine = big.NewInt(1000000000)

// decimal writes billionths as a decimal number with nine decimals.
func decimal(n *big.Int) string {
	neg := n.Sign() < 0
	a := new(big.Int).Abs(n)
	q, m := new(big.Int).QuoRem(a, nine, new(big.Int))
	s := fmt.Sprintf("%s.%09d", q, m.Int64())
	if neg {
		s = "-" + s
	}
	return s
}

func inUnit(n *big.Int, u units.Unit) *big.Int {
	if u == units.Millisecond {
		return new(big.Int).Mul(n, big.NewInt(1000))
	}
	return n
}

func timeNs(t time.Time) *big.Int {
	n := new(big.Int).Mul(big.NewInt(t.Unix()), nine)
	return n.Add(n, big.NewInt(int64(t.Nanosecond())))
}

// timeString is the documented JSON form of a time.
func timeString(t time.Time, u units.Unit) string {
	if t.IsZero() {
		return "0.000000000"
	}
	return decimal(inUnit(timeNs(t), u))
}

func durString(d time.Duration, u units.Unit) string {
	return decimal(inUnit(big.NewInt(int64(d)), u))
}

// genNames are names for metrics and directories.
var genNames = []string{"a", "b", "c", "foo", "bar-baz", "Z", "a b", " x", "x ", "é", "日本", "A", "0", "10", "9", "a.b", "a%2fb", "a?b", "a#b", "a+b",
	"<b>", "&amp;", "\"q\"", "it's", "a:b", "a;b", "a=b", "a\\b", "a,b", "a|b", "~", "_", "-", "...", "{{.}}", "javascript:x", "a\tb", "%", "a@b"}

// checkName tells whether a name may be used in URLs without being normalised
// away by net/http's mux.
func urlSafe(name string) bool { return name != "." && name != ".." }

// genBase returns the directory a tree is put in: mostly one of its own, at
// times the root.
func genBase(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return ""
	case 1:
		return "/" + pick(r, genNames)
	}
	return "/t"
}

// clearTops unregisters the top level entries that paths are in.
func clearTops(paths []string) {
	for _, p := range paths {
		top, _, _ := strings.Cut(p[1:], "/")
		tr.UnregisterPath("/" + top)
	}
}

func gmPaths(gs []*gm) (res []string) {
	for _, g := range gs {
		res = append(res, g.Path)
	}
	return
}

// builtIn tells whether a path is that of one of tricorder's own metrics.
func builtIn(path string) bool { return strings.HasPrefix(path, "/proc/") }

// notBuiltIn leaves out tricorder's own metrics.
func notBuiltIn(ml messages.MetricList) (res messages.MetricList) {
	for _, m := range ml {
		if !builtIn(m.Path) {
			res = append(res, m)
		}
	}
	return
}
