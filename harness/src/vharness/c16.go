package main

import (
	"errors"
	"fmt"
	"net/rpc"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unsafe"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C16"] = c16 }

// Types of the program's own that are not based on a documented one, or only
// seem to be.
type (
	nStruct   struct{ A int }
	nTime     time.Time
	nSlice    []int64
	nMap      map[string]int
	nFunc     func() int64
	nFuncBad  func() []int
	nChan     chan int
	nIface    interface{ Foo() }
	nComplex  complex128
	nPtr      *int64
	nDist     tr.CumulativeDistribution
	nList     tr.List
	nArr      [2]int
	nUintptr  uintptr
	nTimePtr  *time.Time
	halfFlag  struct{}
	embedFlag struct{ *userFlag }
)

// halfFlag has only half of what a flag.Value needs.
func (halfFlag) String() string { return "" }

// fvFlag is a flag.Value whose Get returns anything.
type fvFlag struct {
	s string
	v interface{}
}

func (f *fvFlag) String() string     { return f.s }
func (f *fvFlag) Set(s string) error { f.s = s; return nil }
func (f *fvFlag) Get() interface{}   { return f.v }

// mapFlag, sliceFlag and intFlag are flag.Values that are not pointers.
type mapFlag map[string]string

func (f mapFlag) String() string     { return f["s"] }
func (f mapFlag) Set(s string) error { f["s"] = s; return nil }

type funcFlag func() string

func (f funcFlag) String() string     { return f() }
func (f funcFlag) Set(s string) error { return nil }

type sliceFlag []string

func (f *sliceFlag) String() string     { return strings.Join(*f, ",") }
func (f *sliceFlag) Set(s string) error { *f = append(*f, s); return nil }

type intFlag int

func (f *intFlag) String() string     { return fmt.Sprint("n", int(*f)) }
func (f *intFlag) Set(s string) error { return nil }

type valFlag int

func (f valFlag) String() string     { return fmt.Sprint("v", int(f)) }
func (f valFlag) Set(s string) error { return nil }

var leafTypes = []reflect.Type{
	rt(complex64(0)), rt(complex(0, 0)), rt(uintptr(0)), rt(unsafe.Pointer(nil)), rt(struct{}{}), rt(nStruct{}), rt(nTime{}),
	rt(nSlice(nil)), rt(nMap(nil)), rt(nFunc(nil)), rt(nFuncBad(nil)), rt(nChan(nil)), rt((*nIface)(nil)).Elem(), rt((*error)(nil)).Elem(),
	rt((*interface{})(nil)).Elem(), rt(nComplex(0)), rt(nPtr(nil)), rt(nArr{}), rt(nUintptr(0)), rt(nTimePtr(nil)), rt(halfFlag{}),
	rt(time.Location{}), rt(time.Month(0)), rt(time.Weekday(0)), rt(Duration(0)), rt(Time(0)), rt(Value("")), rt(os.FileMode(0)), rt(reflect.Kind(0)), rt(syscall.Signal(0)), rt(errors.New("")), rt(time.Timer{}), rt(reflect.Value{}),
	rt(units.None), rt(types.Int8), rt(tr.Bucketer{}), rt(tr.Group{}), rt(tr.DirectorySpec{}),
}

// genType returns any type at all.
func genType(r randT, depth int) reflect.Type {
	if depth == 0 || r.Intn(3) == 0 {
		if r.Intn(2) == 0 {
			return pick(r, leafTypes)
		}
		k := &kinds[r.Intn(len(kinds))]
		return k.elemType(r)
	}
	sub := func() reflect.Type { return genType(r, depth-1) }
	switch r.Intn(8) {
	case 0, 1:
		return reflect.PointerTo(sub())
	case 2:
		return reflect.SliceOf(sub())
	case 3:
		return reflect.ArrayOf(r.Intn(3), sub())
	case 4:
		k := rt("")
		if t := sub(); t.Comparable() && t.Kind() != reflect.Interface {
			k = t
		}
		return reflect.MapOf(k, sub())
	case 5:
		return reflect.ChanOf(pick(r, []reflect.ChanDir{reflect.BothDir, reflect.RecvDir}), sub())
	case 6:
		var in, out []reflect.Type
		for n := r.Intn(3); n > 0; n-- {
			in = append(in, sub())
		}
		for n := r.Intn(3); n > 0; n-- {
			out = append(out, sub())
		}
		return reflect.FuncOf(in, out, false)
	default:
		var fs []reflect.StructField
		for n := r.Intn(3); n > 0; n-- {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", n), Type: sub()})
		}
		return reflect.StructOf(fs)
	}
}

var (
	tTime    = rt(time.Time{})
	tTimePtr = rt(&time.Time{})
	tDur     = rt(time.Duration(0))
)

// documentedKind tells how values of a type are reported, nil if not at all.
// ptr: the type is *time.Time.
func documentedKind(t reflect.Type) (k *kindInfo, ptr bool) {
	by := func(x types.Type) *kindInfo {
		for i := range kinds {
			if kinds[i].kind == x {
				return &kinds[i]
			}
		}
		return nil
	}
	switch t {
	case tTime:
		return by(types.GoTime), false
	case tTimePtr:
		return by(types.GoTime), true
	case tDur:
		return by(types.GoDuration), false
	}
	switch t.Kind() {
	case reflect.Bool:
		return by(types.Bool), false
	case reflect.Int8:
		return by(types.Int8), false
	case reflect.Int16:
		return by(types.Int16), false
	case reflect.Int32:
		return by(types.Int32), false
	case reflect.Int64, reflect.Int:
		return by(types.Int64), false
	case reflect.Uint8:
		return by(types.Uint8), false
	case reflect.Uint16:
		return by(types.Uint16), false
	case reflect.Uint32:
		return by(types.Uint32), false
	case reflect.Uint64, reflect.Uint:
		return by(types.Uint64), false
	case reflect.Float32:
		return by(types.Float32), false
	case reflect.Float64:
		return by(types.Float64), false
	case reflect.String:
		return by(types.String), false
	}
	return nil, false
}

type c16case struct {
	name   string
	spec   interface{}
	accept string // "yes", "no" (ErrWrongType), "panic", "noOrPanic", "any"
	g      *gm    // when accepted
}

// settable returns a value of the type, documented or not, and its current
// value in the documented type.
func settable(r randT, t reflect.Type) (v reflect.Value, k *kindInfo, cur func() interface{}) {
	v = reflect.New(t).Elem()
	k, ptr := documentedKind(t)
	if k == nil {
		// something other than the zero value where that is easy
		switch t.Kind() {
		case reflect.Ptr:
			if r.Intn(2) == 0 {
				v.Set(reflect.New(t.Elem()).Convert(t))
			}
		case reflect.Slice:
			if r.Intn(2) == 0 {
				v.Set(reflect.MakeSlice(t, 1, 1))
			}
		case reflect.Map:
			if r.Intn(2) == 0 {
				v.Set(reflect.MakeMap(t))
			}
		case reflect.Func:
			if r.Intn(2) == 0 {
				v.Set(reflect.MakeFunc(t, func([]reflect.Value) (res []reflect.Value) {
					for i := 0; i < t.NumOut(); i++ {
						res = append(res, reflect.Zero(t.Out(i)))
					}
					return
				}))
			}
		}
		return v, nil, nil
	}
	if ptr {
		if r.Intn(3) > 0 {
			tm := genTime(r)
			v.Set(reflect.ValueOf(&tm))
		}
		return v, k, func() interface{} {
			if v.IsNil() {
				return time.Time{}
			}
			return v.Elem().Interface()
		}
	}
	v.Set(k.genValue(r, genOpt{plainStrings: true, validUTF8: true}).Convert(t))
	return v, k, func() interface{} { return v.Convert(k.gt).Interface() }
}

func c16Gen(c *Ctx, r randT) *c16case {
	t := genType(r, 3)
	switch r.Intn(12) {
	case 0, 1, 2: // a pointer to it
		v, k, cur := settable(r, t)
		cs := &c16case{name: "*" + t.String(), spec: v.Addr().Interface(), accept: "no"}
		if k != nil {
			cs.accept = "yes"
			cs.g = &gm{Kind: k.kind, Bits: k.bits, Class: k.class, Cur: cur}
		}
		return cs
	case 3, 4: // the value itself
		v, _, _ := settable(r, t)
		cs := &c16case{name: t.String(), spec: v.Interface(), accept: "no"}
		if cs.spec == nil {
			return cs
		}
		t = reflect.TypeOf(cs.spec)
		v = reflect.ValueOf(cs.spec)
		switch {
		case t.Kind() == reflect.Func && t.NumOut() != 1 && t.NumIn() > 0:
			cs.accept = "noOrPanic"
		case t.Kind() == reflect.Func && t.NumOut() != 1:
			cs.accept = "panic"
		case t.Kind() == reflect.Func && t.NumIn() == 0 && !v.IsNil():
			if k, ptr := documentedKind(t.Out(0)); k != nil {
				cs.accept = "yes"
				cs.g = &gm{Kind: k.kind, Bits: k.bits, Class: k.class, Cur: func() interface{} {
					x := v.Call(nil)[0]
					if ptr {
						return time.Time{}
					}
					return x.Convert(k.gt).Interface()
				}}
			}
		case t.Kind() == reflect.Ptr && !v.IsNil():
			if k, ptr := documentedKind(t.Elem()); k != nil {
				cs.accept = "yes"
				cs.g = &gm{Kind: k.kind, Bits: k.bits, Class: k.class, Cur: func() interface{} {
					if ptr {
						return time.Time{}
					}
					return v.Elem().Convert(k.gt).Interface()
				}}
			}
		}
		return cs
	case 5: // a nil pointer or nil function
		if r.Intn(2) == 0 {
			return &c16case{name: "nil *" + t.String(), spec: reflect.Zero(reflect.PointerTo(t)).Interface(), accept: "no"}
		}
		return &c16case{name: "nil func() " + t.String(), spec: reflect.Zero(reflect.FuncOf(nil, []reflect.Type{t}, false)).Interface(), accept: "no"}
	case 6, 7: // a callback returning it
		v, k, cur := settable(r, t)
		f := reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{t}, false), func([]reflect.Value) []reflect.Value {
			x := reflect.New(t).Elem()
			x.Set(v)
			return []reflect.Value{x}
		})
		cs := &c16case{name: "func() " + t.String(), spec: f.Interface(), accept: "no"}
		if k != nil {
			cs.accept = "yes"
			cs.g = &gm{Kind: k.kind, Bits: k.bits, Class: k.class, Cur: cur}
		}
		return cs
	case 8: // other functions
		k := &kinds[r.Intn(len(kinds))]
		good := k.elemType(r)
		var in, out []reflect.Type
		for n := r.Intn(3); n > 0; n-- {
			in = append(in, pick(r, []reflect.Type{t, good}))
		}
		for n := r.Intn(4); n > 0; n-- {
			out = append(out, pick(r, []reflect.Type{t, good, rt((*error)(nil)).Elem()}))
		}
		if len(in) == 0 && len(out) == 1 {
			in = append(in, good)
		}
		ft := reflect.FuncOf(in, out, false)
		f := reflect.MakeFunc(ft, func([]reflect.Value) (res []reflect.Value) {
			for i := 0; i < ft.NumOut(); i++ {
				res = append(res, reflect.Zero(ft.Out(i)))
			}
			return
		})
		cs := &c16case{name: ft.String(), spec: f.Interface(), accept: "no"}
		if len(out) != 1 {
			cs.accept = "panic"
			if len(in) > 0 {
				cs.accept = "noOrPanic"
			}
		}
		return cs
	case 9: // flags
		s := genString(r, genOpt{plainStrings: true, validUTF8: true})
		str := func(spec interface{}) *c16case {
			return &c16case{name: fmt.Sprintf("flag %T", spec), spec: spec, accept: "yes",
				g: &gm{Kind: types.String, Class: "string", Cur: func() interface{} { return spec.(fmt.Stringer).String() }}}
		}
		switch r.Intn(9) {
		case 0:
			return str(&userFlag{s})
		case 1:
			return str(mapFlag{"s": s})
		case 2:
			return str(&sliceFlag{"a", s})
		case 3:
			x := intFlag(r.Intn(99))
			return str(&x)
		case 4:
			return str(valFlag(r.Intn(99)))
		case 5:
			return str(embedFlag{&userFlag{s}})
		case 6:
			return str(funcFlag(func() string { return s }))
		default:
			v, k, cur := settable(r, t)
			f := &fvFlag{s: s, v: v.Interface()}
			cs := str(f)
			cs.name = fmt.Sprintf("flag whose Get returns %T", f.v)
			if f.v != nil && t.Kind() == reflect.Interface {
				return cs
			}
			if k != nil && f.v != nil {
				cs.g = &gm{Kind: k.kind, Bits: k.bits, Class: k.class, Cur: cur}
			}
			return cs
		}
	case 10: // distributions and lists
		switch r.Intn(8) {
		case 0:
			d := tr.PowersOfTen.NewCumulativeDistribution()
			return &c16case{name: "distribution", spec: d, accept: "yes", g: &gm{Kind: types.Dist, Cur: func() interface{} { return nil }}}
		case 1:
			d := tr.PowersOfTen.NewNonCumulativeDistribution()
			return &c16case{name: "distribution", spec: d, accept: "yes", g: &gm{Kind: types.Dist, Cur: func() interface{} { return nil }}}
		case 2:
			return &c16case{name: "nil distribution", spec: (*tr.CumulativeDistribution)(nil), accept: "no"}
		case 3:
			return &c16case{name: "nil distribution", spec: (*tr.NonCumulativeDistribution)(nil), accept: "no"}
		case 4:
			return &c16case{name: "nil list", spec: (*tr.List)(nil), accept: "no"}
		case 5:
			d := tr.PowersOfTen.NewCumulativeDistribution()
			return &c16case{name: "pointer to a distribution pointer", spec: &d, accept: "no"}
		case 6:
			return &c16case{name: "pointer to a type like a distribution", spec: new(nDist), accept: "no"}
		default:
			g := genList(r, genOpt{plainStrings: true, validUTF8: true})
			return &c16case{name: g.Form, spec: g.Spec, accept: "yes", g: g}
		}
	default: // the documented forms, all of them over time
		g := genScalar(r, genOpt{plainStrings: true, validUTF8: true})
		return &c16case{name: g.Form, spec: g.Spec, accept: "yes", g: g}
	}
}

func c16(c *Ctx) {
	c.rule = "a case is one Go value offered to RegisterMetric: refused without a trace, or read on every interface; distinct by type and form of registration"
	cl := newRPC()
	defer cl.Close()
	keep := int64(7)
	if err := tr.RegisterMetric("/t/keep", &keep, units.None, ""); err != nil {
		c.Violate("refused", nil, "%v", err)
	}
	defer clearRoot("t")
	defer c.otherClients("rpc", "read", "json", "jsongz", "text", "html")()
	n := c.N(120000, 2000000)
	if c.Race() {
		n /= 60
	}
	for i := 0; i < n; i++ {
		r := c.Sub("case", i)
		c16One(c, cl, r, c16Gen(c, r))
	}
	c16One(c, cl, c.Rng, &c16case{name: "nil", spec: nil, accept: "no"})
}

func c16One(c *Ctx, cl *rpc.Client, r randT, cs *c16case) {
	path := pick(r, []string{"/t/x", "/t/new/x", "/t/n1/n2/x"})
	u := pick(r, allUnits)
	desc := pick(r, []string{"", "a description"})
	how := r.Intn(4)
	var err error
	dir, derr := tr.RegisterDirectory("/t")
	if derr != nil {
		c.Violate("directory", nil, "%v", derr)
	}
	pan, val := Panics(func() {
		switch how {
		case 0:
			err = tr.RegisterMetric(path, cs.spec, u, desc)
		case 1:
			err = dir.RegisterMetric(strings.TrimPrefix(path, "/t/"), cs.spec, u, desc)
		case 2:
			err = tr.NewGroup().RegisterMetric(path, cs.spec, u, desc)
		case 3:
			err = dir.RegisterMetricInGroup(strings.TrimPrefix(path, "/t/"), cs.spec, tr.DefaultGroup, u, desc)
		}
	})
	c.Case(fmt.Sprint(cs.name, how))
	c.Count("offered_"+cs.accept, 1)
	switch cs.accept {
	case "yes":
		if pan || err != nil {
			c.Violate("refused", cs.name, "RegisterMetric of %s: %v, panicked %v %v", cs.name, err, pan, val)
		}
	case "no":
		if pan || err != tr.ErrWrongType {
			c.Violate("not-refused", cs.name, "RegisterMetric of %s: %v, panicked %v %v, want ErrWrongType", cs.name, err, pan, val)
		}
	case "panic":
		if !pan {
			c.Violate("no-panic", cs.name, "RegisterMetric of %s returned %v, want a panic", cs.name, err)
		}
	case "noOrPanic":
		if !pan && err != tr.ErrWrongType {
			c.Violate("not-refused", cs.name, "RegisterMetric of %s: %v, want a refusal", cs.name, err)
		}
	}
	if cs.accept != "yes" {
		var got []string
		for _, m := range tr.ReadMyMetrics("/t") {
			got = append(got, m.Path)
		}
		_, e1 := tr.GetDirectory("/t/new")
		_, e2 := tr.GetDirectory("/t/n1")
		if fmt.Sprint(got) != "[/t/keep]" || e1 != tr.ErrNotFound || e2 != tr.ErrNotFound {
			c.Violate("trace", cs.name, "refused %s left a trace: metrics %q, directories %v %v", cs.name, got, e1, e2)
		}
		// the path is free
		x := int64(3)
		if err := tr.RegisterMetric(path, &x, units.None, ""); err != nil {
			c.Violate("trace", cs.name, "after refusing %s the path is not free: %v", cs.name, err)
		}
		c16Clean()
		return
	}
	defer c16Clean()
	g := cs.g
	g.Path, g.Unit, g.Desc, g.Form = path, u, desc, cs.name
	defer c.Guard("read-panic", cs.name)
	m, err := rpcGet(cl, path)
	if err != nil {
		c.Violate("rpc", cs.name, "GetMetric of %s failed: %v", g, err)
	}
	if d := g.diffRPC(m, path); d != "" {
		c.Violate("rpc", cs.name, "GetMetric of %s: %s", g, d)
	}
	for name, f := range map[string]func() ([]string, error){
		"ListMetrics": func() (res []string, err error) {
			ml, err := rpcList(cl, "/t")
			for _, m := range ml {
				if m.Path == path && err == nil {
					if d := g.diffRPC(m, path); d != "" {
						err = errors.New(d)
					}
				}
				res = append(res, m.Path)
			}
			return
		},
		"ReadMyMetrics": func() (res []string, err error) {
			for _, m := range tr.ReadMyMetrics("/t") {
				if m.Path == path && err == nil {
					if d := g.diffRPC(m, path); d != "" {
						err = errors.New(d)
					}
				}
				res = append(res, m.Path)
			}
			return
		},
		"JSON": func() (res []string, err error) {
			jl, err := jsonList("/t")
			for _, j := range jl {
				if j.Path == path && err == nil {
					if d := diffJSON(j, m, false); d != "" {
						err = errors.New(d)
					}
				}
				res = append(res, j.Path)
			}
			return
		},
		"JSON singleton": func() (res []string, err error) {
			j, code, err := jsonGet(path)
			if err != nil || j == nil {
				return nil, fmt.Errorf("status %d: %v", code, err)
			}
			if d := diffJSON(j, m, false); d != "" {
				err = errors.New(d)
			}
			return []string{"/t/keep", path}, err
		},
		"text": func() (res []string, err error) {
			page := textPage("/t")
			for _, line := range strings.Split(strings.TrimSuffix(page, "\n"), "\n") {
				p, v, _ := strings.Cut(line, " ")
				res = append(res, p)
				if p == path && g.Kind != types.Dist && !g.textLine(v) {
					err = fmt.Errorf("shown as %q", v)
				}
			}
			return
		},
		"HTML": func() (res []string, err error) {
			w := get(urlFor("/metrics", path))
			items, err := parsePage(w.Body.String())
			if err != nil || len(items) != 1 || w.Code != 200 {
				return nil, fmt.Errorf("status %d, %d entries, %v", w.Code, len(items), err)
			}
			if g.Kind != types.Dist {
				if d := checkItem(items[0], path, map[string]*gm{path: g}, nil); d != "" {
					err = errors.New(d)
				}
			} else if items[0].kind != "dist" {
				err = fmt.Errorf("shown as %+v", *items[0])
			}
			return []string{"/t/keep", path}, err
		},
	} {
		res, err := f()
		if err != nil {
			c.Violate("read", cs.name, "%s of %s: %v", name, g, err)
		}
		has := 0
		for _, p := range res {
			if p == path {
				has += 1
			}
			if p == "/t/keep" {
				has += 10
			}
		}
		if has != 11 || len(res) != 2 {
			c.Violate("listed", cs.name, "%s after registering %s lists %q", name, g, res)
		}
		c.Count("reads", 1)
	}
	if c.WantSample() {
		c.Sample(g.String())
	}
}

func c16Clean() {
	for _, p := range []string{"/t/x", "/t/new", "/t/n1"} {
		tr.UnregisterPath(p)
	}
}
