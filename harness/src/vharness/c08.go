package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/rpc"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C08"] = c08 }

func c08(c *Ctx) {
	c.rule = "a case is one read of a list after a change, with earlier slices scribbled over, or one checked history of concurrent changes and reads; distinct by element type and values, or by order of calls and values read"
	defer c.keep()()
	if !c.Race() {
		cl := newRPC()
		for i := 0; i < c.N(24000, 300000); i++ {
			c08Seq(c, cl, i)
		}
		cl.Close()
		c08Refuse(c)
	}
	n := c.N(4000, 60000)
	if c.Race() {
		n = c.N(1600, 24000)
	}
	for i := 0; i < n; i++ {
		c08Conc(c, i)
	}
}

// scribble overwrites a slice the list may not look at any more.
func scribble(r randT, k *kindInfo, v reflect.Value) {
	for i := 0; i < v.Len(); i++ {
		v.Index(i).Set(k.genValue(r, genOpt{validUTF8: true}).Convert(v.Type().Elem()))
	}
}

func cloneValue(v reflect.Value) interface{} {
	x := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(x, v)
	return x.Interface()
}

func c08Seq(c *Ctx, cl *rpc.Client, i int) {
	r := c.Sub("seq", i)
	k := &kinds[r.Intn(len(kinds))]
	unit := pick(r, allUnits)
	// all element types that are the same kind
	ets := append([]reflect.Type{k.gt}, k.alts...)
	var log []string
	gen := func() (given reflect.Value, want interface{}) {
		et := pick(r, ets)
		n := genLen(r)
		if r.Intn(8) == 0 {
			return reflect.Zero(reflect.SliceOf(et)), reflect.MakeSlice(reflect.SliceOf(k.gt), 0, 0).Interface()
		}
		g, w := k.genSlice(r, genOpt{validUTF8: true}, et, n)
		if n > 0 && r.Intn(4) == 0 {
			// a part of a larger slice
			a := r.Intn(n)
			b := a + r.Intn(n-a+1)
			g, w = g.Slice(a, b), w.Slice(a, b)
		}
		return g, w.Interface()
	}
	var mine []reflect.Value // slices given as mutable
	type old struct {
		got, copy interface{}
	}
	var olds []old // values reported earlier
	given, want := gen()
	mut := r.Intn(3) > 0
	l := tr.NewList(given.Interface(), mut)
	if mut {
		mine = append(mine, given)
	}
	log = append(log, fmt.Sprintf("NewList(%T %v, %v)", given.Interface(), short(fmt.Sprint(given.Interface())), mut))
	defer clearRoot("t")
	if err := regVia(r, "/t/l", l, nil, unit, "d"); err != nil {
		c.Violate("refused", k.kind, "%v", err)
	}
	fail := func(how string, got interface{}) {
		c.Violate("value", map[string]interface{}{"history": log}, "%s reports %s (%T), want %s (%T), after %s", how, short(fmt.Sprint(got)), got, short(fmt.Sprint(want)), want, short(strings.Join(log, "; ")))
	}
	check := func() {
		for _, m := range mine {
			if r.Intn(2) == 0 {
				scribble(r, k, m)
			}
		}
		ml := tr.ReadMyMetrics("/t/l")
		if len(ml) != 1 {
			c.Violate("missing", log, "%d metrics", len(ml))
		}
		m := ml[0]
		if m.Kind != types.List || m.SubType != k.kind || m.Bits != k.bits || m.Unit != unit {
			c.Violate("kind", log, "kind %s sub-type %s bits %d unit %s, want list of %s, %d bits, unit %s", m.Kind, m.SubType, m.Bits, string(m.Unit), k.kind, k.bits, string(unit))
		}
		if !sameValue(m.Value, want) {
			fail("ReadMyMetrics", m.Value)
		}
		olds = append(olds, old{m.Value, cloneValue(reflect.ValueOf(m.Value))})
		if r.Intn(3) == 0 {
			m, err := rpcGet(cl, "/t/l")
			if err != nil {
				c.Violate("rpc", log, "%v", err)
			}
			if !sameValue(m.Value, want) {
				fail("GetMetric", m.Value)
			}
		}
		if r.Intn(3) == 0 {
			j, code, err := jsonGet("/t/l")
			if err != nil || j == nil {
				c.Violate("json", log, "status %d %v", code, err)
			}
			if s := sameJSON(j.Value, want, k.class, unit); s != "" {
				c.Violate("json-value", log, "JSON: %s after %s", s, short(strings.Join(log, "; ")))
			}
		}
		for _, o := range olds {
			if !sameValue(o.got, o.copy) {
				c.Violate("altered", map[string]interface{}{"history": log}, "a value reported earlier as %v now reads %v, after %s", o.copy, o.got, short(strings.Join(log, "; ")))
			}
		}
		c.Case(fmt.Sprint(k.kind, given.Type(), unit, want))
	}
	check()
	for s := 0; s < 1+r.Intn(6); s++ {
		if r.Intn(6) == 0 {
			// a change that is refused changes nothing
			k2 := pick(r, kinds)
			if k2.kind != k.kind {
				g2, _ := k2.genSlice(r, genOpt{}, k2.elemType(r), r.Intn(4))
				if p, _ := Panics(func() { l.Change(g2.Interface(), r.Intn(2) == 0) }); !p {
					c.Violate("type-changed", log, "a list of %s accepts %T", k.kind, g2.Interface())
				}
				log = append(log, fmt.Sprintf("Change(%T) refused", g2.Interface()))
			} else {
				bad := pick(r, c08bad)
				if p, _ := Panics(func() { l.Change(bad, r.Intn(2) == 0) }); !p {
					c.Violate("bad-accepted", log, "a list of %s accepts %T", k.kind, bad)
				}
				log = append(log, fmt.Sprintf("Change(%T) refused", bad))
			}
			check()
			continue
		}
		given, want = gen()
		mut = r.Intn(3) > 0
		l.Change(given.Interface(), mut)
		if mut {
			mine = append(mine, given)
		}
		log = append(log, fmt.Sprintf("Change(%T %v, %v)", given.Interface(), short(fmt.Sprint(given.Interface())), mut))
		check()
	}
	if c.WantSample() {
		c.Sample(log)
	}
	c.Count("changes", int64(len(log)))
}

// sameJSON compares a JSON list with the values it stands for.
func sameJSON(raw json.RawMessage, want interface{}, class string, unit units.Unit) string {
	w := reflect.ValueOf(want)
	if w.Type() == rt([]uint8(nil)) && len(raw) > 0 && raw[0] == '"' {
		var s string
		if err := json.Unmarshal(raw, &s); err != nil {
			return err.Error()
		}
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil || string(b) != string(want.([]uint8)) {
			return fmt.Sprintf("%s, want %v", raw, want)
		}
		return ""
	}
	var elems []json.RawMessage
	if err := json.Unmarshal(raw, &elems); err != nil {
		return fmt.Sprintf("%v in %s", err, short(string(raw)))
	}
	if elems == nil {
		return "list is " + string(raw)
	}
	if len(elems) != w.Len() {
		return fmt.Sprintf("%d elements, want %d: %s", len(elems), w.Len(), short(string(raw)))
	}
	for i, e := range elems {
		if s := sameJSONValue(e, w.Index(i).Interface(), unit); s != "" {
			return fmt.Sprintf("element %d: %s", i, s)
		}
	}
	return ""
}

// sameJSONValue compares a JSON value with the Go RPC value it stands for.
func sameJSONValue(raw json.RawMessage, want interface{}, unit units.Unit) string {
	bad := func() string { return fmt.Sprintf("JSON value %s, want %v (%T)", short(string(raw)), want, want) }
	str := func() (string, bool) {
		var s string
		if len(raw) == 0 || raw[0] != '"' || json.Unmarshal(raw, &s) != nil {
			return "", false
		}
		return s, true
	}
	switch w := want.(type) {
	case bool:
		if string(raw) != strconv.FormatBool(w) {
			return bad()
		}
	case string:
		if s, ok := str(); !ok || s != w {
			return bad()
		}
	case time.Time:
		if s, ok := str(); !ok || s != timeString(w, unit) {
			return bad() + " = " + timeString(w, unit)
		}
	case time.Duration:
		if s, ok := str(); !ok || s != durString(w, unit) {
			return bad() + " = " + durString(w, unit)
		}
	case float64:
		f, err := strconv.ParseFloat(string(raw), 64)
		if err != nil || f != w {
			return bad()
		}
	case float32:
		f, err := strconv.ParseFloat(string(raw), 32)
		if err != nil || float32(f) != w {
			return bad()
		}
	default:
		v := reflect.ValueOf(want)
		switch v.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x, err := strconv.ParseInt(string(raw), 10, 64)
			if err != nil || x != v.Int() {
				return bad()
			}
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			x, err := strconv.ParseUint(string(raw), 10, 64)
			if err != nil || x != v.Uint() {
				return bad()
			}
		default:
			return bad()
		}
	}
	return ""
}

type c08struct struct{ A int }

var c08bad = []interface{}{nil, 5, "abc", 1.5, true, [3]int64{1, 2, 3}, map[string]int{}, struct{}{}, []complex64{1}, []complex128{}, []interface{}{1},
	[]struct{}{}, []c08struct{{1}}, []*int64{nil}, [][]int64{}, []map[string]int{}, []chan int{}, []func(){}, []error{}, &[]int64{1}, []*tr.List{},
	[]uintptr{1}, []*time.Time{}, func() []int64 { return nil }, make(chan int), time.Now(), time.Second, [][3]int32{}}

func c08Refuse(c *Ctx) {
	for _, b := range c08bad {
		for _, mut := range []bool{false, true} {
			if p, _ := Panics(func() { tr.NewList(b, mut) }); !p {
				c.Violate("bad-accepted", fmt.Sprintf("%T", b), "NewList accepts a %T", b)
			}
			c.Case(fmt.Sprintf("bad %T", b))
		}
	}
}

type c08in struct {
	write bool
	id    int64
}

var c08model = porcupine.Model{
	Init: func() interface{} { return int64(1) },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		in := input.(c08in)
		if in.write {
			return true, in.id
		}
		return output.(int64) == state.(int64), state
	},
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(input, output interface{}) string {
		in := input.(c08in)
		if in.write {
			return fmt.Sprintf("Change -> %d", in.id)
		}
		return fmt.Sprintf("read %v", output)
	},
}

// c08slice is the slice that stands for id: its length and all its elements
// depend on it.
func c08slice(id int64, n int) []int64 {
	s := make([]int64, n)
	for i := range s {
		s[i] = id*1000 + int64(i)
	}
	return s
}

// c08id returns the id of the slice, or an error if it is not a whole one.
func c08id(s []int64, lens map[int64]int) (int64, string) {
	if len(s) == 0 {
		return 0, "empty"
	}
	id := s[0] / 1000
	if n, ok := lens[id]; !ok || len(s) != n {
		return 0, fmt.Sprintf("%d elements of change %d, which has %d", len(s), id, n)
	}
	for i, x := range s {
		if x != id*1000+int64(i) {
			return 0, fmt.Sprintf("element %d is %d in a list that begins with %d", i, x, s[0])
		}
	}
	return id, ""
}

var c08ifaces = []string{"read", "rpc", "json", "text", "html", "list"}

func c08read(how string, cl *rpc.Client) (s []int64, err error) {
	switch how {
	case "read":
		s = tr.ReadMyMetrics("/t/l")[0].Value.([]int64)
	case "list":
		ml, err := rpcList(cl, "/t")
		if err != nil {
			return nil, err
		}
		s = ml[0].Value.([]int64)
	case "rpc":
		m, err := rpcGet(cl, "/t/l")
		if err != nil {
			return nil, err
		}
		s = m.Value.([]int64)
	case "json":
		j, _, err := jsonGet("/t/l")
		if err != nil {
			return nil, err
		}
		err = json.Unmarshal(j.Value, &s)
		if err != nil {
			return nil, err
		}
	case "text":
		for _, x := range strings.Split(strings.TrimSpace(textPage("/t/l")), "|") {
			v, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return nil, err
			}
			s = append(s, v)
		}
	case "html":
		for _, x := range strings.Split(htmlPage("/t/l"), "<li>")[1:] {
			x = strings.ReplaceAll(strings.TrimSpace(x[:strings.Index(x, "</li>")]), ",", "")
			v, err := strconv.ParseInt(x, 10, 64)
			if err != nil {
				return nil, err
			}
			s = append(s, v)
		}
	}
	return s, nil
}

// c08Conc checks concurrent changes and reads against one register.
func c08Conc(c *Ctx, i int) {
	r := c.Sub("conc", i)
	defer clearRoot("t")
	nw, nr := 1+r.Intn(3), 1+r.Intn(3)
	nops := 3 + r.Intn(6)
	lens := map[int64]int{1: 1 + r.Intn(30)}
	for id := int64(2); id < int64(2+nw*nops); id++ {
		lens[id] = 1 + r.Intn(30)
	}
	l := tr.NewList(c08slice(1, lens[1]), true)
	if err := tr.RegisterMetric("/t/l", l, units.None, ""); err != nil {
		c.Violate("refused", nil, "%v", err)
	}
	asInt := r.Intn(3) == 0
	// each goroutine logs on its own: a common lock would hide races
	logs := make([][]porcupine.Operation, nw+nr)
	bar := newBarrier(nw + nr)
	var wg, rwg sync.WaitGroup
	var stop int32
	for w := 0; w < nw; w++ {
		wg.Add(1)
		wr := c.Sub("conc", i, "w", w)
		go func(w int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			buf := make([]int64, 40)
			bar.wait()
			for k := 0; k < nops; k++ {
				id := int64(2 + w*nops + k)
				var arg interface{}
				mut := true
				s := c08slice(id, lens[id])
				switch wr.Intn(3) {
				case 0:
					mut = false
					arg = s
				case 1:
					copy(buf, s)
					arg = buf[:len(s)]
				default:
					arg = s
				}
				if asInt && wr.Intn(2) == 0 {
					t := make([]int, len(s))
					for j, x := range s {
						t[j] = int(x)
					}
					arg = t
				}
				if wr.Intn(2) == 0 {
					runtime.Gosched()
				}
				t0 := now()
				l.Change(arg, mut)
				t1 := now()
				logs[w] = append(logs[w], porcupine.Operation{ClientId: w, Input: c08in{true, id}, Output: int64(0), Call: t0, Return: t1})
				if mut {
					// it is ours again
					switch a := arg.(type) {
					case []int64:
						for j := range a {
							a[j] = -7
						}
					case []int:
						for j := range a {
							a[j] = -7
						}
					}
				}
			}
		}(w)
	}
	for q := 0; q < nr; q++ {
		rwg.Add(1)
		qr := c.Sub("conc", i, "r", q)
		go func(q int) {
			defer rwg.Done()
			defer c.Guard("panic", nil)
			cl := newRPC()
			defer cl.Close()
			bar.wait()
			for k := 0; k < 12 && (k < 2 || atomic.LoadInt32(&stop) == 0); k++ {
				how := pick(qr, c08ifaces)
				t0 := now()
				s, err := c08read(how, cl)
				t1 := now()
				if err != nil {
					c.Violate("read", how, "%s: %v", how, err)
				}
				id, bad := c08id(s, lens)
				if bad != "" {
					c.Violate("torn", map[string]interface{}{"interface": how, "read": s}, "%s reads %v: %s", how, s, bad)
				}
				logs[nw+q] = append(logs[nw+q], porcupine.Operation{ClientId: nw + q, Input: c08in{}, Output: id, Call: t0, Return: t1})
			}
		}(q)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rwg.Wait()
	var ops []porcupine.Operation
	for _, l := range logs {
		ops = append(ops, l...)
	}
	t0 := now()
	s, err := c08read("read", nil)
	if err != nil {
		c.Violate("read", nil, "%v", err)
	}
	id, bad := c08id(s, lens)
	if bad != "" {
		c.Violate("torn", s, "after all changes the list reads %v: %s", s, bad)
	}
	ops = append(ops, porcupine.Operation{ClientId: nw + nr, Input: c08in{}, Output: id, Call: t0, Return: now()})
	switch porcupine.CheckOperationsTimeout(c08model, ops, 20*time.Second) {
	case porcupine.Illegal:
		c.Violate("not-linearizable", describe(ops, c08model), "no order of these calls explains what was read: %v", describe(ops, c08model))
	case porcupine.Unknown:
		c.Count("histories_too_long", 1)
	}
	c.Count("calls", int64(len(ops)))
	c.Count("overlapping_pairs", overlaps(ops))
	c.Case(fmt.Sprint(orderOf(ops)))
	if c.WantSample() {
		c.Sample(describe(ops, c08model))
	}
}
