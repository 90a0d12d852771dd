package main

import (
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() {
	props["C17"] = c17
	children["c17"] = c17Child
}

func c17(c *Ctx) {
	c.rule = "a case is one read of one flag of a program with random flags, compared with the flag's value at that time; distinct by flag type, unit and value"
	defer c.keep()()
	for i := 0; i < c.N(1000, 10000); i++ {
		c.runChild("c17", int64(hash(c.Seed, c.Shard, i)>>1))
	}
}

// durFlag and timeFlag are a program's own flags with typed values.
type durFlag struct{ d time.Duration }

func (f *durFlag) String() string     { return "about " + f.d.String() }
func (f *durFlag) Set(s string) error { d, err := time.ParseDuration(s); f.d = d; return err }
func (f *durFlag) Get() interface{}   { return f.d }

type timeFlag struct{ t time.Time }

func (f *timeFlag) String() string { return f.t.String() }
func (f *timeFlag) Set(s string) error {
	t, err := time.Parse(time.RFC3339Nano, s)
	f.t = t
	return err
}
func (f *timeFlag) Get() interface{} { return f.t }

type namedGetFlag struct{ n nUint16 }

func (f *namedGetFlag) String() string     { return "x" }
func (f *namedGetFlag) Set(s string) error { return nil }
func (f *namedGetFlag) Get() interface{}   { return f.n }

type nilGetFlag struct{ s string }

func (f *nilGetFlag) String() string     { return f.s }
func (f *nilGetFlag) Set(s string) error { f.s = s; return nil }
func (f *nilGetFlag) Get() interface{}   { return nil }

type sliceGetFlag []string

func (f *sliceGetFlag) String() string     { return strings.Join(*f, "+") }
func (f *sliceGetFlag) Set(s string) error { *f = append(*f, s); return nil }
func (f *sliceGetFlag) Get() interface{}   { return []string(*f) }

// defineFlag adds a flag to the program's command line.
func defineFlag(r *rand.Rand, name, usage string) *gm {
	o := genOpt{plainStrings: true, validUTF8: true}
	str := func(s fmt.Stringer) *gm {
		return &gm{Kind: types.String, Class: "string", Form: fmt.Sprintf("%T", s), Cur: func() interface{} { return s.String() }}
	}
	var g *gm
	switch r.Intn(17) {
	case 7:
		f := new(time.Time)
		flag.TextVar(f, name, genTime(r), usage)
		g = &gm{Kind: types.GoTime, Class: "time", Form: "TextVar of a time", Cur: func() interface{} { return *f }}
		g.Set = func(r *rand.Rand) { flag.Set(name, genTime(r).Format(time.RFC3339Nano)) }
	case 0:
		f := &durFlag{genDur(r)}
		flag.Var(f, name, usage)
		g = &gm{Kind: types.GoDuration, Class: "dur", Form: "durFlag", Cur: func() interface{} { return f.d }}
		g.Set = func(r *rand.Rand) { flag.Set(name, genDur(r).String()) }
	case 1:
		f := &timeFlag{genTime(r)}
		flag.Var(f, name, usage)
		g = &gm{Kind: types.GoTime, Class: "time", Form: "timeFlag", Cur: func() interface{} { return f.t }}
		g.Set = func(r *rand.Rand) { flag.Set(name, genTime(r).Format(time.RFC3339Nano)) }
	case 2:
		f := &namedGetFlag{nUint16(r.Intn(65536))}
		flag.Var(f, name, usage)
		g = &gm{Kind: types.Uint16, Class: "uint", Bits: 16, Form: "namedGetFlag", Cur: func() interface{} { return uint16(f.n) }}
		g.Set = func(r *rand.Rand) { f.n = nUint16(r.Intn(65536)) }
	case 3:
		f := &nilGetFlag{genString(r, o)}
		flag.Var(f, name, usage)
		g = str(f)
		g.Set = func(r *rand.Rand) { flag.Set(name, genString(r, o)) }
	case 4:
		f := &sliceGetFlag{genString(r, o)}
		flag.Var(f, name, usage)
		g = str(f)
		g.Set = func(r *rand.Rand) { flag.Set(name, genString(r, o)) }
	case 5:
		f := new(big.Int)
		flag.TextVar(f, name, big.NewInt(genBits(r)), usage)
		g = &gm{Kind: types.String, Class: "string", Form: "TextVar", Cur: func() interface{} { return f.String() }}
		g.Set = func(r *rand.Rand) { flag.Set(name, fmt.Sprint(genBits(r))) }
	case 6:
		flag.Func(name, usage, func(string) error { return nil })
		g = &gm{Kind: types.String, Class: "string", Form: "Func", Cur: func() interface{} { return "" }}
		g.Set = func(r *rand.Rand) { flag.Set(name, "x") }
	default:
		g = genFlag(r, o)
		flag.Var(g.Spec.(flag.Value), name, usage)
	}
	g.Path, g.Desc, g.Unit = "/proc/flags/"+name, usage, units.None
	if g.Kind == types.GoDuration {
		g.Unit = units.Second
	}
	return g
}

func c17Child() {
	rep := &childReport{}
	defer rep.emit()
	r := rand.New(rand.NewSource(childSeed()))
	var gs []*gm
	used := map[string]bool{}
	n, many := r.Intn(20), 100
	if r.Intn(10) == 0 {
		n, many = 100+r.Intn(200), 1000
	}
	for ; n > 0; n-- {
		name := pick(r, genNames)
		if r.Intn(2) == 0 {
			name = fmt.Sprintf("flag-%d", r.Intn(many))
		}
		if r.Intn(4) == 0 {
			name = pick(r, []string{"v", "h", "help", "version", "test.v", "test.run", "httptest.serve", "log_dir", "logtostderr", "config", "flags", "proc",
				"timeout", "verbose", "V", "FLAG-1", ".hidden", "x.", "_x"})
		}
		if r.Intn(12) == 0 {
			name = pick(r, []string{"log/level", "log/dir", "log/to/file", "db/a b", "db/<x>"}) // in directories of their own
		}
		if used[name] || strings.HasPrefix(name, "-") || strings.Contains(name, "=") {
			continue
		}
		used[name] = true
		g := defineFlag(r, name, genString(r, genOpt{validUTF8: true, plainStrings: true}))
		if r.Intn(3) == 0 {
			g.Unit = pick(r, allUnits)
			tr.SetFlagUnit(name, g.Unit)
			if r.Intn(3) == 0 {
				g.Unit = pick(r, allUnits)
				tr.SetFlagUnit(name, g.Unit)
			}
		}
		gs = append(gs, g)
	}
	tr.SetFlagUnit("no-such-flag", units.Byte)
	// names in each directory in order, depth first
	sort.Slice(gs, func(i, j int) bool {
		return strings.ReplaceAll(gs[i].Path, "/", "\x00") < strings.ReplaceAll(gs[j].Path, "/", "\x00")
	})
	if r.Intn(2) == 0 {
		for _, g := range gs {
			if r.Intn(2) == 0 {
				g.Set(r)
			}
		}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				rep.fail("register-panic", fmt.Sprint(gs), "RegisterFlags panicked: %v", x)
			}
		}()
		tr.RegisterFlags()
	}()
	cl := newRPC()
	byPath := map[string]*gm{}
	for _, g := range gs {
		byPath[g.Path] = g
	}
	for step := 0; step < 6; step++ {
		if step > 0 {
			for _, g := range gs {
				if r.Intn(2) == 0 {
					g.Set(r)
				}
			}
		}
		for _, from := range []string{"/proc/flags", "/proc"} {
			ml, err := rpcList(cl, from)
			if err != nil {
				rep.fail("rpc", gs, "ListMetrics(%q): %v", from, err)
			}
			mine := tr.ReadMyMetrics(from)
			for i, l := range [][]string{nil, nil} {
				src := ml
				if i == 1 {
					src = mine
				}
				got := src[:0:0]
				for _, m := range src {
					if strings.HasPrefix(m.Path, "/proc/flags/") {
						got = append(got, m)
					}
				}
				if d := compareLists(got, gs); d != "" {
					rep.fail("list", gs, "listing of %q: %s", from, d)
				}
				_ = l
			}
		}
		jl, err := jsonList("/proc/flags")
		if err != nil || len(jl) != len(gs) {
			rep.fail("json", gs, "JSON: %d of %d flags, %v", len(jl), len(gs), err)
		}
		lines := strings.Split(strings.TrimSuffix(textPage("/proc/flags"), "\n"), "\n")
		if len(gs) > 0 && len(lines) != len(gs) {
			rep.fail("text", lines, "text page: %d lines for %d flags", len(lines), len(gs))
		}
		page, err := parsePage(htmlPage("/proc/flags"))
		var items []*hitem
		for _, it := range page {
			if it.kind != "link" {
				items = append(items, it)
			}
		}
		for i, g := range gs {
			if strings.Contains(g.Path[len("/proc/flags/"):], "/") {
				own, err := parsePage(htmlPage(g.Path))
				if err != nil || len(own) != 1 {
					rep.fail("html", g.String(), "HTML page of %s: %d entries, %v", g, len(own), err)
				}
				if i > len(items) {
					break
				}
				items = append(items[:i:i], append(own, items[i:]...)...)
			}
		}
		if err != nil || len(items) != len(gs) {
			rep.fail("html", gs, "HTML page: %d of %d flags, %v", len(items), len(gs), err)
		}
		for i, g := range gs {
			m, err := rpcGet(cl, g.Path)
			if err != nil {
				rep.fail("get", g.String(), "GetMetric of %s: %v", g, err)
			}
			if d := g.diffRPC(m, g.Path); d != "" {
				rep.fail("get", g.String(), "GetMetric of %s: %s", g, d)
			}
			if d := diffJSON(jl[i], m, false); d != "" {
				rep.fail("json", g.String(), "JSON of %s: %s", g, d)
			}
			v, ok := strings.CutPrefix(lines[i], g.Path+" ")
			if !ok || !g.textLine(v) {
				rep.fail("text", g.String(), "text page shows %q for %s", lines[i], g)
			}
			if d := checkItem(items[i], g.Path, byPath, nil); d != "" {
				rep.fail("html", g.String(), "HTML page: %s: %s", g, d)
			}
			rep.ok(fmt.Sprint(g.Form, g.Unit, g.Cur()))
		}
	}
	rep.count("flags", int64(len(gs)))
	if len(gs) > 2 {
		rep.Sample = fmt.Sprint(gs[:3])
	}
	if len(gs) == 0 {
		rep.ok("")
	}
}
