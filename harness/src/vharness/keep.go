package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { children["keep"] = keepChild }

// keep starts a program that leaves its metrics alone for many seconds: what is
// reported must not change with the mere passing of time. The result waits for
// it.
func (c *Ctx) keep() (wait func()) {
	if c.Shard != 0 || c.Race() {
		return func() {}
	}
	d := "13"
	if c.Tier == "thorough" {
		d = "130"
	}
	var wg sync.WaitGroup
	for k := int64(0); k < 4; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.Guard("panic", nil)
			c.runChild("keep", 4*c.Seed+k, d, c.Prop)
		}()
	}
	return wg.Wait
}

func keepChild() {
	rep := &childReport{}
	prop := os.Args[2]
	var secs int
	fmt.Sscan(os.Args[1], &secs)
	d := time.Duration(secs) * time.Second
	r := rand.New(rand.NewSource(childSeed()))
	o := genOpt{validUTF8: true, plainStrings: true}
	var gs []*gm
	group := tr.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1234567890, 12) })
	for i := 0; i < 80; i++ {
		var g *gm
		if r.Intn(3) == 0 {
			g = genList(r, o)
		} else {
			g = genScalar(r, o)
		}
		g.Path = fmt.Sprintf("/k/d%d/m%d", i%4, i)
		g.Unit, g.Desc = pick(r, []units.Unit{units.None, units.Second, units.Byte, units.Millisecond}), genString(r, o)
		if g.Kind == types.List && r.Intn(2) == 0 {
			g.Set(r)
		}
		if r.Intn(3) == 0 {
			g.Group = group
		}
		if err := g.register(); err != nil {
			rep.fail("register", g.String(), "%s: %v", g, err)
		}
		gs = append(gs, g)
	}
	type distT interface{ Add(interface{}) }
	var dists []distT
	for i := 0; i < 8; i++ {
		var x distT
		if i%2 == 0 {
			x = tr.PowersOfTen.NewCumulativeDistribution()
		} else {
			x = tr.PowersOfTwo.NewNonCumulativeDistribution()
		}
		if err := tr.RegisterMetric(fmt.Sprintf("/k/d%d/dist%d", i%4, i), x, units.None, "d"); err != nil {
			panic(err)
		}
		for k := r.Intn(20) * (i & 3); k > 0; k-- {
			x.Add(float64(r.Intn(10000)))
		}
		dists = append(dists, x)
	}
	var health, ready string
	if childSeed()&1 == 1 {
		health = "ill"
	}
	if childSeed()&2 == 2 {
		ready = "waiting"
	}
	setStatus(0, health)
	setStatus(1, ready)
	fl := flag.String("keepflag", "x", "usage")
	tr.RegisterFlags()
	flag.Set("keepflag", "set")
	_ = fl
	// view is what of all this the property is about
	view := func(dir string) map[string]string {
		v := map[string]string{}
		add := func(key, format string, args ...interface{}) { v[key] = fmt.Sprintf(format, args...) }
		switch prop {
		case "C19":
			for end := range healthURLs {
				s, problem := askStatus(end)
				add(healthURLs[end], "%q %s", s, problem)
			}
			return v
		case "C17":
			cl := newRPC()
			defer cl.Close()
			m, err := rpcGet(cl, "/proc/flags/keepflag")
			add("flag", "%v %v %v %v", m.Value, m.Kind, m.Description, err)
			return v
		case "C13":
			add("text", "%s", textPage(dir))
			add("html", "%s", htmlPage(dir))
			return v
		case "C10":
			js, err := jsonList(dir)
			if err != nil {
				rep.fail("failed", dir, "%s: %v", dir, err)
			}
			for _, j := range js {
				if j.Kind != "list" && j.Kind != "distribution" {
					j.TimeStamp = ""
				}
				b, _ := json.Marshal(j)
				add(j.Path, "%s", b)
			}
			return v
		}
		cl := newRPC()
		defer cl.Close()
		ml, err := rpcList(cl, dir)
		if err != nil {
			rep.fail("failed", dir, "%s: %v", dir, err)
		}
		for i, m := range ml {
			switch {
			case prop == "C01":
				add(fmt.Sprint(i), "%s %s %s", m.Path, m.Unit, m.Description)
			case prop == "C05" && m.Kind == types.Dist, prop == "C08" && m.Kind == types.List:
				b, _ := json.Marshal(m.Value)
				add(m.Path, "%s", b)
			case prop == "C21":
				add(m.Path, "%d", m.GroupId)
				ts, _ := m.TimeStamp.(time.Time)
				if m.Kind == types.Dist || m.Kind == types.List || ts.Equal(time.Unix(1234567890, 12)) {
					add(m.Path, "%d %v", m.GroupId, ts.UnixNano())
				}
			case prop == "C09":
				b, _ := json.Marshal(m.Value)
				add(m.Path, "%s %s %s %s %d %s", b, m.Unit, m.Description, m.Kind, m.Bits, m.SubType)
			}
		}
		return v
	}
	dirs := []string{"/k/d0", "/k/d1", "/k/d2", "/k/d3"}
	first := map[string]map[string]string{}
	for _, dir := range dirs[:3] {
		first[dir] = view(dir)
	}
	same := func(dir string, after time.Duration) {
		now := view(dir)
		if first[dir] == nil {
			return
		}
		var keys []string
		for k := range first[dir] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if now[k] != first[dir][k] {
				rep.fail("kept", k, "%s after %v without any change is %s, was %s", k, after.Round(time.Second), short(now[k]), short(first[dir][k]))
			}
		}
		if !reflect.DeepEqual(now, first[dir]) {
			rep.fail("kept", now, "after %v without any change there is more in %s", after, dir)
		}
	}
	start := time.Now()
	for time.Since(start) < d { // one directory is asked for all along
		time.Sleep(d / 20)
		same(dirs[0], time.Since(start))
	}
	for _, dir := range dirs {
		same(dir, d)
		rep.ok("kept " + dir)
	}
	// and it all still follows the program
	switch prop {
	case "C09", "C08":
		cl := newRPC()
		defer cl.Close()
		for _, g := range gs {
			if (g.Kind == types.List) != (prop == "C08") {
				continue
			}
			g.Set(r)
			m, err := rpcGet(cl, g.Path)
			if err != nil {
				rep.fail("failed", g.Path, "%v", err)
			}
			if diff := g.diffRPC(m, g.Path); diff != "" {
				rep.fail("changed", g.Path, "%s changed after %v: %s", g, d, diff)
			}
			rep.ok("changed " + g.Path)
		}
	case "C05":
		count := func() (res []uint64) {
			for _, m := range tr.ReadMyMetrics("/k") {
				if m.Kind == types.Dist {
					var x struct{ Count, Generation uint64 }
					b, _ := json.Marshal(m.Value)
					json.Unmarshal(b, &x)
					res = append(res, x.Count, x.Generation)
				}
			}
			return
		}
		before := count()
		for _, x := range dists {
			x.Add(1.5)
		}
		for i, n := range count() {
			if n != before[i]+1 {
				rep.fail("changed", before, "one value added after %v: counts and generations %v, were %v", d, count(), before)
			}
		}
	case "C19":
		healthserver.SetNotHealthy("late")
		if s, problem := askStatus(0); s != "late" || problem != "" {
			rep.fail("changed", s, "status set after %v is %q %s", d, s, problem)
		}
	}
	rep.count("kept_seconds", int64(secs))
	rep.emit()
}
