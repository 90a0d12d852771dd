package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/rpc"
	"strings"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C10"] = c10 }

// jsonDist is a distribution as documented for JSON clients.
type jsonDist struct {
	Min             float64 `json:"min"`
	Max             float64 `json:"max"`
	Average         float64 `json:"average"`
	Median          float64 `json:"median"`
	Sum             float64 `json:"sum"`
	Count           uint64  `json:"count"`
	Generation      uint64  `json:"generation"`
	IsNotCumulative bool    `json:"isNotCumulative"`
	Ranges          []struct {
		Lower float64 `json:"lower"`
		Upper float64 `json:"upper"`
		Count uint64  `json:"count"`
	} `json:"ranges"`
}

func c10(c *Ctx) {
	c.rule = "a case is one metric read over JSON (listing, singleton, with and without gzip) and compared with the same metric over Go RPC; distinct by metadata and value"
	defer c.keep()()
	cl := newRPC()
	defer cl.Close()
	defer c.otherClients("json", "jsongz", "jsonget", "jsonmissing", "rpc")()
	rounds := c.N(2400, 40000)
	if c.Race() {
		rounds /= 40
	}
	for i := 0; i < rounds; i++ {
		c10Round(c, cl, i)
	}
	c10Missing(c)
}

// jsonKind is the documented JSON kind for a Go RPC one.
func jsonKind(t types.Type) string {
	switch t {
	case types.GoTime:
		return "time"
	case types.GoDuration:
		return "duration"
	}
	return string(t)
}

// diffJSON compares a metric over JSON with the one over Go RPC. fixed tells
// that the timestamp is the same at each request.
func diffJSON(j *jsonMetric, m *messages.Metric, fixed bool) string {
	switch {
	case j.Path != m.Path:
		return fmt.Sprintf("path %q, RPC %q", j.Path, m.Path)
	case j.Description != m.Description:
		return fmt.Sprintf("description %q, RPC %q", j.Description, m.Description)
	case j.Unit != string(m.Unit):
		return fmt.Sprintf("unit %q, RPC %q", j.Unit, string(m.Unit))
	case j.Kind != jsonKind(m.Kind):
		return fmt.Sprintf("kind %q, RPC %q", j.Kind, m.Kind)
	case j.SubType != jsonKind(m.SubType):
		return fmt.Sprintf("sub-type %q, RPC %q", j.SubType, m.SubType)
	case j.Bits != m.Bits:
		return fmt.Sprintf("bits %d, RPC %d", j.Bits, m.Bits)
	case j.GroupId != m.GroupId:
		return fmt.Sprintf("group id %d, RPC %d", j.GroupId, m.GroupId)
	}
	ts, ok := m.TimeStamp.(time.Time)
	if !ok {
		return fmt.Sprintf("RPC timestamp is a %T", m.TimeStamp)
	}
	if fixed {
		if w := decimal(timeNs(ts)); j.TimeStamp != w {
			return fmt.Sprintf("timestamp %q, RPC %q", j.TimeStamp, w)
		}
	} else {
		jt, err := parseStamp(j.TimeStamp)
		if err != nil {
			return err.Error()
		}
		if d := jt.Sub(ts); d < -time.Hour || d > time.Hour {
			return fmt.Sprintf("timestamp %q, RPC %v", j.TimeStamp, ts)
		}
	}
	switch v := m.Value.(type) {
	case *messages.Distribution:
		var d jsonDist
		if err := json.Unmarshal(j.Value, &d); err != nil {
			return fmt.Sprintf("%v in %s", err, short(string(j.Value)))
		}
		if d.Min != v.Min || d.Max != v.Max || d.Average != v.Average || d.Median != v.Median || d.Sum != v.Sum || d.Count != v.Count ||
			d.Generation != v.Generation || d.IsNotCumulative != v.IsNotCumulative || len(d.Ranges) != len(v.Ranges) {
			return fmt.Sprintf("distribution %s, RPC %+v", short(string(j.Value)), *v)
		}
		for i := range d.Ranges {
			if r := v.Ranges[i]; d.Ranges[i].Lower != r.Lower || d.Ranges[i].Upper != r.Upper || d.Ranges[i].Count != r.Count {
				return fmt.Sprintf("range %d %+v, RPC %+v", i, d.Ranges[i], *r)
			}
		}
		return ""
	default:
		if m.Kind == types.List {
			return sameJSON(j.Value, v, "", m.Unit)
		}
		return sameJSONValue(j.Value, v, m.Unit)
	}
}

func c10Round(c *Ctx, cl *rpc.Client, i int) {
	r := c.Sub("round", i)
	base := genBase(r)
	gs := genMany(c, r, base, 1+r.Intn(20), genOpt{validUTF8: true, large: true})
	all := gmPaths(gs)
	defer func() { clearTops(all) }()
	// groups with times of their own, so that requests can be compared
	var groups []*tr.Group
	for k := 0; k < 1+r.Intn(3); k++ {
		g := tr.NewGroup()
		ts := genTime(r)
		for ts.IsZero() {
			ts = genTime(r)
		}
		g.RegisterUpdateFunc(func() time.Time { return ts })
		groups = append(groups, g)
	}
	allFixed := r.Intn(2) == 0
	fixed := map[string]bool{}
	for _, g := range gs {
		if g.Kind == types.List || allFixed || r.Intn(2) == 0 {
			fixed[g.Path] = true
			g.Group = pick(r, groups)
		}
		if err := g.register(); err != nil {
			c.Violate("refused", g.String(), "RegisterMetric refused %s: %v", g, err)
		}
	}
	for k := r.Intn(3); k > 0; k-- {
		b, _, _ := genBucketer(r)
		d := newAdist(b, r.Intn(2) == 0)
		p := fmt.Sprintf("%s/dist%d", base, k)
		if regVia(r, p, d.spec, nil, pick(r, allUnits), genString(r, genOpt{validUTF8: true})) != nil {
			continue
		}
		all = append(all, p)
		for n := r.Intn(20); n > 0; n-- {
			d.add(r.NormFloat64() * math.Pow(10, float64(r.Intn(6)-2)))
		}
		fixed[p] = true
	}
	for step := 0; step < 2; step++ {
		if step > 0 {
			for _, g := range gs {
				if r.Intn(2) == 0 {
					g.Set(r)
				}
			}
		}
		paths := []string{base}
		for j := 0; j < 2; j++ {
			p := pick(r, gs).Path
			for k := r.Intn(2); k > 0; k-- {
				p = p[:strings.LastIndex(p, "/")]
			}
			paths = append(paths, p)
		}
		for _, p := range paths {
			ml, err := rpcList(cl, p)
			if err != nil {
				c.Violate("rpc", p, "%v", err)
			}
			var hdr []string
			if r.Intn(2) == 0 {
				hdr = []string{"Accept-Encoding", pick(r, []string{"gzip", "gzip, deflate", "deflate, gzip;q=1.0"})}
			}
			jl, err := jsonList(p, hdr...)
			if err != nil {
				c.Violate("json", p, "JSON listing of %q: %v", p, err)
			}
			built := len(ml)
			ml = notBuiltIn(ml)
			built -= len(ml)
			var mine []*jsonMetric
			for _, j := range jl {
				if !builtIn(j.Path) {
					mine = append(mine, j)
				}
			}
			jl = mine
			if len(jl) != len(ml) {
				c.Violate("list-length", p, "JSON lists %d metrics at %q, RPC %d", len(jl), p, len(ml))
			}
			for k := range jl {
				if d := diffJSON(jl[k], ml[k], fixed[ml[k].Path]); d != "" {
					c.Violate("differs", fmt.Sprintf("%+v %+v", *jl[k], *ml[k]), "JSON listing of %q: %q: %s", p, ml[k].Path, d)
				}
				c.Case(fmt.Sprint("l", ml[k].Description, ml[k].Unit, ml[k].Kind, ml[k].Value))
				if r.Intn(4) > 0 {
					continue
				}
				j, code, err := jsonGet(ml[k].Path, hdr...)
				if err != nil || j == nil {
					c.Violate("singleton", ml[k].Path, "JSON of %q: status %d %v", ml[k].Path, code, err)
				}
				if d := diffJSON(j, ml[k], fixed[ml[k].Path]); d != "" {
					c.Violate("singleton-differs", fmt.Sprintf("%+v %+v", *j, *ml[k]), "JSON of %q: %s", ml[k].Path, d)
				}
				c.Case(fmt.Sprint("s", ml[k].Description, ml[k].Unit, ml[k].Kind, ml[k].Value))
			}
			all := built == 0
			for _, m := range ml {
				all = all && fixed[m.Path]
			}
			if all {
				u := urlFor("/metricsapi", p)
				a, err1 := body(get(u))
				b, err2 := body(get(u, "Accept-Encoding", "gzip"))
				if err1 != nil || err2 != nil || !bytes.Equal(a, b) {
					c.Violate("gzip", p, "bodies with and without gzip differ at %q: %v %v %q %q", p, err1, err2, short(string(a)), short(string(b)))
				}
				c.Count("gzip_bodies_compared", 1)
			}
		}
	}
	if c.WantSample() {
		c.Sample(map[string]interface{}{"metrics": len(gs), "first": gs[0].String(), "body": short(get(urlFor("/metricsapi", base)).Body.String())})
	}
}

func c10Missing(c *Ctx) {
	x := int64(5)
	tr.RegisterMetric("/t/dir/m", &x, units.None, "")
	tr.RegisterDirectory("/t/empty")
	defer clearRoot("t")
	for _, gz := range []bool{false, true} {
		var hdr []string
		if gz {
			hdr = []string{"Accept-Encoding", "gzip"}
		}
		for _, p := range []string{"/", "/t", "/t/dir", "/t/dir/", "/nope", "/t/dir/m/x", "/t/dir/n", "/t/empty", "/t/dir/M"} {
			j, code, err := jsonGet(p, hdr...)
			if code != 404 || j != nil || err != nil {
				c.Violate("singleton-found", p, "singleton %q: status %d, %v %v", p, code, j, err)
			}
			c.Case("404" + p)
		}
		for _, p := range []string{"/nope", "/t/dir/m/x", "/t/dir/n", "/t/empty", "/t/empty/", "/t/nope/m"} {
			jl, err := jsonList(p, hdr...)
			if err != nil || len(jl) != 0 {
				c.Violate("list-nothing", p, "JSON listing of %q: %d metrics, %v", p, len(jl), err)
			}
			c.Case("none" + p)
		}
		for _, p := range []string{"/t/dir/m", "/t/dir", "/t", "/t/"} {
			jl, err := jsonList(p, hdr...)
			if err != nil || len(jl) != 1 || jl[0].Path != "/t/dir/m" || string(jl[0].Value) != "5" {
				c.Violate("list-one", p, "JSON listing of %q: %d metrics, %v", p, len(jl), err)
			}
			c.Case("one" + p)
		}
		for _, p := range []string{"/t/dir/m", "/t/dir/m/"} {
			j, code, err := jsonGet(p, hdr...)
			if err != nil || j == nil || j.Path != "/t/dir/m" || string(j.Value) != "5" {
				c.Violate("singleton-one", p, "singleton %q: %d %v", p, code, err)
			}
			c.Case("one" + p)
		}
	}
}
