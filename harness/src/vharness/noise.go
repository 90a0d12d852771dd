package main

import (
	"fmt"
	"net/rpc"
	"strings"
	"sync"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
)

// Other clients: goroutines that keep asking for metrics of their own, whose
// values never change, while a workload goes on. Their answers are compared
// like those of the workload, which must not be disturbed either.

const noiseDir = "/proc/other clients" // among tricorder's own, so that listings of the root leave it out

func (c *Ctx) otherClients(ifaces ...string) (stop func()) {
	if !c.Race() && c.Shard%2 == 0 {
		return func() {}
	}
	var wg sync.WaitGroup
	done := make(chan struct{})
	shared := newRPC()
	for k := 0; k < 3; k++ {
		r := c.Sub("other client", k)
		base := fmt.Sprintf("%s/%d", noiseDir, k)
		var gs []*gm
		byPath := map[string]*gm{}
		for _, g := range genMany(c, r, base, 3+r.Intn(8), genOpt{validUTF8: true, plainStrings: true}) {
			g.Path = base + "/" + strings.Join(strings.FieldsFunc(g.Path[len(base):], func(r rune) bool { return r == '/' }), "_")
			if byPath[g.Path] != nil || g.register() != nil {
				continue
			}
			gs = append(gs, g)
			byPath[g.Path] = g
		}
		sortGm(gs)
		cl := shared
		if k == 0 {
			cl = newRPC()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := int64(0); ; n++ {
				select {
				case <-done:
					c.Count("requests_of_other_clients", n)
					return
				default:
				}
				iface, g := pick(r, ifaces), pick(r, gs)
				if d := noiseRequest(iface, base, g, gs, byPath, cl); d != "" {
					c.Violate("other-client", d, "%s request for %q among other requests: %s", iface, base, d)
				}
			}
		}()
	}
	return func() {
		close(done)
		wg.Wait()
		tr.UnregisterPath(noiseDir)
	}
}

func noiseRequest(iface, base string, g *gm, gs []*gm, byPath map[string]*gm, cl *rpc.Client) string {
	gz := []string{"Accept-Encoding", "gzip"}
	one := func(j *jsonMetric, g *gm) string {
		if j.Path != g.Path || j.Description != g.Desc || j.Unit != string(g.Unit) || j.Kind != jsonKind(g.Kind) {
			return fmt.Sprintf("%+v is not %s", *j, g)
		}
		if g.Kind == types.List {
			return sameJSON(j.Value, g.Cur(), "", g.Unit)
		}
		return sameJSONValue(j.Value, g.Cur(), g.Unit)
	}
	switch iface {
	case "rpc":
		ml, err := rpcList(cl, base)
		if err != nil {
			return err.Error()
		}
		return compareLists(ml, gs)
	case "read":
		return compareLists(tr.ReadMyMetrics(base), gs)
	case "rpcget":
		m, err := rpcGet(cl, g.Path)
		if err != nil {
			return err.Error()
		}
		return g.diffRPC(m, g.Path)
	case "rpcmissing":
		if m, err := rpcGet(cl, g.Path+"/x"); err == nil {
			return fmt.Sprintf("missing metric found: %+v", m)
		}
		if ml, err := rpcList(cl, g.Path+"/x"); err != nil || len(ml) != 0 {
			return fmt.Sprintf("missing metric listed: %+v %v", ml, err)
		}
	case "json", "jsongz":
		h := gz
		if iface == "json" {
			h = nil
		}
		jl, err := jsonList(base, h...)
		if err != nil {
			return err.Error()
		}
		if len(jl) != len(gs) {
			return fmt.Sprintf("%d metrics, want %d", len(jl), len(gs))
		}
		for i, j := range jl {
			if s := one(j, gs[i]); s != "" {
				return gs[i].String() + ": " + s
			}
		}
	case "jsonget":
		j, code, err := jsonGet(g.Path, gz...)
		if err != nil || j == nil {
			return fmt.Sprintf("status %d %v", code, err)
		}
		if s := one(j, g); s != "" {
			return g.String() + ": " + s
		}
	case "jsonmissing":
		if j, code, err := jsonGet(g.Path+"/x", gz...); j != nil || code != 404 || err != nil {
			return fmt.Sprintf("missing metric: status %d %v", code, err)
		}
	case "text":
		page := textPage(base)
		lines := strings.Split(strings.TrimSuffix(page, "\n"), "\n")
		if len(lines) != len(gs) {
			return fmt.Sprintf("%d lines, want %d: %s", len(lines), len(gs), short(page))
		}
		for i, g := range gs {
			if v, ok := strings.CutPrefix(lines[i], g.Path+" "); !ok || !g.textLine(v) {
				return fmt.Sprintf("%q is not %s", lines[i], g)
			}
		}
	case "textget":
		if page := textPage(g.Path); !g.textLine(strings.TrimSuffix(page, "\n")) {
			return fmt.Sprintf("%q is not %s", page, g)
		}
	case "html", "htmlget":
		p, want := base, gs
		if iface == "htmlget" {
			p, want = g.Path, []*gm{g}
		}
		items, err := parsePage(htmlPage(p))
		if err != nil || len(items) != len(want) {
			return fmt.Sprintf("%d entries, want %d: %v", len(items), len(want), err)
		}
		for i, g := range want {
			if s := checkItem(items[i], g.Path, byPath, nil); s != "" {
				return g.String() + ": " + s
			}
		}
	default:
		panic(iface)
	}
	return ""
}

// Work done by several goroutines at once, each in a directory of its own. What
// one does must not show in what the others see.

func (c *Ctx) workers() int {
	if c.Race() || c.Shard%2 == 1 {
		return 3
	}
	return 1
}

// each runs f for 0 to n-1; those of one worker one after another.
func (c *Ctx) each(n int, f func(i int)) {
	w := c.workers()
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.Guard("panic", nil)
			for i := k; i < n; i += w {
				f(i)
			}
		}()
	}
	wg.Wait()
}

// dirOf returns the directory of the worker that handles i.
func (c *Ctx) dirOf(i int) string { return fmt.Sprintf("/t%d", i%c.workers()) }
