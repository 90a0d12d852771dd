package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	"github.com/anishathalye/porcupine"
)

func init() {
	props["C19"] = c19
	children["c19"] = c19Child
}

var healthURLs = []string{"/healthz", "/readiness"}

// setStatus sets the status of an endpoint; "" is healthy or ready.
func setStatus(end int, status string) {
	switch {
	case end == 0 && status == "":
		healthserver.SetHealthy()
	case end == 0:
		healthserver.SetNotHealthy(status)
	case status == "":
		healthserver.SetReady()
	default:
		healthserver.SetNotReady(status)
	}
}

// methodStatus is askStatus with any method and query, under which a status is
// the same.
func methodStatus(r randT, end int) (status, problem string) {
	url := healthURLs[end] + pick(r, []string{"", "", "?", "?a=b", "?status=x&format=text"})
	method := pick(r, []string{"GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"})
	var body io.Reader
	if method != "GET" && r.Intn(2) == 0 {
		body = strings.NewReader("status=OK")
	}
	req := httptest.NewRequest(method, url, body)
	for k := r.Intn(3); k > 0; k-- {
		req.Header.Set(pick(r, []string{"Accept", "Accept-Encoding", "User-Agent", "If-None-Match", "Content-Type"}),
			pick(r, []string{"gzip", "application/json", "*", "application/x-www-form-urlencoded", "kube-probe/1.2"}))
	}
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, req)
	return readStatus(w.Code, w.Body.String())
}

// askStatus returns the status an endpoint reports.
func askStatus(end int) (status, problem string) {
	w := get(healthURLs[end])
	return readStatus(w.Code, w.Body.String())
}

func readStatus(code int, body string) (status, problem string) {
	switch code {
	case 200:
		if strings.TrimSuffix(body, "\n") != "OK" {
			return "", fmt.Sprintf("200 with body %q", body)
		}
		return "", ""
	case 503:
		s := strings.TrimSuffix(body, "\n")
		if s == "" || s == "OK" {
			return s, fmt.Sprintf("503 with body %q", body)
		}
		return s, ""
	}
	return "", fmt.Sprintf("status code %d, body %q", code, body)
}

type c19in struct {
	end   int
	write bool
	val   string
}

func c19model(init [2]string) porcupine.Model {
	return porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			res := make([][]porcupine.Operation, 2)
			for _, o := range h {
				e := o.Input.(c19in).end
				res[e] = append(res[e], o)
			}
			return res
		},
		// "\x00" stands for the state before the run
		Init: func() interface{} { return "\x00" },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			in := input.(c19in)
			if in.write {
				return true, in.val
			}
			s := state.(string)
			if s == "\x00" {
				s = init[in.end]
			}
			return output.(string) == s, state
		},
		Equal: func(a, b interface{}) bool { return a == b },
		DescribeOperation: func(input, output interface{}) string {
			in := input.(c19in)
			if in.write {
				return fmt.Sprintf("set %s %q", healthURLs[in.end], in.val)
			}
			return fmt.Sprintf("get %s -> %q", healthURLs[in.end], output)
		},
	}
}

func c19(c *Ctx) {
	c.rule = "a case is one answer of an endpoint compared with the last status set, or one checked history of concurrent sets and requests; distinct by status, or by order of calls and answers"
	defer c.keep()()
	n := c.N(12000, 200000)
	if c.Race() {
		n = c.N(6000, 80000)
	} else {
		for i := 0; i < c.N(64, 400); i++ {
			c.runChild("c19", int64(i))
		}
		for i := 0; i < c.N(4000, 40000); i++ {
			c19Seq(c, i)
		}
		c19Server(c)
	}
	for i := 0; i < n; i++ {
		c19Conc(c, i)
	}
}

// c19Child looks at the defaults of a fresh program.
func c19Child() {
	rep := &childReport{}
	defer rep.emit()
	seed := childSeed()
	want := [2]string{"", "not ready"}
	look := func(what string) {
		for k := 0; k < 2; k++ {
			end := (k + int(seed)) % 2
			s, bad := askStatus(end)
			if bad != "" || s != want[end] {
				rep.fail("default", what, "%s: %s reports %q %s, want %q", what, healthURLs[end], s, bad, want[end])
			}
			rep.ok(fmt.Sprint("d", what, end, s))
		}
	}
	if seed%4 != 3 {
		look("at the start")
	}
	// one endpoint set, the other still at its default
	end := int(seed/2) % 2
	steps := []string{"first", "", "second"}
	if seed%3 == 0 {
		steps = []string{"", "x"}
	}
	for _, s := range steps {
		setStatus(end, s)
		want[end] = s
		look(fmt.Sprintf("after setting only %s to %q", healthURLs[end], s))
	}
}

func genStatus(r randT) string {
	for {
		var s string
		switch r.Intn(4) {
		case 0:
			return ""
		case 1:
			s = genString(r, genOpt{})
		case 2:
			s = pick(r, []string{"ok", "OK ", " OK", "OKAY", "Ok", "not ready", "not healthy", "0", " ", "\n", "OK\n", "<b>", "503", "%s %d", "200 OK", strings.Repeat("x", 10000)})
		default:
			s = fmt.Sprint("status ", r.Intn(1000))
		}
		if s != "" && s != "OK" && strings.TrimSuffix(s, "\n") == s {
			return s
		}
	}
}

func c19Seq(c *Ctx, i int) {
	r := c.Sub("seq", i)
	var want [2]string
	for e := range want {
		want[e] = genStatus(r)
		setStatus(e, want[e])
	}
	for k := 0; k < 20; k++ {
		if r.Intn(2) == 0 {
			e := r.Intn(2)
			want[e] = genStatus(r)
			setStatus(e, want[e])
		}
		if r.Intn(6) == 0 {
			bad := pick(r, []string{"", "OK"})
			e := r.Intn(2)
			p, _ := Panics(func() {
				if e == 0 {
					healthserver.SetNotHealthy(bad)
				} else {
					healthserver.SetNotReady(bad)
				}
			})
			if !p {
				c.Violate("no-panic", bad, "setting %s to not OK with status %q does not panic", healthURLs[e], bad)
			}
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			e := r.Intn(2)
			s, bad := methodStatus(r, e)
			if bad != "" || s != want[e] {
				c.Violate("status", want, "%s reports %q %s, the last status set is %q (other endpoint %q)", healthURLs[e], short(s), bad, short(want[e]), short(want[1-e]))
			}
			c.Case(fmt.Sprint("s", e, s))
		}
	}
	if c.WantSample() {
		c.Sample(want)
	}
}

// c19Server asks over a real connection, with various methods.
func c19Server(c *Ctx) {
	srv := httptest.NewServer(http.DefaultServeMux)
	defer srv.Close()
	for i := 0; i < c.N(200, 2000); i++ {
		r := c.Sub("server", i)
		e := r.Intn(2)
		st := genStatus(r)
		setStatus(e, st)
		resp, err := http.Get(srv.URL + healthURLs[e] + pick(r, []string{"", "?x=y", "?status=OK", "?"}))
		if err != nil {
			panic(err)
		}
		b, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		s, bad := readStatus(resp.StatusCode, string(b))
		if bad != "" || s != st {
			c.Violate("status", st, "%s over HTTP reports %q %s, want %q", healthURLs[e], short(s), bad, short(st))
		}
		c.Case(fmt.Sprint("h", e, s))
	}
}

func c19Conc(c *Ctx, i int) {
	r := c.Sub("conc", i)
	var init [2]string
	for e := range init {
		init[e] = fmt.Sprintf("initial %d", e)
		setStatus(e, init[e])
	}
	n := 2 + r.Intn(5)
	nops := 3 + r.Intn(8)
	both := r.Intn(2) == 0
	logs := make([][]porcupine.Operation, n)
	bar := newBarrier(n)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		gr := c.Sub("conc", i, g)
		go func(g int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			var log []porcupine.Operation
			bar.wait()
			for k := 0; k < nops; k++ {
				e := i % 2
				if both {
					e = gr.Intn(2)
				}
				if gr.Intn(3) == 0 {
					runtime.Gosched()
				}
				if gr.Intn(2) == 0 {
					val := ""
					if gr.Intn(3) > 0 {
						val = strings.Repeat(fmt.Sprintf("g%dk%d.", g, k), 1+gr.Intn(4))
					}
					t0 := now()
					setStatus(e, val)
					log = append(log, porcupine.Operation{ClientId: g, Input: c19in{e, true, val}, Output: "", Call: t0, Return: now()})
				} else {
					t0 := now()
					s, bad := askStatus(e)
					t1 := now()
					if bad != "" {
						c.Violate("answer", s, "%s: %s", healthURLs[e], bad)
					}
					log = append(log, porcupine.Operation{ClientId: g, Input: c19in{end: e}, Output: s, Call: t0, Return: t1})
				}
			}
			logs[g] = log
		}(g)
	}
	wg.Wait()
	var ops []porcupine.Operation
	for _, l := range logs {
		ops = append(ops, l...)
	}
	for e := 0; e < 2; e++ {
		t0 := now()
		s, bad := askStatus(e)
		if bad != "" {
			c.Violate("answer", s, "%s: %s", healthURLs[e], bad)
		}
		ops = append(ops, porcupine.Operation{ClientId: n, Input: c19in{end: e}, Output: s, Call: t0, Return: now()})
	}
	m := c19model(init)
	switch porcupine.CheckOperationsTimeout(m, ops, 20*time.Second) {
	case porcupine.Illegal:
		c.Violate("not-linearizable", describe(ops, m), "no order of these calls explains the answers: %v", describe(ops, m))
	case porcupine.Unknown:
		c.Count("histories_too_long", 1)
	}
	c.Count("calls", int64(len(ops)))
	c.Count("overlapping_pairs", overlaps(ops))
	c.Case(fmt.Sprint(orderOf(ops)))
	if c.WantSample() {
		c.Sample(describe(ops, m))
	}
}
