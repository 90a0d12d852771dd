package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/rpc"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() {
	props["C24"] = c24
	children["c24"] = c24Child
	children["c24demo"] = c24Demo
}

// c24 runs the two commands. Each run has a network of its own, as the commands
// use one fixed port, unless the machine does not allow that: then they run one
// after another.
func c24(c *Ctx) {
	c.rule = "a case is one run of the client against a server whose replies are recorded, or one metric of the demo read back; distinct by what was replied, or by interface and metric"
	n, par := c.N(160, 1600), 16
	if c.Race() {
		n, par = c.N(40, 200), 8
	}
	if os.Getenv("VERIF_NETNS") == "" {
		n, par = c.N(16, 60), 1
	}
	var wg sync.WaitGroup
	if c.Shard == 0 {
		if par > 1 {
			wg.Add(1)
			go func() { defer wg.Done(); c.runChild("c24demo", c.Seed) }()
		} else {
			c.runChild("c24demo", c.Seed)
		}
	}
	next := make(chan int64)
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range next {
				c.runChild("c24", s)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- int64(hash(c.Seed, c.Phase, c.Shard, i) >> 1)
	}
	close(next)
	wg.Wait()
}

// c24Call is a request the server got and what it replied.
type c24Call struct {
	method, path string
	list         messages.MetricList
	metric       *messages.Metric
	err          string
	dropped      bool // the connection was cut instead
}

type c24Server struct {
	mu    sync.Mutex
	calls []*c24Call
	plan  func(method, path string) *c24Call
	conns []net.Conn
	delay func() time.Duration
}

func (s *c24Server) call(method, path string) (*c24Call, error) {
	s.mu.Lock()
	x := s.plan(method, path)
	x.method, x.path = method, path
	s.calls = append(s.calls, x)
	d := s.delay()
	s.mu.Unlock()
	time.Sleep(d)
	if x.dropped {
		s.mu.Lock()
		for _, conn := range s.conns {
			conn.Close()
		}
		s.mu.Unlock()
	}
	if x.err != "" {
		return nil, errors.New(x.err)
	}
	return x, nil
}

func (s *c24Server) ListMetrics(path string, reply *messages.MetricList) error {
	x, err := s.call("ListMetrics", path)
	if err == nil {
		*reply = x.list
	}
	return err
}

func (s *c24Server) GetMetric(path string, reply *messages.Metric) error {
	x, err := s.call("GetMetric", path)
	if err == nil {
		*reply = *x.metric
	}
	return err
}

// c24Metric returns a metric as a server may send it.
func c24Metric(r randT, path string) *messages.Metric {
	o := genOpt{validUTF8: true}
	some := func() bool { return r.Intn(2) == 0 }
	m := &messages.Metric{Path: path}
	if some() {
		m.Description = strings.ToValidUTF8(genString(r, o), "?")
	}
	if some() {
		m.Unit = pick(r, []units.Unit{units.None, units.Byte, units.Second, units.Millisecond, units.Unknown, "Furlongs"})
	}
	if some() {
		m.GroupId = r.Intn(5)
	}
	if some() {
		m.TimeStamp = nonZeroTime(r).UTC()
	}
	flt := func() float64 {
		f := genFloat(r)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 0
		}
		return f
	}
	str := func() string { return strings.ToValidUTF8(genString(r, o), "?") }
	set := func(k types.Type, v interface{}) { m.Kind, m.Value = k, v }
	switch r.Intn(16) {
	case 0:
		set(types.Bool, some())
	case 1:
		set(types.Int64, genBits(r))
		m.Bits = 64
	case 2:
		set(types.Uint64, uint64(genBits(r)))
		m.Bits = 64
	case 3:
		set(types.Float64, flt())
		m.Bits = 64
	case 4, 5:
		set(types.String, str())
	case 6:
		set(types.GoDuration, genDur(r))
	case 7:
		set(types.GoTime, nonZeroTime(r).UTC())
	case 8:
		set(types.Int8, int8(genBits(r)))
		m.Bits = 8
	case 9, 10:
		d := &messages.Distribution{Min: flt(), Max: flt(), Average: flt(), Median: flt(), Sum: flt(),
			Count: uint64(r.Intn(3)), Generation: uint64(r.Intn(3)), IsNotCumulative: some()}
		for k := r.Intn(4); k > 0; k-- {
			d.Ranges = append(d.Ranges, &messages.RangeWithCount{Upper: flt(), Lower: flt(), Count: uint64(r.Intn(2))})
		}
		set(types.Dist, d)
	case 11:
		l := make([]int64, r.Intn(6))
		for k := range l {
			l[k] = genBits(r)
		}
		set(types.List, l)
		m.SubType, m.Bits = types.Int64, 64
	case 12:
		l := make([]string, r.Intn(6))
		for k := range l {
			l[k] = str()
		}
		set(types.List, l)
		m.SubType = types.String
	case 13:
		l := make([]time.Duration, r.Intn(6))
		for k := range l {
			l[k] = genDur(r)
		}
		set(types.List, l)
		m.SubType = types.GoDuration
	case 14:
		l := make([]bool, r.Intn(6))
		for k := range l {
			l[k] = some()
		}
		set(types.List, l)
		m.SubType = types.Bool
	case 15:
		set(types.Uint16, uint16(genBits(r)))
		m.Bits = 16
	}
	return m
}

var c24Asked = []struct {
	method, path string
	fatal        bool
}{
	{"ListMetrics", "", true},
	{"ListMetrics", "aaa/bbb", true},
	{"GetMetric", "proc/foo/bar/baz", true},
	{"GetMetric", "proc/foo/ddd", false},
	{"GetMetric", "list/squares", false},
}

// asReceived is what a client gets if x is sent.
func asReceived(x, to interface{}) interface{} {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(x); err != nil {
		panic(err)
	}
	if err := gob.NewDecoder(&b).Decode(to); err != nil {
		panic(err)
	}
	j, err := json.Marshal(to)
	if err != nil {
		panic(err)
	}
	return anyJSON(json.NewDecoder(bytes.NewReader(j)))
}

func anyJSON(d *json.Decoder) interface{} {
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return err
	}
	if l, ok := v.([]interface{}); ok && len(l) == 0 {
		return nil
	}
	return v
}

type c24Block struct {
	title string
	value interface{}
}

// c24Blocks splits the output of the client into titles and JSON values.
func c24Blocks(out []byte) (res []c24Block, err error) {
	title := ""
	for len(out) > 0 {
		line := out
		if i := bytes.IndexByte(out, '\n'); i >= 0 {
			line = out[:i]
		}
		t := strings.TrimSpace(string(line))
		if t != "null" && !strings.HasPrefix(t, "[") && !strings.HasPrefix(t, "{") {
			title += t
			out = out[len(line):]
			if len(out) > 0 {
				out = out[1:]
			}
			continue
		}
		d := json.NewDecoder(bytes.NewReader(out))
		v := anyJSON(d)
		if err, ok := v.(error); ok {
			return res, err
		}
		res = append(res, c24Block{title, v})
		title = ""
		out = out[d.InputOffset():]
	}
	if title != "" {
		return res, fmt.Errorf("%q at the end", title)
	}
	return res, nil
}

func c24Command(name string) *exec.Cmd {
	return exec.Command(filepath.Join(os.Getenv("VERIF_CMDS"), name))
}

func c24Listen() net.Listener {
	exec.Command("ip", "link", "set", "lo", "up").Run()
	for k := 0; ; k++ {
		l, err := net.Listen("tcp", ":8080")
		if err == nil {
			return l
		}
		if k > 900 {
			trouble("port 8080: %v", err)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// c24Run runs the client to its end.
func c24Run(r *childReport) (stdout, stderr []byte, ok bool) {
	cmd := c24Command("tricorderclient")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		trouble("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return out.Bytes(), errb.Bytes(), err == nil
	case <-time.After(3 * time.Minute):
		cmd.Process.Kill()
		r.fail("client-hangs", out.String(), "the client did not end")
	}
	return
}

func c24Child() {
	rep := &childReport{}
	r := rand.New(rand.NewSource(childSeed()))
	drop := -1
	if r.Intn(8) == 0 {
		drop = r.Intn(len(c24Asked))
	}
	var slow time.Duration
	if r.Intn(4) == 0 {
		slow = time.Duration(r.Intn(300)) * time.Millisecond
	}
	s := &c24Server{delay: func() time.Duration { return slow }}
	failing := r.Intn(3)
	s.plan = func(method, path string) *c24Call {
		x := &c24Call{}
		if len(s.calls) == drop {
			x.dropped, x.err = true, "dropped"
			return x
		}
		if failing > 0 && r.Intn(6) == 0 || failing == 2 && method == "GetMetric" && r.Intn(2) == 0 {
			x.err = pick(r, []string{"no such metric", "Path Not found", "a {b} [c]", "try again: later"})
			return x
		}
		if method == "GetMetric" {
			x.metric = c24Metric(r, path)
			return x
		}
		for k := pick(r, []int{0, 1, 1, 2, 3, 5, 9, 40}); k > 0; k-- {
			x.list = append(x.list, c24Metric(r, fmt.Sprintf("%s/m%d", path, k)))
		}
		return x
	}
	l := c24Listen()
	if r.Intn(40) == 0 { // nobody listens
		l.Close()
		out, errb, ok := c24Run(rep)
		if ok || len(out) > 0 || len(errb) == 0 {
			rep.fail("no-server", nil, "without a server the client succeeds: %v, writes %q, reports %q", ok, out, errb)
		}
		rep.ok("no server")
		rep.emit()
		return
	}
	server := rpc.NewServer()
	server.RegisterName("MetricsServer", s)
	mux := http.NewServeMux()
	mux.Handle(rpc.DefaultRPCPath, server)
	hs := &http.Server{Handler: mux, ConnContext: func(ctx context.Context, conn net.Conn) context.Context {
		s.mu.Lock()
		s.conns = append(s.conns, conn)
		s.mu.Unlock()
		return ctx
	}}
	go hs.Serve(l)
	out, errb, ok := c24Run(rep)
	s.mu.Lock()
	defer s.mu.Unlock()
	var sent []string
	fatal := false
	var want []interface{}
	var asked []string
	for i, x := range s.calls {
		if i >= len(c24Asked) || fatal {
			rep.fail("asks-more", sent, "the client asks for %s %q after %q", x.method, x.path, sent)
		}
		a := c24Asked[i]
		if x.method != a.method || strings.Trim(x.path, "/") != a.path {
			rep.fail("asks-other", sent, "request %d is %s %q, want %s %q", i, x.method, x.path, a.method, a.path)
		}
		switch {
		case x.dropped:
			sent = append(sent, "dropped")
			fatal = fatal || a.fatal
		case x.err != "":
			sent = append(sent, "error "+x.err)
			fatal = fatal || a.fatal
			if !bytes.Contains(errb, []byte(x.err)) {
				rep.fail("error-lost", sent, "the error %q for %q is not reported: %q", x.err, x.path, errb)
			}
		case x.metric != nil:
			want, asked = append(want, asReceived(x.metric, new(messages.Metric))), append(asked, a.path)
			sent = append(sent, fmt.Sprintf("%+v", *x.metric))
		default:
			want, asked = append(want, asReceived(x.list, new(messages.MetricList))), append(asked, a.path)
			d := ""
			for _, m := range x.list {
				d += fmt.Sprintf(" %+v", *m)
			}
			sent = append(sent, "["+d+"]")
		}
	}
	if !fatal && drop < 0 && len(s.calls) != len(c24Asked) {
		rep.fail("asks-less", sent, "the client made %d requests: %q; %s", len(s.calls), sent, errb)
	}
	if ok == fatal {
		rep.fail("status", sent, "the client succeeds: %v, replies %q; %s", ok, sent, errb)
	}
	blocks, err := c24Blocks(out)
	if err != nil {
		rep.fail("output", sent, "output %q: %v", short(string(out)), err)
	}
	if len(blocks) != len(want) {
		rep.fail("shown", sent, "%d replies shown of %d: %q", len(blocks), len(want), short(string(out)))
	}
	for k, b := range blocks {
		if !reflect.DeepEqual(b.value, want[k]) {
			g, _ := json.Marshal(b.value)
			w, _ := json.Marshal(want[k])
			rep.fail("reply", sent, "reply to %q shown as %s, sent %s", asked[k], short(string(g)), short(string(w)))
		}
		if !strings.Contains(b.title, asked[k]) || b.title == "" {
			rep.fail("title", sent, "reply to %q under the title %q", asked[k], b.title)
		}
		rep.count("replies_shown", 1)
	}
	rep.ok(strings.Join(sent, "|"))
	rep.Sample = map[string]interface{}{"replies": fmt.Sprintf("%.300q", sent), "status ok": ok}
	rep.emit()
}

// c24Demo runs the demo, and the client against it.
func c24Demo() {
	rep := &childReport{}
	c24Listen().Close()
	cmd := c24Command("tricorderdemo")
	var errb bytes.Buffer
	cmd.Stderr, cmd.Stdout = &errb, &errb
	if err := cmd.Start(); err != nil {
		trouble("%v", err)
	}
	gone := make(chan bool)
	go func() { cmd.Wait(); close(gone) }()
	defer cmd.Process.Kill()
	end := func(sig string, witness interface{}, format string, args ...interface{}) {
		cmd.Process.Kill()
		rep.fail(sig, witness, format, args...)
	}
	start := time.Now()
	for {
		if conn, err := net.Dial("tcp", ":8080"); err == nil {
			conn.Close()
			break
		}
		select {
		case <-gone:
			if strings.Contains(errb.String(), "address already in use") {
				trouble("%s", errb.String())
			}
			end("demo-ends", nil, "the demo ended: %s", errb.String())
		default:
		}
		if time.Since(start) > time.Minute {
			end("demo-mute", nil, "the demo does not listen: %s", errb.String())
		}
		time.Sleep(20 * time.Millisecond)
	}
	get := func(path string) string {
		resp, err := http.Get("http://127.0.0.1:8080" + path)
		if err != nil {
			end("demo-http", path, "%v", err)
		}
		defer resp.Body.Close()
		var b bytes.Buffer
		b.ReadFrom(resp.Body)
		return b.String()
	}
	type shown struct {
		desc  string
		unit  units.Unit
		kind  types.Type
		value interface{}
	}
	want := map[string]shown{
		"/proc/rpc-count":     {"RPC count", units.Unknown, types.Uint64, json.Number("500")},
		"/proc/temperature":   {"Temperature", units.Celsius, types.Float64, json.Number("22.5")},
		"/proc/duration":      {"Duration", units.Second, types.Duration, "125.000000000"},
		"/proc/foo/bar/baz":   {"Another float value", units.None, types.Float64, json.Number("12.375")},
		"/proc/foo/bar/abool": {"A boolean value", units.None, types.Bool, true},
		"/proc/rpc-latency":   {"RPC latency", units.Millisecond, types.Dist, nil},
		"/list/squares":       {"Squares", units.None, types.List, nil},
	}
	check := func(iface string, b []byte) {
		var ms []map[string]interface{}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(&ms); err != nil {
			end("demo-json", string(b), "%s: %v", iface, err)
		}
		seen := map[string]bool{}
		for _, m := range ms {
			path := fmt.Sprint(m["path"])
			w, ok := want[path]
			if !ok {
				if !builtIn(path) {
					end("demo-more", path, "%s: %q", iface, path)
				}
				continue
			}
			if seen[path] {
				end("demo-twice", path, "%s: %q twice", iface, path)
			}
			seen[path] = true
			kind, value := string(w.kind), w.value
			if iface == "client" && w.kind == types.Duration {
				kind, value = string(types.GoDuration), json.Number("125000000000")
			}
			unit, _ := m["unit"].(string)
			if m["description"] != w.desc || unit != string(w.unit) || m["kind"] != kind || value != nil && !reflect.DeepEqual(m["value"], value) {
				end("demo-metric", m, "%s: %q is %v, want %+v", iface, path, m, w)
			}
			rep.ok(iface + " " + path)
		}
		for path := range want {
			if !seen[path] {
				end("demo-less", path, "%s: no %q", iface, path)
			}
		}
		for _, m := range ms {
			switch m["path"] {
			case "/proc/rpc-latency":
				v, _ := m["value"].(map[string]interface{})
				for k, x := range map[string]string{"count": "500", "sum": "124750", "min": "0", "max": "499", "average": "249.5"} {
					if fmt.Sprint(v[k]) != x {
						end("demo-dist", v, "%s: %s of 0 to 499 is %v", iface, k, v[k])
					}
				}
				var have int64
				rs, _ := v["ranges"].([]interface{})
				for _, x := range rs {
					b, _ := json.Marshal(x)
					var rg struct {
						Lower, Upper *float64
						Count        int64
					}
					if err := json.Unmarshal(b, &rg); err != nil {
						end("demo-dist", v, "%s: %v", iface, err)
					}
					var n int64
					for i := 0; i < 500; i++ {
						// an open end is left out
						if (rg.Lower == nil || *rg.Lower <= float64(i)) && (rg.Upper == nil || float64(i) < *rg.Upper) {
							n++
						}
					}
					if n != rg.Count && (rg.Lower == nil || rg.Upper == nil || *rg.Lower != 0 && *rg.Upper != 0) {
						end("demo-dist", v, "%s: range %s of 0 to 499", iface, b)
					}
					have += rg.Count
				}
				if have != 500 {
					end("demo-dist", v, "%s: ranges hold %d of 500", iface, have)
				}
			case "/list/squares":
				l, _ := m["value"].([]interface{})
				for i, x := range l {
					if fmt.Sprint(x) != fmt.Sprint((i+1)*(i+1)) {
						end("demo-list", l, "%s: squares are %v", iface, l)
					}
				}
				if len(l) > 0 && time.Since(start) < 29*time.Second {
					end("demo-early", l, "%s: squares after %v: %v", iface, time.Since(start), l)
				}
			}
		}
	}
	check("json", []byte(get("/metricsapi/")))
	out, cerr, ok := c24Run(rep)
	if !ok {
		end("demo-client", string(cerr), "the client fails with the demo: %s", cerr)
	}
	blocks, err := c24Blocks(out)
	if err != nil || len(blocks) != 4 {
		end("demo-client", string(out), "%d replies shown with the demo: %v; %s", len(blocks), err, short(string(out)))
	}
	all, _ := json.Marshal(blocks[0].value)
	check("client", all)
	page := get("/metrics/proc/foo/bar")
	text := get("/metrics/proc/foo/bar?format=text")
	for _, x := range []string{"/proc/foo/bar/baz", "12.375", "/proc/foo/bar/abool", "true"} {
		if !strings.Contains(page, x) || !strings.Contains(text, x) {
			end("demo-page", page, "no %q on %q or %q", x, short(page), short(text))
		}
	}
	text = get("/metrics/?format=text")
	for _, x := range []string{"/proc/foo/bar/baz 12.375", "/proc/foo/bar/abool true", "/proc/rpc-count 500", "/proc/temperature 22.5", "/proc/duration 125.000000000"} {
		if !strings.Contains("\n"+text+"\n", "\n"+x+"\n") {
			end("demo-text", text, "no line %q on the text page", x)
		}
	}
	cl, err := rpc.DialHTTP("tcp", "127.0.0.1:8080")
	if err != nil {
		end("demo-rpc", nil, "%v", err)
	}
	for path, v := range map[string]interface{}{"/proc/rpc-count": uint64(500), "/proc/temperature": 22.5, "/proc/duration": 125 * time.Second, "/proc/foo/bar/baz": 12.375, "/proc/foo/bar/abool": true} {
		var m messages.Metric
		if err := cl.Call("MetricsServer.GetMetric", path, &m); err != nil || m.Value != v || m.Path != path {
			end("demo-rpc", path, "%q over RPC: %+v, %v", path, m, err)
		}
		rep.ok("rpc " + path)
	}
	cl.Close()
	// the squares start after half a minute
	last := 0
	for {
		var m struct{ Value []int64 }
		if err := json.Unmarshal([]byte(get("/metricsapi/list/squares?singleton=true")), &m); err != nil {
			end("demo-squares", nil, "%v", err)
		}
		for i, x := range m.Value {
			if x != int64((i+1)*(i+1)) {
				end("demo-squares", m.Value, "squares are %v", m.Value)
			}
		}
		if len(m.Value) < last {
			end("demo-squares", m.Value, "fewer squares than %d before: %v", last, m.Value)
		}
		if len(m.Value) > last {
			last = len(m.Value)
			rep.ok(fmt.Sprint("squares ", last))
		}
		if last >= 4 {
			break
		}
		if time.Since(start) > 2*time.Minute {
			end("demo-squares", m.Value, "%d squares after two minutes", last)
		}
		time.Sleep(100 * time.Millisecond)
	}
	cmd.Process.Kill()
	<-gone
	rep.emit()
}
