// Command vharness drives the real tricorder packages through their public
// interfaces and watches what they do. See /verif/DESIGN.md.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vharness/vyield"
)

// exit status of a process that observed a violation
const exitViolation = 10

// Ctx is one run of one property's workload and monitors in one process.
type randT = *rand.Rand

type Ctx struct {
	Prop  string
	Phase string // "plain" or "race" (race detector and injected yields)
	Tier  string
	Seed  int64
	Shard int
	NSh   int
	Rng   *rand.Rand

	out   string
	known map[string]bool

	evals int64

	mu       sync.Mutex
	distinct map[uint64]struct{}
	samples  []interface{}
	counters map[string]int64
	knownHit map[string]string
	rule     string

	childName string // the name (argument 0) of child programs
}

// Result is what a process reports to the runner.
type Result struct {
	Prop       string                 `json:"prop"`
	Phase      string                 `json:"phase"`
	Shard      int                    `json:"shard"`
	Seed       int64                  `json:"seed"`
	Evals      int64                  `json:"evals"`
	Rule       string                 `json:"rule"`
	Samples    []interface{}          `json:"samples"`
	Counters   map[string]int64       `json:"counters"`
	Sites      int                    `json:"sites"`
	SiteHits   uint64                 `json:"siteHits"`
	Pairs      int                    `json:"pairs"`
	GoMaxProcs int                    `json:"gomaxprocs"`
	Known      map[string]string      `json:"known"`
	Violation  map[string]interface{} `json:"violation,omitempty"`
}

func hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	return h.Sum64()
}

// N scales a number of cases by tier, phase and share of the shard.
func (c *Ctx) N(quick, thorough int) int {
	n := quick
	if c.Tier == "thorough" {
		n = thorough
	}
	n = (n + c.NSh - 1) / c.NSh
	if n < 1 {
		n = 1
	}
	return n
}

// Race tells whether this process runs under the race detector.
func (c *Ctx) Race() bool { return c.Phase == "race" }

// Sub returns a generator for an independent part of the workload.
func (c *Ctx) Sub(parts ...interface{}) *rand.Rand {
	return rand.New(rand.NewSource(int64(hash(append([]interface{}{c.Prop, c.Phase, c.Seed, c.Shard}, parts...)...))))
}

// Case counts one monitored case. key identifies it; trivial cases pass "".
func (c *Ctx) Case(key string) {
	atomic.AddInt64(&c.evals, 1)
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	c.mu.Lock()
	c.distinct[v] = struct{}{}
	c.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Sample keeps the first few cases written out.
func (c *Ctx) Sample(x interface{}) {
	c.mu.Lock()
	if len(c.samples) < 3 {
		c.samples = append(c.samples, x)
	}
	c.mu.Unlock()
}

func (c *Ctx) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.samples) < 3
}

func (c *Ctx) result() *Result {
	r := &Result{Prop: c.Prop, Phase: c.Phase, Shard: c.Shard, Seed: c.Seed,
		Evals: atomic.LoadInt64(&c.evals), Rule: c.rule, Samples: c.samples, Counters: c.counters,
		GoMaxProcs: runtime.GOMAXPROCS(0), Known: c.knownHit}
	r.Sites, r.SiteHits = vyield.Sites()
	r.Pairs = vyield.Pairs()
	return r
}

func (c *Ctx) write(r *Result) {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		// a witness that JSON cannot hold
		if r.Violation != nil {
			r.Violation = map[string]interface{}{"sig": r.Violation["sig"], "what": r.Violation["what"], "witness": fmt.Sprintf("%+v", r.Violation["witness"])}
		}
		r.Samples = []interface{}{fmt.Sprintf("%+v", r.Samples)}
		b, _ = json.MarshalIndent(r, "", " ")
	}
	os.WriteFile(c.out, b, 0644)
	keys := make([]byte, 0, 8*len(c.distinct))
	for k := range c.distinct {
		keys = binary.LittleEndian.AppendUint64(keys, k)
	}
	os.WriteFile(c.out+".keys", keys, 0644)
}

// Violate reports a violation and ends the process, unless the signature is
// that of a known finding.
func (c *Ctx) Violate(sig string, witness interface{}, format string, args ...interface{}) {
	what := fmt.Sprintf(format, args...)
	c.mu.Lock()
	if c.known[sig] {
		c.knownHit[sig] = what
		c.mu.Unlock()
		return
	}
	// The lock is kept: the first violation is the one reported.
	r := c.result()
	r.Violation = map[string]interface{}{"sig": sig, "what": what, "witness": witness, "stack": string(debug.Stack())}
	c.write(r)
	fmt.Fprintf(os.Stderr, "VIOLATED %s [%s]: %s\n", c.Prop, sig, what)
	os.Exit(exitViolation)
}

// Guard turns a panic of the code under test into a violation.
func (c *Ctx) Guard(sig string, witness interface{}) {
	if r := recover(); r != nil {
		c.Violate(sig, witness, "unexpected panic: %v\n%s", r, debug.Stack())
	}
}

// Panics reports whether f panics.
func Panics(f func()) (panicked bool, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked, val = true, r
		}
	}()
	f()
	return
}

type propFunc func(c *Ctx)

var props = map[string]propFunc{}

func main() {
	if f, ok := children[os.Getenv("VERIF_CHILD")]; ok {
		f()
		return
	}
	prop := flag.String("prop", "", "property")
	phase := flag.String("phase", "plain", "plain or race")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	nsh := flag.Int("shards", 1, "shards")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "result file")
	known := flag.String("known", "", "comma separated known signatures")
	flag.Parse()
	f := props[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	c := &Ctx{Prop: *prop, Phase: *phase, Tier: *tier, Seed: *seed, Shard: *shard, NSh: *nsh, out: *out,
		known: map[string]bool{}, distinct: map[uint64]struct{}{}, counters: map[string]int64{}, knownHit: map[string]string{}}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			c.known[k] = true
		}
	}
	c.Rng = c.Sub()
	start := time.Now()
	func() {
		defer c.Guard("panic", nil)
		f(c)
	}()
	if c.evals == 0 {
		fmt.Fprintln(os.Stderr, "nothing observed")
		os.Exit(3)
	}
	c.mu.Lock()
	c.counters["process_ms"] = time.Since(start).Milliseconds()
	c.write(c.result())
}

var children = map[string]func(){}

func sortedKeys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// clock is the one monotonic clock of all histories.
var clockStart = time.Now()

// clockStepped tells whether the wall clock was set while this process ran, in
// which case timestamps prove nothing.
func clockStepped() bool {
	t := time.Now()
	d := t.Round(0).Sub(clockStart.Round(0)) - t.Sub(clockStart)
	return d > 50*time.Microsecond || d < -50*time.Microsecond
}

func now() int64 { return int64(time.Since(clockStart)) }

// pick returns a random element.
func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-200:]
	}
	return s
}
