package main

import (
	"fmt"
	"math/rand"
	"net/rpc"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() {
	props["C18"] = c18
	children["c18"] = c18Child
}

func c18(c *Ctx) {
	c.rule = "a case is one read of one built-in metric bracketed by the operating system's or runtime's own figures; distinct by metric and value"
	if c.Race() {
		c18Readers(c)
		return
	}
	for i := 0; i < c.N(160, 2000); i++ {
		r := c.Sub("args", i)
		var args []string
		for n := r.Intn(5); n > 0; n-- {
			args = append(args, strings.ReplaceAll(genString(r, genOpt{validUTF8: true}), "\x00", ""))
		}
		long := ""
		if i == 0 {
			long = "second"
			if c.Shard == 0 && c.Tier == "thorough" {
				long = "minute"
			}
		}
		os.Setenv("VERIF_LONG", long)
		os.Setenv("VERIF_STARTED", fmt.Sprint(time.Now().UnixNano()))
		c.childName = pick(r, []string{"", "", "/usr/bin/my prog", "./x", "-sh", "a|b", "tricorder\tdemo", "x/y/", "日本"})
		c.runChild("c18", int64(hash(c.Seed, c.Shard, i)>>1), args...)
	}
}

// c18Readers has several clients ask at the same time. One may be given the
// figures of another that is still reading, so they are at most the system's
// figures after the request, and those only growing never shrink for a client
// whose requests follow each other.
func c18Readers(c *Ctx) {
	var wg sync.WaitGroup
	n := c.N(2000, 20000)
	for k := 0; k < 5; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.Guard("panic", nil)
			r := c.Sub("reader", k)
			rep := &childReport{failed: func(sig string, witness interface{}, what string) { c.Violate(sig, witness, "%s", what) }}
			cl := newRPC()
			defer cl.Close()
			last := map[string]int64{}
			for i := 0; i < n; i++ {
				path := pick(r, []string{"/proc", "/proc/memory", "/proc/cpu", "/proc/scheduler", "/proc/memory/soft-page-fault", ""})
				iface := pick(r, []string{"read", "rpc", "json", "text"})
				if iface == "text" && path == "/proc/memory/soft-page-fault" {
					iface = "read"
				}
				got := c18read(rep, iface, path, cl)
				after := ru()
				for p, hi := range after {
					v, ok := got[p]
					if want := p == path || strings.HasPrefix(p, path+"/"); want != ok {
						c.Violate("unread", got, "%s in %s listing of %q: %v", p, iface, path, ok)
					}
					if !ok || p == "/proc/memory/max-resident-set-size" {
						continue
					}
					if v < last[p] || v > hi {
						c.Violate("readers", got, "%s is %d over %s, before it was %d, the system says %d now", p, v, iface, last[p], hi)
					}
					last[p] = v
					c.Case(fmt.Sprint("readers", p, v))
				}
				if v, ok := got["/proc/memory/total"]; ok && v <= 0 {
					c.Violate("readers", got, "/proc/memory/total is %d", v)
				}
			}
		}()
	}
	wg.Wait()
}

// ru is the operating system's own account, by metric.
func ru() map[string]int64 {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		panic(err)
	}
	return map[string]int64{
		"/proc/cpu/user":                       u.Utime.Sec*1e9 + u.Utime.Usec*1e3,
		"/proc/cpu/sys":                        u.Stime.Sec*1e9 + u.Stime.Usec*1e3,
		"/proc/memory/max-resident-set-size":   u.Maxrss * 1024,
		"/proc/memory/shared":                  u.Ixrss,
		"/proc/memory/unshared-data":           u.Idrss,
		"/proc/memory/unshared-stack":          u.Isrss,
		"/proc/memory/soft-page-fault":         u.Minflt,
		"/proc/memory/hard-page-fault":         u.Majflt,
		"/proc/memory/swaps":                   u.Nswap,
		"/proc/io/input":                       u.Inblock,
		"/proc/io/output":                      u.Oublock,
		"/proc/ipc/sent":                       u.Msgsnd,
		"/proc/ipc/received":                   u.Msgrcv,
		"/proc/signals/received":               u.Nsignals,
		"/proc/scheduler/involuntary-switches": u.Nivcsw,
		"/proc/scheduler/voluntary-switches":   u.Nvcsw,
	}
}

func fdCount() int64 {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return int64(len(e)) - 1
}

func memTotal() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.Sys - m.HeapReleased)
}

// c18paths are the paths of the metrics that only grow.
var c18paths = func() (res []string) {
	for p := range ru() {
		res = append(res, p)
	}
	sort.Strings(res)
	return
}()

type c18meta struct {
	kind types.Type
	unit units.Unit
}

var c18metas = map[string]c18meta{
	"/proc/cpu/user":                       {types.GoDuration, units.Second},
	"/proc/cpu/sys":                        {types.GoDuration, units.Second},
	"/proc/go/num-goroutines":              {types.Int64, units.None},
	"/proc/go/version":                     {types.String, units.None},
	"/proc/memory/total":                   {types.Uint64, units.Byte},
	"/proc/memory/max-resident-set-size":   {types.Int64, units.Byte},
	"/proc/memory/shared":                  {types.Int64, units.Byte},
	"/proc/memory/unshared-data":           {types.Int64, units.Byte},
	"/proc/memory/unshared-stack":          {types.Int64, units.Byte},
	"/proc/memory/soft-page-fault":         {types.Int64, units.None},
	"/proc/memory/hard-page-fault":         {types.Int64, units.None},
	"/proc/memory/swaps":                   {types.Int64, units.None},
	"/proc/io/input":                       {types.Int64, units.None},
	"/proc/io/output":                      {types.Int64, units.None},
	"/proc/io/num-open-file-descriptors":   {types.Int64, units.None},
	"/proc/ipc/sent":                       {types.Int64, units.None},
	"/proc/ipc/received":                   {types.Int64, units.None},
	"/proc/signals/received":               {types.Int64, units.None},
	"/proc/scheduler/involuntary-switches": {types.Int64, units.None},
	"/proc/scheduler/voluntary-switches":   {types.Int64, units.None},
	"/proc/name":                           {types.String, units.None},
	"/proc/args":                           {types.String, units.None},
	"/proc/start-time":                     {types.GoTime, units.None},
}

// c18read returns the built-in numbers as one request reports them: durations
// in nanoseconds.
func c18read(rep *childReport, iface, path string, cl *rpc.Client) map[string]int64 {
	res := map[string]int64{}
	switch iface {
	case "read", "rpc":
		ml := messages.MetricList(nil)
		if iface == "read" {
			ml = tr.ReadMyMetrics(path)
		} else {
			var err error
			if ml, err = rpcList(cl, path); err != nil {
				rep.fail("rpc", nil, "%v", err)
			}
		}
		for _, m := range ml {
			switch v := m.Value.(type) {
			case int64:
				res[m.Path] = v
			case uint64:
				res[m.Path] = int64(v)
			case time.Duration:
				res[m.Path] = int64(v)
			}
		}
	case "json":
		jl, err := jsonList(path)
		if err != nil {
			rep.fail("json", nil, "%v", err)
		}
		for _, j := range jl {
			s := string(j.Value)
			if j.Kind == "duration" {
				s = strings.ReplaceAll(strings.Trim(s, `"`), ".", "")
			}
			if n, err := strconv.ParseInt(s, 10, 64); err == nil && !strings.HasPrefix(s, `"`) {
				res[j.Path] = n
			}
		}
	case "text":
		for _, line := range strings.Split(textPage(path), "\n") {
			p, v, _ := strings.Cut(line, " ")
			if strings.HasPrefix(p, "/proc/cpu/") {
				v = strings.ReplaceAll(v, ".", "")
			}
			if n, err := strconv.ParseInt(v, 10, 64); err == nil {
				res[p] = n
			}
		}
	}
	return res
}

func c18Child() {
	mainStart := time.Now()
	rep := &childReport{}
	defer rep.emit()
	r := rand.New(rand.NewSource(childSeed()))
	cl := newRPC()
	list := map[string]func() messages.MetricList{
		"read": func() messages.MetricList { return tr.ReadMyMetrics("/proc") },
		"rpc": func() messages.MetricList {
			ml, err := rpcList(cl, "/proc")
			if err != nil {
				rep.fail("rpc", nil, "%v", err)
			}
			return ml
		},
	}
	// constants and metadata
	for _, iface := range []string{"read", "rpc"} {
		t0 := time.Now()
		ml := list[iface]()
		t1 := time.Now()
		gid, ts := -1, time.Time{}
		seen := map[string]bool{}
		for _, m := range ml {
			seen[m.Path] = true
			meta, ok := c18metas[m.Path]
			if !ok {
				continue
			}
			if m.Unit != meta.unit || m.Kind != meta.kind {
				rep.fail("meta", m, "%s has kind %q unit %q, want %q %q", m.Path, m.Kind, m.Unit, meta.kind, meta.unit)
			}
			mts, _ := m.TimeStamp.(time.Time)
			if mts.Before(t0.Round(0)) || mts.After(t1) {
				rep.fail("timestamp", m, "%s has timestamp %v, read between %v and %v", m.Path, m.TimeStamp, t0, t1)
			}
			_, isRu := ru()[m.Path]
			if isRu || m.Path == "/proc/go/num-goroutines" {
				if gid == -1 {
					gid, ts = m.GroupId, mts
				}
				if gid != m.GroupId || !ts.Equal(mts) {
					rep.fail("group", m, "%s is in group %d at %v, other resource usage in %d at %v", m.Path, m.GroupId, mts, gid, ts)
				}
			}
			switch m.Path {
			case "/proc/go/version":
				if m.Value != runtime.Version() {
					rep.fail("version", m, "Go version %v, want %v", m.Value, runtime.Version())
				}
			case "/proc/name":
				if m.Value != os.Args[0] {
					rep.fail("name", m, "name %v, want %v", m.Value, os.Args[0])
				}
			case "/proc/args":
				if m.Value != strings.Join(os.Args[1:], "|") {
					rep.fail("args", m, "args %q, want %q", m.Value, os.Args[1:])
				}
			case "/proc/start-time":
				n, _ := strconv.ParseInt(os.Getenv("VERIF_STARTED"), 10, 64)
				v := m.Value.(time.Time)
				if v.Before(time.Unix(0, n)) || v.After(mainStart) {
					rep.fail("start", m, "start time %v, the program started between %v and %v", v, time.Unix(0, n), mainStart)
				}
			}
			rep.ok(fmt.Sprint("meta", m.Path, iface, m.GroupId))
		}
		for p := range c18metas {
			if !seen[p] {
				rep.fail("missing", nil, "%s is not reported", p)
			}
		}
		rep.Sample = map[string]interface{}{"args": os.Args[1:], "metrics": len(ml)}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c18-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var hold [][]byte
	var files []*os.File
	stop := make(chan struct{})
	defer close(stop)
	sink := 0
	act := func() string {
		switch r.Intn(9) {
		case 0:
			for end := time.Now().Add(time.Duration(1+r.Intn(8)) * time.Millisecond); time.Now().Before(end); {
				for i := 0; i < 10000; i++ {
					sink += i
				}
			}
			return "compute"
		case 1:
			for i := 0; i < 3000; i++ {
				syscall.Stat("/", new(syscall.Stat_t))
			}
			return "system calls"
		case 2:
			b := make([]byte, 1<<uint(16+r.Intn(9)))
			for i := 0; i < len(b); i += 4096 {
				b[i] = 1
			}
			hold = append(hold, b)
			if len(hold) > 4 {
				hold = hold[1:]
			}
			return "memory"
		case 3:
			f, err := os.CreateTemp(dir, "w")
			if err == nil {
				f.Write(make([]byte, 1<<18))
				f.Sync()
				f.Close()
				if fd, err := syscall.Open(f.Name(), syscall.O_RDONLY|syscall.O_DIRECT, 0); err == nil {
					if b, err := syscall.Mmap(-1, 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE); err == nil {
						syscall.Read(fd, b)
						syscall.Munmap(b)
					}
					syscall.Close(fd)
				}
				// pages of a file that are no longer in memory
				if f, err := os.OpenFile(f.Name(), os.O_RDWR, 0); err == nil {
					if b, err := syscall.Mmap(int(f.Fd()), 0, 1<<18, syscall.PROT_READ, syscall.MAP_SHARED); err == nil {
						syscall.Madvise(b, 4)                                              // MADV_DONTNEED
						syscall.Syscall6(syscall.SYS_FADVISE64, f.Fd(), 0, 1<<18, 4, 0, 0) // POSIX_FADV_DONTNEED
						for i := 0; i < len(b); i += 1 << 16 {
							sink += int(b[i])
						}
						syscall.Munmap(b)
					}
					f.Close()
				}
				os.Remove(f.Name())
			}
			return "disk"
		case 4:
			for n := 1 + r.Intn(12); n > 0; n-- {
				if f, err := os.Open(filepath.Dir(dir)); err == nil {
					files = append(files, f)
				}
			}
			return "open files"
		case 5:
			for n := r.Intn(len(files) + 1); n > 0; n-- {
				files[0].Close()
				files = files[1:]
			}
			return "close files"
		case 6:
			for n := 1 + r.Intn(20); n > 0; n-- {
				go func() { <-stop }()
			}
			return "goroutines"
		case 7:
			hold = nil
			runtime.GC()
			debug.FreeOSMemory()
			return "free memory"
		default:
			time.Sleep(time.Millisecond)
			return "sleep"
		}
	}
	// warm up
	for i := 0; i < 3; i++ {
		fdCount()
		list["read"]()
	}
	moved := map[string]bool{}
	first := ru()
	if os.Getenv("VERIF_LONG") != "" {
		// more than a second of either kind of CPU time
		limit := int64(1.1e9)
		if os.Getenv("VERIF_LONG") == "minute" {
			limit = 62e9
			for k := 0; k < 7; k++ {
				go func() {
					x := 0
					for ru()["/proc/cpu/user"] < limit {
						for i := 0; i < 1000000; i++ {
							x += i
						}
					}
				}()
			}
		}
		for ru()["/proc/cpu/user"] < limit {
			for i := 0; i < 1000000; i++ {
				sink += i
			}
		}
		for k := 0; k < 2000 && ru()["/proc/cpu/sys"] < 1.1e9; k++ {
			b, err := syscall.Mmap(-1, 0, 8<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
			if err != nil {
				break
			}
			for i := 0; i < len(b); i += 4096 {
				b[i] = 1
			}
			syscall.Munmap(b)
		}
		rep.count("seconds_of_cpu_time", 1)
	}
	for step := 0; step < 25; step++ {
		what := act()
		rep.count("after_"+strings.ReplaceAll(what, " ", "_"), 1)
		iface := pick(r, []string{"read", "rpc", "json", "text"})
		// what only grows
		path := "/proc"
		switch r.Intn(4) {
		case 0:
			path = pick(r, []string{"/proc/cpu", "/proc/memory", "/proc/io", "/proc/scheduler", "/proc/ipc", "/proc/signals"})
		case 1:
			path = pick(r, c18paths)
			if iface == "text" {
				iface = "json"
			}
		}
		a := ru()
		got := c18read(rep, iface, path, cl)
		b := ru()
		for p := range a {
			if p != path && !strings.HasPrefix(p, path+"/") {
				continue
			}
			v, ok := got[p]
			if !ok {
				rep.fail("unread", got, "%s not found over %s", p, iface)
			}
			lo, hi := a[p], b[p]
			if p == "/proc/memory/max-resident-set-size" {
				// the kernel's figure is not exact
				if hi < lo {
					lo, hi = hi, lo
				}
				lo, hi = lo-lo/4, hi+hi/4
			}
			if v < lo || v > hi {
				rep.fail("bracket", map[string]interface{}{"before": a, "after": b, "reported": got}, "%s is %d over %s after %s, the system says between %d and %d", p, v, iface, what, lo, hi)
			}
			if b[p] != first[p] {
				moved[p] = true
			}
			rep.ok(fmt.Sprint(p, v))
		}
		// what goes up and down: looked at while it stands still
		for _, q := range []struct {
			path string
			own  func() int64
			max  int64 // the reading itself may count
		}{
			{"/proc/go/num-goroutines", func() int64 { return int64(runtime.NumGoroutine()) }, 0},
			{"/proc/io/num-open-file-descriptors", fdCount, 1},
			{"/proc/memory/total", memTotal, 0},
		} {
			bad, good := "", false
			tries := 0
			for k := 0; k < 400 && tries < 25 && !good; k++ {
				lo := q.own()
				v, ok := c18read(rep, "read", q.path, cl)[q.path]
				hi := q.own()
				if !ok {
					rep.fail("unread", nil, "%s not found", q.path)
				}
				if lo != hi {
					continue
				}
				tries++
				if v >= lo && v <= hi+q.max {
					good = true
				} else {
					bad = fmt.Sprintf("%s is %d after %s, while it is %d", q.path, v, what, lo)
				}
			}
			if !good && tries >= 25 {
				rep.fail("figure", nil, "%s (%d times in a row)", bad, tries)
			}
			if good {
				rep.ok(fmt.Sprint(q.path, q.own()))
			} else {
				rep.count("never_still", 1)
			}
		}
	}
	for p := range moved {
		rep.count("moved_"+p, 1)
	}
	_ = sink
	for _, f := range files {
		f.Close()
	}
}
