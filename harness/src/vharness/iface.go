package main

import (
	"fmt"
	"net/rpc"
	"regexp"
	"strconv"
	"strings"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
)

// Ways to ask for metrics. Each returns the integers reported by path, and
// timestamps where the interface has them.
var listIfaces = []string{"rpc", "json", "text", "html", "read", "jsongz"}
var getIfaces = []string{"rpcget", "jsonget", "textget", "htmlget", "readget"}

type reading struct {
	path string
	val  int64
	ts   time.Time // zero if the interface does not report it
	gid  int
}

var htmlIntRE = regexp.MustCompile(`(?m)^\s*(/\S*) (-?[0-9,]+) <span class="parens">`)

// readInts issues one request and returns the integer metrics it reports.
// Paths must have no white space; units must be None.
func readInts(iface, path string, cl *rpc.Client) (res []reading, err error) {
	return readWhole(iface, path, cl, false)
}

// anyWhole gives the whole number that a reported value of another type stands
// for (seconds of a duration, the number in a string).
func anyWhole(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int8:
		return int64(x), true
	case int16:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	case uint8:
		return int64(x), true
	case uint16:
		return int64(x), true
	case uint32:
		return int64(x), true
	case uint64:
		return int64(x), true
	case float32:
		return int64(x), true
	case float64:
		return int64(x), true
	case time.Duration:
		return int64(x / time.Second), true
	case string:
		return textWhole(x)
	}
	return 0, false
}

// textWhole is anyWhole of a value shown as text.
func textWhole(s string) (int64, bool) {
	s = strings.NewReplacer(",", "", `"`, "", "&#34;", "").Replace(s)
	if s == "0ns" {
		return 0, true
	}
	f, err := strconv.ParseFloat(strings.TrimSuffix(s, "s"), 64)
	if err != nil || f != float64(int64(f)) {
		return 0, false
	}
	return int64(f), true
}

var htmlAnyRE = regexp.MustCompile(`(?m)^\s*(/\S*) (\S+) <span class="parens">`)

// readWhole is readInts, that with any set takes values of other types along.
func readWhole(iface, path string, cl *rpc.Client, any bool) (res []reading, err error) {
	ints := func(ml messages.MetricList) error {
		for _, m := range ml {
			v, ok := m.Value.(int64)
			if any {
				v, ok = anyWhole(m.Value)
			}
			if !ok {
				continue
			}
			ts, ok := m.TimeStamp.(time.Time)
			if !ok {
				return fmt.Errorf("timestamp of %q is %T", m.Path, m.TimeStamp)
			}
			res = append(res, reading{m.Path, v, ts, m.GroupId})
		}
		return nil
	}
	one := func(j *jsonMetric) error {
		var v int64
		if any {
			var ok bool
			if v, ok = textWhole(string(j.Value)); !ok {
				return nil
			}
		} else {
			if j.Kind != "int64" {
				return nil
			}
			var err error
			v, err = strconv.ParseInt(string(j.Value), 10, 64)
			if err != nil {
				return err
			}
		}
		ts, err := parseStamp(j.TimeStamp)
		if err != nil {
			return err
		}
		res = append(res, reading{j.Path, v, ts, j.GroupId})
		return nil
	}
	switch iface {
	case "rpc":
		ml, err := rpcList(cl, path)
		if err != nil {
			return nil, err
		}
		return res, ints(ml)
	case "read", "readget":
		err := ints(tr.ReadMyMetrics(path))
		return res, err
	case "rpcget":
		m, err := rpcGet(cl, path)
		if err != nil {
			return nil, err
		}
		err = ints(messages.MetricList{m})
		return res, err
	case "json", "jsongz":
		var hdr []string
		if iface == "jsongz" {
			hdr = []string{"Accept-Encoding", "gzip"}
		}
		jl, err := jsonList(path, hdr...)
		if err != nil {
			return nil, err
		}
		for _, j := range jl {
			if err := one(j); err != nil {
				return nil, err
			}
		}
		return res, nil
	case "jsonget":
		j, code, err := jsonGet(path)
		if err != nil || j == nil {
			return nil, fmt.Errorf("status %d %v", code, err)
		}
		err = one(j)
		return res, err
	case "text":
		t := textPage(path)
		for _, line := range strings.Split(strings.TrimSuffix(t, "\n"), "\n") {
			i := strings.IndexByte(line, ' ')
			if i < 0 {
				return nil, fmt.Errorf("bad line %q", line)
			}
			if any {
				if v, ok := textWhole(line[i+1:]); ok {
					res = append(res, reading{path: line[:i], val: v})
				}
			} else if v, err := strconv.ParseInt(line[i+1:], 10, 64); err == nil {
				res = append(res, reading{path: line[:i], val: v})
			}
		}
		return res, nil
	case "textget":
		t := textPage(path)
		if any {
			v, ok := textWhole(strings.TrimSuffix(t, "\n"))
			if !ok {
				return nil, fmt.Errorf("bad value %q", t)
			}
			return []reading{{path: path, val: v}}, nil
		}
		v, err := strconv.ParseInt(strings.TrimSuffix(t, "\n"), 10, 64)
		if err != nil {
			return nil, err
		}
		return []reading{{path: path, val: v}}, nil
	case "html", "htmlget":
		w := get(urlFor("/metrics", path))
		if w.Code != 200 {
			return nil, fmt.Errorf("status %d", w.Code)
		}
		if any {
			for _, m := range htmlAnyRE.FindAllStringSubmatch(w.Body.String(), -1) {
				v, ok := textWhole(m[2])
				if !ok {
					return nil, fmt.Errorf("bad value %q", m[2])
				}
				res = append(res, reading{path: m[1], val: v})
			}
			return res, nil
		}
		for _, m := range htmlIntRE.FindAllStringSubmatch(w.Body.String(), -1) {
			v, err := strconv.ParseInt(strings.ReplaceAll(m[2], ",", ""), 10, 64)
			if err != nil {
				return nil, err
			}
			res = append(res, reading{path: m[1], val: v})
		}
		return res, nil
	}
	return nil, fmt.Errorf("no such interface %q", iface)
}

func parseStamp(s string) (time.Time, error) {
	i := strings.IndexByte(s, '.')
	if i < 0 || len(s)-i != 10 {
		return time.Time{}, fmt.Errorf("bad timestamp %q", s)
	}
	sec, err := strconv.ParseInt(s[:i], 10, 64)
	if err != nil {
		return time.Time{}, err
	}
	ns, err := strconv.ParseInt(s[i+1:], 10, 64)
	if err != nil {
		return time.Time{}, err
	}
	if strings.HasPrefix(s, "-") {
		ns = -ns
	}
	return time.Unix(sec, ns), nil
}

func isGet(iface string) bool { return strings.HasSuffix(iface, "get") }
