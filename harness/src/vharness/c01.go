package main

import (
	"fmt"
	"sort"
	"strings"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C01"] = c01 }

// tnode is a node of the plain tree of names that is the reference.
type tnode struct {
	name   string
	parent *tnode
	kids   map[string]*tnode // nil for a metric
	// metrics
	opaque bool
	val    interface{} // expected value, nil: do not compare
	dist   *tdist
	unit   units.Unit
	desc   string
}

type tdist struct {
	spec interface{}
	add  func(float64)
	unit *units.Unit
	n    uint64
}

func newTdir(name string, parent *tnode) *tnode {
	return &tnode{name: name, parent: parent, kids: map[string]*tnode{}}
}

func (n *tnode) path() string {
	if n.parent == nil {
		return ""
	}
	return n.parent.path() + "/" + n.name
}

func (n *tnode) abs() string {
	if n.parent == nil {
		return "/"
	}
	return n.path()
}

// walk lists the metrics at or under n in the documented order.
func (n *tnode) walk(f func(*tnode)) {
	if n.kids == nil {
		f(n)
		return
	}
	names := make([]string, 0, len(n.kids))
	for k := range n.kids {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		n.kids[k].walk(f)
	}
}

// find resolves a path; through tells that a metric was in the way.
func (n *tnode) find(segs []string) (res *tnode, through bool) {
	for _, s := range segs {
		if n.kids == nil {
			return nil, true
		}
		if n = n.kids[s]; n == nil {
			return nil, false
		}
	}
	return n, false
}

func (n *tnode) mkdir(segs []string) *tnode {
	for _, s := range segs {
		if n.kids == nil {
			return nil
		}
		k := n.kids[s]
		if k == nil {
			k = newTdir(s, n)
			n.kids[s] = k
		}
		n = k
	}
	if n.kids == nil {
		return nil
	}
	return n
}

// canMkdir tells whether mkdir would succeed.
func (n *tnode) canMkdir(segs []string) bool {
	for _, s := range segs {
		if n.kids == nil {
			return false
		}
		if n = n.kids[s]; n == nil {
			return true
		}
	}
	return n.kids != nil
}

type c01state struct {
	c       *Ctx
	r       randT
	root    *tnode
	handles []*tr.DirectorySpec
	hnodes  []*tnode
	names   []string
	dists   []*tdist
	nextVal int64
	log     []string
	groups  []*tr.Group
	touched map[string]bool
	wide    bool // few levels, many names
}

func (s *c01state) logf(f string, a ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(f, a...))
}

func (s *c01state) fail(sig, f string, a ...interface{}) {
	l := s.log
	if len(l) > 400 {
		l = l[len(l)-400:]
	}
	s.c.Violate(sig, map[string]interface{}{"history": l}, f, a...)
}

func (s *c01state) segs() []string {
	n := s.r.Intn(5)
	if s.wide {
		n = 1 + s.r.Intn(2)
	} else if s.r.Intn(12) == 0 {
		n = 5 + s.r.Intn(6)
	}
	res := make([]string, n)
	for i := range res {
		res[i] = s.names[s.r.Intn(len(s.names))]
	}
	return res
}

// spell writes a path in one of its equivalent ways.
func spell(r randT, segs []string) string {
	var b strings.Builder
	blank := func() {
		for r.Intn(6) == 0 {
			b.WriteString(pick(r, []string{"/", " /", "/  /", "\t/", "/ "}))
			b.WriteString("/")
		}
	}
	if r.Intn(2) == 0 {
		b.WriteString("/")
	}
	blank()
	for i, s := range segs {
		if i > 0 {
			b.WriteString("/")
		}
		blank()
		b.WriteString(s)
	}
	if r.Intn(4) == 0 {
		b.WriteString("/")
		if r.Intn(2) == 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

func (s *c01state) pickDir() (h *tr.DirectorySpec, n *tnode) {
	if len(s.handles) == 0 || s.r.Intn(3) == 0 {
		return nil, s.root
	}
	// mostly recent ones, sometimes any
	i := s.r.Intn(len(s.handles))
	if s.r.Intn(2) == 0 && len(s.handles) > 6 {
		i = len(s.handles) - 1 - s.r.Intn(6)
	}
	return s.handles[i], s.hnodes[i]
}

func (s *c01state) at(n *tnode) string {
	if n == s.root {
		return "root"
	}
	live := n
	for live.parent != nil && live.parent.kids[live.name] == live {
		live = live.parent
	}
	if live != s.root {
		return n.abs() + " (unregistered)"
	}
	return n.abs()
}

func (s *c01state) registerMetric() {
	h, n := s.pickDir()
	segs := s.segs()
	path := spell(s.r, segs)
	unit := pick(s.r, allUnits)
	desc := ""
	if s.r.Intn(4) > 0 {
		desc = fmt.Sprintf("%sd%d%s", pick(s.r, []string{"", "", " ", "\t"}), s.r.Intn(1000), pick(s.r, []string{"", "", " ", "\n"}))
	}
	var spec interface{}
	m := &tnode{unit: unit, desc: desc}
	var errs []error
	what := "value"
	s.nextVal++
	switch s.r.Intn(10) {
	case 0: // bad types
		spec = pick(s.r, []interface{}{5, "str", nil, struct{}{}, &struct{ a int }{}, []int{1}, make(chan int), (*int)(nil),
			func(int) int { return 0 }, func() []int { return nil }, new(complex128), map[string]int{}, new([]int), (*tr.List)(nil),
			(*tr.CumulativeDistribution)(nil), (func() int)(nil)})
		errs = append(errs, tr.ErrWrongType)
		what = fmt.Sprintf("bad %T", spec)
	case 1, 2: // distributions, shared among registrations
		var d *tdist
		if len(s.dists) > 0 && s.r.Intn(3) > 0 {
			d = pick(s.r, s.dists)
		} else {
			d = &tdist{}
			if s.r.Intn(2) == 0 {
				x := tr.PowersOfTwo.NewCumulativeDistribution()
				d.spec, d.add = x, func(f float64) { x.Add(f) }
			} else {
				x := tr.PowersOfTen.NewNonCumulativeDistribution()
				d.spec, d.add = x, func(f float64) { x.Add(f) }
			}
			s.dists = append(s.dists, d)
		}
		if d.unit != nil && s.r.Intn(2) == 0 {
			unit = *d.unit
			m.unit = unit
		}
		if d.unit != nil && *d.unit != unit {
			errs = append(errs, tr.ErrWrongUnit)
		}
		spec, m.dist = d.spec, d
		what = fmt.Sprintf("distribution %p", d.spec)
	case 3:
		l := tr.NewList([]int64{s.nextVal}, tr.ImmutableSlice)
		spec, m.val = l, []int64{s.nextVal}
		what = "list"
	case 4:
		v := s.nextVal
		spec, m.val = func() int64 { return v }, v
		what = "callback"
	default:
		v := s.nextVal
		spec, m.val = &v, v
	}
	if len(segs) == 0 || !n.canMkdir(segs[:len(segs)-1]) {
		errs = append(errs, tr.ErrPathInUse)
	} else if k, _ := n.find(segs); k != nil {
		errs = append(errs, tr.ErrPathInUse)
	}
	var err error
	g := pick(s.r, s.groups)
	var how string
	switch {
	case h == nil:
		switch s.r.Intn(3) {
		case 0:
			how = "RegisterMetric"
			err = tr.RegisterMetric(path, spec, unit, desc)
		case 1:
			how = "RegisterMetricInGroup"
			err = tr.RegisterMetricInGroup(path, spec, g, unit, desc)
		default:
			how = "Group.RegisterMetric"
			err = g.RegisterMetric(path, spec, unit, desc)
		}
	default:
		switch s.r.Intn(3) {
		case 0:
			how = "DirectorySpec.RegisterMetric"
			err = h.RegisterMetric(path, spec, unit, desc)
		case 1:
			how = "DirectorySpec.RegisterMetricInGroup"
			err = h.RegisterMetricInGroup(path, spec, g, unit, desc)
		default:
			how = "DirectoryGroup.RegisterMetric"
			err = tr.DirectoryGroup{Group: g, Directory: h}.RegisterMetric(path, spec, unit, desc)
		}
	}
	s.logf("%s at %s (%q, %s, %q) = %v", how, s.at(n), path, what, string(unit), err)
	s.touch(n, segs)
	if len(errs) == 0 {
		if err != nil {
			s.fail("register-refused", "%s(%q) at %s failed with %v but the path was free", how, path, s.at(n), err)
		}
		d := n.mkdir(segs[:len(segs)-1])
		m.name, m.parent = segs[len(segs)-1], d
		d.kids[m.name] = m
		if m.dist != nil && m.dist.unit == nil {
			u := unit
			m.dist.unit = &u
		}
		s.c.Count("registered", 1)
		return
	}
	ok := false
	for _, e := range errs {
		ok = ok || e == err
	}
	if !ok {
		s.fail("register-error", "%s(%q) of %s at %s returned %v, want one of %v", how, path, what, s.at(n), err, errs)
	}
	s.c.Count("refused", 1)
}

func (s *c01state) touch(n *tnode, segs []string) {
	p := n.path()
	for _, x := range segs {
		p += "/" + x
		s.touched[p] = true
	}
}

func (s *c01state) registerDirectory() {
	h, n := s.pickDir()
	segs := s.segs()
	path := spell(s.r, segs)
	var d *tr.DirectorySpec
	var err error
	if h == nil {
		d, err = tr.RegisterDirectory(path)
	} else {
		d, err = h.RegisterDirectory(path)
	}
	s.logf("RegisterDirectory at %s (%q) = %v", s.at(n), path, err)
	s.touch(n, segs)
	if !n.canMkdir(segs) {
		if err != tr.ErrPathInUse {
			s.fail("mkdir-error", "RegisterDirectory(%q) at %s through a metric returned %v", path, s.at(n), err)
		}
		return
	}
	if err != nil || d == nil {
		s.fail("mkdir-refused", "RegisterDirectory(%q) at %s returned %v, %v", path, s.at(n), d, err)
		return
	}
	k := n.mkdir(segs)
	if d.AbsPath() != k.abs() {
		s.fail("abspath", "RegisterDirectory(%q) at %s has AbsPath %q, want %q", path, s.at(n), d.AbsPath(), k.abs())
	}
	s.handles = append(s.handles, d)
	s.hnodes = append(s.hnodes, k)
}

func (s *c01state) getDirectory(segs []string) {
	path := spell(s.r, segs)
	d, err := tr.GetDirectory(path)
	k, through := s.root.find(segs)
	switch {
	case k != nil && k.kids != nil:
		if err != nil || d == nil {
			s.fail("getdir", "GetDirectory(%q) = %v, %v for an existing directory", path, d, err)
			return
		}
		if d.AbsPath() != k.abs() {
			s.fail("abspath", "GetDirectory(%q) has AbsPath %q, want %q", path, d.AbsPath(), k.abs())
		}
		if s.r.Intn(4) == 0 {
			s.handles = append(s.handles, d)
			s.hnodes = append(s.hnodes, k)
		}
	case k != nil:
		if err != tr.ErrPathInUse || d != nil {
			s.fail("getdir", "GetDirectory(%q) = %v, %v for a metric", path, d, err)
		}
	case through:
		if (err != tr.ErrPathInUse && err != tr.ErrNotFound) || d != nil {
			s.fail("getdir", "GetDirectory(%q) = %v, %v through a metric", path, d, err)
		}
	default:
		if err != tr.ErrNotFound || d != nil {
			s.fail("getdir", "GetDirectory(%q) = %v, %v for a missing path", path, d, err)
		}
	}
	s.c.Case("")
}

func (s *c01state) unregisterPath() {
	h, n := s.pickDir()
	segs := s.segs()
	if s.r.Intn(3) > 0 {
		// something that is there
		var all [][]string
		var rec func(x *tnode, p []string)
		rec = func(x *tnode, p []string) {
			for name, k := range x.kids {
				if x == s.root && (name == "proc" || k.opaque) {
					continue
				}
				q := append(append([]string(nil), p...), name)
				all = append(all, q)
				rec(k, q)
			}
		}
		rec(n, nil)
		if len(all) > 0 {
			sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
			segs = pick(s.r, all)
		}
	}
	path := spell(s.r, segs)
	if h == nil {
		tr.UnregisterPath(path)
	} else {
		h.UnregisterPath(path)
	}
	s.logf("UnregisterPath at %s (%q)", s.at(n), path)
	if k, _ := n.find(segs); k != nil && len(segs) > 0 {
		delete(k.parent.kids, k.name)
		s.c.Count("unregistered", 1)
	}
}

func (s *c01state) unregisterDirectory() {
	h, n := s.pickDir()
	if h == nil {
		d, err := tr.GetDirectory(pick(s.r, []string{"", "/", "//", " "}))
		if err != nil {
			s.fail("getdir", "GetDirectory of the root: %v", err)
			return
		}
		d.UnregisterDirectory()
		s.logf("UnregisterDirectory of the root")
		return
	}
	s.logf("UnregisterDirectory of %s", s.at(n))
	h.UnregisterDirectory()
	if n.parent != nil && n.parent.kids[n.name] == n {
		delete(n.parent.kids, n.name)
		s.c.Count("directories_unregistered", 1)
	}
}

func (s *c01state) expect(segs []string) []*tnode {
	var want []*tnode
	if k, _ := s.root.find(segs); k != nil {
		k.walk(func(m *tnode) { want = append(want, m) })
	}
	return want
}

func (s *c01state) compare(how string, segs []string, ml messages.MetricList, json bool) {
	want := s.expect(segs)
	for i := 0; i < len(ml) || i < len(want); i++ {
		if i >= len(want) {
			s.fail("extra", "%s of %q reports %d metrics, %q beyond the expected %d", how, segs, len(ml), ml[i].Path, len(want))
			return
		}
		if i >= len(ml) {
			s.fail("missing", "%s of %q reports %d metrics and not %q", how, segs, len(ml), want[i].path())
			return
		}
		m, w := ml[i], want[i]
		if m.Path != w.path() {
			s.fail("order", "%s of %q reports %q where %q is expected", how, segs, m.Path, w.path())
		}
		if w.opaque {
			continue
		}
		if m.Unit != w.unit || m.Description != w.desc {
			s.fail("metadata", "%s: %q has unit %q description %q, registered with %q %q", how, m.Path, string(m.Unit), m.Description, string(w.unit), w.desc)
		}
		if json {
			continue
		}
		if w.dist != nil {
			d, ok := m.Value.(*messages.Distribution)
			if !ok || m.Kind != types.Dist || d.Count != w.dist.n {
				s.fail("value", "%s: %q reports %v, want a distribution of %d values", how, m.Path, m.Value, w.dist.n)
			}
			continue
		}
		if !sameValue(m.Value, w.val) {
			s.fail("value", "%s: %q reports %v, registered with %v", how, m.Path, m.Value, w.val)
		}
	}
	s.c.Case(fmt.Sprint(how, segs, len(want), s.shape()))
}

// shape identifies the state of the tree.
func (s *c01state) shape() uint64 {
	var b strings.Builder
	var rec func(n *tnode)
	rec = func(n *tnode) {
		b.WriteString(n.name)
		if n.kids == nil {
			b.WriteString("=")
			return
		}
		b.WriteString("{")
		ks := make([]string, 0)
		for k := range n.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if n == s.root && k == "proc" {
				continue
			}
			rec(n.kids[k])
		}
		b.WriteString("}")
	}
	rec(s.root)
	return hash(b.String())
}

func c01(c *Ctx) {
	c.rule = "a case is one read of one path compared metric by metric with the reference tree after a random history of calls; distinct by interface, path and shape of the tree"
	defer c.keep()()
	root := newTdir("", nil)
	for _, m := range tr.ReadMyMetrics("/") {
		segs := strings.Split(m.Path[1:], "/")
		d := root.mkdir(segs[:len(segs)-1])
		n := &tnode{name: segs[len(segs)-1], parent: d, opaque: true}
		d.kids[n.name] = n
	}
	if len(root.kids) == 0 {
		c.Violate("nothing", nil, "no metrics at the root")
	}
	// the initial order must already be right
	s := &c01state{c: c, root: root}
	s.compare("initial", nil, tr.ReadMyMetrics("/"), false)
	for i := 0; i < c.N(2400, 40000); i++ {
		c01History(c, root, i)
	}
	for i := 0; i < c.N(80, 400); i++ {
		c01Big(c, root, i)
	}
}

func c01History(c *Ctx, root *tnode, i int) {
	r := c.Sub("history", i)
	s := &c01state{c: c, r: r, root: root, touched: map[string]bool{}}
	for j := 0; j < 3; j++ {
		s.groups = append(s.groups, tr.NewGroup())
	}
	s.groups = append(s.groups, tr.DefaultGroup)
	nn := 2 + r.Intn(5)
	if s.wide = i%8 == 5; s.wide {
		nn = 10 + r.Intn(15)
	}
	for len(s.names) < nn {
		n := pick(r, genNames)
		if i%3 == 0 && r.Intn(2) == 0 {
			n = pick(r, []string{".", "..", "proc", "proc2", "pro", "\u00a0x", "a\u2003", "%2F"})
		}
		if r.Intn(40) == 0 {
			n = strings.Repeat(pick(r, []string{"n", "name", "é"}), 64<<uint(r.Intn(6))) + pick(r, []string{"", "a", "b"})
		}
		s.names = append(s.names, n)
	}
	if i%3 > 0 {
		for j := range s.names {
			if s.names[j] == "proc" {
				s.names[j] = "procx"
			}
		}
	}
	defer func() {
		// leave an empty tree for the next history
		for k, n := range root.kids {
			if k == "proc" {
				// only what the built-in metrics put there stays
				c01prune(n)
				if len(n.kids) > 0 {
					continue
				}
			}
			tr.UnregisterPath("/" + k)
			delete(root.kids, k)
		}
	}()
	cl := newRPC()
	defer cl.Close()
	steps := 60 + r.Intn(120)
	for step := 0; step < steps; step++ {
		func() {
			defer c.Guard("panic", map[string]interface{}{"history": s.log})
			switch x := r.Intn(20); {
			case x < 9:
				s.registerMetric()
			case x < 12:
				s.registerDirectory()
			case x < 14:
				s.getDirectory(s.segs())
			case x < 17:
				s.unregisterPath()
			case x < 18:
				s.unregisterDirectory()
			default:
				if len(s.dists) > 0 {
					d := pick(r, s.dists)
					if d.unit != nil {
						d.add(1)
						d.n++
					}
				}
			}
		}()
		switch r.Intn(6) {
		case 0:
			s.compare("ReadMyMetrics", nil, tr.ReadMyMetrics("/"), false)
		case 1, 2:
			segs := s.segs()
			s.compare("ReadMyMetrics", segs, tr.ReadMyMetrics(spell(r, segs)), false)
		case 3:
			segs := s.segs()
			ml, err := rpcList(cl, spell(r, segs))
			if err != nil {
				s.fail("rpc", "ListMetrics: %v", err)
			}
			s.compare("ListMetrics", segs, ml, false)
		case 4:
			segs := s.segs()
			for _, x := range segs {
				if !urlSafe(x) {
					segs = nil
					break
				}
			}
			jl, err := jsonList("/" + strings.Join(segs, "/"))
			if err != nil {
				s.fail("json", "JSON listing of %q: %v", segs, err)
			}
			var ml messages.MetricList
			for _, j := range jl {
				ml = append(ml, &messages.Metric{Path: j.Path, Unit: units.Unit(j.Unit), Description: j.Description})
			}
			s.compare("JSON", segs, ml, true)
		case 5:
			segs := s.segs()
			k, _ := root.find(segs)
			m, err := rpcGet(cl, spell(r, segs))
			switch {
			case k != nil && k.kids == nil && len(segs) > 0:
				if err != nil {
					s.fail("get", "GetMetric(%q): %v for a registered metric", segs, err)
				} else if m.Path != k.path() {
					s.fail("get", "GetMetric(%q) has path %q", segs, m.Path)
				}
			case err == nil:
				s.fail("get", "GetMetric(%q) found %q but there is no such metric", segs, m.Path)
			}
			c.Case("")
		}
	}
	s.compare("final", nil, tr.ReadMyMetrics("/"), false)
	// what exists as a directory, and only that
	var ps []string
	for p := range s.touched {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		s.getDirectory(strings.Split(p[1:], "/"))
	}
	// handles still denote the paths they were created with
	for j, h := range s.handles {
		if h.AbsPath() != s.hnodes[j].abs() {
			s.fail("abspath", "handle of %q has AbsPath %q", s.hnodes[j].abs(), h.AbsPath())
		}
	}
	if c.WantSample() {
		l := s.log
		if len(l) > 12 {
			l = l[:12]
		}
		c.Sample(map[string]interface{}{"steps": steps, "first_calls": l})
	}
	c.Count("histories", 1)
	c.Count("calls", int64(len(s.log)))
}

func c01prune(n *tnode) {
	for name, k := range n.kids {
		switch {
		case k.opaque:
		case k.kids != nil:
			c01prune(k)
			if len(k.kids) == 0 {
				tr.UnregisterPath(k.path())
				delete(n.kids, name)
			}
		default:
			tr.UnregisterPath(k.path())
			delete(n.kids, name)
		}
	}
}

// c01Big reads wide and deep trees.
func c01Big(c *Ctx, root *tnode, i int) {
	r := c.Sub("big", i)
	s := &c01state{c: c, r: r, root: root}
	defer func() {
		tr.UnregisterPath("/big")
		delete(root.kids, "big")
	}()
	add := func(segs []string) {
		if !root.canMkdir(segs[:len(segs)-1]) {
			return
		}
		if k, _ := root.find(segs); k != nil {
			return
		}
		s.nextVal++
		v := s.nextVal
		if err := tr.RegisterMetric(strings.Join(segs, "/"), &v, units.None, ""); err != nil {
			s.fail("register-refused", "%q: %v", segs, err)
		}
		d := root.mkdir(segs[:len(segs)-1])
		d.kids[segs[len(segs)-1]] = &tnode{name: segs[len(segs)-1], parent: d, val: v, unit: units.None}
	}
	if i%5 == 4 {
		// many metrics and directories in one directory
		n := 1000 + r.Intn(3000)
		for j := 0; j < n; j++ {
			segs := []string{"big", fmt.Sprint("e", j)}
			if r.Intn(8) == 0 {
				segs = append(segs, "m")
			}
			add(segs)
		}
		cl := newRPC()
		ml, err := rpcList(cl, "big")
		cl.Close()
		if err != nil {
			s.fail("rpc", "ListMetrics: %v", err)
		}
		s.compare("big ListMetrics", []string{"big"}, ml, false)
		jl, err := jsonList("/big")
		if err != nil {
			s.fail("json", "JSON listing: %v", err)
		}
		ml = nil
		for _, j := range jl {
			ml = append(ml, &messages.Metric{Path: j.Path, Unit: units.Unit(j.Unit), Description: j.Description})
		}
		s.compare("big JSON", []string{"big"}, ml, true)
	} else if i%2 == 0 {
		for j := 0; j < 600; j++ {
			segs := []string{"big"}
			for d := r.Intn(4); d >= 0; d-- {
				segs = append(segs, fmt.Sprint(pick(r, genNames), r.Intn(30)))
			}
			add(segs)
		}
	} else {
		segs := []string{"big"}
		for j := 0; j < 200; j++ {
			segs = append(segs, fmt.Sprint("n", r.Intn(3)))
			add(append(append([]string(nil), segs...), fmt.Sprint("m", j)))
			if r.Intn(5) == 0 {
				add(append(append([]string(nil), segs...), fmt.Sprint("a", j)))
			}
		}
	}
	s.compare("big", nil, tr.ReadMyMetrics(""), false)
	s.compare("big", []string{"big"}, tr.ReadMyMetrics("big"), false)
	// As many come as go between listings.
	rounds := 12
	if i%5 == 4 {
		rounds = 2
	}
	for ; rounds > 0; rounds-- {
		var all []*tnode
		root.kids["big"].walk(func(n *tnode) { all = append(all, n) })
		var gone [][]string
		for k := 1 + r.Intn(4); k > 0 && len(all) > 0; k-- {
			n := pick(r, all)
			if n.parent.kids[n.name] != n {
				continue
			}
			tr.UnregisterPath(n.path())
			delete(n.parent.kids, n.name)
			gone = append(gone, strings.Split(n.path()[1:], "/"))
		}
		for _, segs := range gone {
			segs = append([]string(nil), segs...)
			if r.Intn(3) > 0 {
				segs[len(segs)-1] += pick(r, []string{"x", "-", "0"})
			}
			add(segs)
		}
		s.compare("big churn", []string{"big"}, tr.ReadMyMetrics("big"), false)
	}
}
