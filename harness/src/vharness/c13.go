package main

import (
	"fmt"
	"html"
	"math"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C13"] = c13 }

func c13(c *Ctx) {
	c.rule = "a case is one metric or link found on a text or HTML page and compared with the program's value, with every tag on the page accounted for; distinct by page kind, metadata and value"
	defer c.keep()()
	time.Local = time.FixedZone("Elsewhere", -7*3600)
	defer c.otherClients("text", "html", "textget", "htmlget")()
	rounds := c.N(12000, 200000)
	if c.Race() {
		rounds /= 30
	}
	for i := 0; i < rounds; i++ {
		c13Round(c, i)
	}
	c13Missing(c)
}

// hnode is a token of an HTML page: a tag or the text between two tags.
type hnode struct {
	tag  string // "" for text; with attributes, as written
	text string // unescaped
}

// tokenize splits a page into tags and text. Any '<' begins a tag, as in a
// browser's view of text content.
func tokenize(page string) (res []hnode, err error) {
	for len(page) > 0 {
		i := strings.IndexByte(page, '<')
		if i < 0 {
			i = len(page)
		}
		if i > 0 {
			res = append(res, hnode{text: html.UnescapeString(page[:i])})
			page = page[i:]
			continue
		}
		j := strings.IndexByte(page, '>')
		if j < 0 {
			return nil, fmt.Errorf("tag without end: %s", short(page))
		}
		res = append(res, hnode{tag: page[1:j]})
		page = page[j+1:]
	}
	return
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

var hrefRE = regexp.MustCompile(`^a href="([^"<>]*)"$`)

// hpage is what an HTML page shows, in order.
type hitem struct {
	link  string // target, if a directory
	text  string // text before the parenthesis, or of the link
	paren string
	list  []string
	rows  [][2]string // ranges of a distribution
	sum   string      // summary of a distribution
	kind  string      // "link", "value", "list", "dist"
}

// parsePage reads a page. Every tag must be one of those the page consists of.
func parsePage(page string) (items []*hitem, err error) {
	toks, err := tokenize(page)
	if err != nil {
		return nil, err
	}
	pos := 0
	next := func() hnode {
		if pos < len(toks) {
			pos++
			return toks[pos-1]
		}
		return hnode{tag: "EOF"}
	}
	// text up to the next tag, which is returned
	textTag := func() (string, string) {
		s := ""
		for {
			t := next()
			if t.tag != "" {
				return s, t.tag
			}
			s += t.text
		}
	}
	want := func(tags ...string) error {
		for _, w := range tags {
			s, t := textTag()
			if t != w || strings.TrimSpace(s) != "" {
				return fmt.Errorf("found %q <%s>, want <%s>", s, t, w)
			}
		}
		return nil
	}
	if err := want("html", "head", `link rel="stylesheet" type="text/css" href="/metricsstatic/theme.css"`, "/head", "body"); err != nil {
		return nil, err
	}
	// peek tells the tag after white space
	peek := func() string {
		for k := pos; k < len(toks); k++ {
			if toks[k].tag != "" {
				return toks[k].tag
			}
			if strings.TrimSpace(toks[k].text) != "" {
				return ""
			}
		}
		return "EOF"
	}
	for {
		if peek() == "br" {
			next()
			for pos > 0 && toks[pos-1].tag != "br" {
				next()
			}
			continue
		}
		s, t := textTag()
		switch {
		case t == "/body":
			if strings.TrimSpace(s) != "" {
				return nil, fmt.Errorf("stray text %q", s)
			}
			if err := want("/html"); err != nil {
				return nil, err
			}
			s, t := textTag()
			if t != "EOF" || strings.TrimSpace(s) != "" {
				return nil, fmt.Errorf("after the page: %q <%s>", s, t)
			}
			return items, nil
		case hrefRE.MatchString(t):
			if strings.TrimSpace(s) != "" {
				return nil, fmt.Errorf("stray text %q", s)
			}
			it := &hitem{kind: "link", link: html.UnescapeString(hrefRE.FindStringSubmatch(t)[1])}
			var e string
			if it.text, e = textTag(); e != "/a" {
				return nil, fmt.Errorf("<%s> in a link", e)
			}
			items = append(items, it)
		case t == `span class="parens"`:
			it := &hitem{kind: "value", text: s}
			var e string
			if it.paren, e = textTag(); e != "/span" {
				return nil, fmt.Errorf("<%s> in a description", e)
			}
			for peek() == "br" {
				textTag()
			}
			switch peek() {
			case "ul":
				it.kind = "list"
				textTag()
				for {
					s, t := textTag()
					if strings.TrimSpace(s) != "" {
						return nil, fmt.Errorf("stray text %q in a list", s)
					}
					if t == "/ul" {
						break
					}
					if t != "li" {
						return nil, fmt.Errorf("<%s> in a list", t)
					}
					s, t = textTag()
					if t != "/li" {
						return nil, fmt.Errorf("<%s> in a list element", t)
					}
					it.list = append(it.list, s)
				}
			case "table":
				it.kind = "dist"
				textTag()
				for {
					s, t := textTag()
					if strings.TrimSpace(s) != "" {
						return nil, fmt.Errorf("stray text %q in a table", s)
					}
					if t == "/table" {
						break
					}
					if t != "tr" {
						return nil, fmt.Errorf("<%s> in a table", t)
					}
					var row [2]string
					for k := range row {
						if err := want(`td align="right"`); err != nil {
							return nil, err
						}
						var e string
						if row[k], e = textTag(); e != "/td" {
							return nil, fmt.Errorf("<%s> in a table cell", e)
						}
					}
					if err := want("/tr"); err != nil {
						return nil, err
					}
					it.rows = append(it.rows, row)
				}
				if peek() == `span class="summary"` {
					textTag()
					var e string
					if it.sum, e = textTag(); e != "/span" {
						return nil, fmt.Errorf("<%s> in a summary", e)
					}
				}
			}
			items = append(items, it)
		default:
			return nil, fmt.Errorf("unexpected tag <%s> after %q", t, short(s))
		}
	}
}

// textValue tells whether s is the text form of a value.
func textValue(s string, v interface{}, u units.Unit) bool {
	switch w := v.(type) {
	case bool:
		return s == strconv.FormatBool(w)
	case string:
		return s == `"`+w+`"`
	case float64:
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && f == w
	case float32:
		f, err := strconv.ParseFloat(s, 32)
		return err == nil && float32(f) == w
	case time.Time:
		return s == timeString(w, u)
	case time.Duration:
		return s == durString(w, u)
	}
	return s == fmt.Sprint(v)
}

func eachValue(v interface{}) (res []interface{}) {
	for i, n := 0, sliceLen(v); i < n; i++ {
		res = append(res, sliceAt(v, i))
	}
	return
}

// textLine tells whether s is the text form of a metric's value.
func (g *gm) textLine(s string) bool {
	cur := g.Cur()
	if g.Kind != types.List {
		return textValue(s, cur, g.Unit)
	}
	vals := eachValue(cur)
	if len(vals) == 0 {
		return s == ""
	}
	parts := strings.Split(s, "|")
	if len(parts) != len(vals) {
		return false
	}
	for i := range parts {
		if !textValue(parts[i], vals[i], g.Unit) {
			return false
		}
	}
	return true
}

// htmlValue tells whether s is the HTML form of a value. C14 looks at how
// numbers, durations and times are shown.
func htmlValue(s string, v interface{}, u units.Unit) string {
	switch w := v.(type) {
	case bool:
		if s != strconv.FormatBool(w) {
			return "differs"
		}
	case string:
		if s != squeeze(`"`+w+`"`) {
			return "differs"
		}
	case float64, float32:
		if !textValue(s, v, u) {
			return "differs"
		}
	case time.Time:
		return humanTime(s, w)
	case time.Duration:
		return humanDuration(s, w, u)
	default:
		return humanInt(s, v, u)
	}
	return ""
}

type c13dist struct {
	path string
	unit units.Unit
	desc string
	spec *adist
}

func c13Round(c *Ctx, i int) {
	r := c.Sub("round", i)
	// on text pages strings are written as they are, so only some can be told apart
	text := r.Intn(2) == 0
	o := genOpt{validUTF8: true, plainStrings: true, large: true}
	at := genBase(r)
	gs := genMany(c, r, at, 1+r.Intn(16), o)
	if !text {
		for _, g := range gs {
			g.Desc = strings.ReplaceAll(genString(r, genOpt{validUTF8: true}), "\x00", "")
		}
	}
	all := gmPaths(gs)
	defer func() { clearTops(all) }()
	for _, g := range gs {
		if err := g.register(); err != nil {
			c.Violate("refused", g.String(), "%v", err)
		}
	}
	dists := map[string]*c13dist{}
	for k := r.Intn(3); k > 0; k-- {
		b, _, _ := genBucketer(r)
		d := &c13dist{path: fmt.Sprintf("%s/zz<d>%d", at, k), spec: newAdist(b, r.Intn(2) == 0), unit: pick(r, allUnits), desc: genString(r, o)}
		if regVia(r, d.path, d.spec.spec, nil, d.unit, d.desc) != nil {
			continue
		}
		n := r.Intn(30)
		switch r.Intn(6) {
		case 0:
			n = 1
		case 1:
			n = 100 + r.Intn(400)
		}
		spread := 7
		if r.Intn(2) == 0 {
			spread = 1 + r.Intn(4)
		}
		for ; n > 0; n-- {
			d.spec.add(r.NormFloat64() * math.Pow(10, float64(r.Intn(spread)-2)))
		}
		for k := r.Intn(4); k > 0; k-- {
			d.spec.add(pick(r, []float64{1e12, -1e12, 3e7, 0, -5}))
		}
		dists[d.path] = d
		all = append(all, d.path)
	}
	byPath := map[string]*gm{}
	var paths []string
	for _, g := range gs {
		byPath[g.Path] = g
		paths = append(paths, g.Path)
	}
	for p := range dists {
		paths = append(paths, p)
	}
	sort.Slice(paths, func(i, j int) bool { return lessPath(paths[i], paths[j]) })
	if text {
		c13Text(c, r, at, paths, byPath, dists)
	}
	c13Html(c, r, at, paths, byPath, dists, 0)
	for k := 0; k < 3; k++ {
		p := pick(r, paths)
		c13HtmlOne(c, p, byPath, dists)
	}
	if c.WantSample() {
		c.Sample(map[string]interface{}{"text": short(textPage(at)), "html": short(htmlPage(at))})
	}
}

func c13Text(c *Ctx, r randT, from string, paths []string, byPath map[string]*gm, dists map[string]*c13dist) {
	if r.Intn(3) == 0 {
		from = pick(r, paths)
		from = from[:strings.LastIndex(from, "/")]
	}
	page := textPage(from)
	if !strings.HasSuffix(page, "\n") && page != "" {
		c.Violate("text-end", page, "text page of %q does not end its last line: %q", from, short(page))
	}
	var lines []string
	for _, l := range strings.Split(strings.TrimSuffix(page, "\n"), "\n") {
		if from != "" || !builtIn(l) {
			lines = append(lines, l)
		}
	}
	var want []string
	for _, p := range paths {
		if strings.HasPrefix(p, from+"/") {
			want = append(want, p)
		}
	}
	if len(lines) != len(want) {
		c.Violate("text-lines", page, "text page of %q has %d lines for %d metrics: %s", from, len(lines), len(want), short(page))
	}
	for i, p := range want {
		if !strings.HasPrefix(lines[i], p+" ") {
			c.Violate("text-path", lines[i], "line %d of the text page of %q is %q, want metric %q", i, from, lines[i], p)
		}
		v := lines[i][len(p)+1:]
		if g := byPath[p]; g != nil {
			if !g.textLine(v) {
				c.Violate("text-value", g.String(), "text page shows %q for %s", v, g)
			}
			c.Case(fmt.Sprint("t", g.Form, g.Unit, g.Cur()))
		} else if s := textDist(v, distOf(p)); s != "" {
			c.Violate("text-dist", v, "text page shows %q for distribution %q: %s", v, p, s)
		} else {
			c.Case("td" + v)
		}
		if r.Intn(4) == 0 {
			// the metric alone
			one := textPage(p)
			if one != v+"\n" {
				c.Violate("text-single", one, "text page of metric %q is %q, in its directory's it is %q", p, one, v)
			}
		}
	}
}

func sameF32(s string, f float64) bool {
	x, err := strconv.ParseFloat(s, 32)
	return err == nil && float32(x) == float32(f)
}

// textDist compares the text form of a distribution with what Go RPC reports.
func textDist(s string, d *messages.Distribution) string {
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return "not in braces"
	}
	fields := strings.Split(s[1:len(s)-1], ";")
	stats := []struct {
		name string
		val  float64
	}{{"min", d.Min}, {"max", d.Max}, {"avg", d.Average}, {"median", d.Median}, {"sum", d.Sum}}
	if len(fields) < 6 {
		return "statistics missing"
	}
	for i, x := range stats {
		v, ok := strings.CutPrefix(fields[i], x.name+":")
		if !ok || !sameF32(v, x.val) {
			return fmt.Sprintf("%q, want %s %v", fields[i], x.name, x.val)
		}
	}
	if fields[5] != fmt.Sprintf("count:%d", d.Count) {
		return fmt.Sprintf("%q, want count %d", fields[5], d.Count)
	}
	fields = fields[6:]
	for i, rg := range d.Ranges {
		if rg.Count == 0 {
			continue
		}
		if len(fields) == 0 {
			return fmt.Sprintf("range %d missing", i)
		}
		m := rangeRE.FindStringSubmatch(fields[0])
		if m == nil || m[3] != fmt.Sprint(rg.Count) || (i == 0) != (m[1] == "-inf") || (i == len(d.Ranges)-1) != (m[2] == "inf") ||
			i > 0 && !sameF32(m[1], rg.Lower) || i < len(d.Ranges)-1 && !sameF32(m[2], rg.Upper) {
			return fmt.Sprintf("%q, want range %d %+v", fields[0], i, *rg)
		}
		fields = fields[1:]
	}
	if len(fields) > 0 {
		return fmt.Sprintf("extra %q", fields)
	}
	return ""
}

var rangeRE = regexp.MustCompile(`^\[([^,]*),([^)]*)\):([0-9]+)$`)
var summaryRE = regexp.MustCompile(`^min: (\S+) max: (\S+) avg: (\S+) ~median: (\S+) sum: (\S+) count: ([0-9]+)$`)
var rowRE = regexp.MustCompile(`^(?:(<|>=)(\S+?)|(-?[0-9.][^:]*?)-(-?[0-9.]\S*?)):$`)

func htmlDist(it *hitem, d *messages.Distribution) string {
	rows := it.rows
	for i, rg := range d.Ranges {
		if rg.Count == 0 {
			continue
		}
		if len(rows) == 0 {
			return fmt.Sprintf("range %d missing", i)
		}
		label, n := squeeze(rows[0][0]), squeeze(rows[0][1])
		ok := n == fmt.Sprint(rg.Count) && strings.HasSuffix(label, ":")
		label = strings.TrimSuffix(label, ":")
		switch {
		case i == 0:
			v, has := strings.CutPrefix(label, "<")
			ok = ok && has && sameF32(v, rg.Upper)
		case i == len(d.Ranges)-1:
			v, has := strings.CutPrefix(label, ">=")
			ok = ok && has && sameF32(v, rg.Lower)
		default:
			// a dash between two numbers that may have their own
			found := false
			for k := 1; k < len(label); k++ {
				if label[k] == '-' && sameF32(label[:k], rg.Lower) && sameF32(label[k+1:], rg.Upper) {
					found = true
				}
			}
			ok = ok && found
		}
		if !ok {
			return fmt.Sprintf("row %q %q, want range %d %+v", rows[0][0], rows[0][1], i, *rg)
		}
		rows = rows[1:]
	}
	if len(rows) > 0 {
		return fmt.Sprintf("extra row %q", rows[0])
	}
	if d.Count == 0 {
		return ""
	}
	m := summaryRE.FindStringSubmatch(squeeze(it.sum))
	if m == nil {
		return fmt.Sprintf("summary %q", it.sum)
	}
	for k, v := range []float64{d.Min, d.Max, d.Average, d.Median, d.Sum} {
		if !sameF32(m[k+1], v) {
			return fmt.Sprintf("summary %q, want %+v", it.sum, *d)
		}
	}
	if m[6] != fmt.Sprint(d.Count) {
		return fmt.Sprintf("summary %q, want %+v", it.sum, *d)
	}
	return ""
}

func paren(kind, desc string, u units.Unit) string {
	s := "(" + kind + ": " + desc
	if u != units.None {
		s += "; unit: " + u.String()
	}
	return squeeze(s + ")")
}

// checkItem compares an item of a page with the metric it stands for.
func checkItem(it *hitem, p string, byPath map[string]*gm, dists map[string]*c13dist) string {
	if d := dists[p]; d != nil {
		if it.kind != "dist" || squeeze(it.text) != squeeze(p) || squeeze(it.paren) != paren("distribution", d.desc, d.unit) {
			return fmt.Sprintf("shown as %+v, want distribution %q %s", *it, p, paren("distribution", d.desc, d.unit))
		}
		return htmlDist(it, distOf(p))
	}
	g := byPath[p]
	if g.Kind == types.List {
		k := paren("list of "+jsonKind(g.Sub), g.Desc, g.Unit)
		if it.kind != "list" || squeeze(it.text) != squeeze(p) || squeeze(it.paren) != k {
			return fmt.Sprintf("shown as %+v, want %q %s", *it, p, k)
		}
		vals := eachValue(g.Cur())
		if len(vals) != len(it.list) {
			return fmt.Sprintf("%d elements shown, want %d", len(it.list), len(vals))
		}
		for i := range vals {
			if s := htmlValue(squeeze(it.list[i]), vals[i], g.Unit); s != "" {
				return fmt.Sprintf("element %d shown as %q, is %v: %s", i, it.list[i], vals[i], s)
			}
		}
		return ""
	}
	k := paren(jsonKind(g.Kind), g.Desc, g.Unit)
	if it.kind != "value" || squeeze(it.paren) != k {
		return fmt.Sprintf("shown as %+v, want %q %s", *it, p, k)
	}
	v, ok := strings.CutPrefix(squeeze(it.text), squeeze(p)+" ")
	if !ok {
		return fmt.Sprintf("shown as %q, want path %q", it.text, p)
	}
	if s := htmlValue(v, g.Cur(), g.Unit); s != "" {
		return fmt.Sprintf("shown as %q, is %v: %s", v, g.Cur(), s)
	}
	return ""
}

// c13Html checks the page of a directory at the URL and follows its links.
func c13Html(c *Ctx, r randT, dir string, paths []string, byPath map[string]*gm, dists map[string]*c13dist, depth int) {
	c13HtmlAt(c, r, urlFor("/metrics", dir), dir, paths, byPath, dists, depth)
}

func c13HtmlAt(c *Ctx, r randT, target, dir string, paths []string, byPath map[string]*gm, dists map[string]*c13dist, depth int) {
	w := get(target)
	page := w.Body.String()
	items, err := parsePage(page)
	if w.Code != 200 || err != nil {
		c.Violate("html", page, "page of %q at %s: status %d, %v\n%s", dir, target, w.Code, err, page)
	}
	// entries directly in the directory, in order
	var want []string
	isDir := map[string]bool{}
	if dir == "" { // the root has a directory that is not ours
		paths = append([]string{"/proc/built-in"}, paths...)
		sort.Slice(paths, func(i, j int) bool { return lessPath(paths[i], paths[j]) })
	}
	for _, p := range paths {
		rest, ok := strings.CutPrefix(p, dir+"/")
		if !ok {
			continue
		}
		name, _, sub := strings.Cut(rest, "/")
		q := dir + "/" + name
		if len(want) == 0 || want[len(want)-1] != q {
			want = append(want, q)
			isDir[q] = sub
		}
	}
	if len(items) != len(want) {
		c.Violate("html-items", page, "page of %q shows %d entries, want %d %q", dir, len(items), len(want), want)
	}
	for i, p := range want {
		it := items[i]
		if !isDir[p] {
			if s := checkItem(it, p, byPath, dists); s != "" {
				c.Violate("html-metric", page, "page of %q: %q: %s", dir, p, s)
			}
			c.Case(fmt.Sprint("h", it.text, it.paren, it.list, it.sum))
			continue
		}
		if it.kind != "link" || squeeze(it.text) != squeeze(p) {
			c.Violate("html-link", page, "page of %q: directory %q shown as %+v", dir, p, *it)
		}
		u, err := url.Parse(it.link)
		base, _ := url.Parse("http://h" + target)
		if err != nil {
			c.Violate("html-link", it.link, "page of %q: link %q: %v", dir, it.link, err)
		}
		abs := base.ResolveReference(u)
		if abs.Host != "h" || abs.Scheme != "http" || abs.Path != "/metrics"+p || abs.RawQuery != "" || abs.Fragment != "" {
			c.Violate("html-link", it.link, "page of %q: link to %q is %q, which leads to %v", dir, p, it.link, abs)
		}
		c.Case("link" + p)
		if depth < 4 && p != "/proc" {
			c13HtmlAt(c, r, abs.RequestURI(), p, paths, byPath, dists, depth+1)
			c.Count("links_followed", 1)
		}
	}
	c.Count("html_pages", 1)
}

// c13HtmlOne checks the page of a single metric.
func c13HtmlOne(c *Ctx, p string, byPath map[string]*gm, dists map[string]*c13dist) {
	page := htmlPage(p)
	items, err := parsePage(page)
	if err != nil || len(items) != 1 {
		c.Violate("html-single", page, "page of metric %q: %d entries, %v", p, len(items), err)
	}
	if s := checkItem(items[0], p, byPath, dists); s != "" {
		c.Violate("html-single", page, "page of metric %q: %s", p, s)
	}
	c.Case(fmt.Sprint("1", items[0].text, items[0].paren, items[0].list, items[0].sum))
}

func c13Missing(c *Ctx) {
	x := int64(5)
	tr.RegisterMetric("/t/dir/m", &x, units.None, "")
	tr.RegisterDirectory("/t/empty")
	defer clearRoot("t")
	for _, p := range []string{"/nope", "/t/nope", "/t/dir/m/x", "/t/dir/nope/m", "/t/dir/M", "/t/dir/m /x", "/<script>", "/t/dir/x?y"} {
		for _, page := range []string{textPage(p), htmlPage(p)} {
			if !strings.Contains(page, "Path does not exist") || strings.ContainsAny(page, "<>&") || len(page) > 100 {
				c.Violate("missing", p, "page of missing %q is %q", p, page)
			}
		}
		c.Case("missing" + p)
	}
	if s := textPage("/t/empty"); s != "" {
		c.Violate("empty", s, "text page of an empty directory is %q", s)
	}
	if it, err := parsePage(htmlPage("/t/empty")); err != nil || len(it) != 0 {
		c.Violate("empty", nil, "page of an empty directory: %d entries %v", len(it), err)
	}
	// the top level page links all top level directories
	it, err := parsePage(htmlPage("/"))
	if err != nil {
		c.Violate("html", nil, "top level page: %v", err)
	}
	var got []string
	for _, x := range it {
		got = append(got, x.kind+x.link)
	}
	if fmt.Sprint(got) != "[link/metrics/proc link/metrics/t]" {
		c.Violate("top-level", got, "the top level page shows %v", got)
	}
	c.Case("top")
}
