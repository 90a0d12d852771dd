package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func init() { props["C22"] = c22 }

// c22tree is the tree the requests are about: integer values by path, and the
// paths of other metrics.
type c22tree struct {
	ints  map[string]int64
	other map[string]bool
	dirs  map[string]bool
	names []string // all metric paths, in the order of listings
	css   []byte
}

// c22less orders paths as a listing does: by name, level by level.
func c22less(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := range x {
		if i >= len(y) {
			return false
		}
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

func c22Tree(c *Ctx) *c22tree {
	t := &c22tree{ints: map[string]int64{}, other: map[string]bool{}, dirs: map[string]bool{"/t": true}}
	reg := func(p string, m interface{}, desc string) {
		if err := tr.RegisterMetric(p, m, units.None, desc); err != nil {
			c.Violate("refused", p, "registering %q: %v", p, err)
		}
		t.names = append(t.names, p)
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			t.dirs[d] = true
		}
	}
	n := int64(1000)
	for _, d := range []string{"a", "b", "b/c", "b/c/d", "sp ace", "ü☃", "p%41q", "q?r", "<b>x", "a+b", "a&b;c", `qu"ote`, "hash#x", "metrics", "metricsapi"} {
		for k := 0; k < 4; k++ {
			n++
			v := new(int64)
			*v = n
			p := fmt.Sprintf("/t/%s/m%d", d, k)
			reg(p, v, "an <i>integer</i> & \"more\"")
			t.ints[p] = n
		}
	}
	s := "str<b>&amp;"
	reg("/t/o/string", &s, "")
	t.other["/t/o/string"] = true
	for k, s := range []string{strings.Repeat("\x01\x02\x7f", 3000), "\x1f\x8b\x08" + strings.Repeat("g", 5000), "%PDF-1.4 \x03", strings.Repeat("<title><p>\x04", 500)} {
		// contents of which a guess of the type would be wrong
		s := s
		p := fmt.Sprintf("/t/bin%d/s", k)
		reg(p, &s, "")
		t.other[p] = true
		p = fmt.Sprintf("/t/bin%d/list", k)
		reg(p, tr.NewList([]string{s, s}, false), "")
		t.other[p] = true
	}
	var big []string
	for k := 0; k < 4000; k++ {
		big = append(big, fmt.Sprintf("element-%d<", k*7919%4001))
	}
	reg("/t/o/biglist", tr.NewList(big, false), "")
	t.other["/t/o/biglist"] = true
	d := tr.NewGeometricBucketer(1, 1e6).NewCumulativeDistribution()
	reg("/t/o/dist", d, "")
	t.other["/t/o/dist"] = true
	for k := 0; k < 100; k++ {
		d.Add(float64(k * k))
	}
	sort.Slice(t.names, func(a, b int) bool { return c22less(t.names[a], t.names[b]) })
	return t
}

func (t *c22tree) isMetric(p string) bool { return t.other[p] || t.ints[p] != 0 }

func (t *c22tree) under(p string) (res []string) {
	for _, n := range t.names {
		if n == p || strings.HasPrefix(n, p+"/") {
			res = append(res, n)
		}
	}
	return
}

// children returns the number of entries directly in directory p.
func (t *c22tree) children(p string) (metrics, dirs int) {
	seen := map[string]bool{}
	for _, n := range t.under(p) {
		rest := n[len(p)+1:]
		if i := strings.IndexByte(rest, '/'); i < 0 {
			metrics++
		} else if !seen[rest[:i]] {
			seen[rest[:i]] = true
			dirs++
		}
	}
	return
}

// Values of Accept-Encoding that accept gzip and those that don't, also
// spread over two header lines.
var (
	c22yes = []string{
		"gzip", "gzip", "gzip, deflate, br", "deflate, gzip", "deflate,gzip", "br;q=1.0, gzip;q=0.8, *;q=0.1", "gzip;q=0.001", "gzip; q=1", "identity;q=0, gzip",
		"GZIP", "deflate;q=0,Gzip ;q=0.5", "deflate\r\nAccept-Encoding: gzip", "gzip\r\nAccept-Encoding: br", "identity\r\nAccept-Encoding: br;q=0, gzip",
	}
	c22no = []string{
		"", "", "deflate", "identity", "br, identity", "gzip;q=0", "gzip;q=0, deflate", "deflate, gzip;q=0.000", "identity, gzip; q=0.0", "br\r\nAccept-Encoding: gzip;q=0",
		"pack200-gzip", "gzipped", "identity;q=0.5",
	}
)

// c22req is a request and what its answer must be.
type c22req struct {
	method, target string
	header         [][2]string
	ae             string // Accept-Encoding
	gzip           bool   // whether ae accepts gzip
	what           string // html, text, json, one, static, presence, nothing
	path           string // metric path asked for
	lax            bool   // the form of the answer is not determined
}

func (q *c22req) String() string {
	return fmt.Sprintf("%s %s Accept-Encoding=%q %v", q.method, short(q.target), q.ae, q.header)
}

func (q *c22req) raw(proto string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s %s\r\nHost: localhost\r\n", q.method, q.target, proto)
	if q.ae != "" {
		fmt.Fprintf(&b, "Accept-Encoding: %s\r\n", q.ae)
	}
	for _, h := range q.header {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	b.WriteString("\r\n")
	return b.Bytes()
}

// c22escape writes a path as a URL, sometimes escaping more than necessary.
func c22escape(r randT, p string) string {
	s := (&url.URL{Path: p}).EscapedPath()
	if r.Intn(4) == 0 {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			ch := s[i]
			if i > 0 && r.Intn(6) == 0 && (ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9') && s[i-1] != '%' && (i < 2 || s[i-2] != '%') {
				fmt.Fprintf(&b, "%%%02X", ch)
			} else {
				b.WriteByte(ch)
			}
		}
		s = b.String()
	}
	return s
}

var c22hostile = []string{
	"/nope", "/t/nope", "/t/a/m0/x", "/t/<script>alert(1)</script>", "/t/a/m0%00", "/%00", "/t/%0d%0aX-Evil:%20yes", "/t/%0d%0a%0d%0a<html>",
	"/..%2f..%2fetc/passwd", "/%2e%2e/%2e%2e/etc/passwd", "/../../etc/passwd", "//t//a", "/./t/../t/a", "/t%2Fa%2Fm0", "/%2F%2F", "/t/a/%ff%fe",
	"/t/{{.}}", "/t/%7b%7bprintf%7d%7d", "/%s%d%n", "/t/a/*", "/t/\\", "/" + strings.Repeat("x/", 1500), "/" + strings.Repeat("y", 6000), "/t/;a=b", "/t/a:80", "/~root", "/t/a'--", "/metrics/t/a",
}

func c22Gen(r randT, t *c22tree) *c22req {
	q := &c22req{method: "GET"}
	if r.Intn(10) == 0 {
		q.method = "HEAD"
	}
	if r.Intn(3) > 0 {
		q.ae = pick(r, c22yes)
		q.gzip = true
	} else {
		q.ae = pick(r, c22no)
	}
	prefix := pick(r, []string{"/metrics", "/metrics", "/metricsapi", "/metricsapi"})
	switch x := r.Intn(20); {
	case x < 11:
		// an entry of the tree
		if r.Intn(2) == 0 {
			q.path = pick(r, t.names)
		} else {
			q.path = path.Dir(pick(r, t.names))
		}
		u := q.path
		if r.Intn(8) == 0 {
			u += "/"
		}
		q.target = prefix + c22escape(r, u)
	case x < 12:
		q.path = fmt.Sprintf("/t/missing%d", r.Intn(1000))
		q.target = prefix + q.path
	case x < 16:
		h := pick(r, c22hostile)
		if r.Intn(3) == 0 {
			var b strings.Builder
			b.WriteByte('/')
			for k := r.Intn(20); k >= 0; k-- {
				fmt.Fprintf(&b, "%%%02x", r.Intn(256))
			}
			h = b.String()
		}
		q.target = prefix + h
		p, err := url.PathUnescape(q.target)
		if err != nil || strings.ContainsAny(q.target, "<>\\") {
			q.lax = true
		} else {
			q.path = strings.TrimPrefix(p, prefix)
			c := path.Clean(p)
			if strings.HasSuffix(p, "/") && c != "/" {
				c += "/"
			}
			if c != p || strings.TrimSpace(q.path) != q.path || strings.ContainsAny(q.path, "\t\n\v\f\r \u0085\u00a0") {
				q.lax = true
			}
		}
	case x < 17:
		q.what, q.target = "static", "/metricsstatic/theme.css"
		switch r.Intn(4) {
		case 0:
			if len(t.css) > 4 {
				a := r.Intn(len(t.css) - 2)
				q.header = append(q.header, [2]string{"Range", fmt.Sprintf("bytes=%d-%d", a, a+r.Intn(len(t.css)-a))})
			}
		case 1:
			q.header = append(q.header, [2]string{"If-Modified-Since", time.Now().UTC().Add(time.Hour).Format(http.TimeFormat)})
		case 2:
			q.target += "?" + pick(r, []string{"x=1", "format=text", "%zz"})
		}
		return q
	case x < 18:
		q.what, q.target = "presence", "/has-tricorder-metrics"
		if r.Intn(3) == 0 {
			q.target += "?format=text&x=<y>"
		}
		return q
	default:
		q.what = "nothing"
		q.target = pick(r, []string{"/metricsstatic/nope", "/metricsstatic/theme.css/x", "/metricsstatic/", "/nothing", "/has-tricorder-metrics/x", "/metricsx", "/metricsapix/t"})
		return q
	}
	query := ""
	if prefix == "/metrics" {
		switch r.Intn(6) {
		case 0, 1:
			query, q.what = pick(r, []string{"format=text", "format=text&x=1", "x=%00&format=text", "format=te%78t"}), "text"
		case 2:
			query, q.what, q.lax = pick(r, []string{"%zz", ";;;", "format=text;", "a=b&%", "=&=&&&&", strings.Repeat("z", 5000), "format=TEXT"}), "lax", true
		default:
			query, q.what = pick(r, []string{"", "", "format=html", "x=format=text", "xformat=text"}), "html"
		}
	} else {
		switch r.Intn(6) {
		case 0, 1:
			query, q.what = pick(r, []string{"singleton=true", "singleton=true&x=1", "x=%00&singleton=true", "format=text&singleton=true"}), "one"
		case 2:
			query, q.what, q.lax = pick(r, []string{"%zz", ";;;", "singleton=true;", "a=b&%", "=&=&&&&", strings.Repeat("z", 5000), "Singleton=1"}), "lax", true
		default:
			query, q.what = pick(r, []string{"", "", "singleton=", "x=singleton=true", "format=text"}), "json"
		}
	}
	if query != "" {
		q.target += "?" + query
	}
	if len(q.target) > 2 && strings.ContainsAny(q.target, "<>\"") {
		q.lax = true
	}
	return q
}

// check tells what is wrong with the answer to q.
func (t *c22tree) check(q *c22req, resp *http.Response, body []byte) string {
	ct := resp.Header.Get("Content-Type")
	enc := resp.Header.Get("Content-Encoding")
	code := resp.StatusCode
	head := q.method == "HEAD"
	if enc != "" && enc != "gzip" || len(resp.Header["Content-Encoding"]) > 1 {
		return "Content-Encoding " + fmt.Sprint(resp.Header["Content-Encoding"])
	}
	if enc == "gzip" && !q.gzip {
		return "gzip sent to a client that does not accept it"
	}
	if len(resp.Header["X-Evil"]) > 0 {
		return "header injected"
	}
	if enc == "gzip" && !head {
		zr, err := gzip.NewReader(bytes.NewReader(body))
		if err != nil {
			return "announced as gzip but " + err.Error()
		}
		if body, err = io.ReadAll(zr); err != nil {
			return "announced as gzip but " + err.Error()
		}
	} else if bytes.HasPrefix(body, []byte{0x1f, 0x8b}) {
		return "gzip encoded but not announced"
	}
	secure := func() string {
		for _, h := range []string{"X-Frame-Options", "X-Xss-Protection", "Content-Security-Policy"} {
			if v := resp.Header[h]; len(v) != 1 || v[0] == "" {
				return fmt.Sprintf("security header %s is %q", h, v)
			}
		}
		if v := resp.Header.Get("X-Frame-Options"); !strings.EqualFold(v, "DENY") {
			return "X-Frame-Options " + v
		}
		if v := resp.Header.Get("X-Xss-Protection"); !strings.HasPrefix(v, "1") {
			return "X-XSS-Protection " + v
		}
		if v := resp.Header.Get("Content-Security-Policy"); !strings.Contains(v, "default-src 'self'") || strings.Contains(v, "script") || strings.Contains(v, "*") {
			return "Content-Security-Policy " + v
		}
		return ""
	}
	if code >= 300 && code < 400 && (q.lax || code == 304 && q.what == "static") {
		return "" // the standard library's cleaning of paths, or caching
	}
	if code == 400 && q.lax {
		return ""
	}
	what := q.what
	pathKnown := !q.lax || what != "lax" && q.path != ""
	if q.lax {
		pathKnown = false
		switch {
		case strings.HasPrefix(q.target, "/metricsapi/") && strings.HasPrefix(ct, "application/json") && code == 200:
			what = "json"
			if b := bytes.TrimSpace(body); len(b) > 0 && b[0] == '{' {
				what = "one"
			}
		case strings.HasPrefix(q.target, "/metrics/") && code == 200:
			what = "html"
			if head {
				return secure()
			}
			if !bytes.Contains(body, []byte("<html>")) {
				what = "text"
			}
		case code == 404:
			return ""
		default:
			return fmt.Sprintf("status %d, content type %q", code, ct)
		}
	}
	p := strings.TrimSuffix(q.path, "/")
	switch what {
	case "html":
		if s := secure(); s != "" {
			return s
		}
		if code != 200 {
			return fmt.Sprintf("status %d", code)
		}
		if enc != "" {
			return "gzip"
		}
		if head {
			return ""
		}
		if pathKnown && !t.isMetric(p) && !t.dirs[p] {
			if !bytes.Contains(body, []byte("does not exist")) || bytes.ContainsAny(body, "<>") {
				return "page of a missing path: " + short(string(body))
			}
			return ""
		}
		if !strings.HasPrefix(ct, "text/html") {
			return "content type of HTML is " + ct
		}
		items, err := parsePage(string(body))
		if err != nil {
			return "HTML: " + err.Error()
		}
		if pathKnown && t.isMetric(p) {
			if len(items) != 1 || items[0].kind == "link" || !strings.HasPrefix(strings.TrimSpace(items[0].text), p) {
				return fmt.Sprintf("page of %q shows %d items", p, len(items))
			}
			if v := t.ints[p]; v != 0 && squeeze(items[0].text) != p+" "+commas(v) {
				return fmt.Sprintf("page of %q shows %q, want %d", p, items[0].text, v)
			}
		} else if pathKnown {
			m, d := t.children(p)
			gm, gd := 0, 0
			for _, it := range items {
				if it.kind == "link" {
					gd++
				} else {
					gm++
				}
			}
			if m != gm || d != gd {
				return fmt.Sprintf("page of %q shows %d metrics and %d directories, want %d and %d", p, gm, gd, m, d)
			}
		}
	case "text":
		if s := secure(); s != "" {
			return s
		}
		if code != 200 || !strings.HasPrefix(ct, "text/plain") {
			return fmt.Sprintf("status %d, content type %q of text", code, ct)
		}
		if enc != "" {
			return "gzip"
		}
		if head || !pathKnown {
			return ""
		}
		if bytes.Contains(body, []byte("<html")) {
			return "HTML where text was asked for"
		}
		if t.isMetric(p) {
			if v := t.ints[p]; v != 0 && string(body) != fmt.Sprintf("%d\n", v) {
				return fmt.Sprintf("text of %q is %q, want %d", p, short(string(body)), v)
			}
			return ""
		}
		if !t.dirs[p] {
			if !bytes.Contains(body, []byte("does not exist")) {
				return "text of a missing path: " + short(string(body))
			}
			return ""
		}
		rest := string(body)
		for _, n := range t.under(p) {
			if !strings.HasPrefix(rest, n+" ") {
				return fmt.Sprintf("text of %q: expected a line for %q at %q", p, n, short(rest))
			}
			i := strings.IndexByte(rest, '\n')
			if i < 0 {
				return "text ends within a line: " + short(rest)
			}
			if v := t.ints[n]; v != 0 && rest[:i] != fmt.Sprintf("%s %d", n, v) {
				return fmt.Sprintf("text of %q: line %q", p, rest[:i])
			}
			rest = rest[i+1:]
		}
		if rest != "" {
			return "text ends with " + short(rest)
		}
	case "one", "json":
		known := what == "one" && pathKnown
		if known && !t.isMetric(p) {
			if code != 404 {
				return fmt.Sprintf("status %d for a missing metric", code)
			}
			if !head && !bytes.Contains(body, []byte("404")) {
				return "body of a 404: " + short(string(body))
			}
			return ""
		}
		if code != 200 || !strings.HasPrefix(ct, "application/json") || resp.Header.Get("X-Tricorder-Media-Type") != "tricorder.v1" {
			return fmt.Sprintf("status %d, content type %q, media type %q", code, ct, resp.Header.Get("X-Tricorder-Media-Type"))
		}
		if q.gzip && enc != "gzip" {
			return "not gzip encoded though the client accepts it"
		}
		if head {
			return ""
		}
		if what == "one" {
			var m jsonMetric
			if err := json.Unmarshal(body, &m); err != nil {
				return "JSON: " + err.Error()
			}
			if known && (m.Path != p || t.ints[p] != 0 && string(m.Value) != fmt.Sprint(t.ints[p])) {
				return fmt.Sprintf("JSON of %q is that of %q, value %s", p, m.Path, short(string(m.Value)))
			}
			return ""
		}
		var l []jsonMetric
		if err := json.Unmarshal(body, &l); err != nil || l == nil {
			return fmt.Sprintf("JSON: %v: %s", err, short(string(body)))
		}
		if !pathKnown {
			return ""
		}
		want := t.under(p)
		if len(l) != len(want) {
			return fmt.Sprintf("JSON of %q has %d metrics, want %d", p, len(l), len(want))
		}
		for i, m := range l {
			if m.Path != want[i] || t.ints[m.Path] != 0 && string(m.Value) != fmt.Sprint(t.ints[m.Path]) {
				return fmt.Sprintf("JSON of %q has %q = %s, want %q", p, m.Path, short(string(m.Value)), want[i])
			}
		}
	case "static":
		want := t.css
		switch code {
		case 200:
		case 206:
			var a, b, n int
			if k, _ := fmt.Sscanf(resp.Header.Get("Content-Range"), "bytes %d-%d/%d", &a, &b, &n); k != 3 || n != len(t.css) || a > b || b >= n {
				return "Content-Range " + resp.Header.Get("Content-Range")
			}
			want = t.css[a : b+1]
		default:
			return fmt.Sprintf("status %d", code)
		}
		if !strings.HasPrefix(ct, "text/css") {
			return "content type " + ct
		}
		if !head && !bytes.Equal(body, want) {
			return fmt.Sprintf("content %q, want %q", short(string(body)), short(string(want)))
		}
	case "presence":
		if s := secure(); s != "" {
			return s
		}
		if code != 200 || !head && strings.TrimSpace(string(body)) != "true" {
			return fmt.Sprintf("status %d, body %q", code, short(string(body)))
		}
	case "nothing":
		if code != 404 {
			return fmt.Sprintf("status %d", code)
		}
	}
	return ""
}

func commas(n int64) string {
	s := strconv.FormatInt(n, 10)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

var c22garbage = []string{
	"\x00\x01\x02\r\n\r\n", "GET\r\n\r\n", "GET /metrics/ HTTP/9.9\r\nHost: x\r\n\r\n", "GET /metricsapi/%zz HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /metrics/ HTTP/1.1\r\n\r\n", "GET /metricsapi/ HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", "POST /metricsapi/ HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nformat=",
	"GET /metrics/ HTTP/1.1\r\nHost: x\r\nBad Header\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "GET /metrics/t HTTP/1.1\r\nHost: x\r\nX: " + strings.Repeat("y", 20000),
	"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET /metricsapi/t HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
	"POST /metrics/t?format=text HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\nabc",
	"POST /metricsapi/t HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 12\r\n\r\nsingleton=%z",
	"OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", "DELETE /metrics/t/a HTTP/1.1\r\nHost: x\r\n\r\n", "PUT /metricsapi/t/a/m0 HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\n77",
}

func c22(c *Ctx) {
	c.rule = "a case is one answer over a loopback connection checked for status, headers, encoding, form and content; distinct by request, status and content type"
	log.SetOutput(io.Discard)
	t := c22Tree(c)
	defer clearRoot("t", "churned")
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(ln)
	defer srv.Close()
	addr := ln.Addr().String()
	w := get("/metricsstatic/theme.css")
	t.css = w.Body.Bytes()
	if w.Code != 200 || len(t.css) == 0 {
		c.Violate("static", nil, "theme.css: status %d, %d bytes", w.Code, len(t.css))
	}
	n := c.N(60000, 1200000)
	if c.Race() {
		n = c.N(4000, 120000)
	}
	// the registry changes elsewhere meanwhile
	var stop int32
	var churn sync.WaitGroup
	churn.Add(1)
	go func() {
		defer churn.Done()
		x := int64(1)
		for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
			tr.RegisterMetric(fmt.Sprintf("/churned/x%d/y", k%5), &x, units.None, "")
			if k%3 == 0 {
				tr.UnregisterPath(fmt.Sprintf("/churned/x%d", (k+2)%5))
			}
			time.Sleep(100 * time.Microsecond)
		}
	}()
	const workers = 6
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer c.Guard("panic", nil)
			for k := 0; k < n/workers; k++ {
				c22Conn(c, t, addr, c.Sub("conn", g, k))
			}
		}(g)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	churn.Wait()
}

// c22Conn uses one connection for some requests, one after the other or
// pipelined, perhaps ending with something malformed or cut off.
func c22Conn(c *Ctx, t *c22tree, addr string, r randT) {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		time.Sleep(10 * time.Millisecond)
		c.Count("dial_failed", 1)
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(conn)
	var reqs []*c22req
	for k := 1 + r.Intn(5); k > 0; k-- {
		reqs = append(reqs, c22Gen(r, t))
		if reqs[len(reqs)-1].lax {
			break // the connection may end after its answer
		}
	}
	read := func(q *c22req) bool {
		_, uerr := url.ParseRequestURI(q.target)
		resp, err := http.ReadResponse(br, &http.Request{Method: q.method})
		if err != nil {
			if uerr != nil {
				return false // refused by the server; the answer may be lost
			}
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				panic("no answer in a minute")
			}
			c.Violate("no-answer", q.String(), "no well formed answer to %v: %v", q, err)
			return false
		}
		body, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil && uerr != nil {
			return false
		}
		if err != nil {
			c.Violate("bad-body", q.String(), "the body of the answer to %v ends with %v", q, err)
			return false
		}
		if bad := t.check(q, resp, body); bad != "" {
			c.Violate("protocol", map[string]interface{}{"request": q.String(), "status": resp.StatusCode, "headers": resp.Header, "body": short(string(body))},
				"%v (%s of %q): %s", q, q.what, short(q.path), bad)
		}
		c.Case(fmt.Sprint(q.method, q.target, q.ae, resp.StatusCode, resp.Header.Get("Content-Type")))
		c.Count(fmt.Sprintf("answers_%s_%d", q.what, resp.StatusCode), 1)
		if resp.Header.Get("Content-Encoding") == "gzip" {
			c.Count("answers_gzip", 1)
		}
		if c.WantSample() && len(body) < 2000 {
			c.Sample(map[string]interface{}{"request": q.String(), "status": resp.StatusCode, "headers": resp.Header})
		}
		return resp.StatusCode != 400 && !resp.Close
	}
	pipelined := r.Intn(2) == 0
	proto := "HTTP/1.1"
	if r.Intn(10) == 0 {
		proto, reqs = "HTTP/1.0", reqs[:1]
	}
	if pipelined {
		var all []byte
		for _, q := range reqs {
			all = append(all, q.raw(proto)...)
		}
		dribble := len(all) < 400 && r.Intn(8) == 0
		go func() {
			if dribble {
				for _, b := range all {
					conn.Write([]byte{b})
				}
				return
			}
			conn.Write(all)
		}()
		for _, q := range reqs {
			if !read(q) {
				return
			}
		}
	} else {
		for _, q := range reqs {
			conn.Write(q.raw(proto))
			if !read(q) {
				return
			}
		}
	}
	switch r.Intn(4) {
	case 0:
		// malformed; any answer will do
		conn.Write([]byte(pick(r, c22garbage)))
		conn.SetReadDeadline(time.Now().Add(time.Duration(r.Intn(3)) * time.Millisecond))
		io.Copy(io.Discard, br)
		c.Count("malformed", 1)
	case 1:
		// gone before or while the answer is sent
		q := c22Gen(r, t)
		if r.Intn(2) == 0 {
			q.method, q.target = "GET", "/metrics/t/o/biglist?format=text"
			if r.Intn(2) == 0 {
				q.target = "/metricsapi/"
			}
		}
		raw := q.raw("HTTP/1.1")
		conn.Write(raw[:len(raw)-r.Intn(2)*r.Intn(len(raw))])
		if r.Intn(2) == 0 {
			conn.SetReadDeadline(time.Now().Add(time.Millisecond))
			br.Read(make([]byte, 1+r.Intn(100)))
		}
		if tc, ok := conn.(*net.TCPConn); ok && r.Intn(2) == 0 {
			tc.SetLinger(0)
		}
		c.Count("cut_off", 1)
	}
}
