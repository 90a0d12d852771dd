package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"net/url"
	"strings"

	tr "github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
)

// get runs a request through the handlers tricorder registered.
func get(target string, header ...string) *httptest.ResponseRecorder {
	req := httptest.NewRequest("GET", target, nil)
	for i := 0; i+1 < len(header); i += 2 {
		req.Header.Set(header[i], header[i+1])
	}
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, req)
	return w
}

// urlFor returns the URL of path under prefix.
func urlFor(prefix, path string) string {
	if !strings.HasPrefix(path, "/") {
		path = "/" + path
	}
	return (&url.URL{Path: prefix + path}).EscapedPath()
}

// newRPC returns a client connected to the RPC server tricorder registered with.
func newRPC() *rpc.Client {
	a, b := net.Pipe()
	go rpc.DefaultServer.ServeConn(a)
	return rpc.NewClient(b)
}

func rpcList(cl *rpc.Client, path string) (messages.MetricList, error) {
	var ml messages.MetricList
	err := cl.Call("MetricsServer.ListMetrics", path, &ml)
	return ml, err
}

func rpcGet(cl *rpc.Client, path string) (*messages.Metric, error) {
	var m messages.Metric
	err := cl.Call("MetricsServer.GetMetric", path, &m)
	return &m, err
}

// jsonMetric is a metric as a client that is not tricorder's own would see it.
type jsonMetric struct {
	Path        string          `json:"path"`
	Description string          `json:"description"`
	Unit        string          `json:"unit"`
	Kind        string          `json:"kind"`
	SubType     string          `json:"subType"`
	Bits        int             `json:"bits"`
	Value       json.RawMessage `json:"value"`
	TimeStamp   string          `json:"timestamp"`
	GroupId     int             `json:"groupId"`
}

func body(w *httptest.ResponseRecorder) ([]byte, error) {
	if w.Header().Get("Content-Encoding") == "gzip" {
		zr, err := gzip.NewReader(w.Body)
		if err != nil {
			return nil, err
		}
		return io.ReadAll(zr)
	}
	return w.Body.Bytes(), nil
}

func jsonList(path string, header ...string) ([]*jsonMetric, error) {
	w := get(urlFor("/metricsapi", path), header...)
	b, err := body(w)
	if err != nil {
		return nil, err
	}
	if w.Code != 200 {
		return nil, fmt.Errorf("status %d: %s", w.Code, short(string(b)))
	}
	var r []*jsonMetric
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&r); err != nil {
		return nil, fmt.Errorf("%v in %s", err, short(string(b)))
	}
	if r == nil {
		return nil, fmt.Errorf("not an array: %s", short(string(b)))
	}
	if dec.More() {
		return nil, fmt.Errorf("more than one value: %s", short(string(b)))
	}
	return r, nil
}

func jsonGet(path string, header ...string) (*jsonMetric, int, error) {
	w := get(urlFor("/metricsapi", path)+"?singleton=true", header...)
	b, err := body(w)
	if err != nil {
		return nil, w.Code, err
	}
	if w.Code != 200 {
		return nil, w.Code, nil
	}
	var r jsonMetric
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, w.Code, fmt.Errorf("%v in %s", err, short(string(b)))
	}
	return &r, w.Code, nil
}

func textPage(path string) string {
	return get(urlFor("/metrics", path) + "?format=text").Body.String()
}

func htmlPage(path string) string {
	return get(urlFor("/metrics", path)).Body.String()
}

// clearRoot unregisters all top level names but proc.
func clearRoot(names ...string) {
	for _, n := range names {
		tr.UnregisterPath("/" + n)
	}
}

func jsonInto(j *jsonMetric, x interface{}) error { return json.Unmarshal(j.Value, x) }
