package client_test

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

// scripted is a transport with one answer per path.
type scripted struct {
	answer func(req *http.Request) answer
	reqs   []*http.Request
	bodies []*trackedBody
}

type answer struct {
	err    error
	status int
	body   string
	cut    int // the body fails after so many bytes, unless negative
}

type trackedBody struct {
	r      io.Reader
	cut    bool
	closed int
	read   bool
}

var errCut = errors.New("connection reset")

func (b *trackedBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.cut {
		err = errCut
	}
	return n, err
}

func (b *trackedBody) Close() error { b.closed++; return nil }

func (s *scripted) Do(req *http.Request) (*http.Response, error) {
	s.reqs = append(s.reqs, req)
	a := s.answer(req)
	if a.err != nil {
		return nil, a.err
	}
	b := &trackedBody{r: strings.NewReader(a.body)}
	if a.cut >= 0 && a.cut < len(a.body) {
		b.r, b.cut = strings.NewReader(a.body[:a.cut]), true
	}
	s.bodies = append(s.bodies, b)
	return &http.Response{
		StatusCode: a.status, Status: strconv.Itoa(a.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: b, Request: req, ContentLength: -1,
	}, nil
}

type ctxKey struct{}

// checkRequests is what every request of a call has to be like.
func (s *scripted) checkRequests(ctxValue interface{}, addr string) error {
	for _, r := range s.reqs {
		if r.Method != "GET" {
			return fmt.Errorf("%s request", r.Method)
		}
		if r.Context().Value(ctxKey{}) != ctxValue {
			return fmt.Errorf("request %s without the caller's context", r.URL)
		}
		if got := r.URL.Scheme + "://" + r.URL.Host; got != addr {
			return fmt.Errorf("request to %s, want %s", got, addr)
		}
	}
	for i, b := range s.bodies {
		if b.closed == 0 {
			return fmt.Errorf("the body of response %d is left open", i)
		}
	}
	return nil
}

// jsonStyle writes JSON in any of the ways the format allows.
type jsonStyle struct {
	camel, numbers, sparse bool
}

func (j jsonStyle) key(k string) string {
	if !j.camel {
		return k
	}
	p := strings.Split(k, "_")
	for i := 1; i < len(p); i++ {
		p[i] = strings.ToUpper(p[i][:1]) + p[i][1:]
	}
	return strings.Join(p, "")
}

func (j jsonStyle) int(m map[string]interface{}, k string, v int64) {
	if j.sparse && v == 0 {
		return
	}
	if j.numbers {
		m[j.key(k)] = v
	} else {
		m[j.key(k)] = strconv.FormatInt(v, 10)
	}
}

func (j jsonStyle) str(m map[string]interface{}, k, v string) {
	if j.sparse && v == "" {
		return
	}
	m[j.key(k)] = v
}

func (j jsonStyle) envelope(e *loggregator_v2.Envelope) map[string]interface{} {
	m := map[string]interface{}{}
	j.int(m, "timestamp", e.Timestamp)
	j.str(m, "source_id", e.SourceId)
	j.str(m, "instance_id", e.InstanceId)
	if !j.sparse || len(e.Tags) > 0 {
		tags := map[string]interface{}{}
		for k, v := range e.Tags {
			tags[k] = v
		}
		m["tags"] = tags
	}
	x := map[string]interface{}{}
	switch k := e.Message.(type) {
	case *loggregator_v2.Envelope_Log:
		j.str(x, "payload", base64.StdEncoding.EncodeToString(k.Log.Payload))
		x["type"] = k.Log.Type.String()
		m["log"] = x
	case *loggregator_v2.Envelope_Counter:
		j.str(x, "name", k.Counter.Name)
		j.int(x, "delta", int64(k.Counter.Delta))
		j.int(x, "total", int64(k.Counter.Total))
		m["counter"] = x
	case *loggregator_v2.Envelope_Gauge:
		ms := map[string]interface{}{}
		for n, v := range k.Gauge.Metrics {
			ms[n] = map[string]interface{}{"unit": v.Unit, "value": v.Value}
		}
		x["metrics"] = ms
		m["gauge"] = x
	case *loggregator_v2.Envelope_Timer:
		j.str(x, "name", k.Timer.Name)
		j.int(x, "start", k.Timer.Start)
		j.int(x, "stop", k.Timer.Stop)
		m["timer"] = x
	case *loggregator_v2.Envelope_Event:
		j.str(x, "title", k.Event.Title)
		j.str(x, "body", k.Event.Body)
		m["event"] = x
	}
	return m
}

// call is one of the client's calls and what it makes of a good answer.
type call struct {
	name string
	raw  bool
	// run makes the call; it returns what it got as a text, and whether that
	// is no data at all.
	run func(ctx context.Context, c *client.Client) (got string, none bool, err error)
	// good draws a good document and what the call is to make of it.
	good func(rt *rapid.T) (doc, want string)
}

func doc(v interface{}) string {
	b, err := json.Marshal(v)
	vh.Must(err)
	return string(b)
}

func drawRows(rt *rapid.T, kind string) (rows []interface{}, want string) {
	rows = []interface{}{}
	for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "rows"); i < n; i++ {
		metric := map[string]string{}
		if rapid.Bool().Draw(rt, "label") {
			metric["job"] = rapid.SampledFrom([]string{"a", "b<", "é"}).Draw(rt, "job")
		}
		var pts []interface{}
		np := 1
		if kind == "matrix" {
			np = rapid.IntRange(0, 3).Draw(rt, "points")
		}
		want += fmt.Sprintf("{%s}", metric["job"])
		pts = []interface{}{}
		for j := 0; j < np; j++ {
			ms := rapid.Int64Range(0, 2000000000000).Draw(rt, "ms")
			v := rapid.IntRange(-100, 100).Draw(rt, "v")
			t := fmt.Sprintf("%d.%03d", ms/1000, ms%1000)
			pts = append(pts, []interface{}{json.RawMessage(t), strconv.Itoa(v)})
			want += fmt.Sprintf(" %d@%s", v, t)
		}
		if kind == "vector" {
			rows = append(rows, map[string]interface{}{"metric": metric, "value": pts[0]})
		} else {
			rows = append(rows, map[string]interface{}{"metric": metric, "values": pts})
		}
	}
	return rows, kind + want
}

func promDoc(rt *rapid.T, kinds ...string) (string, string) {
	kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
	rows, want := drawRows(rt, kind)
	return doc(map[string]interface{}{"status": "success", "data": map[string]interface{}{"resultType": kind, "result": rows}}), want
}

func showVector(v *logcache_v1.PromQL_Vector) string {
	s := "vector"
	for _, x := range v.GetSamples() {
		s += fmt.Sprintf("{%s} %v@%s", x.Metric["job"], x.Point.Value, x.Point.Time)
	}
	return s
}

func showMatrix(m *logcache_v1.PromQL_Matrix) string {
	s := "matrix"
	for _, x := range m.GetSeries() {
		s += fmt.Sprintf("{%s}", x.Metric["job"])
		for _, p := range x.Points {
			s += fmt.Sprintf(" %v@%s", p.Value, p.Time)
		}
	}
	return s
}

func showRaw(r *client.PromQLQueryResult) string {
	if r == nil {
		return "<nil>"
	}
	var b bytes.Buffer
	json.Compact(&b, r.Data.Result)
	return fmt.Sprintf("%s|%s|%s|%s|%s", r.Status, r.Data.ResultType, b.String(), r.ErrorType, r.Error)
}

func rawGood(rt *rapid.T) (string, string) {
	if rapid.Bool().Draw(rt, "error document") {
		msg := rapid.SampledFrom([]string{"bad query", "", "é<"}).Draw(rt, "msg")
		return doc(map[string]string{"status": "error", "errorType": "internal", "error": msg}), "error|||internal|" + msg
	}
	kind := rapid.SampledFrom([]string{"vector", "matrix"}).Draw(rt, "kind")
	rows, _ := drawRows(rt, kind)
	r := doc(rows)
	return `{"status":"success","data":{"resultType":"` + kind + `","result":` + r + `}}`, "success|" + kind + "|" + r + "||"
}

var calls = []call{
	{
		name: "read",
		run: func(ctx context.Context, c *client.Client) (string, bool, error) {
			es, err := c.Read(ctx, "src", time.Unix(0, 5))
			s := ""
			for _, e := range es {
				s += proto.CompactTextString(e) + "\n"
			}
			return s, es == nil, err
		},
		good: func(rt *rapid.T) (string, string) {
			style := jsonStyle{false, rapid.Bool().Draw(rt, "numbers"), rapid.Bool().Draw(rt, "sparse")}
			batch, want := []interface{}{}, ""
			for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "envelopes"); i < n; i++ {
				e := vh.Env(rt, rapid.SampledFrom(vh.Types).Draw(rt, "type"), "src", rapid.Int64Range(-5, 1<<60).Draw(rt, "ts"))
				batch = append(batch, style.envelope(e))
				want += proto.CompactTextString(e) + "\n"
			}
			return doc(map[string]interface{}{"envelopes": map[string]interface{}{"batch": batch}}), want
		},
	},
	{
		name: "meta",
		run: func(ctx context.Context, c *client.Client) (string, bool, error) {
			m, err := c.Meta(ctx)
			s := ""
			for _, k := range vh.Keys(m) {
				s += fmt.Sprintf("%s %d %d %d %d\n", k, m[k].GetCount(), m[k].GetExpired(), m[k].GetOldestTimestamp(), m[k].GetNewestTimestamp())
			}
			return s, m == nil, err
		},
		good: func(rt *rapid.T) (string, string) {
			style := jsonStyle{rapid.Bool().Draw(rt, "camel"), rapid.Bool().Draw(rt, "numbers"), rapid.Bool().Draw(rt, "sparse")}
			m, want := map[string]interface{}{}, ""
			for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "sources"); i < n; i++ {
				x := map[string]interface{}{}
				var v [4]int64
				for j, k := range []string{"count", "expired", "oldest_timestamp", "newest_timestamp"} {
					v[j] = rapid.Int64Range(-3, 1<<60).Draw(rt, k)
					style.int(x, k, v[j])
				}
				m[fmt.Sprint("s", i)] = x
				want += fmt.Sprintf("s%d %d %d %d %d\n", i, v[0], v[1], v[2], v[3])
			}
			return doc(map[string]interface{}{"meta": m}), want
		},
	},
	{
		name: "query",
		run: func(ctx context.Context, c *client.Client) (string, bool, error) {
			r, err := c.PromQL(ctx, "q")
			switch {
			case r.GetVector() != nil:
				return showVector(r.GetVector()), false, err
			case r.GetMatrix() != nil:
				return showMatrix(r.GetMatrix()), false, err
			case r.GetScalar() != nil:
				return "scalar", false, err
			}
			return "", r == nil, err
		},
		good: func(rt *rapid.T) (string, string) { return promDoc(rt, "vector", "matrix") },
	},
	{
		name: "range query",
		run: func(ctx context.Context, c *client.Client) (string, bool, error) {
			r, err := c.PromQLRange(ctx, "q")
			return showMatrix(r.GetMatrix()), r == nil, err
		},
		good: func(rt *rapid.T) (string, string) { return promDoc(rt, "matrix") },
	},
	{
		name: "raw query", raw: true,
		run: func(ctx context.Context, c *client.Client) (string, bool, error) {
			r, err := c.PromQLRaw(ctx, "q")
			return showRaw(r), r == nil, err
		},
		good: rawGood,
	},
	{
		name: "raw range query", raw: true,
		run: func(ctx context.Context, c *client.Client) (string, bool, error) {
			r, err := c.PromQLRangeRaw(ctx, "q")
			return showRaw(r), r == nil, err
		},
		good: rawGood,
	},
}

var statusGen = rapid.OneOf(
	rapid.SampledFrom([]int{201, 202, 204, 206, 301, 302, 304, 400, 401, 403, 404, 408, 409, 429, 500, 501, 502, 503, 504}),
	rapid.IntRange(201, 599),
)

// Documents that are none of the calls' answers.
var wrongShapes = []string{
	"[]", `"x"`, "42", "true", "[{}]", `{"envelopes":7}`, `{"envelopes":{"batch":7}}`, `{"envelopes":{"batch":["x"]}}`,
	`{"envelopes":{"batch":[{"timestamp":"x"}]}}`, `{"meta":[]}`, `{"meta":{"a":7}}`, `{"meta":{"a":{"count":"x"}}}`,
	`{"data":7}`, `{"data":[]}`, `{"status":{}}`, `{"data":{"resultType":7}}`,
	`{"envelopes":{"batch":[{"log":{"payload":7}}]}}`,
}

var wrongProm = []string{
	`{}`, `{"status":"success"}`, `{"data":{}}`, `{"data":{"resultType":"","result":[]}}`,
	`{"data":{"resultType":"string","result":[1,"a"]}}`, `{"data":{"resultType":"matrix"}}`, `{"data":{"resultType":"matrix","result":{}}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[1]]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[]]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[["1","1"]]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[1,1]]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[1,"1","1"]]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[null]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{},"values":[[1,"x"]]}]}}`,
	`{"data":{"resultType":"matrix","result":[{"metric":{"a":1},"values":[]}]}}`,
	`{"data":{"resultType":"matrix","result":[7]}}`,
}

func TestC06_Answers(t *testing.T) {
	vh.Check(t, vh.N(8000, 150000), "random call and answer: good, failing, cut, mutated or misshapen; all are non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			k := calls[rapid.IntRange(0, len(calls)-1).Draw(rt, "call")]
			good, want := k.good(rt)
			a := answer{status: 200, body: good, cut: -1}
			mustFail, mustMatch := true, false
			kind := rapid.SampledFrom([]string{"good", "status", "transport", "cut", "short", "bytes", "shape", "info"}).Draw(rt, "fault")
			infoFails := false
			switch kind {
			case "good":
				mustFail, mustMatch = false, true
				if strings.Contains(want, "error|") && k.raw {
					a.status = rapid.SampledFrom([]int{200, 400, 500}).Draw(rt, "status")
				}
				a.body += rapid.SampledFrom([]string{"", "\n", " \n"}).Draw(rt, "space")
			case "status":
				a.status = statusGen.Draw(rt, "status")
				if k.raw && (a.status == 400 || a.status == 500) {
					mustFail, mustMatch = false, true
				}
			case "transport":
				a.err = errors.New("no route")
			case "cut":
				a.cut = rapid.IntRange(0, len(good)-1).Draw(rt, "cut")
			case "short":
				a.body = good[:rapid.IntRange(0, len(good)-1).Draw(rt, "length")]
			case "bytes":
				b := []byte(good)
				for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "mutations"); i < n; i++ {
					p := rapid.IntRange(0, len(b)-1).Draw(rt, "position")
					switch rapid.IntRange(0, 2).Draw(rt, "mutation") {
					case 0:
						b[p] = rapid.SampledFrom([]byte(`{}[]",:0x-e.nt \`+"\x00\xff")).Draw(rt, "byte")
					case 1:
						b = append(b[:p], b[p+1:]...)
					case 2:
						q := rapid.IntRange(0, len(b)-1).Draw(rt, "other")
						b[p], b[q] = b[q], b[p]
					}
					if len(b) == 0 {
						break
					}
				}
				a.body = string(b)
				var v json.RawMessage
				mustFail = json.NewDecoder(bytes.NewReader(b)).Decode(&v) != nil
			case "shape":
				if strings.HasSuffix(k.name, "query") {
					a.body = rapid.SampledFrom(append(append([]string{}, wrongProm...), "[]", `"x"`, "42", `{"data":7}`)).Draw(rt, "shape")
					if k.raw {
						mustFail = a.body[0] != '{' || a.body == `{"data":7}`
					}
				} else {
					a.body = rapid.SampledFrom(wrongShapes).Draw(rt, "shape")
				}
			case "info":
				infoFails = true
				a = rapid.SampledFrom([]answer{{err: errors.New("no route")}, {status: 500, cut: -1}, {status: 200, body: "{", cut: -1}, {status: 200, body: `{"version":"2.0.0"}`, cut: 5}, {status: 200, body: `{"version":7}`, cut: -1}}).Draw(rt, "info")
				mustFail = k.name == "read" || k.name == "meta"
			}
			c.Class(kind)
			c.NonTrivial(fmt.Sprintf("%s %s %d %v cut=%d %s", k.name, kind, a.status, a.err, a.cut, a.body))
			addr := rapid.SampledFrom([]string{"https://log-cache.example:8083", "http://127.0.0.1:1"}).Draw(rt, "addr")
			s := &scripted{answer: func(r *http.Request) answer {
				info := strings.HasSuffix(r.URL.Path, "/info")
				switch {
				case info && infoFails, !info && !infoFails:
					return a
				case info:
					return answer{status: 200, body: `{"version":"2.7.0","vm_uptime":"1"}`, cut: -1}
				}
				return answer{status: 200, body: good, cut: -1}
			}}
			cl := client.NewClient(addr, client.WithHTTPClient(s))
			var got string
			var none bool
			var err error
			if p := vh.Try(func() { got, none, err = k.run(context.WithValue(context.Background(), ctxKey{}, rt), cl) }); p != nil {
				rt.Fatalf("%s: %s", k.name, p)
			}
			if err != nil && !none {
				rt.Fatalf("%s: data %q along with error %v", k.name, got, err)
			}
			if mustFail && err == nil {
				rt.Fatalf("%s: no error but %q", k.name, got)
			}
			if mustMatch && (err != nil || got != want) {
				rt.Fatalf("%s: got %q (%v), want %q", k.name, got, err, want)
			}
			if e := s.checkRequests(rt, addr); e != nil {
				rt.Fatalf("%s: %s", k.name, e)
			}
		})
}

func TestC06_Address(t *testing.T) {
	vh.Check(t, vh.N(300, 3000), "a malformed address; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		k := calls[rapid.IntRange(0, len(calls)-1).Draw(rt, "call")]
		addr := rapid.SampledFrom([]string{"://x", "%zz", "http://[::1", "http://a b", "http://a:port", "\x7f"}).Draw(rt, "addr")
		c.NonTrivial(k.name + " " + addr)
		s := &scripted{answer: func(*http.Request) answer { return answer{status: 200, body: "{}", cut: -1} }}
		var none bool
		var err error
		if p := vh.Try(func() {
			_, none, err = k.run(context.Background(), client.NewClient(addr, client.WithHTTPClient(s)))
		}); p != nil {
			rt.Fatalf("%s", p)
		}
		if err == nil || !none || len(s.reqs) != 0 {
			rt.Fatalf("%s to %q: error %v, requests %d", k.name, addr, err, len(s.reqs))
		}
	})
}

// ---------------------------------------------------------------- C07

type version struct {
	text  string
	valid bool
	new   bool // from 2.0.0
}

var versionGen = rapid.Custom(func(t *rapid.T) version {
	num := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 30), rapid.IntRange(0, 1000000))
	ma, mi, pa := num.Draw(t, "major"), num.Draw(t, "minor"), num.Draw(t, "patch")
	if rapid.IntRange(0, 2).Draw(t, "border") == 0 {
		ma = rapid.IntRange(1, 2).Draw(t, "major")
		mi, pa = 0, 0
	}
	pre := rapid.SampledFrom([]string{"", "", "-rc.1", "-0", "-alpha", "-0.x-y.2"}).Draw(t, "pre")
	build := rapid.SampledFrom([]string{"", "", "+5", "+dev.01", "+2.0.0-a"}).Draw(t, "build")
	v := version{text: fmt.Sprintf("%d.%d.%d%s%s", ma, mi, pa, pre, build), valid: true}
	v.new = ma > 2 || ma == 2 && (mi > 0 || pa > 0 || pre == "")
	if rapid.IntRange(0, 5).Draw(t, "invalid") == 0 {
		v.valid = false
		v.text = rapid.SampledFrom([]string{"", "2", "2.0", "v2.0.0", "2.0.0.0", "02.0.0", "2.00.0", "2.0.-1", "a.b.c", "2.0.0-", "2.0.0-01",
			"2.0.0+", "2.0.x", " 2.0.0", "2.0.0 ", "2,0,0", "99999999999999999999999.0.0", "2.0.0-é"}).Draw(t, "text")
	}
	return v
})

func TestC07_Path(t *testing.T) {
	vh.Check(t, vh.N(4000, 60000), "random info answer before a read or meta; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		v := versionGen.Draw(rt, "version")
		a := answer{status: 200, cut: -1}
		m := map[string]interface{}{"version": v.text}
		if rapid.Bool().Draw(rt, "uptime") {
			m["vm_uptime"] = "12"
		}
		a.body = doc(m)
		wantErr, path, wantVersion := !v.valid, "/v1", v.text
		if v.new {
			path = "/api/v1"
		}
		switch kind := rapid.SampledFrom([]string{"version", "version", "version", "404", "status", "body", "transport"}).Draw(rt, "info"); kind {
		case "404":
			a.status, wantErr, path, wantVersion = 404, false, "/v1", "1.4.7"
			a.body = rapid.SampledFrom([]string{"", a.body, "not found"}).Draw(rt, "body")
		case "status":
			if a.status = statusGen.Draw(rt, "status"); a.status == 404 {
				a.status = 405
			}
			wantErr = true
		case "body":
			a.body = rapid.SampledFrom([]string{"", "{", "[]", "{}", `{"version":2}`, "<html>", `"2.0.0"`, `{"version":null}`}).Draw(rt, "body")
			wantErr = true
		case "transport":
			a = answer{err: errors.New("no route")}
			wantErr = true
		}
		c.ClassIf(wantErr, "error")
		c.ClassIf(!wantErr, path)
		c.NonTrivial(fmt.Sprintf("%d %v %s", a.status, a.err, a.body))
		s := &scripted{answer: func(r *http.Request) answer {
			if r.URL.Path == "/api/v1/info" {
				return a
			}
			return answer{status: 200, body: "{}", cut: -1}
		}}
		addr := "https://log-cache.example"
		cl := client.NewClient(addr, client.WithHTTPClient(s))
		ctx := context.WithValue(context.Background(), ctxKey{}, rt)
		isRead := rapid.Bool().Draw(rt, "read")
		want := path + "/meta"
		var err error
		if p := vh.Try(func() {
			if isRead {
				want = path + "/read/some-source"
				_, err = cl.Read(ctx, "some-source", time.Unix(1, 0))
			} else {
				_, err = cl.Meta(ctx)
			}
		}); p != nil {
			rt.Fatalf("%s", p)
		}
		if (err != nil) != wantErr {
			rt.Fatalf("error %v, want one: %v", err, wantErr)
		}
		var paths []string
		for _, r := range s.reqs {
			paths = append(paths, r.URL.Path)
		}
		wantPaths := []string{"/api/v1/info"}
		if !wantErr {
			wantPaths = append(wantPaths, want)
		}
		if fmt.Sprint(paths) != fmt.Sprint(wantPaths) {
			rt.Fatalf("requests %v, want %v", paths, wantPaths)
		}
		got, err := cl.LogCacheVersion(ctx)
		if (err != nil) != wantErr || err == nil && got.String() != wantVersion {
			rt.Fatalf("version %s (%v), want %q", got, err, wantVersion)
		}
		if e := s.checkRequests(rt, addr); e != nil {
			rt.Fatalf("%s", e)
		}
	})
}

// TestC07_History has one client read from a server that is upgraded, rolled
// back and unavailable in between.
func TestC07_History(t *testing.T) {
	vh.Check(t, vh.N(1500, 30000), "random versions and faults of the server between the reads of one client; non-trivial: its path changes, or a fault precedes a read",
		func(rt *rapid.T, c *vh.Case) {
			var info answer
			s := &scripted{answer: func(r *http.Request) answer {
				if r.URL.Path == "/api/v1/info" {
					return info
				}
				return answer{status: 200, body: "{}", cut: -1}
			}}
			cl := client.NewClient("https://log-cache.example", client.WithHTTPClient(s))
			ctx := context.Background()
			last, key := "", ""
			n := rapid.IntRange(2, 8).Draw(rt, "reads")
			for i := 0; i < n; i++ {
				want := ""
				switch rapid.SampledFrom([]string{"version", "version", "404", "500", "gone", "body"}).Draw(rt, "info") {
				case "version":
					v := versionGen.Draw(rt, "version")
					info = answer{status: 200, body: doc(map[string]interface{}{"version": v.text}), cut: -1}
					if v.valid {
						want = "/v1"
					}
					if v.valid && v.new {
						want = "/api/v1"
					}
				case "404":
					info, want = answer{status: 404, cut: -1}, "/v1"
				case "500":
					info = answer{status: 500, cut: -1}
				case "gone":
					info = answer{err: errors.New("no route")}
				case "body":
					info = answer{status: 200, body: "{", cut: -1}
				}
				key += want + ";"
				c.If(i > 0 && want != "" && want != last, key)
				before := len(s.reqs)
				var err error
				if rapid.Bool().Draw(rt, "read") {
					_, err = cl.Read(ctx, "a", time.Unix(1, 0))
				} else {
					_, err = cl.Meta(ctx)
				}
				var paths []string
				for _, r := range s.reqs[before:] {
					if !strings.HasSuffix(r.URL.Path, "/info") {
						paths = append(paths, r.URL.Path)
					}
				}
				if want == "" {
					if err == nil || len(paths) != 0 {
						rt.Fatalf("call %d: requests %v (%v), but the server's answer is %d %q", i, paths, err, info.status, info.body)
					}
				} else if err != nil || len(paths) != 1 || !strings.HasPrefix(paths[0], want+"/") {
					rt.Fatalf("call %d: requests %v (%v), want one to %s, after %s", i, paths, err, want, key)
				}
				last = want
			}
		})
}

func TestC07_Uptime(t *testing.T) {
	vh.Check(t, vh.N(2000, 20000), "random info answer for the uptime; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		up := rapid.OneOf(rapid.Int64Range(0, 2000), rapid.Int64Range(0, 1<<62)).Draw(rt, "uptime")
		a := answer{status: 200, cut: -1, body: doc(map[string]interface{}{"version": "2.0.0", "vm_uptime": strconv.FormatInt(up, 10)})}
		wantErr := true
		switch rapid.SampledFrom([]string{"good", "good", "status", "body", "transport", "cut"}).Draw(rt, "kind") {
		case "good":
			wantErr = false
		case "status":
			a.status = statusGen.Draw(rt, "status")
		case "body":
			a.body = rapid.SampledFrom([]string{"", "{", "[]", "{}", `{"version":"2.0.0"}`, `{"vm_uptime":""}`, `{"vm_uptime":"x"}`, `{"vm_uptime":"1.5"}`,
				`{"vm_uptime":7}`, `{"vm_uptime":"99999999999999999999"}`, `{"vm_uptime":null}`, `{"vm_uptime":"12s"}`, `{"vm_uptime":" 12"}`}).Draw(rt, "body")
		case "transport":
			a = answer{err: errors.New("no route")}
		case "cut":
			a.cut = rapid.IntRange(0, len(a.body)-1).Draw(rt, "cut")
		}
		c.NonTrivial(fmt.Sprintf("%d %v %d %s", a.status, a.err, a.cut, a.body))
		s := &scripted{answer: func(*http.Request) answer { return a }}
		cl := client.NewClient("https://log-cache.example", client.WithHTTPClient(s))
		var got int64
		var err error
		if p := vh.Try(func() { got, err = cl.LogCacheVMUptime(context.WithValue(context.Background(), ctxKey{}, rt)) }); p != nil {
			rt.Fatalf("%s", p)
		}
		if (err != nil) != wantErr || err == nil && got != up || err != nil && got >= 0 {
			rt.Fatalf("uptime %d (%v) from %d %s", got, err, a.status, a.body)
		}
		if len(s.reqs) != 1 || s.reqs[0].URL.Path != "/api/v1/info" {
			rt.Fatalf("requests %v", s.reqs)
		}
		if e := s.checkRequests(rt, "https://log-cache.example"); e != nil {
			rt.Fatalf("%s", e)
		}
	})
}
