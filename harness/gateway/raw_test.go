package gateway_test

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

func get(rt *rapid.T, u string) (int, http.Header, string) {
	resp, err := httpClient.Get(u)
	if err != nil {
		rt.Fatalf("GET %s: %s", u, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		rt.Fatalf("GET %s: %s", u, err)
	}
	return resp.StatusCode, resp.Header, string(b)
}

// oneDocument checks that a body is one JSON document and a line feed.
func oneDocument(body string) (map[string]interface{}, error) {
	if !strings.HasSuffix(body, "\n") {
		return nil, fmt.Errorf("body %q does not end with a line feed", body)
	}
	d := json.NewDecoder(strings.NewReader(body))
	d.UseNumber()
	var m map[string]interface{}
	if err := d.Decode(&m); err != nil {
		return nil, fmt.Errorf("body %q: %s", body, err)
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("body %q has more than one document", body)
	}
	return m, nil
}

func TestC12_Errors(t *testing.T) {
	vh.Check(t, vh.N(1200, 12000), "random endpoint, gRPC code and message; each case is non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			code := rapid.SampledFrom(errCodes).Draw(rt, "code")
			msg := textGen.Draw(rt, "msg")
			path := rapid.SampledFrom([]string{"/api/v1/query", "/api/v1/query_range", "/api/v1/meta", "/api/v1/read/a", "/api/v1/read/query"}).Draw(rt, "path")
			u := gwAddr + path
			if rapid.Bool().Draw(rt, "query") {
				u += "?" + url.Values{"query": {textGen.Draw(rt, "text")}}.Encode()
			}
			c.NonTrivial(fmt.Sprintf("%s %s %q", u[len(gwAddr):], code, msg))
			theBackend.reset(func(b *backend) { b.err = serviceErr(code, msg) })
			st, h, body := get(rt, u)
			if st != httpStatus(code) {
				rt.Fatalf("status %d for %s", st, code)
			}
			if ct := h.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
				rt.Fatalf("content type %q", ct)
			}
			m, err := oneDocument(body)
			if err != nil {
				rt.Fatalf("%s", err)
			}
			if m["error"] != msg {
				rt.Fatalf("error %q, want %q", m["error"], msg)
			}
			if strings.HasPrefix(path, "/api/v1/query") {
				if et, ok := m["errorType"].(string); m["status"] != "error" || !ok || et != "internal" || len(m) != 3 {
					rt.Fatalf("body %s is no query error", body)
				}
			} else if m["message"] != msg || fmt.Sprint(m["code"]) != fmt.Sprint(uint32(code)) {
				rt.Fatalf("body %s is no error %d", body, code)
			}
		})
}

// badRequests are refused before they reach the service.
func TestC12_BadRequests(t *testing.T) {
	vh.Check(t, vh.N(300, 3000), "random malformed parameters and unknown paths; each case is non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			var u string
			want := 400
			switch rapid.IntRange(0, 1).Draw(rt, "kind") {
			case 0:
				k := rapid.SampledFrom([]string{"limit", "start_time", "end_time", "descending", "envelope_types"}).Draw(rt, "key")
				v := rapid.SampledFrom([]string{"x", "1.5", "", "--1", "99999999999999999999", "yes please"}).Draw(rt, "value")
				u = "/api/v1/read/a?" + url.Values{k: {v}}.Encode()
			case 1:
				u = rapid.SampledFrom([]string{"/", "/api", "/api/v1", "/api/v1/queryx", "/api/v2/meta", "/v1/read/a", "/api/v1/query/x", "/api/v1/meta/x"}).Draw(rt, "path")
				want = 404
			}
			c.NonTrivial(u)
			theBackend.reset(func(b *backend) {})
			st, _, body := get(rt, gwAddr+u)
			if st != want {
				rt.Fatalf("status %d with %s for %s", st, body, u)
			}
			if calls := theBackend.take(); len(calls) != 0 {
				rt.Fatalf("the service saw %v for %s", calls, u)
			}
		})
}

// Versions as the releases have them, each with its own gateway, and one
// uptime.
var (
	infoUptime   int64
	infoVersions []string
	infoAddrs    []string
)

func infoGateways() {
	if infoAddrs != nil {
		return
	}
	r := rand.New(rand.NewSource(int64(vh.Seed())))
	infoVersions = []string{"2.0.0", "1.4.7", "2.0.0-rc.1+build.5"}
	for len(infoVersions) < vh.N(10, 40) {
		infoVersions = append(infoVersions, fmt.Sprintf("%d.%d.%d%s", r.Intn(4), r.Intn(20), r.Intn(100000),
			[]string{"", "", "-rc.1", "+dev", "-0.x-y.2+b.01"}[r.Intn(5)]))
	}
	for _, v := range infoVersions {
		infoAddrs = append(infoAddrs, newGateway(gateway.WithGatewayVersion(v),
			gateway.WithGatewayVMUptimeFn(func() int64 { return atomic.LoadInt64(&infoUptime) })))
	}
}

func TestC12_Info(t *testing.T) {
	infoGateways()
	vh.Check(t, vh.N(400, 4000), "random version of a few gateways, and uptime; each case is non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			i := rapid.IntRange(0, len(infoAddrs)-1).Draw(rt, "gateway")
			up := rapid.OneOf(rapid.Int64Range(0, 1<<62), rapid.Int64Range(0, 2000)).Draw(rt, "uptime")
			atomic.StoreInt64(&infoUptime, up)
			c.NonTrivial(fmt.Sprintf("%s up %d", infoVersions[i], up))
			st, _, body := get(rt, infoAddrs[i]+"/api/v1/info")
			m, err := oneDocument(body)
			if err != nil || st != 200 {
				rt.Fatalf("status %d, %v", st, err)
			}
			want := map[string]interface{}{"version": infoVersions[i], "vm_uptime": strconv.FormatInt(up, 10)}
			if !reflect.DeepEqual(m, want) {
				rt.Fatalf("info %v, want %v", m, want)
			}
			cl := client.NewClient(infoAddrs[i], client.WithHTTPClient(httpClient))
			v, err := cl.LogCacheVersion(ctx())
			if err != nil || v.String() != infoVersions[i] {
				rt.Fatalf("version %s (%v), want %s", v, err, infoVersions[i])
			}
			if got, err := cl.LogCacheVMUptime(ctx()); err != nil || got != up {
				rt.Fatalf("uptime %d (%v), want %d", got, err, up)
			}
		})
}

type obj = map[string]interface{}

func num(i int64) string   { return strconv.FormatInt(i, 10) }
func unum(i uint64) string { return strconv.FormatUint(i, 10) }

func strMap(m map[string]string) obj {
	o := obj{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// envelopeDoc is an envelope as the API definition has it in JSON.
func envelopeDoc(e *loggregator_v2.Envelope) obj {
	o := obj{"timestamp": num(e.Timestamp), "source_id": e.SourceId, "instance_id": e.InstanceId, "tags": strMap(e.Tags)}
	dep := obj{}
	for k, v := range e.DeprecatedTags {
		switch d := v.Data.(type) {
		case *loggregator_v2.Value_Text:
			dep[k] = obj{"text": d.Text}
		case *loggregator_v2.Value_Integer:
			dep[k] = obj{"integer": num(d.Integer)}
		case *loggregator_v2.Value_Decimal:
			dep[k] = obj{"decimal": d.Decimal}
		}
	}
	o["deprecated_tags"] = dep
	switch m := e.Message.(type) {
	case *loggregator_v2.Envelope_Log:
		o["log"] = obj{"payload": base64.StdEncoding.EncodeToString(m.Log.Payload), "type": m.Log.Type.String()}
	case *loggregator_v2.Envelope_Counter:
		o["counter"] = obj{"name": m.Counter.Name, "delta": unum(m.Counter.Delta), "total": unum(m.Counter.Total)}
	case *loggregator_v2.Envelope_Gauge:
		ms := obj{}
		for k, v := range m.Gauge.Metrics {
			ms[k] = obj{"unit": v.Unit, "value": v.Value}
		}
		o["gauge"] = obj{"metrics": ms}
	case *loggregator_v2.Envelope_Timer:
		o["timer"] = obj{"name": m.Timer.Name, "start": num(m.Timer.Start), "stop": num(m.Timer.Stop)}
	case *loggregator_v2.Envelope_Event:
		o["event"] = obj{"title": m.Event.Title, "body": m.Event.Body}
	}
	return o
}

// plainDoc turns numbers of a parsed document to float64 and null bytes to
// empty ones.
func plainDoc(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		o := obj{}
		for k, e := range x {
			if k == "payload" && e == nil {
				e = ""
			}
			o[k] = plainDoc(e)
		}
		return o
	case []interface{}:
		l := make([]interface{}, 0, len(x))
		for _, e := range x {
			l = append(l, plainDoc(e))
		}
		return l
	case json.Number:
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			return string(x)
		}
		return f
	}
	return v
}

func TestC12_Documents(t *testing.T) {
	vh.Check(t, vh.N(800, 10000), "random read and meta answers; non-trivial: at least one envelope or source",
		func(rt *rapid.T, c *vh.Case) {
			var u string
			want := obj{}
			if rapid.Bool().Draw(rt, "meta") {
				mi := map[string]*logcache_v1.MetaInfo{}
				doc := obj{}
				for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "sources"); i < n; i++ {
					s := textGen.Draw(rt, "source")
					mi[s] = &logcache_v1.MetaInfo{
						Count: int64Gen.Draw(rt, "count"), Expired: int64Gen.Draw(rt, "expired"),
						OldestTimestamp: int64Gen.Draw(rt, "oldest"), NewestTimestamp: int64Gen.Draw(rt, "newest"),
					}
					doc[s] = obj{"count": num(mi[s].Count), "expired": num(mi[s].Expired),
						"oldest_timestamp": num(mi[s].OldestTimestamp), "newest_timestamp": num(mi[s].NewestTimestamp)}
				}
				want["meta"] = doc
				u = "/api/v1/meta"
				c.If(len(mi) > 0, fmt.Sprint(doc))
				theBackend.reset(func(b *backend) { b.meta = &logcache_v1.MetaResponse{Meta: mi} })
			} else {
				es := rapid.SliceOfN(envelopeGen, 0, 3).Draw(rt, "envelopes")
				docs := make([]interface{}, 0)
				for _, e := range es {
					docs = append(docs, envelopeDoc(e))
				}
				want["envelopes"] = obj{"batch": docs}
				u = "/api/v1/read/a"
				c.If(len(es) > 0, fmt.Sprint(docs))
				theBackend.reset(func(b *backend) {
					b.read = &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: es}}
				})
			}
			st, h, body := get(rt, gwAddr+u)
			if st != 200 || !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
				rt.Fatalf("status %d, %v, %s", st, h, body)
			}
			m, err := oneDocument(body)
			if err != nil {
				rt.Fatalf("%s", err)
			}
			if got := plainDoc(m); !reflect.DeepEqual(got, want) {
				rt.Fatalf("document\n%v\nwant\n%v", got, want)
			}
		})
}

func TestC12_QueryDocuments(t *testing.T) {
	vh.Check(t, vh.N(500, 6000), "random query results; non-trivial: at least one sample",
		func(rt *rapid.T, c *vh.Case) {
			q := query{ranged: rapid.Bool().Draw(rt, "range")}
			sent, set := q.drawAnswer(rt)
			c.If(len(sent.rows) > 0, sent.String())
			theBackend.reset(set)
			u := gwAddr + "/api/v1/query?query=a"
			if q.ranged {
				u = gwAddr + "/api/v1/query_range?query=a"
			}
			st, h, body := get(rt, u)
			if st != 200 || !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
				rt.Fatalf("status %d, %v, %s", st, h, body)
			}
			if _, err := oneDocument(body); err != nil {
				rt.Fatalf("%s", err)
			}
			var d struct {
				Status string
				Data   struct {
					ResultType string
					Result     json.RawMessage
				}
			}
			if err := json.Unmarshal([]byte(body), &d); err != nil || d.Status != "success" || d.Data.ResultType != sent.kind {
				rt.Fatalf("body %s for %s: %v", body, sent, err)
			}
			r, err := parseRaw(sent.kind, d.Data.Result)
			if err != nil {
				rt.Fatalf("body %s: %s", body, err)
			}
			if err := r.same(sent, true); err != nil {
				rt.Fatalf("body %s: %s", body, err)
			}
		})
}
