package cluster_test

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"math"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator"
	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/internal/nozzle"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
)

// front is a gateway before the node that is current.
type front struct {
	api     *client.Client
	current atomic.Value
}

var (
	theFront front
	frontUp  sync.Once
)

// before puts the gateway before a node.
func before(n *node) *client.Client {
	theFront.current.Store(n.addr)
	frontUp.Do(func() {
		dir, err := os.MkdirTemp("", "verif-front")
		vh.Must(err)
		defer os.RemoveAll(dir)
		ca := vh.NewCA("front")
		cert, key := ca.Issue([]string{"gateway"}).Write(dir, "gw")
		g := gateway.NewGateway("cache:1", "127.0.0.1:0", cert, key,
			gateway.WithGatewayVersion("2.7.0"),
			gateway.WithGatewayVMUptimeFn(func() int64 { return 1 }),
			gateway.WithGatewayLogCacheDialOpts(
				grpc.WithInsecure(),
				grpc.WithBackoffMaxDelay(50*time.Millisecond),
				grpc.WithDialer(func(_ string, d time.Duration) (net.Conn, error) {
					return net.DialTimeout("tcp", theFront.current.Load().(string), d)
				}),
			))
		g.Start()
		h := &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: ca.Pool()}}}
		if d := until(20*time.Second, func() string {
			r, err := h.Get("https://" + g.Addr() + "/api/v1/info")
			if err != nil {
				return err.Error()
			}
			r.Body.Close()
			return ""
		}); d != "" {
			vh.Harness("gateway: %s", d)
		}
		theFront.api = client.NewClient("https://"+g.Addr(), client.WithHTTPClient(h))
	})
	if d := until(20*time.Second, func() string {
		_, err := theFront.api.Read(ctx(), "nobody", time.Unix(0, 0))
		if err != nil {
			return err.Error()
		}
		return ""
	}); d != "" {
		vh.Harness("gateway before %s: %s", n.addr, d)
	}
	return theFront.api
}

func long() context.Context {
	c, _ := context.WithTimeout(context.Background(), 60*time.Second)
	return c
}

// stream delivers batches to a nozzle.
type stream chan []*loggregator_v2.Envelope

func (s stream) Stream(context.Context, *loggregator_v2.EgressBatchRequest) loggregator.EnvelopeStream {
	return func() []*loggregator_v2.Envelope { return <-s }
}

// even gives each node of a cluster its share of the hashes.
func (cl *cluster) even(rt *rapid.T, addrs []string) (owner func(string) *node) {
	part := math.MaxUint64/uint64(len(addrs)) + 1
	req := &logcache_v1.SetRangesRequest{Ranges: map[string]*logcache_v1.Ranges{}}
	for i, a := range addrs {
		r := &logcache_v1.Range{Start: uint64(i) * part, End: uint64(i+1)*part - 1}
		if i == len(addrs)-1 {
			r.End = math.MaxUint64
		}
		req.Ranges[a] = &logcache_v1.Ranges{Ranges: []*logcache_v1.Range{r}}
	}
	for _, n := range cl.nodes {
		if _, err := n.orch.SetRanges(ctx(), req); err != nil {
			rt.Fatalf("set ranges: %s", err)
		}
	}
	if len(addrs) == 1 {
		return func(string) *node { return cl.nodes[0] }
	}
	return func(id string) *node { return cl.nodes[hash(id)/part] }
}

// sized is a log envelope of about so many bytes, unlike any other.
func sized(id string, ts int64, size int) *loggregator_v2.Envelope {
	p := []byte(fmt.Sprintf("%d ", ts))
	if len(p) < size {
		p = append(p, bytes.Repeat([]byte{'a' + byte(ts%26)}, size-len(p))...)
	}
	return vh.Log(id, ts, string(p))
}

// same says where two lists of envelopes differ, in few words.
func same(got, want []*loggregator_v2.Envelope) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d envelopes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i].Timestamp != want[i].Timestamp || got[i].SourceId != want[i].SourceId || !bytes.Equal(got[i].GetLog().GetPayload(), want[i].GetLog().GetPayload()) {
			return fmt.Sprintf("envelope %d is of %d with %d bytes, want %d with %d", i, got[i].Timestamp, len(got[i].GetLog().GetPayload()), want[i].Timestamp, len(want[i].GetLog().GetPayload()))
		}
	}
	return ""
}

func newCluster(rt *rapid.T, most int, opts ...cache.LogCacheOption) (*cluster, func(string) *node, func()) {
	var addrs []string
	for i := rapid.IntRange(1, 3).Draw(rt, "nodes"); i > 0; i-- {
		addrs = append(addrs, address())
	}
	cl := &cluster{}
	for i := range addrs {
		cl.nodes = append(cl.nodes, start(addrs, i, append([]cache.LogCacheOption{cache.WithMaxPerSource(most)}, opts...)...))
	}
	stop := func() {
		for _, n := range cl.nodes {
			n.stop()
		}
	}
	cl.meet(rt)
	return cl, cl.even(rt, addrs), stop
}

// TestC47_Envelopes: requests and answers of many megabytes.
func TestC47_Envelopes(t *testing.T) {
	vh.Check(t, vh.N(8, 200), "a batch or an answer of more than 4 MB", func(rt *rapid.T, c *vh.Case) {
		cl, owner, stop := newCluster(rt, 1000)
		defer stop()
		h := holdings{}
		at := int64(1)
		budget := 64 << 20
		biggest := 0
		way := rapid.SampledFrom([]string{"nozzle", "send", "send"}).Draw(rt, "way")
		// several sources, one of them large
		var all []*loggregator_v2.Envelope
		for s := rapid.IntRange(1, 4).Draw(rt, "sources"); s > 0; s-- {
			id := fmt.Sprintf("%s-%d", idGen.Draw(rt, "id"), s)
			size := rapid.SampledFrom([]int{61440, 61440, 65000, 20000, 4200, 100}).Draw(rt, "size")
			count := rapid.SampledFrom([]int{1, 60, 99, 150, 512, 1000}).Draw(rt, "count")
			// the nozzle gives a batch up after three seconds, so that a great
			// one asks for a fast machine
			if way == "nozzle" && count > 150 {
				count = 150
			}
			if count*size > budget {
				count = budget / size
			}
			budget -= count * size
			for k := 0; k < count; k++ {
				e := sized(id, at, size)
				at++
				h[id] = append(h[id], e)
				all = append(all, e)
			}
			if x := count * size; x > biggest {
				biggest = x
			}
		}
		n := rapid.SampledFrom(cl.nodes).Draw(rt, "entry")
		step := rapid.SampledFrom([]int{100, 512}).Draw(rt, "batch")
		if way == "nozzle" {
			s := make(stream)
			go nozzle.NewNozzle(s, n.addr, "shard", testhelpers.NewMetricsRegistry(), quiet).Start()
			for rest := all; len(rest) > 0; {
				k := len(rest)
				if k > step {
					k = step
				}
				select {
				case s <- rest[:k]:
				case <-time.After(20 * time.Second):
					rt.Fatalf("the nozzle takes no more")
				}
				rest = rest[k:]
			}
		} else {
			for rest := all; len(rest) > 0; {
				k := len(rest)
				if k > step {
					k = step
				}
				b := rest[:k]
				if _, err := n.in.Send(long(), &logcache_v1.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: b}}); err != nil {
					rt.Fatalf("a node does not take %d envelopes, the first of %d bytes: %s", k, len(vh.Payload(b[0])), err)
				}
				rest = rest[k:]
			}
		}
		gw := rapid.SampledFrom(cl.nodes).Draw(rt, "gateway")
		web := before(gw)
		for id, want := range h {
			total := 0
			for _, e := range want {
				total += len(vh.Payload(e))
			}
			what := fmt.Sprintf("%d envelopes of %d bytes by %s to a node in batches of %d, owner %v", len(want), total, way, step, n == owner(id))
			for i, n := range cl.nodes {
				for _, most := range []int{1000, 100} {
					w := want
					if len(w) > most {
						w = w[:most]
					}
					read := func(a *client.Client) string {
						es, err := a.Read(long(), id, time.Unix(0, 0), client.WithLimit(most))
						if err != nil {
							return err.Error()
						}
						return same(es, w)
					}
					if d := until(25*time.Second, func() string { return read(n.api) }); d != "" {
						rt.Fatalf("%s: read of %d: node %d: %s", what, most, i, d)
					}
					if n == gw {
						if d := read(web); d != "" {
							rt.Fatalf("%s: read of %d through the gateway: %s", what, most, d)
						}
					}
				}
			}
			// a walk gets past them too
			var got []*loggregator_v2.Envelope
			client.Walk(long(), id, func(es []*loggregator_v2.Envelope) bool {
				got = append(got, es...)
				return len(got) < len(want)
			}, gw.api.Read, client.WithWalkStartTime(time.Unix(0, 0)), client.WithWalkBackoff(client.NewRetryBackoff(50*time.Millisecond, 5)))
			if d := same(got, want); d != "" {
				rt.Fatalf("%s: a walk gives %s", what, d)
			}
		}
		c.Class(way)
		c.Class(fmt.Sprintf("%d nodes", len(cl.nodes)))
		c.If(biggest > 4<<20, fmt.Sprint(len(cl.nodes), way, step, biggest, len(all), vh.Keys(h)))
	})
}

// TestC47_Answers: meta of many sources, and queries with many points.
func TestC47_Answers(t *testing.T) {
	vh.Check(t, vh.N(3, 60), "an answer of more than 4 MB", func(rt *rapid.T, c *vh.Case) {
		cl, owner, stop := newCluster(rt, 100000, cache.WithQueryTimeout(60*time.Second))
		defer stop()
		prefix := strings.Repeat(rapid.StringMatching("[a-z]").Draw(rt, "prefix"), rapid.IntRange(30, 200).Draw(rt, "length"))
		sources := 6 << 20 / (len(prefix) + 20)
		batches := map[*node][]*loggregator_v2.Envelope{}
		send := func(n *node) {
			if _, err := n.in.Send(long(), &logcache_v1.SendRequest{LocalOnly: true, Envelopes: &loggregator_v2.EnvelopeBatch{Batch: batches[n]}}); err != nil {
				rt.Fatalf("send: %s", err)
			}
			batches[n] = nil
		}
		put := func(e *loggregator_v2.Envelope) {
			n := owner(e.SourceId)
			if batches[n] = append(batches[n], e); len(batches[n]) >= 500 {
				send(n)
			}
		}
		for i := 0; i < sources; i++ {
			put(vh.Log(fmt.Sprintf("%s%d", prefix, i), int64(i+1), ""))
		}
		series := rapid.IntRange(200, 400).Draw(rt, "series")
		for ts := int64(0); ts < 1000; ts += 200 {
			for k := 0; k < series; k++ {
				put(&loggregator_v2.Envelope{
					SourceId: "many", Timestamp: ts*1e9 + 1, Tags: map[string]string{"k": fmt.Sprintf("%s%d", prefix, k)},
					Message: &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{
						"cpu": {Value: float64(ts) + float64(k)},
					}}},
				})
			}
		}
		for n := range batches {
			send(n)
		}
		gw := rapid.SampledFrom(cl.nodes).Draw(rt, "gateway")
		web := before(gw)
		apis := map[string]*client.Client{"the gateway": web}
		for i, n := range cl.nodes {
			apis[fmt.Sprintf("node %d", i)] = n.api
		}
		for name, a := range apis {
			m, err := a.Meta(long())
			if err != nil {
				rt.Fatalf("meta of %d sources by %s: %s", sources, name, err)
			}
			for i := 0; i < sources; i++ {
				x := m[fmt.Sprintf("%s%d", prefix, i)]
				if x == nil || x.Count != 1 || x.OldestTimestamp != int64(i+1) {
					rt.Fatalf("meta of %d sources by %s: source %d has %v", sources, name, i, x)
				}
			}
			if x := m["many"]; x == nil || x.Count != int64(5*series) {
				rt.Fatalf("meta by %s: %v of %d", name, x, 5*series)
			}
			r, err := a.PromQLRange(long(), `cpu{source_id="many"}`, client.WithPromQLStart(time.Unix(1, 0)), client.WithPromQLEnd(time.Unix(1000, 0)), client.WithPromQLStep("1s"))
			if err != nil {
				rt.Fatalf("query of %d series by %s: %s", series, name, err)
			}
			ss := r.GetMatrix().GetSeries()
			if len(ss) != series {
				rt.Fatalf("query of %d series by %s: %d series", series, name, len(ss))
			}
			for _, s := range ss {
				var k int
				if _, err := fmt.Sscanf(strings.TrimPrefix(s.Metric["k"], prefix), "%d", &k); err != nil {
					rt.Fatalf("query of %d series by %s: series of %q", series, name, s.Metric)
				}
				if len(s.Points) != 1000 {
					rt.Fatalf("query of %d series by %s: %d points", series, name, len(s.Points))
				}
				// the points are at 1 to 1000, and the samples every 200
				// from 0 on, each in the millisecond of its time
				for i, p := range s.Points {
					if want := float64(min((i+1)/200*200, 800) + k); p.Value != want {
						rt.Fatalf("query of %d series by %s: series %d is %v at %s, want %v", series, name, k, p.Value, p.Time, want)
					}
				}
			}
		}
		c.Class(fmt.Sprintf("%d nodes", len(cl.nodes)))
		c.NonTrivial(fmt.Sprint(len(cl.nodes), sources, series, len(prefix)))
	})
}
