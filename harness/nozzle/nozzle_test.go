package nozzle_test

import (
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"code.cloudfoundry.org/go-loggregator"
	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/nozzle"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

var quiet = log.New(io.Discard, "", 0)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// provider delivers a stream.
type provider struct {
	mu  sync.Mutex
	req []*loggregator_v2.EgressBatchRequest
	ch  chan []*loggregator_v2.Envelope
}

func (p *provider) Stream(_ context.Context, r *loggregator_v2.EgressBatchRequest) loggregator.EnvelopeStream {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.req = append(p.req, r)
	return func() []*loggregator_v2.Envelope { return <-p.ch }
}

// arrival is an envelope in a request.
type arrival struct {
	at    time.Time
	text  string
	acked bool
}

// cache answers requests, in one way or another.
type cache struct {
	mu       sync.Mutex
	fails    string
	slow     time.Duration
	got      map[string][]*arrival
	sizes    []int
	ordered  bool
	pending  int
	failures int
	bad      string
}

func (c *cache) call(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, _ grpc.UnaryInvoker, _ ...grpc.CallOption) error {
	c.mu.Lock()
	fails, slow := c.fails, c.slow
	c.pending++
	began := time.Now()
	c.mu.Unlock()
	defer func() {
		c.mu.Lock()
		c.pending--
		c.mu.Unlock()
	}()
	var err error
	switch fails {
	case "hangs":
		// a request that is never sent
		<-ctx.Done()
		c.mu.Lock()
		defer c.mu.Unlock()
		c.failures++
		if d := time.Since(began); d > 10*time.Second {
			c.bad = fmt.Sprintf("a request waited %s", d)
		}
		c.take(req, false)
		return status.FromContextError(ctx.Err()).Err()
	case "down":
		err = status.Error(codes.Unavailable, "no connection")
	case "lost":
		err = status.Error(codes.Unavailable, "connection reset")
	}
	if ctx.Err() != nil {
		err = status.FromContextError(ctx.Err()).Err()
	}
	if slow > 0 {
		select {
		case <-time.After(slow):
		case <-ctx.Done():
			err = status.FromContextError(ctx.Err()).Err()
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil {
		c.failures++
	}
	if !strings.HasSuffix(method, "Ingress/Send") {
		c.bad = "asked for " + method
	}
	c.take(req, err == nil)
	return err
}

func (c *cache) take(req interface{}, acked bool) {
	r := req.(*logcache_v1.SendRequest)
	if r.LocalOnly {
		c.bad = "a request for the local node only"
	}
	l := r.GetEnvelopes().GetBatch()
	c.sizes = append(c.sizes, len(l))
	last := int64(-1)
	for _, e := range l {
		c.got[e.SourceId] = append(c.got[e.SourceId], &arrival{time.Now(), vh.Str(e), acked})
		if e.Timestamp < last {
			c.bad = "the order within a batch is not that of the stream"
		}
		last = e.Timestamp
	}
}

func start(c *cache, p *provider, shard string, selectors []string, set bool) *testhelpers.SpyMetricsRegistry {
	m := testhelpers.NewMetricsRegistry()
	opts := []nozzle.NozzleOption{nozzle.WithDialOpts(grpc.WithInsecure(), grpc.WithUnaryInterceptor(c.call),
		grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { <-ctx.Done(); return nil, ctx.Err() }))}
	if set {
		opts = append(opts, nozzle.WithSelectors(selectors...))
	}
	n := nozzle.NewNozzle(p, "cache:8080", shard, m, quiet, opts...)
	go n.Start()
	return m
}

// only drops the error that there are goroutines which never end.
func only(err error) error {
	if err != nil && strings.Contains(err.Error(), "blocked goroutines remain") {
		return nil
	}
	return err
}

func oneIn(rt *rapid.T, n int, l string) bool { return rapid.IntRange(0, n-1).Draw(rt, l) == n-1 }

var kinds = map[string]func(*loggregator_v2.Selector) bool{
	"log":     func(s *loggregator_v2.Selector) bool { return s.GetLog() != nil },
	"gauge":   func(s *loggregator_v2.Selector) bool { return s.GetGauge() != nil && len(s.GetGauge().GetNames()) == 0 },
	"counter": func(s *loggregator_v2.Selector) bool { return s.GetCounter() != nil && s.GetCounter().GetName() == "" },
	"timer":   func(s *loggregator_v2.Selector) bool { return s.GetTimer() != nil },
	"event":   func(s *loggregator_v2.Selector) bool { return s.GetEvent() != nil },
}

func TestC29_Stream(t *testing.T) {
	vh.Check(t, vh.N(150, 4000), "more than one batch, or requests that fail or take their time", func(rt *rapid.T, c *vh.Case) {
		p := &provider{}
		ca := &cache{got: map[string][]*arrival{}}
		shard := rapid.SampledFrom([]string{"log-cache", "", "shard-2"}).Draw(rt, "shard")
		var selectors []string
		for n := rapid.IntRange(0, 6).Draw(rt, "selectors"); n > 0; n-- {
			selectors = append(selectors, rapid.SampledFrom(vh.Keys(kinds)).Draw(rt, "selector"))
		}
		set := len(selectors) > 0 || rapid.Bool().Draw(rt, "set")
		type sent struct {
			at      time.Time
			text    string
			trouble bool
		}
		all := map[string]sent{}
		var order []string
		total, troubles := 0, 0
		err := vh.Bubble(t, func() {
			p.ch = make(chan []*loggregator_v2.Envelope)
			m := start(ca, p, shard, selectors, set)
			synctest.Wait()
			p.mu.Lock()
			if len(p.req) != 1 {
				vh.Fail("%d streams", len(p.req))
			}
			r := p.req[0]
			p.mu.Unlock()
			if r.ShardId != shard || !r.UsePreferredTags || len(r.Selectors) != len(selectors) {
				vh.Fail("asks for %s, want shard %q and %v", vh.Str(r), shard, selectors)
			}
			for i, k := range selectors {
				if s := r.Selectors[i]; s.GetSourceId() != "" || !kinds[k](s) {
					vh.Fail("asks for %s, want shard %q and %v", vh.Str(r), shard, selectors)
				}
			}
			for step := rapid.IntRange(1, 12).Draw(rt, "steps"); step > 0; step-- {
				switch rapid.IntRange(0, 6).Draw(rt, "step") {
				case 0:
					fails := rapid.SampledFrom([]string{"", "", "down", "lost", "hangs"}).Draw(rt, "fails")
					var slow time.Duration
					if oneIn(rt, 2, "slow") {
						slow = time.Duration(rapid.IntRange(1, 2900).Draw(rt, "ms")) * time.Millisecond
					}
					ca.mu.Lock()
					ca.fails, ca.slow = fails, slow
					troubles++
					ca.mu.Unlock()
				case 1, 2:
					time.Sleep(time.Duration(rapid.IntRange(0, 5000).Draw(rt, "ms")) * time.Millisecond)
				default:
					n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 600), rapid.SampledFrom([]int{510, 511, 512, 513, 1024, 1500, 2049})).Draw(rt, "envelopes")
					e := vh.Env(rt, rapid.SampledFrom(vh.Keys(kinds)).Draw(rt, "type"), "", 0)
					if _, ok := e.Message.(*loggregator_v2.Envelope_Gauge); ok && oneIn(rt, 3, "no message") {
						e.Message = nil
					}
					var batch []*loggregator_v2.Envelope
					for i := 0; i < n; i++ {
						x := *e
						x.SourceId, x.Timestamp = fmt.Sprintf("id-%d", total), int64(total)
						total++
						batch = append(batch, &x)
						ca.mu.Lock()
						all[x.SourceId] = sent{time.Now(), vh.Str(&x), ca.fails != "" || ca.slow > 0}
						ca.mu.Unlock()
						order = append(order, x.SourceId)
					}
					p.ch <- batch
				}
			}
			// all is well in the end, and one more arrives
			time.Sleep(4 * time.Second)
			ca.mu.Lock()
			ca.fails, ca.slow = "", 0
			ca.mu.Unlock()
			time.Sleep(4 * time.Second)
			last := vh.Log("last", int64(total), "x")
			all["last"] = sent{time.Now(), vh.Str(last), false}
			p.ch <- []*loggregator_v2.Envelope{last}
			total++
			time.Sleep(4 * time.Second)
			synctest.Wait()
			ca.mu.Lock()
			defer ca.mu.Unlock()
			if ca.bad != "" {
				vh.Fail("%s", ca.bad)
			}
			if ca.pending > 0 {
				vh.Fail("%d requests are left open", ca.pending)
			}
			acked := 0
			for id, s := range all {
				a := ca.got[id]
				if len(a) != 1 {
					vh.Fail("%s was in %d requests", s.text, len(a))
				}
				if a[0].text != s.text {
					vh.Fail("%s became %s", s.text, a[0].text)
				}
				if a[0].acked {
					acked++
				}
				if d := a[0].at.Sub(s.at); !s.trouble && troubles == 0 && d > 1500*time.Millisecond {
					vh.Fail("%s took %s", s.text, d)
				}
			}
			if len(ca.got) != len(all) {
				vh.Fail("%d sources arrived, want %d", len(ca.got), len(all))
			}
			for _, n := range ca.sizes {
				if n == 0 || n > 512 {
					vh.Fail("a request of %d", n)
				}
			}
			for k, want := range map[string]int{"nozzle_ingress": total, "nozzle_egress": acked, "nozzle_err": ca.failures} {
				if n := m.GetMetricValue(k, nil); n != float64(want) {
					vh.Fail("%s is %v, want %d", k, n, want)
				}
			}
		})
		if err := only(err); err != nil {
			rt.Fatalf("%d envelopes, requests of %v: %s", total, ca.sizes, err)
		}
		c.ClassIf(ca.failures > 0, "failures")
		c.ClassIf(total > 512, "full batches")
		c.If(len(ca.sizes) > 1 || troubles > 0, fmt.Sprint(ca.sizes, ca.failures, selectors))
	})
}

// Overload: the cache hangs until no more can be kept. What is lost then is
// lost, but nothing is sent twice or late, and it goes on when the cache does.
func TestC29_Overload(t *testing.T) {
	vh.Check(t, vh.N(3, 60), "envelopes are lost for want of room", func(rt *rapid.T, c *vh.Case) {
		p := &provider{}
		ca := &cache{got: map[string][]*arrival{}, fails: "hangs"}
		piece := rapid.IntRange(5000, 120000).Draw(rt, "piece")
		pieces := 500000/piece + rapid.IntRange(0, 3).Draw(rt, "more")
		gap := time.Duration(rapid.IntRange(0, 300).Draw(rt, "gap")) * time.Millisecond
		total, later := 0, 0
		err := vh.Bubble(t, func() {
			p.ch = make(chan []*loggregator_v2.Envelope)
			m := start(ca, p, "shard", nil, false)
			send := func(n int) {
				var batch []*loggregator_v2.Envelope
				for i := 0; i < n; i++ {
					batch = append(batch, &loggregator_v2.Envelope{SourceId: fmt.Sprint(total), Timestamp: int64(total)})
					total++
				}
				p.ch <- batch
			}
			for i := 0; i < pieces; i++ {
				send(piece)
				time.Sleep(gap)
			}
			synctest.Wait()
			ca.mu.Lock()
			ca.fails = ""
			ca.mu.Unlock()
			time.Sleep(time.Minute)
			later = total
			for i := 0; i < 3; i++ {
				send(1000)
				time.Sleep(time.Second)
			}
			time.Sleep(4 * time.Second)
			ca.mu.Lock()
			defer ca.mu.Unlock()
			acked := 0
			for id, a := range ca.got {
				if len(a) != 1 {
					vh.Fail("%s was in %d requests", id, len(a))
				}
				if a[0].acked {
					acked++
				}
			}
			for i := later; i < total; i++ {
				if len(ca.got[fmt.Sprint(i)]) != 1 {
					vh.Fail("%d is lost, with room for it", i)
				}
			}
			for _, n := range ca.sizes {
				if n == 0 || n > 512 {
					vh.Fail("a request of %d", n)
				}
			}
			if ca.bad != "" {
				vh.Fail("%s", ca.bad)
			}
			if n := m.GetMetricValue("nozzle_egress", nil); n != float64(acked) {
				vh.Fail("nozzle_egress is %v, want %d", n, acked)
			}
			if n := m.GetMetricValue("nozzle_ingress", nil); n != float64(total) {
				vh.Fail("nozzle_ingress is %v, want %d", n, total)
			}
		})
		if err := only(err); err != nil {
			rt.Fatalf("%d pieces of %d: %s", pieces, piece, err)
		}
		c.If(len(ca.got) < total, fmt.Sprint(piece, pieces, gap))
	})
}
