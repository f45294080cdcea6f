package blackbox_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net/url"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/blackbox"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var quiet = log.New(io.Discard, "", 0)

var sourceGen = rapid.SampledFrom([]string{"blackbox", "7e3c1a52-4b1a-4f5f-9d5e-0c0f3b6a2f11", "my.source_1", "a b"})

// asked is one query that the calculator made.
type asked struct {
	query string
	opts  url.Values
	now   time.Time
	ok    bool
}

type queryable struct {
	asked  []asked
	answer *logcache_v1.PromQL_InstantQueryResult
	err    error
	delay  time.Duration
	uptime func() (int64, error)
	asks   int
}

// usable tells whether calls may be made with the context, and will end.
func usable(ctx context.Context) bool {
	d, ok := ctx.Deadline()
	return ctx.Err() == nil && ok && time.Until(d) > 0
}

func (q *queryable) PromQL(ctx context.Context, query string, opts ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
	v := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, v)
	}
	q.asked = append(q.asked, asked{query, v, time.Now(), usable(ctx)})
	time.Sleep(q.delay)
	return q.answer, q.err
}

func (q *queryable) LogCacheVMUptime(context.Context) (int64, error) {
	q.asks++
	return q.uptime()
}

var selector = regexp.MustCompile(`^\s*([a-zA-Z_:][a-zA-Z0-9_:]*)\s*\{\s*source_id\s*=\s*"([^"\\]*)"\s*,?\s*\}\s*\[\s*(\d+)([smhd])\s*\]\s*$`)

func (a asked) check(source string, window time.Duration, at time.Time) error {
	if !a.ok {
		return errors.New("the query's context is done or has no end")
	}
	m := selector.FindStringSubmatch(a.query)
	if m == nil {
		return fmt.Errorf("query %q", a.query)
	}
	n, _ := strconv.ParseInt(m[3], 10, 64)
	w := time.Duration(n) * map[string]time.Duration{"s": time.Second, "m": time.Minute, "h": time.Hour, "d": 24 * time.Hour}[m[4]]
	if m[1] != "blackbox_test_metric" || m[2] != source || w != window {
		return fmt.Errorf("query %q, want the test metric of %q over %s", a.query, source, window)
	}
	ms := at.UnixNano() / 1e6
	if want := fmt.Sprintf("%d.%03d", ms/1000, ms%1000); len(a.opts) != 1 || a.opts.Get("time") != want {
		return fmt.Errorf("query at %v, want time %s", a.opts, want)
	}
	return nil
}

func TestC13_Reliability(t *testing.T) {
	vh.Check(t, vh.N(4000, 60000), "random intervals, answer and moment; non-trivial: there are points, or the query fails",
		func(rt *rapid.T, c *vh.Case) {
			source := sourceGen.Draw(rt, "source")
			window := time.Duration(rapid.OneOf(rapid.IntRange(1, 120), rapid.SampledFrom([]int{600, 7, 14, 17, 3600, 300})).Draw(rt, "window")) * time.Second
			// An emission interval that fits into the window, most often a
			// whole number of times.
			emission := time.Duration(rapid.SampledFrom([]int64{1, 10, 35, 70, 100, 140, 250, 280, 300, 333, 700, 999, 1000, 1500, 7000, 15000}).Draw(rt, "emission")) * time.Millisecond
			if k := rapid.IntRange(1, 50).Draw(rt, "share"); rapid.Bool().Draw(rt, "divides") && window%(time.Duration(k)*time.Millisecond) == 0 {
				emission = window / time.Duration(k)
			}
			if emission > window {
				emission = window
			}
			sample := time.Duration(rapid.SampledFrom([]int64{1, 500, 1000, 7000, 15000, 60000, 300000}).Draw(rt, "sample")) * time.Millisecond
			lag := time.Duration(rapid.Int64Range(0, 900000).Draw(rt, "lag")) * time.Millisecond
			phase := time.Duration(rapid.Int64Range(0, 1e12).Draw(rt, "phase"))
			expected := int64(window / emission)
			q := &queryable{delay: time.Duration(rapid.IntRange(0, 3000).Draw(rt, "delay")) * time.Millisecond}
			wantErr := true
			n := 0
			switch kind := rapid.SampledFrom([]string{"points", "points", "points", "error", "no series", "vector", "empty"}).Draw(rt, "answer"); kind {
			case "points":
				wantErr = false
				n = int(rapid.OneOf(rapid.Int64Range(0, expected), rapid.Just(expected), rapid.Int64Range(0, expected+3)).Draw(rt, "points"))
				if n > 5000 {
					n = 5000
				}
				s := &logcache_v1.PromQL_Series{Metric: map[string]string{"source_id": source}}
				for i := 0; i < n; i++ {
					s.Points = append(s.Points, &logcache_v1.PromQL_Point{Time: strconv.Itoa(946684800 + i), Value: 10})
				}
				q.answer = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{
					Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{s}}}}
			case "error":
				q.err = errors.New("no answer")
			case "no series":
				q.answer = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}
			case "vector":
				q.answer = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{
					Samples: []*logcache_v1.PromQL_Sample{{Point: &logcache_v1.PromQL_Point{Time: "1", Value: 1}}}}}}
			case "empty":
				q.answer = &logcache_v1.PromQL_InstantQueryResult{}
			}
			c.If(wantErr || n > 0, fmt.Sprintf("window %s emission %s sample %s lag %s phase %s -> %d points, err %v", window, emission, sample, lag, phase, n, q.err))
			var got float64
			var err error
			var at time.Time
			if p := vh.Bubble(t, func() {
				time.Sleep(phase)
				at = time.Now().Add(-lag).Truncate(sample)
				rc := blackbox.ReliabilityCalculator{
					SampleInterval: sample, WindowInterval: window, WindowLag: lag, EmissionInterval: emission,
					SourceId: source, InfoLogger: quiet, ErrorLogger: quiet,
				}
				got, err = rc.Calculate(q)
				// The calculator leaves its timeout's timer behind.
				time.Sleep(11 * time.Second)
			}); p != nil {
				rt.Fatalf("%s", p)
			}
			if len(q.asked) != 1 {
				rt.Fatalf("%d queries", len(q.asked))
			}
			if e := q.asked[0].check(source, window, at); e != nil {
				rt.Fatalf("%s", e)
			}
			if (err != nil) != wantErr {
				rt.Fatalf("reliability %v, error %v", got, err)
			}
			if want := float64(n) / float64(expected); !wantErr && got != want {
				rt.Fatalf("reliability %v, want %d/%d = %v", got, n, expected, want)
			}
		})
}

// ---------------------------------------------------------------- C14

type sendCall struct {
	at  time.Time
	req *logcache_v1.SendRequest
	ok  bool
}

// ingress answers sends by script and ends the goroutine that asks for more
// than it may, the emitter having no other end.
type ingress struct {
	calls []sendCall
	fails func(i int) bool
	delay func(i int) time.Duration
	until time.Time
}

func (s *ingress) Send(ctx context.Context, r *logcache_v1.SendRequest, _ ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	if !s.until.IsZero() && !time.Now().Before(s.until) {
		runtime.Goexit()
	}
	i := len(s.calls)
	s.calls = append(s.calls, sendCall{time.Now(), proto.Clone(r).(*logcache_v1.SendRequest), usable(ctx)})
	if s.delay != nil {
		time.Sleep(s.delay(i))
	}
	if s.fails != nil && s.fails(i) {
		return nil, errors.New("not now")
	}
	return &logcache_v1.SendResponse{}, nil
}

func TestC14_Emission(t *testing.T) {
	vh.Check(t, vh.N(1500, 20000), "random interval, phase, and send failures; non-trivial: a send fails",
		func(rt *rapid.T, c *vh.Case) {
			source := sourceGen.Draw(rt, "source")
			interval := time.Duration(rapid.OneOf(rapid.Int64Range(300, 20000), rapid.SampledFrom([]int64{1000, 15000, 60000, 250, 700})).Draw(rt, "interval")) * time.Millisecond
			phase := time.Duration(rapid.Int64Range(0, 1e11).Draw(rt, "phase"))
			rounds := rapid.IntRange(1, 6).Draw(rt, "rounds")
			fails := make([]int, rounds) // how many sends of a round fail
			total := 0
			for i := range fails {
				fails[i] = rapid.SampledFrom([]int{0, 0, 1, 2, 4, 5, 6}).Draw(rt, "failures")
				total += fails[i]
			}
			slow := time.Duration(rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(rt, "slow")) * time.Millisecond
			c.If(total > 0, fmt.Sprintf("every %s from +%s, failures %v, %s each", interval, phase, fails, slow))
			var start time.Time
			var s *ingress
			if p := vh.Bubble(t, func() {
				time.Sleep(phase)
				start = time.Now()
				left := append([]int{}, fails...)
				round := func() int {
					k := int(time.Since(start)/interval) - 1
					return k
				}
				s = &ingress{
					until: start.Add(interval * time.Duration(rounds+1)),
					delay: func(int) time.Duration { return slow },
					fails: func(int) bool {
						k := round()
						if k < 0 || k >= rounds {
							return false
						}
						left[k]--
						return left[k] >= 0
					},
				}
				go blackbox.StartEmittingTestMetrics(source, interval, s)
				time.Sleep(interval*time.Duration(rounds+2) + 11*time.Second)
			}); p != nil {
				rt.Fatalf("%s", p)
			}
			i := 0
			for k := 0; k < rounds; k++ {
				tick := start.Add(interval * time.Duration(k+1))
				want := fails[k] + 1
				if want > 5 {
					want = 5
				}
				for j := 0; j < want; j++ {
					if i >= len(s.calls) {
						rt.Fatalf("round %d: %d sends, want %d", k, j, want)
					}
					call := s.calls[i]
					i++
					if j == 0 && !call.at.Equal(tick) || call.at.Before(tick) || !call.at.Before(tick.Add(interval)) {
						rt.Fatalf("round %d: send %d at +%s, want one at +%s", k, j, call.at.Sub(start), tick.Sub(start))
					}
					if !call.ok {
						rt.Fatalf("round %d: send %d's context is done or has no end", k, j)
					}
					b := call.req.GetEnvelopes().GetBatch()
					if len(b) != 1 || b[0].SourceId != source || len(b[0].GetGauge().GetMetrics()) != 1 ||
						!proto.Equal(b[0].GetGauge().GetMetrics()["blackbox_test_metric"], &loggregator_v2.GaugeValue{Unit: "ms", Value: 10}) {
						rt.Fatalf("round %d: sent %v", k, call.req)
					}
					if ts := tick.Truncate(interval).UnixNano(); b[0].Timestamp != ts {
						rt.Fatalf("round %d: timestamp %d, want %d", k, b[0].Timestamp, ts)
					}
					if call.req.LocalOnly {
						rt.Fatalf("round %d: sent %v", k, call.req)
					}
				}
			}
			if i != len(s.calls) {
				rt.Fatalf("%d sends, want %d for failures %v", len(s.calls), i, fails)
			}
		})
}

func TestC14_Measured(t *testing.T) {
	nameGen := rapid.OneOf(rapid.SampledFrom([]string{"blackbox.grpc_reliability", "blackbox.http_reliability"}), rapid.StringMatching(`[a-z._]{1,8}`))
	valueGen := rapid.OneOf(rapid.Float64Range(0, 1), rapid.Float64(), rapid.SampledFrom([]float64{0, 1, 0.1, math.Inf(1), math.NaN()}))
	vh.Check(t, vh.N(3000, 40000), "random values, uptime and failure; non-trivial: there are values", func(rt *rapid.T, c *vh.Case) {
		source := sourceGen.Draw(rt, "source")
		metrics := map[string]float64{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "metrics"); i < n; i++ {
			metrics[nameGen.Draw(rt, "name")] = valueGen.Draw(rt, "value")
		}
		var q *queryable
		var qc blackbox.QueryableClient
		up := rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 599, 600, 601, 86400}), rapid.Int64Range(0, 1200), rapid.Int64Range(0, 1<<60)).Draw(rt, "uptime")
		send := true
		kind := rapid.SampledFrom([]string{"known", "known", "known", "unknown", "no client"}).Draw(rt, "kind")
		switch kind {
		case "known":
			q = &queryable{uptime: func() (int64, error) { return up, nil }}
			send = up >= 600
		case "unknown":
			q = &queryable{uptime: func() (int64, error) { return -1, errors.New("unsupported") }}
		}
		if q != nil {
			qc = q
		}
		send = send && len(metrics) > 0
		phase := time.Duration(rapid.Int64Range(0, 1e11).Draw(rt, "phase"))
		fails := rapid.IntRange(0, 3).Draw(rt, "fails") == 0
		c.Class(kind)
		c.If(len(metrics) > 0, fmt.Sprintf("%v up %s %d fails=%v", metrics, kind, up, fails))
		s := &ingress{fails: func(int) bool { return fails }}
		var at time.Time
		if p := vh.Bubble(t, func() {
			time.Sleep(phase)
			at = time.Now()
			given := map[string]float64{}
			for k, v := range metrics {
				given[k] = v
			}
			blackbox.EmitMeasuredMetrics(source, s, qc, given)
			time.Sleep(11 * time.Second)
		}); p != nil {
			rt.Fatalf("%s", p)
		}
		if !send {
			if len(s.calls) != 0 {
				rt.Fatalf("sent %v", s.calls[0].req)
			}
			return
		}
		if len(s.calls) != 1 || !s.calls[0].ok {
			rt.Fatalf("%d sends, or a context that is done or has no end", len(s.calls))
		}
		b := s.calls[0].req.GetEnvelopes().GetBatch()
		if len(b) != 1 || b[0].SourceId != source || b[0].Timestamp != at.UnixNano() || s.calls[0].req.LocalOnly {
			rt.Fatalf("sent %v", s.calls[0].req)
		}
		g := b[0].GetGauge().GetMetrics()
		if len(g) != len(metrics) {
			rt.Fatalf("sent %v, want %v", g, metrics)
		}
		for k, v := range metrics {
			if g[k] == nil || g[k].Unit != "%" || !(g[k].Value == v || math.IsNaN(v) && math.IsNaN(g[k].Value)) {
				rt.Fatalf("sent %s as %v, want %v", k, g[k], v)
			}
		}
	})
}
