package promql_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var quiet = log.New(io.Discard, "", 0)

type registry struct {
	mu sync.Mutex
	m  map[string]float64
}

type cell struct {
	r    *registry
	name string
}

func (c cell) Add(d float64) { c.r.mu.Lock(); c.r.m[c.name] += d; c.r.mu.Unlock() }
func (c cell) Set(v float64) { c.r.mu.Lock(); c.r.m[c.name] = v; c.r.mu.Unlock() }

func (r *registry) NewCounter(name string, _ ...metrics.MetricOption) metrics.Counter {
	return cell{r, name}
}

func (r *registry) NewGauge(name string, _ ...metrics.MetricOption) metrics.Gauge {
	return cell{r, name}
}

// reader is a data reader that holds its envelopes in memory.
type reader struct {
	mu    sync.Mutex
	envs  []*loggregator_v2.Envelope
	fail  map[string]bool
	reads []*logcache_v1.ReadRequest
}

var errRead = errors.New("the data cannot be read")

func (r *reader) Read(ctx context.Context, in *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.reads = append(r.reads, proto.Clone(in).(*logcache_v1.ReadRequest))
	if r.fail[in.SourceId] {
		return nil, errRead
	}
	var l []*loggregator_v2.Envelope
	for _, e := range r.envs {
		if e.SourceId != in.SourceId || e.Timestamp < in.StartTime || e.Timestamp >= in.EndTime {
			continue
		}
		ok := len(in.EnvelopeTypes) == 0
		for _, t := range in.EnvelopeTypes {
			ok = ok || t == logcache_v1.EnvelopeType_ANY || t == kind(e)
		}
		if ok {
			l = append(l, proto.Clone(e).(*loggregator_v2.Envelope))
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].Timestamp < l[j].Timestamp })
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: l}}, nil
}

func kind(e *loggregator_v2.Envelope) logcache_v1.EnvelopeType {
	switch e.Message.(type) {
	case *loggregator_v2.Envelope_Log:
		return logcache_v1.EnvelopeType_LOG
	case *loggregator_v2.Envelope_Counter:
		return logcache_v1.EnvelopeType_COUNTER
	case *loggregator_v2.Envelope_Gauge:
		return logcache_v1.EnvelopeType_GAUGE
	case *loggregator_v2.Envelope_Timer:
		return logcache_v1.EnvelopeType_TIMER
	}
	return logcache_v1.EnvelopeType_EVENT
}

func (r *reader) sources() map[string]bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := map[string]bool{}
	for _, q := range r.reads {
		m[q.SourceId] = true
	}
	return m
}

func newPromQL(r *reader) (*promql.PromQL, *registry) {
	reg := &registry{m: map[string]float64{}}
	return promql.New(r, reg, quiet, 50*time.Second), reg
}

// sanitize is the stated replacement, rune by rune.
func sanitize(name string) string {
	var b strings.Builder
	for i, c := range name {
		switch {
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z', i > 0 && c >= '0' && c <= '9':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// sample is one point of a series.
type sample struct {
	t int64 // milliseconds
	v float64
}

// series is one series by its labels.
type series struct {
	labels map[string]string
	points []sample
}

// labelKey identifies a set of labels; a label without a value is as none.
func labelKey(m map[string]string) string {
	var ks []string
	for k, v := range m {
		if v != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q,", k, m[k])
	}
	return b.String()
}

func millis(s string) (int64, error) {
	i := strings.IndexByte(s, '.')
	if i < 0 || len(s)-i != 4 {
		return 0, fmt.Errorf("%q has no three decimals", s)
	}
	return strconv.ParseInt(s[:i]+s[i+1:], 10, 64)
}

// result is what a query gave: series by their labels, or a scalar.
type result struct {
	kind   string
	scalar sample
	series []series
}

func instantResult(r *logcache_v1.PromQL_InstantQueryResult) (result, error) {
	var out result
	switch x := r.GetResult().(type) {
	case *logcache_v1.PromQL_InstantQueryResult_Scalar:
		t, err := millis(x.Scalar.GetTime())
		return result{kind: "scalar", scalar: sample{t, x.Scalar.GetValue()}}, err
	case *logcache_v1.PromQL_InstantQueryResult_Vector:
		out.kind = "vector"
		for _, s := range x.Vector.GetSamples() {
			t, err := millis(s.GetPoint().GetTime())
			if err != nil {
				return out, err
			}
			out.series = append(out.series, series{s.Metric, []sample{{t, s.GetPoint().GetValue()}}})
		}
		return out, nil
	case *logcache_v1.PromQL_InstantQueryResult_Matrix:
		return matrixResult(x.Matrix)
	}
	return out, fmt.Errorf("no result")
}

func matrixResult(m *logcache_v1.PromQL_Matrix) (result, error) {
	out := result{kind: "matrix"}
	for _, s := range m.GetSeries() {
		se := series{labels: s.Metric}
		for _, p := range s.GetPoints() {
			t, err := millis(p.GetTime())
			if err != nil {
				return out, err
			}
			se.points = append(se.points, sample{t, p.GetValue()})
		}
		out.series = append(out.series, se)
	}
	return out, nil
}

func ms(t int64) string {
	s := strconv.FormatInt(t%1000, 10)
	return fmt.Sprintf("%d.%s", t/1000, strings.Repeat("0", 3-len(s))+s)
}

// oneIn is true once in n draws.
func oneIn(rt *rapid.T, n int, what string) bool {
	return rapid.IntRange(1, n).Draw(rt, what) == n
}
