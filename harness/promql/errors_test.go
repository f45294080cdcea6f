package promql_test

import (
	"context"
	"fmt"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// ask runs the query as an instant or a range query over a few seconds.
func ask(ctx context.Context, p *promql.PromQL, q string, at int64, isRange bool) (res result, err error) {
	if isRange {
		var resp *logcache_v1.PromQL_RangeQueryResult
		resp, err = p.RangeQuery(ctx, &logcache_v1.PromQL_RangeQueryRequest{Query: q, Start: ms(at), End: ms(at + 3000), Step: "1"})
		if err == nil {
			res, err = matrixResult(resp.GetMatrix())
		}
		return
	}
	resp, err := p.InstantQuery(ctx, &logcache_v1.PromQL_InstantQueryRequest{Query: q, Time: ms(at)})
	if err == nil {
		res, err = instantResult(resp)
	}
	return
}

// A calculation that has no definite result is an error, never a part of one.
func TestC31_Undefined(t *testing.T) {
	vh.Check(t, vh.N(600, 40000), "a label has several partners", func(rt *rapid.T, c *vh.Case) {
		const at = 1_500_000_000_000
		jobs := []string{"a", "b", "c"}
		r := &reader{fail: map[string]bool{}}
		n := map[string][]int{}
		val := map[string][]float64{}
		for _, s := range []string{"left", "right"} {
			n[s] = make([]int, len(jobs))
			val[s] = make([]float64, len(jobs))
			for j, job := range jobs {
				n[s][j] = rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2, 3}).Draw(rt, "series of "+s)
				for i := 0; i < n[s][j]; i++ {
					v := float64(rapid.IntRange(1, 50).Draw(rt, "value"))
					val[s][j] = v
					r.envs = append(r.envs, &loggregator_v2.Envelope{SourceId: s, InstanceId: fmt.Sprint(i), Timestamp: (at - 10_000) * 1e6, Tags: map[string]string{"job": job, "ip": fmt.Sprint("10.0.0.", i)},
						Message: &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{"cpu": {Value: v}}}}})
				}
			}
		}
		many, doubtful, pairs := false, false, map[string]float64{}
		for j, job := range jobs {
			a, b := n["left"][j], n["right"][j]
			switch {
			case a > 0 && b > 0 && a+b > 2:
				many = true
			case b > 1:
				doubtful = true // the engine's matter
			case a == 1 && b == 1:
				pairs[job] = val["left"][j] + 100*val["right"][j]
			}
		}
		q := `cpu{source_id="left"} + on(job) 100 * cpu{source_id="right"}`
		isRange := rapid.Bool().Draw(rt, "range query")
		p, _ := newPromQL(r)
		var got result
		var err error
		if perr := vh.Try(func() { got, err = ask(context.Background(), p, q, at, isRange) }); perr != nil {
			rt.Fatalf("the query %s: %s", q, perr)
		}
		c.If(many, fmt.Sprint(n, isRange))
		if many && err == nil {
			rt.Fatalf("%s with %v series of each job gave %v, want an error", q, n, got)
		}
		if !many && !doubtful {
			if err != nil {
				rt.Fatalf("%s with %v series of each job: %s", q, n, err)
			}
			if len(got.series) != len(pairs) {
				rt.Fatalf("%s with %v series of each job gave %v, want %v", q, n, got, pairs)
			}
			for _, s := range got.series {
				k := 1
				if isRange {
					k = 4
				}
				if len(s.points) != k || s.points[0].v != pairs[s.labels["job"]] || s.points[k-1].v != pairs[s.labels["job"]] {
					rt.Fatalf("%s with %v series of each job gave %v, want %v", q, n, got, pairs)
				}
			}
			c.ClassIf(len(pairs) > 0, "definite")
		}

		// A label that cannot be.
		if n["left"][0] > 0 {
			q := rapid.SampledFrom([]string{
				`label_replace(cpu{source_id="left"}, "1x", "$1", "job", "(.*)")`,
				`label_replace(cpu{source_id="left"}, "x", "$1", "job", "(")`,
			}).Draw(rt, "other query")
			if perr := vh.Try(func() { got, err = ask(context.Background(), p, q, at, isRange) }); perr != nil {
				rt.Fatalf("the query %s: %s", q, perr)
			}
			if err == nil {
				rt.Fatalf("%s gave %v, want an error", q, got)
			}
		}
	})
}

// slow is a data reader that takes its time.
type slow struct {
	r       *reader
	takes   map[string]time.Duration
	obeying bool
}

func (s *slow) Read(ctx context.Context, in *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	d := s.takes[in.SourceId]
	if s.obeying {
		select {
		case <-ctx.Done():
			return nil, ctx.Err()
		case <-time.After(d):
		}
	} else {
		time.Sleep(d)
	}
	return s.r.Read(ctx, in)
}

// A query that takes too long is an error.
func TestC31_Slow(t *testing.T) {
	vh.Check(t, vh.N(300, 15000), "the reads take longer than the query may", func(rt *rapid.T, c *vh.Case) {
		err := vh.Bubble(t, func() {
			limit := time.Duration(rapid.IntRange(1, 20).Draw(rt, "limit")) * time.Second
			now := time.Now()
			at := now.Truncate(time.Second).UnixMilli()
			s := &slow{r: &reader{}, takes: map[string]time.Duration{}, obeying: rapid.Bool().Draw(rt, "obeying")}
			ids := []string{"a", "b", "c", "d"}[:rapid.IntRange(1, 4).Draw(rt, "sources")]
			var total time.Duration
			hangs := false
			q := ""
			for i, id := range ids {
				d := rapid.OneOf(rapid.IntRange(0, 3999), rapid.Just(0)).Draw(rt, "takes")
				s.takes[id] = time.Duration(d)*time.Millisecond + time.Microsecond
				if s.obeying && oneIn(rt, 8, "hangs") {
					s.takes[id], hangs = time.Hour, true
				}
				total += s.takes[id]
				s.r.envs = append(s.r.envs, &loggregator_v2.Envelope{SourceId: id, Timestamp: (at - 5000) * 1e6, Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "m", Total: 1 << i}}})
				if i > 0 {
					q += " + "
				}
				q += fmt.Sprintf("sum(m{source_id=%q})", id)
			}
			if len(ids) > 1 && rapid.Bool().Draw(rt, "in one list") {
				q = `sum(m{source_id=~"a|b|c|d"})`
			}
			reg := &registry{m: map[string]float64{}}
			p := promql.New(s, reg, quiet, limit)
			isRange := rapid.Bool().Draw(rt, "range query")
			ctx := context.Background()
			cancelled := time.Duration(0)
			if oneIn(rt, 4, "caller's limit") {
				cancelled = time.Duration(rapid.IntRange(1, 10).Draw(rt, "caller waits")) * time.Second
				var cancel func()
				ctx, cancel = context.WithTimeout(ctx, cancelled)
				defer cancel()
			}
			got, err := ask(ctx, p, q, at, isRange)
			took := time.Since(now)
			what := fmt.Sprintf("the query %s with the limit %v, reads that take %v and a caller that waits for %v took %v", q, limit, s.takes, cancelled, took)
			late := total > limit || cancelled > 0 && total > cancelled
			c.If(late, what)
			c.ClassIf(hangs, "a read hangs")
			if late || hangs {
				if err == nil {
					rt.Fatalf("%s and gave %v, want an error", what, got)
				}
				return
			}
			if err != nil {
				rt.Fatalf("%s and failed: %s", what, err)
			}
			if len(got.series) != 1 || got.series[0].points[0].v != float64(int(1)<<len(ids)-1) {
				rt.Fatalf("%s and gave %v", what, got)
			}
			c.Class("in time")
		})
		if err != nil {
			rt.Fatalf("%s", err)
		}
	})
}
