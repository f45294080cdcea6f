package gateway_test

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"
)

// The results that the backend gives, in a form of their own.
type point struct {
	time  string
	value float64
}

type row struct {
	metric map[string]string
	points []point
}

type result struct {
	kind string // scalar, vector, matrix
	rows []row
}

var valueGen = rapid.OneOf(
	rapid.Float64(),
	rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -2.5, 0.1, 1e300, 5e-324, math.MaxFloat64,
		math.NaN(), math.Inf(1), math.Inf(-1), 1e21, 1 << 60, 99.99999999999999}),
)

// msTimeGen draws times as texts of seconds, exact to the millisecond.
var timeTextGen = rapid.Custom(func(t *rapid.T) string {
	ms := rapid.OneOf(rapid.Int64Range(0, 9223372036854), rapid.Int64Range(1500000000000, 1700000000000), rapid.Int64Range(0, 2000)).Draw(t, "ms")
	s := fmt.Sprintf("%d.%03d", ms/1000, ms%1000)
	if rapid.Bool().Draw(t, "short") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
		if s == "" {
			s = "0"
		}
	} else if rapid.IntRange(0, 5).Draw(t, "more digits") == 0 {
		s += rapid.SampledFrom([]string{"0", "1", "49", "51", "9"}).Draw(t, "digits")
	}
	return s
})

func drawPoint(t *rapid.T) point {
	return point{timeTextGen.Draw(t, "time"), valueGen.Draw(t, "value")}
}

func drawResult(t *rapid.T, kinds ...string) result {
	r := result{kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	if r.kind == "scalar" {
		r.rows = []row{{points: []point{drawPoint(t)}}}
		return r
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "rows"); i < n; i++ {
		w := row{metric: mapOf(t, "metric", 3)}
		np := 1
		if r.kind == "matrix" {
			np = rapid.IntRange(0, 4).Draw(t, "points")
		}
		for j := 0; j < np; j++ {
			w.points = append(w.points, drawPoint(t))
		}
		r.rows = append(r.rows, w)
	}
	return r
}

func (p point) proto() *logcache_v1.PromQL_Point {
	return &logcache_v1.PromQL_Point{Time: p.time, Value: p.value}
}

func (r result) scalar() *logcache_v1.PromQL_Scalar {
	return &logcache_v1.PromQL_Scalar{Time: r.rows[0].points[0].time, Value: r.rows[0].points[0].value}
}

func (r result) vector() *logcache_v1.PromQL_Vector {
	v := &logcache_v1.PromQL_Vector{}
	for _, w := range r.rows {
		v.Samples = append(v.Samples, &logcache_v1.PromQL_Sample{Metric: w.metric, Point: w.points[0].proto()})
	}
	return v
}

func (r result) matrix() *logcache_v1.PromQL_Matrix {
	m := &logcache_v1.PromQL_Matrix{}
	for _, w := range r.rows {
		s := &logcache_v1.PromQL_Series{Metric: w.metric}
		for _, p := range w.points {
			s.Points = append(s.Points, p.proto())
		}
		m.Series = append(m.Series, s)
	}
	return m
}

func (r result) instant() *logcache_v1.PromQL_InstantQueryResult {
	switch r.kind {
	case "scalar":
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: r.scalar()}}
	case "vector":
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: r.vector()}}
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: r.matrix()}}
}

func (r result) ranged() *logcache_v1.PromQL_RangeQueryResult {
	return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: r.matrix()}}
}

func fromPoint(p *logcache_v1.PromQL_Point) point { return point{p.GetTime(), p.GetValue()} }

func fromMatrix(m *logcache_v1.PromQL_Matrix) result {
	r := result{kind: "matrix"}
	for _, s := range m.GetSeries() {
		w := row{metric: s.GetMetric()}
		for _, p := range s.GetPoints() {
			w.points = append(w.points, fromPoint(p))
		}
		r.rows = append(r.rows, w)
	}
	return r
}

func fromInstant(q *logcache_v1.PromQL_InstantQueryResult) (r result) {
	switch q.GetResult().(type) {
	case *logcache_v1.PromQL_InstantQueryResult_Scalar:
		return result{kind: "scalar", rows: []row{{points: []point{{q.GetScalar().GetTime(), q.GetScalar().GetValue()}}}}}
	case *logcache_v1.PromQL_InstantQueryResult_Vector:
		r.kind = "vector"
		for _, s := range q.GetVector().GetSamples() {
			r.rows = append(r.rows, row{metric: s.GetMetric(), points: []point{fromPoint(s.GetPoint())}})
		}
		return r
	case *logcache_v1.PromQL_InstantQueryResult_Matrix:
		return fromMatrix(q.GetMatrix())
	}
	return r
}

func (r result) String() string {
	var b strings.Builder
	b.WriteString(r.kind)
	for _, w := range r.rows {
		b.WriteString(" {")
		for _, k := range vh.Keys(w.metric) {
			fmt.Fprintf(&b, "%q=%q ", k, w.metric[k])
		}
		b.WriteString("}")
		for _, p := range w.points {
			fmt.Fprintf(&b, " %s@%s", strconv.FormatFloat(p.value, 'g', -1, 64), p.time)
		}
	}
	return b.String()
}

var threeDecimals = regexp.MustCompile(`^\d+\.\d{3}$`)

// same compares a result with what was sent. With ms, times have to be within
// half a millisecond, else equal.
func (r result) same(sent result, ms bool) error {
	if r.kind != sent.kind || len(r.rows) != len(sent.rows) {
		return fmt.Errorf("got %s, want %s", r, sent)
	}
	for i, w := range r.rows {
		x := sent.rows[i]
		if len(w.metric) != len(x.metric) || len(w.points) != len(x.points) {
			return fmt.Errorf("got %s, want %s", r, sent)
		}
		for k, v := range x.metric {
			if g, ok := w.metric[k]; !ok || g != v {
				return fmt.Errorf("label %q: got %s, want %s", k, r, sent)
			}
		}
		for j, p := range w.points {
			y := x.points[j]
			if math.Float64bits(p.value) != math.Float64bits(y.value) && !(math.IsNaN(p.value) && math.IsNaN(y.value)) {
				return fmt.Errorf("value %v, want %v", p.value, y.value)
			}
			if !ms {
				if p.time != y.time {
					return fmt.Errorf("time %q, want %q", p.time, y.time)
				}
				continue
			}
			if !threeDecimals.MatchString(p.time) {
				return fmt.Errorf("time %q has not three decimals", p.time)
			}
			if d := msDistance(p.time, y.time); d > 0.501 {
				return fmt.Errorf("time %q, want %q", p.time, y.time)
			}
		}
	}
	return nil
}

// msDistance is the distance of two times in seconds, in milliseconds.
func msDistance(a, b string) float64 {
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	if !ok1 || !ok2 {
		return math.Inf(1)
	}
	d, _ := new(big.Rat).Sub(x, y).Float64()
	return math.Abs(d) * 1000
}

var shortQueryGen = rapid.OneOf(
	rapid.SampledFrom([]string{`cpu{source_id="a"}`, `rate(x{source_id="a b",y!="&="}[5m]) > 3 + 2`, `a%20b`, `sum(x) / 100 # c`, `{__name__=~"a|b;c"}`, "a\n+b"}),
	textGen,
)

// queryGen has, now and then, a query that selects many sources.
var queryGen = rapid.Custom(func(t *rapid.T) string {
	if rapid.IntRange(0, 99).Draw(t, "long") != 77 {
		return shortQueryGen.Draw(t, "text")
	}
	n := rapid.SampledFrom([]int{20, 150, 400, 2500}).Draw(t, "sources")
	seed := rapid.Uint32().Draw(t, "ids")
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, fmt.Sprintf("%08x-4b1a-4f5f-9d5e-%012x", seed, i))
	}
	return `sum(x{source_id=~"` + strings.Join(ids, "|") + `"})`
})

var nanosGen = rapid.OneOf(
	rapid.Int64Range(0, math.MaxInt64),
	rapid.Custom(func(t *rapid.T) int64 { return rapid.Int64Range(0, 9223372036853).Draw(t, "ms") * 1e6 }),
	rapid.Custom(func(t *rapid.T) int64 { return rapid.Int64Range(1500000000000, 1700000000000).Draw(t, "ms") * 1e6 }),
)

func checkTime(got string, set bool, ns int64) error {
	if !set {
		if got != "" {
			return fmt.Errorf("time %q, want none", got)
		}
		return nil
	}
	if !threeDecimals.MatchString(got) {
		return fmt.Errorf("time %q has not three decimals", got)
	}
	x := new(big.Rat).SetFrac64(ns, 1e9).FloatString(9)
	max := 0.502
	if ns%1e6 == 0 {
		max = 0
	}
	if msDistance(got, x) > max {
		return fmt.Errorf("time %q, want %s", got, x)
	}
	return nil
}

type optTime struct {
	set bool
	ns  int64
}

func drawOptTime(t *rapid.T, label string) optTime {
	o := optTime{set: rapid.Bool().Draw(t, "has "+label)}
	if o.set {
		o.ns = nanosGen.Draw(t, label)
	}
	return o
}

// zone gives a time in some zone; the instant is what counts.
func zone(t *rapid.T, ns int64) time.Time {
	tm := time.Unix(0, ns)
	if rapid.Bool().Draw(t, "zone") {
		return tm.In(time.FixedZone("X", 3600*rapid.IntRange(-11, 11).Draw(t, "hours")))
	}
	return tm.UTC()
}

type query struct {
	ranged           bool
	text             string
	time, start, end optTime
	step             string
	opts             []client.PromQLOption
}

func drawQuery(t *rapid.T) query {
	q := query{ranged: rapid.Bool().Draw(t, "range"), text: queryGen.Draw(t, "query")}
	if !q.ranged {
		if q.time = drawOptTime(t, "time"); q.time.set {
			q.opts = append(q.opts, client.WithPromQLTime(zone(t, q.time.ns)))
		}
		return q
	}
	if q.start = drawOptTime(t, "start"); q.start.set {
		q.opts = append(q.opts, client.WithPromQLStart(zone(t, q.start.ns)))
	}
	if q.end = drawOptTime(t, "end"); q.end.set {
		q.opts = append(q.opts, client.WithPromQLEnd(zone(t, q.end.ns)))
	}
	if rapid.Bool().Draw(t, "has step") {
		q.step = rapid.OneOf(rapid.SampledFrom([]string{"1m", "15s", "1.5", "0.001", "60", "0", "", "-1", "1m ", " "}), textGen).Draw(t, "step")
		q.opts = append(q.opts, client.WithPromQLStep(q.step))
	}
	if len(q.opts) > 1 && rapid.Bool().Draw(t, "reversed") {
		for i, j := 0, len(q.opts)-1; i < j; i, j = i+1, j-1 {
			q.opts[i], q.opts[j] = q.opts[j], q.opts[i]
		}
	}
	return q
}

func (q query) checkCall(calls []proto.Message) (string, error) {
	if len(calls) != 1 {
		return "", fmt.Errorf("the backend saw %v, want one request", calls)
	}
	if q.ranged {
		r, ok := calls[0].(*logcache_v1.PromQL_RangeQueryRequest)
		if !ok || r.Query != q.text || r.Step != q.step {
			return "", fmt.Errorf("the backend saw %v, want range query %q step %q", calls[0], q.text, q.step)
		}
		if err := checkTime(r.Start, q.start.set, q.start.ns); err != nil {
			return "", fmt.Errorf("start: %s", err)
		}
		if err := checkTime(r.End, q.end.set, q.end.ns); err != nil {
			return "", fmt.Errorf("end: %s", err)
		}
		return r.String(), nil
	}
	r, ok := calls[0].(*logcache_v1.PromQL_InstantQueryRequest)
	if !ok || r.Query != q.text {
		return "", fmt.Errorf("the backend saw %v, want query %q", calls[0], q.text)
	}
	if err := checkTime(r.Time, q.time.set, q.time.ns); err != nil {
		return "", fmt.Errorf("time: %s", err)
	}
	return r.String(), nil
}

func (q query) run(cl *client.Client) (r result, null bool, err error) {
	if q.ranged {
		res, err := cl.PromQLRange(ctx(), q.text, q.opts...)
		return fromMatrix(res.GetMatrix()), res == nil, err
	}
	res, err := cl.PromQL(ctx(), q.text, q.opts...)
	return fromInstant(res), res == nil, err
}

func (q query) String() string {
	return fmt.Sprintf("range=%v %q time=%v start=%v end=%v step=%q", q.ranged, q.text, q.time, q.start, q.end, q.step)
}

func (q query) drawAnswer(rt *rapid.T) (result, func(b *backend)) {
	if q.ranged {
		r := drawResult(rt, "matrix")
		return r, func(b *backend) { b.ranged = r.ranged() }
	}
	r := drawResult(rt, "scalar", "vector", "matrix")
	return r, func(b *backend) { b.instant = r.instant() }
}

func TestC05_PromQL(t *testing.T) {
	vh.Check(t, vh.N(1500, 20000), "random query, options and result or error; non-trivial: an option is set, or the answer is an error or has points",
		func(rt *rapid.T, c *vh.Case) {
			q := drawQuery(rt)
			var serr error
			var sent result
			set := func(*backend) {}
			if rapid.IntRange(0, 5).Draw(rt, "fails") == 0 {
				serr = serviceErr(rapid.SampledFrom(errCodes).Draw(rt, "code"), textGen.Draw(rt, "msg"))
				c.Class("error")
			} else {
				sent, set = q.drawAnswer(rt)
				c.Class(sent.kind)
			}
			c.If(len(q.opts) > 0 || serr != nil || len(sent.rows) > 0, fmt.Sprintf("%s -> %s err=%v", q, sent, serr))
			var seen []string
			for _, via := range []string{"gRPC", "HTTP"} {
				cl := viaGRPC
				if via == "HTTP" {
					cl = viaHTTP
				}
				theBackend.reset(func(b *backend) { set(b); b.err = serr })
				var r result
				var null bool
				var err error
				if p := vh.Try(func() { r, null, err = q.run(cl) }); p != nil {
					rt.Fatalf("via %s: %s", via, p)
				}
				s, cerr := q.checkCall(theBackend.take())
				if cerr != nil {
					rt.Fatalf("via %s: %s", via, cerr)
				}
				seen = append(seen, s)
				if serr != nil {
					if err == nil || !null {
						rt.Fatalf("via %s: result %v and error %v for the service's error %v", via, r, err, serr)
					}
				} else if err != nil {
					rt.Fatalf("via %s: error %v for %s", via, err, sent)
				} else if err := r.same(sent, via == "HTTP"); err != nil {
					rt.Fatalf("via %s: %s", via, err)
				}
			}
			if seen[0] != seen[1] {
				rt.Fatalf("the backend saw %s via gRPC but %s via HTTP", seen[0], seen[1])
			}
		})
}

// parseRaw reads a raw result with nothing of the repository's.
func parseRaw(kind string, data []byte) (result, error) {
	r := result{kind: kind}
	pt := func(v []json.RawMessage) (point, error) {
		if len(v) != 2 {
			return point{}, fmt.Errorf("point of %d", len(v))
		}
		var s string
		if err := json.Unmarshal(v[1], &s); err != nil {
			return point{}, err
		}
		f, err := strconv.ParseFloat(s, 64)
		return point{string(v[0]), f}, err
	}
	switch kind {
	case "scalar":
		var v []json.RawMessage
		if err := json.Unmarshal(data, &v); err != nil {
			return r, err
		}
		p, err := pt(v)
		r.rows = []row{{points: []point{p}}}
		return r, err
	case "vector", "matrix":
		var rows []struct {
			Metric map[string]string
			Value  []json.RawMessage
			Values [][]json.RawMessage
		}
		if err := json.Unmarshal(data, &rows); err != nil {
			return r, err
		}
		for _, w := range rows {
			if kind == "vector" {
				w.Values = [][]json.RawMessage{w.Value}
			}
			x := row{metric: w.Metric}
			for _, v := range w.Values {
				p, err := pt(v)
				if err != nil {
					return r, err
				}
				x.points = append(x.points, p)
			}
			r.rows = append(r.rows, x)
		}
		return r, nil
	}
	return r, fmt.Errorf("kind %q", kind)
}

func TestC05_Raw(t *testing.T) {
	vh.Check(t, vh.N(1000, 15000), "random query, options and result or error over the raw calls; non-trivial: as above",
		func(rt *rapid.T, c *vh.Case) {
			q := drawQuery(rt)
			var serr error
			var code codes.Code
			var msg string
			var sent result
			set := func(*backend) {}
			if rapid.IntRange(0, 2).Draw(rt, "fails") == 0 {
				code, msg = rapid.SampledFrom(errCodes).Draw(rt, "code"), textGen.Draw(rt, "msg")
				serr = serviceErr(code, msg)
				c.Class("error")
			} else {
				sent, set = q.drawAnswer(rt)
				c.Class(sent.kind)
			}
			c.If(len(q.opts) > 0 || serr != nil || len(sent.rows) > 0, fmt.Sprintf("%s -> %s err=%v", q, sent, serr))
			theBackend.reset(func(b *backend) { set(b); b.err = serr })
			var res *client.PromQLQueryResult
			var err error
			if p := vh.Try(func() {
				if q.ranged {
					res, err = viaHTTP.PromQLRangeRaw(ctx(), q.text, q.opts...)
				} else {
					res, err = viaHTTP.PromQLRaw(ctx(), q.text, q.opts...)
				}
			}); p != nil {
				rt.Fatalf("%s", p)
			}
			if _, err := q.checkCall(theBackend.take()); err != nil {
				rt.Fatalf("%s", err)
			}
			if st := httpStatus(code); serr != nil && st != 400 && st != 500 {
				if err == nil || res != nil {
					rt.Fatalf("result %v and error %v for status %d", res, err, st)
				}
				return
			}
			if err != nil {
				rt.Fatalf("error %v, service error %v", err, serr)
			}
			if serr != nil {
				if res.Status != "error" || res.Error != msg || res.ErrorType == "" {
					rt.Fatalf("result %+v for the service's error %q", res, msg)
				}
				return
			}
			if res.Status != "success" || res.Error != "" || res.ErrorType != "" || res.Data.ResultType != sent.kind {
				rt.Fatalf("result %+v for %s", res, sent)
			}
			r, err := parseRaw(sent.kind, res.Data.Result)
			if err != nil {
				rt.Fatalf("cannot parse %s: %s", res.Data.Result, err)
			}
			if err := r.same(sent, true); err != nil {
				rt.Fatalf("%s", err)
			}
		})
}

var _ = sort.Strings
