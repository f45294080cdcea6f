package promql_test

import (
	"context"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

const lookback = 300_000 // milliseconds

var (
	srcs      = []string{"app", "s-2", "9f6e-01/x", "doppler", "a\"b"}
	names     = []string{"cpu", "http.latency", "dropped-b:x", "2xx", "_m"}
	tagNames  = []string{"job", "ip", "a", "c", "deployment"}
	tagValues = []string{"a", "b", "b-c-d", "d", "router", "10.0.0.1", "é\"\\", "x\ny"}
)

type matcher struct {
	name, op, value string
	re              *regexp.Regexp
}

func (m matcher) text() string { return m.name + m.op + strconv.Quote(m.value) }

func (m matcher) matches(v string) bool {
	switch m.op {
	case "=":
		return v == m.value
	case "!=":
		return v != m.value
	case "=~":
		return m.re.MatchString(v)
	}
	return !m.re.MatchString(v)
}

// world is the content of the cache.
type world struct {
	r   *reader
	now int64 // milliseconds, a whole second
}

func genWorld(rt *rapid.T) *world {
	w := &world{r: &reader{fail: map[string]bool{}}}
	w.now = 1000 * rapid.Int64Range(1_000_000, 1_600_000_000).Draw(rt, "now")
	n := rapid.IntRange(0, 40).Draw(rt, "envelopes")
	// few label sets, so that series have several points
	type set struct {
		source, instance, name string
		kind                   int
		tags                   map[string]string
	}
	var sets []set
	for i, k := 0, rapid.IntRange(1, 7).Draw(rt, "sets"); i < k; i++ {
		s := set{
			source:   rapid.SampledFrom(srcs[:3]).Draw(rt, "source"),
			instance: rapid.SampledFrom([]string{"", "0", "1", "b-c"}).Draw(rt, "instance"),
			name:     rapid.SampledFrom(names[:3]).Draw(rt, "name"),
			kind:     rapid.IntRange(0, 7).Draw(rt, "kind"),
		}
		if oneIn(rt, 6, "other source") {
			s.source = rapid.SampledFrom(srcs).Draw(rt, "any source")
		}
		if oneIn(rt, 6, "other name") {
			s.name = rapid.SampledFrom(names).Draw(rt, "any name")
		}
		if k := rapid.IntRange(0, 3).Draw(rt, "tags"); k > 0 || rapid.Bool().Draw(rt, "tags are nil") {
			s.tags = map[string]string{}
			for ; k > 0; k-- {
				s.tags[rapid.SampledFrom(tagNames).Draw(rt, "tag")] = rapid.SampledFrom(tagValues).Draw(rt, "tag value")
			}
			if oneIn(rt, 10, "misleading tag") {
				s.tags["source_id"] = "misleading"
			}
			if s.instance != "" && oneIn(rt, 10, "misleading instance tag") {
				s.tags["instance_id"] = "misleading"
			}
		}
		sets = append(sets, s)
	}
	if oneIn(rt, 4, "confusable") {
		// label sets that are one when written carelessly
		sets = sets[:1]
		for _, tags := range []map[string]string{{"a": "b-c-d"}, {"a": "b", "c": "d"}, {"a": "b\",\"c\":\"d"}, {"a": "b,c=d"}, {"a": "b c d"}} {
			s := sets[0]
			s.tags = tags
			sets = append(sets, s)
		}
	}
	back := rapid.SampledFrom([]int{5, 30, 290, 600}).Draw(rt, "back")
	for i := 0; i < n; i++ {
		s := rapid.SampledFrom(sets).Draw(rt, "set")
		ts := w.now*1e6 - int64(rapid.IntRange(-20, back).Draw(rt, "age"))*1e9
		if !oneIn(rt, 3, "on the second") {
			ts += rapid.Int64Range(0, 999_999_999).Draw(rt, "nanos")
		}
		e := &loggregator_v2.Envelope{SourceId: s.source, InstanceId: s.instance, Timestamp: ts, Tags: map[string]string{}}
		if s.tags == nil {
			e.Tags = nil
		}
		for k, v := range s.tags {
			e.Tags[k] = v
		}
		v := rapid.OneOf(rapid.Float64Range(-1e6, 1e6), rapid.SampledFrom([]float64{0, 1, math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324})).Draw(rt, "value")
		total := rapid.OneOf(rapid.Uint64Range(0, 1000), rapid.Uint64()).Draw(rt, "total")
		switch s.kind {
		case 0, 1, 2:
			m := map[string]*loggregator_v2.GaugeValue{s.name: {Unit: "u", Value: v}}
			for k := rapid.IntRange(0, 2).Draw(rt, "other metrics"); k > 0; k-- {
				o := rapid.SampledFrom([]string{"disk", "mem.quota", "cpu2"}).Draw(rt, "other metric")
				m[o] = &loggregator_v2.GaugeValue{Value: -7777}
			}
			e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: m}}
		case 3, 4:
			e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: s.name, Delta: 3, Total: total}}
		case 5, 6:
			a := rapid.Int64Range(0, 2e18).Draw(rt, "start")
			b := rapid.Int64Range(0, 2e18).Draw(rt, "stop")
			e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: s.name, Start: a, Stop: b}}
		default:
			if rapid.Bool().Draw(rt, "event") {
				e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{Title: s.name}}
			} else {
				e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(s.name)}}
			}
		}
		w.r.envs = append(w.r.envs, e)
	}
	sort.SliceStable(w.r.envs, func(i, j int) bool { return w.r.envs[i].Timestamp < w.r.envs[j].Timestamp })
	return w
}

// selector is a generated selector.
type selector struct {
	name     string
	sources  []string
	matchers []matcher
}

func (s selector) text() string {
	var l []string
	for _, m := range s.matchers {
		l = append(l, m.text())
	}
	return s.name + "{" + strings.Join(l, ",") + "}"
}

func genMatcher(rt *rapid.T, name string, values []string) matcher {
	m := matcher{name: name, op: rapid.SampledFrom([]string{"=", "=", "!=", "=~", "!~"}).Draw(rt, "op")}
	v := rapid.SampledFrom(append([]string{"", "none"}, values...)).Draw(rt, "matched value")
	if m.op == "=~" || m.op == "!~" {
		v = regexp.QuoteMeta(v)
		switch rapid.IntRange(0, 4).Draw(rt, "regexp") {
		case 0:
			v += "|" + regexp.QuoteMeta(rapid.SampledFrom(values).Draw(rt, "alternative"))
		case 1:
			v = ".+"
		case 2:
			v = "[a-c].*"
		case 3:
			v = "(" + v + ")?"
		}
		m.re = regexp.MustCompile("^(?:" + v + ")$")
	}
	m.value = v
	return m
}

func genSelector(rt *rapid.T, w *world) selector {
	var like *loggregator_v2.Envelope
	if len(w.r.envs) > 0 && !oneIn(rt, 5, "unlike") {
		like = rapid.SampledFrom(w.r.envs).Draw(rt, "like")
	}
	s := selector{name: sanitize(rapid.SampledFrom(names[:3]).Draw(rt, "queried name"))}
	if oneIn(rt, 6, "other queried name") {
		s.name = sanitize(rapid.SampledFrom(append([]string{"disk", "mem.quota", "nothing"}, names...)).Draw(rt, "any queried name"))
	}
	if like != nil {
		switch x := like.Message.(type) {
		case *loggregator_v2.Envelope_Counter:
			s.name = sanitize(x.Counter.Name)
		case *loggregator_v2.Envelope_Timer:
			s.name = sanitize(x.Timer.Name)
		case *loggregator_v2.Envelope_Gauge:
			s.name = sanitize(vh.Keys(x.Gauge.Metrics)[0])
		}
		s.sources = append(s.sources, like.SourceId)
	}
	k := rapid.IntRange(0, 2).Draw(rt, "sources")
	if len(s.sources) == 0 {
		k++
	}
	for ; k > 0; k-- {
		s.sources = append(s.sources, rapid.SampledFrom(srcs[:4]).Draw(rt, "queried source"))
	}
	if len(s.sources) == 1 && rapid.Bool().Draw(rt, "equal") {
		s.matchers = append(s.matchers, matcher{name: "source_id", op: "=", value: s.sources[0]})
	} else {
		s.matchers = append(s.matchers, matcher{name: "source_id", op: "=~", value: strings.Join(s.sources, "|")})
	}
	for k := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(rt, "matchers"); k > 0; k-- {
		var m matcher
		switch rapid.IntRange(0, 5).Draw(rt, "matched label") {
		case 0:
			vs := []string{"0", "1", "b-c"}
			if like != nil {
				vs = []string{like.InstanceId, like.InstanceId, "1"}
			}
			m = genMatcher(rt, "instance_id", vs)
		case 1:
			m = genMatcher(rt, "source_id", srcs[:3])
			if m.op == "=" {
				m.op = "!="
			}
			if m.op == "=~" {
				m.op = "!~"
			}
		default:
			name := rapid.SampledFrom(append([]string{"nope"}, tagNames...)).Draw(rt, "matched tag")
			vs := tagValues
			if like != nil && !oneIn(rt, 4, "any value") {
				vs = []string{like.Tags[name], like.Tags[name], rapid.SampledFrom(tagValues).Draw(rt, "other value")}
			}
			m = genMatcher(rt, name, vs)
		}
		s.matchers = append(s.matchers, m)
	}
	if rapid.Bool().Draw(rt, "source last") {
		s.matchers = append(s.matchers[1:], s.matchers[0])
	}
	return s
}

// eval gives the series of a selector, of what is before end.
func (w *world) eval(s selector, end int64) map[string]*series {
	out := map[string]*series{}
	seen := map[string]bool{}
	for _, src := range s.sources {
		seen[src] = true
	}
	for _, e := range w.r.envs {
		if !seen[e.SourceId] || e.Timestamp >= end*1e6 {
			continue
		}
		ls := map[string]string{}
		for k, v := range e.Tags {
			ls[k] = v
		}
		ls["source_id"] = e.SourceId
		if e.InstanceId != "" {
			ls["instance_id"] = e.InstanceId
		}
		ok := true
		for _, m := range s.matchers {
			if m.name == "source_id" && (m.op == "=" || m.op == "=~") {
				continue
			}
			ok = ok && m.matches(ls[m.name])
		}
		var v float64
		switch x := e.Message.(type) {
		case *loggregator_v2.Envelope_Counter:
			ok = ok && sanitize(x.Counter.Name) == s.name
			v = float64(x.Counter.Total)
		case *loggregator_v2.Envelope_Timer:
			ok = ok && sanitize(x.Timer.Name) == s.name
			v = float64(x.Timer.Stop - x.Timer.Start)
		case *loggregator_v2.Envelope_Gauge:
			found := false
			for k, g := range x.Gauge.Metrics {
				if sanitize(k) == s.name {
					found, v = true, g.Value
				}
			}
			ok = ok && found
		default:
			ok = false
		}
		if !ok {
			continue
		}
		k := labelKey(ls)
		if out[k] == nil {
			out[k] = &series{labels: ls}
		}
		t := e.Timestamp / 1e9 * 1000
		out[k].points = append(out[k].points, sample{t, v})
	}
	return out
}

// at gives what a selector may show for a series at an instant: the values,
// and whether it may show nothing.
func at(points []sample, t int64) (vs []float64, latest int64, maybeNot bool) {
	latest = math.MinInt64
	for _, p := range points {
		if p.t <= t && p.t > latest {
			latest = p.t
		}
	}
	if latest == math.MinInt64 || latest < t-lookback {
		return nil, 0, true
	}
	for _, p := range points {
		if p.t == latest {
			vs = append(vs, p.v)
		}
	}
	return vs, latest, latest == t-lookback
}

func same(a, b float64) bool {
	// proto.Clone makes 0 of -0
	return a == b || math.IsNaN(a) && math.IsNaN(b)
}

func oneOf(vs []float64, v float64) bool {
	for _, x := range vs {
		if same(x, v) {
			return true
		}
	}
	return false
}

func TestC31_Select(t *testing.T) {
	vh.Check(t, vh.N(3000, 150000), "the selector shows a series, and another of the same source and name is not shown", func(rt *rapid.T, c *vh.Case) {
		w := genWorld(rt)
		s := genSelector(rt, w)
		p, reg := newPromQL(w.r)
		off := int64(0)
		text := s.text()
		form := rapid.IntRange(0, 2).Draw(rt, "form")
		width := int64(0)
		if form == 1 {
			width = int64(rapid.SampledFrom([]int{1, 2, 5, 30, 299, 300, 301, 1000}).Draw(rt, "range")) * 1000
			text += fmt.Sprintf("[%ds]", width/1000)
		}
		if oneIn(rt, 4, "offset") {
			off = int64(rapid.SampledFrom([]int{1, 3, 20, 280, 400}).Draw(rt, "offset by")) * 1000
			text += fmt.Sprintf(" offset %ds", off/1000)
		}
		when := w.now
		if oneIn(rt, 3, "fraction") {
			when += rapid.Int64Range(0, 999).Draw(rt, "millis")
		}
		for _, src := range srcs {
			if oneIn(rt, 30, "fails") {
				w.r.fail[src] = true
			}
		}
		fails := false
		for _, src := range s.sources {
			fails = fails || w.r.fail[src]
		}

		var got result
		var err error
		end := when
		step := int64(0)
		if form == 2 {
			step = int64(rapid.SampledFrom([]int{1, 500, 1000, 7000, 15000, 60000, 1001}).Draw(rt, "step"))
			end = when + rapid.Int64Range(0, 40).Draw(rt, "steps")*step
			if rapid.Bool().Draw(rt, "uneven") {
				end += rapid.Int64Range(0, step-1).Draw(rt, "rest")
			}
			resp, e := p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: text, Start: ms(when), End: ms(end), Step: ms(step)})
			if err = e; e == nil {
				got, e = matrixResult(resp.GetMatrix())
				if e != nil || resp.GetMatrix() == nil {
					rt.Fatalf("the range query %s gave %v (%v), want a matrix", text, resp, e)
				}
			}
		} else {
			resp, e := p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: text, Time: ms(when)})
			if err = e; e == nil {
				got, e = instantResult(resp)
				if e != nil || got.kind != []string{"vector", "matrix"}[form] {
					rt.Fatalf("the query %s gave %v (%v), want a %s", text, resp, e, []string{"vector", "matrix"}[form])
				}
			}
		}
		if fails {
			if err == nil {
				rt.Fatalf("the query %s succeeded with %v though a read failed", text, got)
			}
			if reg.m["log_cache_promql_timeout"] != 1 {
				rt.Fatalf("the failure counter is %v after a failed query, want 1", reg.m["log_cache_promql_timeout"])
			}
			c.Class("a read failed")
			return
		}
		if err != nil {
			rt.Fatalf("the query %s at %s failed: %s", text, ms(when), err)
		}
		if reg.m["log_cache_promql_timeout"] != 0 {
			rt.Fatalf("the failure counter is %v after a query that succeeded", reg.m["log_cache_promql_timeout"])
		}

		want := w.eval(s, end)
		shown := map[string]bool{}
		for _, g := range got.series {
			k := labelKey(g.labels)
			if shown[k] {
				rt.Fatalf("the query %s gave the series {%s} twice", text, k)
			}
			shown[k] = true
			ws := want[k]
			if ws == nil {
				rt.Fatalf("the query %s at %s gave the series {%s}, which no envelope has; there are %v", text, ms(when), k, vh.Keys(want))
			}
			if v, ok := g.labels["source_id"]; !ok || v != ws.labels["source_id"] {
				rt.Fatalf("the series {%s} has source_id %q", k, v)
			}
		}
		hidden := 0
		for _, k := range vh.Keys(want) {
			ws := want[k]
			var gs *series
			for i := range got.series {
				if labelKey(got.series[i].labels) == k {
					gs = &got.series[i]
				}
			}
			bad := func(why string) {
				rt.Fatalf("the query %s at %s..%s step %d gave for the series {%s} %v: %s; its points are %v", text, ms(when), ms(end), step, k, gs, why, ws.points)
			}
			switch form {
			case 0:
				vs, _, maybeNot := at(ws.points, when-off)
				if gs == nil {
					if !maybeNot {
						bad("want a value")
					}
					hidden++
					continue
				}
				if vs == nil {
					bad("want nothing")
				}
				if len(gs.points) != 1 || gs.points[0].t != when || !oneOf(vs, gs.points[0].v) {
					bad(fmt.Sprintf("want %v at %s", vs, ms(when)))
				}
			case 1:
				hi, lo := when-off, when-off-width
				var must, may []sample
				for _, p := range ws.points {
					if p.t > lo && p.t < hi {
						must = append(must, p)
					} else if p.t == lo || p.t == hi {
						may = append(may, p)
					}
				}
				var l []sample
				if gs != nil {
					for i, p := range gs.points {
						if i > 0 && p.t < gs.points[i-1].t {
							bad("out of order")
						}
						if p.t > lo && p.t < hi {
							l = append(l, p)
						} else {
							ok := false
							for _, q := range may {
								ok = ok || q.t == p.t && same(q.v, p.v)
							}
							if !ok {
								bad(fmt.Sprintf("%v is not in the range", p))
							}
						}
					}
				}
				if len(l) != len(must) {
					bad(fmt.Sprintf("want %v", must))
				}
				for i := range l {
					if l[i].t != must[i].t || !same(l[i].v, must[i].v) {
						bad(fmt.Sprintf("want %v", must))
					}
				}
				if hasAt(ws.points, hi) && (gs == nil || !hasAt(gs.points, hi)) {
					bad("the latest point is missing")
				}
				if gs == nil {
					hidden++
				}
			case 2:
				byT := map[int64]float64{}
				if gs != nil {
					for i, p := range gs.points {
						if i > 0 && p.t <= gs.points[i-1].t {
							bad("out of order")
						}
						byT[p.t] = p.v
					}
				}
				n := 0
				for ti := when; ti <= end; ti += step {
					vs, _, maybeNot := at(ws.points, ti-off)
					v, ok := byT[ti]
					if !ok {
						if !maybeNot {
							bad("want a value at " + ms(ti))
						}
						continue
					}
					n++
					if !oneOf(vs, v) {
						bad(fmt.Sprintf("want %v at %s", vs, ms(ti)))
					}
				}
				if n != len(byT) {
					bad("there are points off the steps")
				}
				if gs == nil {
					hidden++
				}
			}
		}
		others := hidden
		for _, e := range w.r.envs {
			for _, src := range s.sources {
				if e.SourceId == src {
					others++
				}
			}
		}
		c.Class([]string{"vector", "matrix", "range query"}[form])
		c.ClassIf(len(got.series) > 1, "several series")
		c.ClassIf(len(s.matchers) > 1 && len(got.series) > 0, "shown by further matchers")
		c.If(len(got.series) > 0 && others > len(got.series), fmt.Sprintf("%s at %s..%s step %d -> %v", text, ms(when), ms(end), step, got.series))
	})
}

func hasAt(l []sample, t int64) bool {
	for _, p := range l {
		if p.t == t {
			return true
		}
	}
	return false
}

// Queries that no source can answer, or of a kind that has no result, are
// errors.
func TestC31_NoSource(t *testing.T) {
	vh.Check(t, vh.N(800, 30000), "every case: a selector without a source, or a string", func(rt *rapid.T, c *vh.Case) {
		w := genWorld(rt)
		p, _ := newPromQL(w.r)
		good := genSelector(rt, w).text()
		bad := rapid.SampledFrom([]string{`cpu`, `cpu{}`, `cpu{job="a"}`, `cpu{source_id!="app"}`, `cpu{source_id!~"app|s-2",job="a"}`, `{job="app"}`, `cpu{Source_id="app"}`, `cpu{source="app"}`}).Draw(rt, "bad")
		q := rapid.SampledFrom([]string{"%[2]s", "%[1]s or %[2]s", "%[2]s + on(job) %[1]s", "sum(%[2]s)", "rate(%[2]s[5m])", "-%[2]s", "absent(%[2]s)", "count(%[1]s) + count(%[2]s)"}).Draw(rt, "shape")
		q = strings.NewReplacer("%[1]s", good, "%[2]s", bad).Replace(q)
		what := "a selector without a source"
		isRange := rapid.Bool().Draw(rt, "range query")
		if oneIn(rt, 4, "string") {
			q, what = rapid.SampledFrom([]string{`"foo"`, `("x")`, `'y'`}).Draw(rt, "string literal"), "a string"
		}
		if oneIn(rt, 4, "text") {
			q = rapid.SampledFrom([]string{"", "{", "cpu{source_id=}", "sum(", "cpu{source_id=\"app\"}[5m", "1 +", "cpu{source_id=~\"(\"}", "{source_id=\"\"}", "rate(cpu{source_id=\"app\"})", "topk(cpu{source_id=\"app\"})", "\xff"}).Draw(rt, "broken")
			what = "a malformed query"
		}
		var err error
		perr := vh.Try(func() {
			if isRange {
				_, err = p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: q, Start: ms(w.now), End: ms(w.now + 5000), Step: "1"})
			} else {
				_, err = p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: q, Time: ms(w.now)})
			}
		})
		if perr != nil {
			rt.Fatalf("the query %s: %s", q, perr)
		}
		if err == nil {
			rt.Fatalf("the query %s (%s) succeeded", q, what)
		}
		c.Class(what)
		c.NonTrivial(q)
	})
}
