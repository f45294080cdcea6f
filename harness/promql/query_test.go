package promql_test

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	engine "github.com/prometheus/prometheus/promql"
	"pgregory.net/rapid"
)

func TestC32_Names(t *testing.T) {
	gen := rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9_.:/\-\[\]\\^`+"`"+` ]{1,8}`),
		rapid.String(),
		rapid.StringOfN(rapid.SampledFrom([]rune("aZ09_.-[\\]^`é世\u00a0\u0660\U0001F600\n\x00")), 1, 6, -1),
		rapid.SampledFrom([]string{"sum", "by", "offset", "inf", "NaN", "9", "_", "[", "A", "z", "@", "{", "`", "0a", "a0"}),
	)
	vh.Check(t, vh.N(3000, 200000), "a rune of the name cannot be in a query's name", func(rt *rapid.T, c *vh.Case) {
		n := gen.Draw(rt, "name")
		if n == "" || !utf8.ValidString(n) {
			n = "x"
		}
		want := sanitize(n)
		if got := promql.SanitizeMetricName(n); got != want {
			rt.Fatalf("the name %q is made %q, want %q", n, got, want)
		}
		c.If(want != n, n)

		// and it can be queried by it
		e := &loggregator_v2.Envelope{SourceId: "s", Timestamp: 1_000_000_000_000}
		vals := map[float64]bool{7: true}
		switch k := rapid.IntRange(0, 2).Draw(rt, "kind"); k {
		case 0:
			e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: n, Total: 7}}
		case 1:
			e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{Name: n, Start: 3, Stop: 10}}
		default:
			m := map[string]*loggregator_v2.GaugeValue{n: {Value: 7}}
			for i := 0; i < rapid.IntRange(0, 2).Draw(rt, "others"); i++ {
				o := gen.Draw(rt, "other")
				if !utf8.ValidString(o) || o == n {
					continue
				}
				v := float64(8 + i)
				m[o] = &loggregator_v2.GaugeValue{Value: v}
				if sanitize(o) == want {
					vals[v] = true
					c.Class("two metrics of one name")
				}
			}
			e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: m}}
		}
		p, _ := newPromQL(&reader{envs: []*loggregator_v2.Envelope{e}})
		for _, q := range []string{want, sanitize(gen.Draw(rt, "another name"))} {
			resp, err := p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{
				Query: fmt.Sprintf(`{__name__=%q,source_id="s"}`, q), Time: "1001",
			})
			if err != nil {
				rt.Fatalf("the query for %q failed: %s", q, err)
			}
			l := resp.GetVector().GetSamples()
			if q == want && (len(l) != 1 || !vals[l[0].GetPoint().GetValue()]) {
				rt.Fatalf("the query for %q gave %v, want a sample of the metric %q", q, l, n)
			}
			if g := e.GetGauge(); q != want && g == nil && len(l) != 0 {
				rt.Fatalf("the query for %q gave %v of the metric %q", q, l, n)
			}
		}
	})
}

// expr is a generated expression: its text with the sources as they are, and
// with them replaced.
type expr struct {
	a, b    string
	sources map[string]bool
}

type exprGen struct {
	rt  *rapid.T
	ids []string
	exp map[string][]string
	n   int
	out expr
	// what was generated
	regexps, replaced, nosource int
}

func (g *exprGen) pick(what string, l ...string) string {
	return rapid.SampledFrom(l).Draw(g.rt, what)
}

func (g *exprGen) int(lo, hi int, what string) int {
	return rapid.IntRange(lo, hi).Draw(g.rt, what)
}

// sel generates a selector's text before and after the replacement.
func (g *exprGen) sel() (string, string) {
	var as, bs []string
	add := func(a, b string) { as, bs = append(as, a), append(bs, b) }
	name := g.pick("metric", "cpu", "http_total", "a:b", "sum_of", "_x")
	k := g.pick("source matcher", "=", "=", "=", "=~", "=~", "=~", "none", "!=", "!~", "two")
	if k == "two" {
		k = "="
		v := rapid.SampledFrom(g.ids).Draw(g.rt, "first id")
		g.equal(v, add)
	}
	switch k {
	case "none":
		g.nosource++
	case "=":
		g.equal(rapid.SampledFrom(g.ids).Draw(g.rt, "id"), add)
	case "=~":
		var l, out []string
		for i := g.int(1, 3, "alternatives"); i > 0; i-- {
			id := rapid.SampledFrom(g.ids).Draw(g.rt, "alternative")
			l = append(l, id)
			out = append(out, g.exp[id]...)
			g.out.sources[id] = true
		}
		a := "source_id=~" + strconv.Quote(strings.Join(l, "|"))
		op := "="
		if len(out) > 1 {
			op = "=~"
		}
		g.regexps++
		add(a, "source_id"+op+strconv.Quote(strings.Join(out, "|")))
	default:
		m := "source_id" + k + strconv.Quote(rapid.SampledFrom(g.ids).Draw(g.rt, "excluded id"))
		add(m, m)
	}
	for i := g.int(0, 2, "other matchers"); i > 0; i-- {
		// labels and values that look like sources, but are none
		m := g.pick("label", "source", "job", "Source_id", "source_ids", "instance_id") + g.pick("op", "=", "!=", "=~", "!~") +
			strconv.Quote(rapid.SampledFrom(append([]string{"x"}, g.ids...)).Draw(g.rt, "value"))
		add(m, m)
	}
	if len(as) > 1 && g.int(0, 1, "swap") == 1 {
		n := len(as) - 1
		as[0], as[n], bs[0], bs[n] = as[n], as[0], bs[n], bs[0]
	}
	return name + "{" + strings.Join(as, ",") + "}", name + "{" + strings.Join(bs, ",") + "}"
}

func (g *exprGen) equal(id string, add func(a, b string)) {
	g.out.sources[id] = true
	a := "source_id=" + strconv.Quote(id)
	l, ok := g.exp[id]
	switch {
	case !ok:
		add(a, a)
	case len(l) > 1:
		g.replaced++
		add(a, "source_id=~"+strconv.Quote(strings.Join(l, "|")))
	default:
		g.replaced++
		add(a, "source_id="+strconv.Quote(strings.Join(l, "")))
	}
}

// vec generates an expression of instant vectors.
func (g *exprGen) vec(depth int) (string, string) {
	g.n++
	f := func(format string, l ...string) (string, string) {
		var a, b []interface{}
		for i := 0; i < len(l); i += 2 {
			a, b = append(a, l[i]), append(b, l[i+1])
		}
		return fmt.Sprintf(format, a...), fmt.Sprintf(format, b...)
	}
	if depth == 0 {
		a, b := g.sel()
		return f(g.pick("offset", "%s", "%s", "%s offset 5m"), a, b)
	}
	switch g.int(0, 8, "shape") {
	case 0:
		a, b := g.sel()
		return f(g.pick("range function", "rate(%s[5m])", "avg_over_time(%s[1h])", "quantile_over_time(0.9, %s[30s])", "increase(%s[5m] offset 1h)", "delta(%s[1d])"), a, b)
	case 1:
		a, b := g.vec(depth - 1)
		return f(g.pick("aggregation", "sum(%s)", "avg by (job) (%s)", "max without (source_id) (%s)", "topk(3, %s)", "count_values(\"source_id\", %s)", "quantile(0.5, %s)"), a, b)
	case 2, 3:
		a, b := g.vec(depth - 1)
		a2, b2 := g.vec(depth - 1)
		return f(g.pick("operator", "%s + %s", "(%s) / on(source_id) (%s)", "%s and %s", "%s or %s", "%s unless ignoring(job) %s", "%s > bool %s", "%s * on(job) group_left(source_id) %s"), a, b, a2, b2)
	case 4:
		a, b := g.vec(depth - 1)
		return f(g.pick("function", "abs(%s)", "-%s", "(%s)", "clamp_max(%s, 5)", "%s * 2", "3 - %s", "histogram_quantile(0.9, %s)", `label_replace(%s, "source_id", "$1", "job", "(.*)")`, "sort_desc(%s)"), a, b)
	case 5:
		a, b := g.vec(depth - 1)
		return f(g.pick("scalar use", "vector(scalar(%s))", "clamp_min(cpu{source_id=\"app\"}, scalar(%s))", "absent(%s)"), a, b)
	default:
		a, b := g.sel()
		return a, b
	}
}

func canonical(q string) (string, error) {
	e, err := engine.ParseExpr(q)
	if err != nil {
		return "", err
	}
	return e.String(), nil
}

func TestC33_Sources(t *testing.T) {
	all := []string{"app", "doppler", "s-2", "0f7a3c", `a"b`, `c\d`, "é", "x y", "a{b}", "app2", "d,e"}
	plain := all[:4]
	vh.Check(t, vh.N(2500, 120000), "the query has two selectors or more, and one has a list of sources or is replaced", func(rt *rapid.T, c *vh.Case) {
		g := &exprGen{rt: rt, ids: all, exp: map[string][]string{}, out: expr{sources: map[string]bool{}}}
		if rapid.Bool().Draw(rt, "plain ids") {
			g.ids = plain
		}
		var ids []string
		for _, id := range g.ids {
			// only what is a regular expression as it stands can be in a list
			if _, err := canonical(fmt.Sprintf("m{a=~%q}", id)); err == nil {
				ids = append(ids, id)
			}
		}
		g.ids = ids
		for _, id := range g.ids {
			if rapid.Bool().Draw(rt, "expands") {
				for k := rapid.IntRange(0, 3).Draw(rt, "expansions"); k > 0; k-- {
					g.exp[id] = append(g.exp[id], rapid.SampledFrom(append([]string{id, "guid-1", "guid-2", "app"}, g.ids...)).Draw(rt, "expansion"))
				}
				if g.exp[id] == nil {
					g.exp[id] = []string{}
				}
			}
		}
		if v := g.exp["app"]; v != nil && rapid.Bool().Draw(rt, "drop app") {
			delete(g.exp, "app")
		}
		a, b := g.vec(rapid.IntRange(0, 3).Draw(rt, "depth"))
		if strings.Contains(a, `clamp_min(cpu{source_id="app"}`) {
			g.out.sources["app"] = true
			r := &exprGen{rt: rt, exp: g.exp, out: expr{sources: map[string]bool{}}}
			r.equal("app", func(_, x string) {
				b = strings.ReplaceAll(b, `clamp_min(cpu{source_id="app"}`, "clamp_min(cpu{"+x+"}")
			})
		}
		if _, err := canonical(a); err != nil {
			vh.Harness("the generated expression %s does not parse: %s", a, err)
		}

		got, err := promql.ExtractSourceIds(a)
		if err != nil {
			rt.Fatalf("the sources of %s: %s", a, err)
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(vh.Keys(g.out.sources)) || len(got) != len(g.out.sources) {
			rt.Fatalf("the sources of %s are %q, want %q", a, got, vh.Keys(g.out.sources))
		}

		text, err := promql.ReplaceSourceIdSets(a, g.exp)
		if err != nil {
			rt.Fatalf("replacing %q in %s: %s", g.exp, a, err)
		}
		want, err := canonical(b)
		if err == nil {
			have, err := canonical(text)
			if err != nil || have != want {
				rt.Fatalf("replacing %q in %s gave\n%s (%v), want\n%s", g.exp, a, text, err, want)
			}
		} else {
			c.Class("the expansion leaves nothing to select by")
		}

		// what a query reads is within what was reported for it
		r := &reader{}
		p, _ := newPromQL(r)
		if rapid.Bool().Draw(rt, "instant") {
			p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: a, Time: "100000"})
		} else {
			p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: a, Start: "100000", End: "100030", Step: "15"})
		}
		for id := range r.sources() {
			if !g.out.sources[id] {
				rt.Fatalf("the query %s reads %q, which is none of its sources %q", a, id, vh.Keys(g.out.sources))
			}
		}
		if g.nosource == 0 && !strings.Contains(a, "!") {
			for id := range g.out.sources {
				if !r.sources()[id] {
					rt.Fatalf("the query %s does not read %q", a, id)
				}
			}
			c.Class("every source is read")
		}
		c.ClassIf(g.nosource > 0, "a selector without a source")
		c.If(g.n > 1 && (g.regexps > 0 || g.replaced > 0), a+"  =>  "+text)
	})
}

func TestC33_Malformed(t *testing.T) {
	vh.Check(t, vh.N(2000, 150000), "the text is no expression", func(rt *rapid.T, c *vh.Case) {
		w := &world{r: &reader{}}
		q := genSelector(rt, w).text()
		switch rapid.IntRange(0, 3).Draw(rt, "how") {
		case 0:
			q = rapid.String().Draw(rt, "text")
		case 1:
			q = "sum(rate(" + q + "[5m])) by (x"
		case 2:
			i := rapid.IntRange(0, len(q)-1).Draw(rt, "cut")
			q = q[:i]
		default:
			i := rapid.IntRange(0, len(q)-1).Draw(rt, "at")
			q = q[:i] + rapid.SampledFrom([]string{"{", "}", "\"", "[", "=", "(", ",", "\x00", " ", "5", "~"}).Draw(rt, "insert") + q[i:]
		}
		_, perr := canonical(q)
		var e1, e2 error
		var text string
		if err := vh.Try(func() {
			_, e1 = promql.ExtractSourceIds(q)
			text, e2 = promql.ReplaceSourceIdSets(q, map[string][]string{"app": {"x", "y"}})
		}); err != nil {
			rt.Fatalf("the sources of %q: %s", q, err)
		}
		if (e1 != nil) != (perr != nil) || (e2 != nil) != (perr != nil) || e2 != nil && text != "" {
			rt.Fatalf("%q (parse error %v): the errors are %v and %v", q, perr, e1, e2)
		}
		c.If(perr != nil, q)
	})
}

// exactMillis is the time of a decimal text in milliseconds.
func exactMillis(text string) *big.Rat {
	r, ok := new(big.Rat).SetString(text)
	if !ok {
		vh.Harness("%q is no decimal", text)
	}
	return r.Mul(r, big.NewRat(1000, 1))
}

type instant struct {
	text string
	ms   int64
	slop int64
	bad  bool
}

func genInstant(rt *rapid.T, lo, hi int64) instant {
	t := rapid.OneOf(rapid.Int64Range(lo, hi), rapid.Int64Range(1_500_000_000_000, 1_700_000_000_000), rapid.SampledFrom([]int64{0, 1, 999, 1000, 1564089600123})).Draw(rt, "millis")
	switch rapid.IntRange(0, 6).Draw(rt, "how written") {
	case 0:
		return instant{text: strconv.FormatInt(t/1000, 10), ms: t / 1000 * 1000}
	case 1, 2:
		return instant{text: ms(t), ms: t}
	case 3:
		return instant{text: strconv.FormatFloat(float64(t)/1000, 'e', 12, 64), ms: t}
	case 4:
		digits := rapid.Int64Range(0, 999_999).Draw(rt, "digits")
		return instant{text: fmt.Sprintf("%s%06d", ms(t), digits), ms: t, slop: 1}
	default:
		zone := rapid.SampledFrom([]*time.Location{time.UTC, time.FixedZone("", -6*3600), time.FixedZone("", 5*3600+45*60)}).Draw(rt, "zone")
		ns := rapid.OneOf(rapid.Just(int64(0)), rapid.Int64Range(0, 999_999)).Draw(rt, "nanos")
		f := rapid.SampledFrom([]string{time.RFC3339, time.RFC3339Nano, "2006-01-02T15:04:05.000Z07:00"}).Draw(rt, "format")
		w := time.UnixMilli(t).Add(time.Duration(ns)).In(zone)
		i := instant{text: w.Format(f), ms: t}
		if f == time.RFC3339 {
			i.ms = t / 1000 * 1000
		}
		return i
	}
}

var badTimes = []string{"", "potato", "NaN", "nan", "Inf", "-Inf", "+inf", "1e30", "-1e30", "9223372036854775808", "9223372037", "-9223372037", "1e300", "2015-07-01T20:10:30", "2015-07-01", "2015-13-01T20:10:30Z", "10:30", "1s", "1 ", " 1", "1,5", "--1", "1564089600.123.4", "１"}

func TestC34_Times(t *testing.T) {
	max := int64(math.MaxInt64/1_000_000) - 1000
	vh.Check(t, vh.N(3000, 200000), "the time has milliseconds, or the text is no time", func(rt *rapid.T, c *vh.Case) {
		p, _ := newPromQL(&reader{})
		i := genInstant(rt, 0, max)
		if oneIn(rt, 5, "bad") {
			i = instant{text: rapid.SampledFrom(badTimes).Draw(rt, "text"), bad: true}
		}
		if i.text == "" {
			// no time means now
			before := time.Now().Truncate(time.Second)
			resp, err := p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: "1"})
			if err != nil {
				rt.Fatalf("a query without a time failed: %s", err)
			}
			got, err := instantResult(resp)
			if err != nil || got.scalar.t%1000 != 0 || got.scalar.t < before.UnixMilli() || got.scalar.t > time.Now().UnixMilli() {
				rt.Fatalf("a query without a time gave %v (%v), at %v", resp, err, before)
			}
			c.Class("now")
			return
		}
		pt, err := promql.ParseTime(i.text)
		resp, qerr := p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: "1", Time: i.text})
		if (err != nil) != i.bad || (qerr != nil) != i.bad {
			rt.Fatalf("the time %q gave %v, %v and a query with it %v, %v", i.text, pt, err, resp, qerr)
		}
		c.If(i.bad || i.ms%1000 != 0, i.text)
		if i.bad {
			return
		}
		d := pt.Sub(time.UnixMilli(i.ms))
		if d < 0 || d > time.Millisecond || (i.slop == 0 && d == time.Millisecond) {
			rt.Fatalf("the time %q gave %v, want %v", i.text, pt.UTC(), time.UnixMilli(i.ms).UTC())
		}
		got, err := instantResult(resp)
		if err != nil || got.kind != "scalar" || got.scalar.v != 1 || got.scalar.t < i.ms || got.scalar.t > i.ms+i.slop {
			rt.Fatalf("a query at %q gave %v (%v), want the time %s", i.text, resp, err, ms(i.ms))
		}
	})
}

type stepText struct {
	text string
	ms   int64
	ns   int64 // the exact step, or -1 when it is not claimed
	bad  bool
}

func genStep(rt *rapid.T) stepText {
	units := []struct {
		u  string
		ms int64
	}{{"ms", 1}, {"s", 1000}, {"m", 60_000}, {"h", 3_600_000}, {"d", 86_400_000}, {"w", 604_800_000}, {"y", 365 * 86_400_000}}
	switch rapid.IntRange(0, 4).Draw(rt, "how written") {
	case 0:
		u := rapid.SampledFrom(units).Draw(rt, "unit")
		n := rapid.Int64Range(1, 90).Draw(rt, "count")
		return stepText{text: fmt.Sprint(n, u.u), ms: n * u.ms, ns: n * u.ms * 1e6}
	case 1:
		n := rapid.Int64Range(1, 10000).Draw(rt, "seconds")
		return stepText{text: fmt.Sprint(n), ms: n * 1000, ns: n * 1e9}
	case 2, 3:
		n := rapid.OneOf(rapid.Int64Range(1, 3000), rapid.Int64Range(1, 100_000_000)).Draw(rt, "millis")
		return stepText{text: ms(n), ms: n, ns: n * 1e6}
	default:
		return stepText{text: rapid.SampledFrom([]string{"", "0", "-1", "0s", "0.0001", "-0.5", "NaN", "Inf", "-Inf", "1e30", "9223372036.854775807e9", "9223372036854775808", "5q", "s", "1.5s", "-5s", " 1", "1h30m ", "potato", "5 s"}).Draw(rt, "bad step"), bad: true}
	}
}

func TestC34_Steps(t *testing.T) {
	max := int64(math.MaxInt64/1_000_000) - 1000
	vh.Check(t, vh.N(3000, 200000), "the range has two points or more, or one of its texts is bad", func(rt *rapid.T, c *vh.Case) {
		p, _ := newPromQL(&reader{})
		st := genStep(rt)
		from := genInstant(rt, 0, max/2)
		if from.slop > 0 {
			from = instant{text: ms(from.ms), ms: from.ms}
		}
		to := from
		if !oneIn(rt, 6, "one instant") {
			w := st.ms
			if st.bad {
				w = 1000
			}
			d := rapid.Int64Range(0, 20).Draw(rt, "points") * w
			if rapid.Bool().Draw(rt, "between points") {
				d += rapid.Int64Range(0, w-1).Draw(rt, "rest")
			}
			if from.ms+d > max {
				d = 0
			}
			to = instant{ms: from.ms + d, text: ms(from.ms + d)}
			if rapid.Bool().Draw(rt, "RFC") {
				to.text = time.UnixMilli(to.ms).UTC().Format(time.RFC3339Nano)
			}
		}
		bad := st.bad
		if oneIn(rt, 10, "bad start") {
			from.text, bad = rapid.SampledFrom(badTimes).Draw(rt, "bad start text"), true
		}
		if oneIn(rt, 10, "bad end") {
			to.text, bad = rapid.SampledFrom(badTimes).Draw(rt, "bad end text"), true
		}
		q := rapid.SampledFrom([]string{"1", "time()", `vector(1)`, `cpu{source_id="a"}`}).Draw(rt, "query")
		var resp *logcache_v1.PromQL_RangeQueryResult
		var err error
		if perr := vh.Try(func() {
			resp, err = p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: q, Start: from.text, End: to.text, Step: st.text})
		}); perr != nil {
			rt.Fatalf("the query %s from %q to %q step %q: %s", q, from.text, to.text, st.text, perr)
		}
		what := fmt.Sprintf("the query %s from %q to %q step %q", q, from.text, to.text, st.text)
		if (err != nil) != bad {
			rt.Fatalf("%s gave %v, %v", what, resp, err)
		}
		if d, e := promql.ParseStep(st.text); !st.bad && (e != nil || int64(d) != st.ns) {
			rt.Fatalf("the step %q is %v, %v, want %v", st.text, d, e, time.Duration(st.ns))
		}
		if bad {
			c.Class("bad text")
			c.NonTrivial(what)
			return
		}
		got, err := matrixResult(resp.GetMatrix())
		if err != nil {
			rt.Fatalf("%s gave %v: %s", what, resp, err)
		}
		if q == `cpu{source_id="a"}` {
			if len(got.series) != 0 {
				rt.Fatalf("%s gave %v", what, resp)
			}
			return
		}
		if len(got.series) != 1 {
			rt.Fatalf("%s gave %v", what, resp)
		}
		n := 0
		for i, pt := range got.series[0].points {
			want := from.ms + int64(i)*st.ms
			if pt.t != want || pt.t > to.ms || q == "time()" && pt.v != float64(want)/1000 {
				rt.Fatalf("%s gave %v as point %d, want it at %s", what, pt, i, ms(want))
			}
			n++
		}
		if from.ms+int64(n)*st.ms <= to.ms {
			rt.Fatalf("%s gave %d points only", what, n)
		}
		c.If(n > 1, what)
	})
}
