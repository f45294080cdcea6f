package promql_test

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// ambiguous tells whether the envelopes leave a choice of values: two of a
// source in one second, or two metrics that are named alike.
func (w *world) ambiguous() bool {
	at := map[string]bool{}
	for _, e := range w.r.envs {
		k := fmt.Sprint(e.SourceId, "@", e.Timestamp/1e9)
		if at[k] {
			return true
		}
		at[k] = true
		names := map[string]bool{}
		for n := range e.GetGauge().GetMetrics() {
			if names[sanitize(n)] {
				return true
			}
			names[sanitize(n)] = true
		}
	}
	return false
}

// shown writes a result out, with or without its values.
func (r result) shown(values bool) string {
	var l []string
	for _, s := range r.series {
		t := "{" + labelKey(s.labels) + "}"
		for _, p := range s.points {
			t += " @" + ms(p.t)
			if values {
				t += fmt.Sprintf("=%v", p.v+0)
			}
		}
		l = append(l, t)
	}
	sort.Strings(l)
	return r.kind + " " + strings.Join(l, "; ")
}

// inBraces moves a selector's name into its braces.
func (s selector) inBraces(rt *rapid.T) string {
	l := []string{}
	for _, m := range s.matchers {
		l = append(l, m.text())
	}
	i := rapid.IntRange(0, len(l)).Draw(rt, "name's place")
	n := "__name__=" + strconv.Quote(s.name)
	l = append(l[:i], append([]string{n}, l[i:]...)...)
	return "{" + strings.Join(l, ",") + "}"
}

func TestC33_SameResult(t *testing.T) {
	vh.Check(t, vh.N(2000, 100000), "the query gives a series", func(rt *rapid.T, c *vh.Case) {
		w := genWorld(rt)
		sel := func() string {
			s := genSelector(rt, w)
			if oneIn(rt, 3, "name in braces") {
				return s.inBraces(rt)
			}
			return s.text()
		}
		var q string
		switch rapid.IntRange(0, 4).Draw(rt, "shape") {
		case 0, 1:
			q = sel()
		case 2:
			q = rapid.SampledFrom([]string{"count_over_time(%s[1m])", "sum_over_time(%s[30s] offset 2s)", "max_over_time(%s[600s])"}).Draw(rt, "function")
			q = fmt.Sprintf(q, sel())
		case 3:
			q = rapid.SampledFrom([]string{"count(%s)", "count(%s) by (a,instance_id)", "count(%s offset 1s) without (source_id)", "%s * 2", "-%s"}).Draw(rt, "operator")
			q = fmt.Sprintf(q, sel())
		default:
			q = rapid.SampledFrom([]string{"%s or %s", "%s and ignoring (instance_id) %s", "%s unless %s", "%s and on (source_id) %s"}).Draw(rt, "binary")
			q = fmt.Sprintf(q, sel(), sel())
		}
		exp := map[string][]string{}
		ids, err := promql.ExtractSourceIds(q)
		if err != nil {
			rt.Fatalf("the sources of %s: %s", q, err)
		}
		same := true
		for _, id := range ids {
			exp[id] = []string{id}
			if rapid.Bool().Draw(rt, "with another") {
				// one that holds nothing
				exp[id] = append([]string{"vacant-1"}, id)
				same = false
			}
		}
		text, err := promql.ReplaceSourceIdSets(q, exp)
		if err != nil {
			rt.Fatalf("replacing %q in %s: %s", exp, q, err)
		}
		values := !w.ambiguous()
		var show [2]string
		var series int
		ranged := oneIn(rt, 3, "range")
		for i, x := range []string{q, text} {
			p, _ := newPromQL(w.r)
			var got result
			var err error
			if ranged {
				resp, e := p.RangeQuery(context.Background(), &logcache_v1.PromQL_RangeQueryRequest{Query: x, Start: ms(w.now - 20000), End: ms(w.now), Step: "7"})
				if err = e; e == nil {
					got, err = matrixResult(resp.GetMatrix())
				}
			} else {
				resp, e := p.InstantQuery(context.Background(), &logcache_v1.PromQL_InstantQueryRequest{Query: x, Time: ms(w.now)})
				if err = e; e == nil {
					got, err = instantResult(resp)
				}
			}
			show[i] = got.shown(values)
			if err != nil {
				if strings.Contains(err.Error(), "many-to-many") {
					err = fmt.Errorf("many-to-many")
				}
				show[i] = "error " + err.Error()
			}
			if i == 0 {
				series = len(got.series)
			}
		}
		if show[0] != show[1] {
			rt.Fatalf("the query %s gave\n%s\nand with its sources replaced, %s,\n%s", q, show[0], text, show[1])
		}
		c.ClassIf(values, "values compared")
		c.ClassIf(!same, "more sources")
		c.ClassIf(strings.Contains(q, "__name__"), "name in braces")
		c.If(series > 0, q+" => "+text)
	})
}
