package cluster_test

import (
	"fmt"
	"strconv"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// count is a metric of a node.
func (n *node) count(name string) float64 { return n.reg.GetMetric(name, nil).Value() }

// TestC49_Counts: what the nodes count adds up with what was written and read.
func TestC49_Counts(t *testing.T) {
	vh.Check(t, vh.N(14, 500), "several nodes, of which some keep more than one source", func(rt *rapid.T, c *vh.Case) {
		most := rapid.SampledFrom([]int{1, 7, 40, 1000}).Draw(rt, "max per source")
		cl, owner, stop := newCluster(rt, most)
		defer stop()
		h, at := holdings{}, int64(0)
		var ids []string
		history := ""
		for round := rapid.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
			l, entries := write(rt, cl, h, fmt.Sprintf("%d-", round), &at, oneIn(rt, 3, "in order"))
			ids = append(ids, l...)
			history += fmt.Sprintf("; %d sources by %d nodes", len(l), entries)
			// what is kept, and what had to go
			check := func() string {
				for i, n := range cl.nodes {
					put, kept := 0, 0
					for id, es := range h {
						if owner(id) == n {
							put += len(es)
							if len(es) < most {
								kept += len(es)
							} else {
								kept += most
							}
						}
					}
					if x := n.count("log_cache_ingress"); x != float64(put) {
						return fmt.Sprintf("node %d counts an ingress of %g envelopes, and was given %d", i, x, put)
					}
					if x := n.count("log_cache_store_size"); x != float64(kept) {
						return fmt.Sprintf("node %d counts %g envelopes in its store, and keeps %d", i, x, kept)
					}
					if x := n.count("log_cache_expired"); x != float64(put-kept) {
						return fmt.Sprintf("node %d counts %g expired envelopes of %d that expired", i, x, put-kept)
					}
					for k := range cl.nodes {
						if k == i || len(cl.nodes) == 1 {
							continue
						}
						if x := n.reg.GetMetric("ingress_dropped", map[string]string{"nodeIndex": strconv.Itoa(k)}).Value(); x != 0 {
							return fmt.Sprintf("node %d counts %g envelopes as dropped for node %d", i, x, k)
						}
					}
				}
				return ""
			}
			if d := until(20*time.Second, check); d != "" {
				rt.Fatalf("%s%s", d, history)
			}
			// reads count where they are answered
			before := map[*node]float64{}
			for _, n := range cl.nodes {
				before[n] = n.count("log_cache_egress")
			}
			for k := rapid.IntRange(0, 12).Draw(rt, "reads"); k > 0; k-- {
				id := "nobody"
				if len(ids) > 0 && !oneIn(rt, 8, "of nobody") {
					id = rapid.SampledFrom(ids).Draw(rt, "source")
				}
				n := rapid.SampledFrom(cl.nodes).Draw(rt, "read at")
				opts := []client.ReadOption{client.WithLimit(rapid.SampledFrom([]int{0, 1, 5, 100, 1000}).Draw(rt, "limit"))}
				if rapid.Bool().Draw(rt, "descending") {
					opts = append(opts, client.WithDescending())
				}
				if rapid.Bool().Draw(rt, "end") {
					opts = append(opts, client.WithEndTime(time.Unix(0, rapid.Int64Range(1, at+1).Draw(rt, "until"))))
				}
				es, err := n.api.Read(ctx(), id, time.Unix(0, rapid.Int64Range(0, at).Draw(rt, "from")), opts...)
				if err != nil {
					es = nil // a window may be none
				}
				before[owner(id)] += float64(len(es))
			}
			for i, n := range cl.nodes {
				if x := n.count("log_cache_egress"); x != before[n] {
					rt.Fatalf("node %d counts an egress of %g envelopes, want %g%s", i, x, before[n], history)
				}
			}
			// queries
			for k := rapid.IntRange(0, 4).Draw(rt, "queries"); k > 0; k-- {
				n := rapid.SampledFrom(cl.nodes).Draw(rt, "query at")
				q := "1"
				if len(ids) > 0 {
					q = fmt.Sprintf("metric{source_id=%q}", rapid.SampledFrom(ids).Draw(rt, "source"))
				}
				if oneIn(rt, 4, "malformed") {
					q += "{"
				}
				name := "log_cache_promql_instant_query_time"
				since := time.Now()
				if rapid.Bool().Draw(rt, "range") {
					name = "log_cache_promql_range_query_time"
					n.api.PromQLRange(ctx(), q, client.WithPromQLStart(time.Unix(1, 0)), client.WithPromQLEnd(time.Unix(100, 0)), client.WithPromQLStep("10s"))
				} else {
					n.api.PromQL(ctx(), q)
				}
				// that of an earlier query may be greater
				if x := n.count(name); x < 0 || x > float64(time.Since(start0)/time.Millisecond) {
					rt.Fatalf("%s is %g ms after a query of %s", name, x, time.Since(since))
				}
				if x := n.count("log_cache_promql_timeout"); x != 0 {
					rt.Fatalf("a query %q counts as a timeout", q)
				}
			}
			for i, n := range cl.nodes {
				if x := n.count("log_cache_memory_utilization"); x < 0 || x > 100 {
					rt.Fatalf("node %d uses %g%% of the memory", i, x)
				}
			}
			if d := check(); d != "" {
				rt.Fatalf("after reads and queries: %s%s", d, history)
			}
		}
		several := false
		owned := map[*node]int{}
		for id := range h {
			owned[owner(id)]++
			several = several || owned[owner(id)] > 1
		}
		c.Class(fmt.Sprintf("%d nodes", len(cl.nodes)))
		c.If(len(cl.nodes) > 1 && several, fmt.Sprint(len(cl.nodes), most, at, history))
	})
}

var start0 = time.Now()
