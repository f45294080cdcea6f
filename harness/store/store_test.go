package store_test

import (
	"fmt"
	"math"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

var sources = rapid.SampledFrom([]string{"a", "b", "c", "", "A"})

// stamps draws timestamps of one history: dense ones, so that they collide,
// recent ones, or any.
func stamps(rt *rapid.T) *rapid.Generator[int64] {
	switch rapid.SampledFrom([]string{"dense", "dense", "dense", "spread", "recent", "any"}).Draw(rt, "stamps") {
	case "dense":
		return rapid.Int64Range(-2, 9)
	case "spread":
		return rapid.Int64Range(-1000, 1000)
	case "recent":
		now := time.Now().UnixNano()
		return rapid.Custom(func(t *rapid.T) int64 {
			return now + int64(rapid.IntRange(-20, 5).Draw(t, "ms"))*int64(time.Millisecond)
		})
	}
	return rapid.OneOf(rapid.Int64Range(math.MinInt64, math.MaxInt64-1),
		rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64 - 1, 0, -1, math.MinInt64 + 1}), rapid.Int64Range(-3, 3))
}

func (m *model) drawQuery(ts *rapid.Generator[int64]) query {
	rt := m.rt
	q := query{source: sources.Draw(rt, "source"), desc: rapid.Bool().Draw(rt, "desc")}
	bound := rapid.Custom(func(t *rapid.T) int64 {
		if l := m.cur[q.source]; len(l) > 0 && rapid.Bool().Draw(t, "at an envelope") {
			x := rapid.SampledFrom(l).Draw(t, "which").ts
			d := rapid.Int64Range(-1, 1).Draw(t, "off")
			if x == math.MinInt64 && d < 0 {
				d = 0
			}
			return x + d
		}
		return ts.Draw(t, "bound")
	})
	if rapid.IntRange(0, 3).Draw(rt, "open") == 0 {
		q.start, q.end = math.MinInt64, math.MaxInt64
	} else {
		q.start, q.end = bound.Draw(rt, "start"), bound.Draw(rt, "end")
		if q.start > q.end && rapid.IntRange(0, 4).Draw(rt, "swap") > 0 {
			q.start, q.end = q.end, q.start
		}
	}
	if n := rapid.IntRange(0, 3).Draw(rt, "types"); n < 3 {
		for i := 0; i < n; i++ {
			q.types = append(q.types, vh.EnvelopeType[rapid.SampledFrom(append(append([]string{}, vh.Types...), "any")).Draw(rt, "type")])
		}
	}
	if rapid.IntRange(0, 2).Draw(rt, "filtered") == 0 {
		q.filter = rapid.SampledFrom([]string{"cpu", "^cpu$", ".*", "^$", "m", "disk.io", "http|mem", "nothing", "(?i)CPU", "[a-c]"}).Draw(rt, "filter")
	}
	q.limit = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 5, 8, 13, 1000, math.MaxInt32}).Draw(rt, "limit")
	return q
}

type tally struct{ limited, ties, filtered, found int }

func (m *model) read(ts *rapid.Generator[int64], t *tally) {
	q := m.drawQuery(ts)
	n, of := m.checkRead(q)
	if n > 0 {
		t.found++
		if n < of {
			t.limited++
		}
		if q.limit > 0 && n > q.limit {
			t.ties++
		}
		if q.filter != "" || q.types != nil {
			t.filtered++
		}
	}
}

func history(t *testing.T, rt *rapid.T, f func(rt *rapid.T) (*model, func())) *model {
	var m *model
	err := vh.Bubble(t, func() {
		var body func()
		m, body = f(rt)
		defer m.mc.stop()
		body()
	})
	if err != nil {
		rt.Fatalf("%s", err)
	}
	return m
}

func drawType(rt *rapid.T) string {
	return rapid.SampledFrom([]string{"log", "counter", "gauge", "timer", "event", "gauge", "none"}).Draw(rt, "kind")
}

func TestC17_Reads(t *testing.T) {
	vh.Check(t, vh.N(500, 30000), "a read that found something was cut by its limit, completed a group, or was filtered", func(rt *rapid.T, c *vh.Case) {
		var ta tally
		m := history(t, rt, func(rt *rapid.T) (*model, func()) {
			m := newModel(rt, rapid.SampledFrom([]int{1000, 1000, 12, 5}).Draw(rt, "max"))
			return m, func() {
				ts := stamps(rt)
				ops := rapid.SampledFrom([]int{4, 10, 25, 60}).Draw(rt, "ops")
				for i := 0; i < ops; i++ {
					switch rapid.IntRange(0, 12).Draw(rt, "op") {
					case 0:
						m.prune(rapid.IntRange(0, 4).Draw(rt, "n"))
					case 1, 2, 3:
						m.read(ts, &ta)
					default:
						m.put(sources.Draw(rt, "source"), drawType(rt), ts.Draw(rt, "ts"))
					}
				}
				for i := 0; i < 6; i++ {
					m.read(ts, &ta)
				}
			}
		})
		c.ClassIf(ta.limited > 0, "limited")
		c.ClassIf(ta.ties > 0, "a group exceeded the limit")
		c.ClassIf(ta.filtered > 0, "filtered")
		c.ClassIf(m.evicts > 0, "evicted")
		c.ClassIf(m.prunes > 0, "pruned")
		c.If(ta.limited > 0 || ta.ties > 0 || ta.filtered > 0, fmt.Sprintf("%s limited=%d ties=%d filtered=%d", m.dump(), ta.limited, ta.ties, ta.filtered))
	})
}

// TestC17_Deep reads single large sources at every border.
func TestC17_Deep(t *testing.T) {
	vh.Check(t, vh.N(25, 1500), "more than 100 envelopes are stored", func(rt *rapid.T, c *vh.Case) {
		m := history(t, rt, func(rt *rapid.T) (*model, func()) {
			m := newModel(rt, 5000)
			return m, func() {
				n := rapid.IntRange(50, 400).Draw(rt, "n")
				span := rapid.SampledFrom([]int64{5, 40, 1000, 100000}).Draw(rt, "span")
				order := rapid.SampledFrom([]string{"random", "up", "down", "zigzag"}).Draw(rt, "order")
				seed := rapid.Int64Range(0, 1<<30).Draw(rt, "seed")
				for i := 0; i < n; i++ {
					seed = (seed*6364136223846793005 + 1442695040888963407)
					ts := int64(uint64(seed)>>33) % span
					switch order {
					case "up":
						ts = int64(i) * span / int64(n)
					case "down":
						ts = int64(n-i) * span / int64(n)
					case "zigzag":
						ts = int64(i)
						if i%2 == 0 {
							ts = -ts
						}
					}
					m.seq++
					e := vh.Log("a", ts, "")
					e.Tags = map[string]string{"id": fmt.Sprint(m.seq)}
					m.cur["a"] = append(m.cur["a"], entry{id(e), ts, e})
					m.s.Put(e, "a")
				}
				byTime(m.cur["a"])
				if gone := m.sync("a"); len(gone) > 0 {
					rt.Fatalf("[%s] are missing", brief(gone))
				}
				for i := 0; i < 12; i++ {
					q := query{source: "a", desc: rapid.Bool().Draw(rt, "desc"), limit: rapid.SampledFrom([]int{1, 2, 10, 100, 1000}).Draw(rt, "limit")}
					l := m.cur["a"]
					q.start = l[rapid.IntRange(0, len(l)-1).Draw(rt, "from")].ts + rapid.Int64Range(-1, 1).Draw(rt, "off")
					q.end = l[rapid.IntRange(0, len(l)-1).Draw(rt, "to")].ts + rapid.Int64Range(-1, 1).Draw(rt, "off")
					if q.start > q.end {
						q.start, q.end = q.end, q.start
					}
					m.checkRead(q)
				}
				m.prune(rapid.IntRange(0, n).Draw(rt, "pruned"))
			}
		})
		c.If(m.seq > 100, fmt.Sprint(m.seq, m.stored(), m.egress))
	})
}

func churn(t *testing.T, rt *rapid.T, check func(m *model)) *model {
	return history(t, rt, func(rt *rapid.T) (*model, func()) {
		m := newModel(rt, rapid.SampledFrom([]int{1, 2, 3, 4, 7, 20}).Draw(rt, "max"))
		return m, func() {
			ts := stamps(rt)
			ops := rapid.SampledFrom([]int{4, 12, 30, 60}).Draw(rt, "ops")
			for i := 0; i < ops; i++ {
				switch rapid.IntRange(0, 9).Draw(rt, "op") {
				case 0:
					m.prune(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 1000}).Draw(rt, "n"))
				case 1:
					time.Sleep(time.Duration(rapid.IntRange(0, 450).Draw(rt, "ms")) * time.Millisecond)
				case 2:
					m.get(query{source: sources.Draw(rt, "source"), end: 5, limit: 2})
				default:
					m.put(sources.Draw(rt, "source"), drawType(rt), ts.Draw(rt, "ts"))
				}
				check(m)
			}
		}
	})
}

func TestC18_Eviction(t *testing.T) {
	vh.Check(t, vh.N(500, 30000), "an envelope was evicted and some were pruned", func(rt *rapid.T, c *vh.Case) {
		m := churn(t, rt, func(m *model) {
			m.checkMetrics()
			for s, l := range m.cur {
				if len(l) > m.max {
					rt.Fatalf("%q holds %d of at most %d", s, len(l), m.max)
				}
			}
		})
		c.ClassIf(m.evicts > 0, "evicted")
		c.ClassIf(m.prunes > 0, "pruned")
		c.ClassIf(m.swept > 0, "a source was emptied")
		c.If(m.evicts > 0 && m.prunes > 0 && m.removed > m.evicts, fmt.Sprintf("max=%d puts=%d evicted=%d rounds=%d removed=%d left %s", m.max, m.puts, m.evicts, m.prunes, m.removed, m.dump()))
	})
}

func TestC19_Meta(t *testing.T) {
	vh.Check(t, vh.N(500, 30000), "meta was taken after an eviction and a pruning", func(rt *rapid.T, c *vh.Case) {
		m := churn(t, rt, (*model).checkMeta)
		c.ClassIf(m.evicts > 0, "evicted")
		c.ClassIf(m.prunes > 0, "pruned")
		c.ClassIf(m.swept > 0, "a source was emptied")
		c.If(m.evicts > 0 && m.removed > m.evicts, fmt.Sprintf("max=%d puts=%d evicted=%d rounds=%d removed=%d left %s", m.max, m.puts, m.evicts, m.prunes, m.removed, m.dump()))
	})
}

// TestC18_Many prunes stores of many sources.
func TestC18_Many(t *testing.T) {
	vh.Check(t, vh.N(20, 800), "more than 64 sources are pruned", func(rt *rapid.T, c *vh.Case) {
		m := history(t, rt, func(rt *rapid.T) (*model, func()) {
			m := newModel(rt, 1000)
			return m, func() {
				n := rapid.SampledFrom([]int{3, 40, 150, 600}).Draw(rt, "sources")
				span := rapid.SampledFrom([]uint64{3, 100, 1 << 40}).Draw(rt, "span")
				seed := rapid.Uint64().Draw(rt, "seed")
				for i := 0; i < 3*n; i++ {
					seed = seed*6364136223846793005 + 1442695040888963407
					s, ts := fmt.Sprint((seed>>33)%uint64(n)), int64((seed>>20)%span)
					m.seq++
					e := vh.Log(s, ts, "")
					e.Tags = map[string]string{"id": fmt.Sprint(m.seq)}
					m.cur[s] = byTime(append(m.cur[s], entry{id(e), ts, e}))
					m.s.Put(e, s)
					m.puts++
				}
				for i := 0; i < 3; i++ {
					m.prune(rapid.IntRange(0, 2*n).Draw(rt, "pruned"))
					m.checkMetrics()
					m.checkMeta()
				}
			}
		})
		c.If(m.seq > 3*64 && m.removed > 0, fmt.Sprint(m.seq, m.removed, m.stored()))
	})
}
