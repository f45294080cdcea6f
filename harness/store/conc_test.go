package store_test

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

type step struct {
	wait   int // half seconds, the store's rounds
	op     string
	source string
	n      int
	ts     int64
	desc   bool
}

type seen struct {
	sync.Mutex
	started map[string]map[string]int64 // source, id, timestamp
	done    map[string]map[string]bool
	bad     string
}

func (s *seen) fail(format string, a ...interface{}) {
	s.Lock()
	defer s.Unlock()
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, a...)
	}
}

func (s *seen) finished(source string) map[string]bool {
	s.Lock()
	defer s.Unlock()
	l := make(map[string]bool, len(s.done[source]))
	for k := range s.done[source] {
		l[k] = true
	}
	return l
}

// judge looks at a read: all=true when it must contain what was put before.
func (s *seen) judge(source string, got []*loggregator_v2.Envelope, before map[string]bool, desc bool) {
	s.Lock()
	defer s.Unlock()
	bad := func(f string, a ...interface{}) {
		if s.bad == "" {
			s.bad = fmt.Sprintf(f, a...)
		}
	}
	have := map[string]bool{}
	for i, e := range got {
		k := id(e)
		if have[k] {
			bad("a read of %q has %s twice", source, k)
		}
		have[k] = true
		if ts, ok := s.started[source][k]; !ok || ts != e.Timestamp {
			bad("a read of %q has %s@%d, which was never put there", source, k, e.Timestamp)
		}
		if i > 0 && (got[i-1].Timestamp > e.Timestamp) != desc && got[i-1].Timestamp != e.Timestamp {
			bad("a read of %q is out of order: %s", source, vh.Brief(got))
		}
	}
	for k := range before {
		if !have[k] {
			bad("a read of %q misses %s, which was put before it began and cannot be gone", source, k)
		}
	}
}

func TestC20_Concurrent(t *testing.T) {
	vh.Check(t, vh.N(150, 8000), "envelopes were put by several goroutines, and were evicted or pruned", func(rt *rapid.T, c *vh.Case) {
		max := rapid.SampledFrom([]int{1, 2, 5, 100000, 100000}).Draw(rt, "max")
		rounds := rapid.IntRange(1, 4).Draw(rt, "rounds")
		prune := make([]int, rounds+1)
		pruning := rapid.Bool().Draw(rt, "pruning")
		for i := range prune {
			if pruning {
				prune[i] = rapid.SampledFrom([]int{0, 1, 2, 5, 20, 1000000}).Draw(rt, "prune")
			}
		}
		workers := make([][]step, rapid.IntRange(2, 6).Draw(rt, "workers"))
		srcs := rapid.SampledFrom([][]string{{"a"}, {"a", "b"}, {"a", "b", "c", "d"}}).Draw(rt, "sources")
		puts := 0
		for w := range workers {
			for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "steps"); i < n; i++ {
				st := step{
					wait:   rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "wait"),
					op:     rapid.SampledFrom([]string{"put", "put", "put", "get", "meta"}).Draw(rt, "op"),
					source: rapid.SampledFrom(srcs).Draw(rt, "source"),
					n:      rapid.SampledFrom([]int{1, 1, 3, 20}).Draw(rt, "n"),
					ts:     rapid.Int64Range(0, 30).Draw(rt, "ts"),
					desc:   rapid.Bool().Draw(rt, "desc"),
				}
				if st.op == "put" {
					puts += st.n
				}
				workers[w] = append(workers[w], st)
			}
		}

		var removed, stored int
		err := vh.Bubble(t, func() {
			reg, mc := newRegistry(), &consultant{}
			s := &seen{started: map[string]map[string]int64{}, done: map[string]map[string]bool{}}
			for _, x := range srcs {
				s.started[x], s.done[x] = map[string]int64{}, map[string]bool{}
			}
			round, allowed := 0, 0
			mc.onAsk = func(n int64) int {
				if n < 0 {
					s.fail("the consultant was shown %d envelopes", n)
				}
				if round >= len(prune) {
					return 0
				}
				q := prune[round]
				round++
				if int64(q) > n {
					allowed += int(n)
				} else {
					allowed += q
				}
				return q
			}
			keeps := max > puts && !pruning
			st := newStoreWith(max, mc, reg)
			t0 := time.Now()
			var wg sync.WaitGroup
			var egress int
			var emu sync.Mutex
			for w := range workers {
				w := w
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, x := range workers[w] {
						if x.wait > 0 {
							// Up to the next round of the store, exactly.
							d := time.Since(t0) % (500 * time.Millisecond)
							time.Sleep(500*time.Millisecond - d)
						}
						switch x.op {
						case "put":
							for k := 0; k < x.n; k++ {
								e := vh.Log("", x.ts+int64(k%3), "")
								key := fmt.Sprintf("%d.%d.%d", w, i, k)
								e.Tags = map[string]string{"id": key}
								s.Lock()
								s.started[x.source][key] = e.Timestamp
								s.Unlock()
								st.Put(e, x.source)
								s.Lock()
								s.done[x.source][key] = true
								s.Unlock()
							}
						case "get":
							var before map[string]bool
							if keeps {
								before = s.finished(x.source)
							}
							got := st.Get(x.source, time.Unix(0, math.MinInt64), time.Unix(0, math.MaxInt64), nil, nil, 1<<30, x.desc)
							emu.Lock()
							egress += len(got)
							emu.Unlock()
							s.judge(x.source, got, before, x.desc)
						case "meta":
							for k, m := range st.Meta() {
								s.Lock()
								_, ok := s.started[k]
								s.Unlock()
								if !ok || m.Count <= 0 || m.Count > int64(max) || m.OldestTimestamp > m.NewestTimestamp || m.Expired < 0 {
									s.fail("meta of %q is %+v", k, m)
								}
							}
						}
					}
				}()
			}
			wg.Wait()
			for i := 0; i < rounds+2 || mc.rounds() < len(prune)+1; i++ {
				time.Sleep(500 * time.Millisecond)
				synctest.Wait()
			}
			defer mc.stop()
			expired := map[string]int64{}
			for _, x := range srcs {
				got := st.Get(x, time.Unix(0, math.MinInt64), time.Unix(0, math.MaxInt64), nil, nil, 1<<30, false)
				egress += len(got)
				stored += len(got)
				var before map[string]bool
				if keeps {
					before = s.finished(x)
				}
				s.judge(x, got, before, false)
				if len(got) > max {
					s.fail("%q holds %d of at most %d", x, len(got), max)
				}
				if !pruning {
					want := len(s.done[x])
					if want > max {
						want = max
					}
					if len(got) != want {
						s.fail("%q holds %d after %d puts, at most %d and no pruning", x, len(got), len(s.done[x]), max)
					}
				}
				m, ok := st.Meta()[x]
				if ok != (len(got) > 0) {
					s.fail("%q holds %d, in meta: %v", x, len(got), ok)
				}
				if ok && (m.Count != int64(len(got)) || m.OldestTimestamp != got[0].Timestamp || m.NewestTimestamp != got[len(got)-1].Timestamp) {
					s.fail("meta of %q is %+v, stored %s", x, m, vh.Brief(got))
				}
				expired[x] = m.Expired
			}
			removed = puts - stored
			if pruning && max > puts && removed != allowed {
				s.fail("%d put, %d stored, though the consultant asked for %d of them", puts, stored, allowed)
			}
			for name, want := range map[string]int{"log_cache_ingress": puts, "log_cache_expired": removed, "log_cache_egress": egress, "log_cache_store_size": stored} {
				if got := reg.v(name); got != float64(want) && !(puts == 0) {
					s.fail("%s is %v, want %d", name, got, want)
				}
			}
			if s.bad != "" {
				rt.Fatalf("%s", s.bad)
			}
		})
		if err != nil {
			rt.Fatalf("%s", err)
		}
		c.ClassIf(max < 10, "small sources")
		c.ClassIf(pruning, "pruning")
		c.ClassIf(removed > 0, "removed")
		c.If(removed > 0 && puts > 2, fmt.Sprintf("workers=%d puts=%d max=%d prune=%v stored=%d", len(workers), puts, max, prune, stored))
	})
}
