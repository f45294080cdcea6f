package store_test

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// registry keeps the metrics by name.
type registry struct {
	mu    sync.Mutex
	cells map[string]*cell
}

type cell struct{ bits uint64 }

func (c *cell) Add(d float64) {
	for {
		o := atomic.LoadUint64(&c.bits)
		if atomic.CompareAndSwapUint64(&c.bits, o, math.Float64bits(math.Float64frombits(o)+d)) {
			return
		}
	}
}
func (c *cell) Set(v float64) { atomic.StoreUint64(&c.bits, math.Float64bits(v)) }
func (c *cell) get() float64  { return math.Float64frombits(atomic.LoadUint64(&c.bits)) }

func newRegistry() *registry { return &registry{cells: map[string]*cell{}} }

func (r *registry) cell(name string) *cell {
	r.mu.Lock()
	defer r.mu.Unlock()
	c, ok := r.cells[name]
	if !ok {
		c = &cell{}
		r.cells[name] = c
	}
	return c
}

func (r *registry) NewCounter(name string, _ ...metrics.MetricOption) metrics.Counter {
	return r.cell(name)
}

func (r *registry) NewGauge(name string, _ ...metrics.MetricOption) metrics.Gauge {
	return r.cell(name)
}

func (r *registry) v(name string) float64 { return r.cell(name).get() }

// consultant answers what it is told to, and ends the store's loop when told
// to stop.
type consultant struct {
	mu      sync.Mutex
	next    int
	asked   []int64
	stopped bool
	at      time.Time // of the latest round
	onAsk   func(count int64) int
	gauge   metrics.Gauge
}

func (c *consultant) GetQuantityToPrune(n int64) int {
	c.mu.Lock()
	if c.stopped {
		c.mu.Unlock()
		runtime.Goexit()
	}
	c.asked = append(c.asked, n)
	c.at = time.Now()
	q := c.next
	c.next = 0
	f := c.onAsk
	c.mu.Unlock()
	if f != nil {
		return f(n)
	}
	return q
}

func (c *consultant) SetMemoryReporter(g metrics.Gauge) { c.gauge = g }

func (c *consultant) rounds() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.asked)
}

func (c *consultant) when() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.at
}

// stop lets the store's loop end, so that the bubble can.
func (c *consultant) stop() {
	c.mu.Lock()
	c.stopped = true
	c.mu.Unlock()
	time.Sleep(time.Minute)
}

// prune waits for the next round, in which the consultant answers n, and
// returns the count it was shown.
func (c *consultant) prune(n int) (int64, bool) {
	synctest.Wait()
	c.mu.Lock()
	was := len(c.asked)
	c.next = n
	c.mu.Unlock()
	for i := 0; i < 200 && c.rounds() == was; i++ {
		time.Sleep(50 * time.Millisecond)
		synctest.Wait()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.asked) != was+1 {
		return 0, false
	}
	return c.asked[was], true
}

// Entries of the model.
type entry struct {
	id  string
	ts  int64
	env *loggregator_v2.Envelope
}

func id(e *loggregator_v2.Envelope) string { return e.GetTags()["id"] }

func byTime(l []entry) []entry {
	sort.SliceStable(l, func(i, j int) bool { return l[i].ts < l[j].ts })
	return l
}

func brief(l []entry) string {
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "%s@%d ", x.id, x.ts)
	}
	return b.String()
}

// model is what a store must hold.
type model struct {
	rt  *rapid.T
	s   *store.Store
	r   *registry
	mc  *consultant
	max int

	seq     int
	cur     map[string][]entry
	expired map[string]int64
	puts    int
	removed int
	egress  int
	stale   bool
	evicts  int
	prunes  int
	swept   int
}

func newModel(rt *rapid.T, max int) *model {
	m := &model{rt: rt, max: max, r: newRegistry(), mc: &consultant{},
		cur: map[string][]entry{}, expired: map[string]int64{}}
	m.s = store.NewStore(max, m.mc, m.r)
	return m
}

// all reads everything of a source.
func (m *model) all(source string) []*loggregator_v2.Envelope {
	l := m.s.Get(source, time.Unix(0, math.MinInt64), time.Unix(0, math.MaxInt64), nil, nil, 1<<30, false)
	m.egress += len(l)
	return l
}

// sync makes the model what the store holds, which must be sub-multiset of
// what the model had, and returns what is gone.
func (m *model) sync(source string) []entry {
	had := m.cur[source]
	left := map[string]bool{}
	prev := int64(math.MinInt64)
	for _, e := range m.all(source) {
		if left[id(e)] {
			m.rt.Fatalf("%q is twice in %q", id(e), source)
		}
		left[id(e)] = true
		if e.Timestamp < prev {
			m.rt.Fatalf("%q is read out of order: %s", source, vh.Brief(m.all(source)))
		}
		prev = e.Timestamp
	}
	var keep, gone []entry
	for _, x := range had {
		if left[x.id] {
			keep = append(keep, x)
			delete(left, x.id)
		} else {
			gone = append(gone, x)
		}
	}
	if len(left) > 0 {
		m.rt.Fatalf("%q holds %v, which was never put or is gone already", source, left)
	}
	if len(keep) == 0 {
		delete(m.cur, source)
	} else {
		m.cur[source] = keep
	}
	return byTime(gone)
}

func (m *model) stored() int {
	n := 0
	for _, l := range m.cur {
		n += len(l)
	}
	return n
}

func (m *model) dump() string {
	var b strings.Builder
	for _, s := range vh.Keys(m.cur) {
		fmt.Fprintf(&b, "%s[%s] ", s, brief(m.cur[s]))
	}
	return b.String()
}

// put stores an envelope and checks what went: nothing below the capacity,
// one of the oldest at it.
func (m *model) put(source, typ string, ts int64) {
	m.seq++
	e := vh.Env(m.rt, typ, rapid.SampledFrom([]string{source, source, "other", ""}).Draw(m.rt, "envelope's source"), ts)
	if e.Tags == nil {
		e.Tags = map[string]string{}
	}
	e.Tags["id"] = fmt.Sprint(m.seq)
	if rapid.IntRange(0, 3).Draw(m.rt, "deprecated tags") == 0 {
		e.DeprecatedTags = map[string]*loggregator_v2.Value{"d": {Data: &loggregator_v2.Value_Integer{Integer: int64(m.seq)}}}
	}
	had := append([]entry(nil), m.cur[source]...)
	x := entry{id(e), ts, proto.Clone(e).(*loggregator_v2.Envelope)}
	m.cur[source] = byTime(append(had[:len(had):len(had)], x))
	m.s.Put(e, source)
	m.puts++
	gone := m.sync(source)
	if len(had) < m.max {
		if len(gone) > 0 {
			m.rt.Fatalf("a put of @%d into %q with room for %d of [%s] lost [%s]", ts, source, m.max, brief(had), brief(gone))
		}
		m.checkPeriod(time.Now())
		return
	}
	m.evicts++
	m.stale = true
	m.removed += len(gone)
	m.expired[source] += int64(len(gone))
	if len(gone) != 1 || gone[0].id == x.id || gone[0].ts != had[0].ts {
		m.rt.Fatalf("a put of %s@%d into %q, full with [%s], evicted [%s]", x.id, ts, source, brief(had), brief(gone))
	}
}

// prune runs one round of pruning and checks that the oldest of the whole
// store went.
func (m *model) prune(n int) {
	before := map[string][]entry{}
	var all []entry
	for s, l := range m.cur {
		before[s] = append([]entry(nil), l...)
		all = append(all, l...)
	}
	byTime(all)
	shown, ok := m.mc.prune(n)
	if !ok {
		m.rt.Fatalf("the consultant was not asked once in ten seconds: %d times", m.mc.rounds())
	}
	if int(shown) != len(all) {
		m.rt.Fatalf("the consultant was shown %d envelopes, %d are stored", shown, len(all))
	}
	m.prunes++
	var gone []entry
	for s := range before {
		g := m.sync(s)
		gone = append(gone, g...)
		m.removed += len(g)
		m.expired[s] += int64(len(g))
		if len(m.cur[s]) == 0 {
			delete(m.expired, s)
			m.swept++
		}
	}
	byTime(gone)
	want := n
	if want > len(all) {
		want = len(all)
	}
	if len(gone) != want {
		m.rt.Fatalf("asked to prune %d of [%s], [%s] are gone", n, brief(all), brief(gone))
	}
	for i := range gone {
		if gone[i].ts != all[i].ts {
			m.rt.Fatalf("asked to prune %d of [%s], [%s] are gone, which are not the oldest", n, brief(all), brief(gone))
		}
	}
	if want == 0 {
		return
	}
	m.stale = false
	m.checkPeriod(m.mc.when())
}

// checkPeriod checks the cache period as set at the given time, which is the
// oldest envelope's age unless an eviction came after the latest pruning.
func (m *model) checkPeriod(at time.Time) {
	if m.stale {
		return
	}
	period, oldest := int64(0), int64(math.MaxInt64)
	for _, l := range m.cur {
		if l[0].ts < oldest {
			oldest = l[0].ts
		}
	}
	if len(m.cur) > 0 {
		period = (at.UnixNano() - oldest) / int64(time.Millisecond)
	}
	if got := m.r.v("log_cache_cache_period"); got != float64(period) {
		m.rt.Fatalf("the cache period is %v ms, want %v (at %d, stored %s)", got, period, at.UnixNano(), m.dump())
	}
}

func (m *model) checkMetrics() {
	n := m.stored()
	for name, want := range map[string]int{
		"log_cache_ingress": m.puts, "log_cache_expired": m.removed, "log_cache_egress": m.egress, "log_cache_store_size": n,
	} {
		if got := m.r.v(name); got != float64(want) {
			m.rt.Fatalf("%s is %v, want %d: %s", name, got, want, m.dump())
		}
	}
	if m.puts-m.removed != n {
		m.rt.Fatalf("%d put, %d expired, %d stored", m.puts, m.removed, n)
	}
}

func (m *model) checkMeta() {
	meta := m.s.Meta()
	for s := range meta {
		if _, ok := m.cur[s]; !ok {
			m.rt.Fatalf("meta lists %q, which holds nothing: %s", s, m.dump())
		}
	}
	for s, l := range m.cur {
		i, ok := meta[s]
		if !ok {
			m.rt.Fatalf("meta does not list %q: %s", s, m.dump())
		}
		if i.Count != int64(len(l)) || i.Expired != m.expired[s] || i.OldestTimestamp != l[0].ts || i.NewestTimestamp != l[len(l)-1].ts {
			m.rt.Fatalf("meta of %q is count %d expired %d oldest %d newest %d, want %d %d: %s", s, i.Count, i.Expired, i.OldestTimestamp, i.NewestTimestamp, len(l), m.expired[s], brief(l))
		}
	}
}

// reduce is what a name filter leaves of an envelope.
func reduce(e *loggregator_v2.Envelope, f *regexp.Regexp) *loggregator_v2.Envelope {
	if f == nil {
		return e
	}
	switch vh.TypeOf(e) {
	case "counter":
		if f.MatchString(e.GetCounter().GetName()) {
			return e
		}
	case "timer":
		if f.MatchString(e.GetTimer().GetName()) {
			return e
		}
	case "gauge":
		c := proto.Clone(e).(*loggregator_v2.Envelope)
		for k := range c.GetGauge().Metrics {
			if !f.MatchString(k) {
				delete(c.GetGauge().Metrics, k)
			}
		}
		if len(c.GetGauge().Metrics) > 0 {
			return c
		}
	}
	return nil
}

type query struct {
	source     string
	start, end int64
	types      []logcache_v1.EnvelopeType
	filter     string
	limit      int
	desc       bool
}

func (m *model) get(q query) []*loggregator_v2.Envelope {
	var f *regexp.Regexp
	if q.filter != "" {
		f = regexp.MustCompile(q.filter)
	}
	l := m.s.Get(q.source, time.Unix(0, q.start), time.Unix(0, q.end), q.types, f, q.limit, q.desc)
	m.egress += len(l)
	return l
}

// checkRead compares a read with the model: the full list of matches, cut
// after the limit at the next change of timestamp.
func (m *model) checkRead(q query) (n, matches int) {
	got := m.get(q)
	var f *regexp.Regexp
	if q.filter != "" {
		f = regexp.MustCompile(q.filter)
	}
	var match []entry
	for _, x := range m.cur[q.source] {
		if x.ts < q.start || x.ts >= q.end {
			continue
		}
		ok := q.types == nil
		for _, t := range q.types {
			if t == logcache_v1.EnvelopeType_ANY || t == vh.EnvelopeType[vh.TypeOf(x.env)] && vh.TypeOf(x.env) != "none" {
				ok = true
			}
		}
		if !ok {
			continue
		}
		if e := reduce(x.env, f); e != nil {
			match = append(match, entry{x.id, x.ts, e})
		}
	}
	if q.desc {
		for i, j := 0, len(match)-1; i < j; i, j = i+1, j-1 {
			match[i], match[j] = match[j], match[i]
		}
	}
	want := match
	if q.limit < len(match) {
		k := q.limit
		for k > 0 && k < len(match) && match[k].ts == match[k-1].ts {
			k++
		}
		want = match[:k]
	}
	fail := func(what string) {
		m.rt.Fatalf("%s: read %+v of [%s] gave %s, want [%s]", what, q, brief(m.cur[q.source]), vh.Brief(got), brief(want))
	}
	if len(got) != len(want) {
		fail(fmt.Sprintf("%d instead of %d", len(got), len(want)))
	}
	for i, e := range got {
		if e.Timestamp != want[i].ts || id(e) != want[i].id {
			fail(fmt.Sprintf("%s at %d", id(e), i))
		}
		if !proto.Equal(e, want[i].env) {
			fail(fmt.Sprintf("%s instead of %s", vh.Str(e), vh.Str(want[i].env)))
		}
	}
	return len(want), len(match)
}
