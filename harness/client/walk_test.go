package client_test

import (
	"context"
	"errors"
	"fmt"
	"math"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// cached is one envelope of the model cache and when it becomes readable.
type cached struct {
	e       *loggregator_v2.Envelope
	arrival int64
}

// modelCache serves reads the way the store does: in timestamp order, from
// start, at most limit of them but never splitting a run of equal timestamps.
type modelCache struct {
	content []cached // sorted by timestamp
}

func (m *modelCache) read(now, start, end int64, limit int, sloppyEnd bool) []*loggregator_v2.Envelope {
	var out []*loggregator_v2.Envelope
	for _, c := range m.content {
		ts := c.e.Timestamp
		if c.arrival > now || ts < start || (!sloppyEnd && ts >= end) {
			continue
		}
		if len(out) >= limit && out[len(out)-1].Timestamp != ts {
			break
		}
		out = append(out, c.e)
	}
	return out
}

type readCall struct {
	source string
	start  int64
	query  url.Values
}

func parseOpts(opts []client.ReadOption) url.Values {
	q := url.Values{}
	u := &url.URL{}
	for _, o := range opts {
		o(u, q)
	}
	return q
}

// checkCall compares the parameters of one read with those of the walk.
func (w walkSpec) checkCall(c readCall) error {
	want := url.Values{}
	if w.bounded {
		want.Set("end_time", strconv.FormatInt(w.end, 10))
	}
	if w.limit > 0 {
		want.Set("limit", strconv.Itoa(w.limit))
	}
	if w.nameFilter != "" {
		want.Set("name_filter", w.nameFilter)
	}
	for _, t := range w.types {
		want.Add("envelope_types", t.String())
	}
	if c.query.Encode() != want.Encode() {
		return fmt.Errorf("read with parameters %q, want %q", c.query.Encode(), want.Encode())
	}
	if c.source != w.source {
		return fmt.Errorf("read of source %q, want %q", c.source, w.source)
	}
	return nil
}

type walkSpec struct {
	source     string
	start, end int64
	setStart   bool
	bounded    bool
	limit      int // 0: not set
	page       int
	nameFilter string
	types      []logcache_v1.EnvelopeType
	delay      time.Duration // <0: not set
	sloppyEnd  bool
	latency    time.Duration
	faults     []string // per read: "", "err", "empty"
	interval   time.Duration
	retry      bool
	content    []cached
}

func (w walkSpec) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "start=%d(set=%v) end=%d(bounded=%v) limit=%d page=%d delay=%s sloppy=%v lat=%s faults=%v retry=%v/%s content=", w.start, w.setStart, w.end, w.bounded, w.limit, w.page, w.delay, w.sloppyEnd, w.latency, w.faults, w.retry, w.interval)
	for _, c := range w.content {
		fmt.Fprintf(&b, "%d@+%d ", c.e.Timestamp, c.arrival-c.e.Timestamp)
	}
	return b.String()
}

// bubbleEpoch is when bubbles of virtual time start.
var bubbleEpoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano()

func (w walkSpec) options() []client.WalkOption {
	var o []client.WalkOption
	if w.setStart {
		o = append(o, client.WithWalkStartTime(time.Unix(0, w.start)))
	}
	if w.bounded {
		o = append(o, client.WithWalkEndTime(time.Unix(0, w.end)))
	}
	if w.limit > 0 {
		o = append(o, client.WithWalkLimit(w.limit))
	}
	if w.nameFilter != "" {
		o = append(o, client.WithWalkNameFilter(w.nameFilter))
	}
	if w.types != nil {
		o = append(o, client.WithWalkEnvelopeTypes(w.types...))
	}
	if w.delay >= 0 {
		o = append(o, client.WithWalkDelay(w.delay))
	}
	if w.retry {
		o = append(o, client.WithWalkBackoff(client.NewAlwaysRetryBackoff(w.interval)))
	}
	return o
}

func drawCommon(rt *rapid.T, w *walkSpec) {
	w.source = rapid.SampledFrom([]string{"app", "a/b", "", "ünï code", "x%2F?#"}).Draw(rt, "source")
	if rapid.Bool().Draw(rt, "haslimit") {
		w.limit = rapid.IntRange(1, 6).Draw(rt, "limit")
		w.page = w.limit
	} else {
		w.page = rapid.IntRange(1, 9).Draw(rt, "page")
	}
	if rapid.Bool().Draw(rt, "hasname") {
		w.nameFilter = rapid.SampledFrom([]string{"^cpu$", ".*", "a&b=c"}).Draw(rt, "namefilter")
	}
	if rapid.Bool().Draw(rt, "hastypes") {
		w.types = rapid.SliceOfN(rapid.SampledFrom([]logcache_v1.EnvelopeType{
			logcache_v1.EnvelopeType_LOG, logcache_v1.EnvelopeType_GAUGE, logcache_v1.EnvelopeType_ANY, logcache_v1.EnvelopeType_TIMER}), 1, 3).Draw(rt, "types")
	}
	w.faults = rapid.SliceOfN(rapid.SampledFrom([]string{"", "", "", "err", "empty"}), 0, 12).Draw(rt, "faults")
}

func sortContent(c []cached) {
	sort.SliceStable(c, func(i, j int) bool { return c[i].e.Timestamp < c[j].e.Timestamp })
	for i := range c {
		c[i].e.Message = vh.Log("", 0, fmt.Sprint("e", i)).Message
	}
}

var errTransient = errors.New("transient read failure")

type tooMany struct{}

// walk runs Walk against the model and returns the visited envelopes, and the
// virtual time of each visit.
func (w walkSpec) walk(t *testing.T, deadline int64, stopAt func(visited int, now int64) bool, afterEmpty *[]bool) (visited []*loggregator_v2.Envelope, at []int64, calls []readCall, err error) {
	m := &modelCache{content: w.content}
	empty, quiet := false, false
	idle := 0
	err = vh.Bubble(t, func() {
		type ctxKey struct{}
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 1))
		defer cancel()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tooMany); !ok {
					panic(r)
				}
				panic("the walk never ends: it keeps reading")
			}
		}()
		var first error
		fail := func(e error) {
			if first == nil {
				first = e
			}
		}
		client.Walk(ctx, w.source, func(es []*loggregator_v2.Envelope) bool {
			if len(es) == 0 {
				fail(errors.New("visitor called with an empty batch"))
			}
			visited = append(visited, es...)
			for range es {
				at = append(at, time.Now().UnixNano())
				if afterEmpty != nil {
					*afterEmpty = append(*afterEmpty, empty)
				}
			}
			empty, quiet = false, false
			return true
		}, func(c context.Context, source string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
			n := len(calls)
			if n > 5000 {
				panic(tooMany{})
			}
			// The last read may have delivered nothing.
			empty = empty || quiet
			quiet = true
			call := readCall{source, start.UnixNano(), parseOpts(opts)}
			calls = append(calls, call)
			if e := w.checkCall(call); e != nil {
				fail(e)
			}
			if c.Value(ctxKey{}) == nil {
				fail(errors.New("the read does not get the caller's context"))
			}
			if w.latency > 0 {
				time.Sleep(w.latency)
			}
			if n < len(w.faults) {
				switch w.faults[n] {
				case "err":
					quiet = false
					return nil, errTransient
				case "empty":
					return nil, nil
				}
			}
			now := time.Now().UnixNano()
			end := int64(math.MaxInt64)
			if w.bounded {
				end = w.end
			}
			es := m.read(now, call.start, end, w.page, w.sloppyEnd)
			if now >= deadline && len(m.read(math.MaxInt64, call.start, end, 1, false)) == 0 || now >= deadline+int64(200*time.Hour) {
				// Nothing is left to come: end a walk that would go on for ever.
				if idle++; idle > 3 {
					cancel()
					return nil, ctx.Err()
				}
			}
			return es, nil
		}, w.options()...)
		if first != nil {
			panic(first)
		}
	})
	return
}

func ids(es []*loggregator_v2.Envelope) string { return vh.Brief(es) }

func same(got, want []*loggregator_v2.Envelope) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

func TestC01_BoundedWalk(t *testing.T) {
	vh.Check(t, vh.N(2500, 60000), "random cache content, range, page size, read faults; non-trivial: at least two pages are needed and the range excludes or delays something", func(rt *rapid.T, c *vh.Case) {
		w := walkSpec{bounded: true, setStart: true, delay: -1}
		drawCommon(rt, &w)
		// Timestamps count from a base in the past of the bubble's clock, or around its present.
		unit := rapid.SampledFrom([]int64{1, int64(100 * time.Millisecond)}).Draw(rt, "unit")
		around := rapid.Bool().Draw(rt, "around-now")
		base := bubbleEpoch - int64(time.Hour)
		if around {
			base = bubbleEpoch - int64(3*time.Second)
		}
		delay := time.Second
		if rapid.Bool().Draw(rt, "hasdelay") {
			w.delay = time.Duration(rapid.IntRange(0, 40).Draw(rt, "delay")) * 100 * time.Millisecond
			delay = w.delay
		}
		n := rapid.IntRange(0, 14).Draw(rt, "n")
		for i := 0; i < n; i++ {
			ts := base + unit*int64(rapid.IntRange(0, 60).Draw(rt, "ts"))
			w.content = append(w.content, cached{e: vh.Log(w.source, ts, ""), arrival: math.MinInt64})
		}
		sortContent(w.content)
		w.start = base + unit*int64(rapid.IntRange(-2, 40).Draw(rt, "start"))
		w.end = w.start + unit*int64(rapid.IntRange(1, 60).Draw(rt, "width"))
		w.sloppyEnd = rapid.Bool().Draw(rt, "sloppy")
		w.retry = rapid.Bool().Draw(rt, "retry")
		w.interval = time.Duration(rapid.IntRange(0, 20).Draw(rt, "interval")) * 100 * time.Millisecond
		if !w.retry {
			// Without retries the first fault ends the walk.
			w.faults = nil
		}

		var want []*loggregator_v2.Envelope
		young := 0
		for _, x := range w.content {
			ts := x.e.Timestamp
			if ts < w.start || ts >= w.end {
				continue
			}
			if !w.retry && ts > bubbleEpoch-int64(delay) {
				young++
				continue
			}
			if ts > bubbleEpoch-int64(delay) {
				young++
			}
			want = append(want, x.e)
		}
		var afterEmpty []bool
		got, at, calls, err := w.walk(t, bubbleEpoch, nil, &afterEmpty)
		if err != nil {
			rt.Fatalf("%v\nspec: %s", err, w)
		}
		if !same(got, want) {
			rt.Fatalf("visited [%s]\n   want [%s]\nspec: %s", ids(got), ids(want), w)
		}
		for i, e := range got {
			if e.Timestamp > at[i]-int64(delay) && !afterEmpty[i] {
				rt.Fatalf("envelope stamped %d visited at %d, sooner than the delay of %s, though the read before had envelopes\nspec: %s", e.Timestamp, at[i], delay, w)
			}
		}
		pages := 0
		for i := 1; i < len(calls); i++ {
			if calls[i].start != calls[i-1].start {
				pages++
			}
		}
		if len(calls) > 0 && calls[0].start != w.start {
			rt.Fatalf("the first read starts at %d, want %d", calls[0].start, w.start)
		}
		c.ClassIf(w.retry, "retry")
		c.ClassIf(young > 0, "too-new content")
		c.ClassIf(len(got) == 0, "nothing visited")
		c.ClassIf(pages > 0, "several pages")
		c.If(pages > 0 && len(want) < len(w.content)+young, w.String())
	})
}

func TestC01_LiveWalk(t *testing.T) {
	vh.Check(t, vh.N(1200, 30000), "envelopes arrive out of order, each less than the walk's delay after its timestamp; non-trivial: some envelope arrives after a later-stamped one and several reads visit something", func(rt *rapid.T, c *vh.Case) {
		w := walkSpec{retry: true, delay: -1, setStart: true}
		drawCommon(rt, &w)
		delay := time.Second
		if rapid.Bool().Draw(rt, "hasdelay") {
			w.delay = time.Duration(rapid.IntRange(1, 50).Draw(rt, "delay")) * 100 * time.Millisecond
			delay = w.delay
		}
		w.interval = time.Duration(rapid.IntRange(1, 25).Draw(rt, "interval")) * 37 * time.Millisecond
		w.latency = time.Duration(rapid.IntRange(0, 10).Draw(rt, "latency")) * 50 * time.Millisecond
		n := rapid.IntRange(1, 20).Draw(rt, "n")
		last, maxArr := int64(0), int64(0)
		inverted := false
		for i := 0; i < n; i++ {
			ts := bubbleEpoch + int64(rapid.IntRange(-40, 100).Draw(rt, "ts"))*int64(100*time.Millisecond)
			lag := int64(rapid.IntRange(0, 100).Draw(rt, "lag")) * int64(delay) / 100
			w.content = append(w.content, cached{vh.Log(w.source, ts, ""), ts + lag})
			maxArr = max(maxArr, ts+lag)
			last = max(last, ts)
		}
		sortContent(w.content)
		for i := 1; i < len(w.content); i++ {
			if w.content[i].arrival < w.content[i-1].arrival {
				inverted = true
			}
		}
		w.start = bubbleEpoch + int64(rapid.IntRange(-50, 20).Draw(rt, "start"))*int64(100*time.Millisecond)
		if rapid.IntRange(0, 4).Draw(rt, "nostart") == 0 {
			w.setStart, w.start = false, 0
		}
		var want []*loggregator_v2.Envelope
		for _, x := range w.content {
			if x.e.Timestamp >= w.start {
				want = append(want, x.e)
			}
		}
		deadline := max(maxArr, bubbleEpoch) + int64(delay) + int64(2*w.interval) + 1
		got, at, calls, err := w.walk(t, deadline, nil, nil)
		if err != nil {
			rt.Fatalf("%v\nspec: %s", err, w)
		}
		// Runs of equal timestamps come in any order among themselves.
		key := func(es []*loggregator_v2.Envelope) []*loggregator_v2.Envelope {
			es = append([]*loggregator_v2.Envelope(nil), es...)
			sort.SliceStable(es, func(i, j int) bool {
				if es[i].Timestamp != es[j].Timestamp {
					return es[i].Timestamp < es[j].Timestamp
				}
				return vh.Payload(es[i]) < vh.Payload(es[j])
			})
			return es
		}
		for i := 1; i < len(got); i++ {
			if got[i].Timestamp < got[i-1].Timestamp {
				rt.Fatalf("visited out of order: [%s]\nspec: %s", ids(got), w)
			}
		}
		if !same(key(got), key(want)) {
			rt.Fatalf("visited [%s]\n   want [%s]\nspec: %s", ids(got), ids(want), w)
		}
		for i, e := range got {
			if e.Timestamp > at[i]-int64(delay) {
				rt.Fatalf("envelope stamped %d visited at %d, sooner than the delay of %s\nspec: %s", e.Timestamp, at[i], delay, w)
			}
		}
		if calls[0].start != w.start {
			rt.Fatalf("the first read starts at %d, want %d", calls[0].start, w.start)
		}
		visits := map[int64]bool{}
		for _, x := range at {
			visits[x] = true
		}
		c.ClassIf(inverted, "out of order arrival")
		c.ClassIf(len(visits) > 2, "three or more visiting reads")
		c.If(inverted && len(visits) > 1, w.String())
	})
}

// --- C02 ---

type spyBackoff struct {
	answers []bool
	log     *[]string
}

func (b *spyBackoff) next() bool {
	if len(b.answers) == 0 {
		return false
	}
	a := b.answers[0]
	b.answers = b.answers[1:]
	return a
}
func (b *spyBackoff) OnErr(e error) bool {
	*b.log = append(*b.log, "onerr:"+e.Error())
	return b.next()
}
func (b *spyBackoff) OnEmpty() bool { *b.log = append(*b.log, "onempty"); return b.next() }
func (b *spyBackoff) Reset()        { *b.log = append(*b.log, "reset") }

func TestC02_WalkFollowsBackoffVisitorAndContext(t *testing.T) {
	vh.Check(t, vh.N(4000, 100000), "random scripts of read outcomes, backoff answers, visitor answers and cancellation; non-trivial: at least four reads", func(rt *rapid.T, c *vh.Case) {
		type outcome struct {
			kind   string
			size   int
			visit  bool
			answer bool
		}
		script := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) outcome {
			return outcome{
				kind:   rapid.SampledFrom([]string{"page", "page", "page", "empty", "empty", "err", "err", "toonew", "cancel", "cancel-page", "page-end", "deadline-err"}).Draw(t, "kind"),
				size:   rapid.IntRange(1, 3).Draw(t, "size"),
				visit:  rapid.IntRange(0, 9).Draw(t, "visit") != 0,
				answer: rapid.IntRange(0, 9).Draw(t, "answer") != 0,
			}
		}), 1, 14).Draw(rt, "script")
		bounded := rapid.Bool().Draw(rt, "bounded")
		useDefault := rapid.IntRange(0, 5).Draw(rt, "defaultbackoff") == 0
		byDeadline := rapid.Bool().Draw(rt, "bydeadline")
		end := bubbleEpoch - int64(time.Hour)
		ts := end - 100

		// What must happen, from the documentation of Walk and Backoff.
		var want []string
		cancelled := false
		reads := 0
		next := ts
		starts := []int64{0}
		ended := false
		cur := ts
		for i := 0; i < len(script) && !ended; i++ {
			o := script[i]
			reads++
			switch o.kind {
			case "err", "deadline-err":
				e := fmt.Sprint("failure ", i)
				if o.kind == "deadline-err" {
					e = context.DeadlineExceeded.Error()
				}
				if cancelled {
					ended = true
					break
				}
				if useDefault {
					ended = true
					break
				}
				want = append(want, "onerr:"+e)
				ended = !o.answer
			case "cancel":
				cancelled, ended = true, true
			case "empty", "toonew":
				if useDefault {
					ended = true
					break
				}
				want = append(want, "onempty")
				ended = !o.answer
			case "page", "cancel-page", "page-end":
				if o.kind == "cancel-page" {
					cancelled = true
				}
				if !useDefault {
					want = append(want, "reset")
				}
				want = append(want, fmt.Sprintf("visit:%d", o.size))
				cur += int64(o.size)
				if !o.visit || o.kind == "page-end" && bounded {
					ended = true
				}
			}
			_ = next
			starts = append(starts, cur)
		}

		var log []string
		b := &spyBackoff{log: &log}
		for _, o := range script {
			switch o.kind {
			case "err", "deadline-err", "empty", "toonew":
				b.answers = append(b.answers, o.answer)
			}
		}
		gotReads := 0
		over := false
		err := vh.Bubble(t, func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer func() { cancel() }()
			if byDeadline {
				// The context ends because its time is over.
				stop := cancel
				defer stop()
				ctx, _ = context.WithTimeout(ctx, time.Millisecond)
				cancel = func() { time.Sleep(2 * time.Millisecond) }
			}
			opts := []client.WalkOption{}
			if !useDefault {
				opts = append(opts, client.WithWalkBackoff(b))
			}
			if bounded {
				opts = append(opts, client.WithWalkEndTime(time.Unix(0, end)))
			}
			visits := 0
			pos := ts
			client.Walk(ctx, "s", func(es []*loggregator_v2.Envelope) bool {
				log = append(log, fmt.Sprintf("visit:%d", len(es)))
				for visits < len(script) && script[visits].kind != "page" && script[visits].kind != "cancel-page" && script[visits].kind != "page-end" {
					visits++
				}
				v := visits < len(script) && script[visits].visit
				visits++
				return v
			}, func(_ context.Context, _ string, start time.Time, _ ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
				i := gotReads
				gotReads++
				if i >= len(script) {
					over = true
					cancel()
					return nil, errors.New("over")
				}
				o := script[i]
				switch o.kind {
				case "err":
					return nil, fmt.Errorf("failure %d", i)
				case "deadline-err":
					return nil, context.DeadlineExceeded
				case "cancel":
					cancel()
					return nil, ctx.Err()
				case "empty":
					return nil, nil
				case "toonew":
					if bounded {
						return nil, nil
					}
					return []*loggregator_v2.Envelope{vh.Log("s", bubbleEpoch+int64(time.Hour), "x")}, nil
				}
				if o.kind == "cancel-page" {
					cancel()
				}
				if o.kind == "page-end" && bounded {
					// Nothing can come after this.
					pos = end - int64(o.size)
				}
				var es []*loggregator_v2.Envelope
				for k := 0; k < o.size; k++ {
					es = append(es, vh.Log("s", pos, "x"))
					pos++
				}
				return es, nil
			}, opts...)
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		// The order of Reset and the visit of the same batch is not specified.
		norm := func(l []string) string {
			l = append([]string(nil), l...)
			for i := 1; i < len(l); i++ {
				if l[i] == "reset" && strings.HasPrefix(l[i-1], "visit:") && (i < 2 || l[i-2] != "reset") {
					l[i-1], l[i] = l[i], l[i-1]
				}
			}
			return strings.Join(l, " ")
		}
		if over && ended {
			rt.Fatalf("walk read %d times, want it to end after %d\nscript %+v", gotReads, reads, script)
		}
		if !over && gotReads != reads {
			rt.Fatalf("walk read %d times, want %d\nscript %+v", gotReads, reads, script)
		}
		if g, x := norm(log), norm(want); g != x {
			rt.Fatalf("walk did [%s]\n    want [%s]\nscript %+v", g, x, script)
		}
		c.ClassIf(cancelled, "cancelled")
		c.ClassIf(cancelled && byDeadline, "out of time")
		c.ClassIf(useDefault, "default backoff")
		c.If(reads >= 4, fmt.Sprintf("bounded=%v default=%v %+v", bounded, useDefault, script))
	})
}

func TestC02_Backoffs(t *testing.T) {
	vh.Check(t, vh.N(4000, 60000), "random sequences of OnErr, OnEmpty and Reset on each built-in backoff, in virtual time; non-trivial: a sequence where a counting backoff gives up or is reset", func(rt *rapid.T, c *vh.Case) {
		kind := rapid.SampledFrom([]string{"done", "always", "retry", "retry", "onerr", "onerr"}).Draw(rt, "kind")
		interval := time.Duration(rapid.IntRange(0, 5000).Draw(rt, "interval")) * time.Millisecond
		maxCount := rapid.IntRange(0, 5).Draw(rt, "max")
		ops := rapid.SliceOfN(rapid.SampledFrom([]string{"err", "err", "empty", "empty", "reset"}), 1, 16).Draw(rt, "ops")
		var fail string
		interesting := false
		err := vh.Bubble(t, func() {
			var b client.Backoff
			switch kind {
			case "done":
				b = client.AlwaysDoneBackoff{}
			case "always":
				b = client.NewAlwaysRetryBackoff(interval)
			case "retry":
				b = client.NewRetryBackoff(interval, maxCount)
			case "onerr":
				b = client.NewRetryBackoffOnErr(interval, maxCount)
			}
			failures := 0 // in a row
			for i, op := range ops {
				t0 := time.Now()
				var got, want bool
				var sleep time.Duration
				switch op {
				case "reset":
					b.Reset()
					interesting = interesting || failures > 0
					failures = 0
					if d := time.Since(t0); d != 0 {
						fail = fmt.Sprintf("op %d: Reset took %s", i, d)
						return
					}
					continue
				case "err":
					got = b.OnErr(errTransient)
				case "empty":
					got = b.OnEmpty()
				}
				switch {
				case kind == "done":
				case kind == "always":
					want, sleep = true, interval
				case kind == "onerr" && op == "empty":
				default:
					failures++
					want = failures < maxCount
					if want {
						sleep = interval
					}
				}
				if d := time.Since(t0); got != want || d != sleep {
					fail = fmt.Sprintf("op %d (%s): answered %v after %s, want %v after %s", i, op, got, d, want, sleep)
					return
				}
				if !want && kind != "done" {
					interesting = true
					if op == "err" || kind == "retry" {
						// It gave up: the walk ends here.
						b.Reset()
						failures = 0
					}
				}
			}
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		if fail != "" {
			rt.Fatalf("%s backoff, interval %s, max %d, ops %v: %s", kind, interval, maxCount, ops, fail)
		}
		c.Class(kind)
		c.If(interesting, fmt.Sprintf("%s %s max=%d %v", kind, interval, maxCount, ops))
	})
}

// --- C03 ---

func TestC03_Window(t *testing.T) {
	vh.Check(t, vh.N(3000, 60000), "random start, width, interval, slow walkers and visitors; non-trivial: three or more windows", func(rt *rapid.T, c *vh.Case) {
		interval := time.Duration(rapid.IntRange(1, 100_000).Draw(rt, "interval")) * time.Millisecond
		width := time.Duration(rapid.IntRange(0, 100_000).Draw(rt, "width")) * time.Millisecond
		setInterval := rapid.IntRange(0, 7).Draw(rt, "setinterval") != 0
		setWidth := rapid.IntRange(0, 7).Draw(rt, "setwidth") != 0
		setStart := rapid.IntRange(0, 3).Draw(rt, "setstart") != 0
		start := time.Unix(0, bubbleEpoch+int64(rapid.IntRange(-1_000_000, 1_000_000).Draw(rt, "start"))*int64(time.Millisecond))
		rounds := rapid.IntRange(1, 7).Draw(rt, "rounds")
		sizes := rapid.SliceOfN(rapid.IntRange(0, 3), rounds, rounds).Draw(rt, "sizes")
		slow := rapid.SliceOfN(rapid.IntRange(0, 30), rounds, rounds).Draw(rt, "slow") // tenths of the interval
		cancelAt := rapid.IntRange(0, 12).Draw(rt, "cancelAt")
		if !setInterval {
			interval = time.Minute
		}
		if !setWidth {
			width = time.Hour
		}
		anySlow := false
		for i := range slow {
			if slow[i] < 20 {
				slow[i] = 0
			}
			anySlow = anySlow || slow[i] > 0
		}
		var fails []string
		bad := func(f string, a ...interface{}) { fails = append(fails, fmt.Sprintf(f, a...)) }
		err := vh.Bubble(t, func() {
			type k struct{}
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), k{}, 7))
			defer cancel()
			t0 := time.Now()
			opts := []client.WindowOption{}
			if setStart {
				opts = append(opts, client.WithWindowStartTime(start))
			} else {
				start = t0.Add(-width)
			}
			if setInterval {
				opts = append(opts, client.WithWindowInterval(interval))
			}
			if setWidth {
				opts = append(opts, client.WithWindowWidth(width))
			}
			walks, visits := 0, 0
			var last []*loggregator_v2.Envelope
			var prevCtx context.Context
			client.Window(ctx, func(es []*loggregator_v2.Envelope) bool {
				visits++
				if visits != walks {
					bad("visit %d after %d walks", visits, walks)
				}
				if !same(es, last) {
					bad("visit %d got [%s], the walker returned [%s]", visits, ids(es), ids(last))
				}
				if visits > rounds {
					return false
				}
				return visits < rounds
			}, func(wctx context.Context, s, e time.Time) []*loggregator_v2.Envelope {
				i := walks
				walks++
				if walks > rounds {
					bad("walk %d although the visitor had ended the window", walks)
					return nil
				}
				if w := start.Add(time.Duration(i) * interval); !s.Equal(w) {
					bad("window %d starts at %s, want %s", i, s.UTC(), w.UTC())
				}
				if e.Sub(s) != width {
					bad("window %d is %s wide, want %s", i, e.Sub(s), width)
				}
				if !anySlow {
					if w := t0.Add(time.Duration(i+1) * interval); !time.Now().Equal(w) {
						bad("window %d read %s after the start, want %s", i, time.Since(t0), w.Sub(t0))
					}
				}
				if wctx.Value(k{}) != 7 {
					bad("window %d does not get the caller's context", i)
				}
				if prevCtx != nil && prevCtx.Err() == nil {
					bad("context of window %d outlives it", i-1)
				}
				prevCtx = wctx
				dl, ok := wctx.Deadline()
				if !ok || dl.Sub(time.Now()) > interval {
					bad("window %d may take longer than the interval", i)
				}
				if i == cancelAt {
					cancel()
				}
				if (ctx.Err() != nil) != (wctx.Err() != nil) {
					bad("window %d: caller's context %v, walker's %v", i, ctx.Err(), wctx.Err())
				}
				if slow[i] > 0 {
					time.Sleep(interval * time.Duration(slow[i]) / 10)
				}
				last = nil
				for j := 0; j < sizes[i]; j++ {
					last = append(last, vh.Log("s", s.UnixNano()+int64(j), fmt.Sprint(i)))
				}
				return last
			}, opts...)
			if walks != rounds || visits != rounds {
				bad("%d walks and %d visits, want %d", walks, visits, rounds)
			}
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		if len(fails) > 0 {
			rt.Fatalf("interval %s width %s rounds %d: %s", interval, width, rounds, strings.Join(fails, "; "))
		}
		c.ClassIf(anySlow, "slow walker")
		c.ClassIf(!setStart, "default start")
		c.If(rounds >= 3, fmt.Sprintf("interval=%s width=%s start=%v rounds=%d sizes=%v slow=%v", interval, width, setStart, rounds, sizes, slow))
	})
}

func TestC03_BuildWalker(t *testing.T) {
	vh.Check(t, vh.N(1500, 30000), "BuildWalker over random content and ranges, called one to three times; non-trivial: two or more pages and an excluded envelope", func(rt *rapid.T, c *vh.Case) {
		base := bubbleEpoch - int64(rapid.SampledFrom([]int{2, 3600}).Draw(rt, "ago"))*int64(time.Second)
		m := &modelCache{}
		for i, n := 0, rapid.IntRange(0, 12).Draw(rt, "n"); i < n; i++ {
			m.content = append(m.content, cached{vh.Log("s", base+int64(rapid.IntRange(0, 30).Draw(rt, "ts"))*int64(100*time.Millisecond), ""), math.MinInt64})
		}
		sortContent(m.content)
		// Walkers are called over and over, and their callers keep the results.
		type span struct {
			start, end int64
			want, got  []*loggregator_v2.Envelope
		}
		spans := make([]span, rapid.IntRange(1, 3).Draw(rt, "calls"))
		for i := range spans {
			s := &spans[i]
			s.start = base + int64(rapid.IntRange(-2, 20).Draw(rt, "start"))*int64(100*time.Millisecond)
			s.end = s.start + int64(rapid.IntRange(1, 30).Draw(rt, "width"))*int64(100*time.Millisecond)
			for _, x := range m.content {
				if ts := x.e.Timestamp; ts >= s.start && ts < s.end && ts <= bubbleEpoch-int64(time.Second) {
					s.want = append(s.want, x.e)
				}
			}
		}
		page := rapid.IntRange(1, 5).Draw(rt, "page")
		together := rapid.Bool().Draw(rt, "together")
		reads := 0
		var mu sync.Mutex
		src := ""
		err := vh.Bubble(t, func() {
			w := client.BuildWalker("src", func(_ context.Context, s string, st time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
				mu.Lock()
				defer mu.Unlock()
				src = s
				reads++
				e := int64(math.MaxInt64)
				if v := parseOpts(opts).Get("end_time"); v != "" {
					e, _ = strconv.ParseInt(v, 10, 64)
				}
				return m.read(0, st.UnixNano(), e, page, false), nil
			})
			var wg sync.WaitGroup
			for i := range spans {
				s := &spans[i]
				call := func() { s.got = w(context.Background(), time.Unix(0, s.start), time.Unix(0, s.end)) }
				if !together {
					call()
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					call()
				}()
			}
			wg.Wait()
		})
		if err != nil {
			rt.Fatalf("%v", err)
		}
		for i, s := range spans {
			if !same(s.got, s.want) || src != "src" {
				rt.Fatalf("source %q: call %d of %d (at the same time: %v) walked [%s]\nwant [%s] page %d", src, i, len(spans), together, ids(s.got), ids(s.want), page)
			}
		}
		s := spans[0]
		c.ClassIf(together && len(spans) > 1, "calls at the same time")
		c.If(reads > len(spans) && len(s.want) < len(m.content), fmt.Sprintf("[%d,%d) page %d of [%s]", s.start-base, s.end-base, page, ids(s.want)))
	})
}
