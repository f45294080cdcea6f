package cluster_test

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// burst is what a writer sends at once.
type burst struct {
	pause, grain time.Duration
	at           *node
	kinds        []logcache_v1.EnvelopeType // by envelope
	ids          []string
}

// follower is a walk without an end.
type follower struct {
	id    string
	start int64
	kind  logcache_v1.EnvelopeType
	limit int
	ways  []*client.Client
	bad   int // every so many reads fail

	mu    sync.Mutex
	got   []*loggregator_v2.Envelope
	slow  time.Duration // the longest read
	reads int
}

func (f *follower) String() string {
	return fmt.Sprintf("follower of %q from %d with limit %d and types %s by %d ways", f.id, f.start, f.limit, f.kind, len(f.ways))
}

func (f *follower) have() []*loggregator_v2.Envelope {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]*loggregator_v2.Envelope{}, f.got...)
}

func (f *follower) run(ctx context.Context, delay time.Duration) {
	opts := []client.WalkOption{
		client.WithWalkStartTime(time.Unix(0, f.start)),
		client.WithWalkDelay(delay),
		client.WithWalkBackoff(client.NewAlwaysRetryBackoff(15 * time.Millisecond)),
	}
	if f.limit > 0 {
		opts = append(opts, client.WithWalkLimit(f.limit))
	}
	if f.kind != logcache_v1.EnvelopeType_ANY {
		opts = append(opts, client.WithWalkEnvelopeTypes(f.kind))
	}
	client.Walk(ctx, f.id, func(es []*loggregator_v2.Envelope) bool {
		f.mu.Lock()
		defer f.mu.Unlock()
		f.got = append(f.got, es...)
		return true
	}, func(ctx context.Context, id string, start time.Time, o ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
		f.reads++
		if f.bad > 0 && f.reads%f.bad == 0 {
			return nil, errors.New("no way")
		}
		since := time.Now()
		es, err := f.ways[f.reads%len(f.ways)].Read(ctx, id, start, o...)
		f.mu.Lock()
		defer f.mu.Unlock()
		if d := time.Since(since); d > f.slow {
			f.slow = d
		}
		return es, err
	}, opts...)
}

func typed(id string, ts int64, n int64, k logcache_v1.EnvelopeType) *loggregator_v2.Envelope {
	if k == logcache_v1.EnvelopeType_COUNTER {
		return &loggregator_v2.Envelope{SourceId: id, Timestamp: ts, InstanceId: fmt.Sprint(n),
			Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Total: uint64(n)}}}
	}
	e := vh.Log(id, ts, "x")
	e.InstanceId = fmt.Sprint(n)
	return e
}

// TestC50_Follow: walks without an end of sources that are being written.
func TestC50_Follow(t *testing.T) {
	vh.Check(t, vh.N(7, 120), "at least two nodes, and followers that met what was written meanwhile", func(rt *rapid.T, c *vh.Case) {
		cl, owner, stop := newCluster(rt, 100000)
		defer stop()
		const delay = 1500 * time.Millisecond
		ids := []string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(rt, "sources")]
		kinds := []logcache_v1.EnvelopeType{logcache_v1.EnvelopeType_LOG, logcache_v1.EnvelopeType_COUNTER}
		var plans [][]burst
		for w := rapid.IntRange(1, 4).Draw(rt, "writers"); w > 0; w-- {
			var p []burst
			left := 900 * time.Millisecond
			for left > 0 {
				b := burst{
					pause: time.Duration(rapid.SampledFrom([]int{0, 1, 7, 30, 120}).Draw(rt, "pause")) * time.Millisecond,
					grain: rapid.SampledFrom([]time.Duration{1, time.Millisecond, 20 * time.Millisecond}).Draw(rt, "grain of the clock"),
					at:    rapid.SampledFrom(cl.nodes).Draw(rt, "entry"),
				}
				for k := rapid.IntRange(1, 12).Draw(rt, "envelopes"); k > 0; k-- {
					b.ids = append(b.ids, rapid.SampledFrom(ids).Draw(rt, "source"))
					b.kinds = append(b.kinds, rapid.SampledFrom(kinds).Draw(rt, "kind"))
				}
				p = append(p, b)
				left -= b.pause + 5*time.Millisecond
			}
			plans = append(plans, p)
		}
		var fs []*follower
		web := before(cl.nodes[0])
		for k := rapid.IntRange(1, 5).Draw(rt, "followers"); k > 0; k-- {
			f := &follower{
				id:    rapid.SampledFrom(ids).Draw(rt, "follows"),
				kind:  rapid.SampledFrom(append(kinds, logcache_v1.EnvelopeType_ANY)).Draw(rt, "types"),
				limit: rapid.SampledFrom([]int{0, 1, 3, 17, 1000}).Draw(rt, "limit"),
				bad:   rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(rt, "failing reads"),
			}
			if rapid.Bool().Draw(rt, "from now on") {
				f.start = time.Now().UnixNano()
			}
			for _, n := range cl.nodes {
				if rapid.Bool().Draw(rt, "reads there") {
					f.ways = append(f.ways, n.api)
				}
			}
			if len(f.ways) == 0 || oneIn(rt, 3, "through the gateway") {
				f.ways = append(f.ways, web)
			}
			fs = append(fs, f)
		}

		// the followers, and one who sees when the owners have what was written
		run, cancel := context.WithCancel(context.Background())
		var all sync.WaitGroup
		defer all.Wait()
		defer cancel()
		for _, f := range fs {
			f := f
			all.Add(1)
			go func() { defer all.Done(); f.run(run, delay) }()
		}
		var (
			mu    sync.Mutex
			sent  = map[string]*loggregator_v2.Envelope{}
			fails []string
			lag   time.Duration
			next  int64
			over  sync.WaitGroup
		)
		for _, id := range ids {
			id := id
			all.Add(1)
			go func() {
				defer all.Done()
				seen := map[string]bool{}
				from := int64(0)
				for run.Err() == nil {
					es, err := owner(id).api.Read(run, id, time.Unix(0, from), client.WithLimit(1000))
					now := time.Now()
					if err != nil {
						continue
					}
					mu.Lock()
					for _, e := range es {
						if !seen[e.InstanceId] {
							seen[e.InstanceId] = true
							if d := now.Sub(time.Unix(0, e.Timestamp)); d > lag {
								lag = d
							}
						}
					}
					mu.Unlock()
					// all of them, time and again: some come late
					if from = 0; len(es) >= 1000 {
						from = es[len(es)-1].Timestamp + 1
						continue
					}
					time.Sleep(10 * time.Millisecond)
				}
			}()
		}
		for _, p := range plans {
			p := p
			over.Add(1)
			go func() {
				defer over.Done()
				for _, b := range p {
					time.Sleep(b.pause)
					ts := time.Now().Truncate(b.grain).UnixNano()
					batch := &loggregator_v2.EnvelopeBatch{}
					mu.Lock()
					for i, id := range b.ids {
						n := atomic.AddInt64(&next, 1)
						e := typed(id, ts, n, b.kinds[i])
						sent[e.InstanceId] = e
						batch.Batch = append(batch.Batch, e)
					}
					mu.Unlock()
					if _, err := b.at.in.Send(ctx(), &logcache_v1.SendRequest{Envelopes: batch}); err != nil {
						mu.Lock()
						fails = append(fails, err.Error())
						mu.Unlock()
						return
					}
				}
			}()
		}
		over.Wait()
		if len(fails) > 0 {
			rt.Fatalf("a write failed: %s", fails[0])
		}

		check := func(f *follower) string {
			want := map[string]*loggregator_v2.Envelope{}
			for k, e := range sent {
				of := logcache_v1.EnvelopeType_LOG
				if e.GetCounter() != nil {
					of = logcache_v1.EnvelopeType_COUNTER
				}
				if e.SourceId == f.id && e.Timestamp >= f.start && (f.kind == logcache_v1.EnvelopeType_ANY || f.kind == of) {
					want[k] = e
				}
			}
			got := f.have()
			at := map[string]bool{}
			for i, e := range got {
				switch {
				case want[e.InstanceId] == nil:
					return fmt.Sprintf("got %s, which is none of its", vh.Str(e))
				case vh.Str(want[e.InstanceId]) != vh.Str(e):
					return fmt.Sprintf("got %s for %s", vh.Str(e), vh.Str(want[e.InstanceId]))
				case at[e.InstanceId]:
					return fmt.Sprintf("got %s twice", vh.Str(e))
				case i > 0 && got[i-1].Timestamp > e.Timestamp:
					return fmt.Sprintf("got %s after %s", vh.Str(e), vh.Str(got[i-1]))
				}
				at[e.InstanceId] = true
			}
			if len(got) < len(want) {
				for k, e := range want {
					if !at[k] {
						return fmt.Sprintf("got %d envelopes of %d, and not %s", len(got), len(want), vh.Str(e))
					}
				}
			}
			return ""
		}
		time.Sleep(delay)
		bad := until(12*time.Second, func() string {
			for _, f := range fs {
				if d := check(f); d != "" {
					return fmt.Sprintf("%s: %s", f, d)
				}
			}
			return ""
		})
		if bad == "" {
			time.Sleep(60 * time.Millisecond)
			for _, f := range fs {
				if d := check(f); d != "" {
					bad = fmt.Sprintf("%s, in the end: %s", f, d)
				}
			}
		}
		cancel()
		all.Wait()
		met := false
		for _, f := range fs {
			met = met || len(f.got) > 0
			// a machine that is as slow as this keeps no promise of the delay's
			if lag+f.slow > delay-200*time.Millisecond {
				c.Class("too slow to say")
				return
			}
		}
		if bad != "" {
			rt.Fatalf("%d nodes, %d writers, the latest %s behind: %s", len(cl.nodes), len(plans), lag, bad)
		}
		c.Class(fmt.Sprintf("%d nodes", len(cl.nodes)))
		c.If(len(cl.nodes) > 1 && met, fmt.Sprint(len(cl.nodes), len(plans), len(fs), len(sent)))
	})
}
