package cluster_test

import (
	"context"
	"fmt"
	"hash/crc64"
	"io"
	"log"
	"math"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache"
	"code.cloudfoundry.org/log-cache/internal/scheduler"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
	"pgregory.net/rapid"
)

var quiet = log.New(io.Discard, "", 0)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard))
	os.Exit(m.Run())
}

var table = crc64.MakeTable(crc64.ECMA)

func hash(s string) uint64 { return crc64.Checksum([]byte(s), table) }

var hosts int64

// address is one that nobody else uses.
func address() string {
	n := atomic.AddInt64(&hosts, 1)
	p := int64(os.Getpid())
	for try := 0; ; try++ {
		a := fmt.Sprintf("127.%d.%d.%d", 1+p%250, 1+(p/250+n/200)%250, 1+n%200)
		l, err := net.Listen("tcp", a+":0")
		if err == nil {
			defer l.Close()
			return l.Addr().String()
		}
		if try > 50 {
			vh.Harness("no address: %s", err)
		}
		n = atomic.AddInt64(&hosts, 1)
	}
}

type node struct {
	*cache.LogCache
	addr string
	conn *grpc.ClientConn
	in   logcache_v1.IngressClient
	out  logcache_v1.EgressClient
	q    logcache_v1.PromQLQuerierClient
	api  *client.Client
	orch logcache_v1.OrchestrationClient
	gone bool
	reg  *testhelpers.SpyMetricsRegistry
}

type cluster struct {
	nodes []*node
	off   int32
}

func start(addrs []string, i int, opts ...cache.LogCacheOption) *node {
	n := &node{addr: addrs[i]}
	o := append([]cache.LogCacheOption{cache.WithAddr(addrs[i]), cache.WithMemoryLimit(99)}, opts...)
	// a node on its own does not need to know its place
	if len(addrs) > 1 || hash(addrs[0])%2 == 0 {
		o = append(o, cache.WithClustered(i, addrs, grpc.WithInsecure()))
	}
	n.reg = testhelpers.NewMetricsRegistry()
	n.LogCache = cache.New(n.reg, quiet, o...)
	n.Start()
	var err error
	n.conn, err = grpc.Dial(n.addr, grpc.WithInsecure())
	vh.Must(err)
	n.in, n.out = logcache_v1.NewIngressClient(n.conn), logcache_v1.NewEgressClient(n.conn)
	n.q, n.orch = logcache_v1.NewPromQLQuerierClient(n.conn), logcache_v1.NewOrchestrationClient(n.conn)
	n.api = client.NewClient(n.addr, client.WithViaGRPC(grpc.WithInsecure()))
	return n
}

func (n *node) stop() {
	if n.gone {
		return
	}
	n.gone = true
	n.conn.Close()
	n.Close()
}

func ctx() context.Context {
	c, _ := context.WithTimeout(context.Background(), 20*time.Second)
	return c
}

func oneIn(rt *rapid.T, n int, l string) bool { return rapid.IntRange(0, n-1).Draw(rt, l) == n-1 }

// until waits for a condition that takes its time to come.
func until(d time.Duration, f func() string) string {
	var s string
	for t := time.Now(); ; time.Sleep(25 * time.Millisecond) {
		if s = f(); s == "" || time.Since(t) > d {
			return s
		}
	}
}

// lines are what a read gives, in order.
func lines(es []*loggregator_v2.Envelope) []string {
	var l []string
	for _, e := range es {
		l = append(l, vh.Str(e))
	}
	return l
}

func differ(got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d envelopes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%s, want %s", got[i], want[i])
		}
	}
	return ""
}

// holdings are what was written, by source.
type holdings map[string][]*loggregator_v2.Envelope

func (h holdings) want(id string, most int) []*loggregator_v2.Envelope {
	l := append([]*loggregator_v2.Envelope{}, h[id]...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].Timestamp < l[j].Timestamp })
	if len(l) > most {
		l = l[len(l)-most:]
	}
	return l
}

// agree says what is wrong with what the nodes give for sources.
func (cl *cluster) agree(h holdings, ids []string, most int, meta bool) string {
	for _, n := range cl.nodes {
		if n.gone {
			continue
		}
		for _, id := range ids {
			es, err := n.api.Read(ctx(), id, time.Unix(0, math.MinInt64/2), client.WithLimit(1000))
			if err != nil {
				return fmt.Sprintf("%s: read of %q: %s", n.addr, id, err)
			}
			if d := differ(lines(es), lines(h.want(id, most))); d != "" {
				return fmt.Sprintf("%s: read of %q (%x): %s", n.addr, id, hash(id), d)
			}
		}
		if !meta {
			continue
		}
		m, err := n.api.Meta(ctx())
		if err != nil {
			return fmt.Sprintf("%s: meta: %s", n.addr, err)
		}
		for _, id := range ids {
			w := h.want(id, most)
			i := m[id]
			if i == nil {
				return fmt.Sprintf("%s: %q is not in the meta", n.addr, id)
			}
			if i.Count != int64(len(w)) || i.Expired != int64(len(h[id])-len(w)) || i.OldestTimestamp != w[0].Timestamp || i.NewestTimestamp != w[len(w)-1].Timestamp {
				return fmt.Sprintf("%s: meta of %q is %s, want %d of %d, from %d to %d", n.addr, id, vh.Str(i), len(w), len(h[id]), w[0].Timestamp, w[len(w)-1].Timestamp)
			}
		}
		for id := range m {
			if len(h[id]) == 0 {
				return fmt.Sprintf("%s: %q is in the meta, but nowhere else", n.addr, id)
			}
		}
	}
	return ""
}

// meet waits until all nodes reach all nodes, as what is sent to a node that
// cannot be reached yet is lost. Its tables give all hashes to one node.
func (cl *cluster) meet(rt *rapid.T) {
	for _, to := range cl.nodes {
		req := &logcache_v1.SetRangesRequest{Ranges: map[string]*logcache_v1.Ranges{to.addr: {Ranges: []*logcache_v1.Range{{End: math.MaxUint64}}}}}
		for _, n := range cl.nodes {
			if _, err := n.orch.SetRanges(ctx(), req); err != nil {
				rt.Fatalf("set ranges: %s", err)
			}
		}
		for _, n := range cl.nodes {
			if d := until(15*time.Second, func() string {
				if _, err := n.api.Read(ctx(), "nobody", time.Unix(0, 0)); err != nil {
					return err.Error()
				}
				return ""
			}); d != "" {
				rt.Fatalf("%s does not reach %s: %s", n.addr, to.addr, d)
			}
		}
	}
}

// kept says what is wrong with where sources are kept.
func (cl *cluster) kept(ids []string, owners func(uint64) []int) string {
	for i, n := range cl.nodes {
		if n.gone {
			continue
		}
		r, err := n.out.Meta(ctx(), &logcache_v1.MetaRequest{LocalOnly: true})
		if err != nil {
			return err.Error()
		}
		for _, id := range ids {
			own := false
			for _, o := range owners(hash(id)) {
				own = own || o == i
			}
			if (r.Meta[id] != nil) != own {
				return fmt.Sprintf("%s: keeps %q (%x): %v, want %v", n.addr, id, hash(id), r.Meta[id] != nil, own)
			}
		}
	}
	return ""
}

var idGen = rapid.OneOf(
	rapid.StringMatching(`[a-z0-9\-]{1,12}`),
	rapid.SampledFrom([]string{"a", "b", "doppler", "8f2e6a1c-70f7-4c3c-9b1f-0d5c2c8e1f00", "a/b c", "ünï", "%2F", "0"}))

// write sends batches of many sources through random nodes.
// With inOrder all go through one node, one after the other.
func write(rt *rapid.T, cl *cluster, h holdings, prefix string, at *int64, inOrder bool) (ids []string, entries int) {
	seen := map[string]bool{}
	for len(ids) < 2 || oneIn(rt, 2, "more ids") && len(ids) < 20 {
		id := prefix + idGen.Draw(rt, "id")
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var failed error
	var live []*node
	for _, n := range cl.nodes {
		if !n.gone {
			live = append(live, n)
		}
	}
	used := map[string]bool{}
	one := rapid.SampledFrom(live).Draw(rt, "entry of all")
	for b := rapid.IntRange(1, 8).Draw(rt, "batches"); b > 0; b-- {
		n := rapid.SampledFrom(live).Draw(rt, "entry")
		if inOrder {
			n = one
		}
		used[n.addr] = true
		var batch []*loggregator_v2.Envelope
		size := rapid.OneOf(rapid.IntRange(0, 20), rapid.SampledFrom([]int{99, 100, 101, 250})).Draw(rt, "size")
		if b == 1 && size == 0 {
			size = 1
		}
		e := vh.Env(rt, rapid.SampledFrom(vh.Types).Draw(rt, "type"), "", 0)
		for k := 0; k < size; k++ {
			x := *e
			x.SourceId = ids[(k*7+b)%len(ids)]
			*at++
			x.Timestamp = *at
			batch = append(batch, &x)
			h[x.SourceId] = append(h[x.SourceId], &x)
		}
		send := func() {
			defer wg.Done()
			if _, err := n.in.Send(ctx(), &logcache_v1.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: batch}}); err != nil {
				mu.Lock()
				failed = err
				mu.Unlock()
			}
		}
		wg.Add(1)
		if oneIn(rt, 2, "at once") && !inOrder {
			go send()
		} else {
			send()
		}
	}
	wg.Wait()
	if failed != nil {
		rt.Fatalf("a node does not take envelopes: %s", failed)
	}
	var l []string
	for _, id := range ids {
		if len(h[id]) > 0 {
			l = append(l, id)
		}
	}
	return l, len(used)
}

func TestC39_Table(t *testing.T) {
	vh.Check(t, vh.N(14, 600), "several nodes, and envelopes that enter at a node that does not own their source", func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 5).Draw(rt, "nodes")
		rf := 1
		if oneIn(rt, 3, "replicated") {
			rf = rapid.IntRange(1, n).Draw(rt, "factor")
		}
		most := rapid.SampledFrom([]int{5, 40, 1000, 1000}).Draw(rt, "max per source")
		var addrs []string
		for i := 0; i < n; i++ {
			addrs = append(addrs, address())
		}
		cl := &cluster{}
		for i := range addrs {
			cl.nodes = append(cl.nodes, start(addrs, i, cache.WithMaxPerSource(most)))
		}
		defer func() {
			for _, n := range cl.nodes {
				n.stop()
			}
		}()
		// before there is a table a read says so, and does not say that there
		// is nothing
		if _, err := cl.nodes[0].api.Read(ctx(), "a", time.Unix(0, 0)); err == nil {
			rt.Fatalf("a read without a table succeeds")
		}
		cl.meet(rt)
		// cut the hashes into ranges, and give them to the nodes
		parts := rapid.IntRange(1, 12).Draw(rt, "ranges")
		var cuts []uint64
		for i := 1; i < parts; i++ {
			cuts = append(cuts, math.MaxUint64/uint64(parts)*uint64(i)+uint64(rapid.IntRange(0, 1000).Draw(rt, "cut")))
		}
		req := &logcache_v1.SetRangesRequest{Ranges: map[string]*logcache_v1.Ranges{}}
		for _, a := range addrs {
			req.Ranges[a] = &logcache_v1.Ranges{}
		}
		owner := make([][]int, parts)
		for i := 0; i < parts; i++ {
			r := logcache_v1.Range{End: math.MaxUint64}
			if i > 0 {
				r.Start = cuts[i-1]
			}
			if i < parts-1 {
				r.End = cuts[i] - 1
			}
			first := rapid.IntRange(0, n-1).Draw(rt, "owner")
			for k := 0; k < rf; k++ {
				o := (first + k) % n
				owner[i] = append(owner[i], o)
				x := r
				req.Ranges[addrs[o]].Ranges = append(req.Ranges[addrs[o]].Ranges, &x)
			}
		}
		owners := func(h uint64) []int {
			i := sort.Search(len(cuts), func(i int) bool { return h < cuts[i] })
			return owner[i]
		}
		for _, n := range cl.nodes {
			if _, err := n.orch.SetRanges(ctx(), req); err != nil {
				rt.Fatalf("set ranges: %s", err)
			}
		}
		h, at := holdings{}, int64(rapid.SampledFrom([]int{1, 1e15, -5000}).Draw(rt, "from"))
		ids, entries := write(rt, cl, h, "", &at, most < 1000)
		if d := until(15*time.Second, func() string { return cl.agree(h, ids, most, false) }); d != "" {
			rt.Fatalf("%d nodes, factor %d: %s", n, rf, d)
		}
		if d := until(5*time.Second, func() string { return cl.kept(ids, owners) }); d != "" {
			rt.Fatalf("%d nodes, factor %d: %s", n, rf, d)
		}
		if d := until(5*time.Second, func() string { return cl.agree(h, ids, most, true) }); d != "" {
			rt.Fatalf("%d nodes, factor %d: %s", n, rf, d)
		}
		// a query gives the same on every node
		id := rapid.SampledFrom(ids).Draw(rt, "queried")
		last := h.want(id, 1)[0].Timestamp
		name := rapid.SampledFrom([]string{"cpu", "mem", "http", "cpu_total"}).Draw(rt, "name")
		var first string
		for i, n := range cl.nodes {
			r, err := n.q.InstantQuery(ctx(), &logcache_v1.PromQL_InstantQueryRequest{Query: fmt.Sprintf("%s{source_id=%q}", name, id), Time: fmt.Sprintf("%d", last/1e9+1)})
			if err != nil {
				rt.Fatalf("%s: query: %s", n.addr, err)
			}
			var l []string
			for _, s := range r.GetVector().GetSamples() {
				l = append(l, vh.Str(s))
			}
			sort.Strings(l)
			if s := strings.Join(l, "\n"); i == 0 {
				first = s
			} else if s != first {
				rt.Fatalf("%s: a query gives %s, and %s on %s", n.addr, s, first, cl.nodes[0].addr)
			}
		}
		// a node that is gone takes no more with it than what it owns alone
		if n > 1 && oneIn(rt, 2, "one goes") {
			g := rapid.IntRange(0, n-1).Draw(rt, "goes")
			cl.nodes[g].stop()
			var rest []string
			lost := 0
			for _, id := range ids {
				o := owners(hash(id))
				if len(o) == 1 && o[0] == g {
					lost++
					for _, n := range cl.nodes {
						if n.gone {
							continue
						}
						if es, err := n.api.Read(ctx(), id, time.Unix(0, math.MinInt64/2)); err == nil {
							rt.Fatalf("%s: a read of %q, whose node is gone, gives %d envelopes without an error", n.addr, id, len(es))
						}
					}
					continue
				}
				own := true
				for _, x := range o {
					own = own && x != g
				}
				if own {
					rest = append(rest, id)
				}
			}
			if d := until(15*time.Second, func() string { return cl.agree(h, rest, most, true) }); d != "" {
				rt.Fatalf("%d nodes, factor %d, after %s is gone: %s", n, rf, addrs[g], d)
			}
			c.ClassIf(lost > 0, "sources lost with their node")
		}
		c.Class(fmt.Sprintf("%d nodes", n))
		c.ClassIf(rf > 1, "replicated")
		c.If(n > 1 && entries > 0, fmt.Sprint(n, rf, most, len(ids), entries, owner))
	})
}

// Scheduled: real nodes and a real scheduler, with nodes that go and come.
func TestC39_Scheduled(t *testing.T) {
	vh.Check(t, vh.N(5, 200), "several nodes, one of which goes or comes again", func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 4).Draw(rt, "nodes")
		var addrs []string
		for i := 0; i < n; i++ {
			addrs = append(addrs, address())
		}
		cl := &cluster{}
		for i := range addrs {
			cl.nodes = append(cl.nodes, start(addrs, i))
		}
		defer func() {
			for _, n := range cl.nodes {
				n.stop()
			}
		}()
		off := make(chan struct{})
		defer close(off)
		rf := rapid.SampledFrom([]int{1, 1, n}).Draw(rt, "factor")
		scheduler.NewScheduler(addrs,
			scheduler.WithSchedulerInterval(100*time.Millisecond),
			scheduler.WithSchedulerCount(rapid.SampledFrom([]int{1, 5, 20, 100}).Draw(rt, "count")),
			scheduler.WithSchedulerReplicationFactor(rf),
			scheduler.WithSchedulerDialOpts(grpc.WithInsecure()),
			scheduler.WithSchedulerLeadership(func() bool {
				select {
				case <-off:
					return false
				default:
					return true
				}
			}),
		).Start()
		at := int64(1)
		changes := 0
		for round := 1 + rapid.IntRange(0, 3).Draw(rt, "rounds"); round > 0; round-- {
			// envelopes may be lost while the ranges are on their way, but
			// in time all that is written is there
			try := 0
			d := until(45*time.Second, func() string {
				try++
				h := holdings{}
				ids, _ := write2(cl, h, fmt.Sprintf("r%d-%d-", round, try), &at)
				if s := until(1500*time.Millisecond, func() string { return cl.agree2(h, ids) }); s != "" {
					return s
				}
				return ""
			})
			if d != "" {
				rt.Fatalf("%d nodes, factor %d: %s", n, rf, d)
			}
			// from now on nothing is lost
			h := holdings{}
			ids, _ := write(rt, cl, h, fmt.Sprintf("s%d-", round), &at, false)
			if d := until(15*time.Second, func() string { return cl.agree2(h, ids) }); d != "" {
				rt.Fatalf("%d nodes, factor %d, settled: %s", n, rf, d)
			}
			live := 0
			for _, n := range cl.nodes {
				if !n.gone {
					live++
				}
			}
			i := rapid.IntRange(0, n-1).Draw(rt, "changes")
			switch {
			case cl.nodes[i].gone:
				cl.nodes[i] = start(addrs, i)
				changes++
			case live > 1:
				cl.nodes[i].stop()
				changes++
			}
		}
		c.Class(fmt.Sprintf("%d nodes", n))
		c.If(n > 1 && changes > 0, fmt.Sprint(n, rf, changes, at))
	})
}

// write2 writes one envelope to each of many sources at every node.
func write2(cl *cluster, h holdings, prefix string, at *int64) (ids []string, err error) {
	for _, n := range cl.nodes {
		if n.gone {
			continue
		}
		var batch []*loggregator_v2.Envelope
		for k := 0; k < 40; k++ {
			id := fmt.Sprintf("%s%d", prefix, k)
			*at++
			e := vh.Log(id, *at, "x")
			batch = append(batch, e)
			h[id] = append(h[id], e)
		}
		if _, err = n.in.Send(ctx(), &logcache_v1.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: batch}}); err != nil {
			return nil, err
		}
	}
	return vh.Keys(h), nil
}

// agree2 is agree for reads alone: meta goes on naming what nodes kept that
// do not own it any more.
func (cl *cluster) agree2(h holdings, ids []string) string {
	if d := cl.agree(h, ids, 1<<30, false); d != "" {
		return d
	}
	for _, n := range cl.nodes {
		if n.gone {
			continue
		}
		d := until(3*time.Second, func() string {
			m, err := n.api.Meta(ctx())
			if err != nil {
				return err.Error()
			}
			for _, id := range ids {
				if m[id] == nil {
					return fmt.Sprintf("%s: %q is not in the meta", n.addr, id)
				}
			}
			return ""
		})
		if d != "" {
			return d
		}
	}
	return ""
}
