package routing_test

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

var sourceIDs = []string{"a", "b", "c", "d", "e", "", "nowhere"}

// owners draws which nodes own each source.
func owners(rt *rapid.T, nodes int) map[string][]int {
	m := map[string][]int{}
	for _, s := range sourceIDs {
		if s == "nowhere" {
			continue
		}
		var l []int
		for i := 0; i < nodes; i++ {
			if rapid.IntRange(0, 2).Draw(rt, "owns "+s) == 0 {
				l = append(l, i)
			}
		}
		if len(l) > 1 && rapid.Bool().Draw(rt, "reversed") {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		m[s] = l
	}
	return m
}

type ingressNode struct {
	mu   sync.Mutex
	reqs []*rpc.SendRequest
	ctxs []context.Context
	fail func() error
}

func (n *ingressNode) Send(ctx context.Context, in *rpc.SendRequest, _ ...grpc.CallOption) (*rpc.SendResponse, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.reqs = append(n.reqs, proto.Clone(in).(*rpc.SendRequest))
	n.ctxs = append(n.ctxs, ctx)
	if n.fail != nil {
		if err := n.fail(); err != nil {
			return nil, err
		}
	}
	return &rpc.SendResponse{}, nil
}

func TestC24_Ingress(t *testing.T) {
	vh.Check(t, vh.N(2500, 120000), "a batch went to two nodes or more, or a node failed and another got its share", func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 5).Draw(rt, "nodes")
		local := rapid.IntRange(0, n-1).Draw(rt, "local")
		own := owners(rt, n)
		nodes := make([]*ingressNode, n)
		clients := make([]rpc.IngressClient, n)
		fails := make([]bool, n)
		anyFail := false
		for i := range nodes {
			i := i
			fails[i] = rapid.IntRange(0, 4).Draw(rt, "fails") == 0
			anyFail = anyFail || fails[i]
			nodes[i] = &ingressNode{fail: func() error {
				if fails[i] {
					return status.Error(codes.Unavailable, "gone")
				}
				return nil
			}}
			clients[i] = nodes[i]
			if rapid.Bool().Draw(rt, "as a function") {
				clients[i] = routing.IngressClientFunc(nodes[i].Send)
			}
		}
		p := routing.NewIngressReverseProxy(func(s string) []int { return own[s] }, clients, local, quiet)
		ctx := context.WithValue(context.Background(), key{}, "x")
		busy := 0
		for i, k := 0, rapid.IntRange(1, 3).Draw(rt, "requests"); i < k; i++ {
			for _, x := range nodes {
				x.reqs, x.ctxs = nil, nil
			}
			req := &rpc.SendRequest{LocalOnly: rapid.IntRange(0, 4).Draw(rt, "local only") == 0}
			if rapid.IntRange(0, 8).Draw(rt, "batch") > 0 {
				req.Envelopes = &loggregator_v2.EnvelopeBatch{}
				for j, m := 0, rapid.IntRange(0, 8).Draw(rt, "envelopes"); j < m; j++ {
					e := vh.Env(rt, rapid.SampledFrom([]string{"log", "counter", "gauge", "timer", "event", "none"}).Draw(rt, "kind"), rapid.SampledFrom(sourceIDs).Draw(rt, "source"), rapid.Int64Range(0, 9).Draw(rt, "ts"))
					req.Envelopes.Batch = append(req.Envelopes.Batch, e)
				}
			}
			sent := proto.Clone(req).(*rpc.SendRequest)
			var resp *rpc.SendResponse
			var err error
			if perr := vh.Try(func() { resp, err = p.Send(ctx, req) }); perr != nil {
				rt.Fatalf("sending %s: %s", vh.Str(sent), perr)
			}

			if sent.LocalOnly {
				if (err != nil) != fails[local] || err == nil && resp == nil {
					rt.Fatalf("a local-only send gave %v %v, local fails: %v", resp, err, fails[local])
				}
				for j, x := range nodes {
					if j != local && len(x.reqs) > 0 {
						rt.Fatalf("a local-only send reached node %d, local is %d", j, local)
					}
				}
				if l := nodes[local].reqs; len(l) != 1 || !proto.Equal(l[0], sent) {
					rt.Fatalf("a local-only %s became %v", vh.Str(sent), l)
				}
				continue
			}
			if err != nil || resp == nil {
				rt.Fatalf("send gave %v %v", resp, err)
			}
			reached := 0
			for j, x := range nodes {
				var want, got []*loggregator_v2.Envelope
				for _, e := range sent.GetEnvelopes().GetBatch() {
					for _, o := range own[e.SourceId] {
						if o == j {
							want = append(want, e)
						}
					}
				}
				for k, r := range x.reqs {
					if !r.LocalOnly {
						rt.Fatalf("node %d was sent a request that it would route again", j)
					}
					if x.ctxs[k].Value(key{}) != "x" {
						rt.Fatalf("node %d was sent without the caller's context", j)
					}
					got = append(got, r.GetEnvelopes().GetBatch()...)
				}
				if len(want) > 0 {
					reached++
				}
				if fails[j] && len(x.reqs) > 1 {
					// A failing node may be tried again.
					continue
				}
				if !sameEnvelopes(got, want) {
					rt.Fatalf("node %d got [%s], owns [%s] of [%s]", j, briefSources(got), briefSources(want), briefSources(sent.GetEnvelopes().GetBatch()))
				}
			}
			if reached > busy {
				busy = reached
			}
		}
		c.ClassIf(anyFail, "a node fails")
		c.If(busy > 1, fmt.Sprint(n, local, own, fails, busy))
	})
}

func briefSources(l []*loggregator_v2.Envelope) string {
	var out []string
	for _, e := range l {
		out = append(out, fmt.Sprintf("%q@%d:%s", e.SourceId, e.Timestamp, vh.TypeOf(e)))
	}
	return strings.Join(out, " ")
}

// sameEnvelopes: the same envelopes, those of one source in the same order.
func sameEnvelopes(a, b []*loggregator_v2.Envelope) bool {
	split := func(l []*loggregator_v2.Envelope) map[string][]*loggregator_v2.Envelope {
		m := map[string][]*loggregator_v2.Envelope{}
		for _, e := range l {
			m[e.SourceId] = append(m[e.SourceId], e)
		}
		return m
	}
	x, y := split(a), split(b)
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if len(x[k]) != len(y[k]) {
			return false
		}
		for i := range x[k] {
			if !proto.Equal(x[k][i], y[k][i]) {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- egress

type egressNode struct {
	mu    sync.Mutex
	reads []*rpc.ReadRequest
	ctxs  []context.Context
	resp  *rpc.ReadResponse
	err   error

	metas     int
	routed    int // meta requests that were not local-only
	meta      map[string]*rpc.MetaInfo
	metaFails bool
}

func (n *egressNode) Read(ctx context.Context, in *rpc.ReadRequest, _ ...grpc.CallOption) (*rpc.ReadResponse, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.reads = append(n.reads, proto.Clone(in).(*rpc.ReadRequest))
	n.ctxs = append(n.ctxs, ctx)
	return n.resp, n.err
}

func (n *egressNode) Meta(ctx context.Context, in *rpc.MetaRequest, _ ...grpc.CallOption) (*rpc.MetaResponse, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.metas++
	if !in.LocalOnly {
		n.routed++
	}
	if n.metaFails {
		return nil, errors.New("no meta")
	}
	m := &rpc.MetaResponse{Meta: map[string]*rpc.MetaInfo{}}
	for k, v := range n.meta {
		m.Meta[k] = proto.Clone(v).(*rpc.MetaInfo)
	}
	return m, nil
}

func TestC25_Read(t *testing.T) {
	vh.Check(t, vh.N(2500, 120000), "the source has two owners, or the node fails", func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 5).Draw(rt, "nodes")
		local := rapid.IntRange(0, n-1).Draw(rt, "local")
		own := owners(rt, n)
		nodes := make([]*egressNode, n)
		clients := make([]rpc.EgressClient, n)
		for i := range nodes {
			nodes[i] = &egressNode{resp: &rpc.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{
				Batch: []*loggregator_v2.Envelope{vh.Log("s", int64(i), fmt.Sprint("from ", i))},
			}}}
			if rapid.IntRange(0, 3).Draw(rt, "fails") == 0 {
				nodes[i].resp, nodes[i].err = nil, status.Errorf(codes.Code(rapid.IntRange(1, 16).Draw(rt, "code")), "node %d", i)
			}
			clients[i] = nodes[i]
		}
		p := routing.NewEgressReverseProxy(func(s string) []int { return own[s] }, clients, local, quiet)
		req := &rpc.ReadRequest{
			SourceId:  rapid.SampledFrom(sourceIDs).Draw(rt, "source"),
			StartTime: rapid.Int64().Draw(rt, "start"), EndTime: rapid.Int64().Draw(rt, "end"),
			Limit: rapid.Int64().Draw(rt, "limit"), Descending: rapid.Bool().Draw(rt, "desc"),
			NameFilter: rapid.SampledFrom([]string{"", "x", "["}).Draw(rt, "filter"),
		}
		if rapid.Bool().Draw(rt, "typed") {
			req.EnvelopeTypes = []rpc.EnvelopeType{rpc.EnvelopeType(rapid.IntRange(0, 5).Draw(rt, "type"))}
		}
		sent := proto.Clone(req).(*rpc.ReadRequest)
		resp, err := p.Read(context.WithValue(context.Background(), key{}, "x"), req)
		asked := -1
		for i, x := range nodes {
			if len(x.reads) > 1 || len(x.reads) == 1 && asked >= 0 {
				rt.Fatalf("one read asked nodes more than once")
			}
			if len(x.reads) == 1 {
				asked = i
				if !proto.Equal(x.reads[0], sent) || x.ctxs[0].Value(key{}) != "x" {
					rt.Fatalf("%s became %s", vh.Str(sent), vh.Str(x.reads[0]))
				}
			}
		}
		o := own[sent.SourceId]
		c.ClassIf(len(o) == 0, "no owner")
		c.If(len(o) > 1 || asked >= 0 && nodes[asked].err != nil, fmt.Sprint(n, local, own, asked))
		if len(o) == 0 {
			if status.Code(err) != codes.Unavailable || resp != nil || asked >= 0 {
				rt.Fatalf("a source without owner gave %v %v, asked node %d", resp, err, asked)
			}
			return
		}
		isLocal, owns := false, false
		for _, i := range o {
			isLocal = isLocal || i == local
			owns = owns || i == asked
		}
		if !owns || isLocal && asked != local {
			rt.Fatalf("%q of nodes %v was read from %d, local is %d", sent.SourceId, o, asked, local)
		}
		if err != nodes[asked].err && err.Error() != nodes[asked].err.Error() || resp != nodes[asked].resp && !proto.Equal(resp, nodes[asked].resp) {
			rt.Fatalf("node %d gave %v %v, the read %v %v", asked, nodes[asked].resp, nodes[asked].err, resp, err)
		}
	})
}

// A world is what the nodes' meta is during some time.
type world struct {
	from  time.Time
	metas []map[string]*rpc.MetaInfo
	fails []bool
}

// could tells whether an answer is the union of a world's metas.
func (w world) could(resp *rpc.MetaResponse, err error, only int) bool {
	var parts []map[string]*rpc.MetaInfo
	for i := range w.metas {
		if (only < 0 || i == only) && !w.fails[i] {
			parts = append(parts, w.metas[i])
		}
	}
	if len(parts) == 0 {
		return err != nil && resp == nil
	}
	if err != nil || resp == nil {
		return false
	}
	keys := map[string]bool{}
	for _, p := range parts {
		for k := range p {
			keys[k] = true
		}
	}
	if len(keys) != len(resp.Meta) {
		return false
	}
	for k := range keys {
		ok := false
		for _, p := range parts {
			if v := p[k]; v != nil && proto.Equal(v, resp.Meta[k]) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func drawMeta(rt *rapid.T) map[string]*rpc.MetaInfo {
	m := map[string]*rpc.MetaInfo{}
	for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "sources"); i < n; i++ {
		m[rapid.SampledFrom([]string{"a", "b", "c", "d", ""}).Draw(rt, "source")] = &rpc.MetaInfo{
			Count: rapid.Int64Range(1, 100).Draw(rt, "count"), OldestTimestamp: rapid.Int64Range(0, 100).Draw(rt, "oldest"),
		}
	}
	return m
}

func TestC25_Meta(t *testing.T) {
	vh.Check(t, vh.N(600, 40000), "the nodes changed between two answers, or one failed and another answered", func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 4).Draw(rt, "nodes")
		local := rapid.IntRange(0, n-1).Draw(rt, "local")
		keep := time.Second
		var opts []routing.EgressReverseProxyOption
		if rapid.Bool().Draw(rt, "duration") {
			keep = time.Duration(rapid.SampledFrom([]int{-1, 0, 1, 500, 3000}).Draw(rt, "keep")) * time.Millisecond
			opts = append(opts, routing.WithMetaCacheDuration(keep))
		}
		answers, changes, partial, errs := 0, 0, false, 0
		err := vh.Bubble(t, func() {
			nodes := make([]*egressNode, n)
			clients := make([]rpc.EgressClient, n)
			for i := range nodes {
				nodes[i] = &egressNode{}
				clients[i] = nodes[i]
			}
			p := routing.NewEgressReverseProxy(func(string) []int { rt.Fatalf("meta is not routed"); return nil }, clients, local, quiet, opts...)
			var worlds []world
			change := func() {
				w := world{from: time.Now()}
				for _, x := range nodes {
					x.meta, x.metaFails = drawMeta(rt), rapid.IntRange(0, 3).Draw(rt, "fails") == 0
					w.metas = append(w.metas, x.meta)
					w.fails = append(w.fails, x.metaFails)
				}
				worlds = append(worlds, w)
			}
			change()
			for i, k := 0, rapid.IntRange(2, 14).Draw(rt, "ops"); i < k; i++ {
				switch rapid.IntRange(0, 3).Draw(rt, "op") {
				case 0:
					changes++
					change()
				case 1:
					time.Sleep(rapid.SampledFrom([]time.Duration{time.Nanosecond, time.Millisecond, 400 * time.Millisecond, keep, keep + 1, time.Second, 5 * time.Second}).Draw(rt, "sleep"))
				default:
					lo := rapid.IntRange(0, 2).Draw(rt, "local only") == 0
					only := -1
					if lo {
						only = local
					}
					var resp *rpc.MetaResponse
					var err error
					resp, err = p.Meta(context.Background(), &rpc.MetaRequest{LocalOnly: lo})
					answers++
					now, ok := time.Now(), false
					for j, w := range worlds {
						last := j == len(worlds)-1
						// Was this world still there when the cached answer may
						// have been taken?
						if !last && worlds[j+1].from.Before(now.Add(-keep)) {
							continue
						}
						if err != nil && !last {
							continue // an error is never a cached one
						}
						ok = ok || w.could(resp, err, only)
					}
					if !ok {
						rt.Fatalf("meta (local only: %v) gave %v %v; nodes now: %v, failing: %v; cached for %s", lo, resp, err, worlds[len(worlds)-1].metas, worlds[len(worlds)-1].fails, keep)
					}
					if err != nil {
						errs++
					}
					f := 0
					for _, x := range worlds[len(worlds)-1].fails {
						if x {
							f++
						}
					}
					partial = partial || f > 0 && f < n
				}
			}
			for i, x := range nodes {
				if x.routed > 0 && n > 1 {
					rt.Fatalf("node %d was asked for more than its own meta", i)
				}
			}
		})
		if err != nil {
			rt.Fatalf("%s", err)
		}
		c.ClassIf(errs > 0, "an error")
		c.ClassIf(partial, "some nodes fail")
		c.If(answers > 1 && changes > 0 || partial && answers > 0, fmt.Sprint(n, local, keep, answers, changes, partial, errs))
	})
}

// TestC25_MetaConcurrent: many callers at once, also when the answer expires.
func TestC25_MetaConcurrent(t *testing.T) {
	vh.Check(t, vh.N(80, 3000), "every case: several callers ask at the same instants", func(rt *rapid.T, c *vh.Case) {
		n := rapid.IntRange(1, 4).Draw(rt, "nodes")
		callers := rapid.IntRange(2, 8).Draw(rt, "callers")
		rounds := rapid.IntRange(1, 4).Draw(rt, "rounds")
		err := vh.Bubble(t, func() {
			nodes := make([]*egressNode, n)
			clients := make([]rpc.EgressClient, n)
			for i := range nodes {
				nodes[i] = &egressNode{meta: map[string]*rpc.MetaInfo{fmt.Sprint(i): {Count: int64(i)}, "all": {Count: 7}}}
				clients[i] = nodes[i]
			}
			p := routing.NewEgressReverseProxy(func(string) []int { return nil }, clients, 0, quiet, routing.WithMetaCacheDuration(time.Second))
			bad := make(chan string, 100)
			var wg sync.WaitGroup
			for k := 0; k < callers; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					for r := 0; r < rounds; r++ {
						lo := (k+r)%3 == 0
						resp, err := p.Meta(context.Background(), &rpc.MetaRequest{LocalOnly: lo})
						want := n + 1
						if lo {
							want = 2
						}
						if err != nil || len(resp.Meta) != want {
							select {
							case bad <- fmt.Sprintf("meta (local only: %v) of %d nodes gave %v %v", lo, n, resp, err):
							default:
							}
						}
						time.Sleep(1001 * time.Millisecond)
					}
				}()
			}
			wg.Wait()
			if len(bad) > 0 {
				rt.Fatalf("%s", <-bad)
			}
		})
		if err != nil {
			rt.Fatalf("%s", err)
		}
		c.NonTrivial(fmt.Sprint(n, callers, rounds))
	})
}

// ---------------------------------------------------------------- batching

type batchNode struct {
	mu      sync.Mutex
	stopped bool
	got     []string
	at      map[string]time.Time
	sizes   []int
	bad     string
	plan    []string // what the next sends meet
	failed  int
	lost    int
	noEnd   bool
	routes  bool
	hang    chan struct{}
}

func (b *batchNode) Send(ctx context.Context, in *rpc.SendRequest, _ ...grpc.CallOption) (*rpc.SendResponse, error) {
	b.mu.Lock()
	if b.stopped {
		b.mu.Unlock()
		runtime.Goexit()
	}
	how := "ok"
	if len(b.plan) > 0 {
		how, b.plan = b.plan[0], b.plan[1:]
	}
	if in.LocalOnly == b.routes {
		b.bad = fmt.Sprintf("a batch is marked local-only: %v", in.LocalOnly)
	}
	l := in.GetEnvelopes().GetBatch()
	b.sizes = append(b.sizes, len(l))
	for _, e := range l {
		b.got = append(b.got, vh.Payload(e))
		b.at[vh.Payload(e)] = time.Now()
		if e.SourceId != "s" || e.Timestamp != int64(len(vh.Payload(e))) {
			b.bad = "an envelope is changed: " + vh.Str(e)
		}
	}
	hang := b.hang
	b.mu.Unlock()
	switch how {
	case "fail":
		return nil, errors.New("no")
	case "slow":
		time.Sleep(700 * time.Millisecond)
	case "hang":
		select {
		case <-ctx.Done():
			return nil, ctx.Err()
		case <-hang:
			return nil, errors.New("no")
		}
	}
	return &rpc.SendResponse{}, nil
}

func env(p string) *loggregator_v2.Envelope { return vh.Log("s", int64(len(p)), p) }

func TestC26_Batches(t *testing.T) {
	vh.Check(t, vh.N(250, 12000), "several senders, or a full batch, or a failing, slow or hanging node", func(rt *rapid.T, c *vh.Case) {
		size := rapid.SampledFrom([]int{1, 2, 5, 100}).Draw(rt, "size")
		interval := time.Duration(rapid.SampledFrom([]int{1, 50, 250, 1000}).Draw(rt, "interval")) * time.Millisecond
		type send struct{ wait, n int }
		senders := make([][]send, rapid.IntRange(1, 4).Draw(rt, "senders"))
		total := 0
		for i := range senders {
			for k, n := 0, rapid.IntRange(1, 6).Draw(rt, "sends"); k < n; k++ {
				s := send{rapid.SampledFrom([]int{0, 0, 1, 50, 50, 130, 250, 900, 2000}).Draw(rt, "wait"), rapid.SampledFrom([]int{0, 1, 1, 2, 5, 30, 120}).Draw(rt, "n")}
				total += s.n
				senders[i] = append(senders[i], s)
			}
		}
		node := &batchNode{at: map[string]time.Time{}, hang: make(chan struct{}), routes: rapid.Bool().Draw(rt, "routes")}
		var opts []routing.BatchedIngressClientOption
		if node.routes {
			opts = append(opts, routing.WithLocalOnlyDisabled())
		}
		trouble := rapid.Bool().Draw(rt, "trouble")
		if trouble {
			for i := 0; i < 8; i++ {
				node.plan = append(node.plan, rapid.SampledFrom([]string{"ok", "ok", "fail", "slow", "hang"}).Draw(rt, "send"))
			}
		}
		trouble = strings.Contains(strings.Join(node.plan, " "), "slow") || strings.Contains(strings.Join(node.plan, " "), "hang")
		reg := &counter{}
		sentAt := map[string]time.Time{}
		err := vh.Bubble(t, func() {
			node.hang = make(chan struct{})
			cl := routing.NewBatchedIngressClient(size, interval, node, reg, quiet, opts...)
			var wg sync.WaitGroup
			var mu sync.Mutex
			bad := ""
			for w := range senders {
				w := w
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, s := range senders[w] {
						time.Sleep(time.Duration(s.wait) * time.Millisecond)
						var l []*loggregator_v2.Envelope
						for k := 0; k < s.n; k++ {
							p := fmt.Sprintf("%d:%d:%d", w, i, k)
							l = append(l, env(p))
							mu.Lock()
							sentAt[p] = time.Now()
							mu.Unlock()
						}
						before := time.Now()
						req := &rpc.SendRequest{LocalOnly: true, Envelopes: &loggregator_v2.EnvelopeBatch{Batch: l}}
						if s.n == 0 && i%2 == 0 {
							req.Envelopes = nil
						}
						resp, err := cl.Send(context.Background(), req)
						if err != nil || resp == nil || time.Since(before) > 0 {
							mu.Lock()
							bad = fmt.Sprintf("Send gave %v %v after %s", resp, err, time.Since(before))
							mu.Unlock()
						}
					}
				}()
			}
			wg.Wait()
			// Each of the node's troubles takes three seconds at most.
			time.Sleep(interval + time.Minute)
			synctest.Wait()
			defer func() {
				node.mu.Lock()
				node.stopped = true
				node.mu.Unlock()
				close(node.hang)
				cl.Send(context.Background(), &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{env("")}}})
				time.Sleep(10 * time.Second)
			}()
			node.mu.Lock()
			defer node.mu.Unlock()
			if bad != "" {
				rt.Fatalf("%s", bad)
			}
			if node.bad != "" {
				rt.Fatalf("%s", node.bad)
			}
			for _, n := range node.sizes {
				if n < 1 || n > size {
					rt.Fatalf("a batch has %d of at most %d envelopes", n, size)
				}
			}
			if len(node.got) != total || reg.value() != 0 {
				rt.Fatalf("%d of %d envelopes were sent on, %v counted as dropped", len(node.got), total, reg.value())
			}
			next := map[string][2]int{}
			for _, p := range node.got {
				var w string
				var i, k int
				parts := strings.Split(p, ":")
				w = parts[0]
				fmt.Sscan(parts[1], &i)
				fmt.Sscan(parts[2], &k)
				if last, ok := next[w]; ok && (i < last[0] || i == last[0] && k <= last[1]) {
					rt.Fatalf("%s came after %s:%d:%d", p, w, last[0], last[1])
				}
				next[w] = [2]int{i, k}
				if d := node.at[p].Sub(sentAt[p]); !trouble && d > interval+200*time.Millisecond {
					rt.Fatalf("%s was sent on after %s, the interval is %s", p, d, interval)
				}
			}
			if len(node.got) != len(node.at) {
				rt.Fatalf("an envelope was sent on twice: %v", node.got)
			}
		})
		if err != nil {
			rt.Fatalf("%s", err)
		}
		full := 0
		for _, n := range node.sizes {
			if n == size {
				full++
			}
		}
		c.ClassIf(full > 0, "a full batch")
		c.ClassIf(trouble, "slow or hanging")
		c.ClassIf(len(senders) > 1, "several senders")
		c.If(total > 0 && (len(senders) > 1 || full > 0 || trouble), fmt.Sprint(size, interval, senders, node.plan))
	})
}

// TestC26_Overflow: while the node hangs, more is given than the buffer holds.
func TestC26_Overflow(t *testing.T) {
	vh.Check(t, vh.N(6, 100), "the buffer overflowed", func(rt *rapid.T, c *vh.Case) {
		extra := rapid.IntRange(0, 12000).Draw(rt, "extra")
		total := 9000 + extra
		node := &batchNode{at: map[string]time.Time{}, plan: []string{"hang"}}
		reg := &counter{}
		err := vh.Bubble(t, func() {
			node.hang = make(chan struct{})
			cl := routing.NewBatchedIngressClient(100, 250*time.Millisecond, node, reg, quiet)
			put := func(from, to int) {
				var l []*loggregator_v2.Envelope
				for i := from; i < to; i++ {
					l = append(l, env(fmt.Sprint(i)))
				}
				cl.Send(context.Background(), &rpc.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: l}})
			}
			put(0, 100)
			time.Sleep(time.Second)
			synctest.Wait() // the node hangs with the first batch
			put(100, total)
			time.Sleep(time.Minute)
			synctest.Wait()
			defer func() {
				node.mu.Lock()
				node.stopped = true
				node.mu.Unlock()
				put(0, 1)
				time.Sleep(10 * time.Second)
			}()
			node.mu.Lock()
			defer node.mu.Unlock()
			if len(node.got)+int(reg.value()) != total || len(node.at) != len(node.got) {
				rt.Fatalf("%d sent on and %v counted as dropped of %d", len(node.got), reg.value(), total)
			}
			nums := make([]int, len(node.got))
			for i, p := range node.got {
				fmt.Sscan(p, &nums[i])
			}
			if !sort.IntsAreSorted(nums) {
				rt.Fatalf("envelopes were sent on out of order")
			}
			if total <= 10000 && reg.value() > 0 {
				rt.Fatalf("%v of %d were dropped", reg.value(), total)
			}
		})
		if err != nil {
			rt.Fatalf("%s", err)
		}
		c.ClassIf(reg.value() > 0, "dropped")
		c.If(reg.value() > 0, fmt.Sprint(total, reg.value()))
	})
}

type counter struct {
	mu sync.Mutex
	v  float64
}

func (c *counter) Add(d float64)  { c.mu.Lock(); c.v += d; c.mu.Unlock() }
func (c *counter) value() float64 { c.mu.Lock(); defer c.mu.Unlock(); return c.v }
