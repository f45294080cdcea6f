package scheduler_test

import (
	"context"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"code.cloudfoundry.org/log-cache/internal/scheduler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { os.Exit(m.Run()) }

type span struct{ start, end uint64 }

// node is a cache node as the scheduler sees it.
type node struct {
	ranges []span
	table  map[string][]span
	// how it fails: "", "down", "hangs", or the name of a method, with "lost"
	// for an answer that is lost after the request is done
	fails   string
	changes int // add and remove requests
	sets    int
	bad     string
}

// spans are ranges that are not all written out.
type spans []span

func (l spans) String() string {
	if len(l) <= 4 {
		return fmt.Sprint([]span(l))
	}
	return fmt.Sprintf("[%v %v ... %v: %d]", l[0], l[1], l[len(l)-1], len(l))
}

type cluster struct {
	mu    sync.Mutex
	nodes map[string]*node
}

func fromRPC(l []*logcache_v1.Range) []span {
	var r []span
	for _, x := range l {
		r = append(r, span{x.GetStart(), x.GetEnd()})
	}
	return r
}

// call answers a request in place of the network.
func (c *cluster) call(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, _ grpc.UnaryInvoker, _ ...grpc.CallOption) error {
	c.mu.Lock()
	n := c.nodes[cc.Target()]
	fails := n.fails
	if fails == "hangs" {
		c.mu.Unlock()
		<-ctx.Done()
		return status.FromContextError(ctx.Err()).Err()
	}
	defer c.mu.Unlock()
	name := method[strings.LastIndex(method, "/")+1:]
	if fails == "down" || fails == name {
		return status.Error(codes.Unavailable, "no connection")
	}
	switch name {
	case "AddRange":
		r := req.(*logcache_v1.AddRangeRequest).Range
		n.ranges = append(n.ranges, span{r.GetStart(), r.GetEnd()})
		n.changes++
	case "RemoveRange":
		r := req.(*logcache_v1.RemoveRangeRequest).Range
		for i, x := range n.ranges {
			if x == (span{r.GetStart(), r.GetEnd()}) {
				n.ranges = append(n.ranges[:i:i], n.ranges[i+1:]...)
				break
			}
		}
		n.changes++
	case "ListRanges":
		resp := &logcache_v1.ListRangesResponse{}
		for _, x := range n.ranges {
			resp.Ranges = append(resp.Ranges, &logcache_v1.Range{Start: x.start, End: x.end})
		}
		proto.Merge(reply.(proto.Message), resp)
	case "SetRanges":
		n.table = map[string][]span{}
		for a, l := range req.(*logcache_v1.SetRangesRequest).Ranges {
			n.table[a] = fromRPC(l.Ranges)
		}
		n.sets++
	default:
		n.bad = "asked for " + method
	}
	if fails == "lost "+name {
		return status.Error(codes.Unavailable, "connection reset")
	}
	return nil
}

func sortSpans(l []span) []span {
	l = append([]span{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i].start < l[j].start })
	return l
}

// covered says what is wrong with the ranges of the live nodes.
func (c *cluster) covered(count, rf int) error {
	owners := map[span]int{}
	live, most := 0, 0
	for a, n := range c.nodes {
		if n.fails != "" {
			continue
		}
		live++
		most = max(most, len(n.ranges))
		own := map[span]bool{}
		for _, r := range n.ranges {
			if own[r] {
				return fmt.Errorf("%s has %v twice", a, r)
			}
			own[r] = true
			owners[r]++
		}
	}
	var all []span
	for r, n := range owners {
		if want := min(rf, live); n != want {
			return fmt.Errorf("%v has %d owners, want %d", r, n, want)
		}
		all = append(all, r)
	}
	all = sortSpans(all)
	if len(all) != count {
		return fmt.Errorf("%d ranges, want %d", len(all), count)
	}
	next := uint64(0)
	var small, big uint64
	for i, r := range all {
		if r.start != next || r.end < r.start {
			return fmt.Errorf("the ranges do not tile at %v", r)
		}
		size := r.end - r.start
		if i == 0 || size < small {
			small = size
		}
		big = max(big, size)
		next = r.end + 1
	}
	if next != 0 {
		return fmt.Errorf("the ranges end before the last hash: %v", all[len(all)-1])
	}
	if big-small > uint64(count) {
		return fmt.Errorf("the ranges are of sizes %d to %d", small, big)
	}
	if rf == 1 && most > (count+live-1)/live {
		return fmt.Errorf("%d of %d ranges are on one of %d nodes", most, count, live)
	}
	return nil
}

// told says what is wrong with the tables that the live nodes were told.
func (c *cluster) told() error {
	for a, n := range c.nodes {
		if n.fails != "" {
			continue
		}
		if len(n.table) == 0 {
			return fmt.Errorf("%s was told nothing", a)
		}
		for b := range n.table {
			if c.nodes[b] == nil || c.nodes[b].fails != "" && len(n.table[b]) > 0 {
				return fmt.Errorf("%s was told that %v are of %s", a, n.table[b], b)
			}
		}
		for b, o := range c.nodes {
			if o.fails != "" {
				continue
			}
			g, w := sortSpans(n.table[b]), sortSpans(o.ranges)
			if fmt.Sprint(g) != fmt.Sprint(w) {
				return fmt.Errorf("%s was told that %s are of %s, which has %s", a, spans(g), b, spans(w))
			}
		}
	}
	return nil
}

func (c *cluster) whole() string {
	var l []string
	for a, n := range c.nodes {
		l = append(l, fmt.Sprintf("%s: %v", a, sortSpans(n.ranges)))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func (c *cluster) String() string {
	var l []string
	for a, n := range c.nodes {
		l = append(l, fmt.Sprintf("%s %q: %v", a, n.fails, spans(n.ranges)))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

var faults = []string{"down", "down", "hangs", "AddRange", "RemoveRange", "ListRanges", "SetRanges", "lost AddRange", "lost RemoveRange", "lost ListRanges", "lost SetRanges"}

func TestC28_Ranges(t *testing.T) {
	vh.Check(t, vh.N(400, 12000), "a node fails or loses its ranges, or the leader changes, and the ranges settle again", func(rt *rapid.T, c *vh.Case) {
		// requests that hang draw out what is under way, for the longer the
		// more ranges there are
		hangs := oneIn(rt, 3, "hangs")
		counts, intervals := []int{1, 2, 3, 7, 10, 64, 100, 101}, []time.Duration{50 * time.Millisecond, time.Second, time.Minute}
		if hangs {
			counts, intervals = counts[:5], intervals[1:]
		}
		count := rapid.SampledFrom(counts).Draw(rt, "count")
		nodes := rapid.IntRange(1, 5).Draw(rt, "nodes")
		rf := rapid.IntRange(1, 4).Draw(rt, "replication factor")
		interval := rapid.SampledFrom(intervals).Draw(rt, "interval")
		schedulers := rapid.IntRange(1, 2).Draw(rt, "schedulers")
		cl := &cluster{nodes: map[string]*node{}}
		var addrs []string
		stale := []span{{0, 5}, {7, 1 << 40}, {0, 1<<64 - 1}, {9, 3}, {0, 0}}
		for i := 0; i < nodes; i++ {
			a := fmt.Sprintf("node-%d:8080", i)
			addrs = append(addrs, a)
			n := &node{}
			for _, s := range stale {
				if oneIn(rt, 5, "stale") {
					n.ranges = append(n.ranges, s)
				}
			}
			cl.nodes[a] = n
		}
		leader := 0
		var log []string
		note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		note("%d ranges, replication factor %d, every %s, by %d schedulers: %s", count, rf, interval, schedulers, cl)
		settled, troubles, hung := 0, 0, false
		err := vh.Bubble(t, func() {
			opts := []scheduler.SchedulerOption{
				scheduler.WithSchedulerInterval(interval),
				scheduler.WithSchedulerDialOpts(grpc.WithInsecure(), grpc.WithUnaryInterceptor(cl.call),
					grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { <-ctx.Done(); return nil, ctx.Err() })),
			}
			if count != 100 || rapid.Bool().Draw(rt, "count given") {
				opts = append(opts, scheduler.WithSchedulerCount(count))
			}
			if rf != 1 || rapid.Bool().Draw(rt, "factor given") {
				opts = append(opts, scheduler.WithSchedulerReplicationFactor(rf))
			}
			for i := 0; i < schedulers; i++ {
				i := i
				o := opts
				if schedulers > 1 || rapid.Bool().Draw(rt, "leadership given") {
					o = append(o[:len(o):len(o)], scheduler.WithSchedulerLeadership(func() bool {
						cl.mu.Lock()
						defer cl.mu.Unlock()
						return leader == i
					}))
				} else {
					leader = 0
				}
				scheduler.NewScheduler(addrs, o...).Start()
			}
			elect := schedulers > 1
			// all is well at first, so that the first round does it
			synctest.Wait()
			cl.mu.Lock()
			err := cl.covered(count, rf)
			if err == nil && (rf == 1 || rf >= nodes) {
				err = cl.told()
			}
			if err != nil {
				vh.Fail("after the first round, %s", err)
			}
			cl.mu.Unlock()
			for step := rapid.IntRange(1, 8).Draw(rt, "steps"); step > 0; step-- {
				a := rapid.SampledFrom(addrs).Draw(rt, "node")
				what := rapid.IntRange(0, 7).Draw(rt, "step")
				var fault string
				var lead int
				switch {
				case what <= 1:
					fault = rapid.SampledFrom(faults).Draw(rt, "fault")
				case what == 4 && elect:
					lead = rapid.IntRange(0, schedulers).Draw(rt, "leader")
				}
				cl.mu.Lock()
				n := cl.nodes[a]
				switch what {
				case 0, 1:
					n.fails = fault
					if n.fails == "hangs" && !hangs {
						n.fails = "down"
					}
					hung = hung || n.fails == "hangs"
					note("%s: %s", a, n.fails)
					troubles++
				case 2:
					n.fails = ""
					note("%s is well", a)
				case 3:
					n.ranges, n.table = nil, nil
					note("%s restarts", a)
					troubles++
				case 4:
					if elect {
						leader = lead
						note("the leader is %d", leader)
						troubles++
					}
				}
				cl.mu.Unlock()
				if what < 5 {
					if oneIn(rt, 2, "at once") {
						continue
					}
					time.Sleep(time.Duration(rapid.Int64Range(0, int64(3*interval)).Draw(rt, "time")))
					synctest.Wait()
					continue
				}
				// let it settle: what is under way may take the time that a
				// request may hang, for each request of a term
				cl.mu.Lock()
				if leader >= schedulers {
					leader = 0
				}
				for _, n := range cl.nodes {
					if n.fails != "" && n.fails != "down" && n.fails != "hangs" {
						n.fails = ""
					}
				}
				none := true
				for _, n := range cl.nodes {
					none = none && n.fails != ""
				}
				if none {
					cl.nodes[addrs[0]].fails = ""
				}
				note("the leader is %d; settles: %s", leader, cl)
				// the time of a round: each node that hangs takes three
				// requests of five seconds
				round := interval
				for _, n := range cl.nodes {
					if n.fails == "hangs" {
						round += 15 * time.Second
					}
				}
				cl.mu.Unlock()
				rounds := func(n int) {
					time.Sleep(time.Duration(n)*round + time.Millisecond)
					synctest.Wait()
				}
				// how ranges that have several owners, but not all nodes, are
				// spread is up to the orchestrator, and may go on changing
				exact := rf == 1
				live := 0
				for _, n := range cl.nodes {
					if n.fails == "" {
						live++
					}
				}
				exact = exact || rf >= live
				if hung {
					time.Sleep(6 * time.Minute)
				}
				rounds(4)
				for n := 0; ; n++ {
					cl.mu.Lock()
					err := cl.covered(count, rf)
					if err == nil && exact {
						err = cl.told()
					}
					cl.mu.Unlock()
					if err == nil {
						break
					}
					if n > 30 {
						vh.Fail("%s: %s", err, cl)
					}
					rounds(1)
				}
				rounds(4)
				cl.mu.Lock()
				if err := cl.covered(count, rf); err != nil && exact {
					vh.Fail("%s", err)
				}
				if err := cl.told(); err != nil && exact {
					vh.Fail("%s", err)
				}
				hung = false
				for _, n := range cl.nodes {
					hung = hung || n.fails == "hangs"
				}
				changes, sets := 0, 0
				for _, n := range cl.nodes {
					if n.bad != "" {
						vh.Fail("%s", n.bad)
					}
					if n.fails == "" {
						changes, sets = changes+n.changes, sets+n.sets
					}
				}
				before := cl.whole()
				cl.mu.Unlock()
				// and it stays put, and is told again
				rounds(3)
				cl.mu.Lock()
				for _, n := range cl.nodes {
					if n.fails == "" {
						changes, sets = changes-n.changes, sets-n.sets
					}
				}
				if exact && (cl.whole() != before || changes != 0) {
					vh.Fail("with nothing changed, %s is now %s", before, cl)
				}
				c.ClassIf(exact, "settled for good")
				if sets == 0 {
					vh.Fail("the nodes were not told again")
				}
				if !hung && (-sets < 3*live || -sets > 4*live) {
					vh.Fail("%d nodes were told %d times in three intervals", live, -sets)
				}
				// without a leader nothing is done
				if elect && rapid.Bool().Draw(rt, "nobody leads") {
					leader = schedulers
					cl.mu.Unlock()
					rounds(2) // for what is under way
					loses := rapid.SampledFrom(addrs).Draw(rt, "loses its ranges")
					cl.mu.Lock()
					total := 0
					for _, n := range cl.nodes {
						total += n.changes + n.sets
					}
					lost := cl.nodes[loses]
					keep := lost.ranges
					lost.ranges = []span{{1, 2}}
					cl.mu.Unlock()
					rounds(3)
					cl.mu.Lock()
					for _, n := range cl.nodes {
						total -= n.changes + n.sets
					}
					if total != 0 {
						vh.Fail("without a leader, nodes were told %d things", -total)
					}
					lost.ranges = keep
					leader = 0
					c.Class("no leader")
				}
				cl.mu.Unlock()
				settled++
			}
		})
		if err != nil && !strings.Contains(err.Error(), "main bubble goroutine has exited but blocked goroutines remain") {
			rt.Fatalf("%s\nin the history\n%s", err, strings.Join(log, "\n"))
		}
		c.ClassIf(settled > 0, "settled")
		c.If(settled > 0 && troubles > 0, strings.Join(log, "; "))
	})
}

func oneIn(rt *rapid.T, n int, what string) bool {
	return rapid.IntRange(1, n).Draw(rt, what) == n
}
