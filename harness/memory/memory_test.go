package memory_test

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/cache"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
	"pgregory.net/rapid"
)

const mb = 1 << 20

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard))
	if p := os.Getenv("VERIF_NODE"); p != "" {
		beNode(p)
		return
	}
	os.Exit(m.Run())
}

// registry keeps the gauges.
type registry struct {
	mu   sync.Mutex
	vals map[string]float64
}

type cell struct {
	r    *registry
	name string
}

func (c cell) Add(d float64) { c.r.mu.Lock(); c.r.vals[c.name] += d; c.r.mu.Unlock() }
func (c cell) Set(v float64) { c.r.mu.Lock(); c.r.vals[c.name] = v; c.r.mu.Unlock() }

func (r *registry) NewCounter(name string, _ ...metrics.MetricOption) metrics.Counter {
	return cell{r, name}
}

func (r *registry) NewGauge(name string, _ ...metrics.MetricOption) metrics.Gauge {
	return cell{r, name}
}

func (r *registry) snapshot() map[string]float64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := map[string]float64{}
	for k, v := range r.vals {
		m[k] = v
	}
	return m
}

// beNode runs a node with the share of the memory until its input ends. For
// each line of it the node's gauges are written.
func beNode(percent string) {
	p, err := strconv.ParseFloat(percent, 64)
	vh.Must(err)
	reg := &registry{vals: map[string]float64{}}
	c := cache.New(reg, log.New(io.Discard, "", 0), cache.WithAddr("127.0.0.1:0"), cache.WithMemoryLimit(p), cache.WithMaxPerSource(10_000_000))
	c.Start()
	fmt.Println(c.Addr())
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		b, err := json.Marshal(reg.snapshot())
		vh.Must(err)
		fmt.Println(string(b))
	}
}

// node is a node in a process of its own.
type node struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Scanner
	conn *grpc.ClientConn
}

func startNode(percent float64) *node {
	exe, err := os.Executable()
	vh.Must(err)
	n := &node{cmd: exec.Command(exe)}
	n.cmd.Env = []string{"VERIF_NODE=" + strconv.FormatFloat(percent, 'g', -1, 64), "GOMAXPROCS=2", "PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME")}
	n.in, err = n.cmd.StdinPipe()
	vh.Must(err)
	o, err := n.cmd.StdoutPipe()
	vh.Must(err)
	n.out = bufio.NewScanner(o)
	vh.Must(n.cmd.Start())
	if !n.out.Scan() {
		vh.Harness("the node did not start")
	}
	n.conn, err = grpc.Dial(n.out.Text(), grpc.WithInsecure(), grpc.WithBlock(), grpc.WithTimeout(20*time.Second))
	vh.Must(err)
	_, err = logcache_v1.NewOrchestrationClient(n.conn).SetRanges(ctx(), &logcache_v1.SetRangesRequest{Ranges: map[string]*logcache_v1.Ranges{
		"127.0.0.1:0": {Ranges: []*logcache_v1.Range{{Start: 0, End: math.MaxUint64}}},
	}})
	vh.Must(err)
	return n
}

func (n *node) stop() {
	n.conn.Close()
	n.in.Close()
	n.cmd.Process.Kill()
	n.cmd.Wait()
}

func (n *node) gauges() (map[string]float64, error) {
	fmt.Fprintln(n.in)
	if !n.out.Scan() {
		return nil, fmt.Errorf("the node has ended")
	}
	m := map[string]float64{}
	return m, json.Unmarshal(n.out.Bytes(), &m)
}

func ctx() context.Context {
	c, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	time.AfterFunc(30*time.Second, cancel)
	return c
}

// meminfo reads a line of /proc/meminfo.
func meminfo(name string) uint64 {
	b, err := os.ReadFile("/proc/meminfo")
	vh.Must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == name+":" {
			v, err := strconv.ParseUint(f[1], 10, 64)
			vh.Must(err)
			return v * 1024
		}
	}
	vh.Harness("no %s", name)
	return 0
}

type burst struct {
	size, count, sources int
}

// load is what one node gets to do.
type load struct {
	limit  int // in MB
	bursts []burst
	rest   time.Duration
}

func (l load) String() string {
	return fmt.Sprintf("a share of %d MB, bursts of %v (size, count, sources), a rest of %v", l.limit, l.bursts, l.rest)
}

// run gives the node its load and says what is wrong. It returns how many
// MB of text it kept.
func (l load) run() (kept int, over bool, err error) {
	total := meminfo("MemTotal")
	n := startNode(float64(l.limit) * mb * 100 / float64(total))
	defer n.stop()
	ing := logcache_v1.NewIngressClient(n.conn)
	type env struct {
		source string
		size   int
	}
	var written []env // by time
	const base = 1_500_000_000_000_000_000
	bytes := 0
	for bi, b := range l.bursts {
		for i := 0; i < b.count; {
			var batch []*loggregator_v2.Envelope
			for sum := 0; i < b.count && sum < 512<<10; i++ {
				s := fmt.Sprint("source-", (i*7+i/3)%b.sources)
				batch = append(batch, vh.Log(s, base+int64(len(written)), strings.Repeat(string(rune('a'+i%26)), b.size)))
				written = append(written, env{s, b.size})
				sum += b.size
				bytes += b.size
			}
			if _, err := ing.Send(ctx(), &logcache_v1.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: batch}}); err != nil {
				return 0, over, fmt.Errorf("after %d MB a write fails: %s", bytes/mb, err)
			}
		}
		over = over || bytes > l.limit*mb
		// it comes to rest within its share
		deadline := time.Now().Add(20 * time.Second)
		for {
			g, err := n.gauges()
			if err != nil {
				return 0, over, err
			}
			if h := g["log_cache_heap_in_use_memory"]; h > 0 && h <= float64(l.limit*mb) && (!over || g["log_cache_expired"] > 0) {
				break
			} else if time.Now().After(deadline) {
				return 0, over, fmt.Errorf("after %d MB, in 20 s, the heap is of %.1f MB, and %v are let go", bytes/mb, h/mb, g["log_cache_expired"])
			}
			time.Sleep(100 * time.Millisecond)
		}
		if bi < len(l.bursts)-1 {
			time.Sleep(700 * time.Millisecond)
		}
	}
	time.Sleep(l.rest)
	g, err := n.gauges()
	if err != nil {
		return 0, over, err
	}
	var m *logcache_v1.MetaResponse
	for i := 0; ; i++ {
		if m, err = logcache_v1.NewEgressClient(n.conn).Meta(ctx(), &logcache_v1.MetaRequest{}); err != nil {
			return 0, over, err
		}
		before := g["log_cache_expired"]
		if g, err = n.gauges(); err != nil {
			return 0, over, err
		}
		if g["log_cache_expired"] == before || i == 5 {
			break
		}
		time.Sleep(1200 * time.Millisecond) // the nodes keep their meta for a second
	}
	// the kept are the newest
	oldest := int64(math.MaxInt64)
	count, expired := int64(0), int64(0)
	for s, i := range m.Meta {
		if i.OldestTimestamp < oldest {
			oldest = i.OldestTimestamp
		}
		count += i.Count
		expired += i.Expired
		last := int64(-1)
		for t, w := range written {
			if w.source == s {
				last = base + int64(t)
			}
		}
		if i.NewestTimestamp != last {
			return 0, over, fmt.Errorf("the newest of %s is %d of %d", s, i.NewestTimestamp-base, last-base)
		}
	}
	if oldest == math.MaxInt64 {
		return 0, over, fmt.Errorf("after %d MB and a rest, nothing is kept", bytes/mb)
	}
	sum := 0
	for _, w := range written[oldest-base:] {
		sum += w.size
	}
	if want := int64(len(written)) - (oldest - base); count != want {
		return 0, over, fmt.Errorf("%d envelopes are kept, the oldest of which has %d after it", count, want)
	}
	if g["log_cache_expired"] != float64(len(written))-float64(count) {
		return 0, over, fmt.Errorf("%d of %d envelopes are kept, and %v said to be let go", count, len(written), g["log_cache_expired"])
	}
	// a new piece of the heap may put it just above for a moment
	for i := 0; i < 40 && g["log_cache_heap_in_use_memory"] > float64(l.limit*mb); i++ {
		time.Sleep(100 * time.Millisecond)
		if g, err = n.gauges(); err != nil {
			return 0, over, err
		}
	}
	if h := g["log_cache_heap_in_use_memory"]; h > float64(l.limit*mb) {
		return 0, over, fmt.Errorf("after %d MB and a rest, the heap is of %.1f MB", bytes/mb, h/mb)
	}
	if !over && bytes < l.limit*mb/8 && int(count) != len(written) {
		return 0, over, fmt.Errorf("%d of %d MB are kept", sum/mb, bytes/mb)
	}
	if over && sum < l.limit*mb/5 {
		return 0, over, fmt.Errorf("after %d MB and a rest, %d kB are kept", bytes/mb, sum>>10)
	}
	return sum / mb, over, nil
}

func TestC46_Share(t *testing.T) {
	vh.Check(t, vh.N(5, 60), "a node gets more than its share, from one time or several; four real nodes in each case", func(rt *rapid.T, c *vh.Case) {
		var ls []load
		for i := 0; i < 4; i++ {
			l := load{limit: rapid.IntRange(40, 90).Draw(rt, "share"), rest: time.Duration(rapid.IntRange(3, 8).Draw(rt, "rest")) * time.Second}
			for k := rapid.IntRange(1, 3).Draw(rt, "bursts"); k > 0; k-- {
				b := burst{
					size:    rapid.SampledFrom([]int{1000, 4000, 10000, 30000}).Draw(rt, "size"),
					sources: rapid.IntRange(1, 6).Draw(rt, "sources"),
				}
				percent := rapid.SampledFrom([]int{3, 4, 110, 130, 160, 200, 300, 500}).Draw(rt, "burst in percent of the share")
				b.count = l.limit * mb / 100 * percent / b.size
				l.bursts = append(l.bursts, b)
			}
			ls = append(ls, l)
		}
		errs := make([]error, len(ls))
		over := make([]bool, len(ls))
		kept := make([]int, len(ls))
		var wg sync.WaitGroup
		for i := range ls {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				kept[i], over[i], errs[i] = ls[i].run()
			}(i)
		}
		wg.Wait()
		any := false
		for i, err := range errs {
			if err != nil {
				rt.Fatalf("%v: %s", ls[i], err)
			}
			any = any || over[i]
			c.ClassIf(!over[i], "within the share")
			if os.Getenv("VERIF_SHOW") != "" {
				fmt.Println(ls[i], "kept", kept[i], "MB", float64(kept[i])/float64(ls[i].limit))
			}
		}
		c.If(any, fmt.Sprint(ls))
	})
}

var sink [][]byte

func TestC46_Measured(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	defer func() { sink = nil }()
	vh.Check(t, vh.N(60, 1500), "the heap grew or shrank by a MB or more since the measurement before", func(rt *rapid.T, c *vh.Case) {
		reg := &registry{vals: map[string]float64{}}
		a := cache.NewMemoryAnalyzer(reg)
		total := meminfo("MemTotal")
		changed, before := false, uint64(0)
		for step := rapid.IntRange(1, 8).Draw(rt, "steps"); step > 0; step-- {
			switch rapid.IntRange(0, 3).Draw(rt, "what") {
			case 0, 1:
				n := rapid.IntRange(1, 12).Draw(rt, "MB")
				for ; n > 0; n-- {
					sink = append(sink, make([]byte, mb))
				}
			case 2:
				sink = sink[:rapid.IntRange(0, len(sink)).Draw(rt, "keep"):cap(sink)]
				sink = append([][]byte(nil), sink...)
				runtime.GC()
			}
			var m1, m2 runtime.MemStats
			free1, avail1 := meminfo("MemFree"), meminfo("MemAvailable")
			runtime.ReadMemStats(&m1)
			heap, avail, tot := a.Memory()
			runtime.ReadMemStats(&m2)
			free2, avail2 := meminfo("MemFree"), meminfo("MemAvailable")
			if heap < min(m1.HeapInuse, m2.HeapInuse) || heap > max(m1.HeapInuse, m2.HeapInuse) {
				rt.Fatalf("the heap in use is %d, and was %d before and %d after", heap, m1.HeapInuse, m2.HeapInuse)
			}
			if tot != total {
				rt.Fatalf("the memory of the machine is %d, want %d", tot, total)
			}
			const slack = 512 * mb // others use the machine too
			if avail+slack < min(avail1, avail2) || avail > max(avail1, avail2)+slack {
				rt.Fatalf("the available memory is %d, and was %d before and %d after", avail, avail1, avail2)
			}
			c.ClassIf(max(free1, free2)+slack < min(avail1, avail2), "memory that is not free but available")
			g := reg.snapshot()
			for n, v := range map[string]uint64{"log_cache_available_system_memory": avail, "log_cache_heap_in_use_memory": heap, "log_cache_total_system_memory": tot} {
				if g[n] != float64(v) {
					rt.Fatalf("%s is said to be %v, and is %d", n, g[n], v)
				}
			}
			if before > 0 && (heap > before+mb || before > heap+mb) {
				changed = true
			}
			before = heap
		}
		c.If(changed, fmt.Sprint(before))
	})
}
