package procs_test

import (
	"fmt"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
)

func write(conn *grpc.ClientConn, id string, from, n int) error {
	var l []*loggregator_v2.Envelope
	for i := 0; i < n; i++ {
		l = append(l, vh.Log(id, int64(from+i), "x"))
	}
	_, err := logcache_v1.NewIngressClient(conn).Send(ctx(), &logcache_v1.SendRequest{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: l}})
	return err
}

func read(addr, id string) ([]*loggregator_v2.Envelope, error) {
	return client.NewClient(addr, client.WithViaGRPC(creds("log-cache"))).Read(ctx(), id, time.Unix(0, 0), client.WithLimit(1000))
}

func TestC43_Nodes(t *testing.T) {
	vh.Check(t, vh.N(10, 120), "one or two real node processes with random settings; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, clean := tmpDir()
		defer clean()
		n := rapid.IntRange(1, 2).Draw(rt, "nodes")
		var addrs []string
		for i := 0; i < n; i++ {
			addrs = append(addrs, address())
		}
		most := rapid.SampledFrom([]int{0, 3, 50}).Draw(rt, "max per source")
		timeout := rapid.SampledFrom([]string{"", "1ns", "30s"}).Draw(rt, "query timeout")
		memory := rapid.SampledFrom([]string{"", "100", "0"}).Draw(rt, "memory limit")
		other := n == 2 && oneIn(rt, 4, "the other node has another name")
		var ps []*process
		for i, a := range addrs {
			name := "log-cache"
			if i == 1 && other {
				name = "other"
			}
			env := mutual(tmp, name).with(vars{"ADDR": a})
			if n > 1 || oneIn(rt, 2, "says its place") {
				env["NODE_INDEX"], env["NODE_ADDRS"] = strconv.Itoa(i), strings.Join(addrs, ",")
			}
			if most > 0 {
				env["MAX_PER_SOURCE"] = strconv.Itoa(most)
			}
			if timeout != "" {
				env["QUERY_TIMEOUT"] = timeout
			}
			if memory != "" {
				env["MEMORY_LIMIT_PERCENT"] = memory
			}
			p := start("log-cache", env)
			defer p.stop()
			ps = append(ps, p)
			defer func() {
				if !rt.Failed() {
					return
				}
				rt.Logf("%s", p.out.String())
			}()
			defer p.healthy(rt, env)
		}
		what := fmt.Sprint(n, most, timeout, memory, other)
		c.NonTrivial(what)
		conn := dial(addrs[0])
		defer conn.Close()
		// the last node has all the hashes
		last := addrs[n-1]
		for i, a := range addrs {
			co := conn
			if i > 0 {
				name := "log-cache"
				if other {
					name = "other"
				}
				var err error
				co, err = grpc.Dial(a, creds(name))
				vh.Must(err)
				defer co.Close()
			}
			if s := until(20*time.Second, func() string {
				if _, err := logcache_v1.NewOrchestrationClient(co).SetRanges(ctx(), all(last)); err != nil {
					return err.Error()
				}
				return ""
			}); s != "" {
				for _, p := range ps {
					p.skipIfTaken(rt)
				}
				rt.Fatalf("%s: %s does not take ranges: %s", what, a, s)
			}
		}
		// nobody is served who does not speak TLS
		plain, err := grpc.Dial(addrs[0], grpc.WithInsecure())
		vh.Must(err)
		defer plain.Close()
		if _, err := logcache_v1.NewOrchestrationClient(plain).ListRanges(ctx(), &logcache_v1.ListRangesRequest{}); err == nil {
			rt.Fatalf("%s: a node serves without TLS", what)
		}
		if other {
			// what is not the node that it says it is gets nothing and is asked nothing
			for i := 0; i < 10; i++ {
				if _, err := read(addrs[0], "some-id"); err == nil {
					rt.Fatalf("%s: a node asks another that has another name", what)
				}
				time.Sleep(100 * time.Millisecond)
			}
			return
		}
		if s := until(10*time.Second, func() string {
			if _, err := read(addrs[0], "some-id"); err != nil {
				return err.Error()
			}
			return ""
		}); s != "" {
			rt.Fatalf("%s: %s", what, s)
		}
		wrote := rapid.SampledFrom([]int{1, 3, 4, 50, 60}).Draw(rt, "envelopes")
		base := int(time.Now().Add(-time.Minute).UnixNano())
		if err := write(conn, "some-id", base, wrote); err != nil {
			rt.Fatalf("%s: %s", what, err)
		}
		want := wrote
		if most > 0 {
			want = min(want, most)
		}
		if memory == "0" {
			// all of the memory is too much, and so everything goes that
			// comes
			want = 0
		}
		api := client.NewClient(addrs[0], client.WithViaGRPC(creds("log-cache")))
		check := func() string {
			es, err := read(addrs[0], "some-id")
			if err != nil {
				return err.Error()
			}
			if len(es) != want {
				return fmt.Sprintf("%d envelopes, want %d", len(es), want)
			}
			for i, e := range es {
				if e.Timestamp != int64(base+wrote-want+i) {
					return fmt.Sprintf("envelope %d is of %d, want %d", i, e.Timestamp, base+wrote-want+i)
				}
			}
			return ""
		}
		if s := until(10*time.Second, check); s != "" {
			rt.Fatalf("%s: %s", what, s)
		}
		if memory != "0" {
			// which has had time to go by now, if it went
			time.Sleep(700 * time.Millisecond)
			if s := check(); s != "" {
				rt.Fatalf("%s: after some time: %s", what, s)
			}
		}
		_, err = api.PromQL(ctx(), `metric{source_id="some-id"}`)
		if timeout == "1ns" && err == nil {
			rt.Fatalf("%s: a query takes longer than it may", what)
		}
		if timeout != "1ns" && err != nil {
			rt.Fatalf("%s: a query: %s", what, err)
		}
	})
}

// leadership is an endpoint that says who leads.
type leadership struct {
	mu    sync.Mutex
	code  int
	body  string
	hang  bool
	conns map[net.Conn]bool
	most  int
	asked int
}

func (l *leadership) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	l.mu.Lock()
	code, body, hang := l.code, l.body, l.hang
	l.asked++
	if r.Method != "GET" || r.URL.RequestURI() != "/leader?of=x" {
		code = 404
	}
	l.mu.Unlock()
	if hang {
		<-r.Context().Done()
		return
	}
	w.WriteHeader(code)
	w.Write([]byte(body))
}

func (l *leadership) state(c net.Conn, s http.ConnState) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if s == http.StateClosed {
		delete(l.conns, c)
	} else {
		l.conns[c] = true
	}
	l.most = max(l.most, len(l.conns))
}

func TestC43_Scheduler(t *testing.T) {
	vh.Check(t, vh.N(8, 100), "a real scheduler process with random settings; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, clean := tmpDir()
		defer clean()
		n := rapid.IntRange(1, 3).Draw(rt, "nodes")
		untrusted := -1
		if oneIn(rt, 3, "a node has another name") {
			untrusted = rapid.IntRange(0, n-1).Draw(rt, "which")
		}
		var fs []*fake
		var addrs []string
		for i := 0; i < n; i++ {
			name := "log-cache"
			if i == untrusted {
				name = "other"
			}
			f := serve(name)
			defer f.stop()
			fs, addrs = append(fs, f), append(addrs, f.addr)
		}
		env := mutual(tmp, "scheduler").with(vars{"NODE_ADDRS": strings.Join(addrs, ","), "INTERVAL": "100ms"})
		count, factor := 100, 1
		if oneIn(rt, 2, "count") {
			count = rapid.IntRange(1, 12).Draw(rt, "ranges")
			env["COUNT"] = strconv.Itoa(count)
		}
		if oneIn(rt, 3, "factor") {
			factor = n
			env["REPLICATION_FACTOR"] = strconv.Itoa(n)
		}
		l := &leadership{code: 200, body: strings.Repeat("x", rapid.SampledFrom([]int{0, 3, 5000}).Draw(rt, "body")), conns: map[net.Conn]bool{}}
		elected := oneIn(rt, 3, "always leads") == false
		l.code = rapid.SampledFrom([]int{423, 404, 500, 204}).Draw(rt, "code of others")
		if elected {
			srv := httptest.NewUnstartedServer(l)
			srv.Config.ConnState = l.state
			srv.Start()
			defer srv.Close()
			env["LEADER_ELECTION_ENDPOINT"] = srv.URL + "/leader?of=x"
		}
		p := start("scheduler", env)
		defer p.stop()
		what := fmt.Sprint(n, untrusted, count, factor, elected, l.code, len(l.body))
		c.NonTrivial(what)
		fail := func(format string, a ...interface{}) {
			rt.Fatalf("%s: "+format+"\n%s", append(append([]interface{}{what}, a...), p.out.String())...)
		}
		asked := func() int {
			l.mu.Lock()
			defer l.mu.Unlock()
			return l.asked
		}
		intervals := func(n int) {
			from := asked()
			if s := until(20*time.Second, func() string {
				if asked() < from+n {
					return "too few"
				}
				return ""
			}); s != "" {
				fail("the leadership is not asked for")
			}
		}
		changes := func() (l []int) {
			for _, f := range fs {
				f.mu.Lock()
				l = append(l, f.changes)
				f.mu.Unlock()
			}
			return l
		}
		if elected {
			// a scheduler that does not lead does nothing
			intervals(5)
			for i, k := range changes() {
				if k != 0 {
					fail("node %d is changed %d times by one that does not lead", i, k)
				}
			}
			if oneIn(rt, 2, "the endpoint hangs") {
				l.mu.Lock()
				l.hang = true
				l.mu.Unlock()
				intervals(1)
				time.Sleep(200 * time.Millisecond)
			}
			l.mu.Lock()
			l.code, l.hang = 200, false
			l.mu.Unlock()
		}
		live := n
		if untrusted >= 0 {
			live--
		}
		want := count * min(factor, live)
		ranges := func() string {
			got := map[[2]uint64]int{}
			sum := 0
			for i, f := range fs {
				f.mu.Lock()
				for r := range f.ranges {
					got[r]++
					sum++
				}
				told, calls := f.told, f.calls
				f.mu.Unlock()
				if i == untrusted {
					if calls > 0 {
						return fmt.Sprintf("node %d is called, though it has another name", i)
					}
					continue
				}
				if told == nil {
					return fmt.Sprintf("node %d is told nothing", i)
				}
			}
			if sum != want || live > 0 && len(got) != count {
				return fmt.Sprintf("%d ranges and %d assignments, want %d and %d", len(got), sum, count, want)
			}
			for r := range got {
				next := r[1] + 1
				if r[1] == math.MaxUint64 {
					continue
				}
				found := false
				for x := range got {
					found = found || x[0] == next
				}
				if !found {
					return fmt.Sprintf("nobody has %d", next)
				}
			}
			return ""
		}
		if s := until(20*time.Second, ranges); s != "" {
			p.skipIfTaken(rt)
			fail("%s", s)
		}
		p.healthy(rt, env)
		if !elected {
			return
		}
		intervals(10)
		later := rapid.SampledFrom([]int{423, 404, 500, 302}).Draw(rt, "code of others, later")
		l.mu.Lock()
		open := len(l.conns)
		l.code = later
		l.mu.Unlock()
		if open > 3 {
			fail("%d connections to the leadership endpoint are open", open)
		}
		intervals(3)
		was := fmt.Sprint(changes())
		intervals(5)
		if is := fmt.Sprint(changes()); is != was {
			fail("one that leads no more goes on: changes %s, were %s", is, was)
		}
	})
}
