package traffic_test

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/grpclog"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

// A backend answers each request with what the request says: with itself, or
// with an error, at once or later, or not before the request is given up.
// What it shall do is the first letter of the source or of the query's metric:
// n answers, e fails, s is slow, b blocks.
type backend struct {
	mu      sync.Mutex
	addr    string
	server  *grpc.Server
	conns   int64
	blocked map[string]bool
	gaveUp  map[string]bool
	asked   map[string]int
	metaErr codes.Code
	metas   int
}

type countedConn struct {
	net.Conn
	n    *int64
	once sync.Once
}

func (c *countedConn) Close() error {
	c.once.Do(func() { atomic.AddInt64(c.n, -1) })
	return c.Conn.Close()
}

type countedListener struct {
	net.Listener
	n *int64
}

func (l countedListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	atomic.AddInt64(l.n, 1)
	return &countedConn{Conn: c, n: l.n}, nil
}

func (b *backend) start() {
	a := b.addr
	if a == "" {
		a = "127.0.0.1:0"
	}
	var lis net.Listener
	var err error
	for try := 0; ; try++ {
		if lis, err = net.Listen("tcp", a); err == nil || try > 100 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	vh.Must(err)
	b.addr = lis.Addr().String()
	b.server = grpc.NewServer()
	logcache_v1.RegisterEgressServer(b.server, b)
	logcache_v1.RegisterPromQLQuerierServer(b.server, b)
	go b.server.Serve(countedListener{lis, &b.conns})
}

func (b *backend) reset() {
	b.mu.Lock()
	b.blocked, b.gaveUp, b.asked = map[string]bool{}, map[string]bool{}, map[string]int{}
	b.metaErr, b.metas = codes.OK, 0
	b.mu.Unlock()
}

func mix(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

var failures = []codes.Code{codes.NotFound, codes.Internal, codes.Unavailable, codes.InvalidArgument, codes.DeadlineExceeded, codes.ResourceExhausted, codes.PermissionDenied}

func failure(key string) codes.Code { return failures[mix(key)%uint64(len(failures))] }

func (b *backend) act(ctx context.Context, key, text string) error {
	b.mu.Lock()
	b.asked[key]++
	b.mu.Unlock()
	switch key[0] {
	case 'e':
		time.Sleep(time.Duration(mix(text)%4) * time.Millisecond)
		return status.Error(failure(key), text)
	case 's':
		time.Sleep(time.Duration(mix(text)%60) * time.Millisecond)
	case 'l':
		var ms int
		fmt.Sscanf(key, "l%d", &ms)
		select {
		case <-time.After(time.Duration(ms) * time.Millisecond):
		case <-ctx.Done():
			return status.Error(codes.Canceled, "given up")
		}
	case 'b':
		b.mu.Lock()
		b.blocked[key] = true
		b.mu.Unlock()
		<-ctx.Done()
		b.mu.Lock()
		b.gaveUp[key] = true
		b.mu.Unlock()
		return status.Error(codes.Canceled, "given up")
	}
	return nil
}

func (b *backend) Read(ctx context.Context, r *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	t := vh.Str(r)
	if err := b.act(ctx, r.SourceId+" ", t); err != nil {
		return nil, err
	}
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{vh.Log(r.SourceId, r.StartTime, t)}}}, nil
}

func (b *backend) Meta(ctx context.Context, r *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	b.mu.Lock()
	b.metas++
	code := b.metaErr
	b.mu.Unlock()
	if r.LocalOnly {
		return nil, b.act(ctx, "bmeta ", "")
	}
	if code != codes.OK {
		return nil, status.Error(code, "no meta")
	}
	return &logcache_v1.MetaResponse{Meta: map[string]*logcache_v1.MetaInfo{"meta": {Count: 1}}}, nil
}

func (b *backend) InstantQuery(ctx context.Context, r *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	t := vh.Str(r)
	if err := b.act(ctx, r.Query+" ", t); err != nil {
		return nil, err
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{
		Samples: []*logcache_v1.PromQL_Sample{{Metric: map[string]string{"t": t}, Point: &logcache_v1.PromQL_Point{Time: "1", Value: 2}}},
	}}}, nil
}

func (b *backend) RangeQuery(ctx context.Context, r *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	t := vh.Str(r)
	if err := b.act(ctx, r.Query+" ", t); err != nil {
		return nil, err
	}
	return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{
		Series: []*logcache_v1.PromQL_Series{{Metric: map[string]string{"t": t}, Points: []*logcache_v1.PromQL_Point{{Time: "1", Value: 2}}}},
	}}}, nil
}

var (
	theBackend = &backend{}
	gwAddr     string
	h1, h2     *http.Client
	clients    map[string]*client.Client
	httpPlain  = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4}}
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard))
	dir, err := os.MkdirTemp("", "verif-traffic")
	vh.Must(err)
	ca := vh.NewCA("ca")
	cert, key := ca.Issue([]string{"gateway"}).Write(dir, "gw")
	theBackend.reset()
	theBackend.start()
	g := gateway.NewGateway(theBackend.addr, "127.0.0.1:0", cert, key,
		gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure()),
		gateway.WithGatewayVersion("2.7.0"), gateway.WithGatewayVMUptimeFn(func() int64 { return 789 }))
	g.Start()
	gwAddr = "https://" + g.Addr()
	h1 = &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: ca.Pool()}, MaxIdleConnsPerHost: 8}}
	h2 = &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: ca.Pool()}, ForceAttemptHTTP2: true}}
	for i := 0; ; i++ {
		resp, err := h1.Get(gwAddr + "/api/v1/info")
		if err == nil {
			resp.Body.Close()
			break
		}
		if i > 400 {
			vh.Harness("gateway does not serve: %s", err)
		}
		time.Sleep(10 * time.Millisecond)
	}
	clients = map[string]*client.Client{
		"http":  client.NewClient(gwAddr, client.WithHTTPClient(h1)),
		"http2": client.NewClient(gwAddr, client.WithHTTPClient(h2)),
		"grpc":  client.NewClient(theBackend.addr, client.WithViaGRPC(grpc.WithInsecure())),
	}
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

// request is what somebody asks for, and in which way.
type request struct {
	way  string // http, http2, grpc, raw, raw2
	kind string // read, meta, query, range, queryraw, rangeraw, info
	key  string // source or query
	n    int64
	desc bool
	pat  string
	bare bool // with no more than what a request needs
}

func (r request) String() string {
	return fmt.Sprintf("%s %s %s %d %v", r.way, r.kind, r.key, r.n, r.bare)
}

var ways = []string{"http", "http2", "grpc", "raw", "raw2"}
var kinds = []string{"read", "read", "meta", "query", "range", "queryraw", "rangeraw", "info"}

func drawRequest(rt *rapid.T, id string, acts []string) request {
	r := request{
		way: rapid.SampledFrom(ways).Draw(rt, "way"), kind: rapid.SampledFrom(kinds).Draw(rt, "kind"),
		key: rapid.SampledFrom(acts).Draw(rt, "act") + id, n: rapid.Int64Range(0, 900).Draw(rt, "n"),
		desc: rapid.Bool().Draw(rt, "desc"), pat: rapid.SampledFrom([]string{"", "x", "a b"}).Draw(rt, "pattern"),
		bare: rapid.IntRange(0, 2).Draw(rt, "bare") == 2,
	}
	if strings.HasPrefix(r.way, "raw") && (r.kind == "queryraw" || r.kind == "rangeraw") {
		r.kind = strings.TrimSuffix(r.kind, "raw")
	}
	if r.way == "grpc" && (r.kind == "info" || strings.HasSuffix(r.kind, "raw")) {
		r.kind = "read"
	}
	return r
}

// asked is the request as the backend gets it.
func (r request) asked() proto.Message {
	if r.bare {
		switch r.kind {
		case "read":
			return &logcache_v1.ReadRequest{SourceId: r.key, StartTime: r.n}
		case "query", "queryraw":
			return &logcache_v1.PromQL_InstantQueryRequest{Query: r.key}
		}
		return &logcache_v1.PromQL_RangeQueryRequest{Query: r.key}
	}
	switch r.kind {
	case "read":
		return &logcache_v1.ReadRequest{SourceId: r.key, StartTime: r.n, EndTime: r.n + 5, Limit: r.n + 1, Descending: r.desc, NameFilter: r.pat}
	case "query", "queryraw":
		return &logcache_v1.PromQL_InstantQueryRequest{Query: r.key, Time: fmt.Sprintf("%d.000", r.n)}
	}
	return &logcache_v1.PromQL_RangeQueryRequest{Query: r.key, Start: fmt.Sprintf("%d.000", r.n), End: fmt.Sprintf("%d.000", r.n+5), Step: fmt.Sprintf("%ds", r.n+1)}
}

// do makes the request, and returns the text that the backend answered with.
func (r request) do(ctx context.Context) (string, error) {
	if strings.HasPrefix(r.way, "raw") {
		h := h1
		if r.way == "raw2" {
			h = h2
		}
		return r.get(ctx, h, gwAddr)
	}
	c := clients[r.way]
	opts := []client.PromQLOption{client.WithPromQLTime(time.Unix(r.n, 0))}
	ropts := []client.PromQLOption{client.WithPromQLStart(time.Unix(r.n, 0)), client.WithPromQLEnd(time.Unix(r.n+5, 0)), client.WithPromQLStep(fmt.Sprintf("%ds", r.n+1))}
	if r.bare {
		opts, ropts = nil, nil
	}
	switch r.kind {
	case "info":
		v, err := c.LogCacheVersion(ctx)
		if err != nil {
			return "", err
		}
		u, err := c.LogCacheVMUptime(ctx)
		return fmt.Sprintf("%s %d", v, u), err
	case "meta":
		m, err := c.Meta(ctx)
		return fmt.Sprintf("meta %d", m["meta"].GetCount()), err
	case "read":
		o := []client.ReadOption{client.WithEndTime(time.Unix(0, r.n+5)), client.WithLimit(int(r.n + 1)), client.WithNameFilter(r.pat)}
		if r.desc {
			o = append(o, client.WithDescending())
		}
		if r.bare {
			o = nil
		}
		es, err := c.Read(ctx, r.key, time.Unix(0, r.n), o...)
		if err != nil {
			return "", err
		}
		if len(es) != 1 || es[0].SourceId != r.key || es[0].Timestamp != r.n {
			return vh.Brief(es), nil
		}
		return vh.Payload(es[0]), nil
	case "query":
		v, err := c.PromQL(ctx, r.key, opts...)
		if err != nil {
			return "", err
		}
		if s := v.GetVector().GetSamples(); len(s) == 1 {
			return s[0].Metric["t"], nil
		}
		return vh.Str(v), nil
	case "range":
		v, err := c.PromQLRange(ctx, r.key, ropts...)
		if err != nil {
			return "", err
		}
		if s := v.GetMatrix().GetSeries(); len(s) == 1 {
			return s[0].Metric["t"], nil
		}
		return vh.Str(v), nil
	}
	var q *client.PromQLQueryResult
	var err error
	if r.kind == "queryraw" {
		q, err = c.PromQLRaw(ctx, r.key, opts...)
	} else {
		q, err = c.PromQLRangeRaw(ctx, r.key, ropts...)
	}
	if err != nil {
		return "", err
	}
	if q.Status == "error" {
		return "", fmt.Errorf("%s %s", q.ErrorType, q.Error)
	}
	return inResult(q.Data.Result)
}

func inResult(b []byte) (string, error) {
	var d []struct {
		Metric map[string]string `json:"metric"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return "", fmt.Errorf("result %q: %s", b, err)
	}
	if len(d) != 1 {
		return string(b), nil
	}
	return d[0].Metric["t"], nil
}

// get makes the request by URL.
func (r request) get(ctx context.Context, h *http.Client, base string) (string, error) {
	q := url.Values{}
	p := "/api/v1/" + r.kind
	switch r.kind {
	case "read":
		p += "/" + r.key
		q.Set("start_time", fmt.Sprint(r.n))
		if r.bare {
			break
		}
		q.Set("end_time", fmt.Sprint(r.n+5))
		q.Set("limit", fmt.Sprint(r.n+1))
		q.Set("descending", fmt.Sprint(r.desc))
		q.Set("name_filter", r.pat)
	case "meta":
		if r.key == "bmeta" {
			q.Set("local_only", "true")
		}
	case "query":
		q.Set("query", r.key)
		if r.bare {
			break
		}
		q.Set("time", fmt.Sprintf("%d.000", r.n))
	case "range":
		p = "/api/v1/query_range"
		q.Set("query", r.key)
		if r.bare {
			break
		}
		q.Set("start", fmt.Sprintf("%d.000", r.n))
		q.Set("end", fmt.Sprintf("%d.000", r.n+5))
		q.Set("step", fmt.Sprintf("%ds", r.n+1))
	}
	req, err := http.NewRequest("GET", base+p+"?"+q.Encode(), nil)
	vh.Must(err)
	resp, err := h.Do(req.WithContext(ctx))
	if err != nil {
		return "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return "", err
	}
	var d struct {
		Error     string
		Meta      map[string]struct{ Count json.Number }
		Version   string
		VMUptime  json.Number `json:"vm_uptime"`
		Envelopes struct {
			Batch []struct{ Log struct{ Payload []byte } }
		}
		Data struct{ Result json.RawMessage }
		// the form without the gateway's marshaler
		Vector struct {
			Samples []struct{ Metric map[string]string }
		}
		Matrix struct {
			Series []struct{ Metric map[string]string }
		}
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return "", fmt.Errorf("status %d, body %q: %s", resp.StatusCode, b, err)
	}
	switch {
	case resp.StatusCode != 200:
		return "", fmt.Errorf("status %d: %s", resp.StatusCode, d.Error)
	case r.kind == "info":
		return d.Version + " " + d.VMUptime.String(), nil
	case r.kind == "meta":
		return "meta " + d.Meta["meta"].Count.String(), nil
	case r.kind == "read":
		if len(d.Envelopes.Batch) != 1 {
			return string(b), nil
		}
		return string(d.Envelopes.Batch[0].Log.Payload), nil
	case len(d.Vector.Samples) == 1:
		return d.Vector.Samples[0].Metric["t"], nil
	case len(d.Matrix.Series) == 1:
		return d.Matrix.Series[0].Metric["t"], nil
	}
	return inResult(d.Data.Result)
}

func statusOf(c codes.Code) int { return runtime.HTTPStatusFromCode(c) }

// check says what is wrong with the answer to a request.
func (r request) check(got string, err error) string {
	switch r.kind {
	case "info":
		if got != "2.7.0 789" || err != nil {
			return fmt.Sprintf("%s gives %q, %v", r, got, err)
		}
		return ""
	case "meta":
		theBackend.mu.Lock()
		code := theBackend.metaErr
		theBackend.mu.Unlock()
		if code != codes.OK {
			in := fmt.Sprint(statusOf(code))
			if r.way == "grpc" {
				in = code.String()
			}
			if err == nil || !strings.Contains(err.Error(), in) {
				return fmt.Sprintf("%s gives %q, %v, want %s", r, got, err, code)
			}
			return ""
		}
		if got != "meta 1" || err != nil {
			return fmt.Sprintf("%s gives %q, %v", r, got, err)
		}
		return ""
	}
	want := vh.Str(r.asked())
	if r.key[0] != 'e' {
		if got != want || err != nil {
			return fmt.Sprintf("%s gives %q, %v, want %q", r, got, err, want)
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("%s gives %q, want an error", r, got)
	}
	code := failure(r.key + " ")
	var in string
	switch {
	case r.way == "grpc":
		if s, _ := status.FromError(err); s.Code() != code || s.Message() != want {
			return fmt.Sprintf("%s fails with %v, want %s of %s", r, err, code, want)
		}
		return ""
	case strings.HasPrefix(r.way, "raw"):
		in = fmt.Sprintf("status %d: %s", statusOf(code), want)
	case strings.HasSuffix(r.kind, "raw") && (statusOf(code) == 400 || statusOf(code) == 500):
		in = want
	default:
		in = fmt.Sprintf("%d", statusOf(code))
	}
	if !strings.Contains(err.Error(), in) {
		return fmt.Sprintf("%s fails with %v, want %s", r, err, in)
	}
	return ""
}

func until(d time.Duration, f func() string) string {
	var s string
	for t := time.Now(); ; time.Sleep(20 * time.Millisecond) {
		if s = f(); s == "" || time.Since(t) > d {
			return s
		}
	}
}

var caseNo int64

// all makes requests, each of the lists one after the other and the lists at
// once, and says what is wrong with an answer.
func all(lists [][]request, mayFail bool) string {
	var wg sync.WaitGroup
	bad := make([]string, len(lists))
	for i := range lists {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for _, r := range lists[i] {
				ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
				got, err := r.do(ctx)
				late := ctx.Err()
				cancel()
				if late != nil {
					bad[i] = fmt.Sprintf("%s does not end", r)
					return
				}
				if mayFail && err != nil {
					continue
				}
				if bad[i] = r.check(got, err); bad[i] != "" {
					return
				}
			}
		}(i)
	}
	wg.Wait()
	sort.Slice(bad, func(i, j int) bool { return bad[i] > bad[j] })
	return bad[0]
}

func drawLists(rt *rapid.T, acts []string) (lists [][]request, n int) {
	no := atomic.AddInt64(&caseNo, 1)
	for g := rapid.IntRange(1, 24).Draw(rt, "callers"); g > 0; g-- {
		var l []request
		for k := rapid.IntRange(1, 8).Draw(rt, "requests"); k > 0; k-- {
			l = append(l, drawRequest(rt, fmt.Sprintf("%dx%dx%d", no, g, k), acts))
			n++
		}
		lists = append(lists, l)
	}
	return lists, n
}

// Many callers at once, some of whom give up.
func TestC48_Concurrent(t *testing.T) {
	vh.Check(t, vh.N(150, 3000), "several callers at once, among them some whose requests the cache does not answer", func(rt *rapid.T, c *vh.Case) {
		theBackend.reset()
		if rapid.IntRange(0, 3).Draw(rt, "no meta") == 3 {
			theBackend.metaErr = rapid.SampledFrom(failures).Draw(rt, "why")
		}
		lists, n := drawLists(rt, []string{"n", "n", "s", "s", "e"})
		metas := 0
		for _, l := range lists {
			for _, r := range l {
				if r.kind == "meta" {
					metas++
				}
			}
		}
		no := atomic.AddInt64(&caseNo, 1)
		// those that hang
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var hang []request
		hung := rapid.SampledFrom([]int{0, 1, 3, 10, 40}).Draw(rt, "hanging")
		for i := 0; i < hung; i++ {
			r := drawRequest(rt, fmt.Sprintf("%dh%d", no, i), []string{"b"})
			if r.kind == "meta" || r.kind == "info" {
				r.kind = "read"
			}
			if i == 2 {
				r.way, r.kind, r.key = rapid.SampledFrom([]string{"raw", "raw2"}).Draw(rt, "way"), "meta", "bmeta"
				metas++
			}
			hang = append(hang, r)
		}
		type ended struct {
			r   request
			got string
			err error
		}
		ends := make(chan ended, len(hang))
		for _, r := range hang {
			go func(r request) {
				got, err := r.do(ctx)
				ends <- ended{r, got, err}
			}(r)
		}
		there := func(m *map[string]bool) string {
			theBackend.mu.Lock()
			defer theBackend.mu.Unlock()
			for _, r := range hang {
				if !(*m)[r.key+" "] {
					return r.String()
				}
			}
			return ""
		}
		if d := until(30*time.Second, func() string { return there(&theBackend.blocked) }); d != "" {
			rt.Fatalf("%d requests that the cache does not answer: %s does not reach it", len(hang), d)
		}
		if bad := all(lists, false); bad != "" {
			rt.Fatalf("%d callers, and %d that wait: %s", len(lists), len(hang), bad)
		}
		select {
		case e := <-ends:
			rt.Fatalf("%s, that the cache does not answer, ends with %q, %v", e.r, e.got, e.err)
		default:
		}
		theBackend.mu.Lock()
		for k := range theBackend.gaveUp {
			theBackend.mu.Unlock()
			rt.Fatalf("%q was given up, but not by who asked", k)
		}
		for k, n := range theBackend.asked {
			if n != 1 {
				theBackend.mu.Unlock()
				rt.Fatalf("the cache is asked for %q %d times", k, n)
			}
		}
		m := theBackend.metas
		theBackend.mu.Unlock()
		if m != metas {
			rt.Fatalf("the cache is asked for the meta %d times, want %d", m, metas)
		}
		cancel()
		for range hang {
			select {
			case e := <-ends:
				if e.err == nil {
					rt.Fatalf("%s gives %q after it was given up", e.r, e.got)
				}
			case <-time.After(20 * time.Second):
				rt.Fatalf("a request that was given up does not end")
			}
		}
		if d := until(20*time.Second, func() string { return there(&theBackend.gaveUp) }); d != "" {
			rt.Fatalf("%s was given up, but the cache goes on with it", d)
		}
		c.ClassIf(len(hang) > 0, "with some that hang")
		c.If(len(lists) > 1 && len(hang) > 0, fmt.Sprint(n, hang, lists))
	})
}

// Answers that take many seconds.
func TestC48_Slow(t *testing.T) {
	vh.Check(t, vh.N(1, 4), "answers that take more than ten seconds", func(rt *rapid.T, c *vh.Case) {
		theBackend.reset()
		most := 14000
		if vh.Thorough() {
			most = 70000
		}
		no := atomic.AddInt64(&caseNo, 1)
		var wg sync.WaitGroup
		var bad []string
		var reqs []request
		for i := 0; i < 40; i++ {
			ms := most - rapid.IntRange(0, most).Draw(rt, "ms")
			if i == 0 {
				ms = most
			}
			r := drawRequest(rt, "", []string{fmt.Sprintf("l%dx%dx%d", ms, no, i)})
			if r.kind == "meta" || r.kind == "info" {
				r.kind = "read"
			}
			reqs = append(reqs, r)
		}
		bad = make([]string, len(reqs))
		for i, r := range reqs {
			wg.Add(1)
			go func(i int, r request) {
				defer wg.Done()
				x, cancel := context.WithTimeout(context.Background(), time.Duration(most)*time.Millisecond+40*time.Second)
				defer cancel()
				got, err := r.do(x)
				bad[i] = r.check(got, err)
			}(i, r)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				rt.Fatal(b)
			}
		}
		c.NonTrivial(fmt.Sprint(reqs))
	})
}

// The cache goes and comes.
func TestC48_Restart(t *testing.T) {
	vh.Check(t, vh.N(8, 150), "requests while the cache is gone, and after", func(rt *rapid.T, c *vh.Case) {
		theBackend.reset()
		n := 0
		for round := rapid.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
			// some requests are on their way as it ends
			lists, k := drawLists(rt, []string{"n", "s", "s"})
			n += k
			done := make(chan string, 1)
			go func() { done <- all(lists, true) }()
			time.Sleep(time.Duration(rapid.IntRange(0, 20).Draw(rt, "ms")) * time.Millisecond)
			if rapid.Bool().Draw(rt, "gracefully") {
				theBackend.server.GracefulStop()
			} else {
				theBackend.server.Stop()
			}
			if bad := <-done; bad != "" {
				theBackend.start()
				rt.Fatalf("as the cache ends: %s", bad)
			}
			// while it is gone each request is an error, and soon
			gone, k := drawLists(rt, []string{"n"})
			n += k
			var wg sync.WaitGroup
			bad := make([]string, len(gone))
			for i := range gone {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for _, r := range gone[i] {
						ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
						got, err := r.do(ctx)
						late := ctx.Err()
						cancel()
						switch {
						case late != nil:
							bad[i] = fmt.Sprintf("%s does not end", r)
						case r.kind == "info":
							if got != "2.7.0 789" || err != nil {
								bad[i] = fmt.Sprintf("%s gives %q, %v", r, got, err)
							}
						case err == nil:
							bad[i] = fmt.Sprintf("%s gives %q", r, got)
						case r.way == "grpc":
							if status.Code(err) != codes.Unavailable {
								bad[i] = fmt.Sprintf("%s fails with %v", r, err)
							}
						case !strings.Contains(err.Error(), "503"):
							bad[i] = fmt.Sprintf("%s fails with %v", r, err)
						}
						if bad[i] != "" {
							return
						}
					}
				}(i)
			}
			wg.Wait()
			theBackend.start()
			for _, b := range bad {
				if b != "" {
					rt.Fatalf("while the cache is gone: %s", b)
				}
			}
			// when it is back, all is as before
			for _, way := range ways {
				r := request{way: way, kind: "meta", key: "n"}
				if d := until(40*time.Second, func() string {
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
					defer cancel()
					got, err := r.do(ctx)
					return r.check(got, err)
				}); d != "" {
					rt.Fatalf("after the cache is back: %s", d)
				}
			}
			lists, k = drawLists(rt, []string{"n", "n", "s", "e"})
			n += k
			if bad := all(lists, false); bad != "" {
				rt.Fatalf("after the cache is back: %s", bad)
			}
		}
		c.NonTrivial(fmt.Sprint(n))
	})
}

// A mux of one's own, with the handlers of a connection or of an endpoint.
func TestC48_Mux(t *testing.T) {
	vh.Check(t, vh.N(25, 500), "a mux whose handlers dial the endpoint themselves, or use a connection", func(rt *rapid.T, c *vh.Case) {
		be := &backend{}
		be.reset()
		be.start()
		defer be.server.Stop()
		mux := runtime.NewServeMux(runtime.WithMarshalerOption(runtime.MIMEWildcard, &runtime.JSONPb{OrigName: true, EmitDefaults: true}))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		endpoint := rapid.Bool().Draw(rt, "endpoint")
		egress, promql := true, true
		switch rapid.IntRange(0, 3).Draw(rt, "registered") {
		case 0:
			egress = false
		case 1:
			promql = false
		}
		dials := int64(0)
		if endpoint {
			opts := []grpc.DialOption{grpc.WithInsecure(), grpc.WithBlock()}
			if egress {
				dials++
				if err := logcache_v1.RegisterEgressHandlerFromEndpoint(ctx, mux, be.addr, opts); err != nil {
					rt.Fatal(err)
				}
			}
			if promql {
				dials++
				if err := logcache_v1.RegisterPromQLQuerierHandlerFromEndpoint(ctx, mux, be.addr, opts); err != nil {
					rt.Fatal(err)
				}
			}
			if d := until(20*time.Second, func() string {
				if n := atomic.LoadInt64(&be.conns); n != dials {
					return fmt.Sprintf("%d connections for %d registrations", n, dials)
				}
				return ""
			}); d != "" {
				rt.Fatal(d)
			}
			// no way to dial is an error, at once
			if err := logcache_v1.RegisterEgressHandlerFromEndpoint(ctx, runtime.NewServeMux(), be.addr, nil); err == nil {
				rt.Fatalf("an endpoint without credentials is accepted")
			}
			if err := logcache_v1.RegisterPromQLQuerierHandlerFromEndpoint(ctx, runtime.NewServeMux(), be.addr, nil); err == nil {
				rt.Fatalf("an endpoint without credentials is accepted")
			}
		} else {
			conn, err := grpc.Dial(be.addr, grpc.WithInsecure(), grpc.WithBlock())
			vh.Must(err)
			defer conn.Close()
			if egress {
				vh.Must(logcache_v1.RegisterEgressHandler(ctx, mux, conn))
			}
			if promql {
				vh.Must(logcache_v1.RegisterPromQLQuerierHandler(ctx, mux, conn))
			}
		}
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		vh.Must(err)
		srv := &http.Server{Handler: mux}
		go srv.Serve(lis)
		defer srv.Close()
		base := "http://" + lis.Addr().String()
		no := atomic.AddInt64(&caseNo, 1)
		var reqs []request
		for k := rapid.IntRange(1, 12).Draw(rt, "requests"); k > 0; k-- {
			r := drawRequest(rt, fmt.Sprintf("%dm%d", no, k), []string{"n", "s"})
			r.way, r.kind = "raw", rapid.SampledFrom([]string{"read", "meta", "query", "range"}).Draw(rt, "asked")
			reqs = append(reqs, r)
		}
		var wg sync.WaitGroup
		bad := make([]string, len(reqs))
		for i, r := range reqs {
			wg.Add(1)
			go func(i int, r request) {
				defer wg.Done()
				x, cancel := context.WithTimeout(context.Background(), 30*time.Second)
				defer cancel()
				got, err := r.get(x, httpPlain, base)
				if r.kind == "read" || r.kind == "meta" {
					if !egress {
						if err == nil {
							bad[i] = fmt.Sprintf("%s gives %q, but was not registered", r, got)
						}
						return
					}
				} else if !promql {
					if err == nil {
						bad[i] = fmt.Sprintf("%s gives %q, but was not registered", r, got)
					}
					return
				}
				bad[i] = r.check(got, err)
			}(i, r)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				rt.Fatalf("endpoint %v: %s", endpoint, b)
			}
		}
		httpPlain.CloseIdleConnections()
		if endpoint {
			cancel()
			if d := until(20*time.Second, func() string {
				if n := atomic.LoadInt64(&be.conns); n != 0 {
					return fmt.Sprint(n)
				}
				return ""
			}); d != "" {
				rt.Fatalf("%s connections are left of %d when the context has ended", d, dials)
			}
		}
		c.ClassIf(endpoint, "endpoint")
		c.NonTrivial(fmt.Sprint(endpoint, egress, promql, reqs))
	})
}
