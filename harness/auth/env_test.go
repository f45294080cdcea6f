package auth_test

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/internal/promql"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
)

var quiet = log.New(io.Discard, "", 0)

// user is what the authority says of a token.
type user struct {
	admin bool
	bad   bool
	owns  map[string]bool
}

// world is what stands behind the proxy: users, app names, and a cache that
// records which sources are read.
type world struct {
	mu      sync.Mutex
	users   map[string]user
	related map[string][]string
	unnamed bool
	meta    map[string]*logcache_v1.MetaInfo
	metaErr error
	// what was seen
	reads   []*logcache_v1.ReadRequest
	direct  []string
	queries int
	infos   int
}

var w world

func (w *world) set(f func()) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.users, w.related, w.unnamed, w.meta, w.metaErr = nil, nil, false, nil, nil
	w.reads, w.direct, w.queries, w.infos = nil, nil, 0, 0
	f()
}

// seen gives the sources that were read.
func (w *world) seen() (map[string]bool, int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	m := map[string]bool{}
	for _, r := range w.reads {
		m[r.SourceId] = true
	}
	return m, len(w.reads) + w.queries
}

// oracle of tokens, sources and names, as the middleware asks it.
type authority struct{}

var errToken = errors.New("the token is no good")

func (authority) Read(token string) (auth.Oauth2ClientContext, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	u, ok := w.users[token]
	if !ok || u.bad {
		return auth.Oauth2ClientContext{}, errToken
	}
	return auth.Oauth2ClientContext{IsAdmin: u.admin, Token: token, ExpiresAt: time.Now().Add(time.Hour)}, nil
}

func (authority) IsAuthorized(sourceID, token string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.users[token].owns[sourceID]
}

func (authority) AvailableSourceIDs(token string) []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return vh.Keys(w.users[token].owns)
}

func (authority) GetRelatedSourceIds(names []string, token string) map[string][]string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.unnamed {
		return nil
	}
	m := map[string][]string{}
	for _, n := range names {
		if l, ok := w.related[n]; ok {
			m[n] = append([]string{}, l...)
		}
	}
	return m
}

func (authority) Meta(context.Context) (map[string]*logcache_v1.MetaInfo, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.meta, w.metaErr
}

// cache is the recording cache, whose queries run the real engine.
type cache struct{ q *promql.PromQL }

func (c *cache) Read(ctx context.Context, r *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.reads = append(w.reads, r)
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{}}, nil
}

// direct are reads that come from outside, not from a query.
type direct struct{ *cache }

func (d direct) Read(ctx context.Context, r *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	w.mu.Lock()
	w.direct = append(w.direct, r.SourceId)
	w.mu.Unlock()
	return d.cache.Read(ctx, r)
}

func (d direct) Meta(context.Context, *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.queries++
	return &logcache_v1.MetaResponse{Meta: map[string]*logcache_v1.MetaInfo{"from-the-cache": {Count: 1}}}, nil
}

func (c *cache) InstantQuery(ctx context.Context, r *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	w.mu.Lock()
	w.queries++
	w.mu.Unlock()
	return c.q.InstantQuery(ctx, r)
}

func (c *cache) RangeQuery(ctx context.Context, r *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	w.mu.Lock()
	w.queries++
	w.mu.Unlock()
	return c.q.RangeQuery(ctx, r)
}

type cell struct{}

func (cell) Add(float64) {}
func (cell) Set(float64) {}

type noMetrics struct{}

func (noMetrics) NewCounter(string, ...metrics.MetricOption) metrics.Counter { return cell{} }
func (noMetrics) NewGauge(string, ...metrics.MetricOption) metrics.Gauge     { return cell{} }

var (
	dir        string
	ca         *vh.CA
	certFile   string
	keyFile    string
	gwAddr     string
	proxyAddr  string
	httpClient *http.Client
)

func serves(addr string) {
	for i := 0; ; i++ {
		resp, err := httpClient.Get(addr + "/api/v1/info")
		if err == nil {
			resp.Body.Close()
			return
		}
		if i > 400 {
			vh.Harness("%s does not serve: %s", addr, err)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Unsetenv("HTTPS_PROXY")
	os.Unsetenv("https_proxy")
	var err error
	dir, err = os.MkdirTemp("", "verif-auth")
	vh.Must(err)
	ca = vh.NewCA("ca")
	certFile, keyFile = ca.Issue([]string{"gateway", "localhost"}).Write(dir, "gw")
	vh.Must(os.WriteFile(filepath.Join(dir, "ca.crt"), ca.PEM, 0o600))
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := grpc.NewServer()
	c := &cache{}
	c.q = promql.New(c, noMetrics{}, quiet, 20*time.Second)
	logcache_v1.RegisterEgressServer(s, direct{c})
	logcache_v1.RegisterPromQLQuerierServer(s, c)
	go s.Serve(lis)
	httpClient = &http.Client{
		Timeout:       60 * time.Second,
		Transport:     &http.Transport{TLSClientConfig: &tls.Config{RootCAs: ca.Pool()}, MaxIdleConnsPerHost: 16},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
	g := gateway.NewGateway(lis.Addr().String(), "127.0.0.1:0", certFile, keyFile, gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure()),
		gateway.WithGatewayVersion("1.2.3"), gateway.WithGatewayVMUptimeFn(func() int64 {
			w.mu.Lock()
			defer w.mu.Unlock()
			w.infos++
			return 1
		}))
	g.Start()
	gwAddr = "https://" + g.Addr()
	serves(gwAddr)
	provider := auth.NewCFAuthMiddlewareProvider(authority{}, authority{}, authority{}, promql.ExtractSourceIds, authority{})
	p := cfauthproxy.NewCFAuthProxy(gwAddr, "127.0.0.1:0", certFile, keyFile, ca.Pool(), cfauthproxy.WithAuthMiddleware(provider.Middleware))
	p.Start()
	proxyAddr = "https://" + p.Addr()
	serves(proxyAddr)
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

// oneIn is true once in n draws.
func oneIn(rt *rapid.T, n int, what string) bool {
	return rapid.IntRange(1, n).Draw(rt, what) == n
}
