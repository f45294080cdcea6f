package cmds_test

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"pgregory.net/rapid"
)

const version = "2.9.1-verif.3"

var (
	dir            string
	gatewayBin     string
	blackboxBin    string
	caGRPC, caHTTP *vh.CA
)

func build(name string) string {
	out := filepath.Join(dir, name)
	cmd := exec.Command("go", "build", "-ldflags", "-X main.buildVersion="+version, "-o", out, "code.cloudfoundry.org/log-cache/cmd/"+name)
	if d := os.Getenv("VERIF_DIR"); d != "" {
		cmd.Dir = filepath.Join(d, "harness")
	}
	if b, err := cmd.CombinedOutput(); err != nil {
		vh.Harness("building %s: %s\n%s", name, err, b)
	}
	return out
}

func TestMain(m *testing.M) {
	var err error
	dir, err = os.MkdirTemp("", "verif-cmds")
	vh.Must(err)
	gatewayBin, blackboxBin = build("gateway"), build("blackbox")
	caGRPC, caHTTP = vh.NewCA("grpc"), vh.NewCA("http")
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

// cache is a fake cache node.
type cache struct {
	mu     sync.Mutex
	reads  []*logcache_v1.ReadRequest
	sends  []*logcache_v1.SendRequest
	asked  []*logcache_v1.PromQL_InstantQueryRequest
	at     []int // how many queries came before each
	atHTTP []int
	http   func() int
	answer func() (*logcache_v1.PromQL_InstantQueryResult, error)
	batch  []*loggregator_v2.Envelope
}

func (c *cache) Read(_ context.Context, r *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads = append(c.reads, r)
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: c.batch}}, nil
}

func (c *cache) Meta(context.Context, *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	return &logcache_v1.MetaResponse{}, nil
}

func (c *cache) Send(_ context.Context, r *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sends = append(c.sends, r)
	c.at = append(c.at, len(c.asked))
	if c.http != nil {
		c.atHTTP = append(c.atHTTP, c.http())
	}
	return &logcache_v1.SendResponse{}, nil
}

func (c *cache) InstantQuery(_ context.Context, r *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.asked = append(c.asked, r)
	return c.answer()
}

func (c *cache) RangeQuery(context.Context, *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	return &logcache_v1.PromQL_RangeQueryResult{}, nil
}

// serve serves the cache over mutual TLS under a name.
func (c *cache) serve(name string) (addr string, stop func()) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{
		Certificates: []tls.Certificate{caGRPC.Issue([]string{name}).TLS()},
		ClientAuth:   tls.RequireAndVerifyClientCert,
		ClientCAs:    caGRPC.Pool(),
	})))
	logcache_v1.RegisterEgressServer(s, c)
	logcache_v1.RegisterIngressServer(s, c)
	logcache_v1.RegisterPromQLQuerierServer(s, c)
	go s.Serve(lis)
	return lis.Addr().String(), s.Stop
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// output collects what a process writes.
type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}

func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

type process struct {
	cmd  *exec.Cmd
	out  output
	done chan struct{}
	err  error
}

func start(bin string, env map[string]string) *process {
	p := &process{cmd: exec.Command(bin), done: make(chan struct{})}
	p.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	for k, v := range env {
		p.cmd.Env = append(p.cmd.Env, k+"="+v)
	}
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	vh.Must(p.cmd.Start())
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func (p *process) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

// ended waits for the process to end.
func (p *process) ended(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func uptime() int64 {
	b, err := os.ReadFile("/proc/uptime")
	vh.Must(err)
	f, err := strconv.ParseFloat(strings.Fields(string(b))[0], 64)
	vh.Must(err)
	return int64(f)
}

// until waits for a condition that takes milliseconds to come.
func until(d time.Duration, f func() bool) bool {
	for t := time.Now(); time.Since(t) < d; time.Sleep(10 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// refuses checks that the program ends with an error for want of any of the
// required settings, and of a file that one of them names.
func refuses(rt *rapid.T, c *vh.Case, bin string, env map[string]string, required, files []string) {
	type broken struct{ what, key, value string }
	var bs []broken
	for _, k := range required {
		bs = append(bs, broken{"without " + k, k, ""})
	}
	k := rapid.SampledFrom(files).Draw(rt, "file")
	bs = append(bs, broken{"with missing file " + k, k, env[k] + ".missing"})
	k = rapid.SampledFrom(files).Draw(rt, "garbage")
	vh.Must(os.WriteFile(env[k]+".garbage", []byte("garbage"), 0o600))
	bs = append(bs, broken{"with garbage in " + k, k, env[k] + ".garbage"})
	c.NonTrivial(bs[len(bs)-2].what + ", " + bs[len(bs)-1].what)
	// One after another: they have their ports in common.
	for _, b := range bs {
		e := map[string]string{}
		for k, v := range env {
			e[k] = v
		}
		if e[b.key] = b.value; b.value == "" {
			delete(e, b.key)
		}
		p := start(bin, e)
		ended := p.ended(30 * time.Second)
		p.stop()
		if !ended || p.err == nil {
			if strings.Contains(p.out.String(), "address already in use") {
				rt.Skip("port taken")
			}
			rt.Fatalf("the program goes on or ends without an error %s:\n%s", b.what, p.out.String())
		}
	}
}

func TestC41_Gateway(t *testing.T) {
	vh.Check(t, vh.N(25, 250), "a real gateway process with random settings, one of them broken at times; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, err := os.MkdirTemp(dir, "case")
		vh.Must(err)
		defer os.RemoveAll(tmp)
		peer := rapid.SampledFrom([]string{"log-cache", "log-cache", "log-cache", "other"}).Draw(rt, "cache name")
		ce := &cache{batch: []*loggregator_v2.Envelope{vh.Log("some-id", 7, rapid.StringMatching("[a-z]{1,8}").Draw(rt, "payload"))}}
		cacheAddr, stop := ce.serve(peer)
		defer stop()
		proxy := caHTTP.Issue([]string{"gateway"})
		proxyCert, proxyKey := proxy.Write(tmp, "proxy")
		own, ownKey := caGRPC.Issue([]string{"log-cache"}).Write(tmp, "own")
		port, health := freePort(), freePort()
		env := map[string]string{
			"ADDR": fmt.Sprintf("127.0.0.1:%d", port), "LOG_CACHE_ADDR": cacheAddr, "HEALTH_PORT": strconv.Itoa(health),
			"PROXY_CERT_PATH": proxyCert, "PROXY_KEY_PATH": proxyKey,
			"CA_PATH": caGRPC.Write(tmp, "ca"), "CERT_PATH": own, "KEY_PATH": ownKey,
		}
		required := []string{"ADDR", "LOG_CACHE_ADDR", "PROXY_CERT_PATH", "PROXY_KEY_PATH", "CA_PATH", "CERT_PATH", "KEY_PATH"}
		files := []string{"PROXY_CERT_PATH", "PROXY_KEY_PATH", "CA_PATH", "CERT_PATH", "KEY_PATH"}
		if rapid.IntRange(0, 2).Draw(rt, "broken") == 0 {
			c.Class("broken")
			refuses(rt, c, gatewayBin, env, required, files)
			return
		}
		c.NonTrivial(fmt.Sprintf("cache %q, %s", peer, vh.Payload(ce.batch[0])))
		c.Class("cache is " + peer)
		p := start(gatewayBin, env)
		defer p.stop()
		tr := &http.Transport{TLSClientConfig: &tls.Config{RootCAs: caHTTP.Pool(), ServerName: "gateway"}}
		defer tr.CloseIdleConnections()
		hc := &http.Client{Transport: tr, Timeout: 20 * time.Second}
		addr := "https://" + env["ADDR"]
		var body []byte
		up0 := uptime()
		if !until(30*time.Second, func() bool {
			resp, err := hc.Get(addr + "/api/v1/info")
			if err != nil {
				return p.ended(0)
			}
			defer resp.Body.Close()
			body, _ = io.ReadAll(resp.Body)
			return true
		}) || body == nil {
			if strings.Contains(p.out.String(), "address already in use") {
				rt.Skip("port taken")
			}
			rt.Fatalf("the gateway does not serve %s:\n%s", addr, p.out.String())
		}
		var info struct {
			Version string `json:"version"`
			Uptime  string `json:"vm_uptime"`
		}
		if err := json.Unmarshal(body, &info); err != nil || info.Version != version {
			rt.Fatalf("info %q, want version %s", body, version)
		}
		if n, err := strconv.ParseInt(info.Uptime, 10, 64); err != nil || n < up0-5 || n > uptime()+5 {
			rt.Fatalf("info %q, want the machine's uptime %d", body, up0)
		}
		es, err := client.NewClient(addr, client.WithHTTPClient(hc)).Read(context.Background(), "some-id", time.Unix(0, 5))
		if peer != "log-cache" {
			if err == nil || len(ce.reads) > 0 {
				rt.Fatalf("the gateway trusts a cache named %q", peer)
			}
			return
		}
		if err != nil || len(es) != 1 || !proto.Equal(es[0], ce.batch[0]) {
			rt.Fatalf("read %v, %v, want %v\n%s", es, err, ce.batch, p.out.String())
		}
		resp, err := http.Get(fmt.Sprintf("http://localhost:%d/debug/pprof/cmdline", health))
		if err != nil || resp.StatusCode != 200 {
			rt.Fatalf("health endpoint: %v, %v", resp, err)
		}
		resp.Body.Close()
		// It tells a lot, and it is for those on the machine.
		if resp, err := http.Get(fmt.Sprintf("http://127.0.0.2:%d/debug/pprof/cmdline", health)); err == nil {
			resp.Body.Close()
			rt.Fatalf("the health endpoint answers at other addresses than localhost")
		}
	})
}

// ---------------------------------------------------------------- blackbox

type point = logcache_v1.PromQL_Point

func series(source string, n int) *logcache_v1.PromQL_InstantQueryResult {
	s := &logcache_v1.PromQL_Series{Metric: map[string]string{"source_id": source}}
	for i := 0; i < n; i++ {
		s.Points = append(s.Points, &point{Time: strconv.Itoa(100 + i), Value: 10})
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{
		Matrix: &logcache_v1.PromQL_Matrix{Series: []*logcache_v1.PromQL_Series{s}}}}
}

// web is the OAuth2 server and the HTTP API in one.
type web struct {
	mu      sync.Mutex
	id, sec string
	uaa     string
	points  []int // of each query in turn, negative: it fails
	up      string
	bad     []string
	queries int
	total   int
}

func (w *web) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.total++
	if (r.Host == w.uaa) != (r.URL.Path == "/oauth/token") {
		w.bad = append(w.bad, r.URL.Path+" asked of "+r.Host)
	}
	switch r.URL.Path {
	case "/oauth/token":
		if u, p, ok := r.BasicAuth(); !ok || u != w.id || p != w.sec {
			w.bad = append(w.bad, fmt.Sprintf("token asked for with %q %q", u, p))
			rw.WriteHeader(401)
			return
		}
		fmt.Fprint(rw, `{"token_type":"bearer","access_token":"abc"}`)
	case "/api/v1/info":
		w.auth(r)
		fmt.Fprintf(rw, `{"version":"2.0.0","vm_uptime":%q}`, w.up)
	case "/api/v1/query":
		w.auth(r)
		n := w.points[w.queries%len(w.points)]
		w.queries++
		if n < 0 {
			rw.WriteHeader(503)
			return
		}
		var vs []string
		for i := 0; i < n; i++ {
			vs = append(vs, fmt.Sprintf(`[%d.000,"10"]`, 100+i))
		}
		fmt.Fprintf(rw, `{"status":"success","data":{"resultType":"matrix","result":[{"metric":{},"values":[%s]}]}}`, strings.Join(vs, ","))
	default:
		w.bad = append(w.bad, "asked for "+r.URL.String())
		rw.WriteHeader(404)
	}
}

func (w *web) auth(r *http.Request) {
	if r.Header.Get("Authorization") != "bearer abc" {
		w.bad = append(w.bad, fmt.Sprintf("%s with authorization %q", r.URL.Path, r.Header.Get("Authorization")))
	}
}

func TestC41_Blackbox(t *testing.T) { blackboxCases(t, vh.N(12, 120), "it asks over HTTP") }

func TestC41_BlackboxGRPCOnly(t *testing.T) {
	blackboxCases(t, vh.N(4, 40), "it does not ask over HTTP")
}

func TestC41_BlackboxUntrusting(t *testing.T) {
	blackboxCases(t, vh.N(4, 40), "it cannot trust what it asks over HTTP")
}

func TestC41_BlackboxBroken(t *testing.T) {
	blackboxCases(t, vh.N(8, 80), "a setting is broken")
}

func blackboxCases(t *testing.T, n int, mode string) {
	vh.Check(t, n, "a real blackbox process with random settings, "+mode+"; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, err := os.MkdirTemp(dir, "case")
		vh.Must(err)
		defer os.RemoveAll(tmp)
		source := rapid.SampledFrom([]string{"blackbox", "my-blackbox", "x.y"}).Draw(rt, "source")
		emission := rapid.SampledFrom([]int{50, 100, 200}).Draw(rt, "emission ms")
		window := rapid.SampledFrom([]int{1, 2, 10, 600}).Draw(rt, "window s")
		expected := window * 1000 / emission
		// What the queries find one after another, and again; negative: they fail.
		points := rapid.SliceOfN(rapid.OneOf(rapid.Just(-1), rapid.IntRange(0, min(expected, 300)), rapid.IntRange(0, min(expected, 300))), 1, 3)
		grpcPoints := points.Draw(rt, "points over gRPC")
		httpPoints := points.Draw(rt, "points over HTTP")
		cf := mode != "it does not ask over HTTP" && (mode != "a setting is broken" || rapid.Bool().Draw(rt, "CF"))
		peer := rapid.SampledFrom([]string{"log-cache", "log-cache", "log-cache", "log-cache", "other"}).Draw(rt, "cache name")
		var ce *cache
		ce = &cache{answer: func() (*logcache_v1.PromQL_InstantQueryResult, error) {
			// Called with the query noted.
			n := grpcPoints[(len(ce.asked)-1)%len(grpcPoints)]
			if n < 0 {
				return nil, fmt.Errorf("not now")
			}
			return series(source, n), nil
		}}
		cacheAddr, stop := ce.serve(peer)
		defer stop()
		w := &web{id: "client-" + source, sec: "s3cret:&=" + source, points: httpPoints, up: strconv.Itoa(rapid.SampledFrom([]int{599, 600, 600, 1000, 1 << 20}).Draw(rt, "uptime"))}
		up, _ := strconv.Atoi(w.up)
		ce.http = func() int {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.queries
		}
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		vh.Must(err)
		skip := mode != "it cannot trust what it asks over HTTP" && rapid.Bool().Draw(rt, "skip TLS verification")
		trusted := mode == "it asks over HTTP" && !skip
		asks := cf && (skip || trusted)
		hs := &http.Server{Handler: w, TLSConfig: &tls.Config{Certificates: []tls.Certificate{caHTTP.Issue([]string{"uaa"}).TLS()}}, ErrorLog: discard}
		go hs.ServeTLS(lis, "", "")
		uaa, err := net.Listen("tcp", "127.0.0.1:0")
		vh.Must(err)
		go hs.ServeTLS(uaa, "", "")
		w.uaa = uaa.Addr().String()
		defer hs.Close()
		own, ownKey := caGRPC.Issue([]string{"log-cache"}).Write(tmp, "own")
		env := map[string]string{
			"EMISSION_INTERVAL": fmt.Sprintf("%dms", emission), "SAMPLE_INTERVAL": "300ms",
			"WINDOW_INTERVAL": fmt.Sprintf("%ds", window), "WINDOW_LAG": rapid.SampledFrom([]string{"1ms", "5s", "1h"}).Draw(rt, "lag"),
			"SOURCE_ID": source, "DATA_SOURCE_GRPC_ADDR": cacheAddr,
			"CA_PATH": caGRPC.Write(tmp, "ca"), "CERT_PATH": own, "KEY_PATH": ownKey,
			"DATA_SOURCE_HTTP_ADDR": "https://" + lis.Addr().String(), "UAA_ADDR": "https://" + w.uaa,
			"CLIENT_ID": w.id, "CLIENT_SECRET": w.sec, "SKIP_TLS_VERIFY": strconv.FormatBool(skip), "CF_BLACKBOX_ENABLED": strconv.FormatBool(cf),
		}
		if trusted {
			env["SSL_CERT_FILE"] = caHTTP.Write(tmp, "system")
		}
		lag, _ := time.ParseDuration(env["WINDOW_LAG"])
		required := []string{"EMISSION_INTERVAL", "SAMPLE_INTERVAL", "WINDOW_INTERVAL", "WINDOW_LAG", "SOURCE_ID", "CA_PATH", "CERT_PATH", "KEY_PATH"}
		if mode == "a setting is broken" {
			refuses(rt, c, blackboxBin, env, required, []string{"CA_PATH", "CERT_PATH", "KEY_PATH"})
			return
		}
		what := fmt.Sprintf("emission %dms window %ds gRPC %d CF %v HTTP %d uptime %s skip %v trusted %v cache %s", emission, window, grpcPoints, cf, httpPoints, w.up, skip, trusted, peer)
		c.NonTrivial(what)
		t0 := time.Now()
		p := start(blackboxBin, env)
		defer p.stop()
		if peer != "log-cache" {
			c.Class("not the cache")
			if p.ended(900 * time.Millisecond) {
				rt.Fatalf("%s: the blackbox ended:\n%s", what, p.out.String())
			}
			if ce.mu.Lock(); len(ce.sends) > 0 || len(ce.asked) > 0 {
				rt.Fatalf("%s: the blackbox trusts it", what)
			}
			ce.mu.Unlock()
			return
		}
		// measured is what is known after so many queries.
		measured := func(grpc, http int) map[string]float64 {
			want := map[string]float64{}
			if n := grpcPoints[(grpc-1)%len(grpcPoints)]; n >= 0 {
				want["blackbox.grpc_reliability"] = float64(n) / float64(expected)
			}
			if http > 0 && httpPoints[(http-1)%len(httpPoints)] >= 0 {
				want["blackbox.http_reliability"] = float64(httpPoints[(http-1)%len(httpPoints)]) / float64(expected)
			}
			return want
		}
		results := !asks || up >= 600
		some := 0 // of three rounds
		for i := 1; i <= 3; i++ {
			h := 0
			if asks {
				h = i
			}
			if results && len(measured(i, h)) > 0 {
				some++
			}
		}
		count := func() (tests, measured int) {
			ce.mu.Lock()
			defer ce.mu.Unlock()
			for _, s := range ce.sends {
				if s.GetEnvelopes().GetBatch()[0].GetGauge().GetMetrics()["blackbox_test_metric"] != nil {
					tests++
				} else {
					measured++
				}
			}
			return
		}
		if !until(40*time.Second, func() bool {
			a, b := count()
			ce.mu.Lock()
			n := len(ce.asked)
			ce.mu.Unlock()
			w.mu.Lock()
			defer w.mu.Unlock()
			return p.ended(0) || a >= 3 && n >= 4 && b >= some && (!asks || w.queries >= 4)
		}) || p.ended(0) {
			a, b := count()
			rt.Fatalf("%s: %d test metrics, %d results, %d queries over gRPC, %d over HTTP in %s:\n%s", what, a, b, len(ce.asked), w.queries, time.Since(t0), p.out.String())
		}
		p.stop()
		if strings.Contains(p.out.String(), w.sec) {
			rt.Fatalf("%s: the secret is in the log:\n%s", what, p.out.String())
		}
		ce.mu.Lock()
		defer ce.mu.Unlock()
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.bad) > 0 || w.queries > 0 && !asks || w.total > 0 && !cf {
			rt.Fatalf("%s: over HTTP: %d queries, %d requests, %v", what, w.queries, w.total, w.bad)
		}
		told := map[int]int{} // results of each round
		for i, s := range ce.sends {
			for _, e := range s.GetEnvelopes().GetBatch() {
				m := e.GetGauge().GetMetrics()
				if e.SourceId != source {
					rt.Fatalf("%s: sent %v", what, e)
				}
				if g := m["blackbox_test_metric"]; g != nil {
					if len(m) != 1 || e.Timestamp%(int64(emission)*1e6) != 0 {
						rt.Fatalf("%s: sent %v", what, e)
					}
					continue
				}
				if ce.at[i] == 0 {
					rt.Fatalf("%s: sent %v before any query", what, e)
				}
				told[ce.at[i]]++
				want := measured(ce.at[i], ce.atHTTP[i])
				if !results || len(m) != len(want) {
					rt.Fatalf("%s: sent %v in round %d, want %v", what, e, ce.at[i], want)
				}
				for k, v := range want {
					if m[k] == nil || m[k].Value != v || m[k].Unit != "%" {
						rt.Fatalf("%s: sent %v in round %d, want %v", what, e, ce.at[i], want)
					}
				}
			}
		}
		for round := 1; round < len(ce.asked); round++ {
			h, n := 0, 0
			if asks {
				h = round
			}
			if results && len(measured(round, h)) > 0 {
				n = 1
			}
			if told[round] != n {
				rt.Fatalf("%s: %d results in round %d, want %d", what, told[round], round, n)
			}
		}
		for _, q := range ce.asked {
			if wantQ := fmt.Sprintf(`blackbox_test_metric{source_id="%s"}[%ds]`, source, window); q.Query != wantQ {
				rt.Fatalf("%s: asked %v, want %s", what, q, wantQ)
			}
			f, err := strconv.ParseFloat(q.Time, 64)
			at := time.Unix(0, int64(f*1e3)*1e6).Add(lag)
			if err != nil || at.Before(t0.Add(-400*time.Millisecond)) || at.After(time.Now()) {
				rt.Fatalf("%s: asked for time %s, started at %s", what, q.Time, t0)
			}
		}
	})
}
