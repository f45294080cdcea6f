package procs_test

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/grpclog"
	"pgregory.net/rapid"
)

var (
	dir string
	// inner signs what the processes show each other, outer what the proxy
	// and the gateway show others, foreign what the platform shows
	inner, outer, foreign *vh.CA
	bins                  = map[string]string{}
	rsaKey                *rsa.PrivateKey
)

func TestMain(m *testing.M) {
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard))
	var err error
	dir, err = os.MkdirTemp("", "verif-procs")
	vh.Must(err)
	names := []string{"log-cache", "scheduler", "cf-auth-proxy", "nozzle", "syslog-server", "gateway"}
	args := []string{"build", "-ldflags", "-X main.buildVersion=2.9.1", "-o", dir + "/bin/"}
	for _, n := range names {
		bins[n] = filepath.Join(dir, "bin", n)
		args = append(args, "code.cloudfoundry.org/log-cache/cmd/"+n)
	}
	vh.Must(os.Mkdir(filepath.Join(dir, "bin"), 0o755))
	cmd := exec.Command("go", args...)
	if d := os.Getenv("VERIF_DIR"); d != "" {
		cmd.Dir = filepath.Join(d, "harness")
	}
	if b, err := cmd.CombinedOutput(); err != nil {
		vh.Harness("building: %s\n%s", err, b)
	}
	inner, outer, foreign = vh.NewCA("inner"), vh.NewCA("outer"), vh.NewCA("foreign")
	rsaKey, err = rsa.GenerateKey(rand.Reader, 2048)
	vh.Must(err)
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

// output collects what a process writes.
type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(p)
}

func (o *output) String() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.String()
}

type process struct {
	name string
	cmd  *exec.Cmd
	out  output
	done chan struct{}
	err  error
}

type vars map[string]string

// start starts one of the processes. A limit is one of its open files.
func start(name string, env vars, limit ...int) *process {
	p := &process{name: name, cmd: exec.Command(bins[name]), done: make(chan struct{})}
	for _, n := range limit {
		p.cmd = exec.Command("/bin/sh", "-c", fmt.Sprintf("ulimit -n %d; exec %s", n, bins[name]))
	}
	p.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}
	for k, v := range env {
		p.cmd.Env = append(p.cmd.Env, k+"="+v)
	}
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	vh.Must(p.cmd.Start())
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p
}

func (p *process) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

// ended waits for the process to end.
func (p *process) ended(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// needs makes sure that a process goes on, and answers at its health port.
func (p *process) healthy(rt *rapid.T, env vars) {
	s := until(10*time.Second, func() string {
		resp, err := http.Get("http://localhost:" + env["HEALTH_PORT"] + "/debug/pprof/cmdline")
		if err != nil {
			return err.Error()
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		if resp.StatusCode != 200 || !strings.Contains(string(b), p.name) {
			return fmt.Sprintf("%s %q", resp.Status, b)
		}
		return ""
	})
	// It tells a lot, and it is for those on the machine.
	if resp, err := http.Get("http://127.0.0.2:" + env["HEALTH_PORT"] + "/debug/pprof/cmdline"); err == nil {
		resp.Body.Close()
		s = "it answers at other addresses than localhost"
	}
	if s != "" {
		p.skipIfTaken(rt)
		rt.Fatalf("%s: health endpoint: %s\n%s", p.name, s, p.out.String())
	}
}

// skipIfTaken gives the case up when somebody else took the process's port.
func (p *process) skipIfTaken(rt *rapid.T) {
	if strings.Contains(p.out.String(), "address already in use") {
		rt.Skip("port taken")
	}
}

// until waits for a condition that takes its time to come.
func until(d time.Duration, f func() string) string {
	var s string
	for t := time.Now(); ; time.Sleep(20 * time.Millisecond) {
		if s = f(); s == "" || time.Since(t) > d {
			return s
		}
	}
}

func oneIn(rt *rapid.T, n int, l string) bool { return rapid.IntRange(0, n-1).Draw(rt, l) == n-1 }

func ctx() context.Context {
	c, _ := context.WithTimeout(context.Background(), 10*time.Second)
	return c
}

var hosts int64

// address is one that nobody else uses.
func address() string {
	p := int64(os.Getpid())
	for try := 0; ; try++ {
		n := atomic.AddInt64(&hosts, 1)
		a := fmt.Sprintf("127.%d.%d.%d", 1+p%250, 1+(p/250+n/200)%250, 1+n%200)
		l, err := net.Listen("tcp", a+":0")
		if err == nil {
			defer l.Close()
			return l.Addr().String()
		}
		if try > 50 {
			vh.Harness("no address: %s", err)
		}
	}
}

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	defer l.Close()
	return strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
}

// tmpDir is a directory for one case.
func tmpDir() (string, func()) {
	tmp, err := os.MkdirTemp(dir, "case")
	vh.Must(err)
	return tmp, func() { os.RemoveAll(tmp) }
}

// mutual are the settings of a process with a name.
func mutual(tmp, name string) vars {
	crt, key := inner.Issue([]string{name}).Write(tmp, "inner-"+name)
	return vars{"CA_PATH": inner.Write(tmp, "inner-ca"), "CERT_PATH": crt, "KEY_PATH": key, "HEALTH_PORT": freePort()}
}

func (v vars) with(w vars) vars {
	r := vars{}
	for _, m := range []vars{v, w} {
		for k, x := range m {
			r[k] = x
		}
	}
	return r
}

// creds is how a test asks for a process over mutual TLS.
func creds(name string) grpc.DialOption {
	return grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{
		RootCAs: inner.Pool(), ServerName: name, Certificates: []tls.Certificate{inner.Issue([]string{"test"}).TLS()}}))
}

func dial(addr string) *grpc.ClientConn {
	c, err := grpc.Dial(addr, creds("log-cache"))
	vh.Must(err)
	return c
}

// all says that a node has all hashes.
func all(addr string) *logcache_v1.SetRangesRequest {
	return &logcache_v1.SetRangesRequest{Ranges: map[string]*logcache_v1.Ranges{addr: {Ranges: []*logcache_v1.Range{{End: math.MaxUint64}}}}}
}

// fake is a cache node of the test.
type fake struct {
	mu      sync.Mutex
	calls   int
	local   bool
	sent    []*loggregator_v2.Envelope
	ranges  map[[2]uint64]bool
	told    *logcache_v1.SetRangesRequest
	changes int
	addr    string
	stop    func()
}

func (f *fake) note(c context.Context) func() {
	f.mu.Lock()
	f.calls++
	return f.mu.Unlock
}

func (f *fake) Send(c context.Context, r *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error) {
	defer f.note(c)()
	f.local = f.local || r.LocalOnly
	f.sent = append(f.sent, r.GetEnvelopes().GetBatch()...)
	return &logcache_v1.SendResponse{}, nil
}

func (f *fake) AddRange(c context.Context, r *logcache_v1.AddRangeRequest) (*logcache_v1.AddRangeResponse, error) {
	defer f.note(c)()
	f.changes++
	f.ranges[[2]uint64{r.Range.Start, r.Range.End}] = true
	return &logcache_v1.AddRangeResponse{}, nil
}

func (f *fake) RemoveRange(c context.Context, r *logcache_v1.RemoveRangeRequest) (*logcache_v1.RemoveRangeResponse, error) {
	defer f.note(c)()
	f.changes++
	delete(f.ranges, [2]uint64{r.Range.Start, r.Range.End})
	return &logcache_v1.RemoveRangeResponse{}, nil
}

func (f *fake) ListRanges(c context.Context, r *logcache_v1.ListRangesRequest) (*logcache_v1.ListRangesResponse, error) {
	defer f.note(c)()
	resp := &logcache_v1.ListRangesResponse{}
	for k := range f.ranges {
		resp.Ranges = append(resp.Ranges, &logcache_v1.Range{Start: k[0], End: k[1]})
	}
	return resp, nil
}

func (f *fake) SetRanges(c context.Context, r *logcache_v1.SetRangesRequest) (*logcache_v1.SetRangesResponse, error) {
	defer f.note(c)()
	f.changes++
	f.told = r
	return &logcache_v1.SetRangesResponse{}, nil
}

func (f *fake) get(g func() string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return g()
}

// serve serves a fake over mutual TLS under a name.
func serve(name string) *fake {
	f := &fake{ranges: map[[2]uint64]bool{}}
	lis, err := net.Listen("tcp", address())
	vh.Must(err)
	s := grpc.NewServer(grpc.Creds(credentials.NewTLS(&tls.Config{
		Certificates: []tls.Certificate{inner.Issue([]string{name}).TLS()},
		ClientAuth:   tls.RequireAndVerifyClientCert,
		ClientCAs:    inner.Pool(),
	})))
	logcache_v1.RegisterIngressServer(s, f)
	logcache_v1.RegisterOrchestrationServer(s, f)
	go s.Serve(lis)
	f.addr, f.stop = lis.Addr().String(), s.Stop
	return f
}

// broken is an environment that lacks something.
type broken struct {
	what string
	env  vars
}

// breaks takes each of the settings away, and two of the files.
func breaks(rt *rapid.T, env vars, required, files []string) []broken {
	var bs []broken
	for _, k := range required {
		e := env.with(vars{})
		delete(e, k)
		bs = append(bs, broken{"without " + k, e})
	}
	k := rapid.SampledFrom(files).Draw(rt, "file")
	bs = append(bs, broken{"with missing file " + k, env.with(vars{k: env[k] + ".missing"})})
	k = rapid.SampledFrom(files).Draw(rt, "garbage")
	vh.Must(os.WriteFile(env[k]+".garbage", []byte("garbage"), 0o600))
	return append(bs, broken{"with garbage in " + k, env.with(vars{k: env[k] + ".garbage"})})
}
