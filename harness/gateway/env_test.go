package gateway_test

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// backend is a cache and query service that answers what it is told to, and
// records what it is asked.
type backend struct {
	mu      sync.Mutex
	calls   []proto.Message
	read    *logcache_v1.ReadResponse
	meta    *logcache_v1.MetaResponse
	instant *logcache_v1.PromQL_InstantQueryResult
	ranged  *logcache_v1.PromQL_RangeQueryResult
	err     error
}

func (b *backend) reset(set func(b *backend)) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls, b.read, b.meta, b.instant, b.ranged, b.err = nil, nil, nil, nil, nil, nil
	set(b)
}

func (b *backend) take() []proto.Message {
	b.mu.Lock()
	defer b.mu.Unlock()
	c := b.calls
	b.calls = nil
	return c
}

func (b *backend) Read(_ context.Context, r *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, proto.Clone(r))
	return b.read, b.err
}

func (b *backend) Meta(_ context.Context, r *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, proto.Clone(r))
	return b.meta, b.err
}

func (b *backend) InstantQuery(_ context.Context, r *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, proto.Clone(r))
	return b.instant, b.err
}

func (b *backend) RangeQuery(_ context.Context, r *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.calls = append(b.calls, proto.Clone(r))
	return b.ranged, b.err
}

var (
	theBackend backend
	grpcAddr   string
	certFile   string
	keyFile    string
	viaHTTP    *client.Client
	viaGRPC    *client.Client
	httpClient *http.Client
	gwAddr     string
)

func newGateway(opts ...gateway.GatewayOption) string {
	g := gateway.NewGateway(grpcAddr, "127.0.0.1:0", certFile, keyFile, append([]gateway.GatewayOption{
		gateway.WithGatewayLogCacheDialOpts(grpc.WithInsecure()),
	}, opts...)...)
	g.Start()
	addr := "https://" + g.Addr()
	// The gateway sets a package variable of its library as it starts to
	// serve; wait for that.
	for i := 0; ; i++ {
		resp, err := httpClient.Get(addr + "/api/v1/info")
		if err == nil {
			resp.Body.Close()
			return addr
		}
		if i > 200 {
			vh.Harness("gateway does not serve: %s", err)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func TestMain(m *testing.M) {
	dir, err := os.MkdirTemp("", "verif-gw")
	vh.Must(err)
	ca := vh.NewCA("ca")
	certFile, keyFile = ca.Issue([]string{"gateway"}).Write(dir, "gw")
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	grpcAddr = lis.Addr().String()
	s := grpc.NewServer()
	logcache_v1.RegisterEgressServer(s, &theBackend)
	logcache_v1.RegisterPromQLQuerierServer(s, &theBackend)
	go s.Serve(lis)
	httpClient = &http.Client{
		Timeout: 30 * time.Second,
		Transport: &http.Transport{
			TLSClientConfig:     &tls.Config{RootCAs: ca.Pool()},
			MaxIdleConnsPerHost: 16,
		},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
	gwAddr = newGateway(gateway.WithGatewayVersion("2.7.0"), gateway.WithGatewayVMUptimeFn(func() int64 { return 789 }))
	viaHTTP = client.NewClient(gwAddr, client.WithHTTPClient(httpClient))
	viaGRPC = client.NewClient(grpcAddr, client.WithViaGRPC(grpc.WithInsecure()))
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

func ctx() context.Context {
	c, _ := context.WithTimeout(context.Background(), 30*time.Second)
	return c
}

// sameCalls tells whether what the backend was asked is exactly want.
func sameCalls(got []proto.Message, want proto.Message) error {
	if len(got) != 1 || !proto.Equal(got[0], want) {
		return fmt.Errorf("the backend saw %v, want one request <%v>", got, want)
	}
	return nil
}

var errCodes = []codes.Code{
	codes.Canceled, codes.Unknown, codes.InvalidArgument, codes.DeadlineExceeded, codes.NotFound,
	codes.AlreadyExists, codes.PermissionDenied, codes.ResourceExhausted, codes.FailedPrecondition,
	codes.Aborted, codes.OutOfRange, codes.Unimplemented, codes.Internal, codes.Unavailable,
	codes.DataLoss, codes.Unauthenticated,
}

func serviceErr(c codes.Code, msg string) error { return status.Error(c, msg) }

// httpStatus is the documented HTTP status of a gRPC code.
func httpStatus(c codes.Code) int {
	switch c {
	case codes.Canceled:
		return 408
	case codes.InvalidArgument, codes.FailedPrecondition, codes.OutOfRange:
		return 400
	case codes.DeadlineExceeded:
		return 504
	case codes.NotFound:
		return 404
	case codes.AlreadyExists, codes.Aborted:
		return 409
	case codes.PermissionDenied:
		return 403
	case codes.Unauthenticated:
		return 401
	case codes.ResourceExhausted:
		return 429
	case codes.Unimplemented:
		return 501
	case codes.Unavailable:
		return 503
	}
	return 500
}

func plainSource(s string) bool {
	for _, seg := range strings.Split(s, "/") {
		if seg == "" || seg == "." || seg == ".." {
			return false
		}
	}
	return true
}

var errNone = errors.New("none")
