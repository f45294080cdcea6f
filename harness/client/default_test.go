package client_test

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

func TestC08_Address(t *testing.T) {
	vh.Check(t, vh.N(200, 2000), "a malformed address of the OAuth2 server; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		addr := rapid.SampledFrom([]string{"://x", "%zz", "http://[::1", "http://a b", "http://a:port", "\x7f"}).Draw(rt, "addr")
		var opts []client.Oauth2Option
		user := rapid.Bool().Draw(rt, "user")
		if user {
			opts = append(opts, client.WithOauth2HTTPUser("u", "p"))
		}
		c.NonTrivial(fmt.Sprint(addr, user))
		reqs := 0
		opts = append(opts, client.WithOauth2HTTPClient(&http.Client{Transport: roundTripper(func(r *http.Request) (*http.Response, error) {
			reqs++
			resp, _ := response(r, 200, `{"token_type":"a","access_token":"b"}`)
			return resp, nil
		})}))
		req, err := http.NewRequest("GET", "http://a", nil)
		vh.Must(err)
		var resp *http.Response
		if p := vh.Try(func() { resp, err = client.NewOauth2HTTPClient(addr, "c", "s", opts...).Do(req) }); p != nil {
			rt.Fatalf("%q: %s", addr, p)
		}
		if err == nil || resp != nil || reqs != 0 {
			rt.Fatalf("%q: response %v, error %v, %d requests", addr, resp, err, reqs)
		}
	})
}

// The clients that are made without an HTTP client wait five seconds for an
// answer; this is the one check in real time, with wide margins.
func TestC06_Timeout(t *testing.T) {
	vh.Plain(t, "each call to a server that answers after a second, and to one that does not; each case is non-trivial", func(next func() *vh.Case) {
		type tcase struct {
			name string
			hang bool
			do   func(ctx context.Context, addr string) error
		}
		var cases []tcase
		for _, k := range calls {
			k := k
			for _, hang := range []bool{false, true} {
				cases = append(cases, tcase{k.name, hang, func(ctx context.Context, addr string) error {
					_, _, err := k.run(ctx, client.NewClient(addr))
					return err
				}})
			}
		}
		for _, hang := range []bool{false, true} {
			cases = append(cases, tcase{"OAuth2", hang, func(ctx context.Context, addr string) error {
				req, err := http.NewRequest("GET", addr, nil)
				vh.Must(err)
				resp, err := client.NewOauth2HTTPClient(addr, "c", "s").Do(req)
				if err == nil {
					resp.Body.Close()
				}
				return err
			}})
		}
		var wg sync.WaitGroup
		errs := make([]error, len(cases))
		for i, k := range cases {
			next().NonTrivial(fmt.Sprintf("%s hang=%v", k.name, k.hang))
			i, k := i, k
			wg.Add(1)
			go func() {
				defer wg.Done()
				lis, err := net.Listen("tcp", "127.0.0.1:0")
				vh.Must(err)
				gone := make(chan struct{})
				first := make(chan struct{}, 1)
				first <- struct{}{}
				s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					select {
					case <-first:
						if k.hang {
							select {
							case <-gone:
							case <-time.After(25 * time.Second):
							}
							return
						}
						time.Sleep(time.Second)
					default:
					}
					if r.URL.Path == "/oauth/token" {
						fmt.Fprint(w, `{"token_type":"a","access_token":"b"}`)
						return
					}
					w.WriteHeader(http.StatusTeapot) // an answer is enough
				})}
				go s.Serve(lis)
				defer s.Close()
				defer close(gone)
				t0 := time.Now()
				err = k.do(context.Background(), "http://"+lis.Addr().String())
				d := time.Since(t0)
				switch {
				case k.hang && (err == nil || d < 3*time.Second || d > 15*time.Second):
					errs[i] = fmt.Errorf("%s to a server that does not answer ended after %s with %v, want an error after 5 s", k.name, d, err)
				case !k.hang && d < 900*time.Millisecond:
					errs[i] = fmt.Errorf("%s to a server that answers after a second ended after %s: %v", k.name, d, err)
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				t.Error(err)
			}
		}
	})
}
