package client_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

type creds struct {
	client, secret, user, password string
}

// checkTokenRequest checks one request to the token server, as it goes over
// the wire.
func (c creds) checkTokenRequest(r *http.Request, host string) error {
	if r.Method != "POST" || r.URL.Host != host || r.URL.Path != "/oauth/token" || r.URL.Scheme != "https" {
		return fmt.Errorf("token request %s %s", r.Method, r.URL)
	}
	if ct := r.Header.Get("Content-Type"); ct != "application/x-www-form-urlencoded" {
		return fmt.Errorf("token request with content type %q", ct)
	}
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return err
	}
	got, err := url.ParseQuery(string(b))
	if err != nil {
		return fmt.Errorf("token request with body %q", b)
	}
	want := url.Values{"client_id": {c.client}, "grant_type": {"client_credentials"}}
	if c.user != "" {
		want = url.Values{"client_id": {c.client}, "client_secret": {c.secret}, "grant_type": {"password"}, "username": {c.user}, "password": {c.password}}
	}
	if got.Encode() != want.Encode() {
		return fmt.Errorf("token request with %q, want %q", got.Encode(), want.Encode())
	}
	if c.user == "" {
		if u, p, ok := r.BasicAuth(); !ok || u != c.client || p != c.secret {
			return fmt.Errorf("token request with credentials %q %q, want %q %q", u, p, c.client, c.secret)
		}
	}
	return nil
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func response(r *http.Request, status int, body string) (*http.Response, *trackedBody) {
	b := &trackedBody{r: strings.NewReader(body)}
	return &http.Response{StatusCode: status, Header: http.Header{}, Body: b, Request: r, ProtoMajor: 1, ProtoMinor: 1}, b
}

var noRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }

func TestC08_Sequence(t *testing.T) {
	secretGen := rapid.OneOf(rapid.SampledFrom([]string{"a", "p:w", "ü&=+ %", "x y"}), rapid.StringN(1, 6, -1))
	vh.Check(t, vh.N(3000, 60000), "random sequence of requests, refusals and token failures; non-trivial: a refusal or failure is followed by a request",
		func(rt *rapid.T, c *vh.Case) {
			cr := creds{client: rapid.StringMatching(`[a-z_&é]{1,5}`).Draw(rt, "client"), secret: secretGen.Draw(rt, "secret")}
			var opts []client.Oauth2Option
			if rapid.Bool().Draw(rt, "user") {
				cr.user, cr.password = secretGen.Draw(rt, "username"), rapid.OneOf(secretGen, secretGen, rapid.Just("")).Draw(rt, "password")
				opts = append(opts, client.WithOauth2HTTPUser(cr.user, cr.password))
			}
			type step struct {
				own       string // an Authorization header of the request
				status    int    // of the answer, 0: transport failure
				tokenFail int
			}
			var steps []step
			for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "steps"); i < n; i++ {
				s := step{status: rapid.OneOf(rapid.SampledFrom([]int{200, 200, 401, 0, 204, 299, 300, 304, 403, 500}), rapid.IntRange(200, 599)).Draw(rt, "status")}
				if rapid.IntRange(0, 4).Draw(rt, "own header") == 0 {
					s.own = rapid.SampledFrom([]string{"bearer mine", "Basic eDp5", ""}).Draw(rt, "own")
					if s.own == "" {
						s.own = "empty"
					}
				}
				if rapid.IntRange(0, 3).Draw(rt, "token fails") == 0 {
					s.tokenFail = rapid.IntRange(1, 4).Draw(rt, "how")
				}
				steps = append(steps, s)
			}
			tokenType := rapid.SampledFrom([]string{"bearer", "Bearer", "mac"}).Draw(rt, "type")

			var cur step
			var issued int
			var tokenBodies []*trackedBody
			var badToken error
			var sent []*http.Request
			fetches := 0
			rtp := roundTripper(func(r *http.Request) (*http.Response, error) {
				if r.URL.Host == "uaa.example:8443" {
					fetches++
					if err := cr.checkTokenRequest(r, "uaa.example:8443"); err != nil {
						badToken = err
					}
					status, body := 200, ""
					switch cur.tokenFail {
					case 1:
						return nil, errors.New("no route")
					case 2:
						status = 401
					case 3:
						body = "{"
					case 4:
						status = 201
					}
					if body == "" {
						issued++
						b, _ := json.Marshal(map[string]interface{}{"token_type": tokenType, "access_token": fmt.Sprint("t", issued), "expires_in": 3})
						body = string(b)
					}
					resp, tb := response(r, status, body)
					tokenBodies = append(tokenBodies, tb)
					return resp, nil
				}
				sent = append(sent, r)
				if cur.status == 0 {
					return nil, errors.New("reset")
				}
				resp, _ := response(r, cur.status, "answer")
				return resp, nil
			})
			opts = append(opts, client.WithOauth2HTTPClient(&http.Client{Transport: rtp, CheckRedirect: noRedirect}))
			oc := client.NewOauth2HTTPClient("https://uaa.example:8443"+rapid.SampledFrom([]string{"", "/", "/x"}).Draw(rt, "path"), cr.client, cr.secret, opts...)

			model, interesting := "", false
			for i, s := range steps {
				cur = s
				interesting = interesting || i > 0 && (steps[i-1].tokenFail > 0 || steps[i-1].status < 200 || steps[i-1].status > 299)
				req, err := http.NewRequest("GET", "https://log-cache.example/api/v1/meta?x=1", nil)
				vh.Must(err)
				req.Header.Set("X-Other", "kept")
				if s.own == "empty" {
					req.Header["Authorization"] = []string{""}
				} else if s.own != "" {
					req.Header.Set("Authorization", s.own)
				}
				sent, fetches = nil, 0
				wantFetch := s.own == "" && model == ""
				resp, err := oc.Do(req)
				if badToken != nil {
					rt.Fatalf("step %d: %s", i, badToken)
				}
				if fetches > 0 != wantFetch || fetches > 1 {
					rt.Fatalf("step %d: %d token fetches, want one: %v", i, fetches, wantFetch)
				}
				if wantFetch && s.tokenFail > 0 {
					if err == nil || resp != nil || len(sent) != 0 {
						rt.Fatalf("step %d: token fetch failed but error is %v, %d requests sent", i, err, len(sent))
					}
					continue
				}
				if wantFetch {
					model = fmt.Sprintf("%s t%d", tokenType, issued)
				}
				want := model
				if s.own == "empty" {
					want = ""
				} else if s.own != "" {
					want = s.own
				}
				if len(sent) != 1 || len(sent[0].Header["Authorization"]) != 1 || sent[0].Header["Authorization"][0] != want ||
					sent[0].Header.Get("X-Other") != "kept" || sent[0].URL.String() != "https://log-cache.example/api/v1/meta?x=1" || sent[0].Method != "GET" {
					rt.Fatalf("step %d: sent %v, want authorization %q", i, sent, want)
				}
				if s.status == 0 {
					if err == nil {
						rt.Fatalf("step %d: no error", i)
					}
					continue
				}
				if err != nil || resp.StatusCode != s.status {
					rt.Fatalf("step %d: %v, want status %d", i, err, s.status)
				}
				if b, err := io.ReadAll(resp.Body); err != nil || string(b) != "answer" {
					rt.Fatalf("step %d: body %q %v", i, b, err)
				}
				resp.Body.Close()
				if s.own == "" && (s.status < 200 || s.status > 299) {
					model = ""
				}
			}
			for _, b := range tokenBodies {
				if b.closed == 0 {
					rt.Fatalf("the body of a token answer is left open")
				}
			}
			c.If(interesting, fmt.Sprintf("%+v %+v", cr, steps))
		})
}

func TestC08_Concurrent(t *testing.T) {
	vh.Check(t, vh.N(250, 4000), "random concurrent requests while the server revokes tokens; non-trivial: two workers and a refusal",
		func(rt *rapid.T, c *vh.Case) {
			workers := rapid.IntRange(2, 6).Draw(rt, "workers")
			each := rapid.IntRange(1, 8).Draw(rt, "requests")
			refuse := rapid.SliceOfN(rapid.IntRange(0, 5), 1, 20).Draw(rt, "refusals")
			fails := rapid.SliceOfN(rapid.IntRange(0, 6), 1, 10).Draw(rt, "token failures")
			user := rapid.Bool().Draw(rt, "user")

			var mu sync.Mutex
			var issued, n, fetches, inFetch, refusals, failed int
			var problem error
			revoked := map[string]bool{} // refused, and the refusal returned to its caller
			bad := func(format string, a ...interface{}) {
				if problem == nil {
					problem = fmt.Errorf(format, a...)
				}
			}
			rtp := roundTripper(func(r *http.Request) (*http.Response, error) {
				mu.Lock()
				defer mu.Unlock()
				if r.URL.Host == "uaa.example" {
					fetches++
					inFetch++
					if fails[fetches%len(fails)] == 0 {
						failed++
						return nil, errors.New("no route")
					}
					issued++
					resp, _ := response(r, 200, fmt.Sprintf(`{"token_type":"bearer","access_token":"t%d"}`, issued))
					return resp, nil
				}
				n++
				a := r.Header.Get("Authorization")
				var num int
				if k, err := fmt.Sscanf(a, "bearer t%d", &num); k != 1 || err != nil || num < 1 || num > issued {
					bad("request with authorization %q, %d tokens issued", a, issued)
				}
				status := 200
				if refuse[n%len(refuse)] == 0 {
					status = 401
					refusals++
				}
				resp, _ := response(r, status, "")
				return resp, nil
			})
			opts := []client.Oauth2Option{client.WithOauth2HTTPClient(&http.Client{Transport: rtp, CheckRedirect: noRedirect})}
			if user {
				opts = append(opts, client.WithOauth2HTTPUser("u", "p"))
			}
			oc := client.NewOauth2HTTPClient("https://uaa.example", "c", "s", opts...)
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < each; i++ {
						req, _ := http.NewRequest("GET", "https://log-cache.example/", nil)
						mu.Lock()
						before := map[string]bool{}
						for k := range revoked {
							before[k] = true
						}
						mu.Unlock()
						resp, err := oc.Do(req)
						mu.Lock()
						a := req.Header.Get("Authorization")
						if before[a] {
							bad("request with token %q, refused before the request", a)
						}
						if err == nil && resp.StatusCode == 401 {
							revoked[a] = true
						}
						mu.Unlock()
						if err == nil {
							resp.Body.Close()
						}
					}
				}()
			}
			wg.Wait()
			if problem != nil {
				rt.Fatalf("%s", problem)
			}
			if issued > 1+refusals {
				rt.Fatalf("%d tokens fetched for %d refusals", issued, refusals)
			}
			if n+failed != workers*each {
				rt.Fatalf("%d requests sent and %d token failures for %d calls", n, failed, workers*each)
			}
			c.If(refusals > 0, fmt.Sprint(workers, each, refuse, fails, user))
		})
}
