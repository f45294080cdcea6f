package client_test

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

type doer func(*http.Request) (*http.Response, error)

func (f doer) Do(r *http.Request) (*http.Response, error) { return f(r) }

// TestC08_Waits: nobody waits for a token longer than his context allows.
func TestC08_Waits(t *testing.T) {
	vh.Check(t, vh.N(800, 20000), "several callers, and a token server that takes longer than one of them waits", func(rt *rapid.T, c *vh.Case) {
		type caller struct{ at, patience time.Duration }
		var callers []caller
		for k := rapid.IntRange(1, 6).Draw(rt, "callers"); k > 0; k-- {
			callers = append(callers, caller{
				time.Duration(rapid.IntRange(0, 5000).Draw(rt, "at ms")) * time.Millisecond,
				time.Duration(rapid.IntRange(0, 9000).Draw(rt, "patience ms")) * time.Millisecond})
		}
		slow := rapid.SliceOfN(rapid.IntRange(0, 20000), 1, 8).Draw(rt, "token ms")
		codes := rapid.SliceOfN(rapid.SampledFrom([]int{200, 200, 200, 401, 500}), 1, 6).Draw(rt, "codes")
		apiMs := rapid.SliceOfN(rapid.IntRange(0, 1000), 1, 6).Draw(rt, "api ms")
		user := rapid.Bool().Draw(rt, "user")
		deadline := rapid.Bool().Draw(rt, "deadline")
		waited := false
		err := vh.Bubble(t, func() {
			var mu sync.Mutex
			tokens, apis, open := 0, 0, 0
			wait := func(r *http.Request, d time.Duration) error {
				select {
				case <-time.After(d):
					return nil
				case <-r.Context().Done():
					return r.Context().Err()
				}
			}
			h := doer(func(r *http.Request) (*http.Response, error) {
				mu.Lock()
				if r.URL.Host == "uaa.example" {
					tokens++
					k := tokens
					d := time.Duration(slow[k%len(slow)]) * time.Millisecond
					open++
					if open > 1 {
						mu.Unlock()
						return nil, errors.New("two token requests at once")
					}
					mu.Unlock()
					err := wait(r, d)
					mu.Lock()
					defer mu.Unlock()
					open--
					if err != nil {
						return nil, err
					}
					resp, _ := response(r, 200, fmt.Sprintf(`{"token_type":"bearer","access_token":"t%d"}`, k))
					return resp, nil
				}
				apis++
				k := apis
				mu.Unlock()
				if err := wait(r, time.Duration(apiMs[k%len(apiMs)])*time.Millisecond); err != nil {
					return nil, err
				}
				resp, _ := response(r, codes[k%len(codes)], "")
				return resp, nil
			})
			opts := []client.Oauth2Option{client.WithOauth2HTTPClient(h)}
			if user {
				opts = append(opts, client.WithOauth2HTTPUser("u", "p"))
			}
			oc := client.NewOauth2HTTPClient("https://uaa.example", "c", "s", opts...)
			var wg sync.WaitGroup
			problem := ""
			for i, x := range callers {
				wg.Add(1)
				go func(i int, x caller) {
					defer wg.Done()
					time.Sleep(x.at)
					ctx, cancel := context.WithCancel(context.Background())
					if deadline {
						ctx, cancel = context.WithTimeout(context.Background(), x.patience)
					} else {
						time.AfterFunc(x.patience, cancel)
					}
					defer cancel()
					req, _ := http.NewRequest("GET", "https://log-cache.example/", nil)
					t0 := time.Now()
					resp, err := oc.Do(req.WithContext(ctx))
					d := time.Since(t0)
					mu.Lock()
					defer mu.Unlock()
					switch {
					case d > x.patience:
						problem = fmt.Sprintf("caller %d waits %s, and would wait %s", i, d, x.patience)
					case err != nil && d < x.patience:
						problem = fmt.Sprintf("caller %d gets %v after %s, and would wait %s", i, err, d, x.patience)
					case err == nil && resp == nil:
						problem = fmt.Sprintf("caller %d gets nothing", i)
					}
					waited = waited || err != nil
				}(i, x)
			}
			wg.Wait()
			if problem != "" {
				vh.Fail("%s", problem)
			}
			// afterwards it is as ever
			req, _ := http.NewRequest("GET", "https://log-cache.example/", nil)
			if _, err := oc.Do(req); err != nil {
				vh.Fail("afterwards: %s", err)
			}
		})
		if err != nil {
			rt.Fatalf("%+v slow %v codes %v api %v: %s", callers, slow, codes, apiMs, err)
		}
		c.If(waited && len(callers) > 1, fmt.Sprint(callers, slow, codes, apiMs, user, deadline))
	})
}
