package tls_test

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"testing"

	"code.cloudfoundry.org/log-cache/internal/blackbox"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

func platform(ca *vh.CA) *httptest.Server {
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/oauth/token" {
			fmt.Fprint(w, `{"token_type":"bearer","access_token":"t"}`)
			return
		}
		fmt.Fprint(w, `{"version":"2.7.0","vm_uptime":"789"}`)
	}))
	s.TLS = &tls.Config{Certificates: []tls.Certificate{ca.Issue([]string{"127.0.0.1"}).TLS()}}
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.StartTLS()
	return s
}

// TestC16_Skip: a client that was told to verify its servers does so, whatever
// others were told.
func TestC16_Skip(t *testing.T) {
	// B is the authority the machine trusts.
	vh.Check(t, vh.N(120, 2000), "clients that verify and clients that do not, in one process, and a server that a stranger vouches for", func(rt *rapid.T, c *vh.Case) {
		servers := map[string]*httptest.Server{"trusted": platform(caB), "stranger": platform(caA)}
		for _, s := range servers {
			defer s.Close()
		}
		type one struct {
			client blackbox.QueryableClient
			skip   bool
			server string
			uaa    string
		}
		var all []one
		history := ""
		skips, checks := 0, 0
		for k := rapid.IntRange(1, 6).Draw(rt, "steps"); k > 0; k-- {
			if len(all) == 0 || rapid.Bool().Draw(rt, "another client") {
				x := one{skip: rapid.Bool().Draw(rt, "skip"), server: rapid.SampledFrom([]string{"trusted", "stranger"}).Draw(rt, "server"), uaa: rapid.SampledFrom([]string{"trusted", "stranger"}).Draw(rt, "uaa")}
				x.client = blackbox.NewHttpEgressClient(servers[x.server].URL, servers[x.uaa].URL, "c", "s", x.skip)
				all = append(all, x)
				history += fmt.Sprintf("; client %d of %s and %s, skip %v", len(all), x.server, x.uaa, x.skip)
				if x.skip {
					skips++
				}
			}
			i := rapid.IntRange(0, len(all)-1).Draw(rt, "client")
			x := all[i]
			up, err := x.client.LogCacheVMUptime(context.Background())
			want := x.skip || x.server == "trusted" && x.uaa == "trusted"
			if want && (err != nil || up != 789) {
				rt.Fatalf("client %d gets %d, %v%s", i+1, up, err, history)
			}
			if !want && err == nil {
				rt.Fatalf("client %d trusts a stranger%s", i+1, history)
			}
			if !want {
				checks++
			}
			// nor does it change the clients of others
			for name, s := range servers {
				for _, h := range []*http.Client{http.DefaultClient, {Transport: http.DefaultTransport}} {
					r, err := h.Get(s.URL)
					if err == nil {
						r.Body.Close()
					}
					if (err == nil) != (name == "trusted") {
						rt.Fatalf("another client of the process gets %v from the %s server%s", err, name, history)
					}
				}
			}
		}
		c.If(skips > 0 && checks > 0, history)
	})
}
