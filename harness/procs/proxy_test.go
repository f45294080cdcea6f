package procs_test

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

func TestC43_AuthProxy(t *testing.T) {
	vh.Check(t, vh.N(40, 400), "a real auth proxy process with random settings, among certificates of the wrong authority; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, clean := tmpDir()
		defer clean()
		pf := newPlatform(foreign)
		defer pf.stop()
		var mu sync.Mutex
		var asked []string
		gwCA, gwName := outer, "gateway"
		untrusted := oneIn(rt, 5, "another's gateway")
		if untrusted {
			gwCA = foreign
		}
		host := rapid.SampledFrom([]string{"127.0.0.1", "localhost"}).Draw(rt, "host")
		if host == "localhost" {
			gwName = host
		}
		gw, stop := web(gwCA, gwName, func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			defer mu.Unlock()
			asked = append(asked, r.URL.Path)
			if r.URL.Path == "/api/v1/info" {
				fmt.Fprint(w, `{"version":"2.1.0"}`)
				return
			}
			if r.URL.Path == "/api/v1/meta" {
				fmt.Fprint(w, `{"meta":{"app-1":{"count":"1"},"app-2":{"count":"2"}}}`)
				return
			}
			fmt.Fprint(w, "from the gateway")
		})
		defer stop()
		form := rapid.SampledFrom([]string{"https://", "http://", ""}).Draw(rt, "scheme")
		env := proxyVars(tmp, pf, form+strings.Replace(gw, "127.0.0.1", host, 1))
		wrong := rapid.SampledFrom([]string{"", "", "", "UAA_CA_PATH", "CAPI_CA_PATH", "CAPI_COMMON_NAME"}).Draw(rt, "wrong")
		switch wrong {
		case "":
		case "CAPI_COMMON_NAME":
			env[wrong] = "other.internal"
		default:
			env[wrong] = env["PROXY_CA_PATH"]
		}
		skip := rapid.SampledFrom([]string{"", "false", "true"}).Draw(rt, "skip")
		if skip != "" {
			env["SKIP_CERT_VERIFY"] = skip
		}
		logs := oneIn(rt, 2, "security log")
		ip := ""
		path := filepath.Join(tmp, "security.log")
		old := ""
		if logs {
			env["SECURITY_EVENT_LOG"] = path
			if oneIn(rt, 2, "internal IP") {
				ip = "10.1.2.3"
				env["INTERNAL_IP"] = ip
			} else {
				ip = "0.0.0.0"
			}
			if oneIn(rt, 2, "there is a log") {
				old = "earlier\n"
				vh.Must(os.WriteFile(path, []byte(old), 0o600))
			}
		}
		expire := oneIn(rt, 3, "short cache")
		if expire {
			env["CACHE_EXPIRATION_INTERVAL"] = "1ms"
		}
		broken := oneIn(rt, 8, "no authority")
		pf.uaaBroken = broken
		what := fmt.Sprintf("gateway %s, wrong %q, skip %q, log %v, no authority %v, another's gateway %v", env["LOG_CACHE_GATEWAY_ADDR"], wrong, skip, logs, broken, untrusted)
		c.NonTrivial(what)
		c.ClassIf(wrong != "", wrong)
		p := start("cf-auth-proxy", env)
		defer p.stop()
		fail := func(format string, a ...interface{}) {
			rt.Helper()
			p.skipIfTaken(rt)
			rt.Fatalf("%s: %s\n%s", what, fmt.Sprintf(format, a...), p.out.String())
		}
		// without the authority's keys it does not start
		if broken || wrong == "UAA_CA_PATH" && skip != "true" {
			if !p.ended(30 * time.Second) {
				fail("it goes on without the authority's keys")
			}
			if p.err == nil {
				fail("it ends without an error")
			}
			return
		}
		mine := pf.token("me", false, "app-1")
		none := pf.token("nobody", false)
		admin := pf.token("admin", true)
		hc := browser()
		base := "https://" + env["ADDR"]
		requests := 0
		get := func(path, token string) (int, string) {
			var code int
			var body string
			if s := until(20*time.Second, func() string {
				var err error
				if code, body, err = ask(hc, base+path, token); err != nil {
					if p.ended(0) {
						return ""
					}
					return err.Error()
				}
				return ""
			}); s != "" {
				fail("%s: %s", path, s)
			}
			if p.ended(0) {
				fail("%s: it ended", path)
			}
			requests++
			return code, body
		}
		okApps := wrong == "" || wrong == "UAA_CA_PATH" || skip == "true"
		for _, x := range []struct {
			path, token string
			may         bool
		}{
			{"/api/v1/read/app-1", admin, true}, {"/api/v1/read/app-1", mine, okApps}, {"/api/v1/read/app-2", mine, false},
			{"/api/v1/read/app-1", none, false}, {"/api/v1/read/app-1", "", false}, {"/api/v1/read/app-1", "bearer x.y.z", false},
		} {
			code, body := get(x.path, x.token)
			want, text := 404, ""
			if x.may {
				want, text = 200, "from the gateway"
				if untrusted {
					want, text = 502, ""
				}
			}
			if code != want || body != text {
				fail("%s for a token that may: %v: %d %q, want %d %q", x.path, x.may, code, body, want, text)
			}
		}
		code, body := get("/api/v1/meta", mine)
		switch {
		case untrusted:
			if code < 500 {
				fail("meta: %d %s", code, body)
			}
		case code != 200 || strings.Contains(body, "app-2") || strings.Contains(body, "app-1") != okApps:
			fail("meta: %d %s", code, body)
		}
		mu.Lock()
		n := len(asked)
		mu.Unlock()
		if untrusted && n > 0 {
			fail("a gateway that is not trusted was asked %v", asked)
		}
		if okApps {
			pf.mu.Lock()
			was := pf.capiCalls
			pf.mu.Unlock()
			time.Sleep(3 * time.Millisecond)
			get("/api/v1/read/app-1", mine)
			pf.mu.Lock()
			is, bad := pf.capiCalls, pf.bad
			pf.mu.Unlock()
			if (is > was) != expire {
				fail("the list of apps is fetched again: %v, with a short cache: %v", is > was, expire)
			}
			if bad != "" {
				fail("%s", bad)
			}
		}
		p.healthy(rt, env)
		if strings.Contains(p.out.String(), "s3cret") {
			fail("the secret is reported")
		}
		b, err := os.ReadFile(path)
		if !logs {
			if err == nil {
				fail("there is a security log")
			}
			return
		}
		l := strings.Split(strings.TrimSuffix(strings.TrimPrefix(string(b), old), "\n"), "\n")
		if err != nil || !strings.HasPrefix(string(b), old) || len(l) != requests {
			fail("%d requests, and the log is %q, %v", requests, b, err)
		}
		_, port, _ := strings.Cut(env["ADDR"], ":")
		for _, x := range l {
			if !strings.HasPrefix(x, "CEF:") || !strings.Contains(x, " dst="+ip+" ") || !strings.Contains(x, "dpt="+port) {
				fail("the log has %q", x)
			}
		}
	})
}
