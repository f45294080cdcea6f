package procs_test

import (
	"crypto/tls"
	"fmt"
	"net"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

func syslogVars(tmp, cache string) vars {
	crt, key := foreign.IssueFor(&rsaKey.PublicKey, rsaKey, []string{"syslog"}).Write(tmp, "syslog")
	return mutual(tmp, "syslog-server").with(vars{
		"LOG_CACHE_ADDR": cache, "SYSLOG_PORT": freePort(), "SYSLOG_TLS_CERT_PATH": crt, "SYSLOG_TLS_KEY_PATH": key})
}

func drain(env vars) (*tls.Conn, error) {
	return tls.Dial("tcp", "127.0.0.1:"+env["SYSLOG_PORT"], &tls.Config{RootCAs: foreign.Pool(), ServerName: "syslog", MaxVersion: tls.VersionTLS12})
}

func frame(id, text string, at int64) string {
	m := fmt.Sprintf("<14>1 %s host %s [APP/3] - - %s", time.Unix(0, at).UTC().Format("2006-01-02T15:04:05.000000Z"), id, text)
	return fmt.Sprintf("%d %s", len(m), m)
}

// arrives sends a message until it arrives at the cache.
func arrives(f *fake, env vars, text string) string {
	return until(20*time.Second, func() string {
		c, err := drain(env)
		if err != nil {
			return err.Error()
		}
		defer c.Close()
		if _, err := c.Write([]byte(frame("some-id", text, 1e15))); err != nil {
			return err.Error()
		}
		return until(2*time.Second, func() string {
			return f.get(func() string {
				for _, e := range f.sent {
					if e.SourceId == "some-id" && e.InstanceId == "3" && vh.Payload(e) == text && e.Timestamp == 1e15 {
						return ""
					}
				}
				return "the message does not arrive"
			})
		})
	})
}

func TestC43_Descriptors(t *testing.T) {
	vh.Check(t, vh.N(3, 20), "a real syslog server that runs out of file descriptors; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, clean := tmpDir()
		defer clean()
		f := serve("log-cache")
		defer f.stop()
		env := syslogVars(tmp, f.addr)
		limit := rapid.IntRange(16, 40).Draw(rt, "limit")
		p := start("syslog-server", env, limit)
		defer p.stop()
		if s := arrives(f, env, "before"); s != "" {
			p.skipIfTaken(rt)
			rt.Fatalf("%s\n%s", s, p.out.String())
		}
		n := rapid.IntRange(limit, 2*limit).Draw(rt, "connections")
		var cs []*tls.Conn
		for i := 0; i < n; i++ {
			c, err := drainWithin(env, 100*time.Millisecond)
			if err == nil {
				cs = append(cs, c)
			}
		}
		for _, c := range cs {
			c.Close()
		}
		if s := arrives(f, env, "after"); s != "" {
			rt.Fatalf("after %d connections at once, of which %d were served, with a limit of %d: %s\n%s", n, len(cs), limit, s, p.out.String())
		}
		c.NonTrivial(fmt.Sprint(limit, n, len(cs)))
	})
}

var _ = rapid.Bool

func drainWithin(env vars, d time.Duration) (*tls.Conn, error) {
	return tls.DialWithDialer(&net.Dialer{Timeout: d}, "tcp", "127.0.0.1:"+env["SYSLOG_PORT"], &tls.Config{RootCAs: foreign.Pool(), ServerName: "syslog", MaxVersion: tls.VersionTLS12})
}
