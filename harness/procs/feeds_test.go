package procs_test

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

func nozzleVars(tmp, cache, provider string) vars {
	crt, key := foreign.Issue([]string{"nozzle"}).Write(tmp, "nozzle")
	return mutual(tmp, "nozzle").with(vars{
		"LOG_CACHE_ADDR": cache, "LOGS_PROVIDER_ADDR": provider, "SHARD_ID": "log-cache", "SELECTORS": "log",
		"LOGS_PROVIDER_CA_FILE_PATH": foreign.Write(tmp, "provider-ca"), "LOGS_PROVIDER_CERT_FILE_PATH": crt, "LOGS_PROVIDER_KEY_FILE_PATH": key})
}

// kind says what a selector selects.
func kind(s *loggregator_v2.Selector) string {
	if s.SourceId != "" {
		return "of " + s.SourceId
	}
	switch s.Message.(type) {
	case *loggregator_v2.Selector_Log:
		return "log"
	case *loggregator_v2.Selector_Counter:
		return "counter"
	case *loggregator_v2.Selector_Gauge:
		return "gauge"
	case *loggregator_v2.Selector_Timer:
		return "timer"
	case *loggregator_v2.Selector_Event:
		return "event"
	}
	return "?"
}

func TestC43_Nozzle(t *testing.T) {
	vh.Check(t, vh.N(10, 100), "a real nozzle process with random settings, among peers with the wrong name; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, clean := tmpDir()
		defer clean()
		cacheName := rapid.SampledFrom([]string{"log-cache", "log-cache", "log-cache", "other"}).Draw(rt, "cache name")
		provName := rapid.SampledFrom([]string{"reverselogproxy", "reverselogproxy", "reverselogproxy", "other"}).Draw(rt, "provider name")
		f := serve(cacheName)
		defer f.stop()
		pr := newProvider(foreign, provName)
		defer pr.stop()
		env := nozzleVars(tmp, f.addr, pr.addr)
		env["SHARD_ID"] = rapid.SampledFrom([]string{"log-cache", "other-shard", "x y"}).Draw(rt, "shard")
		want := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"log", "gauge", "counter", "timer", "event"}), 1, 5, rapid.ID[string]).Draw(rt, "selectors")
		env["SELECTORS"] = strings.Join(want, ",")
		what := fmt.Sprint(cacheName, provName, env["SHARD_ID"], want)
		c.NonTrivial(what)
		p := start("nozzle", env)
		defer p.stop()
		fail := func(format string, a ...interface{}) {
			rt.Helper()
			p.skipIfTaken(rt)
			rt.Fatalf("%s: %s\n%s", what, fmt.Sprintf(format, a...), p.out.String())
		}
		s := until(15*time.Second, func() string {
			if len(pr.requests()) == 0 {
				if provName == "other" && strings.Contains(p.out.String(), "Error connecting") {
					return ""
				}
				return "the provider is not asked"
			}
			return ""
		})
		if s != "" {
			fail("%s", s)
		}
		if provName == "other" {
			if len(pr.requests()) > 0 {
				fail("a provider with another name is asked")
			}
			p.healthy(rt, env)
			return
		}
		var got []string
		for _, r := range pr.requests() {
			if r.ShardId != env["SHARD_ID"] || r.UsePreferredTags != true {
				fail("the request is %s", vh.Str(r))
			}
			got = nil
			for _, x := range r.Selectors {
				got = append(got, kind(x))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("selectors %v, want %v", got, want)
		}
		n := rapid.SampledFrom([]int{1, 10, 513}).Draw(rt, "envelopes")
		var sent []*loggregator_v2.Envelope
		for i := 0; i < n; i++ {
			sent = append(sent, vh.Env(rt, rapid.SampledFrom(vh.Types).Draw(rt, "type"), "id", int64(i)))
			if i > 20 {
				sent[i] = vh.Log("id", int64(i), "x")
			}
		}
		pr.out <- sent
		if cacheName == "other" {
			time.Sleep(1500 * time.Millisecond)
			if f.get(func() string { return fmt.Sprint(f.calls) }) != "0" {
				fail("a cache with another name gets envelopes")
			}
			p.healthy(rt, env)
			return
		}
		all := vh.Multiset(sent)
		s = until(15*time.Second, func() string {
			return f.get(func() string {
				if l := vh.Multiset(f.sent); strings.Join(l, "\n") != strings.Join(all, "\n") {
					return fmt.Sprintf("%d envelopes arrive, want %d", len(l), len(all))
				}
				return ""
			})
		})
		if s != "" {
			fail("%s", s)
		}
		if f.get(func() string { return fmt.Sprint(f.local) }) == "true" {
			fail("the node is to keep what may belong to another")
		}
		p.healthy(rt, env)
	})
}

func TestC43_Syslog(t *testing.T) {
	vh.Check(t, vh.N(8, 80), "a real syslog server with random settings, among caches with the wrong name; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, clean := tmpDir()
		defer clean()
		name := rapid.SampledFrom([]string{"log-cache", "log-cache", "other"}).Draw(rt, "cache name")
		f := serve(name)
		defer f.stop()
		env := syslogVars(tmp, f.addr)
		idle := rapid.SampledFrom([]time.Duration{0, 300 * time.Millisecond, time.Minute}).Draw(rt, "idle timeout")
		if idle > 0 {
			env["SYSLOG_IDLE_TIMEOUT"] = idle.String()
		}
		p := start("syslog-server", env)
		defer p.stop()
		what := fmt.Sprint(name, " ", idle)
		c.NonTrivial(what + fmt.Sprint(rapid.IntRange(0, 1000).Draw(rt, "variant")))
		fail := func(format string, a ...interface{}) {
			rt.Helper()
			p.skipIfTaken(rt)
			rt.Fatalf("%s: %s\n%s", what, fmt.Sprintf(format, a...), p.out.String())
		}
		if name == "other" {
			s := until(15*time.Second, func() string {
				c, err := drain(env)
				if err != nil {
					return err.Error()
				}
				defer c.Close()
				_, err = c.Write([]byte(frame("some-id", "x", 5)))
				vh.Must(err)
				return ""
			})
			if s != "" {
				fail("%s", s)
			}
			time.Sleep(1200 * time.Millisecond)
			if f.get(func() string { return fmt.Sprint(f.calls) }) != "0" {
				fail("a cache with another name gets envelopes")
			}
			p.healthy(rt, env)
			return
		}
		if s := arrives(f, env, "hello"); s != "" {
			fail("%s", s)
		}
		if f.get(func() string { return fmt.Sprint(f.local) }) == "true" {
			fail("the node is to keep what may belong to another")
		}
		conn, err := drain(env)
		if err != nil {
			fail("%s", err)
		}
		defer conn.Close()
		from := time.Now()
		wait := 1500 * time.Millisecond
		if idle == 300*time.Millisecond {
			wait = 20 * time.Second
		}
		conn.SetReadDeadline(from.Add(wait))
		_, err = conn.Read(make([]byte, 1))
		ended := err != nil && !os.IsTimeout(err)
		if took := time.Since(from); ended != (idle == 300*time.Millisecond) || ended && took < idle-50*time.Millisecond {
			fail("an idle connection ends: %v, after %s (%v)", ended, took, err)
		}
		p.healthy(rt, env)
	})
}

// Broken: without what it needs no process goes on.
func TestC43_Broken(t *testing.T) {
	vh.Check(t, vh.N(30, 300), "a real process without each of its settings, and with a broken file or number; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		tmp, clean := tmpDir()
		defer clean()
		name := rapid.SampledFrom([]string{"log-cache", "scheduler", "nozzle", "syslog-server", "cf-auth-proxy"}).Draw(rt, "process")
		files := []string{"CA_PATH", "CERT_PATH", "KEY_PATH"}
		required := files
		var env vars
		numbers := []string{"HEALTH_PORT"}
		switch name {
		case "log-cache":
			env = mutual(tmp, "log-cache").with(vars{"ADDR": address()})
			required = append([]string{"ADDR"}, required...)
			numbers = append(numbers, "NODE_INDEX", "MAX_PER_SOURCE", "QUERY_TIMEOUT", "MEMORY_LIMIT_PERCENT")
		case "scheduler":
			env = mutual(tmp, "scheduler").with(vars{"NODE_ADDRS": address()})
			numbers = append(numbers, "INTERVAL", "COUNT", "REPLICATION_FACTOR")
		case "nozzle":
			env = nozzleVars(tmp, address(), address())
			files = append([]string{"LOGS_PROVIDER_CA_FILE_PATH", "LOGS_PROVIDER_CERT_FILE_PATH", "LOGS_PROVIDER_KEY_FILE_PATH"}, files...)
			required = append([]string{"LOG_CACHE_ADDR", "LOGS_PROVIDER_ADDR", "SHARD_ID", "SELECTORS"}, files...)
		case "syslog-server":
			env = syslogVars(tmp, address())
			files = append([]string{"SYSLOG_TLS_CERT_PATH", "SYSLOG_TLS_KEY_PATH"}, files...)
			required = append([]string{"LOG_CACHE_ADDR", "SYSLOG_PORT"}, files...)
			numbers = append(numbers, "SYSLOG_PORT", "SYSLOG_IDLE_TIMEOUT")
		case "cf-auth-proxy":
			pf := newPlatform(foreign)
			defer pf.stop()
			env = proxyVars(tmp, pf, "https://"+address())
			files = []string{"EXTERNAL_CERT", "EXTERNAL_KEY", "PROXY_CA_PATH", "CAPI_CA_PATH", "UAA_CA_PATH"}
			required = append([]string{"LOG_CACHE_GATEWAY_ADDR", "ADDR", "CAPI_ADDR", "CAPI_COMMON_NAME", "UAA_ADDR", "UAA_CLIENT_ID", "UAA_CLIENT_SECRET"}, files...)
			numbers = append(numbers, "TOKEN_PRUNING_INTERVAL", "CACHE_EXPIRATION_INTERVAL")
		}
		bs := breaks(rt, env, required, files)
		k := rapid.SampledFrom(numbers).Draw(rt, "setting")
		bs = append(bs, broken{"with garbage for " + k, env.with(vars{k: "what?"})})
		if name == "cf-auth-proxy" {
			bs = append(bs, broken{"with a security log that cannot be written", env.with(vars{"SECURITY_EVENT_LOG": tmp + "/no/such/directory/log"})})
		}
		c.NonTrivial(fmt.Sprintf("%s %s, %s, %s", name, bs[len(required)].what, bs[len(required)+1].what, bs[len(required)+2].what))
		c.Class(name)
		// One after another: they have their ports in common.
		for _, b := range bs {
			p := start(name, b.env)
			ended := p.ended(30 * time.Second)
			p.stop()
			if !ended {
				rt.Fatalf("%s %s goes on:\n%s", name, b.what, p.out.String())
			}
			if p.err == nil {
				p.skipIfTaken(rt)
				rt.Fatalf("%s %s ends without an error:\n%s", name, b.what, p.out.String())
			}
		}
	})
}
