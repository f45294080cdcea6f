package procs_test

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// unit is a process of the whole, which can be ended and started again.
type unit struct {
	name string
	env  vars
	p    *process
}

func (u *unit) start() { u.p = start(u.name, u.env) }

type whole struct {
	units  []*unit
	nodes  []string
	proxy  string
	syslog vars
	pf     *platform
	pr     *provider
	n      int64
	admin  string
}

func newWhole(tmp string) *whole {
	w := &whole{pf: newPlatform(foreign), pr: newProvider(foreign, "reverselogproxy")}
	w.nodes = []string{address(), address()}
	for i, a := range w.nodes {
		w.units = append(w.units, &unit{name: "log-cache", env: mutual(tmp, "log-cache").with(vars{
			"ADDR": a, "NODE_ADDRS": strings.Join(w.nodes, ","), "NODE_INDEX": fmt.Sprint(i), "MEMORY_LIMIT_PERCENT": "100"})})
	}
	w.units = append(w.units, &unit{name: "scheduler", env: mutual(tmp, "scheduler").with(vars{
		"NODE_ADDRS": strings.Join(w.nodes, ","), "INTERVAL": "200ms", "COUNT": "20"})})
	crt, key := outer.Issue([]string{"gateway"}).Write(tmp, "gateway")
	gw := "127.0.0.1:" + freePort()
	w.units = append(w.units, &unit{name: "gateway", env: mutual(tmp, "log-cache").with(vars{
		"ADDR": gw, "LOG_CACHE_ADDR": w.nodes[0], "PROXY_CERT_PATH": crt, "PROXY_KEY_PATH": key})})
	env := proxyVars(tmp, w.pf, "https://"+gw)
	w.proxy = "https://" + env["ADDR"]
	w.units = append(w.units, &unit{name: "cf-auth-proxy", env: env})
	env = nozzleVars(tmp, w.nodes[1], w.pr.addr)
	env["SELECTORS"] = "log,counter,gauge,timer,event"
	w.units = append(w.units, &unit{name: "nozzle", env: env})
	w.syslog = syslogVars(tmp, w.nodes[0])
	w.units = append(w.units, &unit{name: "syslog-server", env: w.syslog})
	for _, u := range w.units {
		u.start()
	}
	w.admin = w.pf.token("admin", true)
	return w
}

func (w *whole) stop() {
	for _, u := range w.units {
		u.p.stop()
	}
	w.pf.stop()
	w.pr.stop()
}

func (w *whole) log() string {
	var b strings.Builder
	for _, u := range w.units {
		l := strings.Split(u.p.out.String(), "\n")
		fmt.Fprintf(&b, "--- %s\n%s\n", u.name, strings.Join(l[max(0, len(l)-6):], "\n"))
	}
	return b.String()
}

// authed adds a token to requests.
type authed struct {
	c     *http.Client
	token string
}

func (a authed) Do(r *http.Request) (*http.Response, error) {
	r.Header.Set("Authorization", a.token)
	return a.c.Do(r)
}

var browserOnce sync.Once
var sharedBrowser *http.Client

func (w *whole) as(token string) *client.Client {
	browserOnce.Do(func() { sharedBrowser = browser() })
	return client.NewClient(w.proxy, client.WithHTTPClient(authed{sharedBrowser, token}))
}

// bySyslog sends logs to the syslog server.
func (w *whole) bySyslog(l []*loggregator_v2.Envelope) error {
	c, err := drain(w.syslog)
	if err != nil {
		return err
	}
	defer c.Close()
	for _, e := range l {
		if _, err := c.Write([]byte(frame(e.SourceId, vh.Payload(e), e.Timestamp))); err != nil {
			return err
		}
	}
	return c.CloseWrite()
}

func (w *whole) reads(id string, want []*loggregator_v2.Envelope) string {
	es, err := w.as(w.admin).Read(ctx(), id, time.Unix(0, 0), client.WithLimit(1000))
	if err != nil {
		return fmt.Sprintf("%s: %s", id, err)
	}
	if len(es) != len(want) {
		return fmt.Sprintf("%s: %d envelopes, want %d", id, len(es), len(want))
	}
	for i := range es {
		if a, b := vh.Str(es[i]), vh.Str(want[i]); a != b {
			return fmt.Sprintf("%s: %s, want %s", id, a, b)
		}
	}
	return ""
}

// settle waits until what is delivered arrives, wherever it belongs.
func (w *whole) settle() string {
	return until(40*time.Second, func() string {
		var ids []string
		var logs []*loggregator_v2.Envelope
		now := time.Now().UnixNano() / 1000 * 1000
		for k := 0; k < 24; k++ {
			id := fmt.Sprintf("probe-%d", atomic.AddInt64(&w.n, 1))
			ids = append(ids, id)
			logs = append(logs, vh.Log(id, now+int64(k)*1000, "probe"))
		}
		w.pr.out <- logs[:12]
		if err := w.bySyslog(logs[12:]); err != nil {
			return err.Error()
		}
		return until(3*time.Second, func() string {
			var lost []int
			for i, id := range ids {
				es, err := w.as(w.admin).Read(ctx(), id, time.Unix(0, 0))
				if err != nil {
					return err.Error()
				}
				if len(es) != 1 {
					lost = append(lost, i)
				}
			}
			if len(lost) > 0 {
				return fmt.Sprintf("of %d probes, half of them by syslog, these are lost: %v", len(ids), lost)
			}
			return ""
		})
	})
}

func TestC44_Whole(t *testing.T) {
	tmp, clean := tmpDir()
	defer clean()
	w := newWhole(tmp)
	defer func() { w.stop() }()
	ready := false
	vh.Check(t, vh.N(16, 250), "all processes together, one of which was ended and started again, or some of the sources are of others", func(rt *rapid.T, c *vh.Case) {
		restarted := ""
		if oneIn(rt, 3, "restart") {
			u := rapid.SampledFrom(w.units).Draw(rt, "unit")
			u.p.stop()
			time.Sleep(time.Duration(rapid.IntRange(0, 300).Draw(rt, "down ms")) * time.Millisecond)
			u.start()
			restarted = u.name
			ready = false
		}
		fail := func(format string, a ...interface{}) {
			rt.Helper()
			rt.Fatalf("restarted %q: %s\n%s", restarted, fmt.Sprintf(format, a...), w.log())
		}
		if !ready {
			if s := w.settle(); s != "" {
				for _, u := range w.units {
					if u.p.ended(0) && strings.Contains(u.p.out.String(), "address already in use") {
						vh.Harness("%s: port taken", u.name)
					}
				}
				fail("what is delivered does not arrive: %s", s)
			}
			ready = true
		}
		// some sources, some of which are the user's
		var ids, mine []string
		for k := rapid.IntRange(1, 5).Draw(rt, "sources"); k > 0; k-- {
			id := fmt.Sprintf("%s-%d", rapid.SampledFrom([]string{"app", "8f2e6a1c-70f7-4c3c-9b1f-0d5c2c8e1f00", "a.b"}).Draw(rt, "source"), atomic.AddInt64(&w.n, 1))
			ids = append(ids, id)
			if oneIn(rt, 2, "mine") {
				mine = append(mine, id)
			}
		}
		me := w.pf.token(fmt.Sprint("me", w.n), false, mine...)
		sent := map[string][]*loggregator_v2.Envelope{}
		totals := map[string]int{}
		byProvider, bySyslog := 0, 0
		at := time.Now().Add(-time.Minute).UnixNano() / 1000 * 1000
		for b := rapid.IntRange(1, 4).Draw(rt, "batches"); b > 0; b-- {
			var batch []*loggregator_v2.Envelope
			slog := oneIn(rt, 2, "by syslog")
			for k := rapid.IntRange(1, 12).Draw(rt, "envelopes"); k > 0; k-- {
				id := rapid.SampledFrom(ids).Draw(rt, "of")
				at += 1000 * int64(rapid.IntRange(1, 100).Draw(rt, "after"))
				var e *loggregator_v2.Envelope
				switch {
				case slog:
					e = vh.Log(id, at, rapid.StringMatching(`[a-z][a-zé/=" ]{0,20}[a-z]`).Draw(rt, "text"))
				case oneIn(rt, 4, "hits"):
					totals[id] += rapid.IntRange(0, 9).Draw(rt, "hits")
					e = &loggregator_v2.Envelope{SourceId: id, Timestamp: at, Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "hits", Total: uint64(totals[id])}}}
				default:
					e = vh.Env(rt, rapid.SampledFrom(vh.Types).Draw(rt, "type"), id, at)
				}
				batch = append(batch, e)
			}
			if slog {
				bySyslog++
				if err := w.bySyslog(batch); err != nil {
					fail("syslog: %s", err)
				}
			} else {
				byProvider++
				w.pr.out <- batch
			}
			for _, e := range batch {
				x := *e
				if slog {
					x.InstanceId = "3"
					x.Tags = map[string]string{"source_type": "APP"}
				}
				sent[e.SourceId] = append(sent[e.SourceId], &x)
			}
		}
		var got []string
		for _, id := range ids {
			if len(sent[id]) > 0 {
				got = append(got, id)
			}
		}
		c.ClassIf(restarted != "", "restarted "+restarted)
		c.ClassIf(bySyslog > 0, "by syslog")
		c.ClassIf(byProvider > 0, "by the provider")
		c.If(restarted != "" || len(mine) < len(ids), fmt.Sprint(restarted, len(ids), len(mine), byProvider, bySyslog, len(sent[ids[0]])))
		// an admin reads it all
		for _, id := range got {
			if s := until(15*time.Second, func() string { return w.reads(id, sent[id]) }); s != "" {
				fail("%s", s)
			}
		}
		// the user reads what is the user's
		isMine := map[string]bool{}
		for _, id := range mine {
			isMine[id] = true
		}
		for _, id := range got {
			es, err := w.as(me).Read(ctx(), id, time.Unix(0, 0), client.WithLimit(1000))
			if !isMine[id] {
				if err == nil || len(es) > 0 {
					fail("a user reads %d envelopes of another's %s", len(es), id)
				}
				continue
			}
			if err != nil || len(es) != len(sent[id]) {
				fail("the user of %s reads %d envelopes, %v, want %d", id, len(es), err, len(sent[id]))
			}
			// and a part of it
			var types []logcache_v1.EnvelopeType
			typ := rapid.SampledFrom(vh.Types).Draw(rt, "type")
			types = append(types, vh.EnvelopeType[typ])
			es, err = w.as(me).Read(ctx(), id, time.Unix(0, 0), client.WithEnvelopeTypes(types...), client.WithDescending())
			if err != nil {
				fail("%s of %s: %s", typ, id, err)
			}
			var want []*loggregator_v2.Envelope
			for i := len(sent[id]) - 1; i >= 0; i-- {
				if vh.TypeOf(sent[id][i]) == typ {
					want = append(want, sent[id][i])
				}
			}
			if a, b := vh.Brief(es), vh.Brief(want); a != b {
				fail("%s of %s: %s, want %s", typ, id, a, b)
			}
		}
		// the meta says the same
		var seen []string
		s := until(8*time.Second, func() string {
			m, err := w.as(me).Meta(ctx())
			if err != nil {
				return "meta: " + err.Error()
			}
			seen = nil
			for id, i := range m {
				seen = append(seen, id)
				if i.Count != int64(len(sent[id])) {
					return fmt.Sprintf("meta of %s is %s, want %d", id, vh.Str(i), len(sent[id]))
				}
			}
			sort.Strings(seen)
			var want []string
			for _, id := range got {
				if isMine[id] {
					want = append(want, id)
				}
			}
			sort.Strings(want)
			if fmt.Sprint(seen) != fmt.Sprint(want) {
				return fmt.Sprintf("the user's meta has %v, want %v", seen, want)
			}
			return ""
		})
		if s != "" {
			fail("%s", s)
		}
		// queries too, by source and by name
		for id := range totals {
			q := id
			if oneIn(rt, 2, "by name") {
				q = "name-" + id
			}
			r, err := w.as(me).PromQL(ctx(), fmt.Sprintf("hits{source_id=%q}", q))
			if !isMine[id] {
				if err == nil {
					fail("a user's query for another's %s gives %s", q, vh.Str(r))
				}
				continue
			}
			if err != nil {
				fail("query for %s: %s", q, err)
			}
			v := r.GetVector().GetSamples()
			if len(v) != 1 || v[0].GetPoint().GetValue() != float64(totals[id]) || v[0].Metric["source_id"] != id {
				fail("query for %s: %s, want %d", q, vh.Str(r), totals[id])
			}
		}
		w.pf.mu.Lock()
		bad := w.pf.bad
		w.pf.mu.Unlock()
		if bad != "" {
			fail("%s", bad)
		}
	})
}
