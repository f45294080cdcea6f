package syslog_test

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/metrics/testhelpers"
	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/syslog"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
)

// cache is the cache that the server writes to.
type cache struct {
	mu    sync.Mutex
	got   map[string][]*loggregator_v2.Envelope
	fails map[string]bool
	holds map[string]chan struct{}
	odd   []string
}

func (c *cache) Send(ctx context.Context, r *logcache_v1.SendRequest, _ ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	// what it holds when it is sent, and not what it holds later
	b, err := proto.Marshal(r)
	if err != nil {
		c.mu.Lock()
		c.odd = append(c.odd, err.Error())
		c.mu.Unlock()
		return nil, err
	}
	var own logcache_v1.SendRequest
	vh.Must(proto.Unmarshal(b, &own))
	for _, e := range own.GetEnvelopes().GetBatch() {
		c.mu.Lock()
		h := c.holds[e.SourceId]
		c.mu.Unlock()
		if h != nil {
			<-h
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, e := range own.GetEnvelopes().GetBatch() {
		if c.fails[string(e.SourceId)] {
			return nil, errors.New("the cache fails")
		}
		c.got[e.SourceId] = append(c.got[e.SourceId], e)
	}
	return &logcache_v1.SendResponse{}, nil
}

var (
	dir       string
	cert, key string
	ca        *vh.CA
	quiet     = log.New(io.Discard, "", 0)
)

func TestMain(m *testing.M) {
	var err error
	dir, err = os.MkdirTemp("", "verif-syslog")
	vh.Must(err)
	ca = vh.NewCA("syslog")
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	vh.Must(err)
	cert, key = ca.IssueFor(&k.PublicKey, k, []string{"syslog"}).Write(dir, "server")
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

type server struct {
	*syslog.Server
	cache   *cache
	metrics *testhelpers.SpyMetricsRegistry
	addr    string
	ended   chan struct{}
}

func serve(opts ...syslog.ServerOption) *server {
	s := &server{cache: &cache{}, metrics: testhelpers.NewMetricsRegistry(), ended: make(chan struct{})}
	s.cache.reset()
	s.Server = syslog.NewServer(quiet, s.cache, s.metrics, cert, key, append(opts, syslog.WithServerPort(0))...)
	go func() {
		s.Start()
		close(s.ended)
	}()
	for i := 0; s.addr == ""; i++ {
		if i > 3000 {
			vh.Harness("the server does not start")
		}
		time.Sleep(10 * time.Millisecond)
		if a := s.Addr(); a != "" {
			_, p, err := net.SplitHostPort(a)
			vh.Must(err)
			s.addr = "127.0.0.1:" + p
		}
	}
	return s
}

func (c *cache) reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got, c.fails, c.holds, c.odd = map[string][]*loggregator_v2.Envelope{}, map[string]bool{}, map[string]chan struct{}{}, nil
}

func (c *cache) of(id string) []*loggregator_v2.Envelope {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*loggregator_v2.Envelope{}, c.got[id]...)
}

func (s *server) count(name string) int { return int(s.metrics.GetMetric(name, nil).Value()) }

func conf() *tls.Config { return &tls.Config{RootCAs: ca.Pool(), ServerName: "syslog"} }

func (s *server) dial(c *tls.Config) (*tls.Conn, error) {
	return tls.DialWithDialer(&net.Dialer{Timeout: 20 * time.Second}, "tcp", s.addr, c)
}

// closed reads until the server closes.
func closed(c net.Conn, d time.Duration) error {
	c.SetReadDeadline(time.Now().Add(d))
	n, err := c.Read(make([]byte, 1))
	if n > 0 {
		return errors.New("the server answers")
	}
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		return errors.New("the server does not close")
	}
	return nil
}

// message is one frame of a stream.
type message struct {
	text string
	// env is what it describes, unless it is invalid
	env     *loggregator_v2.Envelope
	invalid bool
}

func (m message) frame() string { return fmt.Sprintf("%d %s", len(m.text), m.text) }

func oneIn(rt *rapid.T, n int, l string) bool { return rapid.IntRange(0, n-1).Draw(rt, l) == n-1 }

// param escapes a value.
func param(v string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `]`, `\]`).Replace(v)
}

var (
	names  = rapid.OneOf(rapid.SampledFrom([]string{"cpu", "requests", "http.latency", "a b", `q"uote`, `back\slash`, "br]acket", "[x]", "naïve", "=", "日本", " lead", "trail ", "two\nlines", "UPPER lower"}), rapid.StringMatching(`[a-zA-Z0-9_.\-/]{1,20}`))
	tokens = rapid.StringMatching(`[!-,./-~]{1,12}`) // no dash, which is nothing
	texts  = rapid.OneOf(rapid.SampledFrom([]string{"x", "just a test", "  both sides\t\n", "two\nlines\n", "\n", " ", "[counter@47450 name=\"x\"]", "- - -", "12 <14>1 - -", "ünïcode ☃", "\xef\xbb\xbfmarked", "nul\x00in"}), rapid.StringMatching(`[ -~\n\t]{0,80}`), rapid.String())
)

// other is what a well-formed number is not.
var noInt = []string{"", "x", "1.5", "0x10", "1e3", " 1", "18446744073709551616", "--1"}

// describe makes a message of a source, with the envelope that it describes.
func describe(rt *rapid.T, app string) message {
	var m message
	env := &loggregator_v2.Envelope{SourceId: app}
	pri := rapid.OneOf(rapid.SampledFrom([]int{14, 11, 11, 0, 191, 3, 110}), rapid.IntRange(0, 191)).Draw(rt, "priority")
	// times that a envelope can hold
	at := time.Unix(rapid.Int64Range(-2208988800, 7258118400).Draw(rt, "s"), 1000*rapid.Int64Range(0, 999999).Draw(rt, "µs"))
	at = at.In(time.FixedZone("", 60*rapid.OneOf(rapid.Just(0), rapid.IntRange(-12*60, 14*60)).Draw(rt, "zone")))
	env.Timestamp = at.UnixNano()
	ts := at.Format("2006-01-02T15:04:05.000000Z07:00")
	if oneIn(rt, 4, "short time") {
		ts = at.Format("2006-01-02T15:04:05.999999-07:00")
	}
	var proc string
	typ := rapid.SampledFrom([]string{"APP", "RTR", "STG", "app", "X-Y", "2"}).Draw(rt, "type")
	switch rapid.IntRange(0, 3).Draw(rt, "proc") {
	case 0:
		env.InstanceId = rapid.SampledFrom([]string{"0", "1", "42", "f3a-b"}).Draw(rt, "instance")
		proc = fmt.Sprintf("[%s/%s]", typ, env.InstanceId)
	case 1:
		env.InstanceId = rapid.SampledFrom([]string{"0", "1", "42"}).Draw(rt, "instance")
		proc = fmt.Sprintf("[%s/PROC/WEB/%s]", typ, env.InstanceId)
	case 2:
		env.InstanceId = typ
		proc = fmt.Sprintf("[%s]", typ)
	default:
		env.InstanceId = typ
		proc = typ
	}
	host, id := "-", "-"
	if rapid.Bool().Draw(rt, "host") {
		host = tokens.Draw(rt, "host")
	}
	if oneIn(rt, 3, "id") {
		id = tokens.Draw(rt, "id")
	}
	sd, text := "-", ""
	has := !oneIn(rt, 6, "no text")
	if has {
		text = texts.Draw(rt, "text")
	}
	// params in any order, some of them wrong
	type kv struct{ k, v string }
	element := func(kind string, ps ...kv) {
		if oneIn(rt, 4, "more") {
			ps = append(ps, kv{"extra", names.Draw(rt, "extra")})
		}
		for i := len(ps) - 1; i > 0; i-- {
			j := rapid.IntRange(0, i).Draw(rt, "order")
			ps[i], ps[j] = ps[j], ps[i]
		}
		sd = "[" + kind + "@47450"
		for _, p := range ps {
			sd += fmt.Sprintf(` %s="%s"`, p.k, param(p.v))
		}
		sd += "]"
	}
	// number is a number's text, or some other text
	number := func(ok string) string {
		if oneIn(rt, 12, "bad") {
			m.invalid = true
			return rapid.SampledFrom(noInt).Draw(rt, "bad")
		}
		return ok
	}
	// without leaves one param out, which makes the message invalid
	without := func(ps []kv, from int) []kv {
		if oneIn(rt, 12, "without") {
			i := rapid.IntRange(from, len(ps)-1).Draw(rt, "which")
			m.invalid = true
			return append(append([]kv{}, ps[:i]...), ps[i+1:]...)
		}
		return ps
	}
	big := rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 99, math.MaxUint64}), rapid.Uint64())
	signed := rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64}), rapid.Int64())
	switch kind := rapid.SampledFrom([]string{"log", "log", "counter", "gauge", "timer", "event", "other"}).Draw(rt, "kind"); kind {
	case "log":
		t := loggregator_v2.Log_OUT
		if pri == 11 {
			t = loggregator_v2.Log_ERR
		}
		env.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(strings.TrimSpace(text)), Type: t}}
		st := strings.Split(strings.Trim(proc, "[]"), "/")[0]
		env.Tags = map[string]string{"source_type": st}
	case "counter":
		c := &loggregator_v2.Counter{Name: names.Draw(rt, "name"), Delta: big.Draw(rt, "delta"), Total: big.Draw(rt, "total")}
		env.Message = &loggregator_v2.Envelope_Counter{Counter: c}
		element(kind, without([]kv{{"name", c.Name}, {"delta", number(fmt.Sprint(c.Delta))}, {"total", number(fmt.Sprint(c.Total))}}, 1)...)
	case "gauge":
		n := names.Draw(rt, "name")
		v := rapid.OneOf(rapid.SampledFrom([]float64{0, -1, 0.23, 1e300, math.SmallestNonzeroFloat64}), rapid.Float64()).Draw(rt, "value")
		u := rapid.OneOf(rapid.SampledFrom([]string{"", "percentage"}), names).Draw(rt, "unit")
		env.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: map[string]*loggregator_v2.GaugeValue{n: {Unit: u, Value: v}}}}
		t := strconv.FormatFloat(v, rapid.SampledFrom([]byte("gef")).Draw(rt, "format"), -1, 64)
		if oneIn(rt, 12, "bad") {
			m.invalid = true
			t = rapid.SampledFrom([]string{"", "x", "1,5", " 1", "1e999"}).Draw(rt, "bad")
		}
		element(kind, without([]kv{{"name", n}, {"unit", u}, {"value", t}}, 1)...)
	case "timer":
		t := &loggregator_v2.Timer{Name: names.Draw(rt, "name"), Start: signed.Draw(rt, "start"), Stop: signed.Draw(rt, "stop")}
		env.Message = &loggregator_v2.Envelope_Timer{Timer: t}
		element(kind, without([]kv{{"name", t.Name}, {"start", number(fmt.Sprint(t.Start))}, {"stop", number(fmt.Sprint(t.Stop))}}, 1)...)
	case "event":
		e := &loggregator_v2.Event{Title: names.Draw(rt, "title"), Body: names.Draw(rt, "body")}
		env.Message = &loggregator_v2.Envelope_Event{Event: e}
		element(kind, kv{"title", e.Title}, kv{"body", e.Body})
	default:
		m.invalid = true
		element(rapid.SampledFrom([]string{"log", "metric", "Counter", "x"}).Draw(rt, "other"), kv{"name", "x"})
	}
	// fields that are nil
	if oneIn(rt, 10, "nil") {
		m.invalid = true
		switch rapid.IntRange(0, 2).Draw(rt, "nil field") {
		case 0:
			app = "-"
		case 1:
			proc = "-"
		default:
			ts = "-"
		}
	}
	m.text = fmt.Sprintf("<%d>1 %s %s %s %s %s %s", pri, ts, host, app, proc, id, sd)
	if has {
		m.text += " " + text
	}
	if !m.invalid {
		m.env = env
	}
	return m
}

// ending is how a stream goes on after its messages.
func ending(rt *rapid.T) (string, string) {
	good := "<14>1 1970-01-01T00:00:00.012345+00:00 h never p - - text"
	kind := rapid.SampledFrom([]string{"none", "none", "none", "cut", "garbage", "no message", "long", "huge", "zero", "bytes", "split"}).Draw(rt, "ending")
	switch kind {
	case "cut":
		f := message{text: good}.frame()
		return kind, f[:rapid.IntRange(1, len(f)-1).Draw(rt, "cut")]
	case "garbage":
		return kind, rapid.SampledFrom([]string{"GET / HTTP/1.1\r\n\r\n", "x", " ", "<14>1 - - - - - -", "\x00", "-5 <14>1"}).Draw(rt, "garbage")
	case "no message":
		return kind, message{text: rapid.SampledFrom([]string{"<999>1 - h never p - - x", "<14>0 - h never p - - x", "<14>1 yesterday h never p - - x", "<14>1 - h never p -", "<14>1 - h never p - [x", "<", "<14>1 - h never p - [x a=\"]\"] x",
			"<14>1 2015-02-30T00:00:00Z h never p - - x"}).Draw(rt, "text")}.frame()
	case "long":
		return kind, message{text: good + strings.Repeat("x", rapid.IntRange(8200, 20000).Draw(rt, "length"))}.frame()
	case "huge":
		return kind, rapid.SampledFrom([]string{"99999999", "9223372036854775808", "18446744073709551615", "184467440737095516160"}).Draw(rt, "length") + " " + good
	case "zero":
		return kind, "0 " + good
	case "split":
		// the length is of less than the message
		return kind, fmt.Sprintf("%d %s", len(good)-4, strings.Replace(good, "never", "cut-x", 1)) + "<"
	case "bytes":
		return kind, string(rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "bytes"))
	}
	return kind, ""
}

var shared = sync.OnceValue(func() *server { return serve() })

func same(got []*loggregator_v2.Envelope, want []message) string {
	var w []*loggregator_v2.Envelope
	for _, m := range want {
		if m.env != nil {
			w = append(w, m.env)
		}
	}
	for i := 0; i < len(got) || i < len(w); i++ {
		if i >= len(got) {
			return fmt.Sprintf("missing %s", vh.Str(w[i]))
		}
		if i >= len(w) {
			return fmt.Sprintf("more: %s", vh.Str(got[i]))
		}
		if !proto.Equal(got[i], w[i]) {
			return fmt.Sprintf("%s, want %s", vh.Str(got[i]), vh.Str(w[i]))
		}
	}
	return ""
}

func TestC30_Messages(t *testing.T) {
	s := shared()
	vh.Check(t, vh.N(400, 12000), "some message is invalid or a connection ends badly, and others are to be served", func(rt *rapid.T, c *vh.Case) {
		s.cache.reset()
		ingress, invalid := s.count("ingress"), s.count("invalid_ingress")
		type stream struct {
			app    string
			msgs   []message
			ending string
			all    string
			fails  bool
			abrupt bool
			writes []int
			err    error
		}
		var l []*stream
		bad, most := 0, 0
		wantIn := 0
		seen := map[string]bool{}
		var classes []string
		for n := rapid.IntRange(1, 4).Draw(rt, "connections"); n > 0; n-- {
			st := &stream{app: fmt.Sprintf("%s-%d", rapid.StringMatching(`[a-zA-Z0-9.:_\[\]\-/@"]{1,36}`).Draw(rt, "app"), n)}
			for k := rapid.IntRange(0, 5).Draw(rt, "messages"); k > 0; k-- {
				m := describe(rt, st.app)
				st.msgs = append(st.msgs, m)
				st.all += m.frame()
				if m.invalid {
					bad++
					seen["invalid"] = true
				}
			}
			var rest string
			st.ending, rest = ending(rt)
			st.all += rest
			// the parser takes a zero byte for the end
			if st.ending != "none" && rest[0] != 0 {
				bad++
			} else if st.ending != "none" || len(st.msgs) == 0 {
				most++
			}
			classes = append(classes, st.ending)
			st.fails = oneIn(rt, 8, "the cache fails")
			s.cache.mu.Lock()
			s.cache.fails[st.app] = st.fails
			s.cache.mu.Unlock()
			for _, m := range st.msgs {
				if m.env != nil && !st.fails {
					wantIn++
				}
			}
			for k := rapid.IntRange(0, 4).Draw(rt, "writes"); k > 0 && len(st.all) > 1; k-- {
				st.writes = append(st.writes, rapid.IntRange(1, len(st.all)-1).Draw(rt, "at"))
			}
			sort.Ints(st.writes)
			st.writes = append(st.writes, len(st.all))
			l = append(l, st)
		}
		// a connection that says nothing, and one whose message is being sent,
		// hold up nobody
		if oneIn(rt, 5, "silent") {
			n, err := net.Dial("tcp", s.addr)
			vh.Must(err)
			defer func() {
				n.(*net.TCPConn).CloseWrite()
				closed(n, 60*time.Second)
				n.Close()
			}()
			c.Class("silent")
		}
		if oneIn(rt, 5, "held") {
			h := make(chan struct{})
			s.cache.mu.Lock()
			s.cache.holds["held"] = h
			s.cache.mu.Unlock()
			n, err := s.dial(conf())
			if err != nil {
				rt.Fatalf("no connection: %s", err)
			}
			io.WriteString(n, message{text: "<14>1 1970-01-01T00:00:00Z h held p - - text"}.frame())
			defer func() {
				before := s.count("ingress")
				close(h)
				n.CloseWrite()
				closed(n, 30*time.Second)
				n.Close()
				if len(s.cache.of("held")) != 1 || s.count("ingress") != before+1 {
					rt.Fatalf("the message that was held did not arrive")
				}
			}()
			c.Class("held")
		}
		var wg sync.WaitGroup
		for _, st := range l {
			st := st
			wg.Add(1)
			go func() {
				defer wg.Done()
				n, err := s.dial(conf())
				if err != nil {
					st.err = err
					return
				}
				defer n.Close()
				from := 0
				for _, to := range st.writes {
					// it may have been closed by now
					io.WriteString(n, st.all[from:to])
					from = to
				}
				n.CloseWrite()
				st.err = closed(n, 60*time.Second)
			}()
		}
		wg.Wait()
		for _, st := range l {
			if st.err != nil {
				rt.Fatalf("%q: %s", st.all, st.err)
			}
			got := s.cache.of(st.app)
			want := st.msgs
			if st.fails {
				want = nil
			}
			if d := same(got, want); d != "" {
				rt.Fatalf("%q makes %s", st.all, d)
			}
			// where a message's length is not its own, what is left may be one
			for _, m := range s.cache.of("never") {
				rt.Fatalf("%q makes %s", st.all, vh.Str(m))
			}
		}
		cut := len(s.cache.of("cut-x"))
		if n := s.count("ingress") - ingress - cut; n != wantIn {
			rt.Fatalf("%d messages counted, want %d", n, wantIn)
		}
		if n := s.count("invalid_ingress") - invalid; n < bad || n > bad+most {
			rt.Fatalf("%d messages counted as invalid, want %d, and at most %d for empty connections", n, bad, most)
		}
		s.cache.mu.Lock()
		odd := s.cache.odd
		s.cache.mu.Unlock()
		if len(odd) > 0 {
			rt.Fatalf("%v", odd)
		}
		// it still serves
		m := describe(rt, "after")
		n, err := s.dial(conf())
		if err != nil {
			rt.Fatalf("the server is gone: %s", err)
		}
		io.WriteString(n, m.frame())
		n.CloseWrite()
		err = closed(n, 60*time.Second)
		n.Close()
		if d := same(s.cache.of("after"), []message{m}); err != nil || d != "" {
			rt.Fatalf("%q makes %s, %v", m.text, d, err)
		}
		for _, k := range classes {
			c.Class(k)
		}
		c.If(bad > 0 && len(l)+bad > 1, l[0].all)
	})
}

func TestC30_Idle(t *testing.T) {
	const idle = time.Second
	s := serve(syslog.WithIdleTimeout(idle))
	defer func() {
		s.Stop()
		select {
		case <-s.ended:
		case <-time.After(30 * time.Second):
			t.Errorf("the server goes on after it was stopped")
			return
		}
		if n, err := net.Dial("tcp", s.addr); err == nil {
			n.Close()
			t.Errorf("the server listens after it was stopped")
		}
	}()
	vh.Check(t, vh.N(4, 40), "connections that bring no whole message, or no more; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		s.cache.reset()
		type line struct {
			msgs   []message
			gaps   []time.Duration
			then   string
			result string
		}
		var l []*line
		for i := 0; i < 12; i++ {
			x := &line{then: rapid.SampledFrom([]string{"nothing", "bytes", "part", "no handshake"}).Draw(rt, "then")}
			if x.then != "no handshake" {
				for n := rapid.IntRange(0, 5).Draw(rt, "messages"); n > 0; n-- {
					x.msgs = append(x.msgs, describe(rt, fmt.Sprintf("idle-%d", i)))
					x.gaps = append(x.gaps, time.Duration(rapid.IntRange(0, 500).Draw(rt, "gap"))*time.Millisecond)
				}
			}
			l = append(l, x)
		}
		var wg sync.WaitGroup
		for i, x := range l {
			i, x := i, x
			wg.Add(1)
			go func() {
				defer wg.Done()
				begin := time.Now()
				var n net.Conn
				if x.then == "no handshake" {
					var err error
					n, err = net.Dial("tcp", s.addr)
					vh.Must(err)
				} else {
					tc, err := s.dial(conf())
					if err != nil {
						x.result = err.Error()
						return
					}
					n = tc
				}
				defer n.Close()
				last := begin
				late := false
				for k, m := range x.msgs {
					time.Sleep(x.gaps[k])
					now := time.Now()
					// a machine that stands still for a while is no idle client
					late = late || now.Sub(last) > idle*8/10
					last = now
					io.WriteString(n, m.frame())
				}
				stop := make(chan struct{})
				switch x.then {
				case "bytes":
					go func() {
						for _, b := range strings.Repeat("1", 100) {
							select {
							case <-stop:
								return
							case <-time.After(100 * time.Millisecond):
								fmt.Fprint(n, string(b))
							}
						}
					}()
				case "part":
					io.WriteString(n, "90 <14>1 1970-01-01T00:00:00Z h ")
				}
				err := closed(n, 20*time.Second)
				end := time.Now()
				close(stop)
				switch {
				case err != nil:
					x.result = err.Error()
				case !late && end.Sub(last) < idle-time.Millisecond:
					x.result = fmt.Sprintf("closed %s after the last message", end.Sub(last))
				case !late && len(x.msgs) > 0:
					x.result = same(s.cache.of(fmt.Sprintf("idle-%d", i)), x.msgs)
				}
				if x.result != "" {
					x.result = fmt.Sprintf("%d messages %v apart, then %s: %s", len(x.msgs), x.gaps, x.then, x.result)
				}
			}()
		}
		wg.Wait()
		for _, x := range l {
			if x.result != "" {
				rt.Fatalf("%s", x.result)
			}
			c.Class(x.then)
		}
		c.NonTrivial(fmt.Sprint(l[0].gaps, l[0].then, l[1].gaps, l[1].then))
	})
}

func TestC30_Clients(t *testing.T) {
	s := shared()
	good := []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384}
	weak := []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA, tls.TLS_RSA_WITH_AES_256_CBC_SHA,
		tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA}
	versions := []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12}
	vh.Check(t, vh.N(150, 4000), "the client is to be refused", func(rt *rapid.T, c *vh.Case) {
		s.cache.reset()
		m := message{text: "<14>1 1970-01-01T00:00:00Z h offers p - - text"}
		if oneIn(rt, 6, "plain") {
			n, err := net.Dial("tcp", s.addr)
			vh.Must(err)
			io.WriteString(n, m.frame())
			n.(*net.TCPConn).CloseWrite()
			io.Copy(io.Discard, n)
			n.Close()
			if len(s.cache.of("offers")) > 0 {
				rt.Fatalf("a message without TLS is taken")
			}
			c.NonTrivial("plain")
			return
		}
		i := rapid.IntRange(0, 2).Draw(rt, "min")
		o := conf()
		o.MinVersion, o.MaxVersion = versions[i], versions[rapid.IntRange(i, 2).Draw(rt, "max")]
		has := false
		for _, x := range append(append([]uint16{}, good...), weak...) {
			if oneIn(rt, 3, "suite") {
				o.CipherSuites = append(o.CipherSuites, x)
				has = has || x == good[0] || x == good[1]
			}
		}
		if len(o.CipherSuites) == 0 {
			o.CipherSuites, has = good, true
		}
		want := o.MaxVersion == tls.VersionTLS12 && has
		n, err := s.dial(o)
		if err == nil {
			io.WriteString(n, m.frame())
			n.CloseWrite()
			closed(n, 30*time.Second)
			n.Close()
		}
		if ok := len(s.cache.of("offers")) == 1; ok != want || (err == nil) != want {
			rt.Fatalf("a client that offers %x to %x, %x: %v, taken %v, want %v", o.MinVersion, o.MaxVersion, o.CipherSuites, err, ok, want)
		}
		c.If(!want, fmt.Sprintf("%x %x", o.MaxVersion, o.CipherSuites))
	})
}
