package auth_test

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/internal/cfauthproxy"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// stand is a gateway that answers as it is told and records what it is asked,
// behind connections that are made as it is told.
type stand struct {
	mu     sync.Mutex
	kind   string
	conf   *tls.Config
	seen   []seen
	answer func(http.ResponseWriter, *http.Request)
	conns  chan net.Conn
	lis    net.Listener
}

type seen struct {
	method, target string
	header         http.Header
	body           []byte
}

func (s *stand) Accept() (net.Conn, error) { return <-s.conns, nil }
func (s *stand) Close() error              { return nil }
func (s *stand) Addr() net.Addr            { return s.lis.Addr() }

func (s *stand) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, err := io.ReadAll(r.Body)
	if err != nil {
		b = append(b, " and "+err.Error()...)
	}
	s.mu.Lock()
	s.seen = append(s.seen, seen{r.Method, r.RequestURI, r.Header.Clone(), b})
	answer := s.answer
	s.mu.Unlock()
	if answer != nil {
		answer(w, r)
	}
}

func (s *stand) accept() {
	for {
		c, err := s.lis.Accept()
		vh.Must(err)
		s.mu.Lock()
		kind, conf := s.kind, s.conf
		s.mu.Unlock()
		switch kind {
		case "plain":
			s.conns <- c
		case "closes":
			c.Close()
		case "garbage":
			go func() {
				c.Write([]byte("\x16\x03\x01\x00\x02hi HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"))
				io.Copy(io.Discard, c)
				c.Close()
			}()
		default:
			go func() {
				t := tls.Server(c, conf)
				t.SetDeadline(time.Now().Add(30 * time.Second))
				if t.Handshake() == nil {
					t.SetDeadline(time.Time{})
					s.conns <- t
				} else {
					c.Close()
				}
			}()
		}
	}
}

func newStand(keep bool) *stand {
	s := &stand{conns: make(chan net.Conn)}
	var err error
	s.lis, err = net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s.conf = &tls.Config{Certificates: []tls.Certificate{ca.Issue([]string{"gateway"}).TLS()}}
	go s.accept()
	srv := &http.Server{Handler: s}
	srv.SetKeepAlivesEnabled(keep)
	go srv.Serve(s)
	return s
}

// set makes ready for a case.
func (s *stand) set(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.kind, s.seen, s.answer = "", nil, nil
	f()
}

func (s *stand) saw() []seen {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]seen{}, s.seen...)
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) take() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	l.b.Reset()
	return s
}

var (
	standOnce        sync.Once
	gw, gwTrust      *stand
	elsewhere        *stand
	passAddr, trAddr string
	accessed         lockedBuffer
)

// proxies starts one proxy to a gateway that keeps connections, and one to a
// gateway that does not, and a server that is none of their business.
func proxies() {
	standOnce.Do(func() {
		key, err := rsa.GenerateKey(rand.Reader, 2048)
		vh.Must(err)
		cert, keyPath := ca.IssueFor(&key.PublicKey, key, []string{"proxy", "localhost"}).Write(dir, "proxy")
		start := func(s *stand) string {
			p := cfauthproxy.NewCFAuthProxy("https://"+s.lis.Addr().String(), "127.0.0.1:0", cert, keyPath, ca.Pool(),
				cfauthproxy.WithAuthMiddleware(func(h http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						if r.Header.Get("X-Refuse") != "" {
							w.WriteHeader(404)
							return
						}
						h.ServeHTTP(w, r)
					})
				}),
				cfauthproxy.WithAccessMiddleware(auth.NewAccessMiddleware(auth.NewAccessLogger(&accessed), "10.0.0.1", "8083")))
			p.Start()
			return p.Addr()
		}
		gw, gwTrust, elsewhere = newStand(true), newStand(false), newStand(true)
		elsewhere.kind = "plain"
		passAddr, trAddr = start(gw), start(gwTrust)
	})
}

func clientConf() *tls.Config { return &tls.Config{RootCAs: ca.Pool(), ServerName: "proxy"} }

// exchange sends raw bytes and gives the answer and its body.
func exchange(addr string, conf *tls.Config, raw, method string) (*http.Response, []byte, string, error) {
	var c net.Conn
	var err error
	if conf == nil {
		c, err = net.Dial("tcp", addr)
	} else {
		c, err = tls.Dial("tcp", addr, conf)
	}
	if err != nil {
		return nil, nil, "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(150 * time.Second))
	go io.WriteString(c, raw)
	resp, err := http.ReadResponse(bufio.NewReaderSize(c, 4096), &http.Request{Method: method})
	if err != nil {
		return nil, nil, c.LocalAddr().String(), err
	}
	b, err := io.ReadAll(resp.Body)
	return resp, b, c.LocalAddr().String(), err
}

func genBody(rt *rapid.T) []byte {
	n := rapid.SampledFrom([]int{0, 1, 10, 500, 5000, 70000}).Draw(rt, "length")
	seed := byte(rapid.IntRange(0, 255).Draw(rt, "content"))
	b := make([]byte, n)
	for i := range b {
		seed = seed*109 + 89
		b[i] = seed
	}
	return b
}

func genHeaders(rt *rapid.T, names []string) http.Header {
	h := http.Header{}
	for i := rapid.IntRange(0, 4).Draw(rt, "headers"); i > 0; i-- {
		n := rapid.SampledFrom(names).Draw(rt, "name")
		v := rapid.StringMatching(`[!-~]([ -~]{0,20}[!-~])?`).Draw(rt, "value")
		h.Add(n, v)
	}
	return h
}

func subset(want, got http.Header) error {
	for n, l := range want {
		if fmt.Sprintf("%q", l) != fmt.Sprintf("%q", got[http.CanonicalHeaderKey(n)]) {
			return fmt.Errorf("the header %s is %q, want %q", n, got[http.CanonicalHeaderKey(n)], l)
		}
	}
	return nil
}

func TestC40_Passes(t *testing.T) {
	proxies()
	vh.Check(t, vh.N(500, 15000), "the request is passed on and has a body, a query or an escaped path", func(rt *rapid.T, c *vh.Case) {
		method := rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "X-Y"}).Draw(rt, "method")
		target := "/" + strings.TrimLeft(rapid.StringMatching(`([a-z0-9._~/:@!$&'()*+,;=-]|%2F|%20|%3F|%25|%C3%A9|//|\.\./|%41){0,12}`).Draw(rt, "path"), "/")
		query := ""
		if rapid.Bool().Draw(rt, "query") {
			query = "?" + rapid.StringMatching(`([a-zA-Z0-9._~/:@!$&'()*+,;=?"<>|{}\\^`+"`"+`-]|%2F|%zz|%|&&|=){1,12}`).Draw(rt, "query text")
		}
		body := genBody(rt)
		given := genHeaders(rt, []string{"Authorization", "Cookie", "Accept", "X-Odd", "Content-Type", "X-Vcap-Request-ID", "If-None-Match", "Range"})
		refuse := oneIn(rt, 6, "refused")
		form := rapid.SampledFrom([]string{"", "", "", "http://", "https://"}).Draw(rt, "absolute")
		var raw strings.Builder
		host := "log-cache.example"
		line := target + query
		if form != "" {
			host = elsewhere.lis.Addr().String()
			line = form + host + line
		}
		if rapid.Bool().Draw(rt, "other host") {
			host = elsewhere.lis.Addr().String()
		}
		fmt.Fprintf(&raw, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n", method, line, host)
		for n, l := range given {
			for _, v := range l {
				fmt.Fprintf(&raw, "%s: %s\r\n", n, v)
			}
		}
		forwarded := "127.0.0.1"
		if rapid.Bool().Draw(rt, "forwarded") {
			raw.WriteString("X-Forwarded-For: 10.9.8.7\r\n")
			forwarded = "10.9.8.7, 127.0.0.1"
		}
		if refuse {
			raw.WriteString("X-Refuse: yes\r\n")
		}
		if method == "GET" || method == "HEAD" || method == "OPTIONS" {
			body = nil
		}
		switch {
		case len(body) == 0:
			if method == "POST" || method == "PUT" {
				raw.WriteString("Content-Length: 0\r\n")
			}
			raw.WriteString("\r\n")
		case rapid.Bool().Draw(rt, "chunked"):
			raw.WriteString("Transfer-Encoding: chunked\r\n\r\n")
			cut := rapid.IntRange(1, len(body)).Draw(rt, "cut")
			fmt.Fprintf(&raw, "%x\r\n%s\r\n", cut, body[:cut])
			if cut < len(body) {
				fmt.Fprintf(&raw, "%x\r\n%s\r\n", len(body)-cut, body[cut:])
			}
			raw.WriteString("0\r\n\r\n")
		default:
			fmt.Fprintf(&raw, "Content-Length: %d\r\n\r\n%s", len(body), body)
		}
		status := rapid.SampledFrom([]int{200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 404, 500, 503, 299, 599}).Draw(rt, "status")
		back := genHeaders(rt, []string{"X-Back", "Set-Cookie", "Location", "Content-Type", "Etag"})
		answer := genBody(rt)
		flush := rapid.Bool().Draw(rt, "flush")
		if status == 204 || status == 304 {
			answer = nil
			back.Del("Content-Type")
		}
		gw.set(func() {
			gw.answer = func(w http.ResponseWriter, r *http.Request) {
				for n, l := range back {
					w.Header()[n] = l
				}
				w.WriteHeader(status)
				for i := 0; i < len(answer); i += 1000 {
					w.Write(answer[i:min(i+1000, len(answer))])
					if flush && i%5000 == 0 {
						w.(http.Flusher).Flush()
					}
				}
			}
		})
		elsewhere.set(func() { elsewhere.kind = "plain" })
		accessed.take()
		what := fmt.Sprintf("%s %s with %q and %d bytes", method, line, given, len(body))
		from := time.Now()
		resp, got, local, err := exchange(passAddr, clientConf(), raw.String(), method)
		to := time.Now()
		if err != nil {
			rt.Fatalf("%s: %s", what, err)
		}
		if len(elsewhere.saw()) > 0 {
			rt.Fatalf("%s reached another server than the gateway", what)
		}
		_, port, _ := net.SplitHostPort(local)
		text := accessed.take()
		l, ok := oneLine(text)
		e, perr := parseCEF(html.UnescapeString(l))
		src, spt := "127.0.0.1", port
		if strings.Contains(forwarded, ",") {
			src, spt = "10.9.8.7", ""
		}
		if !ok || perr != nil || e.method != method || e.src != src || e.spt != spt || e.dst != "10.0.0.1" || e.dpt != "8083" || e.rt < from.UnixMilli() || e.rt > to.UnixMilli() ||
			!strings.HasPrefix(e.path, "/") || e.id != given.Get("X-Vcap-Request-ID") && !strings.ContainsAny(given.Get("X-Vcap-Request-ID"), "&<>'\"") {
			rt.Fatalf("%s from port %s was logged as %q: %v", what, port, text, perr)
		}
		if refuse {
			if resp.StatusCode != 404 || len(gw.saw()) != 0 {
				rt.Fatalf("the middleware refuses %s, but the status is %d and the gateway has %d requests", what, resp.StatusCode, len(gw.saw()))
			}
			c.Class("refused")
			return
		}
		all := gw.saw()
		if len(all) != 1 {
			rt.Fatalf("%s: the gateway got %d requests; status %d", what, len(all), resp.StatusCode)
		}
		s := all[0]
		switch {
		case s.method != method || s.target != target+query:
			rt.Fatalf("%s reached the gateway as %s %s", what, s.method, s.target)
		case !bytes.Equal(s.body, body):
			rt.Fatalf("%s reached the gateway with a body of %d bytes", what, len(s.body))
		case s.header.Get("X-Forwarded-For") != forwarded:
			rt.Fatalf("%s reached the gateway as forwarded for %q", what, s.header["X-Forwarded-For"])
		}
		if err := subset(given, s.header); err != nil {
			rt.Fatalf("%s reached the gateway, but %s", what, err)
		}
		if resp.StatusCode != status {
			rt.Fatalf("%s: status %d, want %d", what, resp.StatusCode, status)
		}
		if err := subset(back, resp.Header); err != nil {
			rt.Fatalf("the answer to %s: %s", what, err)
		}
		if method != "HEAD" && !bytes.Equal(got, answer) {
			rt.Fatalf("the answer to %s has %d bytes, want %d", what, len(got), len(answer))
		}
		c.If(len(body) > 0 || query != "" || strings.Contains(target, "%"), what)
		c.ClassIf(form != "", "absolute target")
	})
}

func TestC40_Trust(t *testing.T) {
	proxies()
	other := vh.NewCA("ca")
	vh.Check(t, vh.N(250, 6000), "the gateway is not to be trusted", func(rt *rapid.T, c *vh.Case) {
		kind := rapid.SampledFrom([]string{"good", "good", "other authority", "self-signed", "expired", "not yet valid", "other address", "name only", "for clients", "plain", "closes", "garbage"}).Draw(rt, "kind")
		var opts []vh.LeafOpt
		by := ca
		name := "gateway"
		switch kind {
		case "other authority":
			by = other
		case "self-signed":
			by = vh.NewCA("gateway")
		case "expired":
			ago := time.Duration(rapid.IntRange(1, 100000).Draw(rt, "ago")) * time.Second
			opts = append(opts, func(x *x509.Certificate) { x.NotAfter = time.Now().Add(-ago); x.NotBefore = x.NotAfter.Add(-time.Hour) })
		case "not yet valid":
			opts = append(opts, func(x *x509.Certificate) {
				x.NotBefore = time.Now().Add(time.Hour)
				x.NotAfter = x.NotBefore.Add(time.Hour)
			})
		case "other address":
			opts = append(opts, func(x *x509.Certificate) { x.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 2), net.IPv4(10, 0, 0, 1)} })
		case "name only":
			name = rapid.SampledFrom([]string{"gateway", "127.0.0.1", "*"}).Draw(rt, "name")
			opts = append(opts, func(x *x509.Certificate) { x.IPAddresses = nil })
		case "for clients":
			opts = append(opts, func(x *x509.Certificate) { x.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
		}
		cert := by.Issue([]string{name}, opts...).TLS()
		gwTrust.set(func() {
			gwTrust.kind = kind
			gwTrust.conf = &tls.Config{Certificates: []tls.Certificate{cert}}
			gwTrust.answer = func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "from the gateway") }
		})
		resp, b, _, err := exchange(trAddr, clientConf(), "GET /api/v1/read/secret HTTP/1.1\r\nHost: x\r\nAuthorization: bearer token\r\nConnection: close\r\n\r\n", "GET")
		if err != nil {
			rt.Fatalf("a gateway that is %s: %s", kind, err)
		}
		n := len(gwTrust.saw())
		if kind == "good" {
			if resp.StatusCode != 200 || string(b) != "from the gateway" || n != 1 {
				rt.Fatalf("a good gateway: status %d, %q, %d requests", resp.StatusCode, b, n)
			}
			return
		}
		c.NonTrivial(kind)
		c.Class(kind)
		if resp.StatusCode != 502 || n != 0 || strings.Contains(string(b), "gateway") {
			rt.Fatalf("a gateway that is %s: status %d, %q, %d requests", kind, resp.StatusCode, b, n)
		}
	})
}

func TestC40_Clients(t *testing.T) {
	proxies()
	type offer struct {
		min, max uint16
		suites   []uint16
	}
	good := []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384}
	weak := []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA, tls.TLS_RSA_WITH_AES_256_CBC_SHA,
		tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA}
	versions := []uint16{tls.VersionTLS10, tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}
	vh.Check(t, vh.N(250, 6000), "the client is to be refused", func(rt *rapid.T, c *vh.Case) {
		gw.set(func() {
			gw.answer = func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "from the gateway") }
		})
		raw := "GET /api/v1/read/secret HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"
		if oneIn(rt, 6, "plain") {
			resp, b, _, err := exchange(passAddr, nil, raw, "GET")
			if n := len(gw.saw()); n != 0 || err == nil && resp.StatusCode != 400 {
				rt.Fatalf("a request without TLS: %v, %q, %d requests at the gateway", resp, b, n)
			}
			c.NonTrivial("plain")
			return
		}
		var o offer
		i := rapid.IntRange(0, 3).Draw(rt, "min")
		o.min, o.max = versions[i], versions[rapid.IntRange(i, 3).Draw(rt, "max")]
		has := false
		if rapid.Bool().Draw(rt, "suites") {
			for _, s := range append(append([]uint16{}, good...), weak...) {
				if oneIn(rt, 3, "suite") {
					o.suites = append(o.suites, s)
					has = has || s == good[0] || s == good[1]
				}
			}
		}
		if len(o.suites) == 0 {
			has = true
		}
		conf := clientConf()
		conf.MinVersion, conf.MaxVersion, conf.CipherSuites = o.min, o.max, o.suites
		want := o.max == tls.VersionTLS13 || o.max == tls.VersionTLS12 && has
		resp, b, _, err := exchange(passAddr, conf, raw, "GET")
		ok := err == nil && resp.StatusCode == 200 && string(b) == "from the gateway"
		if ok != want || len(gw.saw()) != map[bool]int{true: 1, false: 0}[want] {
			rt.Fatalf("a client that offers %x: %v, want it served: %v; %d requests at the gateway", o, err, want, len(gw.saw()))
		}
		if ok && resp.TLS == nil {
			c.ClassIf(o.max == tls.VersionTLS12, "TLS 1.2")
		}
		c.If(!want, fmt.Sprintf("%x", o))
	})
}

// TestC40_Slow has many requests at once, of all lengths, whose answers take
// many seconds, before they begin or within.
func TestC40_Slow(t *testing.T) {
	proxies()
	vh.Check(t, vh.N(1, 4), "40 requests at once, some of whose answers take more than ten seconds", func(rt *rapid.T, c *vh.Case) {
		most := 13000
		if vh.Thorough() {
			most = 70000
		}
		gw.set(func() {
			gw.answer = func(w http.ResponseWriter, r *http.Request) {
				var before, within, n int
				fmt.Sscanf(r.Header.Get("X-Slow"), "%d %d %d", &before, &within, &n)
				time.Sleep(time.Duration(before) * time.Millisecond)
				fmt.Fprintf(w, "%s|", r.RequestURI)
				if within > 0 {
					w.(http.Flusher).Flush()
					time.Sleep(time.Duration(within) * time.Millisecond)
				}
				io.WriteString(w, strings.Repeat("x", n))
			}
		})
		type one struct {
			before, within, n int
			target, bad       string
		}
		var all []*one
		for i := 0; i < 40; i++ {
			o := &one{before: rapid.IntRange(0, most).Draw(rt, "before"), n: rapid.SampledFrom([]int{0, 10, 5000, 300000}).Draw(rt, "bytes")}
			if rapid.Bool().Draw(rt, "within") {
				o.within = rapid.IntRange(0, most-o.before).Draw(rt, "ms")
			}
			switch i {
			case 0:
				o.before, o.within = most, 0
			case 1:
				o.before, o.within = 100, most-100
			}
			o.target = fmt.Sprintf("/api/v1/query?n=%d&query=%s", i, strings.Repeat("a1-", rapid.SampledFrom([]int{0, 1, 1000, 5000, 60000}).Draw(rt, "length")))
			all = append(all, o)
		}
		from := time.Now()
		var wg sync.WaitGroup
		for _, o := range all {
			wg.Add(1)
			go func(o *one) {
				defer wg.Done()
				raw := fmt.Sprintf("GET %s HTTP/1.1\r\nHost: log-cache\r\nConnection: close\r\nX-Slow: %d %d %d\r\n", o.target, o.before, o.within, o.n)
				resp, got, _, err := exchange(passAddr, clientConf(), raw+"\r\n", "GET")
				took := time.Since(from)
				switch {
				case err != nil:
					o.bad = fmt.Sprintf("%s after %s", err, took)
				case resp.StatusCode != 200:
					o.bad = fmt.Sprintf("status %d after %s", resp.StatusCode, took)
				case string(got) != o.target+"|"+strings.Repeat("x", o.n):
					o.bad = fmt.Sprintf("an answer of %d bytes after %s", len(got), took)
				case took > time.Duration(o.before+o.within)*time.Millisecond+20*time.Second:
					o.bad = fmt.Sprintf("took %s", took)
				}
			}(o)
		}
		wg.Wait()
		for i, o := range all {
			if o.bad != "" {
				rt.Fatalf("request %d of %d bytes, whose answer takes %d ms to begin and %d more: %s", i, len(o.target), o.before, o.within, o.bad)
			}
		}
		c.NonTrivial(fmt.Sprint(len(all[0].target), all[2].before, all[2].within))
	})
}
