package auth_test

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"html"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/log-cache/internal/auth"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// entry is what an access log line says.
type entry struct {
	rt                                           int64
	id, method, path, src, spt, dst, dpt         string
	nameMethod, namePath, otherMethod, otherPath string
}

// keyRE finds the keys of an extension: what stands before an equals sign that
// is not escaped. The request itself has no spaces, so that its equals signs
// belong to its value.
var keyRE = regexp.MustCompile(` [^ =\\]+=`)

var extension = []string{"rt", "cs1Label", "cs1", "cs2Label", "cs2", "request", "requestMethod", "src", "spt", "dst", "dpt"}

// parseCEF reads a line as the format of the log has it: seven fields and an
// extension, between pipes, of keys and values.
func parseCEF(line string) (e entry, err error) {
	f := strings.SplitN(line, "|", 8)
	if len(f) != 8 {
		return e, fmt.Errorf("%d fields", len(f))
	}
	for i, want := range map[int]string{0: "CEF:0", 1: "cloud_foundry", 2: "log_cache", 3: "1.0", 6: "0"} {
		if f[i] != want {
			return e, fmt.Errorf("field %d is %q, want %q", i, f[i], want)
		}
	}
	var ok, ok2 bool
	e.nameMethod, e.namePath, ok = strings.Cut(f[4], " ")
	e.otherMethod, e.otherPath, ok2 = strings.Cut(f[5], " ")
	if !ok || !ok2 {
		return e, fmt.Errorf("no method and path in %q and %q", f[4], f[5])
	}
	ext := " " + f[7]
	var keys []string
	vals := map[string]string{}
	at := keyRE.FindAllStringIndex(ext, -1)
	for i, k := range at {
		end := len(ext)
		if i+1 < len(at) {
			end = at[i+1][0]
		}
		key := ext[k[0]+1 : k[1]-1]
		keys = append(keys, key)
		vals[key] = ext[k[1]:end]
	}
	if len(at) == 0 || at[0][0] != 0 || strings.Join(keys, " ") != strings.Join(extension, " ") {
		return e, fmt.Errorf("the extension has the keys %q", keys)
	}
	if vals["cs1Label"] != "userAuthenticationMechanism" || vals["cs1"] != "oauth-access-token" || vals["cs2Label"] != "vcapRequestId" {
		return e, fmt.Errorf("labels %v", vals)
	}
	e.rt, err = strconv.ParseInt(vals["rt"], 10, 64)
	un := strings.NewReplacer(`\\`, `\`, `\=`, `=`).Replace
	e.id, e.path, e.method, e.src, e.spt, e.dst, e.dpt = un(vals["cs2"]), vals["request"], vals["requestMethod"], un(vals["src"]), un(vals["spt"]), vals["dst"], vals["dpt"]
	return e, err
}

// logged is a request and what its line ought to say.
type logged struct {
	raw                 string
	req                 *http.Request
	method, path, exact string // path is decoded; exact is the target where it has nothing to be encoded
	query               string
	id, src, spt        string
}

var hostile = []string{"|", "\\", "=", "\"", "<b>", "&amp;", "&", "'", "+", "é", "日本", "%7C", "%0A", "%0d%0a", "%00", "%20", "%25", "%2F", "{{.Path}}", "CEF:0|cloud_foundry|", "rt=1", "src=6.6.6.6", "`", "^", ";", "%FF", "%e2%80%a8", "%C2%85"}

func genHostile(rt *rapid.T, also []string, n int, what string) string {
	s := ""
	for i := rapid.IntRange(0, n).Draw(rt, what); i > 0; i-- {
		if rapid.Bool().Draw(rt, "odd") {
			s += rapid.SampledFrom(append(also, hostile...)).Draw(rt, what)
		} else {
			s += rapid.StringMatching(`[a-z0-9/._~-]{1,5}`).Draw(rt, what)
		}
	}
	return s
}

func genAddress(rt *rapid.T) (text, host, port string) {
	port = fmt.Sprint(rapid.IntRange(0, 65535).Draw(rt, "port"))
	switch rapid.IntRange(0, 5).Draw(rt, "address") {
	case 0:
		host = rapid.SampledFrom([]string{"::1", "2001:db8::17", "fe80::1", "::ffff:10.0.0.1", "1:2:3:4:5:6:7:8"}).Draw(rt, "IPv6")
		return host, host, ""
	case 1:
		host = rapid.SampledFrom([]string{"::1", "2001:db8::17", "fe80::1%eth0"}).Draw(rt, "IPv6 and port")
		return "[" + host + "]:" + port, host, port
	case 2:
		host = rapid.StringMatching(`[a-z0-9.-]{1,12}`).Draw(rt, "name")
	case 3:
		host = genHostile(rt, []string{" ", " src=", " dst=1.1.1.1"}, 3, "odd name")
		host = strings.Trim(strings.NewReplacer(":", "", ",", "", "[", "", "]", "").Replace(host), " ")
		if host == "" {
			host = "unknown"
		}
	default:
		host = fmt.Sprintf("%d.%d.0.%d", rapid.IntRange(0, 255).Draw(rt, "a"), rapid.IntRange(0, 255).Draw(rt, "b"), rapid.IntRange(0, 255).Draw(rt, "c"))
	}
	if rapid.Bool().Draw(rt, "with port") {
		return host + ":" + port, host, port
	}
	return host, host, ""
}

func genLogged(rt *rapid.T) logged {
	l := logged{method: rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT", "HEAD", "OPTIONS", "get", "X-Y", "G|T", "A'B`", "M&|0|", "~!#$%^*"}).Draw(rt, "method")}
	target := "/" + genHostile(rt, []string{"/"}, 6, "path")
	target = strings.TrimLeft(target, "/")
	target = strings.NewReplacer("?", "", "#", "").Replace("/" + target)
	dec, err := url.PathUnescape(target)
	if err != nil { // a percent sign that escapes nothing
		target, dec = "/a", "/a"
	}
	l.path = dec
	if regexp.MustCompile(`^(?:[A-Za-z0-9/._~-]|%[0-9A-Fa-f]{2})*$`).MatchString(target) {
		l.exact = target
	}
	if rapid.Bool().Draw(rt, "query") {
		l.query = genHostile(rt, []string{"?", "#", "query=", "x=%zz", "%"}, 6, "query")
		target += "?" + l.query
		l.query = strings.SplitN(l.query, "#", 2)[0] // net/http keeps what is before it apart
		target = strings.SplitN(target, "#", 2)[0]
	}
	l.raw = l.method + " " + target + " HTTP/1.1\r\nHost: log-cache.example\r\n"
	if rapid.Bool().Draw(rt, "ID") {
		l.id = strings.Trim(genHostile(rt, []string{" ", " request=/forged", " dst=", "\t"}, 4, "ID"), " \t")
		l.raw += rapid.SampledFrom([]string{"X-Vcap-Request-ID", "X-Vcap-Request-Id", "x-vcap-request-id"}).Draw(rt, "header") + ": " + l.id + "\r\n"
	}
	remote, host, port := "10.1.2.3:4567", "10.1.2.3", "4567"
	if rapid.Bool().Draw(rt, "IPv6 client") {
		remote, host, port = "[2001:db8::9]:99", "2001:db8::9", "99"
	}
	l.src, l.spt = host, port
	if rapid.Bool().Draw(rt, "forwarded") {
		text, host, port := genAddress(rt)
		l.src, l.spt = host, port
		if rapid.Bool().Draw(rt, "more") {
			text += rapid.SampledFrom([]string{", 1.2.3.4", ",6.6.6.6:6, ::1", ","}).Draw(rt, "further")
		}
		l.raw += "X-Forwarded-For: " + text + "\r\n"
	}
	l.raw += "\r\n"
	l.req, err = http.ReadRequest(bufio.NewReader(strings.NewReader(l.raw)))
	if err != nil {
		// not a request that a handler ever sees
		rt.Skip(err)
	}
	l.req.RemoteAddr = remote
	return l
}

// differs says what is wrong with a line. Its text may be escaped for HTML, as
// a whole.
func (l logged) differs(line, dst, dpt string, from, to time.Time) error {
	err := l.isnt(html.UnescapeString(line), dst, dpt, from, to)
	if err != nil && l.isnt(line, dst, dpt, from, to) == nil {
		return nil
	}
	return err
}

func (l logged) isnt(line, dst, dpt string, from, to time.Time) error {
	e, err := parseCEF(line)
	if err != nil {
		return err
	}
	method := strings.Replace(l.method, "|", "%7C", -1)
	p, q, hasQuery := strings.Cut(e.path, "?")
	dec, err := url.PathUnescape(p)
	switch {
	case e.nameMethod != e.method || e.otherMethod != e.method || e.namePath != e.path || e.otherPath != e.path:
		return errors.New("its parts disagree")
	case e.method != method:
		return fmt.Errorf("the method is %q", e.method)
	case err != nil || dec != l.path || l.exact != "" && p != l.exact:
		return fmt.Errorf("the path is %q, want %q", p, l.path)
	case hasQuery != (l.query != "") || q != strings.Replace(l.query, "|", "%7C", -1):
		return fmt.Errorf("the query is %q, want %q", q, l.query)
	case e.id != l.id:
		return fmt.Errorf("the request ID is %q, want %q", e.id, l.id)
	case e.src != l.src || e.spt != l.spt:
		return fmt.Errorf("the client is %q port %q, want %q port %q", e.src, e.spt, l.src, l.spt)
	case e.dst != dst || e.dpt != dpt:
		return fmt.Errorf("the destination is %q port %q", e.dst, e.dpt)
	case e.rt < from.UnixMilli() || e.rt > to.UnixMilli():
		return fmt.Errorf("the time is %d, want %d to %d", e.rt, from.UnixMilli(), to.UnixMilli())
	}
	return nil
}

// oneLine is the line that a text is, if it is one.
func oneLine(s string) (string, bool) {
	if !strings.HasSuffix(s, "\n") || strings.ContainsAny(s[:len(s)-1], "\n\r\x00\u0085\u2028") {
		return s, false
	}
	return s[:len(s)-1], true
}

type failing struct {
	w     *bytes.Buffer
	fails bool
}

func (f failing) Write(b []byte) (int, error) {
	if f.fails {
		return 0, errors.New("disk full")
	}
	return f.w.Write(b)
}

func TestC38_Lines(t *testing.T) {
	vh.Check(t, vh.N(4000, 150000), "the request has characters that would end a field or a line, or a forwarded address", func(rt *rapid.T, c *vh.Case) {
		l := genLogged(rt)
		dst, dpt := rapid.SampledFrom([]string{"10.244.0.9", "fd00::5", ""}).Draw(rt, "destination"), rapid.SampledFrom([]string{"8083", ""}).Draw(rt, "destination port")
		if strings.ContainsAny(l.raw, "|\\`<&") || strings.Contains(l.raw, "X-Forwarded-For") || strings.Contains(l.raw, "%0") {
			c.NonTrivial(l.raw)
		}
		f := failing{w: &bytes.Buffer{}, fails: oneIn(rt, 8, "fails")}
		null := oneIn(rt, 8, "null")
		alters := oneIn(rt, 3, "the handler alters the request")
		handled := 0
		var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			handled++
			if r != l.req {
				rt.Fatalf("another request is handled")
			}
			// as the middleware does, and the routers may
			if alters {
				r.URL.RawQuery, r.URL.Path, r.URL.RawPath = "query=altered", "/altered", ""
			}
			w.WriteHeader(299)
		})
		if null {
			h = auth.NewNullAccessMiddleware()(h)
		} else {
			h = auth.NewAccessMiddleware(auth.NewAccessLogger(f), dst, dpt)(h)
		}
		rec := httptest.NewRecorder()
		from := time.Now()
		h.ServeHTTP(rec, l.req)
		to := time.Now()
		if handled != 1 || rec.Code != 299 {
			rt.Fatalf("%q was handled %d times with status %d", l.raw, handled, rec.Code)
		}
		text := f.w.String()
		if null || f.fails {
			if text != "" {
				rt.Fatalf("%q", text)
			}
			return
		}
		line, ok := oneLine(text)
		if !ok {
			rt.Fatalf("the log of %q is %q", l.raw, text)
		}
		if err := l.differs(line, dst, dpt, from, to); err != nil {
			rt.Fatalf("the request %q gave the line %q: %s", l.raw, line, err)
		}
	})
}

// TestC38_Concurrent: requests at once, into a file.
func TestC38_Concurrent(t *testing.T) {
	vh.Check(t, vh.N(40, 1500), "each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		file := filepath.Join(dir, "access.log")
		vh.Must(os.RemoveAll(file))
		fd, err := os.OpenFile(file, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o666)
		vh.Must(err)
		defer fd.Close()
		n := rapid.IntRange(2, 8).Draw(rt, "clients")
		var ls []logged
		for i := 0; i < n; i++ {
			l := genLogged(rt)
			l.id = fmt.Sprintf("id-%d", i)
			l.req.Header.Set("X-Vcap-Request-ID", l.id)
			ls = append(ls, l)
		}
		c.NonTrivial(ls[0].raw)
		h := auth.NewAccessMiddleware(auth.NewAccessLogger(fd), "d", "1")(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
		from := time.Now()
		var wg sync.WaitGroup
		const each = 10
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < each; j++ {
					h.ServeHTTP(httptest.NewRecorder(), ls[i].req)
				}
			}()
		}
		wg.Wait()
		to := time.Now()
		b, err := os.ReadFile(file)
		vh.Must(err)
		count := map[string]int{}
		for _, line := range strings.SplitAfter(string(b), "\n") {
			if line == "" {
				continue
			}
			line, ok := oneLine(line)
			e, err := parseCEF(html.UnescapeString(line))
			if err != nil {
				e, err = parseCEF(line)
			}
			if !ok || err != nil {
				rt.Fatalf("the line %q: %v", line, err)
			}
			count[e.id]++
			var i int
			fmt.Sscanf(e.id, "id-%d", &i)
			if i >= n {
				rt.Fatalf("the line %q", line)
			}
			if err := ls[i].differs(line, "d", "1", from, to); err != nil {
				rt.Fatalf("the request %q gave the line %q: %s", ls[i].raw, line, err)
			}
		}
		for i := 0; i < n; i++ {
			if count[fmt.Sprintf("id-%d", i)] != each {
				rt.Fatalf("%d lines of a request made %d times", count[fmt.Sprintf("id-%d", i)], each)
			}
		}
	})
}
