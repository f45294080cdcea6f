package auth_test

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

// ids are sources and app names that a list in a query can have.
var ids = []string{"app", "doppler", "s-2", "p.mysql", "7e3c1a52-4b1a", "x y", "é", "a:b", "d,e", "app2", "my/app", "\"q\"", `b\\s`, "other"}

// genUsers draws users, and the one that asks, by token.
func genUsers(rt *rapid.T) (map[string]user, string) {
	us := map[string]user{}
	tokens := []string{"bearer one", "bearer two", "Bearer one", "three"}
	for _, t := range tokens {
		u := user{owns: map[string]bool{}}
		switch rapid.IntRange(0, 5).Draw(rt, "kind of user") {
		case 0:
			u.admin = true
		case 1:
			u.bad = true
			u.admin = rapid.Bool().Draw(rt, "bad admin")
		}
		nothing := oneIn(rt, 6, "owns nothing")
		for _, id := range ids {
			if !nothing && rapid.Bool().Draw(rt, "owns") {
				u.owns[id] = true
			}
		}
		us[t] = u
	}
	return us, rapid.SampledFrom(append(tokens, "", "unknown")).Draw(rt, "token")
}

func may(us map[string]user, token string, id string) bool {
	u, ok := us[token]
	return ok && !u.bad && (u.admin || u.owns[id])
}

func describe(us map[string]user, token string) string {
	u, ok := us[token]
	switch {
	case token == "":
		return "nobody"
	case !ok || u.bad:
		return "somebody unknown"
	case u.admin:
		return "an admin"
	}
	return fmt.Sprintf("an owner of %q", vh.Keys(u.owns))
}

func send(rt *rapid.T, method, u, token, body string) (int, http.Header, string) {
	req, err := http.NewRequest(method, u, strings.NewReader(body))
	if err != nil {
		vh.Harness("%s", err)
	}
	if token != "" {
		req.Header.Set("Authorization", token)
	}
	if body != "" {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		req.Header.Set("X-HTTP-Method-Override", "GET")
	}
	resp, err := httpClient.Do(req)
	if err != nil {
		rt.Fatalf("%s %s: %s", method, u, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		rt.Fatalf("%s %s: %s", method, u, err)
	}
	return resp.StatusCode, resp.Header, string(b)
}

// misleading draws parameters that ask for another source.
func misleading(rt *rapid.T, other string) string {
	f := base64.StdEncoding.EncodeToString(append([]byte{10, byte(len(other))}, other...))
	q := `cpu{source_id="` + other + `"}`
	g := base64.StdEncoding.EncodeToString(append([]byte{10, byte(len(q))}, q...))
	e := url.QueryEscape
	return rapid.SampledFrom([]string{
		"source_id=" + e(other), "sourceId=" + e(other), "XXX_unrecognized=" + e(f), "XXX_unrecognized=" + e(g), "sourceId[" + e(other) + "]=x",
		"query[" + e(q) + "]=x", "query%5B" + e(q) + "%5D=", "query=" + e(q), "%71uery=" + e(q), "Query=" + e(q), "query;=" + e(q), ";query=" + e(q), "XXX_unrecognized[" + e(f) + "]=" + e(g),
	}).Draw(rt, "misleading")
}

func TestC35_Reads(t *testing.T) {
	vh.Check(t, vh.N(2500, 40000), "a source that is not the asker's is asked for, or the path or parameters are odd", func(rt *rapid.T, c *vh.Case) {
		us, token := genUsers(rt)
		id := rapid.SampledFrom(ids).Draw(rt, "source")
		other := rapid.SampledFrom(ids).Draw(rt, "other source")
		esc := func(s string) string {
			switch rapid.IntRange(0, 2).Draw(rt, "escaping") {
			case 0:
				return (&url.URL{Path: "/" + s}).EscapedPath()[1:]
			case 1:
				return strings.ReplaceAll(url.PathEscape(s), "%2F", "/")
			}
			var b strings.Builder
			for i := 0; i < len(s); i++ {
				if s[i] == '/' {
					b.WriteByte('/')
				} else {
					fmt.Fprintf(&b, "%%%02X", s[i])
				}
			}
			return b.String()
		}
		path, plain := esc(id), true
		if oneIn(rt, 3, "odd path") {
			plain = false
			path = rapid.SampledFrom([]string{
				"%s/../%s", "%s%%2f..%%2f%s", "%s%%2F%s", "./%s", "%s/", "/%s", "%s//%s", "%s:", "%s:%s", "%s%%3A%s", "%s%%00", "%s%%0A", "%s%%0a%s",
				"%s%%3Fx", "%s;%s", "%s,%s", "%s%%25", "..%%2f%s", "%s/%%2e%%2e/%s", "%s%%23", "%%2F%s", "*", "", "%s/.", "..",
			}).Draw(rt, "odd form")
			switch strings.Count(path, "%s") {
			case 1:
				path = fmt.Sprintf(path, esc(id))
			case 2:
				path = fmt.Sprintf(path, esc(id), esc(other))
			default:
				path = strings.ReplaceAll(path, "%%", "%")
			}
		}
		query := []string{}
		misled := false
		for i := rapid.IntRange(0, 2).Draw(rt, "parameters"); i > 0; i-- {
			if rapid.Bool().Draw(rt, "plain") {
				query = append(query, rapid.SampledFrom([]string{"limit=3", "descending=true", "start_time=5", "name_filter=x"}).Draw(rt, "parameter"))
			} else {
				query = append(query, misleading(rt, other))
				misled = true
			}
		}
		u := proxyAddr + "/api/v1/read/" + path
		if len(query) > 0 {
			u += "?" + strings.Join(query, "&")
		}
		method, body := "GET", ""
		if oneIn(rt, 6, "other method") {
			method, body = rapid.SampledFrom([]string{"POST", "PUT", "HEAD"}).Draw(rt, "method"), misleading(rt, other)
		}
		w.set(func() { w.users = us })
		st, _, doc := send(rt, method, u, token, body)
		saw, n := w.seen()
		what := fmt.Sprintf("%s %s (%s) by %s", method, u[len(proxyAddr):], body, describe(us, token))
		for s := range saw {
			if !may(us, token, s) {
				rt.Fatalf("%s read %q", what, s)
			}
		}
		allowed := may(us, token, id)
		c.If(!plain || misled || body != "" || !allowed, what)
		if n > 1 || st != 200 && doc != "" && strings.Contains(doc, "envelopes") {
			rt.Fatalf("%s: status %d, %s, and %d requests to the cache", what, st, doc, n)
		}
		if !plain {
			// What is read is a source that the path can be taken for.
			dec, err := url.PathUnescape(path)
			for s := range saw {
				if err != nil || s != dec {
					rt.Fatalf("%s read %q", what, s)
				}
			}
			c.ClassIf(n > 0, "odd path, read")
			c.ClassIf(n == 0, "odd path, not read")
			return
		}
		if !allowed {
			if st != 404 || n != 0 || doc != "" {
				rt.Fatalf("%s: status %d, %q, and %d requests to the cache, want 404 and none", what, st, doc, n)
			}
			c.Class("refused")
			return
		}
		if method != "GET" && st >= 400 && n == 0 {
			c.Class("method refused")
			return
		}
		if n == 0 && misled && st == 400 {
			c.Class("parameters refused")
			return
		}
		if st != 200 || n != 1 || !saw[id] {
			rt.Fatalf("%s: status %d, %s, read %v, want %q", what, st, doc, saw, id)
		}
		c.Class("read")
	})
}

type queryGen struct {
	rt       *rapid.T
	asked    map[string]bool
	nosource bool
}

// selector is one selector; it notes the sources it asks for.
func (g *queryGen) selector() string {
	rt := g.rt
	var ms []string
	lit := func(s string) string {
		switch rapid.IntRange(0, 3).Draw(rt, "quotes") {
		case 0:
			if !strings.Contains(s, "`") {
				return "`" + s + "`"
			}
		case 1:
			if !strings.ContainsAny(s, `'"\`) {
				return "'" + s + "'"
			}
		case 2:
			// The engine's lexer takes the character after an escape by its
			// number for a part of it, so that it must not be the last.
			if end := s[len(s)-1]; end >= 'a' && end <= 'z' {
				var b strings.Builder
				for _, c := range []byte(s[:len(s)-1]) {
					fmt.Fprintf(&b, `\x%02x`, c)
				}
				return `"` + b.String() + s[len(s)-1:] + `"`
			}
		}
		return strconv.Quote(s)
	}
	one := func() string {
		s := rapid.SampledFrom(ids).Draw(rt, "queried source")
		return s
	}
	for i := rapid.SampledFrom([]int{1, 1, 1, 1, 2}).Draw(rt, "source matchers"); i > 0; i-- {
		switch rapid.IntRange(0, 9).Draw(rt, "source matcher") {
		case 0:
			ms = append(ms, "source_id"+rapid.SampledFrom([]string{"!=", "!~"}).Draw(rt, "negation")+lit(one()))
		case 1, 2, 3:
			var l []string
			for k := rapid.IntRange(1, 3).Draw(rt, "alternatives"); k > 0; k-- {
				s := one()
				g.asked[s] = true
				l = append(l, s)
			}
			ms = append(ms, "source_id=~"+lit(strings.Join(l, "|")))
		default:
			s := one()
			g.asked[s] = true
			ms = append(ms, "source_id="+lit(s))
		}
	}
	has := false
	for _, m := range ms {
		has = has || !strings.HasPrefix(m, "source_id!")
	}
	g.nosource = g.nosource || !has
	if oneIn(rt, 3, "other matcher") {
		m := rapid.SampledFrom([]string{"job", "source", "instance_id", "Source_id"}).Draw(rt, "label") + rapid.SampledFrom([]string{"=", "!=", "=~"}).Draw(rt, "op") + lit(one())
		at := rapid.IntRange(0, len(ms)).Draw(rt, "matcher's place")
		ms = append(ms[:at], append([]string{m}, ms[at:]...)...)
	}
	name := rapid.SampledFrom([]string{"cpu", "cpu ", "http:total", "sum_x"}).Draw(rt, "name")
	if oneIn(rt, 6, "name in braces") {
		ms, name = append(ms, "__name__="+lit("cpu")), ""
	}
	sep := rapid.SampledFrom([]string{",", " , ", ",\n", "\t,", ", # source_id=\"other\"}\n"}).Draw(rt, "separator")
	return name + "{" + strings.Join(ms, sep) + "}"
}

func (g *queryGen) expr(depth int) string {
	rt := g.rt
	if depth == 0 {
		return g.selector()
	}
	switch rapid.IntRange(0, 5).Draw(rt, "shape") {
	case 0:
		return fmt.Sprintf(rapid.SampledFrom([]string{"rate(%s[5m])", "avg_over_time(%s[30s] offset 1m)", "delta(%s[1h])"}).Draw(rt, "range function"), g.selector())
	case 1, 2:
		return fmt.Sprintf(rapid.SampledFrom([]string{"%s + %s", "%s or (%s)", "%s unless on(source_id) %s", "%s * ignoring(job) group_left %s", "clamp_max(%s, scalar(%s))"}).Draw(rt, "binary"), g.expr(depth-1), g.expr(depth-1))
	case 3:
		return fmt.Sprintf(rapid.SampledFrom([]string{"sum(%s)", "avg by (job) (%s)", "topk(2, %s)", `count_values("source_id", %s)`, `label_replace(%s, "source_id", "other", "job", ".*")`, "-%s", "vector(scalar(%s))", "absent(%s)"}).Draw(rt, "function"), g.expr(depth-1))
	}
	return g.selector()
}

func TestC35_Queries(t *testing.T) {
	vh.Check(t, vh.N(2500, 50000), "the query asks for two sources or more, or for one that is not the asker's, or the parameters mislead", func(rt *rapid.T, c *vh.Case) {
		us, token := genUsers(rt)
		related := map[string][]string{}
		for _, id := range ids {
			if rapid.Bool().Draw(rt, "has apps") {
				for k := rapid.IntRange(1, 3).Draw(rt, "apps"); k > 0; k-- {
					related[id] = append(related[id], rapid.SampledFrom(append([]string{"guid-1", "guid-2", "guid-3"}, ids...)).Draw(rt, "app of the name"))
				}
			}
		}
		for t, u := range us {
			for _, g := range []string{"guid-1", "guid-2", "guid-3"} {
				if rapid.Bool().Draw(rt, "owns app "+t) {
					u.owns[g] = true
				}
			}
		}
		g := &queryGen{rt: rt, asked: map[string]bool{}}
		q := ""
		broken := ""
		switch rapid.IntRange(0, 11).Draw(rt, "kind of query") {
		case 0:
			q = rapid.SampledFrom([]string{"", "cpu", "1", "cpu{source=\"app\"}", "vector(1)", `cpu{source_id!="app"}`, `cpu{source_id!~"app|other"}`, `"source_id=other"`}).Draw(rt, "no source")
			if q == "" {
				broken = "empty"
			}
		case 1:
			broken = "malformed"
			q = g.selector() + rapid.SampledFrom([]string{"{", "}", "[5m", ")", " + ", "\"", `{source_id="other"}`, " offset"}).Draw(rt, "rest")
		default:
			q = g.expr(rapid.IntRange(0, 2).Draw(rt, "depth"))
		}
		endpoint := rapid.SampledFrom([]string{"query", "query_range"}).Draw(rt, "endpoint")
		params := []string{"query=" + url.QueryEscape(q)}
		misled := false
		for i := rapid.IntRange(0, 2).Draw(rt, "other parameters"); i > 0; i-- {
			p := rapid.SampledFrom([]string{"time=100", "start=100", "end=160", "step=15", "x=y"}).Draw(rt, "parameter")
			at := rapid.IntRange(0, len(params)).Draw(rt, "parameter's place")
			if rapid.Bool().Draw(rt, "misleads") {
				p = misleading(rt, rapid.SampledFrom(append([]string{"secret"}, ids...)).Draw(rt, "misleading source"))
				misled = true
				if strings.HasPrefix(p, "query=") || strings.HasPrefix(p, "%71") {
					at = len(params)
				}
			}
			params = append(params[:at], append([]string{p}, params[at:]...)...)
		}
		if endpoint == "query_range" {
			params = append(params, "start=1000", "end=1060", "step=30")
		}
		method, body := "GET", ""
		if oneIn(rt, 8, "other method") {
			method, body = rapid.SampledFrom([]string{"POST", "PUT"}).Draw(rt, "method"), misleading(rt, "secret")
		}
		w.set(func() {
			w.users, w.related = us, related
			w.unnamed = oneIn(rt, 15, "no names")
		})
		u := proxyAddr + "/api/v1/" + endpoint + "?" + strings.Join(params, "&")
		st, h, doc := send(rt, method, u, token, body)
		saw, n := w.seen()
		what := fmt.Sprintf("%s %s?%s (%s) by %s, where names are %q", method, endpoint, strings.Join(params, "&"), body, describe(us, token), related)

		// What may be read: the sources asked for and the apps of those names.
		want := map[string]bool{}
		refused := false
		for id := range g.asked {
			any := false
			for _, s := range append([]string{id}, related[id]...) {
				if may(us, token, s) {
					want[s] = true
					any = true
				}
			}
			refused = refused || !any
		}
		for s := range saw {
			if !may(us, token, s) {
				rt.Fatalf("%s read %q", what, s)
			}
			if !want[s] {
				rt.Fatalf("%s read %q, which the query %s does not ask for", what, s, q)
			}
		}
		c.If(len(g.asked) > 1 || refused || misled || body != "", what)
		none := func(why string, sts ...int) {
			for _, s := range sts {
				if st == s && n == 0 {
					c.Class(why)
					return
				}
			}
			rt.Fatalf("%s (%s): status %d, %q, and %d requests to the cache, want %v and none", what, why, st, doc, n, sts)
		}
		switch {
		case token == "":
			none("no token", 404)
		case broken != "" || len(g.asked) == 0:
			if known := us[token]; known.bad {
				none("not a query, bad token", 400, 404)
				return
			}
			none("not a query with sources", 400, 404)
			if st == 400 {
				var e struct{ Status, ErrorType, Error string }
				if err := json.Unmarshal([]byte(doc), &e); err != nil || e.Status != "error" || e.ErrorType != "bad_data" || e.Error == "" || !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
					rt.Fatalf("%s: %q (%s) is no error document", what, doc, h.Get("Content-Type"))
				}
			} else if us[token].owns != nil {
				rt.Fatalf("%s: status %d, want 400", what, st)
			}
		case describe(us, token) == "somebody unknown":
			none("unknown token", 404)
		case w.unnamed:
			none("no names", 404)
		case refused:
			none("a source is not the asker's", 404)
		default:
			if n == 0 && st == 400 && misled {
				c.Class("parameters refused")
				return
			}
			if method != "GET" && st >= 400 && n == 0 {
				c.Class("method refused")
				return
			}
			if n == 0 {
				rt.Fatalf("%s: status %d, %s, and the query was not run", what, st, doc)
			}
			if g.nosource {
				c.Class("a selector has no source")
				return
			}
			if !reflect.DeepEqual(saw, want) {
				rt.Fatalf("%s: status %d, read %q, want %q: %s", what, st, vh.Keys(saw), vh.Keys(want), doc)
			}
			c.Class("run")
		}
	})
}

var errMeta = errors.New("no meta")

func TestC35_Meta(t *testing.T) {
	vh.Check(t, vh.N(1200, 30000), "the cache has a source that the asker may see and one not", func(rt *rapid.T, c *vh.Case) {
		us, token := genUsers(rt)
		meta := map[string]*logcache_v1.MetaInfo{}
		for _, id := range append([]string{"guid-1", "secret"}, ids...) {
			if rapid.Bool().Draw(rt, "has") {
				n := rapid.OneOf(rapid.Int64Range(-2, 3), rapid.Int64()).Draw(rt, "number")
				meta[id] = &logcache_v1.MetaInfo{Count: n, Expired: n / 3, OldestTimestamp: n / 2, NewestTimestamp: n}
			}
		}
		fails := oneIn(rt, 8, "fails")
		w.set(func() {
			w.users, w.meta = us, meta
			if fails {
				w.meta, w.metaErr = nil, errMeta
			}
		})
		p := "/api/v1/meta" + rapid.SampledFrom([]string{"", "?local_only=true", "?x=y", "?local_only=maybe"}).Draw(rt, "parameters")
		st, _, doc := send(rt, rapid.SampledFrom([]string{"GET", "GET", "GET", "POST"}).Draw(rt, "method"), proxyAddr+p, token, "")
		_, n := w.seen()
		what := fmt.Sprintf("%s by %s of %q", p, describe(us, token), vh.Keys(meta))
		if n != 0 {
			rt.Fatalf("%s: %d requests to the cache", what, n)
		}
		want := map[string]bool{}
		for id := range meta {
			if may(us, token, id) {
				want[id] = true
			}
		}
		c.If(len(want) > 0 && len(want) < len(meta) && !fails, what)
		u, ok := us[token]
		switch {
		case !ok || u.bad:
			if st != 404 || doc != "" {
				rt.Fatalf("%s: status %d with %q, want 404", what, st, doc)
			}
		case fails:
			if st != 502 || doc != "" {
				rt.Fatalf("%s, which fails: status %d with %q, want 502", what, st, doc)
			}
			c.Class("failed")
		default:
			type info struct {
				Count, Expired, OldestTimestamp, NewestTimestamp string
			}
			var d struct{ Meta map[string]info }
			if err := json.Unmarshal([]byte(doc), &d); err != nil || st != 200 || !strings.HasSuffix(doc, "\n") {
				rt.Fatalf("%s: status %d with %q: %v", what, st, doc, err)
			}
			num := func(i int64) string {
				if i == 0 {
					return ""
				}
				return fmt.Sprint(i)
			}
			exp := map[string]info{}
			for id := range want {
				m := meta[id]
				exp[id] = info{num(m.Count), num(m.Expired), num(m.OldestTimestamp), num(m.NewestTimestamp)}
			}
			if fmt.Sprint(d.Meta) != fmt.Sprint(exp) {
				rt.Fatalf("%s gave %v, want %v", what, d.Meta, exp)
			}
			c.Class("answered")
		}
	})
}

// TestC35_Rest: what is none of the API's paths is not passed on, and the info
// is for everybody.
func TestC35_Rest(t *testing.T) {
	vh.Check(t, vh.N(600, 12000), "the path is none of the API's", func(rt *rapid.T, c *vh.Case) {
		us, token := genUsers(rt)
		w.set(func() { w.users = us })
		if oneIn(rt, 4, "info") {
			st, _, doc := send(rt, "GET", proxyAddr+"/api/v1/info", token, "")
			if st != 200 || !strings.Contains(doc, `"version":"1.2.3"`) || w.infos != 1 {
				rt.Fatalf("the info for %s: status %d with %s", describe(us, token), st, doc)
			}
			c.Class("info")
			return
		}
		p := rapid.SampledFrom([]string{
			"/", "/api", "/api/v1", "/api/v1/", "/api/v1/read", "/api/v1/query/", "/api/v1/queryx", "/api/v1/query_range/", "/api/v1/meta/", "/api/v1/Meta", "/API/v1/meta",
			"/api/v1/query%2F", "/api/v1/query:", "/api/v1/meta:", "/api/v1/query_range:x", "/api/v2/query", "//api/v1/query", "/api/v1//query", "/api/v1/./query", "/api/v1/x/../query", "/api//v1/meta",
			"/api/v1/%71uery%00", "/api/v1/read%2Fapp", "/api/v1/read%2F%61pp", "/logcache.v1.Egress/Read", "/logcache.v1.PromQLQuerier/InstantQuery", "/debug/pprof/", "/metrics", "/api/v1/info/", "/x/api/v1/query",
			"/api/v1/meta%0A", "/api/v1/query%0a", "/api/v1/write", "/%2e%2e/api/v1/query",
		}).Draw(rt, "path")
		if oneIn(rt, 4, "any") {
			p = "/" + (&url.URL{Path: "/" + rapid.StringN(0, 8, -1).Draw(rt, "any path")}).EscapedPath()[1:]
		}
		u := proxyAddr + p + "?query=" + url.QueryEscape(`cpu{source_id="secret"}`)
		what := p + " by " + describe(us, token)
		c.NonTrivial(what)
		if _, err := url.Parse(u); err != nil {
			return
		}
		st, _, doc := send(rt, "GET", u, token, "")
		saw, n := w.seen()
		if p == "/api/v1/read%2Fapp" || p == "/api/v1/read%2F%61pp" {
			for s := range saw {
				if !may(us, token, s) {
					rt.Fatalf("%s read %q", what, s)
				}
			}
			return
		}
		if n != 0 || st < 300 || st >= 500 || strings.Contains(doc, "from-the-cache") {
			l := vh.Keys(saw)
			sort.Strings(l)
			rt.Fatalf("%s: status %d, %d requests to the cache, read %q", what, st, n, l)
		}
	})
}
