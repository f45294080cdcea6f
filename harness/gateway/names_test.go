package gateway_test

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"testing"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

// spell writes a name or value for a URL's query, escaping now and then what
// need not be.
func spell(t *rapid.T, s string, loose bool) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || strings.IndexByte("-._~", c) >= 0
		raw := strings.IndexByte("[]:,!$'()*@/?", c) >= 0
		switch {
		case plain && !(loose && rapid.IntRange(0, 7).Draw(t, "escape") == 0), raw && rapid.Bool().Draw(t, "raw"):
			b.WriteByte(c)
		case c == ' ' && rapid.Bool().Draw(t, "plus"):
			b.WriteByte('+')
		default:
			fmt.Fprintf(&b, []string{"%%%02X", "%%%02x"}[rapid.IntRange(0, 1).Draw(t, "hex")], c)
		}
	}
	return b.String()
}

type pair struct{ k, v string }

// field is the wire form of a string field.
func field(n int, s string) string {
	return base64.StdEncoding.EncodeToString(append([]byte{byte(n<<3 | 2), byte(len(s))}, s...))
}

// hostile draws a parameter that is none of the API's, close to one that names
// the source or the query.
func hostile(t *rapid.T, other string) pair {
	base := rapid.SampledFrom([]string{"source_id", "sourceId", "query", "SourceId", "source-id", "Query"}).Draw(t, "base")
	switch rapid.IntRange(0, 5).Draw(t, "hostile") {
	case 0:
		return pair{rapid.SampledFrom([]string{"source_id", "sourceId", "SourceId", "sourceid", "SourceID", "SOURCE_ID", "source"}).Draw(t, "alias"), other}
	case 1:
		return pair{base + "[" + other + "]", rapid.SampledFrom([]string{"", "x", other}).Draw(t, "value")}
	case 2:
		return pair{rapid.SampledFrom([]string{"XXX_unrecognized", "XXX_unrecognized", "xxx_unrecognized", "XXX_Unrecognized"}).Draw(t, "internal"),
			field(rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "field"), other)}
	case 3:
		return pair{"XXX_unrecognized[" + field(1, other) + "]", field(1, other)}
	case 4:
		return pair{base + rapid.SampledFrom([]string{".", ".x", "[]", "[", "]", " ", "\x00", "[a][b]", ".[" + other + "]"}).Draw(t, "suffix"), other}
	default:
		return pair{rapid.SampledFrom([]string{"XXX_sizecache", "XXX_NoUnkeyedLiteral", "ReadRequest", "Read.source_id", "read_request.source_id", "0", "_method"}).Draw(t, "odd"), rapid.SampledFrom([]string{"1", other}).Draw(t, "odd value")}
	}
}

func TestC42_Names(t *testing.T) {
	vh.Check(t, vh.N(3000, 40000), "random request line for a read or query with repeated, unknown and misleading parameters and any method; non-trivial: a misleading parameter or a body",
		func(rt *rapid.T, c *vh.Case) {
			other := rapid.OneOf(rapid.SampledFrom([]string{"other", "metric{source_id=\"other\"}", ".*"}), textGen).Filter(func(s string) bool { return len(s) < 100 }).Draw(rt, "other")
			var path string
			var want proto.Message
			var ps []pair
			first := func(k string, vs ...string) {
				for _, v := range vs {
					ps = append(ps, pair{k, v})
				}
			}
			i64 := func(label string) (int64, []string) {
				n := int64Gen.Draw(rt, label)
				vs := []string{strconv.FormatInt(n, 10)}
				if rapid.IntRange(0, 3).Draw(rt, "again") == 0 {
					vs = append(vs, strconv.FormatInt(int64Gen.Draw(rt, "second"), 10))
				}
				return n, vs
			}
			text := func(label string) (string, []string) {
				s := textGen.Draw(rt, label)
				vs := []string{s}
				for i, n := 0, rapid.IntRange(-2, 2).Draw(rt, "again"); i < n; i++ {
					vs = append(vs, rapid.OneOf(rapid.Just(other), textGen).Draw(rt, "second"))
				}
				return s, vs
			}
			has := func() bool { return rapid.Bool().Draw(rt, "has") }
			var vs []string
			switch kind := rapid.IntRange(0, 3).Draw(rt, "kind"); kind {
			case 0, 1:
				src := sourceGen.Draw(rt, "source")
				r := &logcache_v1.ReadRequest{SourceId: src}
				path = "/api/v1/read/" + (&url.URL{Path: src}).EscapedPath()
				if strings.HasPrefix(path[13:], "./") {
					path = "/api/v1/read/" + path[15:]
				}
				if rapid.Bool().Draw(rt, "fully escaped") {
					segs := strings.Split(src, "/")
					for i := range segs {
						segs[i] = url.PathEscape(segs[i])
					}
					path = "/api/v1/read/" + strings.Join(segs, "/")
				}
				if has() {
					r.StartTime, vs = i64("start")
					first("start_time", vs...)
				}
				if has() {
					r.EndTime, vs = i64("end")
					first("end_time", vs...)
				}
				if has() {
					r.Limit = rapid.Int64Range(0, 1000).Draw(rt, "limit")
					first("limit", fmt.Sprint(r.Limit))
				}
				if has() {
					r.Descending = rapid.Bool().Draw(rt, "descending")
					first("descending", fmt.Sprint(r.Descending))
				}
				if has() {
					r.NameFilter, vs = text("name_filter")
					first("name_filter", vs...)
				}
				if has() {
					for _, e := range rapid.SliceOfN(rapid.SampledFrom(allTypes), 1, 3).Draw(rt, "types") {
						r.EnvelopeTypes = append(r.EnvelopeTypes, e)
						first("envelope_types", e.String())
					}
				}
				want = r
			case 2:
				r := &logcache_v1.PromQL_InstantQueryRequest{}
				path = "/api/v1/query"
				r.Query, vs = text("query")
				first("query", vs...)
				if has() {
					r.Time, vs = text("time")
					first("time", vs...)
				}
				want = r
			case 3:
				r := &logcache_v1.PromQL_RangeQueryRequest{}
				path = "/api/v1/query_range"
				r.Query, vs = text("query")
				first("query", vs...)
				if has() {
					r.Start, vs = text("start")
					first("start", vs...)
				}
				if has() {
					r.End, vs = text("end")
					first("end", vs...)
				}
				if has() {
					r.Step, vs = text("step")
					first("step", vs...)
				}
				want = r
			}
			nowhere := false
			if rapid.IntRange(0, 5).Draw(rt, "slash") == 0 {
				if r, ok := want.(*logcache_v1.ReadRequest); ok {
					// The whole rest of the path is the source ID.
					path += rapid.SampledFrom([]string{"/", "%2F", "%2f"}).Draw(rt, "after")
					r.SourceId += "/"
					c.Class("source with a final slash")
				} else {
					// No method has a path like this one.
					nowhere = true
					path += rapid.SampledFrom([]string{"/", "%2F", "/x", "%2Fx", "x"}).Draw(rt, "after")
					c.Class("no path of the API")
				}
			}
			// Misleading and unknown parameters go anywhere among them.
			misled := rapid.IntRange(0, 3).Draw(rt, "misleading")
			for i, n := 0, misled+rapid.IntRange(0, 1).Draw(rt, "unknown"); i < n; i++ {
				p := pair{rapid.StringMatching(`[a-z]{1,3}_[0-9]`).Draw(rt, "unknown name"), textGen.Draw(rt, "unknown value")}
				if i < misled {
					p = hostile(rt, other)
					if _, ok := want.(*logcache_v1.ReadRequest); !ok && p.k == "query" {
						continue
					}
					c.Class(strings.SplitN(p.k, "[", 2)[0] + map[bool]string{true: "[]"}[strings.Contains(p.k, "[")])
				}
				at := rapid.IntRange(0, len(ps)).Draw(rt, "at")
				ps = append(ps[:at], append([]pair{p}, ps[at:]...)...)
			}
			var q []string
			for _, p := range ps {
				q = append(q, spell(rt, p.k, true)+"="+spell(rt, p.v, false))
			}
			u := gwAddr + path
			if len(q) > 0 {
				u += "?" + strings.Join(q, "&")
			}
			method, body := "GET", ""
			if rapid.IntRange(0, 4).Draw(rt, "other method") == 0 {
				method = rapid.SampledFrom([]string{"GET", "POST", "PUT", "HEAD"}).Draw(rt, "method")
				var form []string
				for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "form"); i < n; i++ {
					p := hostile(rt, other)
					if rapid.Bool().Draw(rt, "query") {
						p = pair{"query", other}
					}
					form = append(form, spell(rt, p.k, false)+"="+spell(rt, p.v, false))
				}
				body = strings.Join(form, "&")
			}
			c.If(misled > 0 || body != "", method+" "+u[len(gwAddr):]+" "+body)
			req, err := http.NewRequest(method, u, strings.NewReader(body))
			if err != nil {
				vh.Harness("%s", err)
			}
			if body != "" {
				req.Header.Set("Content-Type", rapid.SampledFrom([]string{"application/x-www-form-urlencoded", "application/json"}).Draw(rt, "content"))
				if rapid.Bool().Draw(rt, "override") {
					req.Header.Set("X-HTTP-Method-Override", "GET")
				}
			}
			theBackend.reset(func(b *backend) {
				b.read = &logcache_v1.ReadResponse{}
				b.instant = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{}}}
				b.ranged = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}
			})
			resp, err := httpClient.Do(req)
			if err != nil {
				rt.Fatalf("%s %s: %s", method, u, err)
			}
			resp.Body.Close()
			calls := theBackend.take()
			if nowhere && len(calls) == 0 && resp.StatusCode >= 400 && resp.StatusCode < 510 {
				return
			}
			if (misled > 0 || body != "") && resp.StatusCode >= 400 && resp.StatusCode < 510 && len(calls) == 0 {
				c.Class("refused")
				return
			}
			if nowhere {
				rt.Fatalf("%s %s: status %d, and asked for %v", method, u[len(gwAddr):], resp.StatusCode, calls)
			}
			if err := sameCalls(calls, want); err != nil {
				rt.Fatalf("%s %s (%s): status %d: %s", method, u[len(gwAddr):], body, resp.StatusCode, err)
			}
			if resp.StatusCode != 200 {
				rt.Fatalf("%s %s: status %d", method, u[len(gwAddr):], resp.StatusCode)
			}
		})
}
