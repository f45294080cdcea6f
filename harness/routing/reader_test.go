package routing_test

import (
	"context"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"regexp"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/routing"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

var quiet = log.New(io.Discard, "", 0)

type getCall struct {
	source     string
	start, end time.Time
	types      []logcache_v1.EnvelopeType
	filter     *regexp.Regexp
	limit      int
	desc       bool
}

type recordingStore struct {
	calls []getCall
	metas int
	envs  []*loggregator_v2.Envelope
	meta  map[string]logcache_v1.MetaInfo
}

func (s *recordingStore) Get(source string, start, end time.Time, types []logcache_v1.EnvelopeType, filter *regexp.Regexp, limit int, desc bool) []*loggregator_v2.Envelope {
	s.calls = append(s.calls, getCall{source, start, end, append([]logcache_v1.EnvelopeType(nil), types...), filter, limit, desc})
	return s.envs
}

func (s *recordingStore) Meta() map[string]logcache_v1.MetaInfo {
	s.metas++
	return s.meta
}

// filters with whether they are regular expressions.
var filters = map[string]bool{
	"": true, "cpu": true, "^a.*b$": true, "[a-z]+": true, "(?i)x": true, `\d{2,3}`: true, "a|b": true, "$^": true, "\xc3\xa9": true,
	"[": false, "(": false, "a**": false, `\`: false, "a{1001}": false, "(?<": false, "*": false, "[z-a]": false, "(?P<n": false,
}

func TestC22_Read(t *testing.T) {
	names := vh.Keys(filters)
	vh.Check(t, vh.N(3000, 200000), "the request is invalid, or relies on a default or on dropping a type", func(rt *rapid.T, c *vh.Case) {
		any64 := rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64(), rapid.SampledFrom([]int64{0, 0, 1, 1000, 1001, math.MaxInt64, math.MinInt64}))
		req := &logcache_v1.ReadRequest{
			SourceId:   rapid.SampledFrom([]string{"a", "", "b/c", "\x00"}).Draw(rt, "source"),
			StartTime:  any64.Draw(rt, "start"),
			EndTime:    any64.Draw(rt, "end"),
			Limit:      rapid.OneOf(rapid.Int64Range(0, 1000), rapid.SampledFrom([]int64{-1, 0, 0, 1, 999, 1000, 1001, 1002, math.MaxInt64, math.MinInt64, 1 << 32, 1<<32 + 5})).Draw(rt, "limit"),
			Descending: rapid.Bool().Draw(rt, "desc"),
			NameFilter: rapid.SampledFrom(names).Draw(rt, "filter"),
		}
		if rapid.IntRange(0, 2).Draw(rt, "same") == 0 {
			req.EndTime = req.StartTime + rapid.Int64Range(-1, 1).Draw(rt, "d")
		}
		if rapid.IntRange(0, 3).Draw(rt, "good filter") > 0 && !filters[req.NameFilter] {
			req.NameFilter = ""
		}
		var types []logcache_v1.EnvelopeType
		unknown := false
		for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "types"); i < n; i++ {
			x := logcache_v1.EnvelopeType(rapid.SampledFrom([]int32{0, 0, 1, 2, 3, 4, 5, 5, 1, 2, 6, -1, 99}).Draw(rt, "type"))
			if x > 5 || x < 0 {
				if rapid.IntRange(0, 3).Draw(rt, "keep") > 0 {
					x = 3
				} else {
					unknown = true
				}
			}
			req.EnvelopeTypes = append(req.EnvelopeTypes, x)
			if x != logcache_v1.EnvelopeType_ANY {
				types = append(types, x)
			}
		}
		st := &recordingStore{}
		for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "envelopes"); i < n; i++ {
			st.envs = append(st.envs, vh.Env(rt, rapid.SampledFrom(vh.Types).Draw(rt, "kind"), "s", rapid.Int64Range(0, 5).Draw(rt, "ts")))
		}
		want := make([]*loggregator_v2.Envelope, len(st.envs))
		for i, e := range st.envs {
			want[i] = proto.Clone(e).(*loggregator_v2.Envelope)
		}
		in := proto.Clone(req).(*logcache_v1.ReadRequest)

		var resp *logcache_v1.ReadResponse
		var err error
		var now time.Time
		if berr := vh.Bubble(t, func() {
			time.Sleep(time.Duration(rapid.Int64Range(0, 2e9).Draw(rt, "later")))
			now = time.Now()
			resp, err = routing.NewLocalStoreReader(st).Read(context.Background(), req)
		}); berr != nil {
			rt.Fatalf("%s", berr)
		}

		bad := in.Limit < 0 || in.Limit > 1000 || in.EndTime != 0 && in.StartTime > in.EndTime || !filters[in.NameFilter] || unknown
		c.ClassIf(bad, "invalid")
		c.ClassIf(!bad && in.EndTime == 0, "end is now")
		c.ClassIf(!bad && in.Limit == 0, "default limit")
		c.If(bad || in.EndTime == 0 || in.Limit == 0 || len(types) < len(in.EnvelopeTypes), vh.Str(in))
		if bad {
			if err == nil {
				rt.Fatalf("%s is accepted", vh.Str(in))
			}
			if len(st.calls) > 0 {
				rt.Fatalf("%s is refused, but reached the store", vh.Str(in))
			}
			return
		}
		if err != nil {
			rt.Fatalf("%s is refused: %s", vh.Str(in), err)
		}
		if len(st.calls) != 1 {
			rt.Fatalf("%s made %d reads of the store", vh.Str(in), len(st.calls))
		}
		g := st.calls[0]
		end, limit := in.EndTime, int(in.Limit)
		if end == 0 {
			end = now.UnixNano()
		}
		if limit == 0 {
			limit = 100
		}
		if g.source != in.SourceId || g.start.UnixNano() != in.StartTime || g.end.UnixNano() != end || g.limit != limit || g.desc != in.Descending {
			rt.Fatalf("%s became %+v", vh.Str(in), g)
		}
		if (g.filter == nil) != (in.NameFilter == "") || g.filter != nil && g.filter.String() != in.NameFilter {
			rt.Fatalf("the filter of %s became %v", vh.Str(in), g.filter)
		}
		// The store takes types as a set; none means any.
		if fmt.Sprint(set(g.types)) != fmt.Sprint(set(types)) {
			rt.Fatalf("the types of %s became %v", vh.Str(in), g.types)
		}
		if len(resp.GetEnvelopes().GetBatch()) != len(want) {
			rt.Fatalf("the store gave %d envelopes, the answer has %d", len(want), len(resp.GetEnvelopes().GetBatch()))
		}
		for i, e := range resp.GetEnvelopes().GetBatch() {
			if !proto.Equal(e, want[i]) {
				rt.Fatalf("the store gave %s at %d, the answer has %s", vh.Str(want[i]), i, vh.Str(e))
			}
		}
	})
}

func set(l []logcache_v1.EnvelopeType) map[logcache_v1.EnvelopeType]bool {
	m := map[logcache_v1.EnvelopeType]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func TestC22_Meta(t *testing.T) {
	vh.Check(t, vh.N(500, 20000), "the store has two sources or more", func(rt *rapid.T, c *vh.Case) {
		st := &recordingStore{meta: map[string]logcache_v1.MetaInfo{}}
		for i, n := 0, rapid.IntRange(0, 6).Draw(rt, "n"); i < n; i++ {
			st.meta[rapid.SampledFrom([]string{"a", "b", "c", "d", "", "e/f"}).Draw(rt, "source")] = logcache_v1.MetaInfo{
				Count: rapid.Int64().Draw(rt, "count"), Expired: rapid.Int64().Draw(rt, "expired"),
				OldestTimestamp: rapid.Int64().Draw(rt, "oldest"), NewestTimestamp: rapid.Int64().Draw(rt, "newest"),
			}
		}
		resp, err := routing.NewLocalStoreReader(st).Meta(context.Background(), &logcache_v1.MetaRequest{LocalOnly: rapid.Bool().Draw(rt, "local")})
		if err != nil {
			rt.Fatalf("meta: %s", err)
		}
		if len(resp.Meta) != len(st.meta) {
			rt.Fatalf("%d sources became %d", len(st.meta), len(resp.Meta))
		}
		for k, v := range st.meta {
			v := v
			if !proto.Equal(resp.Meta[k], &v) {
				rt.Fatalf("%q: %s became %s", k, vh.Str(&v), resp.Meta[k])
			}
		}
		c.If(len(st.meta) > 1, fmt.Sprint(vh.Keys(st.meta), len(st.meta), st.meta))
	})
}
