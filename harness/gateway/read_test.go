package gateway_test

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

var allTypes = []logcache_v1.EnvelopeType{
	logcache_v1.EnvelopeType_ANY, logcache_v1.EnvelopeType_LOG, logcache_v1.EnvelopeType_COUNTER,
	logcache_v1.EnvelopeType_GAUGE, logcache_v1.EnvelopeType_TIMER, logcache_v1.EnvelopeType_EVENT,
}

// sourceGen draws source ids, most of them with characters that mean something
// in a URL.
var sourceGen = rapid.Custom(func(t *rapid.T) string {
	if rapid.IntRange(0, 199).Draw(t, "long") == 77 {
		return strings.Repeat(rapid.SampledFrom([]string{"a", "Z9-", "é", "x/y."}).Draw(t, "part"), rapid.SampledFrom([]int{60, 1000, 5000, 20000}).Draw(t, "parts"))
	}

	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		return rapid.SampledFrom([]string{"7e3c1a52-4b1a-4f5f-9d5e-0c0f3b6a2f11", "doppler", "gorouter", "p.mysql"}).Draw(t, "plain")
	case 1:
		n := rapid.IntRange(1, 3).Draw(t, "segments")
		var segs []string
		for i := 0; i < n; i++ {
			segs = append(segs, rapid.StringMatching(`[a-z0-9._-]{1,6}`).Draw(t, "segment"))
		}
		return strings.Join(segs, "/")
	case 2:
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab01%?#&=+ ;:@!$'()*,[]\"<>\\^`{|}~/é€😀\u2028%2F%")), 1, 12, -1).Draw(t, "special")
	default:
		return rapid.StringN(1, 8, -1).Draw(t, "any")
	}
}).Filter(func(s string) bool { return plainSource(s) && okSource(s) })

var textGen = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "cpu", "a b", "é€😀", "<a&b>", "\u2028\u2029", "\x00\x1f\x7f", `"\\/`, "null", "%s%d", "\ufeff", "\ufffd"}),
	rapid.StringN(0, 10, -1),
)

var int64Gen = rapid.OneOf(
	rapid.Int64(), rapid.Int64Range(-3, 3),
	rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1600000000123456789}),
)

var uint64Gen = rapid.OneOf(
	rapid.Uint64(), rapid.Uint64Range(0, 3),
	rapid.SampledFrom([]uint64{math.MaxUint64, 1<<63 + 1, 1<<53 + 1}),
)

var floatGen = rapid.OneOf(
	rapid.Float64(),
	rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e-7, 123456789.123456789,
		math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 4.9406564584124654e-324}),
).Filter(func(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) })

func mapOf(t *rapid.T, label string, max int) map[string]string {
	m := map[string]string{}
	for i, n := 0, rapid.IntRange(0, max).Draw(t, label); i < n; i++ {
		m[textGen.Draw(t, label+" key")] = textGen.Draw(t, label+" value")
	}
	return m
}

var envelopeGen = rapid.Custom(func(t *rapid.T) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{
		Timestamp: int64Gen.Draw(t, "ts"), SourceId: textGen.Draw(t, "source"), InstanceId: textGen.Draw(t, "instance"),
		Tags: mapOf(t, "tags", 2),
	}
	if rapid.IntRange(0, 3).Draw(t, "deprecated") == 0 {
		e.DeprecatedTags = map[string]*loggregator_v2.Value{
			"t": {Data: &loggregator_v2.Value_Text{Text: textGen.Draw(t, "dt")}},
			"i": {Data: &loggregator_v2.Value_Integer{Integer: int64Gen.Draw(t, "di")}},
			"d": {Data: &loggregator_v2.Value_Decimal{Decimal: floatGen.Draw(t, "dd")}},
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "msg") {
	case 0:
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{
			Payload: rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "payload"),
			Type:    loggregator_v2.Log_Type(rapid.IntRange(0, 1).Draw(t, "logtype")),
		}}
	case 1:
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{
			Name: textGen.Draw(t, "name"), Delta: uint64Gen.Draw(t, "delta"), Total: uint64Gen.Draw(t, "total"),
		}}
	case 2:
		ms := map[string]*loggregator_v2.GaugeValue{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "gauges"); i < n; i++ {
			ms[textGen.Draw(t, "gname")] = &loggregator_v2.GaugeValue{Unit: textGen.Draw(t, "unit"), Value: floatGen.Draw(t, "value")}
		}
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: ms}}
	case 3:
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{
			Name: textGen.Draw(t, "name"), Start: int64Gen.Draw(t, "start"), Stop: int64Gen.Draw(t, "stop"),
		}}
	case 4:
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{
			Title: textGen.Draw(t, "title"), Body: textGen.Draw(t, "body"),
		}}
	}
	return e
})

// readOpts draws read options and, apart from them, what they mean.
func readOpts(t *rapid.T, want *logcache_v1.ReadRequest) (opts []client.ReadOption, desc string) {
	for _, k := range rapid.Permutation([]string{"limit", "end", "types", "desc", "name"}).Draw(t, "order") {
		if !rapid.Bool().Draw(t, "has "+k) {
			continue
		}
		desc += " " + k
		switch k {
		case "limit":
			n := rapid.OneOf(rapid.IntRange(0, 1000), rapid.Int()).Draw(t, "limit")
			want.Limit = int64(n)
			opts = append(opts, client.WithLimit(n))
		case "end":
			n := int64Gen.Draw(t, "end")
			want.EndTime = n
			opts = append(opts, client.WithEndTime(time.Unix(0, n)))
		case "types":
			ts := rapid.SliceOfN(rapid.SampledFrom(allTypes), 0, 4).Draw(t, "types")
			want.EnvelopeTypes = append(want.EnvelopeTypes, ts...)
			opts = append(opts, client.WithEnvelopeTypes(ts...))
		case "desc":
			want.Descending = true
			opts = append(opts, client.WithDescending())
		case "name":
			s := rapid.OneOf(textGen, rapid.SampledFrom([]string{"^a.*b$", "a+b", "a&limit=3", "x;y", "100%", "[a-z]"})).Draw(t, "name")
			want.NameFilter = s
			opts = append(opts, client.WithNameFilter(s))
		}
	}
	return opts, desc
}

func sameEnvelopes(got, want []*loggregator_v2.Envelope) error {
	if len(got) != len(want) {
		return fmt.Errorf("got %d envelopes, want %d", len(got), len(want))
	}
	for i := range got {
		if !proto.Equal(got[i], want[i]) {
			return fmt.Errorf("envelope %d is\n%v\nwant\n%v", i, got[i], want[i])
		}
	}
	return nil
}

func TestC04_Read(t *testing.T) {
	vh.Check(t, vh.N(1500, 20000), "random source, options and answer; non-trivial: an option is set, or the answer is an error or has envelopes",
		func(rt *rapid.T, c *vh.Case) {
			source := sourceGen.Draw(rt, "source")
			start := int64Gen.Draw(rt, "start")
			want := &logcache_v1.ReadRequest{SourceId: source, StartTime: start}
			opts, desc := readOpts(rt, want)
			var sent []*loggregator_v2.Envelope
			var resp *logcache_v1.ReadResponse
			var serr error
			switch rapid.IntRange(0, 5).Draw(rt, "answer") {
			case 0:
				serr = serviceErr(rapid.SampledFrom(errCodes).Draw(rt, "code"), textGen.Draw(rt, "msg"))
				c.Class("error")
			case 1:
				resp = &logcache_v1.ReadResponse{}
				c.Class("no batch")
			default:
				sent = rapid.SliceOfN(envelopeGen, 0, 4).Draw(rt, "envelopes")
				resp = &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: sent}}
			}
			c.If(desc != "" || len(sent) > 0 || serr != nil, fmt.Sprintf("%q start=%d%s -> %v err=%v", source, start, desc, vh.Brief(sent), serr))
			for _, via := range []string{"gRPC", "HTTP"} {
				cl := viaGRPC
				if via == "HTTP" {
					cl = viaHTTP
				}
				theBackend.reset(func(b *backend) { b.read, b.err = resp, serr })
				var es []*loggregator_v2.Envelope
				var err error
				if p := vh.Try(func() { es, err = cl.Read(ctx(), source, time.Unix(0, start), opts...) }); p != nil {
					rt.Fatalf("via %s: %s", via, p)
				}
				calls := theBackend.take()
				if serr != nil {
					// A retried or refused request may be seen more often or
					// not at all, but only the caller's error is at stake.
					if err == nil || es != nil {
						rt.Fatalf("via %s: envelopes %v and error %v for the service's error %v", via, es, err, serr)
					}
				} else if err != nil {
					rt.Fatalf("via %s: error %v for source %q", via, err, source)
				} else if err := sameEnvelopes(es, sent); err != nil {
					rt.Fatalf("via %s: %s", via, err)
				}
				if err := sameCalls(calls, want); err != nil {
					rt.Fatalf("via %s: %s", via, err)
				}
			}
		})
}

func TestC04_Meta(t *testing.T) {
	vh.Check(t, vh.N(600, 8000), "random meta or error; non-trivial: at least one source, or an error",
		func(rt *rapid.T, c *vh.Case) {
			meta := map[string]*logcache_v1.MetaInfo{}
			var serr error
			if rapid.IntRange(0, 4).Draw(rt, "answer") == 0 {
				serr = serviceErr(rapid.SampledFrom(errCodes).Draw(rt, "code"), textGen.Draw(rt, "msg"))
			} else {
				for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "sources"); i < n; i++ {
					meta[textGen.Draw(rt, "source")] = &logcache_v1.MetaInfo{
						Count: int64Gen.Draw(rt, "count"), Expired: int64Gen.Draw(rt, "expired"),
						OldestTimestamp: int64Gen.Draw(rt, "oldest"), NewestTimestamp: int64Gen.Draw(rt, "newest"),
					}
				}
			}
			want := &logcache_v1.MetaResponse{Meta: meta}
			c.If(serr != nil || len(meta) > 0, fmt.Sprintf("%v err=%v", want, serr))
			for _, via := range []string{"gRPC", "HTTP"} {
				cl := viaGRPC
				if via == "HTTP" {
					cl = viaHTTP
				}
				theBackend.reset(func(b *backend) { b.meta, b.err = want, serr })
				got, err := cl.Meta(ctx())
				calls := theBackend.take()
				if serr != nil {
					if err == nil || got != nil {
						rt.Fatalf("via %s: meta %v and error %v for the service's error %v", via, got, err, serr)
					}
				} else if err != nil {
					rt.Fatalf("via %s: error %v", via, err)
				} else if !proto.Equal(&logcache_v1.MetaResponse{Meta: got}, want) {
					rt.Fatalf("via %s: got %v, want %v", via, got, want)
				}
				if err := sameCalls(calls, &logcache_v1.MetaRequest{}); err != nil {
					rt.Fatalf("via %s: %s", via, err)
				}
			}
		})
}

func okSource(s string) bool { return true }
