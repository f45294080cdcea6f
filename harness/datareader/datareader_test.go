package datareader_test

import (
	"context"
	"errors"
	"fmt"
	"net/url"
	"strconv"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/internal/promql/data_reader"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

// cache is a cache with faults: fails tells how many reads fail before each
// good one.
type cache struct {
	content []*loggregator_v2.Envelope // in order
	source  string
	fails   []int
	good    int
	failed  int
	delay   time.Duration
	burst   int // the longest run of failures
	reads   int
	deaf    bool // to the context
	problem error
}

func (c *cache) read(ctx context.Context, source string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
	c.reads++
	if c.reads > 2000 {
		c.problem = errors.New("2000 reads")
		return nil, nil
	}
	q := url.Values{}
	for _, o := range opts {
		o(&url.URL{}, q)
	}
	time.Sleep(c.delay)
	if err := ctx.Err(); err != nil && !c.deaf {
		return nil, err
	}
	if c.good < len(c.fails) && c.failed < c.fails[c.good] {
		c.failed++
		if c.failed > c.burst {
			c.burst = c.failed
		}
		return nil, errors.New("node gone")
	}
	c.good++
	c.failed = 0
	if source != c.source {
		return nil, nil
	}
	limit := 100
	if n, err := strconv.Atoi(q.Get("limit")); err == nil && n > 0 {
		limit = n
	}
	end := int64(1<<63 - 1)
	if q.Get("end_time") != "" {
		end, _ = strconv.ParseInt(q.Get("end_time"), 10, 64)
	}
	types := map[string]bool{}
	for _, x := range q["envelope_types"] {
		types[x] = x != "ANY"
	}
	var out []*loggregator_v2.Envelope
	for _, e := range c.content {
		if e.Timestamp < start.UnixNano() || e.Timestamp >= end {
			continue
		}
		if len(types) > 0 && !types["ANY"] && !types[vh.EnvelopeType[vh.TypeOf(e)].String()] {
			continue
		}
		if len(out) >= limit && out[len(out)-1].Timestamp != e.Timestamp {
			break
		}
		out = append(out, e)
	}
	return out, nil
}

func TestC15_Read(t *testing.T) {
	vh.Check(t, vh.N(5000, 80000), "random content, window, page limit and faults; non-trivial: two pages or more, or a fault",
		func(rt *rapid.T, c *vh.Case) {
			// All is in the past: the bubble's time starts in the year 2000.
			base := time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC).UnixNano()
			n := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(95, 230)).Draw(rt, "envelopes")
			if rapid.IntRange(0, 199).Draw(rt, "many") == 77 {
				n = rapid.SampledFrom([]int{2000, 12000, 25000, 40000}).Draw(rt, "many envelopes")
			}
			cc := &cache{source: "src", delay: time.Duration(rapid.SampledFrom([]int{0, 0, 10, 1500}).Draw(rt, "delay")) * time.Millisecond}
			ts := base
			big := n > 50
			for i := 0; i < n; i++ {
				if big {
					ts += int64(i%7) / 3
					cc.content = append(cc.content, &loggregator_v2.Envelope{SourceId: "src", Timestamp: ts, InstanceId: strconv.Itoa(i),
						Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Total: uint64(i)}}})
					continue
				}
				ts += rapid.Int64Range(0, 3).Draw(rt, "gap")
				e := vh.Env(rt, rapid.SampledFrom([]string{"counter", "gauge", "timer", "log", "event"}).Draw(rt, "type"), "src", ts)
				e.InstanceId = strconv.Itoa(i)
				cc.content = append(cc.content, e)
			}
			req := &logcache_v1.ReadRequest{
				SourceId:  "src",
				StartTime: base + rapid.Int64Range(-2, 6).Draw(rt, "start"),
				Limit:     int64(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 100}).Draw(rt, "limit")),
			}
			if big && req.Limit != 0 && req.Limit < 100 {
				req.Limit += 20
			}
			if n >= 2000 {
				req.Limit = int64(rapid.SampledFrom([]int{0, 100, 1000}).Draw(rt, "large limit"))
				c.Class("many pages")
			}
			req.EndTime = req.StartTime + rapid.OneOf(rapid.Int64Range(1, 12), rapid.Int64Range(1, 2*24*int64(time.Hour)), rapid.Just(int64(100))).Draw(rt, "span")
			if n >= 2000 {
				req.EndTime = req.StartTime + rapid.SampledFrom([]int64{1000, 9000, 20000, 40000}).Draw(rt, "large span")
			}
			for _, x := range rapid.SliceOfN(rapid.SampledFrom([]string{"counter", "gauge", "timer", "log"}), 0, 3).Draw(rt, "types") {
				if big {
					x = "counter"
				}
				req.EnvelopeTypes = append(req.EnvelopeTypes, vh.EnvelopeType[x])
			}
			cc.fails = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4, 5, 9}), 0, 5).Draw(rt, "failures")
			cancelAfter := time.Duration(-1)
			if rapid.IntRange(0, 3).Draw(rt, "cancel") == 0 {
				cancelAfter = time.Duration(rapid.IntRange(0, 9000).Draw(rt, "after")) * time.Millisecond
			}
			if cancelAfter >= 0 {
				cancelAfter += time.Millisecond / 2 // never at the time of a read
			}
			cc.deaf = rapid.Bool().Draw(rt, "deaf")
			deadline := rapid.Bool().Draw(rt, "deadline")

			var want []*loggregator_v2.Envelope
			types := map[logcache_v1.EnvelopeType]bool{}
			for _, x := range req.EnvelopeTypes {
				types[x] = true
			}
			for _, e := range cc.content {
				if e.Timestamp >= req.StartTime && e.Timestamp < req.EndTime && (len(types) == 0 || types[vh.EnvelopeType[vh.TypeOf(e)]]) {
					want = append(want, e)
				}
			}
			var resp *logcache_v1.ReadResponse
			var err, ctxErr error
			given := proto.Clone(req).(*logcache_v1.ReadRequest)
			if p := vh.Bubble(t, func() {
				ctx, cancel := context.WithCancel(context.Background())
				if cancelAfter >= 0 {
					if deadline {
						ctx, cancel = context.WithTimeout(context.Background(), cancelAfter)
					} else {
						time.AfterFunc(cancelAfter, cancel)
					}
				}
				resp, err = data_reader.NewWalkingDataReader(cc.read).Read(ctx, given)
				ctxErr = ctx.Err()
				cancel()
			}); p != nil {
				rt.Fatalf("%s", p)
			}
			c.If(cc.good > 1 || cc.burst > 0, fmt.Sprintf("[%s] %v failures=%v cancel=%s", vh.Brief(cc.content[:min(len(cc.content), 12)]), req, cc.fails, cancelAfter))
			c.ClassIf(cc.good > 1, "pages")
			c.ClassIf(cc.burst > 0, "failures")
			c.ClassIf(err != nil, "error")
			if cc.problem != nil {
				rt.Fatalf("%s", cc.problem)
			}
			if err != nil {
				if ctxErr == nil && cc.burst == 0 {
					rt.Fatalf("error %v, but no read failed", err)
				}
				if ctxErr == nil && cc.burst < 5 {
					rt.Fatalf("error %v after no more than %d failures in a row", err, cc.burst)
				}
				if resp != nil && len(resp.GetEnvelopes().GetBatch()) > 0 {
					rt.Fatalf("envelopes along with error %v", err)
				}
				return
			}
			if ctxErr != nil {
				rt.Fatalf("no error, but the context ended: %v", ctxErr)
			}
			got := resp.GetEnvelopes().GetBatch()
			if len(got) != len(want) {
				rt.Fatalf("%d envelopes [%s], want %d [%s] (%d failures in a row, context %v)", len(got), vh.Brief(got), len(want), vh.Brief(want), cc.burst, ctxErr)
			}
			for i := range got {
				if !proto.Equal(got[i], want[i]) {
					rt.Fatalf("envelope %d is %v, want %v", i, got[i], want[i])
				}
			}
		})
}

// TestC15_Concurrent reads several windows through one reader at once, as the
// queries of a node do. The faults of one read are none of another's.
func TestC15_Concurrent(t *testing.T) {
	vh.Check(t, vh.N(300, 6000), "random content, windows and faults of concurrent reads; non-trivial: one of them meets a fault, another none",
		func(rt *rapid.T, c *vh.Case) {
			base := time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC).UnixNano()
			type one struct {
				cc   *cache
				req  *logcache_v1.ReadRequest
				resp *logcache_v1.ReadResponse
				err  error
			}
			bySource := map[string]*cache{}
			var all []*one
			faults, clean := false, false
			n := rapid.IntRange(2, 6).Draw(rt, "reads")
			for i := 0; i < n; i++ {
				source := "src-" + strconv.Itoa(i)
				cc := &cache{source: source, delay: time.Duration(rapid.SampledFrom([]int{0, 0, 0, 500, 1000}).Draw(rt, "delay")) * time.Millisecond}
				ts := base
				for k := rapid.IntRange(0, 12).Draw(rt, "envelopes"); k > 0; k-- {
					ts += rapid.Int64Range(0, 2).Draw(rt, "gap")
					cc.content = append(cc.content, &loggregator_v2.Envelope{SourceId: source, Timestamp: ts, InstanceId: strconv.Itoa(k),
						Message: &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{Name: "c", Total: uint64(k)}}})
				}
				cc.fails = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 4, 9}), 0, 3).Draw(rt, "failures")
				bySource[source] = cc
				all = append(all, &one{cc: cc, req: &logcache_v1.ReadRequest{SourceId: source, StartTime: base, EndTime: base + rapid.Int64Range(1, 30).Draw(rt, "span"),
					Limit: int64(rapid.SampledFrom([]int{1, 2, 100}).Draw(rt, "limit"))}})
			}
			if p := vh.Bubble(t, func() {
				r := data_reader.NewWalkingDataReader(func(ctx context.Context, source string, start time.Time, opts ...client.ReadOption) ([]*loggregator_v2.Envelope, error) {
					return bySource[source].read(ctx, source, start, opts...)
				})
				done := make(chan struct{})
				for _, o := range all {
					o := o
					go func() {
						defer func() { done <- struct{}{} }()
						o.resp, o.err = r.Read(context.Background(), o.req)
					}()
				}
				for range all {
					<-done
				}
			}); p != nil {
				rt.Fatalf("%s", p)
			}
			for _, o := range all {
				faults = faults || o.cc.burst > 0
				clean = clean || o.cc.burst == 0
			}
			c.If(faults && clean, fmt.Sprintf("%d %d", n, len(all[0].cc.content)))
			for i, o := range all {
				if o.cc.problem != nil {
					rt.Fatalf("read %d: %s", i, o.cc.problem)
				}
				if o.err != nil {
					if o.cc.burst < 5 {
						rt.Fatalf("read %d: error %v after no more than %d failures in a row", i, o.err, o.cc.burst)
					}
					continue
				}
				if o.cc.burst >= 5 {
					rt.Fatalf("read %d: no error after %d failures in a row", i, o.cc.burst)
				}
				var want []*loggregator_v2.Envelope
				for _, e := range o.cc.content {
					if e.Timestamp < o.req.EndTime {
						want = append(want, e)
					}
				}
				got := o.resp.GetEnvelopes().GetBatch()
				if len(got) != len(want) {
					rt.Fatalf("read %d: %d envelopes [%s], want [%s]", i, len(got), vh.Brief(got), vh.Brief(want))
				}
				for k := range got {
					if !proto.Equal(got[k], want[k]) {
						rt.Fatalf("read %d: envelope %d is %v, want %v", i, k, got[k], want[k])
					}
				}
			}
		})
}
