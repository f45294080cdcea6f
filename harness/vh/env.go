package vh

import (
	"fmt"
	"sort"
	"strings"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

// Types of messages an envelope can have.
var Types = []string{"log", "counter", "gauge", "timer", "event"}

// NameGen draws metric names from a small set, so that names collide.
var NameGen = rapid.SampledFrom([]string{"cpu", "mem", "http", "cpu_total", "disk.io", "a-b"})

// Env draws an envelope of a given type, timestamp and source.
func Env(rt *rapid.T, typ, source string, ts int64) *loggregator_v2.Envelope {
	e := &loggregator_v2.Envelope{
		Timestamp:  ts,
		SourceId:   source,
		InstanceId: rapid.SampledFrom([]string{"", "0", "1"}).Draw(rt, "instance"),
		Tags:       TagsGen.Draw(rt, "tags"),
	}
	switch typ {
	case "log":
		e.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{
			Payload: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "payload"),
			Type:    loggregator_v2.Log_Type(rapid.IntRange(0, 1).Draw(rt, "logtype")),
		}}
	case "counter":
		e.Message = &loggregator_v2.Envelope_Counter{Counter: &loggregator_v2.Counter{
			Name:  NameGen.Draw(rt, "name"),
			Delta: uint64(rapid.IntRange(0, 9).Draw(rt, "delta")),
			Total: uint64(rapid.IntRange(0, 1000).Draw(rt, "total")),
		}}
	case "gauge":
		ms := map[string]*loggregator_v2.GaugeValue{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "gauges"); i < n; i++ {
			ms[NameGen.Draw(rt, "name")] = &loggregator_v2.GaugeValue{
				Unit:  rapid.SampledFrom([]string{"", "ms", "bytes"}).Draw(rt, "unit"),
				Value: float64(rapid.IntRange(-5, 50).Draw(rt, "value")) / 4,
			}
		}
		e.Message = &loggregator_v2.Envelope_Gauge{Gauge: &loggregator_v2.Gauge{Metrics: ms}}
	case "timer":
		st := int64(rapid.IntRange(0, 50).Draw(rt, "start"))
		e.Message = &loggregator_v2.Envelope_Timer{Timer: &loggregator_v2.Timer{
			Name: NameGen.Draw(rt, "name"), Start: st, Stop: st + int64(rapid.IntRange(0, 50).Draw(rt, "dur")),
		}}
	case "event":
		e.Message = &loggregator_v2.Envelope_Event{Event: &loggregator_v2.Event{
			Title: NameGen.Draw(rt, "title"), Body: "b",
		}}
	case "none":
	default:
		Harness("type %q", typ)
	}
	return e
}

// TagsGen draws small tag sets.
var TagsGen = rapid.Custom(func(t *rapid.T) map[string]string {
	var m map[string]string
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "ntags"); i < n; i++ {
		if m == nil {
			m = map[string]string{}
		}
		m[rapid.SampledFrom([]string{"job", "az", "deployment"}).Draw(t, "tag")] = rapid.SampledFrom([]string{"a", "b", "c-d"}).Draw(t, "tagv")
	}
	return m
})

// TypeOf is the envelope's message as one of Types, or "none".
func TypeOf(e *loggregator_v2.Envelope) string {
	switch e.GetMessage().(type) {
	case *loggregator_v2.Envelope_Log:
		return "log"
	case *loggregator_v2.Envelope_Counter:
		return "counter"
	case *loggregator_v2.Envelope_Gauge:
		return "gauge"
	case *loggregator_v2.Envelope_Timer:
		return "timer"
	case *loggregator_v2.Envelope_Event:
		return "event"
	}
	return "none"
}

// EnvelopeType maps Types to the API's enumeration.
var EnvelopeType = map[string]logcache_v1.EnvelopeType{
	"log": logcache_v1.EnvelopeType_LOG, "counter": logcache_v1.EnvelopeType_COUNTER,
	"gauge": logcache_v1.EnvelopeType_GAUGE, "timer": logcache_v1.EnvelopeType_TIMER,
	"event": logcache_v1.EnvelopeType_EVENT, "any": logcache_v1.EnvelopeType_ANY,
}

// Log is a small distinguishable log envelope.
func Log(source string, ts int64, payload string) *loggregator_v2.Envelope {
	return &loggregator_v2.Envelope{
		SourceId: source, Timestamp: ts,
		Message: &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte(payload)}},
	}
}

// Payload is the payload of a log envelope.
func Payload(e *loggregator_v2.Envelope) string { return string(e.GetLog().GetPayload()) }

// Multiset renders messages as a sorted list, for comparison as a multiset.
func Multiset(es []*loggregator_v2.Envelope) []string {
	out := make([]string, 0, len(es))
	for _, e := range es {
		out = append(out, Str(e))
	}
	sort.Strings(out)
	return out
}

// Str renders a message.
func Str(m proto.Message) string { return proto.CompactTextString(m) }

// Brief renders envelopes shortly.
func Brief(es []*loggregator_v2.Envelope) string {
	var b strings.Builder
	for i, e := range es {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d:%s", e.GetTimestamp(), TypeOf(e))
		if e.GetLog() != nil {
			fmt.Fprintf(&b, "=%s", Payload(e))
		}
	}
	return b.String()
}
