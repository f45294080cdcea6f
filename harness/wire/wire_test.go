package wire_test

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/descriptor"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	descpb "github.com/golang/protobuf/protoc-gen-go/descriptor"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
)

type draws struct{ rt *rapid.T }

func (d draws) choose(n int, what string) int { return rapid.IntRange(0, n-1).Draw(d.rt, what) }

var texts = rapid.OneOf(rapid.StringN(0, 12, -1), rapid.SampledFrom([]string{"some-id", "a/b:c", "é\x00", "123.456", `{"x"}`}))

// gen generates a message of the definition.
func gen(rt *rapid.T, name string, depth int) *model {
	m := &model{name: name, fields: map[int]interface{}{}}
	var oneof []field
	for _, f := range schema[name] {
		if f.oneof != "" {
			oneof = append(oneof, f)
		}
	}
	if len(oneof) > 0 {
		k := rapid.IntRange(0, len(oneof)).Draw(rt, "which")
		if k > 0 {
			m.fields[k] = gen(rt, oneof[k-1].of, depth+1)
		}
		return m
	}
	for _, f := range schema[name] {
		if rapid.IntRange(0, 3).Draw(rt, "default") == 0 {
			continue
		}
		switch {
		case f.mapped:
			x := map[string]interface{}{}
			for k := rapid.IntRange(1, 3).Draw(rt, "entries"); k > 0; k-- {
				if f.kind == message {
					x[texts.Draw(rt, "key")] = gen(rt, f.of, depth+1)
				} else {
					x[texts.Draw(rt, "key")] = texts.Draw(rt, "value")
				}
			}
			m.fields[f.num] = x
		case f.repeated:
			var l []interface{}
			for k := rapid.IntRange(1, 4).Draw(rt, "elements"); k > 0; k-- {
				if f.kind == message {
					l = append(l, gen(rt, f.of, depth+1))
				} else {
					l = append(l, value(rt, f.kind))
				}
			}
			m.fields[f.num] = l
		case f.kind == message:
			m.fields[f.num] = gen(rt, f.of, depth+1)
		default:
			v := value(rt, f.kind)
			if v == defaultOf(f.kind) && f.kind != envelopes {
				continue
			}
			m.fields[f.num] = v
		}
	}
	return m
}

func value(rt *rapid.T, k kind) interface{} {
	switch k {
	case str:
		return texts.Draw(rt, "text")
	case i64:
		return rapid.OneOf(rapid.Int64(), rapid.Int64Range(-3, 300)).Draw(rt, "int64")
	case u64:
		return rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 300)).Draw(rt, "uint64")
	case boolean:
		return rapid.Bool().Draw(rt, "bool")
	case double:
		v := rapid.OneOf(rapid.Float64(), rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 1, math.MaxFloat64, 5e-324})).Draw(rt, "double")
		if v == 0 { // a negative zero is the library's affair
			return float64(0)
		}
		return v
	case enum:
		return rapid.Int32Range(0, 5).Draw(rt, "enum")
	}
	e := &loggregator_v2.EnvelopeBatch{}
	for k := rapid.IntRange(0, 2).Draw(rt, "envelopes"); k > 0; k-- {
		x := vh.Env(rt, rapid.SampledFrom(vh.Types).Draw(rt, "type"), "id", 5)
		x.Tags, x.DeprecatedTags = nil, nil
		if g := x.GetGauge(); g != nil {
			x.Message = &loggregator_v2.Envelope_Log{Log: &loggregator_v2.Log{Payload: []byte("no map")}}
		}
		e.Batch = append(e.Batch, x)
	}
	b, err := proto.Marshal(e)
	vh.Must(err)
	return append([]byte{}, b...)
}

func camel(s string) string {
	var b strings.Builder
	for _, p := range strings.Split(s, "_") {
		b.WriteString(strings.ToUpper(p[:1]) + p[1:])
	}
	return b.String()
}

func lowerCamel(s string) string { c := camel(s); return strings.ToLower(c[:1]) + c[1:] }

var wrappers = map[string]func(proto.Message) interface{}{
	"PromQL_InstantQueryResult.scalar": func(m proto.Message) interface{} {
		return &rpc.PromQL_InstantQueryResult_Scalar{Scalar: m.(*rpc.PromQL_Scalar)}
	},
	"PromQL_InstantQueryResult.vector": func(m proto.Message) interface{} {
		return &rpc.PromQL_InstantQueryResult_Vector{Vector: m.(*rpc.PromQL_Vector)}
	},
	"PromQL_InstantQueryResult.matrix": func(m proto.Message) interface{} {
		return &rpc.PromQL_InstantQueryResult_Matrix{Matrix: m.(*rpc.PromQL_Matrix)}
	},
	"PromQL_RangeQueryResult.matrix": func(m proto.Message) interface{} {
		return &rpc.PromQL_RangeQueryResult_Matrix{Matrix: m.(*rpc.PromQL_Matrix)}
	},
}

// build makes the Go message of a model through its exported fields.
func build(m *model) proto.Message {
	msg := fresh[m.name]()
	v := reflect.ValueOf(msg).Elem()
	for _, f := range schema[m.name] {
		x, ok := m.fields[f.num]
		if !ok {
			continue
		}
		if f.oneof != "" {
			v.FieldByName(f.oneof).Set(reflect.ValueOf(wrappers[m.name+"."+f.name](build(x.(*model)))))
			continue
		}
		to := v.FieldByName(camel(f.name))
		switch y := x.(type) {
		case []interface{}:
			for _, e := range y {
				to.Set(reflect.Append(to, goValue(f, e, to.Type().Elem())))
			}
		case map[string]interface{}:
			to.Set(reflect.MakeMap(to.Type()))
			for k, e := range y {
				to.SetMapIndex(reflect.ValueOf(k), goValue(f, e, to.Type().Elem()))
			}
		default:
			to.Set(goValue(f, x, to.Type()))
		}
	}
	return msg
}

func goValue(f field, x interface{}, t reflect.Type) reflect.Value {
	switch f.kind {
	case message:
		return reflect.ValueOf(build(x.(*model)))
	case envelopes:
		e := &loggregator_v2.EnvelopeBatch{}
		vh.Must(proto.Unmarshal(x.([]byte), e))
		return reflect.ValueOf(e)
	case enum:
		return reflect.ValueOf(rpc.EnvelopeType(x.(int32)))
	}
	return reflect.ValueOf(x)
}

// read takes a Go message's content through its getters.
func read(name string, msg proto.Message) *model {
	m := &model{name: name, fields: map[int]interface{}{}}
	v := reflect.ValueOf(msg)
	for _, f := range schema[name] {
		got := v.MethodByName("Get" + camel(f.name)).Call(nil)[0]
		switch {
		case f.mapped:
			x := map[string]interface{}{}
			for _, k := range got.MapKeys() {
				x[k.String()] = back(f, got.MapIndex(k))
			}
			if len(x) > 0 {
				m.fields[f.num] = x
			}
		case f.repeated:
			var l []interface{}
			for i := 0; i < got.Len(); i++ {
				l = append(l, back(f, got.Index(i)))
			}
			if len(l) > 0 {
				m.fields[f.num] = l
			}
		case f.kind == message || f.kind == envelopes:
			if !got.IsNil() {
				m.fields[f.num] = back(f, got)
			}
		default:
			if x := back(f, got); x != defaultOf(f.kind) {
				m.fields[f.num] = x
			}
		}
	}
	return m
}

func back(f field, v reflect.Value) interface{} {
	switch f.kind {
	case message:
		return read(f.of, v.Interface().(proto.Message))
	case envelopes:
		b, err := proto.Marshal(v.Interface().(proto.Message))
		vh.Must(err)
		return append([]byte{}, b...)
	case enum:
		return int32(v.Int())
	}
	return v.Interface()
}

// JSON is the form of a model by proto3's mapping.
func (m *model) JSON(original bool) map[string]interface{} {
	r := map[string]interface{}{}
	one := func(f field, v interface{}) interface{} {
		switch x := v.(type) {
		case *model:
			return x.JSON(original)
		case int64:
			return strconv.FormatInt(x, 10)
		case uint64:
			return strconv.FormatUint(x, 10)
		case int32:
			return enumNames[x]
		case float64:
			switch {
			case x != x:
				return "NaN"
			case math.IsInf(x, 1):
				return "Infinity"
			case math.IsInf(x, -1):
				return "-Infinity"
			}
		case []byte:
			e := &loggregator_v2.EnvelopeBatch{}
			vh.Must(proto.Unmarshal(x, e))
			s, err := (&jsonpb.Marshaler{OrigName: original}).MarshalToString(e)
			vh.Must(err)
			var g interface{}
			vh.Must(json.Unmarshal([]byte(s), &g))
			return g
		}
		return v
	}
	for _, f := range schema[m.name] {
		v, ok := m.fields[f.num]
		if !ok {
			continue
		}
		k := lowerCamel(f.name)
		if original {
			k = f.name
		}
		switch x := v.(type) {
		case []interface{}:
			var l []interface{}
			for _, e := range x {
				l = append(l, one(f, e))
			}
			r[k] = l
		case map[string]interface{}:
			g := map[string]interface{}{}
			for n, e := range x {
				g[n] = one(f, e)
			}
			r[k] = g
		default:
			r[k] = one(f, v)
		}
	}
	return r
}

func TestC45_Messages(t *testing.T) {
	vh.Check(t, vh.N(6000, 300000), "a message with fields", func(rt *rapid.T, c *vh.Case) {
		name := rapid.SampledFrom(names()).Draw(rt, "message")
		m := gen(rt, name, 0)
		c.Class(name)
		c.If(len(m.fields) > 0, m.String())
		want := m.String()
		// what is written is the definition's form
		msg := build(m)
		if got := read(name, msg).String(); got != want {
			rt.Fatalf("the getters give %s, want %s", got, want)
		}
		b, err := proto.Marshal(msg)
		if err != nil {
			rt.Fatalf("%s: %s", want, err)
		}
		if n := proto.Size(msg); n != len(b) {
			rt.Fatalf("%s: size %d, %d bytes", want, n, len(b))
		}
		d, err := decode(name, b)
		if err != nil || d.String() != want {
			rt.Fatalf("written as %x: %v, %v, want %s", b, d, err, want)
		}
		// any of its forms is read, and what is unknown is kept
		for k := rapid.IntRange(0, 3).Draw(rt, "unknown fields"); k > 0; k-- {
			n := rapid.IntRange(8, 5000).Draw(rt, "number")
			switch rapid.IntRange(0, 3).Draw(rt, "wire") {
			case 0:
				m.unknown = append(m.unknown, string(varint(tag(nil, n, 0), rapid.Uint64().Draw(rt, "value"))))
			case 1:
				m.unknown = append(m.unknown, string(append(tag(nil, n, 1), "12345678"...)))
			case 2:
				m.unknown = append(m.unknown, string(bytesField(nil, n, []byte(texts.Draw(rt, "value")))))
			case 3:
				m.unknown = append(m.unknown, string(append(tag(nil, n, 5), "1234"...)))
			}
		}
		form := encode(m, draws{rt})
		again := fresh[name]()
		if err := proto.Unmarshal(form, again); err != nil {
			rt.Fatalf("%x of %s: %s", form, m, err)
		}
		if got := read(name, again).String(); got != want {
			rt.Fatalf("%x is read as %s, want %s", form, got, want)
		}
		b, err = proto.Marshal(again)
		if err != nil {
			rt.Fatalf("%s: %s", m, err)
		}
		if d, err := decode(name, b); err != nil || d.String() != m.String() {
			rt.Fatalf("read from %x and written as %x: %v, %v, want %s", form, b, d, err, m)
		}
		// cut short it is an error, or a message without what is lacking
		cut := form[:rapid.IntRange(0, len(form)).Draw(rt, "cut")]
		d, derr := decode(name, cut)
		again = fresh[name]()
		if err := proto.Unmarshal(cut, again); (err == nil) != (derr == nil) {
			rt.Fatalf("%x is read with %v, want %v", cut, err, derr)
		} else if err == nil {
			d.unknown = nil
			if got := read(name, again).String(); got != strip(d).String() {
				rt.Fatalf("%x is read as %s, want %s", cut, got, strip(d))
			}
		}
		// after a reset nothing is left of it
		again = fresh[name]()
		vh.Must(proto.Unmarshal(form, again))
		again.Reset()
		if b, err := proto.Marshal(again); err != nil || len(b) > 0 {
			rt.Fatalf("read from %x and reset, it is written as %x, %v", form, b, err)
		}
		// clones, merges and comparisons
		m.unknown = nil
		cl := proto.Clone(msg)
		if got := read(name, cl).String(); got != want {
			rt.Fatalf("a clone is %s, want %s", got, want)
		}
		// the merge of two is what both have: the later one's values, the
		// elements of both, and messages within merged
		more := gen(rt, name, 0)
		proto.Merge(cl, build(more))
		if got := read(name, cl).String(); got != merged(m, more).String() {
			rt.Fatalf("%s and %s are merged to %s, want %s", want, more, got, merged(m, more))
		}
		if got := read(name, msg).String(); got != want {
			rt.Fatalf("a merge into a clone makes it %s, want %s", got, want)
		}
		cl.Reset()
		if got := read(name, cl).String(); got != name+"{}" {
			rt.Fatalf("a message after a reset is %s", got)
		}
		if got := read(name, msg).String(); got != want {
			rt.Fatalf("the reset of a clone makes it %s, want %s", got, want)
		}
		// JSON
		orig := rapid.Bool().Draw(rt, "original names")
		s, err := (&jsonpb.Marshaler{OrigName: orig}).MarshalToString(msg)
		if err != nil {
			rt.Fatalf("%s: %s", want, err)
		}
		var g interface{}
		if err := json.Unmarshal([]byte(s), &g); err != nil {
			rt.Fatalf("%s: %s", s, err)
		}
		x, err := json.Marshal(m.JSON(orig))
		vh.Must(err)
		var w interface{}
		vh.Must(json.Unmarshal(x, &w))
		if !reflect.DeepEqual(g, w) {
			rt.Fatalf("as JSON %s, want %s", s, x)
		}
		again = fresh[name]()
		if err := jsonpb.UnmarshalString(string(x), again); err != nil {
			rt.Fatalf("%s: %s", x, err)
		}
		if got := read(name, again).String(); got != want {
			rt.Fatalf("%s is read as %s, want %s", x, got, want)
		}
	})
}

// merged is the merge of two messages.
func merged(a, b *model) *model {
	m := &model{name: a.name, fields: map[int]interface{}{}}
	for k, v := range a.fields {
		m.fields[k] = v
	}
	for _, f := range schema[a.name] {
		v, ok := b.fields[f.num]
		if !ok {
			continue
		}
		if f.oneof != "" {
			for _, g := range schema[a.name] {
				if g.oneof == f.oneof && g.num != f.num {
					delete(m.fields, g.num)
				}
			}
		}
		old := m.fields[f.num]
		switch x := v.(type) {
		case []interface{}:
			o, _ := old.([]interface{})
			m.fields[f.num] = append(append([]interface{}{}, o...), x...)
		case map[string]interface{}:
			y := map[string]interface{}{}
			if o, ok := old.(map[string]interface{}); ok {
				for k, e := range o {
					y[k] = e
				}
			}
			for k, e := range x {
				y[k] = e
			}
			m.fields[f.num] = y
		case *model:
			if o, ok := old.(*model); ok {
				x = merged(o, x)
			}
			m.fields[f.num] = x
		case []byte: // a batch of envelopes, whose bytes are those of a repeated field
			o, _ := old.([]byte)
			m.fields[f.num] = append(append([]byte{}, o...), x...)
		default:
			m.fields[f.num] = x
		}
	}
	return m
}

// strip takes unknown fields away.
func strip(m *model) *model {
	m.unknown = nil
	each := func(v interface{}) {
		if x, ok := v.(*model); ok {
			strip(x)
		}
	}
	for _, v := range m.fields {
		each(v)
		if l, ok := v.([]interface{}); ok {
			for _, x := range l {
				each(x)
			}
		}
		if l, ok := v.(map[string]interface{}); ok {
			for _, x := range l {
				each(x)
			}
		}
	}
	return m
}

// ------------------------------------------------------------ descriptors

// TestC45_Descriptors: what the code says about the messages is their definition.
func TestC45_Descriptors(t *testing.T) {
	vh.Check(t, vh.N(300, 3000), "a message with fields", func(rt *rapid.T, c *vh.Case) {
		name := rapid.SampledFrom(names()).Draw(rt, "message")
		c.If(len(schema[name]) > 0, name)
		full := "logcache.v1." + strings.Replace(name, "_", ".", 1)
		if got := proto.MessageName(fresh[name]()); got != full {
			rt.Fatalf("the name of %s is %s", name, got)
		}
		if typ := proto.MessageType(full); typ != reflect.TypeOf(fresh[name]()) {
			rt.Fatalf("%s is %v", full, typ)
		}
		_, d := descriptor.ForMessage(fresh[name]().(descriptor.Message))
		var got, want []string
		for _, f := range d.Field {
			got = append(got, fmt.Sprintln(f.GetNumber(), f.GetName(), f.GetType() != descpb.FieldDescriptorProto_TYPE_MESSAGE, f.GetLabel() == descpb.FieldDescriptorProto_LABEL_REPEATED, f.GetType()))
		}
		types := map[kind]string{str: "TYPE_STRING", i64: "TYPE_INT64", u64: "TYPE_UINT64", boolean: "TYPE_BOOL", double: "TYPE_DOUBLE", enum: "TYPE_ENUM", message: "TYPE_MESSAGE", envelopes: "TYPE_MESSAGE"}
		for _, f := range schema[name] {
			typ := types[f.kind]
			if f.mapped {
				typ = "TYPE_MESSAGE"
			}
			want = append(want, fmt.Sprintln(f.num, f.name, typ != "TYPE_MESSAGE", f.repeated || f.mapped, typ))
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			rt.Fatalf("the descriptor of %s has %v, want %v", name, got, want)
		}
		k := rapid.IntRange(0, 5).Draw(rt, "enum")
		if s := rpc.EnvelopeType(k).String(); s != enumNames[k] || rpc.EnvelopeType_value[enumNames[k]] != int32(k) || rpc.EnvelopeType_name[int32(k)] != enumNames[k] {
			rt.Fatalf("enum %d is %s", k, s)
		}
		for k, v := range []rpc.EnvelopeType{rpc.EnvelopeType_ANY, rpc.EnvelopeType_LOG, rpc.EnvelopeType_COUNTER, rpc.EnvelopeType_GAUGE, rpc.EnvelopeType_TIMER, rpc.EnvelopeType_EVENT} {
			if int(v) != k {
				rt.Fatalf("%s is %d", enumNames[int32(k)], v)
			}
		}
		// unknown fields can be discarded
		u := fresh[name]()
		vh.Must(proto.Unmarshal(bytesField(nil, rapid.IntRange(8, 5000).Draw(rt, "number"), []byte("x")), u))
		proto.DiscardUnknown(u)
		if b, err := proto.Marshal(u); err != nil || len(b) > 0 {
			rt.Fatalf("%s without its unknown fields is %x, %v", name, b, err)
		}
		// the getters of no message give defaults
		if m := read(name, reflect.Zero(reflect.TypeOf(fresh[name]())).Interface().(proto.Message)); len(m.fields) > 0 {
			rt.Fatalf("no %s has %s", name, m)
		}
	})
}

// ------------------------------------------------------------ services

type call struct{ service, method, in, out string }

var calls = []call{
	{"Egress", "Read", "ReadRequest", "ReadResponse"},
	{"Egress", "Meta", "MetaRequest", "MetaResponse"},
	{"Ingress", "Send", "SendRequest", "SendResponse"},
	{"Orchestration", "AddRange", "AddRangeRequest", "AddRangeResponse"},
	{"Orchestration", "RemoveRange", "RemoveRangeRequest", "RemoveRangeResponse"},
	{"Orchestration", "ListRanges", "ListRangesRequest", "ListRangesResponse"},
	{"Orchestration", "SetRanges", "SetRangesRequest", "SetRangesResponse"},
	{"PromQLQuerier", "InstantQuery", "PromQL_InstantQueryRequest", "PromQL_InstantQueryResult"},
	{"PromQLQuerier", "RangeQuery", "PromQL_RangeQueryRequest", "PromQL_RangeQueryResult"},
}

// raw hands bytes on.
type raw struct{}

func (raw) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (raw) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (raw) String() string { return "proto" }
func (raw) Name() string   { return "proto" }

// service implements all services; it records and answers as told.
type service struct {
	mu     sync.Mutex
	method string
	in     proto.Message
	out    proto.Message
	err    error
}

func (s *service) do(m string, in proto.Message) (proto.Message, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.method, s.in = m, in
	return s.out, s.err
}

func answer[T proto.Message](s *service, m string, in proto.Message) (T, error) {
	out, err := s.do(m, in)
	x, _ := out.(T)
	return x, err
}

type egress struct{ *service }

func (s egress) Read(_ context.Context, r *rpc.ReadRequest) (*rpc.ReadResponse, error) {
	return answer[*rpc.ReadResponse](s.service, "Egress.Read", r)
}
func (s egress) Meta(_ context.Context, r *rpc.MetaRequest) (*rpc.MetaResponse, error) {
	return answer[*rpc.MetaResponse](s.service, "Egress.Meta", r)
}

type ingress struct{ *service }

func (s ingress) Send(_ context.Context, r *rpc.SendRequest) (*rpc.SendResponse, error) {
	return answer[*rpc.SendResponse](s.service, "Ingress.Send", r)
}

type orchestration struct{ *service }

func (s orchestration) AddRange(_ context.Context, r *rpc.AddRangeRequest) (*rpc.AddRangeResponse, error) {
	return answer[*rpc.AddRangeResponse](s.service, "Orchestration.AddRange", r)
}
func (s orchestration) RemoveRange(_ context.Context, r *rpc.RemoveRangeRequest) (*rpc.RemoveRangeResponse, error) {
	return answer[*rpc.RemoveRangeResponse](s.service, "Orchestration.RemoveRange", r)
}
func (s orchestration) ListRanges(_ context.Context, r *rpc.ListRangesRequest) (*rpc.ListRangesResponse, error) {
	return answer[*rpc.ListRangesResponse](s.service, "Orchestration.ListRanges", r)
}
func (s orchestration) SetRanges(_ context.Context, r *rpc.SetRangesRequest) (*rpc.SetRangesResponse, error) {
	return answer[*rpc.SetRangesResponse](s.service, "Orchestration.SetRanges", r)
}

type querier struct{ *service }

func (s querier) InstantQuery(_ context.Context, r *rpc.PromQL_InstantQueryRequest) (*rpc.PromQL_InstantQueryResult, error) {
	return answer[*rpc.PromQL_InstantQueryResult](s.service, "PromQLQuerier.InstantQuery", r)
}
func (s querier) RangeQuery(_ context.Context, r *rpc.PromQL_RangeQueryRequest) (*rpc.PromQL_RangeQueryResult, error) {
	return answer[*rpc.PromQL_RangeQueryResult](s.service, "PromQLQuerier.RangeQuery", r)
}

func listen(s *grpc.Server) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	go s.Serve(l)
	return l.Addr().String()
}

// TestC45_Services: a call by bytes at the path of the definition reaches its
// method, and a client's call is one to that path.
func TestC45_Services(t *testing.T) {
	rec := &service{}
	// what the server's interceptor sees
	type passed struct {
		method string
		server interface{}
		in     proto.Message
	}
	var seen []passed
	srv := grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
		rec.mu.Lock()
		seen = append(seen, passed{info.FullMethod, info.Server, req.(proto.Message)})
		rec.mu.Unlock()
		return h(ctx, req)
	}))
	defer srv.Stop()
	rpc.RegisterEgressServer(srv, egress{rec})
	rpc.RegisterIngressServer(srv, ingress{rec})
	rpc.RegisterOrchestrationServer(srv, orchestration{rec})
	rpc.RegisterPromQLQuerierServer(srv, querier{rec})
	toCode, err := grpc.Dial(listen(srv), grpc.WithInsecure())
	vh.Must(err)
	defer toCode.Close()

	var mu sync.Mutex
	var path string
	var got, reply []byte
	var fails error
	byBytes := grpc.NewServer(grpc.CustomCodec(raw{}), grpc.UnknownServiceHandler(func(_ interface{}, st grpc.ServerStream) error {
		mu.Lock()
		defer mu.Unlock()
		path, _ = grpc.MethodFromServerStream(st)
		st.SetHeader(metadata.Pairs("path", path))
		if err := st.RecvMsg(&got); err != nil {
			return err
		}
		if fails != nil {
			return fails
		}
		return st.SendMsg(&reply)
	}))
	defer byBytes.Stop()
	conn, err := grpc.Dial(listen(byBytes), grpc.WithInsecure())
	vh.Must(err)
	defer conn.Close()
	clients := map[string]interface{}{
		"Egress": rpc.NewEgressClient(conn), "Ingress": rpc.NewIngressClient(conn),
		"Orchestration": rpc.NewOrchestrationClient(conn), "PromQLQuerier": rpc.NewPromQLQuerierClient(conn)}

	vh.Check(t, vh.N(1500, 40000), "each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		k := rapid.SampledFrom(calls).Draw(rt, "call")
		in, out := gen(rt, k.in, 0), gen(rt, k.out, 0)
		want := "/logcache.v1." + k.service + "/" + k.method
		c.NonTrivial(want + in.String() + out.String())
		c.Class(want)
		var failure error
		if rapid.IntRange(0, 4).Draw(rt, "fails") == 0 {
			failure = status.Error(codes.Code(rapid.IntRange(1, 16).Draw(rt, "code")), "why: é")
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		if rapid.Bool().Draw(rt, "the server is the code's") {
			rec.mu.Lock()
			rec.method, rec.in, rec.out, rec.err = "", nil, build(out), failure
			seen = nil
			rec.mu.Unlock()
			b, r := encode(in, draws{rt}), []byte(nil)
			err := toCode.Invoke(ctx, want, &b, &r, grpc.CallCustomCodec(raw{}))
			rec.mu.Lock()
			defer rec.mu.Unlock()
			if rec.method != k.service+"."+k.method {
				rt.Fatalf("%s reaches %q: %v", want, rec.method, err)
			}
			if g := read(k.in, rec.in).String(); g != in.String() {
				rt.Fatalf("%s gets %s, want %s", want, g, in)
			}
			if len(seen) != 1 || seen[0].method != want || seen[0].in != rec.in || strings.ToLower(reflect.TypeOf(seen[0].server).Name()) != strings.ToLower(strings.TrimPrefix(k.service, "PromQL")) {
				rt.Fatalf("the interceptor of %s sees %v, and the method %v", want, seen, rec.in)
			}
			same(rt, err, failure)
			if failure == nil {
				d, err := decode(k.out, r)
				if err != nil || d.String() != out.String() {
					rt.Fatalf("%s answers %x: %v %v, want %s", want, r, d, err, out)
				}
			}
			return
		}
		encoded := encode(out, draws{rt}) // may end the case: not under the lock
		mu.Lock()
		path, got, reply, fails = "", nil, encoded, failure
		mu.Unlock()
		var header metadata.MD
		res := reflect.ValueOf(clients[k.service]).MethodByName(k.method).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(build(in)), reflect.ValueOf(grpc.Header(&header))})
		err, _ := res[1].Interface().(error)
		mu.Lock()
		defer mu.Unlock()
		if path != want {
			rt.Fatalf("%s.%s calls %q, want %q: %v", k.service, k.method, path, want, err)
		}
		d, derr := decode(k.in, got)
		if derr != nil || d.String() != in.String() {
			rt.Fatalf("%s sends %x: %v %v, want %s", want, got, d, derr, in)
		}
		if h := header.Get("path"); len(h) != 1 || h[0] != want {
			rt.Fatalf("the options of a call of %s have no effect: the header is %v", want, header)
		}
		same(rt, err, failure)
		if failure == nil {
			if g := read(k.out, res[0].Interface().(proto.Message)).String(); g != out.String() {
				rt.Fatalf("%s gives %s, want %s", want, g, out)
			}
		} else if !res[0].IsNil() {
			rt.Fatalf("%s gives %v with an error", want, res[0])
		}
	})
}

func same(rt *rapid.T, got, want error) {
	rt.Helper()
	a, b := status.Convert(got), status.Convert(want)
	if a.Code() != b.Code() || a.Message() != b.Message() {
		rt.Fatalf("the error is %v, want %v", got, want)
	}
}
