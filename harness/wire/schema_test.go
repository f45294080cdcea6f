// Package wire_test holds the generated code of the API against an
// independent encoder and decoder of protobuf's wire format.
package wire_test

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
)

type kind int

const (
	str kind = iota
	i64
	u64
	boolean
	double
	enum
	message
	envelopes // a message of another API, as bytes
)

type field struct {
	num      int
	name     string // as in the definition
	kind     kind
	of       string // the message
	repeated bool
	mapped   bool   // a map from strings
	oneof    string // the message's wrapper type in Go is Message_Name
}

// schema is api/v1/*.proto.
var schema = map[string][]field{
	"ReadRequest": {
		{num: 1, name: "source_id", kind: str}, {num: 2, name: "start_time", kind: i64}, {num: 3, name: "end_time", kind: i64},
		{num: 4, name: "limit", kind: i64}, {num: 5, name: "envelope_types", kind: enum, repeated: true},
		{num: 6, name: "descending", kind: boolean}, {num: 7, name: "name_filter", kind: str}},
	"ReadResponse": {{num: 1, name: "envelopes", kind: envelopes}},
	"MetaRequest":  {{num: 1, name: "local_only", kind: boolean}},
	"MetaResponse": {{num: 1, name: "meta", kind: message, of: "MetaInfo", mapped: true}},
	"MetaInfo": {{num: 1, name: "count", kind: i64}, {num: 2, name: "expired", kind: i64},
		{num: 3, name: "oldest_timestamp", kind: i64}, {num: 4, name: "newest_timestamp", kind: i64}},
	"SendRequest":         {{num: 1, name: "envelopes", kind: envelopes}, {num: 2, name: "local_only", kind: boolean}},
	"SendResponse":        {},
	"Range":               {{num: 1, name: "start", kind: u64}, {num: 2, name: "end", kind: u64}},
	"Ranges":              {{num: 1, name: "ranges", kind: message, of: "Range", repeated: true}},
	"AddRangeRequest":     {{num: 1, name: "range", kind: message, of: "Range"}},
	"AddRangeResponse":    {},
	"RemoveRangeRequest":  {{num: 1, name: "range", kind: message, of: "Range"}},
	"RemoveRangeResponse": {},
	"ListRangesRequest":   {},
	"ListRangesResponse":  {{num: 1, name: "ranges", kind: message, of: "Range", repeated: true}},
	"SetRangesRequest":    {{num: 1, name: "ranges", kind: message, of: "Ranges", mapped: true}},
	"SetRangesResponse":   {},

	"PromQL_InstantQueryRequest": {{num: 1, name: "query", kind: str}, {num: 2, name: "time", kind: str}},
	"PromQL_RangeQueryRequest":   {{num: 1, name: "query", kind: str}, {num: 2, name: "start", kind: str}, {num: 3, name: "end", kind: str}, {num: 4, name: "step", kind: str}},
	"PromQL_InstantQueryResult": {{num: 1, name: "scalar", kind: message, of: "PromQL_Scalar", oneof: "Result"},
		{num: 2, name: "vector", kind: message, of: "PromQL_Vector", oneof: "Result"}, {num: 3, name: "matrix", kind: message, of: "PromQL_Matrix", oneof: "Result"}},
	"PromQL_RangeQueryResult": {{num: 1, name: "matrix", kind: message, of: "PromQL_Matrix", oneof: "Result"}},
	"PromQL_Scalar":           {{num: 1, name: "time", kind: str}, {num: 2, name: "value", kind: double}},
	"PromQL_Vector":           {{num: 1, name: "samples", kind: message, of: "PromQL_Sample", repeated: true}},
	"PromQL_Point":            {{num: 1, name: "time", kind: str}, {num: 2, name: "value", kind: double}},
	"PromQL_Sample":           {{num: 1, name: "metric", kind: str, mapped: true}, {num: 2, name: "point", kind: message, of: "PromQL_Point"}},
	"PromQL_Matrix":           {{num: 1, name: "series", kind: message, of: "PromQL_Series", repeated: true}},
	"PromQL_Series":           {{num: 1, name: "metric", kind: str, mapped: true}, {num: 2, name: "points", kind: message, of: "PromQL_Point", repeated: true}},
}

var enumNames = []string{"ANY", "LOG", "COUNTER", "GAUGE", "TIMER", "EVENT"}

var fresh = map[string]func() proto.Message{
	"ReadRequest":                func() proto.Message { return &rpc.ReadRequest{} },
	"ReadResponse":               func() proto.Message { return &rpc.ReadResponse{} },
	"MetaRequest":                func() proto.Message { return &rpc.MetaRequest{} },
	"MetaResponse":               func() proto.Message { return &rpc.MetaResponse{} },
	"MetaInfo":                   func() proto.Message { return &rpc.MetaInfo{} },
	"SendRequest":                func() proto.Message { return &rpc.SendRequest{} },
	"SendResponse":               func() proto.Message { return &rpc.SendResponse{} },
	"Range":                      func() proto.Message { return &rpc.Range{} },
	"Ranges":                     func() proto.Message { return &rpc.Ranges{} },
	"AddRangeRequest":            func() proto.Message { return &rpc.AddRangeRequest{} },
	"AddRangeResponse":           func() proto.Message { return &rpc.AddRangeResponse{} },
	"RemoveRangeRequest":         func() proto.Message { return &rpc.RemoveRangeRequest{} },
	"RemoveRangeResponse":        func() proto.Message { return &rpc.RemoveRangeResponse{} },
	"ListRangesRequest":          func() proto.Message { return &rpc.ListRangesRequest{} },
	"ListRangesResponse":         func() proto.Message { return &rpc.ListRangesResponse{} },
	"SetRangesRequest":           func() proto.Message { return &rpc.SetRangesRequest{} },
	"SetRangesResponse":          func() proto.Message { return &rpc.SetRangesResponse{} },
	"PromQL_InstantQueryRequest": func() proto.Message { return &rpc.PromQL_InstantQueryRequest{} },
	"PromQL_RangeQueryRequest":   func() proto.Message { return &rpc.PromQL_RangeQueryRequest{} },
	"PromQL_InstantQueryResult":  func() proto.Message { return &rpc.PromQL_InstantQueryResult{} },
	"PromQL_RangeQueryResult":    func() proto.Message { return &rpc.PromQL_RangeQueryResult{} },
	"PromQL_Scalar":              func() proto.Message { return &rpc.PromQL_Scalar{} },
	"PromQL_Vector":              func() proto.Message { return &rpc.PromQL_Vector{} },
	"PromQL_Point":               func() proto.Message { return &rpc.PromQL_Point{} },
	"PromQL_Sample":              func() proto.Message { return &rpc.PromQL_Sample{} },
	"PromQL_Matrix":              func() proto.Message { return &rpc.PromQL_Matrix{} },
	"PromQL_Series":              func() proto.Message { return &rpc.PromQL_Series{} },
}

func names() []string {
	var l []string
	for n := range fresh {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// model is a message: by field number a string, int64, uint64, bool,
// float64, int32 (enum), *model, []byte (envelopes), a []interface{} of
// these, or a map[string]interface{}. What has its default is not there, but
// messages may be empty.
type model struct {
	name    string
	fields  map[int]interface{}
	unknown []string // fields that the schema does not have, as bytes
}

func (m *model) String() string {
	if m == nil {
		return "<none>"
	}
	var l []string
	for _, f := range schema[m.name] {
		if v, ok := m.fields[f.num]; ok {
			l = append(l, f.name+":"+show(v))
		}
	}
	u := append([]string(nil), m.unknown...)
	sort.Strings(u)
	for _, x := range u {
		l = append(l, fmt.Sprintf("?%x", x))
	}
	return m.name + "{" + strings.Join(l, " ") + "}"
}

func show(v interface{}) string {
	switch x := v.(type) {
	case *model:
		return x.String()
	case float64:
		if x != x {
			return "NaN"
		}
		return fmt.Sprintf("%x", math.Float64bits(x))
	case []interface{}:
		var l []string
		for _, y := range x {
			l = append(l, show(y))
		}
		return "[" + strings.Join(l, ",") + "]"
	case map[string]interface{}:
		var l []string
		for k, y := range x {
			l = append(l, fmt.Sprintf("%q=%s", k, show(y)))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	case []byte:
		return fmt.Sprintf("envelopes(%x)", x)
	}
	return fmt.Sprintf("%T(%#v)", v, v)
}

// ------------------------------------------------------------ wire

func varint(b []byte, x uint64) []byte { return binary.AppendUvarint(b, x) }

func tag(b []byte, num, wire int) []byte { return varint(b, uint64(num)<<3|uint64(wire)) }

func bytesField(b []byte, num int, v []byte) []byte {
	return append(varint(tag(b, num, 2), uint64(len(v))), v...)
}

// plain gives a scalar without its tag.
func plain(v interface{}) (wire int, b []byte) {
	switch x := v.(type) {
	case int64:
		return 0, varint(nil, uint64(x))
	case uint64:
		return 0, varint(nil, x)
	case int32:
		return 0, varint(nil, uint64(int64(x)))
	case bool:
		if x {
			return 0, []byte{1}
		}
		return 0, []byte{0}
	case float64:
		return 1, binary.LittleEndian.AppendUint64(nil, math.Float64bits(x))
	case string:
		return 2, []byte(x)
	}
	panic(fmt.Sprintf("%T", v))
}

func defaultOf(k kind) interface{} {
	return map[kind]interface{}{str: "", i64: int64(0), u64: uint64(0), boolean: false, double: float64(0), enum: int32(0)}[k]
}

// choices make the many forms that one message has on the wire.
type choices interface{ choose(n int, what string) int }

// encode writes a message in any of its forms.
func encode(m *model, c choices) []byte {
	var parts [][]byte
	one := func(num int, v interface{}) []byte {
		switch x := v.(type) {
		case *model:
			return bytesField(nil, num, encode(x, c))
		case []byte:
			return bytesField(nil, num, x)
		}
		wire, b := plain(v)
		if wire == 2 {
			return bytesField(nil, num, b)
		}
		return append(tag(nil, num, wire), b...)
	}
	for _, f := range schema[m.name] {
		v, ok := m.fields[f.num]
		if !ok {
			if d := defaultOf(f.kind); d != nil && !f.repeated && !f.mapped && c.choose(4, "write default") == 1 {
				parts = append(parts, one(f.num, d))
			}
			continue
		}
		switch x := v.(type) {
		case []interface{}:
			if f.kind == enum {
				// packed, or one by one, or in parts
				for len(x) > 0 {
					n := 1 + c.choose(len(x), "packed")
					if n == 1 && c.choose(2, "one") == 0 {
						parts = append(parts, one(f.num, x[0]))
					} else {
						var b []byte
						for _, e := range x[:n] {
							_, p := plain(e)
							b = append(b, p...)
						}
						parts = append(parts, bytesField(nil, f.num, b))
					}
					x = x[n:]
				}
				continue
			}
			for _, e := range x {
				parts = append(parts, one(f.num, e))
			}
		case map[string]interface{}:
			for _, k := range vh.Keys(x) {
				e := x[k]
				kb, vb := one(1, k), one(2, e)
				if k == "" && c.choose(2, "no key") == 1 {
					kb = nil
				}
				if e == "" && c.choose(2, "no value") == 1 {
					vb = nil
				}
				b := append(append([]byte(nil), kb...), vb...)
				if c.choose(3, "value first") == 1 {
					b = append(append([]byte(nil), vb...), kb...)
				}
				parts = append(parts, bytesField(nil, f.num, b))
			}
		default:
			if d := defaultOf(f.kind); d != nil && c.choose(6, "twice") == 1 {
				parts = append(parts, append(one(f.num, d), one(f.num, v)...))
				continue
			}
			parts = append(parts, one(f.num, v))
		}
	}
	for _, u := range m.unknown {
		parts = append(parts, []byte(u))
	}
	// fields come in any order, though those of one number keep theirs
	if c.choose(2, "shuffle") == 1 {
		for i := len(parts) - 1; i > 0; i-- {
			j := c.choose(i+1, "swap")
			if num(parts[i]) != num(parts[j]) && !between(parts, j, i) {
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
	}
	var b []byte
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

func num(p []byte) uint64 { x, _ := binary.Uvarint(p); return x >> 3 }

// between tells whether an exchange would change the order of one number.
func between(l [][]byte, j, i int) bool {
	for k := j; k <= i; k++ {
		if k != j && num(l[k]) == num(l[j]) || k != i && num(l[k]) == num(l[i]) {
			return true
		}
	}
	return false
}

var errWire = errors.New("no message")

func decode(name string, b []byte) (*model, error) {
	m := &model{name: name, fields: map[int]interface{}{}}
	for len(b) > 0 {
		start := b
		t, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errWire
		}
		b = b[n:]
		var x uint64
		var p []byte
		switch t & 7 {
		case 0:
			if x, n = binary.Uvarint(b); n <= 0 {
				return nil, errWire
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, errWire
			}
			x, b = binary.LittleEndian.Uint64(b), b[8:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return nil, errWire
			}
			p, b = b[n:n+int(l)], b[n+int(l):]
		case 5:
			if len(b) < 4 {
				return nil, errWire
			}
			b = b[4:]
		default:
			return nil, errWire
		}
		if err := m.take(int(t>>3), int(t&7), x, p, string(start[:len(start)-len(b)])); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func scalar(k kind, wire int, x uint64, p []byte) (interface{}, error) {
	want := map[kind]int{str: 2, i64: 0, u64: 0, boolean: 0, double: 1, enum: 0}[k]
	if wire != want {
		return nil, fmt.Errorf("wire type %d, want %d", wire, want)
	}
	switch k {
	case str:
		return string(p), nil
	case i64:
		return int64(x), nil
	case u64:
		return x, nil
	case boolean:
		return x != 0, nil
	case double:
		return math.Float64frombits(x), nil
	}
	return int32(x), nil
}

func (m *model) take(num, wire int, x uint64, p []byte, raw string) error {
	for _, f := range schema[m.name] {
		if f.num != num {
			continue
		}
		if f.mapped {
			all, _ := m.fields[num].(map[string]interface{})
			if all == nil {
				all = map[string]interface{}{}
				m.fields[num] = all
			}
			entry := "entry of strings"
			if f.kind == message {
				entry = "entry of " + f.of
			}
			e, err := decode(entry, p)
			if err != nil {
				return err
			}
			k, _ := e.fields[1].(string)
			v, ok := e.fields[2]
			if !ok {
				v = interface{}("")
				if f.kind == message {
					v = &model{name: f.of, fields: map[int]interface{}{}}
				}
			}
			all[k] = v
			return nil
		}
		switch {
		case f.kind == message:
			if wire != 2 {
				return fmt.Errorf("wire type %d", wire)
			}
			x, err := decode(f.of, p)
			if err != nil {
				return err
			}
			if f.repeated {
				l, _ := m.fields[num].([]interface{})
				m.fields[num] = append(l, x)
				return nil
			}
			m.fields[num] = x
			return nil
		case f.kind == envelopes:
			if wire != 2 {
				return fmt.Errorf("wire type %d", wire)
			}
			m.fields[num] = append([]byte{}, p...)
			return nil
		case f.repeated && wire == 2:
			l, _ := m.fields[num].([]interface{})
			for len(p) > 0 {
				x, n := binary.Uvarint(p)
				if n <= 0 {
					return errWire
				}
				l, p = append(l, int32(x)), p[n:]
			}
			m.fields[num] = l
			return nil
		}
		v, err := scalar(f.kind, wire, x, p)
		if err != nil {
			return err
		}
		if f.repeated {
			l, _ := m.fields[num].([]interface{})
			m.fields[num] = append(l, v)
		} else if d := defaultOf(f.kind); v != d || f.kind == double && math.Signbit(v.(float64)) {
			m.fields[num] = v
		} else {
			delete(m.fields, num)
		}
		return nil
	}
	m.unknown = append(m.unknown, raw)
	return nil
}

func init() {
	schema["entry of strings"] = []field{{num: 1, kind: str, name: "key"}, {num: 2, kind: str, name: "value"}}
	for _, n := range []string{"MetaInfo", "Ranges"} {
		schema["entry of "+n] = []field{{num: 1, kind: str, name: "key"}, {num: 2, kind: message, of: n, name: "value"}}
	}
}
