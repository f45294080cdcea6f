package marshaler_test

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"code.cloudfoundry.org/log-cache/pkg/marshaler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"pgregory.net/rapid"
)

type point struct {
	time  string
	value float64
}

type row struct {
	metric map[string]string
	points []point
}

type result struct {
	kind   string
	ranged bool // a range query's, of kind matrix
	rows   []row
}

var valueGen = rapid.OneOf(
	rapid.Float64(),
	rapid.Custom(func(t *rapid.T) float64 { return math.Float64frombits(rapid.Uint64().Draw(t, "bits")) }),
	rapid.Custom(func(t *rapid.T) float64 { return float64(rapid.IntRange(-100000, 100000).Draw(t, "n")) / 100 }),
	rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -2.5, 0.1, 1e300, 5e-324, math.MaxFloat64, -math.MaxFloat64,
		math.NaN(), math.Inf(1), math.Inf(-1), 1e21, 1e20, 1 << 60, 99.99999999999999, 1e-7, 1e-6}),
)

var timeGen = rapid.Custom(func(t *rapid.T) string {
	ms := rapid.OneOf(rapid.Int64Range(0, 9223372036854), rapid.Int64Range(1500000000000, 1700000000000), rapid.Int64Range(0, 2000),
		rapid.SampledFrom([]int64{0, 1, 999, 1000, 999999, 2147483647000, 2147483648000, 4294967296000, 9999999, 1000000000000})).Draw(t, "ms")
	s := fmt.Sprintf("%d.%03d", ms/1000, ms%1000)
	switch rapid.IntRange(0, 4).Draw(t, "format") {
	case 0:
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
		if s == "" {
			s = "0"
		}
	case 1:
		s += rapid.SampledFrom([]string{"0", "1", "4", "49", "51", "9", "999999"}).Draw(t, "digits")
	case 2:
		s = strconv.FormatFloat(float64(ms)/1000, 'g', -1, 64)
	case 3:
		s = strconv.FormatInt(ms/1000, 10)
	}
	return s
})

var textGen = rapid.OneOf(
	rapid.SampledFrom([]string{"", "job", "a b", "é€😀", "<a&b>", "\u2028\u2029", "\x00\x1f\x7f", `"\\/`, "null", "\ufeff", "\ufffd", "__name__"}),
	rapid.StringN(0, 8, -1),
)

func drawResult(t *rapid.T) result {
	r := result{kind: rapid.SampledFrom([]string{"scalar", "vector", "matrix", "range"}).Draw(t, "kind")}
	if r.kind == "range" {
		r.kind, r.ranged = "matrix", true
	}
	pt := func() point { return point{timeGen.Draw(t, "time"), valueGen.Draw(t, "value")} }
	if r.kind == "scalar" {
		r.rows = []row{{points: []point{pt()}}}
		return r
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "rows"); i < n; i++ {
		var w row
		for j, m := 0, rapid.IntRange(0, 3).Draw(t, "labels"); j < m; j++ {
			if w.metric == nil {
				w.metric = map[string]string{}
			}
			w.metric[textGen.Draw(t, "label")] = textGen.Draw(t, "text")
		}
		np := 1
		if r.kind == "matrix" {
			np = rapid.IntRange(0, 5).Draw(t, "points")
		}
		for j := 0; j < np; j++ {
			w.points = append(w.points, pt())
		}
		r.rows = append(r.rows, w)
	}
	return r
}

func (r result) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s range=%v", r.kind, r.ranged)
	for _, w := range r.rows {
		b.WriteString(" {")
		for _, k := range vh.Keys(w.metric) {
			fmt.Fprintf(&b, "%q=%q ", k, w.metric[k])
		}
		b.WriteString("}")
		for _, p := range w.points {
			fmt.Fprintf(&b, " %s@%s", strconv.FormatFloat(p.value, 'g', -1, 64), p.time)
		}
	}
	return b.String()
}

func (r result) points() (n int) {
	for _, w := range r.rows {
		n += len(w.points)
	}
	return n
}

func (r result) proto() proto.Message {
	pt := func(p point) *logcache_v1.PromQL_Point {
		return &logcache_v1.PromQL_Point{Time: p.time, Value: p.value}
	}
	switch r.kind {
	case "scalar":
		p := r.rows[0].points[0]
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{
			Scalar: &logcache_v1.PromQL_Scalar{Time: p.time, Value: p.value}}}
	case "vector":
		v := &logcache_v1.PromQL_Vector{}
		for _, w := range r.rows {
			v.Samples = append(v.Samples, &logcache_v1.PromQL_Sample{Metric: w.metric, Point: pt(w.points[0])})
		}
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: v}}
	}
	m := &logcache_v1.PromQL_Matrix{}
	for _, w := range r.rows {
		s := &logcache_v1.PromQL_Series{Metric: w.metric}
		for _, p := range w.points {
			s.Points = append(s.Points, pt(p))
		}
		m.Series = append(m.Series, s)
	}
	if r.ranged {
		return &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: m}}
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: m}}
}

func from(msg proto.Message) (r result) {
	pt := func(p *logcache_v1.PromQL_Point) point { return point{p.GetTime(), p.GetValue()} }
	matrix := func(m *logcache_v1.PromQL_Matrix) {
		r.kind = "matrix"
		for _, s := range m.GetSeries() {
			w := row{metric: s.GetMetric()}
			for _, p := range s.GetPoints() {
				w.points = append(w.points, pt(p))
			}
			r.rows = append(r.rows, w)
		}
	}
	switch q := msg.(type) {
	case *logcache_v1.PromQL_RangeQueryResult:
		r.ranged = true
		if _, ok := q.GetResult().(*logcache_v1.PromQL_RangeQueryResult_Matrix); ok {
			matrix(q.GetMatrix())
		}
	case *logcache_v1.PromQL_InstantQueryResult:
		switch q.GetResult().(type) {
		case *logcache_v1.PromQL_InstantQueryResult_Scalar:
			r.kind = "scalar"
			r.rows = []row{{points: []point{{q.GetScalar().GetTime(), q.GetScalar().GetValue()}}}}
		case *logcache_v1.PromQL_InstantQueryResult_Vector:
			r.kind = "vector"
			for _, s := range q.GetVector().GetSamples() {
				r.rows = append(r.rows, row{metric: s.GetMetric(), points: []point{pt(s.GetPoint())}})
			}
		case *logcache_v1.PromQL_InstantQueryResult_Matrix:
			matrix(q.GetMatrix())
		}
	}
	return r
}

var threeDecimals = regexp.MustCompile(`^\d+\.\d{3}$`)
var decimal = regexp.MustCompile(`^(-?\d+(\.\d+)?|NaN|\+Inf|-Inf)$`)

func checkTime(got, sent string) error {
	if !threeDecimals.MatchString(got) {
		return fmt.Errorf("time %q has not three decimals", got)
	}
	x, ok1 := new(big.Rat).SetString(got)
	y, ok2 := new(big.Rat).SetString(sent)
	if !ok1 || !ok2 {
		return fmt.Errorf("time %q for %q", got, sent)
	}
	d, _ := new(big.Rat).Sub(x, y).Float64()
	if math.Abs(d) > 0.000501 {
		return fmt.Errorf("time %q for %q", got, sent)
	}
	return nil
}

func checkValue(got, sent float64) error {
	if math.Float64bits(got) != math.Float64bits(sent) && !(math.IsNaN(got) && math.IsNaN(sent)) {
		return fmt.Errorf("value %v, want %v", got, sent)
	}
	return nil
}

func (r result) same(sent result) error {
	if r.kind != sent.kind || r.ranged != sent.ranged || len(r.rows) != len(sent.rows) {
		return fmt.Errorf("got %s, want %s", r, sent)
	}
	for i, w := range r.rows {
		x := sent.rows[i]
		if len(w.metric) != len(x.metric) || len(w.points) != len(x.points) {
			return fmt.Errorf("got %s, want %s", r, sent)
		}
		for k, v := range x.metric {
			if g, ok := w.metric[k]; !ok || g != v {
				return fmt.Errorf("label %q: got %s, want %s", k, r, sent)
			}
		}
		for j, p := range w.points {
			if err := checkValue(p.value, x.points[j].value); err != nil {
				return err
			}
			if err := checkTime(p.time, x.points[j].time); err != nil {
				return err
			}
		}
	}
	return nil
}

func newMarshaler(t *rapid.T) *marshaler.PromqlMarshaler {
	if rapid.Bool().Draw(t, "fallback options") {
		return marshaler.NewPromqlMarshaler(&runtime.JSONPb{OrigName: true, EmitDefaults: true})
	}
	return marshaler.NewPromqlMarshaler(&runtime.JSONPb{})
}

func encode(m *marshaler.PromqlMarshaler, v interface{}, stream bool) ([]byte, error) {
	if !stream {
		return m.Marshal(v)
	}
	var b bytes.Buffer
	err := m.NewEncoder(&b).Encode(v)
	return b.Bytes(), err
}

// oneByte delivers a byte per read.
type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

func decode(m *marshaler.PromqlMarshaler, b []byte, v interface{}, how int) error {
	switch how {
	case 0:
		return m.Unmarshal(b, v)
	case 1:
		return m.NewDecoder(bytes.NewReader(b)).Decode(v)
	}
	return m.NewDecoder(oneByte{bytes.NewReader(b)}).Decode(v)
}

func empty(ranged bool) proto.Message {
	if ranged {
		return &logcache_v1.PromQL_RangeQueryResult{}
	}
	return &logcache_v1.PromQL_InstantQueryResult{}
}

// filled is a target with something in it.
func filled(ranged bool) proto.Message {
	r := result{kind: "matrix", ranged: ranged, rows: []row{{metric: map[string]string{"old": "label"}, points: []point{{"7.000", 7}}}}}
	return r.proto()
}

func TestC09_RoundTrip(t *testing.T) {
	vh.Check(t, vh.N(12000, 300000), "random result through either form of encoder and decoder; non-trivial: it has a point",
		func(rt *rapid.T, c *vh.Case) {
			r := drawResult(rt)
			m := newMarshaler(rt)
			stream, how := rapid.Bool().Draw(rt, "stream"), rapid.IntRange(0, 2).Draw(rt, "how")
			c.Class(r.kind)
			c.If(r.points() > 0, r.String())
			msg := r.proto()
			sent := proto.Clone(msg)
			b, err := encode(m, msg, stream)
			if err != nil {
				rt.Fatalf("encode %s: %s", r, err)
			}
			if !same(msg, sent) {
				rt.Fatalf("encoding changed %v to %v", sent, msg)
			}
			target := empty(r.ranged)
			if rapid.Bool().Draw(rt, "filled") {
				target = filled(r.ranged)
			}
			if err := decode(m, b, target, how); err != nil {
				rt.Fatalf("decode %s: %s", b, err)
			}
			if err := from(target).same(r); err != nil {
				rt.Fatalf("%s via %s", err, b)
			}
			b2, err := encode(m, target, stream)
			if err != nil || !bytes.Equal(b, b2) {
				rt.Fatalf("encoded again %s (%v), first %s", b2, err, b)
			}
		})
}

// same compares messages, NaN being equal to itself.
func same(a, b proto.Message) bool { return a.String() == b.String() }

// ---------------------------------------------------------------- C10

func object(b []byte, keys ...string) (map[string]json.RawMessage, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	tok, err := d.Token()
	if err != nil || tok != json.Delim('{') {
		return nil, fmt.Errorf("%s is no object", b)
	}
	m := map[string]json.RawMessage{}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if _, ok := m[k.(string)]; ok {
			return nil, fmt.Errorf("%s has two %q", b, k)
		}
		m[k.(string)] = v
	}
	if keys != nil {
		if len(m) != len(keys) {
			return nil, fmt.Errorf("%s has not just %v", b, keys)
		}
		for _, k := range keys {
			if _, ok := m[k]; !ok {
				return nil, fmt.Errorf("%s has no %q", b, k)
			}
		}
	}
	return m, nil
}

func array(b []byte) ([]json.RawMessage, error) {
	if len(b) == 0 || b[0] != '[' {
		return nil, fmt.Errorf("%s is no array", b)
	}
	var l []json.RawMessage
	return l, json.Unmarshal(b, &l)
}

func text(b []byte) (string, error) {
	if len(b) == 0 || b[0] != '"' {
		return "", fmt.Errorf("%s is no string", b)
	}
	var s string
	return s, json.Unmarshal(b, &s)
}

func checkPoint(b []byte, p point) error {
	l, err := array(b)
	if err != nil {
		return err
	}
	if len(l) != 2 {
		return fmt.Errorf("point %s", b)
	}
	if err := checkTime(string(l[0]), p.time); err != nil {
		return err
	}
	s, err := text(l[1])
	if err != nil {
		return err
	}
	if !decimal.MatchString(s) {
		return fmt.Errorf("value %q is not in decimal", s)
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return err
	}
	return checkValue(v, p.value)
}

func (r result) checkDocument(b []byte) error {
	if n := bytes.Count(b, []byte("\n")); n != 1 || b[len(b)-1] != '\n' {
		return fmt.Errorf("%q is not one line", b)
	}
	if !json.Valid(b) {
		return fmt.Errorf("%q is no JSON", b)
	}
	m, err := object(b, "status", "data")
	if err != nil {
		return err
	}
	if s, err := text(m["status"]); err != nil || s != "success" {
		return fmt.Errorf("status %s", m["status"])
	}
	d, err := object(m["data"], "resultType", "result")
	if err != nil {
		return err
	}
	if s, err := text(d["resultType"]); err != nil || s != r.kind {
		return fmt.Errorf("type %s, want %s", d["resultType"], r.kind)
	}
	if r.kind == "scalar" {
		return checkPoint(d["result"], r.rows[0].points[0])
	}
	rows, err := array(d["result"])
	if err != nil {
		return err
	}
	if len(rows) != len(r.rows) {
		return fmt.Errorf("%d rows, want %d", len(rows), len(r.rows))
	}
	for i, w := range r.rows {
		key := "value"
		if r.kind == "matrix" {
			key = "values"
		}
		o, err := object(rows[i], "metric", key)
		if err != nil {
			return err
		}
		ls, err := object(o["metric"])
		if err != nil {
			return err
		}
		if len(ls) != len(w.metric) {
			return fmt.Errorf("metric %s", o["metric"])
		}
		for k, v := range w.metric {
			if s, err := text(ls[k]); err != nil || s != v {
				return fmt.Errorf("metric %s, want %v", o["metric"], w.metric)
			}
		}
		if key == "value" {
			if err := checkPoint(o[key], w.points[0]); err != nil {
				return err
			}
			continue
		}
		ps, err := array(o[key])
		if err != nil {
			return err
		}
		if len(ps) != len(w.points) {
			return fmt.Errorf("%d points, want %d", len(ps), len(w.points))
		}
		for j := range ps {
			if err := checkPoint(ps[j], w.points[j]); err != nil {
				return err
			}
		}
	}
	return nil
}

func TestC10_Document(t *testing.T) {
	vh.Check(t, vh.N(10000, 200000), "random result; non-trivial: it has a row", func(rt *rapid.T, c *vh.Case) {
		r := drawResult(rt)
		c.Class(r.kind)
		c.If(len(r.rows) > 0, r.String())
		b, err := encode(newMarshaler(rt), r.proto(), rapid.Bool().Draw(rt, "stream"))
		if err != nil {
			rt.Fatalf("encode %s: %s", r, err)
		}
		if err := r.checkDocument(b); err != nil {
			rt.Fatalf("%s in %s", err, b)
		}
	})
}

func TestC10_BadTimes(t *testing.T) {
	badGen := rapid.OneOf(
		rapid.SampledFrom([]string{"", "abc", "1.2.3", "NaN", "Inf", "-Inf", "+inf", "nan", "infinity", "1,5", " 1", "1 ", "1s", "2020-01-01T00:00:00Z", "1e", "--1", "1e999"}),
		rapid.StringMatching(`[a-df-z ]{1,6}`),
	)
	vh.Check(t, vh.N(2500, 30000), "random result with a time that is none; each case is non-trivial", func(rt *rapid.T, c *vh.Case) {
		r := drawResult(rt)
		if r.points() == 0 {
			r = result{kind: "vector", rows: []row{{points: []point{{}}}}}
		}
		n := rapid.IntRange(0, r.points()-1).Draw(rt, "which")
		bad := badGen.Draw(rt, "bad")
		for i := range r.rows {
			for j := range r.rows[i].points {
				if n == 0 {
					r.rows[i].points[j].time = bad
				} else if r.rows[i].points[j].time == "" {
					r.rows[i].points[j].time = "1"
				}
				n--
			}
		}
		c.NonTrivial(r.String())
		for _, stream := range []bool{false, true} {
			var b []byte
			var err error
			if p := vh.Try(func() { b, err = encode(newMarshaler(rt), r.proto(), stream) }); p != nil {
				rt.Fatalf("%s", p)
			}
			if err == nil {
				rt.Fatalf("stream=%v: no error but %q for time %q", stream, b, bad)
			}
			if stream && len(b) > 0 {
				rt.Fatalf("a failed encode wrote %q", b)
			}
		}
	})
}

// ---------------------------------------------------------------- C11

// badPoint draws JSON that is no point.
var badPoint = rapid.SampledFrom([]string{
	`[]`, `[1]`, `["1"]`, `[1,"1","1"]`, `[1,1]`, `["1","1"]`, `[1,null]`, `[null,"1"]`, `[1,true]`, `[true,"1"]`, `{}`, `{"0":1,"1":"1"}`,
	`7`, `"x"`, `[1,""]`, `[1,"abc"]`, `[1," 1"]`, `[1,"1 "]`, `[1,"1,5"]`, `[1,{}]`, `[[1],"1"]`, `[1,["1"]]`, `[[1,"1"]]`, `["NaN","1"]`, `null`, `[1,"--1"]`,
})

func drawJunk(rt *rapid.T, good []byte) (b []byte, bad bool, class string) {
	class = rapid.SampledFrom([]string{"kind", "point", "shape", "cut", "bytes", "bytes", "random", "missing"}).Draw(rt, "class")
	switch class {
	case "kind":
		k := rapid.OneOf(rapid.SampledFrom([]string{"", "Vector", "MATRIX", "string", "scalars", "matrix ", "streams", "null"}), rapid.StringMatching(`[a-z]{1,7}`)).Filter(
			func(s string) bool { return s != "vector" && s != "matrix" && s != "scalar" }).Draw(rt, "kind")
		kb, _ := json.Marshal(k)
		return []byte(`{"status":"success","data":{"resultType":` + string(kb) + `,"result":[]}}`), true, class
	case "point":
		p := badPoint.Draw(rt, "point")
		before, after := "", ""
		if rapid.Bool().Draw(rt, "before") {
			before = `[1,"1"],`
		}
		if rapid.Bool().Draw(rt, "after") {
			after = `,[2,"2"]`
		}
		switch rapid.IntRange(0, 2).Draw(rt, "kind") {
		case 0:
			if p == "null" {
				p = "[]"
			}
			return []byte(`{"status":"success","data":{"resultType":"scalar","result":` + p + `}}`), true, class
		case 1:
			b, a := "", ""
			if before != "" {
				b = `{"metric":{},"value":[1,"1"]},`
			}
			if after != "" {
				a = `,{"metric":{},"value":[1,"1"]}`
			}
			return []byte(`{"status":"success","data":{"resultType":"vector","result":[` + b + `{"metric":{"a":"b"},"value":` + p + `}` + a + `]}}`), true, class
		}
		return []byte(`{"status":"success","data":{"resultType":"matrix","result":[{"metric":{},"values":[` + before + p + after + `]}]}}`), true, class
	case "shape":
		return []byte(rapid.SampledFrom([]string{
			"", " ", "[]", `"x"`, "7", "true", "{", "}", "nul", `{"data":7}`, `{"data":[]}`, `{"data":{"resultType":7}}`, `{"data":{"resultType":"matrix","result":{}}}`,
			`{"data":{"resultType":"matrix","result":7}}`, `{"data":{"resultType":"matrix","result":[7]}}`, `{"data":{"resultType":"matrix","result":[[]]}}`,
			`{"data":{"resultType":"vector","result":"x"}}`, `{"data":{"resultType":"vector","result":[{"metric":7,"value":[1,"1"]}]}}`,
			`{"data":{"resultType":"vector","result":[{"metric":{"a":7},"value":[1,"1"]}]}}`, `{"data":{"resultType":"vector","result":[{"metric":["a"],"value":[1,"1"]}]}}`,
			`{"data":{"resultType":"scalar","result":{}}}`, `{"data":{"resultType":"scalar","result":"1"}}`,
			`{"data":{"resultType":"matrix","result":[{"metric":{},"values":7}]}}`, `{"data":{"resultType":"matrix","result":[{"metric":{},"values":{"a":1}}]}}`,
			`{"data":{"resultType":"matrix","result":[{"metric":{"a":["b"]},"values":[]}]}}`, `{"status":7,"data":{"resultType":"matrix","result":[]}}`,
		}).Draw(rt, "shape")), true, class
	case "missing":
		return []byte(rapid.SampledFrom([]string{
			"{}", "null", `{"status":"success"}`, `{"data":{}}`, `{"data":null}`, `{"data":{"result":[]}}`, `{"status":"error","errorType":"internal","error":"x"}`,
			`{"data":{"resultType":"matrix"}}`, `{"data":{"resultType":"vector"}}`, `{"data":{"resultType":"scalar"}}`,
			`{"data":{"resultType":"scalar","result":null}}`,
			`{"data":{"resultType":"vector","result":[{}]}}`, `{"data":{"resultType":"vector","result":[{"metric":{"a":"b"}}]}}`, `{"data":{"resultType":"vector","result":[null]}}`,
		}).Draw(rt, "missing")), true, class
	case "cut":
		b := bytes.TrimSpace(good)
		return b[:rapid.IntRange(0, len(b)-1).Draw(rt, "length")], true, class
	case "bytes":
		b := append([]byte{}, bytes.TrimSpace(good)...)
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "mutations"); i < n && len(b) > 0; i++ {
			p := rapid.IntRange(0, len(b)-1).Draw(rt, "position")
			switch rapid.IntRange(0, 3).Draw(rt, "mutation") {
			case 0:
				b[p] = rapid.SampledFrom([]byte(`{}[]",:0x-e.ntNf \`+"\x00\xff")).Draw(rt, "byte")
			case 1:
				b = append(b[:p:p], b[p+1:]...)
			case 2:
				q := rapid.IntRange(0, len(b)-1).Draw(rt, "other")
				b[p], b[q] = b[q], b[p]
			case 3:
				q := rapid.IntRange(p, min(len(b), p+12)).Draw(rt, "end")
				b = append(append(append([]byte{}, b[:q]...), b[p:q]...), b[q:]...)
			}
		}
		return b, !json.Valid(b), class
	}
	b = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "random")
	return b, true, class
}

func TestC11_AnyBytes(t *testing.T) {
	vh.Check(t, vh.N(25000, 600000), "random and mutated documents for either kind of target; each case is non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			r := drawResult(rt)
			m := newMarshaler(rt)
			good, err := m.Marshal(r.proto())
			if err != nil {
				rt.Fatalf("encode %s: %s", r, err)
			}
			b, bad, class := drawJunk(rt, good)
			ranged := rapid.Bool().Draw(rt, "range target")
			c.Class(class)
			c.NonTrivial(fmt.Sprintf("%s range=%v %q", class, ranged, b))
			var errs [3]error
			var got [3]proto.Message
			for how := range errs {
				got[how] = filled(ranged)
				if p := vh.Try(func() { errs[how] = decode(m, b, got[how], how) }); p != nil {
					rt.Fatalf("form %d: %s", how, p)
				}
				if errs[how] != nil && !same(got[how], filled(ranged)) {
					rt.Fatalf("form %d: error %v, and the target is %v", how, errs[how], got[how])
				}
			}
			if bad && errs[0] == nil {
				rt.Fatalf("no error but %v", got[0])
			}
			// The streaming form reads one document and ignores what
			// follows it.
			var first json.RawMessage
			if json.NewDecoder(bytes.NewReader(b)).Decode(&first) != nil {
				first = nil
			}
			for how := 1; how < 3; how++ {
				if first == nil && errs[how] == nil {
					rt.Fatalf("form %d: no error but %v", how, got[how])
				}
				if json.Valid(b) && ((errs[how] == nil) != (errs[0] == nil) || !same(got[how], got[0])) {
					rt.Fatalf("form %d: %v, %v but the whole-buffer form: %v, %v", how, got[how], errs[how], got[0], errs[0])
				}
			}
			if errs[0] == nil {
				c.Class("accepted")
				// What was taken is a result like any other.
				again, err := m.Marshal(got[0])
				if err != nil {
					rt.Fatalf("%v taken from %q cannot be encoded: %s", got[0], b, err)
				}
				back := empty(ranged)
				if err := m.Unmarshal(again, back); err != nil || !same(back, got[0]) {
					rt.Fatalf("%v taken from %q comes back as %v (%v)", got[0], b, back, err)
				}
			}
			// A range target takes no document of another kind.
			target := &logcache_v1.PromQL_RangeQueryResult{}
			if err := m.Unmarshal(good, target); (err != nil) != (r.kind != "matrix") {
				rt.Fatalf("%s into a range result: %v", r.kind, err)
			}
		})
}

// drawPart draws a document that may lack any of its members.
func drawPart(t *rapid.T) string {
	var ms []string
	if rapid.IntRange(0, 2).Draw(t, "status") > 0 {
		ms = append(ms, `"status":`+rapid.SampledFrom([]string{`"success"`, `"error"`, `null`, `""`}).Draw(t, "status"))
	}
	if rapid.IntRange(0, 4).Draw(t, "data") > 0 {
		var ds []string
		if rapid.IntRange(0, 3).Draw(t, "type") > 0 {
			ds = append(ds, `"resultType":`+rapid.SampledFrom([]string{`"matrix"`, `"matrix"`, `"vector"`, `"scalar"`, `null`, `"string"`}).Draw(t, "type"))
		}
		if rapid.IntRange(0, 3).Draw(t, "result") > 0 {
			ds = append(ds, `"result":`+rapid.SampledFrom([]string{`[]`, `null`, `[1,"2"]`, `[{"metric":{"a":"b"},"values":[[1,"2"]]}]`, `[{"values":[]}]`, `[{"metric":null,"value":[1,"3"]}]`, `[{}]`}).Draw(t, "result"))
		}
		ms = append(ms, `"data":{`+strings.Join(ds, ",")+`}`)
	}
	if rapid.Bool().Draw(t, "more") {
		ms = append(ms, `"errorType":"internal","error":"no"`)
	}
	return "{" + strings.Join(ms, ",") + "}"
}

func TestC11_Parts(t *testing.T) {
	vh.Check(t, vh.N(5000, 80000), "random stream of documents that lack members; non-trivial: one is taken and one is not", func(rt *rapid.T, c *vh.Case) {
		m := newMarshaler(rt)
		docs := rapid.SliceOfN(rapid.Custom(drawPart), 2, 6).Draw(rt, "documents")
		d := m.NewDecoder(strings.NewReader(strings.Join(docs, rapid.SampledFrom([]string{"", "\n", " \n "}).Draw(rt, "between"))))
		taken, refused := 0, 0
		for i, doc := range docs {
			ranged := rapid.Bool().Draw(rt, "range target")
			got, want := filled(ranged), filled(ranged)
			err, wantErr := d.Decode(got), m.Unmarshal([]byte(doc), want)
			if (err != nil) != (wantErr != nil) || !same(got, want) {
				rt.Fatalf("document %d of %q: %v, %v from the stream; %v, %v on its own", i, docs, got, err, want, wantErr)
			}
			if err != nil {
				refused++
			} else {
				taken++
			}
		}
		c.If(taken > 0 && refused > 0, fmt.Sprintf("%q", docs))
	})
}

func TestC11_Streams(t *testing.T) {
	vh.Check(t, vh.N(3000, 50000), "random list of results in one stream; non-trivial: two or more", func(rt *rapid.T, c *vh.Case) {
		m := newMarshaler(rt)
		var rs []result
		for i, n := 0, rapid.IntRange(1, 5).Draw(rt, "results"); i < n; i++ {
			rs = append(rs, drawResult(rt))
		}
		c.If(len(rs) > 1, fmt.Sprint(rs))
		var buf bytes.Buffer
		var want []byte
		e := m.NewEncoder(&buf)
		for _, r := range rs {
			if err := e.Encode(r.proto()); err != nil {
				rt.Fatalf("%s", err)
			}
			b, err := m.Marshal(r.proto())
			if err != nil {
				rt.Fatalf("%s", err)
			}
			want = append(want, b...)
		}
		if !bytes.Equal(buf.Bytes(), want) {
			rt.Fatalf("stream %q, whole-buffer form %q", buf.Bytes(), want)
		}
		var rd io.Reader = &buf
		if rapid.Bool().Draw(rt, "slow") {
			rd = oneByte{rd}
		}
		d := m.NewDecoder(rd)
		for i, r := range rs {
			x := filled(r.ranged)
			if err := d.Decode(x); err != nil {
				rt.Fatalf("result %d: %s", i, err)
			}
			if err := from(x).same(r); err != nil {
				rt.Fatalf("result %d: %s", i, err)
			}
		}
		if err := d.Decode(empty(false)); err == nil {
			rt.Fatalf("a result after the end")
		}
	})
}

// spy is a fallback that records.
type spy struct {
	out  []byte
	err  error
	log  []string
	vals []interface{}
}

func (s *spy) Marshal(v interface{}) ([]byte, error) {
	s.log, s.vals = append(s.log, "marshal"), append(s.vals, v)
	return append([]byte{}, s.out...), s.err
}

func (s *spy) Unmarshal(b []byte, v interface{}) error {
	s.log, s.vals = append(s.log, "unmarshal "+string(b)), append(s.vals, v)
	return s.err
}

func (s *spy) NewDecoder(r io.Reader) runtime.Decoder {
	return runtime.DecoderFunc(func(v interface{}) error {
		b, _ := io.ReadAll(r)
		s.log, s.vals = append(s.log, "decode "+string(b)), append(s.vals, v)
		return s.err
	})
}

func (s *spy) NewEncoder(w io.Writer) runtime.Encoder {
	return runtime.EncoderFunc(func(v interface{}) error {
		s.log, s.vals = append(s.log, "encode"), append(s.vals, v)
		w.Write(s.out)
		return s.err
	})
}

func (s *spy) ContentType() string { return "text/x" }

func TestC11_Fallback(t *testing.T) {
	vh.Check(t, vh.N(3000, 40000), "random value of another kind through a recording fallback; each case is non-trivial",
		func(rt *rapid.T, c *vh.Case) {
			s := &spy{out: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(rt, "out")}
			if rapid.IntRange(0, 2).Draw(rt, "fails") == 0 {
				s.err = errors.New("refused")
			}
			m := marshaler.NewPromqlMarshaler(s)
			vals := []interface{}{&logcache_v1.MetaResponse{}, &logcache_v1.ReadResponse{}, &logcache_v1.PromQL_InstantQueryRequest{}, &logcache_v1.PromQL_Matrix{},
				map[string]string{"a": "b"}, "text", 7, nil, &struct{ A int }{3}, &logcache_v1.PromQL_Vector{}}
			i := rapid.IntRange(0, len(vals)-1).Draw(rt, "value")
			v := vals[i]
			in := rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(rt, "in")
			how := rapid.SampledFrom([]string{"marshal", "encode", "unmarshal", "decode"}).Draw(rt, "how")
			c.Class(how)
			c.NonTrivial(fmt.Sprintf("%s %T %q %q %v", how, v, s.out, in, s.err))
			var err error
			wantLog := how
			switch how {
			case "marshal":
				var b []byte
				b, err = m.Marshal(v)
				if want := append(append([]byte{}, s.out...), '\n'); err == nil && !bytes.Equal(b, want) {
					rt.Fatalf("got %q, want %q", b, want)
				}
			case "encode":
				var b bytes.Buffer
				err = m.NewEncoder(&b).Encode(v)
				if got := b.Bytes(); !bytes.Equal(got, s.out) && !bytes.Equal(got, append(append([]byte{}, s.out...), '\n')) {
					rt.Fatalf("got %q, want %q", got, s.out)
				}
			case "unmarshal":
				err = m.Unmarshal(in, v)
				wantLog += " " + string(in)
			case "decode":
				err = m.NewDecoder(bytes.NewReader(in)).Decode(v)
				wantLog += " " + string(in)
			}
			if (err != nil) != (s.err != nil) {
				rt.Fatalf("error %v, the fallback's is %v", err, s.err)
			}
			if len(s.log) != 1 || s.log[0] != wantLog || !reflect.DeepEqual(s.vals[0], v) {
				rt.Fatalf("the fallback saw %q %v, want %q %v", s.log, s.vals, wantLog, v)
			}
			if m.ContentType() != "application/json" {
				rt.Fatalf("content type %q", m.ContentType())
			}
		})
}
