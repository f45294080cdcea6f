package routing_test

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"sort"
	"sync"
	"testing"

	"code.cloudfoundry.org/log-cache/internal/routing"
	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"
)

// numbered hashes decimal source ids to themselves.
func numbered(s string) uint64 {
	var n uint64
	fmt.Sscan(s, &n)
	return n
}

var hashes = rapid.OneOf(rapid.Uint64Range(0, 30), rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1}))

func drawRanges(rt *rapid.T) []*rpc.Range {
	var l []*rpc.Range
	for i, n := 0, rapid.IntRange(0, 4).Draw(rt, "ranges"); i < n; i++ {
		a, b := hashes.Draw(rt, "a"), hashes.Draw(rt, "b")
		if a > b && rapid.IntRange(0, 5).Draw(rt, "swap") > 0 {
			a, b = b, a
		}
		l = append(l, &rpc.Range{Start: a, End: b})
	}
	return l
}

// distinct is a list's set of nodes.
func distinct(l []int) []int {
	m := map[int]bool{}
	var out []int
	for _, i := range l {
		if !m[i] {
			out = append(out, i)
		}
		m[i] = true
	}
	sort.Ints(out)
	return out
}

func TestC23_Table(t *testing.T) {
	vh.Check(t, vh.N(1500, 80000), "a hash had two owners, or lost one by a later assignment", func(rt *rapid.T, c *vh.Case) {
		addrs := []string{"a:1", "b:1", "c:1", "d:1", "e:1"}[:rapid.IntRange(1, 5).Draw(rt, "nodes")]
		tb := routing.NewRoutingTable(addrs, numbered)
		cur := map[string]*rpc.Ranges{}
		two, sets, looked := false, 0, 0
		rt.Repeat(map[string]func(*rapid.T){
			"set": func(rt *rapid.T) {
				req := &rpc.SetRangesRequest{Ranges: map[string]*rpc.Ranges{}}
				for _, a := range addrs {
					if rapid.IntRange(0, 3).Draw(rt, "told") > 0 {
						req.Ranges[a] = &rpc.Ranges{Ranges: drawRanges(rt)}
					} else if rapid.IntRange(0, 3).Draw(rt, "nil") == 0 {
						// what an entry without a value is decoded to
						req.Ranges[a] = nil
					}
				}
				cur = map[string]*rpc.Ranges{}
				for k, v := range req.Ranges {
					if v == nil {
						continue
					}
					cur[k] = proto.Clone(v).(*rpc.Ranges)
				}
				if resp, err := tb.SetRanges(context.Background(), req); err != nil || resp == nil {
					rt.Fatalf("SetRanges: %v %v", resp, err)
				}
				// What the caller does with its request later is its own affair.
				for _, v := range req.Ranges {
					for _, r := range v.GetRanges() {
						r.Start, r.End = 7, 7
					}
				}
				sets++
			},
			"lookup": func(rt *rapid.T) {
				h := hashes.Draw(rt, "hash")
				if all := flat(cur); len(all) > 0 && rapid.Bool().Draw(rt, "border") {
					r := rapid.SampledFrom(all).Draw(rt, "range")
					h = rapid.SampledFrom([]uint64{r.Start, r.End, r.Start - 1, r.End + 1}).Draw(rt, "at")
				}
				var want []int
				for i, a := range addrs {
					for _, r := range cur[a].GetRanges() {
						if r.Start <= h && h <= r.End {
							want = append(want, i)
							break
						}
					}
				}
				for name, f := range map[string]func(string) []int{"Lookup": tb.Lookup, "LookupAll": tb.LookupAll} {
					if got := distinct(f(fmt.Sprint(h))); fmt.Sprint(got) != fmt.Sprint(distinct(want)) {
						rt.Fatalf("%s of hash %d gave nodes %v, want %v: %v", name, h, got, want, cur)
					}
				}
				looked++
				two = two || len(want) > 1
			},
			"": func(*rapid.T) {},
		})
		c.ClassIf(two, "two owners")
		c.If(two || sets > 1 && looked > 1, fmt.Sprint(len(addrs), sets, looked, cur))
	})
}

func flat(m map[string]*rpc.Ranges) []*rpc.Range {
	var l []*rpc.Range
	for _, k := range vh.Keys(m) {
		l = append(l, m[k].Ranges...)
	}
	return l
}

// TestC23_Disjoint: an assignment whose ranges do not overlap names a node
// once.
func TestC23_Disjoint(t *testing.T) {
	vh.Check(t, vh.N(400, 20000), "three ranges or more", func(rt *rapid.T, c *vh.Case) {
		addrs := []string{"a:1", "b:1", "c:1"}
		tb := routing.NewRoutingTable(addrs, numbered)
		req := &rpc.SetRangesRequest{Ranges: map[string]*rpc.Ranges{}}
		n := rapid.IntRange(1, 12).Draw(rt, "n")
		owner := map[int]map[int]bool{}
		for i := 0; i < n; i++ {
			owner[i] = map[int]bool{}
			for j := range addrs {
				if rapid.IntRange(0, 2).Draw(rt, "owns") == 0 {
					owner[i][j] = true
					r, ok := req.Ranges[addrs[j]]
					if !ok {
						r = &rpc.Ranges{}
						req.Ranges[addrs[j]] = r
					}
					r.Ranges = append(r.Ranges, &rpc.Range{Start: uint64(i) * 10, End: uint64(i)*10 + 9})
				}
			}
		}
		tb.SetRanges(context.Background(), req)
		for i := 0; i < n; i++ {
			for _, h := range []int{i * 10, i*10 + 5, i*10 + 9} {
				for _, got := range [][]int{tb.Lookup(fmt.Sprint(h)), tb.LookupAll(fmt.Sprint(h))} {
					if len(got) != len(owner[i]) || len(distinct(got)) != len(got) {
						rt.Fatalf("hash %d gave %v, owners are %v", h, got, owner[i])
					}
				}
			}
		}
		c.If(n > 2, fmt.Sprint(req.Ranges))
	})
}

func TestC23_ConcurrentLookups(t *testing.T) {
	vh.Check(t, vh.N(60, 2000), "every case: lookups race with assignments that all give the hash to one node", func(rt *rapid.T, c *vh.Case) {
		addrs := []string{"a:1", "b:1", "c:1"}
		tb := routing.NewRoutingTable(addrs, numbered)
		set := func(i, w int) {
			m := map[string]*rpc.Ranges{}
			for j, a := range addrs {
				m[a] = &rpc.Ranges{}
				if j == i%3 {
					for k := 0; k < w; k++ {
						m[a].Ranges = append(m[a].Ranges, &rpc.Range{Start: uint64(k) * 10, End: uint64(k)*10 + 9})
					}
				}
			}
			tb.SetRanges(context.Background(), &rpc.SetRangesRequest{Ranges: m})
		}
		w := rapid.IntRange(1, 20).Draw(rt, "width")
		n := rapid.IntRange(5, 60).Draw(rt, "sets")
		set(0, w)
		var wg sync.WaitGroup
		bad := make(chan string, 100)
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 4*n; i++ {
					if got := tb.Lookup(fmt.Sprint(i % (w * 10))); len(got) != 1 || got[0] < 0 || got[0] > 2 {
						select {
						case bad <- fmt.Sprintf("lookup during an assignment gave %v", got):
						default:
						}
					}
				}
			}()
		}
		for i := 0; i < n; i++ {
			set(i, w)
		}
		wg.Wait()
		if len(bad) > 0 {
			rt.Fatalf("%s", <-bad)
		}
		c.NonTrivial(fmt.Sprint(w, n))
	})
}

func TestC23_Static(t *testing.T) {
	vh.Check(t, vh.N(600, 40000), "more than one route", func(rt *rapid.T, c *vh.Case) {
		n := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 5000)).Draw(rt, "routes")
		var h uint64
		l := routing.NewStaticLookup(n, func(string) uint64 { return h })
		last := -1
		probes := []uint64{0, math.MaxUint64}
		for i := 0; i < 12; i++ {
			if rapid.Bool().Draw(rt, "border") {
				b := new(big.Int).Lsh(big.NewInt(1), 64)
				b.Mul(b, big.NewInt(int64(rapid.IntRange(0, n).Draw(rt, "i")))).Div(b, big.NewInt(int64(n)))
				x := b.Uint64()
				if b.BitLen() > 64 {
					x = math.MaxUint64
				}
				probes = append(probes, x+uint64(rapid.IntRange(-3, 3).Draw(rt, "off")))
			} else {
				probes = append(probes, hashes.Draw(rt, "hash"))
			}
		}
		sort.Slice(probes, func(i, j int) bool { return probes[i] < probes[j] })
		for _, p := range probes {
			h = p
			got := l.Lookup("x")
			if got < 0 || got >= n || got < last {
				rt.Fatalf("hash %d of %d routes goes to %d, a lower one to %d", p, n, got, last)
			}
			last = got
			// An even share: h*n/2^64, but for hashes at a border.
			e := new(big.Int).Mul(new(big.Int).SetUint64(p), big.NewInt(int64(n)))
			q, r := new(big.Int).DivMod(e, new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int))
			near := r.Cmp(new(big.Int).Mul(big.NewInt(int64(n)), big.NewInt(int64(2*n)))) < 0 ||
				new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), r).Cmp(new(big.Int).Mul(big.NewInt(int64(n)), big.NewInt(int64(2*n)))) < 0
			if !near && q.Int64() != int64(got) {
				rt.Fatalf("hash %d of %d routes goes to %d, an even share gives %d", p, n, got, q)
			}
		}
		c.If(n > 1, fmt.Sprint(n, probes))
	})
}

// TestC27_Ranges keeps a model of the list of ranges.
func TestC27_Ranges(t *testing.T) {
	vh.Check(t, vh.N(1500, 80000), "a range was removed while others, or a copy of it, stayed", func(rt *rapid.T, c *vh.Case) {
		set := &setter{}
		o := routing.NewOrchestratorAgent(set)
		var cur []rpc.Range
		type old struct {
			got  []*rpc.Range
			want []rpc.Range
		}
		var lists []old
		small := rapid.Uint64Range(0, 3)
		stayed := false
		compare := func(rt *rapid.T, got []*rpc.Range, want []rpc.Range, when string) {
			m := map[string]int{}
			for _, r := range got {
				m[fmt.Sprint(r.GetStart(), "-", r.GetEnd())]++
			}
			for _, r := range want {
				m[fmt.Sprint(r.Start, "-", r.End)]--
			}
			for k, n := range m {
				if n != 0 {
					rt.Fatalf("%s: range %s is listed %d times too often: %v, want %v", when, k, n, got, want)
				}
			}
		}
		ctx := context.WithValue(context.Background(), key{}, "x")
		rt.Repeat(map[string]func(*rapid.T){
			"add": func(rt *rapid.T) {
				r := rpc.Range{Start: small.Draw(rt, "start"), End: small.Draw(rt, "end")}
				cp := r
				if _, err := o.AddRange(ctx, &rpc.AddRangeRequest{Range: &cp}); err != nil {
					rt.Fatalf("AddRange: %s", err)
				}
				cur = append(cur, r)
			},
			"remove": func(rt *rapid.T) {
				r := rpc.Range{Start: small.Draw(rt, "start"), End: small.Draw(rt, "end")}
				if len(cur) > 0 && rapid.IntRange(0, 3).Draw(rt, "existing") > 0 {
					r = cur[rapid.IntRange(0, len(cur)-1).Draw(rt, "which")]
				}
				if _, err := o.RemoveRange(ctx, &rpc.RemoveRangeRequest{Range: &rpc.Range{Start: r.Start, End: r.End}}); err != nil {
					rt.Fatalf("RemoveRange: %s", err)
				}
				for i := range cur {
					if cur[i].Start == r.Start && cur[i].End == r.End {
						cur = append(append([]rpc.Range(nil), cur[:i]...), cur[i+1:]...)
						stayed = stayed || len(cur) > 0
						break
					}
				}
			},
			"nothing": func(rt *rapid.T) {
				if _, err := o.AddRange(ctx, &rpc.AddRangeRequest{}); err == nil {
					rt.Fatalf("adding no range is no error")
				}
				if _, err := o.RemoveRange(ctx, &rpc.RemoveRangeRequest{}); err == nil {
					rt.Fatalf("removing no range is no error")
				}
			},
			"set": func(rt *rapid.T) {
				req := &rpc.SetRangesRequest{}
				for _, a := range []string{"a", "b"} {
					if k := rapid.IntRange(0, 3).Draw(rt, "told"); k > 0 {
						if req.Ranges == nil {
							req.Ranges = map[string]*rpc.Ranges{}
						}
						req.Ranges[a] = &rpc.Ranges{}
						if k > 1 {
							req.Ranges[a].Ranges = drawRanges(rt)
						}
					}
				}
				want := proto.Clone(req)
				set.resp, set.err = &rpc.SetRangesResponse{}, nil
				if rapid.Bool().Draw(rt, "fails") {
					set.resp, set.err = nil, fmt.Errorf("no")
				}
				n := len(set.reqs)
				resp, err := o.SetRanges(ctx, req)
				if resp != set.resp || err != set.err || len(set.reqs) != n+1 || !proto.Equal(set.reqs[n], want) || set.ctx.Value(key{}) != "x" {
					rt.Fatalf("SetRanges gave %v %v, the table got %v", resp, err, set.reqs)
				}
			},
			"list": func(rt *rapid.T) {
				resp, err := o.ListRanges(ctx, &rpc.ListRangesRequest{})
				if err != nil {
					rt.Fatalf("ListRanges: %s", err)
				}
				compare(rt, resp.Ranges, cur, "now")
				lists = append(lists, old{resp.Ranges, append([]rpc.Range(nil), cur...)})
			},
			"": func(rt *rapid.T) {
				for _, l := range lists {
					compare(rt, l.got, l.want, "a list taken earlier")
				}
			},
		})
		c.If(stayed && len(lists) > 0, fmt.Sprint(len(lists), cur))
	})
}

type key struct{}

type setter struct {
	reqs []*rpc.SetRangesRequest
	ctx  context.Context
	resp *rpc.SetRangesResponse
	err  error
}

func (s *setter) SetRanges(ctx context.Context, in *rpc.SetRangesRequest) (*rpc.SetRangesResponse, error) {
	s.reqs = append(s.reqs, in)
	s.ctx = ctx
	return s.resp, s.err
}

func TestC27_Concurrent(t *testing.T) {
	vh.Check(t, vh.N(80, 4000), "two goroutines or more add and remove ranges while others list them", func(rt *rapid.T, c *vh.Case) {
		o := routing.NewOrchestratorAgent(&setter{})
		ctx := context.Background()
		workers := rapid.IntRange(2, 5).Draw(rt, "workers")
		n := rapid.IntRange(1, 30).Draw(rt, "n")
		keep := rapid.IntRange(0, 3).Draw(rt, "keep")
		var wg, lw sync.WaitGroup
		done := make(chan struct{})
		bad := make(chan string, 8)
		lw.Add(1)
		go func() {
			defer lw.Done()
			for {
				resp, err := o.ListRanges(ctx, &rpc.ListRangesRequest{})
				if err != nil {
					return
				}
				seen := map[uint64]bool{}
				for _, r := range resp.Ranges {
					if seen[r.Start] || r.End != r.Start+1 {
						select {
						case bad <- fmt.Sprintf("a list has %v twice, or it is none of ours", r):
						default:
						}
					}
					seen[r.Start] = true
				}
				select {
				case <-done:
					return
				default:
				}
			}
		}()
		for w := 0; w < workers; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					s := uint64(w*1000 + i)
					o.AddRange(ctx, &rpc.AddRangeRequest{Range: &rpc.Range{Start: s, End: s + 1}})
					if i%4 >= keep {
						o.RemoveRange(ctx, &rpc.RemoveRangeRequest{Range: &rpc.Range{Start: s, End: s + 1}})
					}
				}
			}()
		}
		wg.Wait()
		close(done)
		lw.Wait()
		if len(bad) > 0 {
			rt.Fatalf("%s", <-bad)
		}
		want := 0
		for i := 0; i < n; i++ {
			if i%4 < keep {
				want += workers
			}
		}
		resp, _ := o.ListRanges(ctx, &rpc.ListRangesRequest{})
		if len(resp.Ranges) != want {
			rt.Fatalf("%d ranges are left, want %d", len(resp.Ranges), want)
		}
		c.NonTrivial(fmt.Sprint(workers, n, keep))
	})
}
