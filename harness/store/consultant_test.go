package store_test

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"code.cloudfoundry.org/log-cache/internal/cache/store"
	"code.cloudfoundry.org/log-cache/verif/vh"
	"pgregory.net/rapid"
)

func newStoreWith(max int, mc *consultant, r *registry) *store.Store {
	return store.NewStore(max, mc, r)
}

type memory struct{ heap, avail, total uint64 }

func (m memory) Memory() (uint64, uint64, uint64) { return m.heap, m.avail, m.total }

func TestC21_Consultant(t *testing.T) {
	vh.Check(t, vh.N(4000, 300000), "the heap is over its share and something is stored", func(rt *rapid.T, c *vh.Case) {
		// Machines of up to 1 TB.
		total := rapid.OneOf(rapid.Uint64Range(1, 1<<40), rapid.Uint64Range(1, 2000), rapid.SampledFrom([]uint64{1 << 30, 16 << 30, 100, 1000})).Draw(rt, "total")
		heap := rapid.OneOf(rapid.Uint64Range(0, total), rapid.Custom(func(t *rapid.T) uint64 {
			return total / 100 * uint64(rapid.IntRange(0, 100).Draw(t, "percent"))
		})).Draw(rt, "heap")
		limit := rapid.OneOf(rapid.Map(rapid.IntRange(0, 100), func(i int) float64 { return float64(i) }), rapid.Float64Range(0, 100)).Draw(rt, "limit")
		count := rapid.OneOf(rapid.Int64Range(0, 1<<40), rapid.Int64Range(0, 300)).Draw(rt, "count")
		r := newRegistry()
		pc := store.NewPruneConsultant(rapid.IntRange(0, 5).Draw(rt, "step"), limit, memory{heap, rapid.Uint64().Draw(rt, "avail"), total})
		if rapid.Bool().Draw(rt, "reported") {
			pc.SetMemoryReporter(r.NewGauge("memory"))
		}
		got := pc.GetQuantityToPrune(count)

		// share = 100 heap / total; excess = (share - limit) / share.
		share := new(big.Rat).Mul(big.NewRat(100, 1), new(big.Rat).SetFrac(new(big.Int).SetUint64(heap), new(big.Int).SetUint64(total)))
		f, _ := share.Float64()
		if v, ok := r.cells["memory"]; ok {
			if d := math.Abs(v.get() - f); d > 1e-9*math.Max(1, f) {
				rt.Fatalf("heap %d of %d is reported as %v percent", heap, total, v.get())
			}
		}
		lim := new(big.Rat).SetFloat64(limit)
		want := new(big.Rat)
		over := share.Cmp(lim) > 0
		if over {
			want.Sub(share, lim)
			want.Quo(want, share)
			want.Mul(want, new(big.Rat).SetInt64(count))
		}
		w, _ := want.Float64()
		// Whole envelopes, and the rounding of doubles.
		tol := 1 + 1e-9*float64(count)
		if float64(got) > w+tol-1+1e-6 || float64(got) < w-tol || got < 0 || int64(got) > count {
			rt.Fatalf("heap %d of %d, limit %v, %d stored: asks for %d, want %v", heap, total, limit, count, got, w)
		}
		if !over && f < limit*(1-1e-12) && got != 0 {
			rt.Fatalf("heap %d of %d is under the limit of %v percent: asks for %d of %d", heap, total, limit, got, count)
		}
		c.ClassIf(got == 0, "nothing")
		c.If(over && count > 0, fmt.Sprintf("heap %d/%d limit %v count %d: %d", heap, total, limit, count, got))
	})
}
