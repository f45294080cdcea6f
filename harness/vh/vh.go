// Package vh is what every check of this module shares: accounting of the
// generated cases, the tier and the seed, known findings, and bubbles of
// virtual time.
package vh

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a case count by tier. VERIF_SCALE (a float) multiplies it.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && s > 0 {
		n = int(float64(n) * s)
		if n < 1 {
			n = 1
		}
	}
	return n
}

// Seed is the run's VERIF_SEED as a non-zero number.
func Seed() uint64 {
	s, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return s*2654435761 + 97
}

// Harness ends the run with an error that is the harness's, not the code's.
func Harness(format string, a ...interface{}) {
	fmt.Printf("HARNESS-ERROR: "+format+"\n%s\n", append(a, debug.Stack())...)
	os.Exit(77)
}

// Must is Harness when err is not nil.
func Must(err error) {
	if err != nil {
		Harness("%s", err)
	}
}

// hung is the time after which a case counts as one that never ends.
const hung = 100 * time.Second

type cover struct {
	Test               string         `json:"test"`
	Rule               string         `json:"rule"`
	Evaluations        int            `json:"evaluations"`
	DistinctNontrivial int            `json:"distinct_nontrivial"`
	Classes            map[string]int `json:"classes"`
	Samples            []string       `json:"samples"`
	seen               map[uint64]struct{}
	mu                 sync.Mutex
}

// Case accounts for one generated case.
type Case struct {
	c       *cover
	nontriv bool
	key     string
}

// NonTrivial marks the case as non-trivial; key identifies it among cases.
func (c *Case) NonTrivial(key string) { c.nontriv, c.key = true, key }

// If marks the case as non-trivial when cond holds.
func (c *Case) If(cond bool, key string) {
	if cond {
		c.NonTrivial(key)
	}
}

// Class counts the case in a class.
func (c *Case) Class(name string) {
	c.c.mu.Lock()
	c.c.Classes[name]++
	c.c.mu.Unlock()
}

// ClassIf counts the case in a class when cond holds.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.Class(name)
	}
}

func (c *Case) done() {
	c.c.mu.Lock()
	defer c.c.mu.Unlock()
	c.c.Evaluations++
	if !c.nontriv {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(c.key))
	k := h.Sum64()
	if _, ok := c.c.seen[k]; ok {
		return
	}
	c.c.seen[k] = struct{}{}
	c.c.DistinctNontrivial++
	if n := c.c.DistinctNontrivial; len(c.c.Samples) < 4 && (n == 3 || n == 17 || n == 60 || n == 150) || len(c.c.Samples) == 0 {
		s := c.key
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.c.Samples = append(c.c.Samples, s)
	}
}

func newCover(t *testing.T, rule string) *cover {
	c := &cover{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]struct{}{}}
	t.Cleanup(func() {
		dir := os.Getenv("VERIF_COV_DIR")
		if dir == "" {
			b, _ := json.Marshal(c)
			if testing.Verbose() {
				t.Logf("%s", b)
			}
			return
		}
		b, err := json.Marshal(c)
		Must(err)
		Must(os.WriteFile(filepath.Join(dir, strings.ReplaceAll(t.Name(), "/", "_")+".json"), b, 0o644))
	})
	return c
}

// Check runs prop over n generated cases. rule says what a non-trivial case
// is.
func Check(t *testing.T, n int, rule string, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	if fuzzing {
		rapid.MakeFuzz(func(rt *rapid.T) {
			prop(rt, &Case{c: &cover{Classes: map[string]int{}, seen: map[uint64]struct{}{}}})
		})(t, fuzzed)
		return
	}
	cov := newCover(t, rule)
	if os.Getenv("VERIF_REPLAY") == "" {
		flag.Set("rapid.checks", strconv.Itoa(n))
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{c: cov}
		w := time.AfterFunc(hung, func() {
			buf := make([]byte, 1<<20)
			fmt.Printf("--- FAIL: %s\n    a case that takes milliseconds did not end in %s\n%s\n", t.Name(), hung, buf[:runtime.Stack(buf, true)])
			os.Exit(1)
		})
		defer w.Stop()
		prop(rt, c)
		c.done()
	})
}

// What a coverage-guided search tries.
var (
	fuzzing bool
	fuzzed  []byte
)

// Fuzz searches the cases of a test of one Check under the guidance of coverage: the
// bytes are what rapid draws from. bin/check makes the corpus.
func Fuzz(f *testing.F, test func(*testing.T)) {
	f.Fuzz(func(t *testing.T, b []byte) {
		fuzzing, fuzzed = true, b
		test(t)
	})
}

// Plain is for a check with a fixed list of cases, counted like Check's.
func Plain(t *testing.T, rule string, f func(next func() *Case)) {
	cov := newCover(t, rule)
	var last *Case
	f(func() *Case {
		if last != nil {
			last.done()
		}
		last = &Case{c: cov}
		return last
	})
	if last != nil {
		last.done()
	}
}

// Bubble runs f in a bubble of virtual time and returns what went wrong: a
// panic on f's own goroutine, or goroutines left behind for good.
func Bubble(t *testing.T, f func()) (err error) {
	var drawn interface{}
	defer func() {
		if drawn != nil {
			panic(drawn)
		}
	}()
	defer func() {
		if r := recover(); r != nil && err == nil {
			err = fmt.Errorf("bubble: %v", r)
		}
	}()
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
					drawn = r // rapid ends a case that it has no more data for
					return
				}
				if f, ok := r.(failure); ok {
					err = errors.New(string(f))
					return
				}
				err = fmt.Errorf("panic: %v\n%s", r, trim(debug.Stack()))
			}
		}()
		f()
	})
	return err
}

type failure string

// Fail ends the function that Bubble runs, which returns the text as an error.
func Fail(format string, a ...interface{}) {
	panic(failure(fmt.Sprintf(format, a...)))
}

// Try runs f and returns its panic, if any, as an error.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(runtime.Error); !ok {
				if strings.Contains(fmt.Sprintf("%T", r), "rapid") {
					panic(r)
				}
			}
			err = fmt.Errorf("panic: %v\n%s", r, trim(debug.Stack()))
		}
	}()
	f()
	return nil
}

func trim(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

// Known reports a listed known finding.
func Known(property, what string) {
	fmt.Printf("KNOWN-FINDING: property=%s %s\n", property, what)
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
