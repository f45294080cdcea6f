// Package testhelpers is a stand-in for
// code.cloudfoundry.org/go-loggregator/metrics/testhelpers.
package testhelpers

import (
	"fmt"
	"sort"
	"sync"

	"code.cloudfoundry.org/go-loggregator/metrics"
)

// SpyMetricsRegistry records metrics.
type SpyMetricsRegistry struct {
	mu      sync.Mutex
	Metrics map[string]*SpyMetric
}

// NewMetricsRegistry returns an empty spy.
func NewMetricsRegistry() *SpyMetricsRegistry {
	return &SpyMetricsRegistry{Metrics: map[string]*SpyMetric{}}
}

// NewCounter registers a counter.
func (s *SpyMetricsRegistry) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	return s.add(name, opts)
}

// NewGauge registers a gauge.
func (s *SpyMetricsRegistry) NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge {
	return s.add(name, opts)
}

func (s *SpyMetricsRegistry) add(name string, opts []metrics.MetricOption) *SpyMetric {
	o := &metrics.Opts{}
	for _, f := range opts {
		f(o)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	k := key(name, o.ConstLabels)
	if m, ok := s.Metrics[k]; ok {
		return m
	}
	m := &SpyMetric{name: name, tags: o.ConstLabels}
	s.Metrics[k] = m
	return m
}

// GetMetric finds a metric by name and tags, or by name alone when it is the
// only one of that name and tags is nil.
func (s *SpyMetricsRegistry) GetMetric(name string, tags map[string]string) *SpyMetric {
	if m := s.find(name, tags); m != nil {
		return m
	}
	panic(fmt.Sprintf("unknown metric: %s", key(name, tags)))
}

// HasMetric tells whether a metric was registered.
func (s *SpyMetricsRegistry) HasMetric(name string, tags map[string]string) bool {
	return s.find(name, tags) != nil
}

// GetMetricValue is the value of a metric.
func (s *SpyMetricsRegistry) GetMetricValue(name string, tags map[string]string) float64 {
	return s.GetMetric(name, tags).Value()
}

func (s *SpyMetricsRegistry) find(name string, tags map[string]string) *SpyMetric {
	s.mu.Lock()
	defer s.mu.Unlock()
	if m, ok := s.Metrics[key(name, tags)]; ok {
		return m
	}
	if tags == nil {
		var ks []string
		for k, m := range s.Metrics {
			if m.name == name {
				ks = append(ks, k)
			}
		}
		if len(ks) > 0 {
			sort.Strings(ks)
			return s.Metrics[ks[0]]
		}
	}
	return nil
}

func key(name string, tags map[string]string) string {
	var ks []string
	for k := range tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		name += "_" + k + "_" + tags[k]
	}
	return name
}

// SpyMetric is a counter or a gauge.
type SpyMetric struct {
	mu    sync.Mutex
	value float64
	name  string
	tags  map[string]string
}

// Set sets the value.
func (s *SpyMetric) Set(c float64) { s.mu.Lock(); s.value = c; s.mu.Unlock() }

// Add adds to the value.
func (s *SpyMetric) Add(c float64) { s.mu.Lock(); s.value += c; s.mu.Unlock() }

// Value is the value.
func (s *SpyMetric) Value() float64 { s.mu.Lock(); defer s.mu.Unlock(); return s.value }
