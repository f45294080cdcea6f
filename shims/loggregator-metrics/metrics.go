// Package metrics is a stand-in for code.cloudfoundry.org/go-loggregator/metrics.
package metrics

import (
	"log"
	"sync"
)

// Opts describes a metric.
type Opts struct {
	Name        string
	Help        string
	ConstLabels map[string]string
}

// MetricOption configures a metric.
type MetricOption func(o *Opts)

// WithMetricTags sets the tags of a metric.
func WithMetricTags(tags map[string]string) MetricOption {
	return func(o *Opts) {
		o.ConstLabels = map[string]string{}
		for k, v := range tags {
			o.ConstLabels[k] = v
		}
	}
}

// WithHelpText sets the help of a metric.
func WithHelpText(h string) MetricOption { return func(o *Opts) { o.Help = h } }

// Counter only goes up.
type Counter interface{ Add(float64) }

// Gauge is settable.
type Gauge interface {
	Add(float64)
	Set(float64)
}

// RegistryOption configures a registry.
type RegistryOption func(r *Registry)

// WithServer is accepted and ignored.
func WithServer(port int) RegistryOption { return func(*Registry) {} }

// WithDefaultTags is accepted and ignored.
func WithDefaultTags(map[string]string) RegistryOption { return func(*Registry) {} }

// WithTLSServer is accepted and ignored.
func WithTLSServer(port int, certFile, keyFile, caFile string) RegistryOption {
	return func(*Registry) {}
}

// Registry keeps metrics.
type Registry struct{}

// NewRegistry returns a registry.
func NewRegistry(l *log.Logger, opts ...RegistryOption) *Registry {
	r := &Registry{}
	for _, o := range opts {
		o(r)
	}
	return r
}

// NewCounter returns a counter.
func (r *Registry) NewCounter(name string, opts ...MetricOption) Counter { return &cell{} }

// NewGauge returns a gauge.
func (r *Registry) NewGauge(name string, opts ...MetricOption) Gauge { return &cell{} }

type cell struct {
	mu sync.Mutex
	v  float64
}

func (c *cell) Add(d float64) { c.mu.Lock(); c.v += d; c.mu.Unlock() }
func (c *cell) Set(d float64) { c.mu.Lock(); c.v = d; c.mu.Unlock() }
