// Package orchestrator is a stand-in for code.cloudfoundry.org/go-orchestrator.
package orchestrator

import (
	"context"
	"sync"
	"time"
)

// Communicator talks to workers.
type Communicator interface {
	List(ctx context.Context, worker interface{}) ([]interface{}, error)
	Add(ctx context.Context, worker, task interface{}) error
	Remove(ctx context.Context, worker, task interface{}) error
}

// Orchestrator spreads tasks over workers.
type Orchestrator struct {
	c       Communicator
	timeout time.Duration

	mu         sync.Mutex
	workers    []interface{}
	tasks      []task
	lastActual []WorkerState
}

type task struct {
	def interface{}
	n   int
}

// WorkerState is what one worker has.
type WorkerState struct {
	Name  interface{}
	Tasks []interface{}
}

// OrchestratorOption configures an Orchestrator.
type OrchestratorOption func(*Orchestrator)

// WithCommunicatorTimeout sets the timeout of each call.
func WithCommunicatorTimeout(t time.Duration) OrchestratorOption {
	return func(o *Orchestrator) { o.timeout = t }
}

// TaskOption configures a task.
type TaskOption func(*task)

// WithTaskInstances sets how many workers get the task.
func WithTaskInstances(n int) TaskOption { return func(t *task) { t.n = n } }

// New returns an orchestrator.
func New(c Communicator, opts ...OrchestratorOption) *Orchestrator {
	o := &Orchestrator{c: c, timeout: 10 * time.Second}
	for _, f := range opts {
		f(o)
	}
	return o
}

// AddWorker adds a worker.
func (o *Orchestrator) AddWorker(w interface{}) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, x := range o.workers {
		if x == w {
			return
		}
	}
	o.workers = append(o.workers, w)
}

// RemoveWorker removes a worker.
func (o *Orchestrator) RemoveWorker(w interface{}) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for i, x := range o.workers {
		if x == w {
			o.workers = append(o.workers[:i:i], o.workers[i+1:]...)
			return
		}
	}
}

// AddTask adds a task.
func (o *Orchestrator) AddTask(def interface{}, opts ...TaskOption) {
	o.mu.Lock()
	defer o.mu.Unlock()
	t := task{def: def, n: 1}
	for _, f := range opts {
		f(&t)
	}
	for i := range o.tasks {
		if o.tasks[i].def == def {
			o.tasks[i] = t
			return
		}
	}
	o.tasks = append(o.tasks, t)
}

// LastActual is the state seen by the last term.
func (o *Orchestrator) LastActual() []WorkerState {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.lastActual
}

// NextTerm lists what workers have, removes what they should not have, and
// gives the tasks that are missing to the least loaded workers.
func (o *Orchestrator) NextTerm(ctx context.Context) {
	o.mu.Lock()
	defer o.mu.Unlock()

	type state struct {
		w     interface{}
		tasks []interface{}
	}
	var live []*state
	o.lastActual = nil
	for _, w := range o.workers {
		c, cancel := context.WithTimeout(ctx, o.timeout)
		ts, err := o.c.List(c, w)
		cancel()
		if err != nil {
			continue
		}
		live = append(live, &state{w, append([]interface{}(nil), ts...)})
		o.lastActual = append(o.lastActual, WorkerState{Name: w, Tasks: ts})
	}
	if len(live) == 0 {
		return
	}

	want := map[interface{}]int{}
	total := 0
	for _, t := range o.tasks {
		want[t.def] = t.n
		total += t.n
	}
	max := (total + len(live) - 1) / len(live)

	remove := func(s *state, i int) {
		c, cancel := context.WithTimeout(ctx, o.timeout)
		o.c.Remove(c, s.w, s.tasks[i])
		cancel()
		s.tasks = append(s.tasks[:i:i], s.tasks[i+1:]...)
	}
	have := map[interface{}]int{}
	for _, s := range live {
		seen := map[interface{}]bool{}
		for i := 0; i < len(s.tasks); i++ {
			d := s.tasks[i]
			if n, ok := want[d]; !ok || have[d] >= n || seen[d] || len(s.tasks) > max {
				remove(s, i)
				i--
				continue
			}
			seen[d] = true
			have[d]++
		}
	}

	for _, t := range o.tasks {
		tried := map[*state]bool{}
		for have[t.def] < t.n {
			var best *state
		next:
			for _, s := range live {
				if tried[s] || (best != nil && len(s.tasks) >= len(best.tasks)) {
					continue
				}
				for _, d := range s.tasks {
					if d == t.def {
						continue next
					}
				}
				best = s
			}
			if best == nil {
				break
			}
			tried[best] = true
			c, cancel := context.WithTimeout(ctx, o.timeout)
			err := o.c.Add(c, best.w, t.def)
			cancel()
			if err == nil {
				best.tasks = append(best.tasks, t.def)
				have[t.def]++
			}
		}
	}
}
