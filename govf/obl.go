package govf

import (
	"fmt"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"verif/govf/hint"
)

// Obl is one proof obligation and its fate.
type Obl struct {
	ID      string   `json:"id"` // stable name: layer/function/what
	Layer   string   `json:"layer"`
	Props   []string `json:"props"` // properties it belongs to
	Desc    string   `json:"desc"`
	OK      bool     `json:"ok"`
	Stuck   bool     `json:"undecided,omitempty"` // the verifier could not decide it
	Why     []string `json:"why,omitempty"`
	Backend string   `json:"backend,omitempty"`
	Bounded string   `json:"bounded,omitempty"` // decided up to this bound only
}

// Report collects obligations.
type Report struct {
	mu       sync.Mutex
	Obls     map[string]*Obl
	Order    []string
	Funcs    map[string]bool // functions executed by their body
	Used     map[string]bool // contracts relied on
	Paths    int
	Steps    int
	Queries  int
	Solver   time.Duration
	Backends map[string]int
	Notes    []string
	Hints    []Hint
	Complete bool // every layer was run
}

// Hint is a place to look for a failing input.
type Hint = hint.Hint

// Hint adds a hint.
func (r *Report) Hint(rule, text string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, h := range r.Hints {
		if h.Rule == rule && h.Text == text {
			return
		}
	}
	if len(r.Hints) < 400 {
		r.Hints = append(r.Hints, Hint{Rule: rule, Text: text})
	}
}

// NewReport makes a report.
func NewReport() *Report {
	return &Report{Obls: map[string]*Obl{}, Funcs: map[string]bool{}, Used: map[string]bool{}, Backends: map[string]int{}}
}

// Oblige registers an obligation, holding until failed.
func (r *Report) Oblige(id, layer, desc string, props ...string) *Obl {
	r.mu.Lock()
	defer r.mu.Unlock()
	if o, ok := r.Obls[id]; ok {
		return o
	}
	o := &Obl{ID: id, Layer: layer, Desc: desc, OK: true, Props: props, Backend: "symbolic execution"}
	r.Obls[id] = o
	r.Order = append(r.Order, id)
	return o
}

// Fail records a failure of an obligation.
func (r *Report) Fail(o *Obl, stuck bool, format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	o.OK = false
	if stuck {
		o.Stuck = true
	}
	w := fmt.Sprintf(format, a...)
	for _, x := range o.Why {
		if x == w {
			return
		}
	}
	if len(o.Why) < 12 {
		o.Why = append(o.Why, w)
	}
}

// Absorb adds the statistics of an engine.
func (r *Report) Absorb(e *Engine) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range e.Inlined {
		r.Funcs[k] = true
	}
	for k := range e.Used {
		r.Used[k] = true
	}
	r.Paths += e.Paths
	r.Steps += e.TotalStep
	if e.S != nil {
		r.Queries += e.S.Stats.Queries
		r.Solver += e.S.Stats.Time
		for k, v := range e.S.Stats.Backends {
			r.Backends[k] += v
		}
	}
}

// Merge adds the content of another report.
func (r *Report) Merge(q *Report) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, id := range q.Order {
		if r.Obls[id] == nil {
			r.Order = append(r.Order, id)
		}
		r.Obls[id] = q.Obls[id]
	}
	for k := range q.Funcs {
		r.Funcs[k] = true
	}
	for k := range q.Used {
		r.Used[k] = true
	}
	r.Paths += q.Paths
	r.Steps += q.Steps
	r.Queries += q.Queries
	r.Solver += q.Solver
	for k, v := range q.Backends {
		r.Backends[k] += v
	}
	r.Notes = append(r.Notes, q.Notes...)
	r.Hints = append(r.Hints, q.Hints...)
}

// Failed lists failed obligations.
func (r *Report) Failed() []*Obl {
	var out []*Obl
	for _, k := range r.Order {
		if !r.Obls[k].OK {
			out = append(out, r.Obls[k])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Internal collects panics of the verifier: what was being proved is undecided.
var (
	internalMu sync.Mutex
	internal   []string
)

func guarded(f func()) {
	defer func() {
		if p := recover(); p != nil {
			internalMu.Lock()
			internal = append(internal, fmt.Sprintf("%v\n%s", p, debug.Stack()))
			internalMu.Unlock()
		}
	}()
	f()
}

// InternalErrors lists the panics of the verifier.
func InternalErrors() []string {
	internalMu.Lock()
	defer internalMu.Unlock()
	return append([]string{}, internal...)
}

// Parallel runs jobs on n workers.
func Parallel(n int, jobs []func()) {
	ch := make(chan func())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				guarded(f)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}
