// Package eng drives the library under test: enumeration, panic-safe calls,
// cloning of groups, the pairing of library groups with the reference model,
// and reporting.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of a check.
type Run struct {
	Prop     string
	Tier     string
	Seed     int
	Level    string
	Only     string // replay: run only cases whose name has this prefix
	Deadline time.Time

	start  time.Time
	mu     sync.Mutex
	viol   []Violation
	counts map[string]int64
	seen   map[string]bool
	inputs map[uint64]bool
	samp   map[string][]string
	cut    atomic.Bool
	stop   atomic.Bool
	errs   []string
	live   map[string]bool

	// OnViolation is called after each violation, if set.
	OnViolation func()
	late        atomic.Bool

	states, transitions, traces atomic.Int64
}

// Violation is a property violation with its replayable case.
type Violation struct {
	Property   string `json:"property"`
	Case       string `json:"case"`
	What       string `json:"what"`
	Reproduced string `json:"reproduced"`
	Replay     string `json:"replay_cmd"`
	File       string `json:"-"`
}

func NewRun(prop, tier, level string) *Run {
	return &Run{Prop: prop, Tier: tier, Level: level, start: time.Now(),
		counts: map[string]int64{}, seen: map[string]bool{}, inputs: map[uint64]bool{}, samp: map[string][]string{}, live: map[string]bool{}}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// State counts a model state visited.
func (r *Run) State() { r.states.Add(1) }

// Transition counts a transition executed.
func (r *Run) Transition() { r.transitions.Add(1) }

// Trace counts an execution of the implementation compared with the model.
func (r *Run) Trace() { r.traces.Add(1) }

// Count increments a named counter of distinct outcomes or dimensions.
func (r *Run) Count(name string) {
	r.mu.Lock()
	r.counts[name]++
	r.mu.Unlock()
}

// Distinct registers a key and tells whether it is new.
func (r *Run) Distinct(key string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.seen[key] {
		return false
	}
	r.seen[key] = true
	return true
}

// Case registers a distinct input given to the library.
func (r *Run) Case(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	k := h.Sum64()
	r.mu.Lock()
	r.inputs[k] = true
	r.mu.Unlock()
}

// Sample keeps a few written-out cases per kind.
func (r *Run) Sample(kind, s string) {
	r.mu.Lock()
	if len(r.samp[kind]) < 3 {
		r.samp[kind] = append(r.samp[kind], s)
	}
	r.mu.Unlock()
}

// Done tells whether enumeration should stop.
func (r *Run) Done() bool {
	if r.stop.Load() {
		return true
	}
	if r.late.Load() {
		r.cut.Store(true)
		return true
	}
	return false
}

// Case is one enumerated execution. It must be deterministic up to the
// library's own randomness and must not depend on other cases.
type Case struct {
	Name string
	Run  func(t *T)
}

// T collects what a case observes.
type T struct {
	*Run
	Name  string
	fails []string
	dry   bool
}

// Fail reports a violation of the property in this case.
func (t *T) Fail(format string, a ...interface{}) {
	t.fails = append(t.fails, fmt.Sprintf(format, a...))
}

func (t *T) Failed() bool { return len(t.fails) > 0 }

func (t *T) State() {
	if !t.dry {
		t.Run.State()
	}
}
func (t *T) Transition() {
	if !t.dry {
		t.Run.Transition()
	}
}
func (t *T) Trace() {
	if !t.dry {
		t.Run.Trace()
	}
}
func (t *T) Count(n string) {
	if !t.dry {
		t.Run.Count(n)
	}
}

type harnessErr struct{ err string }

// Harness aborts the case: the checker itself failed.
func Harness(format string, a ...interface{}) {
	panic(harnessErr{fmt.Sprintf(format, a...)})
}

func (r *Run) exec(c Case, dry bool) (t *T) {
	t = &T{Run: r, Name: c.Name, dry: dry}
	r.mu.Lock()
	r.live[c.Name] = true
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		delete(r.live, c.Name)
		r.mu.Unlock()
	}()
	defer func() {
		if p := recover(); p != nil {
			h, ok := p.(harnessErr)
			msg := h.err
			if !ok {
				msg = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
			// an earlier observed violation may have left the case unable to go on
			if len(t.fails) == 0 {
				r.mu.Lock()
				r.errs = append(r.errs, c.Name+": "+msg)
				r.mu.Unlock()
			}
		}
	}()
	c.Run(t)
	return t
}

// Do runs one case and, when it fails, confirms it by running it again.
func (r *Run) Do(c Case) bool {
	if r.Only != "" && !strings.HasPrefix(c.Name, r.Only) {
		return true
	}
	if r.Done() {
		return true
	}
	start := time.Now()
	t := r.exec(c, false)
	if len(t.fails) == 0 {
		return true
	}
	// long cases are repeated less often, to stay within the time allowed
	runs := 5
	if time.Since(start) > 20*time.Second {
		runs = 1
	}
	if r.OnViolation != nil {
		r.report(c.Name, strings.Join(t.fails, "; "), 0, runs)
		r.OnViolation()
	}
	again := 0
	for i := 0; i < runs; i++ {
		if u := r.exec(c, true); len(u.fails) > 0 {
			again++
		}
	}
	r.report(c.Name, strings.Join(t.fails, "; "), again, runs)
	return false
}

func (r *Run) report(name, what string, again, runs int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viol) >= 8 {
		r.stop.Store(true)
		return
	}
	if len(what) > 2000 {
		what = what[:2000]
	}
	r.viol = append(r.viol, Violation{Property: r.Prop, Case: name, What: what, Reproduced: fmt.Sprintf("%d/%d", again, runs),
		Replay: fmt.Sprintf("./check.sh %s %s %q", r.Prop, r.Tier, name)})
}

// hang records what is wrong with a library call in one of the named cases.
func (r *Run) hang(names []string, what, where string) {
	name := ""
	if len(names) > 0 {
		name = names[0]
	}
	r.report(name, fmt.Sprintf("a library call %s (%s); cases running: %s", what, where, strings.Join(names, ", ")), 0, 0)
}

// Workers is the degree of parallelism.
var Workers = runtime.NumCPU()

// All runs the cases emitted by gen on all workers.
func (r *Run) All(gen func(emit func(Case))) {
	ch := make(chan Case, 4*Workers)
	var wg sync.WaitGroup
	for i := 0; i < Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				r.Do(c)
			}
		}()
	}
	gen(func(c Case) {
		if r.Only != "" && !strings.HasPrefix(c.Name, r.Only) && !strings.HasPrefix(r.Only, c.Name) {
			return
		}
		if !r.Done() {
			ch <- c
		}
	})
	close(ch)
	wg.Wait()
}

// Par runs f(0..n-1) on all workers.
func Par(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	w := Workers
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Meta describes a check for its evidence.
type Meta struct {
	Rule        string
	Assumptions []string
}

// Finish writes evidence and replay files and returns the exit code.
func (r *Run) Finish(dir string, m Meta) int {
	// workers may still be running
	r.mu.Lock()
	defer r.mu.Unlock()
	wall := time.Since(r.start).Seconds()
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	cov := map[string]interface{}{}
	var samples []string
	kinds := make([]string, 0)
	for k := range r.samp {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		for _, s := range r.samp[k] {
			samples = append(samples, k+": "+s)
		}
	}
	if len(samples) > 40 {
		samples = samples[:40]
	}
	switch r.Level {
	case "model_checking":
		cov["states"] = r.states.Load()
		cov["transitions"] = r.transitions.Load()
		cov["traces_validated_against_impl"] = r.traces.Load()
	default:
		cov["evaluations"] = r.transitions.Load()
		cov["distinct_nontrivial"] = len(r.inputs) + len(r.seen)
	}
	cov["rule"] = m.Rule
	cov["samples"] = samples
	cov["outcomes"] = r.counts
	cov["exhaustive"] = !r.cut.Load() && r.Only == "" && len(r.viol) == 0
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": m.Assumptions, "wall_s": wall, "violations": len(r.viol),
	}
	code := 0
	for i := range r.viol {
		v := &r.viol[i]
		v.File = filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", r.Prop, i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(v.File, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, v.File)
		fmt.Printf("  case %s: %s (reproduced %s)\n", v.Case, v.What, v.Reproduced)
		code = 1
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil && r.Only == "" {
		err = os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("error: evidence:", err)
		if code == 0 {
			code = 3
		}
	}
	if len(r.errs) > 0 {
		for i, e := range r.errs {
			if i < 3 {
				if len(e) > 1800 {
					e = e[:1800]
				}
				fmt.Println("error: case", e)
			}
		}
		fmt.Printf("%d cases could not be evaluated\n", len(r.errs))
		if code == 0 {
			code = 3
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d inputs=%d violations=%d cut=%v %.1fs\n",
		r.Prop, r.Tier, r.states.Load(), r.transitions.Load(), r.traces.Load(), len(r.inputs)+len(r.seen), len(r.viol), r.cut.Load(), wall)
	return code
}
