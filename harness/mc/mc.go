// Package mc holds what the checks share: the bookkeeping of a run, the
// exploration of choice trees, and the classification of panics.
package mc

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Run is one execution of the check of one property.
type Run struct {
	ID       string
	Thorough bool
	Seed     int64

	states, transitions, traces atomic.Int64
	mu                          sync.Mutex
	samples                     []any
	outcomes                    map[string]map[string]int64
	parts                       map[string]int64
	notes                       []string
	capped                      []string
	violations                  []Violation
	known                       []Violation
	start                       time.Time
	deadline                    time.Time
	only                        string
	part                        string
	runMu                       sync.Mutex
	running                     [][]byte
	curFile                     *os.File
}

// Violation is a case in which a property did not hold.
type Violation struct {
	Part   string `json:"part"`
	What   string `json:"what"`
	Case   any    `json:"case"`
	Finger string `json:"finger,omitempty"`
	Stack  string `json:"stack,omitempty"`
}

type result struct {
	ID          string                      `json:"id"`
	States      int64                       `json:"states"`
	Transitions int64                       `json:"transitions"`
	Traces      int64                       `json:"traces"`
	Samples     []any                       `json:"samples"`
	Outcomes    map[string]map[string]int64 `json:"outcomes"`
	Parts       map[string]int64            `json:"parts"`
	Notes       []string                    `json:"notes"`
	Capped      []string                    `json:"capped"`
	Violations  []Violation                 `json:"violations"`
	Known       []Violation                 `json:"known"`
	HarnessErr  string                      `json:"harness_error,omitempty"`
	Done        bool                        `json:"done"`
	Wall        float64                     `json:"wall"`
}

type failure struct{ v Violation }
type harnessError struct{ msg string }
type stopPart struct{}

// Stop may be panicked with to end a part quietly.
var Stop any = stopPart{}

type broken struct{ msg string }

// Broken is to be panicked with where the code under test returned something that
// cannot even be observed; it counts as a violation of the case being run.
func Broken(format string, args ...any) any { return broken{fmt.Sprintf(format, args...)} }

// Check runs body as the check of a property and writes the result to VERIF_RESULT.
func Check(t *testing.T, id string, body func(r *Run)) {
	r := &Run{ID: id, start: time.Now(), outcomes: map[string]map[string]int64{}, parts: map[string]int64{}}
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r.only = os.Getenv("VERIF_ONLY")
	budget := 100.0
	if r.Thorough {
		budget = 600
	}
	if b, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		budget = b
	}
	r.deadline = r.start.Add(time.Duration(budget * float64(time.Second)))
	if f := os.Getenv("VERIF_CURRENT"); f != "" {
		r.curFile, _ = os.Create(f)
	}
	res := result{ID: id}
	func() {
		defer func() {
			if p := recover(); p != nil {
				res.HarnessErr = r.classify(p, "(top)", nil)
			}
		}()
		body(r)
	}()
	r.mu.Lock()
	defer r.mu.Unlock()
	res.States, res.Transitions, res.Traces = r.states.Load(), r.transitions.Load(), r.traces.Load()
	res.Samples, res.Outcomes, res.Notes, res.Parts = r.samples, r.outcomes, r.notes, r.parts
	res.Violations, res.Capped, res.Known = r.violations, r.capped, r.known
	res.Done, res.Wall = true, time.Since(r.start).Seconds()
	out, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		t.Fatal(err)
	}
	if f := os.Getenv("VERIF_RESULT"); f != "" {
		if err := os.WriteFile(f, out, 0o644); err != nil {
			t.Fatal(err)
		}
	} else {
		fmt.Println(string(out))
	}
}

// classify turns a recovered panic into a violation, or into a harness error message.
func (r *Run) classify(p any, what string, c any) string {
	switch p := p.(type) {
	case failure:
		r.addViolation(p.v)
		return ""
	case harnessError:
		return p.msg
	case stopPart:
		return ""
	case broken:
		r.addViolation(Violation{Part: r.part, What: p.msg, Case: c, Stack: trim(string(debug.Stack()))})
		return ""
	}
	stack := string(debug.Stack())
	if UnderTest(stack) {
		r.addViolation(Violation{Part: r.part, What: fmt.Sprintf("panic: %v", p), Case: c, Stack: trim(stack)})
		return ""
	}
	return fmt.Sprintf("harness panic in %s (%s): %v\n%s", r.part, what, p, stack)
}

// UnderTest tells whether the panic of this stack came out of the code under test
// rather than out of the harness itself.
func UnderTest(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, line := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(line, "\t") {
			continue
		}
		if strings.HasPrefix(line, "gitlab.com/alephledger/threshold-ecdsa/") {
			return true
		}
		if strings.HasPrefix(line, "verif/harness") {
			return false
		}
	}
	return false
}

func trim(s string) string {
	if len(s) > 4000 {
		return s[:4000]
	}
	return s
}

func (r *Run) addViolation(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.violations) < 20 {
		r.violations = append(r.violations, v)
	}
}

// Failed tells that a violation was found.
func (r *Run) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > 0
}

// Part runs one part of a check. A violation ends the part, not the check.
func (r *Run) Part(name string, body func()) {
	if r.only != "" && r.only != name && !strings.HasPrefix(name, "positions/") {
		return
	}
	r.part = name
	before := r.transitions.Load()
	func() {
		defer func() {
			if p := recover(); p != nil {
				if h := r.classify(p, name, nil); h != "" {
					panic(harnessError{h})
				}
			}
		}()
		body()
	}()
	r.mu.Lock()
	r.parts[name] += r.transitions.Load() - before
	r.mu.Unlock()
}

// Try runs one case and reports a panic of the code under test as a violation of it.
func (r *Run) Try(c any, body func()) {
	defer func() {
		if p := recover(); p != nil {
			switch p := p.(type) {
			case failure, harnessError, stopPart:
				panic(p)
			case broken:
				panic(failure{Violation{Part: r.part, What: p.msg, Case: c, Stack: trim(string(debug.Stack()))}})
			}
			stack := string(debug.Stack())
			if !UnderTest(stack) {
				panic(harnessError{fmt.Sprintf("harness panic in %s %v: %v\n%s", r.part, c, p, stack)})
			}
			panic(failure{Violation{Part: r.part, What: fmt.Sprintf("panic: %v", p), Case: c, Stack: trim(stack)}})
		}
	}()
	body()
}

// Fail reports a violation and ends the part.
func (r *Run) Fail(c any, format string, args ...any) {
	panic(failure{Violation{Part: r.part, What: fmt.Sprintf(format, args...), Case: c}})
}

// Report reports a violation without ending the part (for use outside the main goroutine).
func (r *Run) Report(c any, format string, args ...any) {
	r.addViolation(Violation{Part: r.part, What: fmt.Sprintf(format, args...), Case: c})
}

// Finding records a failure that is to be compared with the known findings.
func (r *Run) Finding(finger string, c any, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.Finger == finger {
			return
		}
	}
	r.known = append(r.known, Violation{Part: r.part, What: fmt.Sprintf(format, args...), Case: c, Finger: finger})
}

// Bug reports an error of the harness.
func (r *Run) Bug(format string, args ...any) { panic(harnessError{fmt.Sprintf(format, args...)}) }

// State, Step and Trace count what was covered.
func (r *Run) State(n int) { r.states.Add(int64(n)) }

// Step counts operations of the code under test whose result was checked.
func (r *Run) Step(n int) { r.transitions.Add(int64(n)) }

// Trace counts executions of the implementation compared with the reference.
func (r *Run) Trace(n int) { r.traces.Add(int64(n)) }

// Sample keeps an actual case for the evidence.
func (r *Run) Sample(c any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, c)
	}
}

// Outcome counts the distinct things that were observed.
func (r *Run) Outcome(kind, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := r.outcomes[kind]
	if m == nil {
		m = map[string]int64{}
		r.outcomes[kind] = m
	}
	if _, ok := m[what]; !ok && len(m) >= 40 {
		what = "(other)"
	}
	m[what]++
}

// Note adds a remark to the evidence.
func (r *Run) Note(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.notes = append(r.notes, fmt.Sprintf(format, args...))
}

// Skip notes that something could not be explored.
func (r *Run) Skip(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.capped = append(r.capped, fmt.Sprintf(format, args...))
}

// Late tells that the time of the run is used up; the run is then not exhaustive.
func (r *Run) Late() bool {
	if time.Now().Before(r.deadline) {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.capped {
		if c == r.part {
			return true
		}
	}
	r.capped = append(r.capped, r.part)
	return true
}

// Current notes what is being executed, for crashes no one can recover from.
func (r *Run) Current(c any) {
	if r.curFile == nil {
		return
	}
	b, _ := json.Marshal(map[string]any{"part": r.part, "case": c})
	r.curFile.WriteAt(append(b, '\n'), 0)
	r.curFile.Truncate(int64(len(b) + 1))
}

// Running notes one of several cases that are being executed at the same time.
func (r *Run) Running(c any) (done func()) {
	if r.curFile == nil {
		return func() {}
	}
	b, _ := json.Marshal(c)
	r.runMu.Lock()
	defer r.runMu.Unlock()
	slot := 0
	for ; slot < len(r.running) && r.running[slot] != nil; slot++ {
	}
	if slot == len(r.running) {
		r.running = append(r.running, nil)
	}
	r.running[slot] = b
	r.Current(json.RawMessage(r.all()))
	return func() {
		r.runMu.Lock()
		defer r.runMu.Unlock()
		r.running[slot] = nil
	}
}

func (r *Run) all() []byte {
	b := []byte("[")
	for _, c := range r.running {
		if c != nil {
			if len(b) > 1 {
				b = append(b, ',')
			}
			b = append(b, c...)
		}
	}
	return append(b, ']')
}

// Chooser resolves the choices of one execution.
type Chooser struct {
	r      *Run
	prefix []int
	got    []int
	arity  []int
	label  []string
	max    int
	astray bool
}

// again repeats an execution that does not follow its prefix.
func (r *Run) again(prefix []int, body func(c *Chooser)) *Chooser {
	for i := 0; ; i++ {
		c := &Chooser{r: r, prefix: prefix}
		body(c)
		if len(c.got) < len(prefix) {
			c.astray = true
		}
		if !c.astray || i == 3 || r.Late() {
			if c.astray {
				r.stray()
			}
			return c
		}
	}
}

// stray notes that some execution could not be made to happen.
func (r *Run) stray() {
	what := r.part + " (executions do not repeat)"
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.capped {
		if c == what {
			return
		}
	}
	r.capped = append(r.capped, what)
}

// Choose picks one of n alternatives; 0 is the default.
func (c *Chooser) Choose(n int, label string) int {
	if n < 1 {
		c.r.Bug("choice among %d at %s", n, label)
	}
	i := len(c.got)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			// The code under test decides something by itself, such as who gets a lock first. This
			// is an execution all the same, but not the one that was to be seen.
			v, c.astray = 0, true
		}
	}
	c.got = append(c.got, v)
	c.arity = append(c.arity, n)
	c.label = append(c.label, label)
	return v
}

// Prefix is the sequence of choices that the execution is to begin with.
func (c *Chooser) Prefix() []int { return c.prefix }

// Choices returns the choices made so far.
func (c *Chooser) Choices() []int { return append([]int(nil), c.got...) }

// Deviations lists the labels of the choices that were not the default.
func (c *Chooser) Deviations() []string {
	var d []string
	for i, v := range c.got {
		if v != 0 {
			d = append(d, fmt.Sprintf("%d:%s=%d", i, c.label[i], v))
		}
	}
	return d
}

// Explore runs body once for every sequence of choices with at most bound
// non-default choices (bound < 0: all of them). It returns the number of
// executions, and whether all of them were run.
func (r *Run) Explore(bound int, body func(c *Chooser)) (n int, complete bool) {
	if bound < 0 {
		bound = math.MaxInt32
	}
	type item struct {
		prefix []int
		dev    int
	}
	// by increasing number of deviations, so that the first failure is the simplest
	level := []item{{nil, 0}}
	for d := 0; len(level) > 0; d++ {
		var next []item
		stack := level
		for len(stack) > 0 {
			if r.Late() {
				return n, false
			}
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			c := r.again(it.prefix, body)
			n++
			if it.dev >= bound || c.astray {
				continue
			}
			for i := len(it.prefix); i < len(c.got); i++ {
				for alt := 1; alt < c.arity[i]; alt++ {
					p := append(append(make([]int, 0, i+1), c.got[:i]...), alt)
					next = append(next, item{p, it.dev + 1})
				}
			}
		}
		level = next
	}
	return n, true
}

// ExploreP is Explore with the executions of each level spread over all cores; body
// must not depend on state shared between executions.
func (r *Run) ExploreP(bound int, body func(c *Chooser)) (n int, complete bool) {
	return r.ExploreFrom(bound, nil, body)
}

// ExploreFrom is ExploreP with a filter: only choices for which may returns true are varied.
func (r *Run) ExploreFrom(bound int, may func(label string) bool, body func(c *Chooser)) (n int, complete bool) {
	if bound < 0 {
		bound = math.MaxInt32
	}
	level := [][]int{nil}
	for d := 0; len(level) > 0; d++ {
		kids := make([][][]int, len(level))
		var done atomic.Int64
		r.Parallel(len(level), func(i int) {
			prefix := level[i]
			c := r.again(prefix, body)
			done.Add(1)
			if d >= bound || c.astray {
				return
			}
			for k := len(prefix); k < len(c.got); k++ {
				if may != nil && !may(c.label[k]) {
					continue
				}
				for alt := 1; alt < c.arity[k]; alt++ {
					kids[i] = append(kids[i], append(append(make([]int, 0, k+1), c.got[:k]...), alt))
				}
			}
		})
		n += int(done.Load())
		if int(done.Load()) < len(level) {
			return n, false
		}
		level = nil
		for _, k := range kids {
			level = append(level, k...)
		}
	}
	return n, true
}

// Replay runs body with the given choices.
func (r *Run) Replay(prefix []int, body func(c *Chooser)) *Chooser {
	c := &Chooser{r: r, prefix: prefix}
	body(c)
	return c
}

// Parallel runs f(i) for i in [0,n) on all cores; the first failure is passed on.
func (r *Run) Parallel(n int, f func(i int)) {
	workers := runtime.GOMAXPROCS(0)
	var next atomic.Int64
	var wg sync.WaitGroup
	type caught struct {
		i int
		p any
	}
	var mu sync.Mutex
	var fails []caught
	part := r.part
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			i := -1
			defer func() {
				if p := recover(); p != nil {
					switch q := p.(type) {
					case failure, harnessError, stopPart:
					case broken:
						p = failure{Violation{Part: part, What: q.msg, Case: fmt.Sprintf("item %d", i), Stack: trim(string(debug.Stack()))}}
					default:
						stack := string(debug.Stack())
						if UnderTest(stack) {
							p = failure{Violation{Part: part, What: fmt.Sprintf("panic: %v", p), Case: fmt.Sprintf("item %d", i), Stack: trim(stack)}}
						} else {
							p = harnessError{fmt.Sprintf("harness panic in %s item %d: %v\n%s", part, i, p, stack)}
						}
					}
					mu.Lock()
					fails = append(fails, caught{i, p})
					mu.Unlock()
					next.Store(int64(n))
				}
			}()
			for {
				i = int(next.Add(1)) - 1
				if i >= n || r.Late() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	if len(fails) > 0 {
		sort.Slice(fails, func(a, b int) bool { return fails[a].i < fails[b].i })
		panic(fails[0].p)
	}
}

// Labels returns the labels of the choices made so far.
func (c *Chooser) Labels() []string { return append([]string(nil), c.label...) }
