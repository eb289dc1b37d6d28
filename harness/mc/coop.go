package mc

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

// Coop runs a few goroutines one at a time. They hand over control only where they
// call Yield, and a Chooser decides who continues.
type Coop struct {
	mu      sync.Mutex
	threads []*cthread
	byID    map[int64]*cthread
	event   chan struct{}
	on      bool
}

type cthread struct {
	name   string
	gate   chan struct{}
	parked bool
	done   bool
	panic_ any
	stack  string
	steps  int
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// Yield is a scheduling point.
func (c *Coop) Yield() {
	c.mu.Lock()
	if !c.on {
		c.mu.Unlock()
		return
	}
	t := c.byID[goid()]
	if t == nil {
		c.mu.Unlock()
		return
	}
	t.parked = true
	t.steps++
	c.mu.Unlock()
	c.event <- struct{}{}
	<-t.gate
}

// Run runs the bodies under the choices of ch; switching away from a thread that could
// continue is a deviation. It returns the number of scheduling decisions.
func (c *Coop) Run(r *Run, ch *Chooser, bodies ...func()) int {
	c.mu.Lock()
	c.threads, c.byID, c.event, c.on = nil, map[int64]*cthread{}, make(chan struct{}, 1000), true
	c.mu.Unlock()
	for i, b := range bodies {
		t := &cthread{name: fmt.Sprint(i), gate: make(chan struct{})}
		c.threads = append(c.threads, t)
		ready := make(chan struct{})
		go func() {
			c.mu.Lock()
			c.byID[goid()] = t
			t.parked = true
			c.mu.Unlock()
			close(ready)
			<-t.gate
			defer func() {
				if p := recover(); p != nil {
					t.panic_, t.stack = p, string(debug.Stack())
				}
				c.mu.Lock()
				t.done = true
				c.mu.Unlock()
				c.event <- struct{}{}
			}()
			b()
		}()
		<-ready
	}
	decisions := 0
	last := -1
	for {
		c.mu.Lock()
		var can []int
		left := 0
		for i, t := range c.threads {
			if !t.done {
				left++
				if t.parked {
					can = append(can, i)
				}
			}
		}
		c.mu.Unlock()
		if left == 0 {
			break
		}
		if len(can) == 0 {
			// running threads that neither yield nor end: blocked on one another
			select {
			case <-c.event:
				continue
			case <-time.After(20 * time.Second):
				r.Bug("threads are stuck outside scheduling points")
			}
		}
		// default: go on with the last one
		for j, i := range can {
			if i == last && j > 0 {
				can[0], can[j] = can[j], can[0]
			}
		}
		k := 0
		if len(can) > 1 {
			k = ch.Choose(len(can), "switch")
		}
		decisions++
		last = can[k]
		t := c.threads[last]
		c.mu.Lock()
		t.parked = false
		c.mu.Unlock()
		t.gate <- struct{}{}
		// until it parks or ends; if it blocks on another thread, let that one run
		wait := time.After(300 * time.Millisecond)
	waiting:
		for {
			select {
			case <-c.event:
				c.mu.Lock()
				stop := t.parked || t.done
				c.mu.Unlock()
				if stop {
					break waiting
				}
			case <-wait:
				break waiting
			}
		}
	}
	c.mu.Lock()
	c.on = false
	c.mu.Unlock()
	for _, t := range c.threads {
		if t.panic_ != nil {
			if UnderTest(t.stack) {
				panic(failure{Violation{Part: r.part, What: fmt.Sprintf("panic: %v", t.panic_), Case: ch.Choices(), Stack: trim(t.stack)}})
			}
			switch t.panic_.(type) {
			case failure, harnessError, stopPart, broken:
				panic(t.panic_)
			}
			panic(harnessError{fmt.Sprintf("panic in a thread: %v\n%s", t.panic_, t.stack)})
		}
	}
	return decisions
}
