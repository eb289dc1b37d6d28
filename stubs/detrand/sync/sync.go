// Package sync is the standard library's, but for the locks: waiting for one of these is
// waiting for a channel. Inside a testing/synctest bubble that counts as being blocked, so the
// explorer sees that nothing moves until it lets the holder of the lock go on. The harness
// builds the packages under test against it.
package sync

import "sync"

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond               { return sync.NewCond(l) }
func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	return sync.OnceValues(f)
}

// Mutex is a sync.Mutex.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }
func (m *Mutex) Unlock() {
	if !m.rw.release(-1) {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is a sync.RWMutex.
type RWMutex struct {
	mx    sync.Mutex
	held  int // number of readers, -1 for a writer
	queue []*waiter
}

type waiter struct {
	write bool
	go_   chan struct{}
}

func (m *RWMutex) try(write, queued bool) bool {
	switch {
	case write && m.held == 0:
		m.held = -1
	case !write && m.held >= 0 && (queued || len(m.queue) == 0):
		m.held++
	default:
		return false
	}
	return true
}

func (m *RWMutex) acquire(write bool) {
	m.mx.Lock()
	if m.try(write, false) {
		m.mx.Unlock()
		return
	}
	w := &waiter{write, make(chan struct{})}
	m.queue = append(m.queue, w)
	m.mx.Unlock()
	<-w.go_
}

func (m *RWMutex) release(by int) bool {
	m.mx.Lock()
	defer m.mx.Unlock()
	if by < 0 && m.held != -1 || by > 0 && m.held <= 0 {
		return false
	}
	m.held -= by
	for len(m.queue) > 0 && m.try(m.queue[0].write, true) {
		close(m.queue[0].go_)
		m.queue = m.queue[1:]
	}
	return true
}

func (m *RWMutex) Lock()  { m.acquire(true) }
func (m *RWMutex) RLock() { m.acquire(false) }
func (m *RWMutex) TryLock() bool {
	m.mx.Lock()
	defer m.mx.Unlock()
	return m.try(true, false)
}
func (m *RWMutex) TryRLock() bool {
	m.mx.Lock()
	defer m.mx.Unlock()
	return m.try(false, false)
}
func (m *RWMutex) Unlock() {
	if !m.release(-1) {
		panic("sync: Unlock of unlocked RWMutex")
	}
}
func (m *RWMutex) RUnlock() {
	if !m.release(1) {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

type reader RWMutex

func (r *reader) Lock()   { (*RWMutex)(r).RLock() }
func (r *reader) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker locks for reading.
func (m *RWMutex) RLocker() Locker { return (*reader)(m) }

// Once is a sync.Once.
type Once struct {
	mx   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mx.Lock()
	defer o.mx.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
