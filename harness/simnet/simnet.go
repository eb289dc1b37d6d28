// Package simnet runs real servers over a network whose every operation waits for its
// turn. The parties live in a synctest bubble: when all of them wait, for the network or for
// time to pass, the driver picks the operation that happens next, its outcome, or lets time
// pass. All choices come from an mc.Chooser, so that executions can be enumerated.
package simnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/mc"

	"gitlab.com/alephledger/core-go/pkg/network"
)

// Kind of an operation.
type Kind int

// The operations of parties on the network. Enter is a step of the party itself.
const (
	Enter Kind = iota
	Dial
	Listen
	Read
	Write
	Flush
	Close
)

var names = []string{"enter", "dial", "listen", "read", "write", "flush", "close"}

func (k Kind) String() string { return names[k] }

// Fault is what can go wrong in an operation.
type Fault int

// Error: the operation fails, and the link with it. Timeout: the operation fails, the link
// stays. Half: half of the bytes arrive before the link fails. End: the stream ends. Crash:
// the party fails: its links end, and nothing it does works from then on. Glitch: a sending
// operation fails, with what was to be sent, and the next one works.
const (
	Fine Fault = iota
	Error
	Timeout
	Half
	End
	Crash
	Glitch
)

var faults = []string{"fine", "error", "timeout", "half", "end", "crash", "glitch"}

func (f Fault) String() string { return faults[f] }

// Op is an operation that waits for its turn.
type Op struct {
	Kind Kind
	By   int // party
	To   int // peer, -1 if none
	Link *Link
	side int
	note string

	data  []byte
	max   int
	step  int
	since time.Time
	drain bool
	n     int
	err   error
	conn  *Conn
	kill  bool
	done  chan struct{}
}

func (o *Op) String() string {
	switch o.Kind {
	case Enter:
		return fmt.Sprintf("%d enters %s", o.By, o.note)
	case Dial:
		return fmt.Sprintf("%d dials %d", o.By, o.To)
	case Listen:
		return fmt.Sprintf("%d listens", o.By)
	}
	return fmt.Sprintf("%d %ss %v", o.By, o.Kind, o.Link)
}

// Link is a connection. Side 0 is the one that dialled.
type Link struct {
	From, To, Attempt int
	pipe              [2][]byte // bytes on their way to a side
	shut              [2]bool   // closed by a side
	broken            bool
	Closed            [2]int // number of calls
	Pushed            [2][]Push
	Accepted          bool
	ended             [2]bool // no more bytes will come to a side
}

// Push is a piece of a stream that a side flushed.
type Push struct {
	Data []byte
	At   time.Time
	Mark int // what the party's mark was
}

func (l *Link) String() string {
	if l.Attempt > 0 {
		return fmt.Sprintf("%d>%d#%d", l.From, l.To, l.Attempt)
	}
	return fmt.Sprintf("%d>%d", l.From, l.To)
}

// Net is a network and its parties.
type Net struct {
	N  int
	Ch *mc.Chooser
	// Rendezvous makes Flush wait until the other side has read everything.
	Rendezvous bool
	// Meet makes Dial wait for a Listen.
	Meet bool
	// Partial lets reads return less than there is; Bytewise makes them return one byte.
	Partial, Bytewise bool
	// Ticks are durations that may pass while something else could happen.
	Ticks []time.Duration
	// Faults tells what may go wrong in an operation; MaxFaults bounds how many do.
	Faults    func(o *Op) []Fault
	MaxFaults int
	// Force, if set, decides about faults before anything is chosen; it returns Fine otherwise.
	Force func(o *Op) Fault
	// Patience is how long an operation may wait on an idle network before it times out; 0 is forever.
	Patience time.Duration
	// PatientWriters tells that only reads time out.
	PatientWriters bool
	// Calm is how long nothing may happen before the parties count as stuck; a minute if 0.
	Calm time.Duration
	// Quiet tells that the order of operations is not to be varied.
	Quiet bool
	// Order may restrict which operations compete with others.
	Order func(o *Op) bool

	Links    []*Link
	Trace    []string
	Steps    int
	Limit    int   // an execution of more operations does not end
	Mark     []int // by party: set by the party, copied to its pushes
	Crashed  []bool
	Happened []string // faults that happened
	Hit      []Fail   // what they happened to
	Fails    []Fail
	Stuck    []string // what waited in vain, if the execution did not end
	Conns    []*Conn

	mu      sync.Mutex
	pending []*Op
	backlog [][]*Conn
	dials   map[[2]int]int
	dead    bool
	wake    chan struct{}
}

// Outcome is how the program of a party ended.
type Outcome struct {
	Panic any
	Stack string
	Ended bool
}

// New is a network of n parties.
func New(n int, ch *mc.Chooser) *Net {
	return &Net{N: n, Ch: ch, Limit: 20000, dials: map[[2]int]int{}, backlog: make([][]*Conn, n+8), Mark: make([]int, n+8), Crashed: make([]bool, n+8)}
}

// Server is the network as a party sees it.
func (t *Net) Server(pid int) network.Server { return &host{t, pid} }

type host struct {
	t   *Net
	pid int
}

func (h *host) Dial(pid uint16) (network.Connection, error) {
	o := &Op{Kind: Dial, By: h.pid, To: int(pid)}
	h.t.do(o)
	if o.err != nil {
		return nil, o.err
	}
	return o.conn, nil
}

func (h *host) Listen() (network.Connection, error) {
	o := &Op{Kind: Listen, By: h.pid, To: -1}
	h.t.do(o)
	if o.err != nil {
		return nil, o.err
	}
	return o.conn, nil
}

func (h *host) Stop() {}

// SetMark marks what the party flushes from now on.
func (t *Net) SetMark(pid, m int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Mark[pid] = m
}

// Fails are the operations that returned an error, in order.
type Fail struct {
	Kind     Kind
	By, Peer int
	Link     *Link
	Mark     int
}

// Enter waits for the party's turn.
func (t *Net) Enter(pid int, what string) { t.do(&Op{Kind: Enter, By: pid, To: -1, note: what}) }

// Conn is a side of a link.
type Conn struct {
	t    *Net
	L    *Link
	Side int
	By   int
	out  []byte
	werr error // sticks, as that of a buffered writer
}

func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	o := &Op{Kind: Read, By: c.By, To: c.peer(), Link: c.L, side: c.Side, max: len(p), conn: c}
	c.t.do(o)
	copy(p, o.data)
	return o.n, o.err
}

func (c *Conn) Write(p []byte) (int, error) {
	o := &Op{Kind: Write, By: c.By, To: c.peer(), Link: c.L, side: c.Side, data: p, conn: c}
	c.t.do(o)
	return o.n, o.err
}

// Flush sends what was written.
func (c *Conn) Flush() error {
	o := &Op{Kind: Flush, By: c.By, To: c.peer(), Link: c.L, side: c.Side, conn: c}
	c.t.do(o)
	return o.err
}

// Close ends both directions.
func (c *Conn) Close() error {
	o := &Op{Kind: Close, By: c.By, To: c.peer(), Link: c.L, side: c.Side, conn: c}
	c.t.do(o)
	return o.err
}

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

// RemoteAddr names the other side.
func (c *Conn) RemoteAddr() net.Addr { return addr(fmt.Sprint(c.peer())) }

func (c *Conn) peer() int {
	if c.Side == 0 {
		return c.L.To
	}
	return c.L.From
}

func (t *Net) do(o *Op) {
	o.done = make(chan struct{})
	o.since = time.Now()
	t.mu.Lock()
	if t.dead {
		t.mu.Unlock()
		runtime.Goexit()
	}
	o.step = t.Steps
	t.pending = append(t.pending, o)
	t.mu.Unlock()
	select {
	case t.wake <- struct{}{}:
	default:
	}
	<-o.done
	if o.kill {
		runtime.Goexit()
	}
}

var (
	errBroken = errors.New("sim: connection reset")
	errClosed = errors.New("sim: use of closed connection")
	errFault  = errors.New("sim: injected failure")
	errLate   = errors.New("sim: i/o timeout")
)

// enabled tells whether an operation can happen now.
func (t *Net) enabled(o *Op) bool {
	switch o.Kind {
	case Dial:
		if t.Crashed[o.By] || o.To < 0 || o.To >= len(t.backlog) {
			return true
		}
		if t.Meet {
			for _, p := range t.pending {
				if p.Kind == Listen && p.By == o.To {
					return true
				}
			}
			return false
		}
		return true
	case Listen:
		return t.Crashed[o.By] || len(t.backlog[o.By]) > 0
	case Read:
		l := o.Link
		return t.Crashed[o.By] || l.broken || l.shut[o.side] || len(l.pipe[o.side]) > 0 || l.shut[1-o.side] || l.ended[o.side]
	case Flush:
		if o.drain {
			return o.Link.broken || o.Link.shut[0] || o.Link.shut[1] || len(o.Link.pipe[1-o.side]) == 0
		}
	}
	return true
}

func (t *Net) finish(o *Op) {
	for i, p := range t.pending {
		if p == o {
			t.pending = append(t.pending[:i], t.pending[i+1:]...)
			break
		}
	}
	if o.err != nil {
		t.Fails = append(t.Fails, Fail{o.Kind, o.By, o.To, o.Link, t.Mark[o.By]})
	}
	close(o.done)
}

func (t *Net) crash(p int) {
	t.Crashed[p] = true
	for _, l := range t.Links {
		for s, who := range []int{l.From, l.To} {
			if who == p {
				l.shut[s] = true
			}
		}
	}
	t.backlog[p] = nil
}

// exec makes an operation happen.
func (t *Net) exec(o *Op) {
	f := Fine
	if t.Force != nil && !o.drain {
		f = t.Force(o)
	}
	if f == Fine && t.Faults != nil && len(t.Happened) < t.MaxFaults && !o.drain && !t.Crashed[o.By] {
		if fs := t.Faults(o); len(fs) > 0 {
			if k := t.Ch.Choose(len(fs)+1, fmt.Sprintf("fault: %v", o)); k > 0 {
				f = fs[k-1]
				t.Happened = append(t.Happened, fmt.Sprintf("%v: %v", o, f))
				if o.Link != nil {
					t.Hit = append(t.Hit, Fail{o.Kind, o.By, o.To, o.Link, t.Mark[o.By]})
				}
			}
		}
	}
	if !o.drain {
		s := o.String()
		if f != Fine {
			s += " (" + f.String() + ")"
		}
		t.Trace = append(t.Trace, s)
	}
	if f == Crash {
		t.crash(o.By)
	}
	if t.Crashed[o.By] && o.Kind != Enter && o.Kind != Close {
		o.err = errFault
		t.finish(o)
		return
	}
	l := o.Link
	switch o.Kind {
	case Dial:
		if f != Fine || o.To < 0 || o.To >= len(t.backlog) || t.Crashed[o.To] {
			o.err = errFault
			break
		}
		key := [2]int{o.By, o.To}
		n := &Link{From: o.By, To: o.To, Attempt: t.dials[key]}
		t.dials[key]++
		t.Links = append(t.Links, n)
		o.conn = &Conn{t: t, L: n, Side: 0, By: o.By}
		other := &Conn{t: t, L: n, Side: 1, By: o.To}
		t.Conns = append(t.Conns, o.conn, other)
		t.backlog[o.To] = append(t.backlog[o.To], other)
		if t.Meet {
			for _, p := range t.pending {
				if p.Kind == Listen && p.By == o.To {
					t.exec(p)
					break
				}
			}
		}
	case Listen:
		if f != Fine {
			o.err = errFault
			break
		}
		o.conn = t.backlog[o.By][0]
		o.conn.L.Accepted = true
		t.backlog[o.By] = t.backlog[o.By][1:]
	case Read:
		switch f {
		case Error:
			l.broken = true
			o.err = errBroken
		case Timeout:
			o.err = errLate
		case End:
			l.ended[o.side] = true
			l.pipe[o.side] = nil
			o.err = io.EOF
		}
		if f != Fine {
			break
		}
		in := l.pipe[o.side]
		switch {
		case l.shut[o.side]:
			o.err = errClosed
		case len(in) > 0:
			k := min(len(in), o.max)
			if t.Bytewise {
				k = 1
			}
			if t.Partial && k > 1 {
				alts := []int{k, 1}
				if k > 2 {
					alts = append(alts, k-1)
				}
				k = alts[t.Ch.Choose(len(alts), fmt.Sprintf("bytes of %d: %v", k, o))]
			}
			o.data, o.n = append([]byte(nil), in[:k]...), k
			l.pipe[o.side] = in[k:]
		case l.broken:
			o.err = errBroken
		default:
			o.err = io.EOF
		}
	case Write:
		if f == Error {
			l.broken = true
		}
		if f == Timeout {
			o.conn.werr = errLate
		}
		switch {
		case f == Glitch:
			o.err = errFault
			o.conn.out = nil
		case o.conn.werr != nil:
			o.err = o.conn.werr
		case l.shut[o.side]:
			o.err = errClosed
		case l.broken:
			o.err = errBroken
		default:
			o.conn.out = append(o.conn.out, o.data...)
			o.n = len(o.data)
		}
	case Flush:
		if o.drain {
			if len(l.pipe[1-o.side]) > 0 {
				o.err = errBroken
			}
			break
		}
		if f == Error {
			l.broken = true
		}
		if f == Timeout {
			o.conn.werr = errLate
		}
		switch {
		case f == Glitch:
			o.err = errFault
			o.conn.out = nil
		case o.conn.werr != nil:
			o.err = o.conn.werr
		case l.shut[o.side]:
			o.err = errClosed
		case l.broken || l.shut[1-o.side]:
			o.err = errBroken
		default:
			d := o.conn.out
			o.conn.out = nil
			if f == Half {
				d = d[:len(d)/2]
			}
			l.pipe[1-o.side] = append(l.pipe[1-o.side], d...)
			l.Pushed[o.side] = append(l.Pushed[o.side], Push{d, time.Now(), t.Mark[o.By]})
			if f == Half {
				l.broken = true
				o.err = errBroken
				break
			}
			if t.Rendezvous && len(d) > 0 {
				o.drain = true
				return
			}
		}
	case Close:
		if f != Fine {
			o.err = errFault
		}
		l.Closed[o.side]++
		l.shut[o.side] = true
	}
	t.finish(o)
}

func less(a, b *Op) bool {
	if a.step != b.step {
		return a.step < b.step
	}
	if a.By != b.By {
		return a.By < b.By
	}
	if a.Kind != b.Kind {
		return a.Kind < b.Kind
	}
	if a.To != b.To {
		return a.To < b.To
	}
	if a.Link != b.Link && a.Link != nil && b.Link != nil {
		return a.Link.Attempt < b.Link.Attempt
	}
	if a.side != b.side {
		return a.side < b.side
	}
	return len(a.data) < len(b.data)
}

// Run executes the programs of the parties; it returns when all have ended, or when nothing
// happens any more. It must not be called inside another Run.
func (t *Net) Run(tt *testing.T, mains map[int]func()) (out map[int]*Outcome) {
	out = map[int]*Outcome{}
	var fault any
	func() {
		defer func() {
			if x := recover(); x != nil && !strings.Contains(fmt.Sprint(x), "deadlock: main bubble goroutine has exited") {
				panic(x)
			}
		}()
		synctest.Test(tt, func(*testing.T) {
			defer func() { fault = recover() }()
			t.run(mains, out)
		})
	}()
	if fault != nil {
		panic(fault)
	}
	return out
}

func (t *Net) run(mains map[int]func(), out map[int]*Outcome) {
	var mu sync.Mutex
	t.wake = make(chan struct{}, 1)
	left := 0 // strangers are not waited for
	for pid := range mains {
		if pid < t.N {
			left++
		}
	}
	for pid := 0; pid < len(t.backlog); pid++ {
		f := mains[pid]
		if f == nil {
			continue
		}
		o := &Outcome{}
		out[pid] = o
		go func() {
			defer func() {
				mu.Lock()
				defer mu.Unlock()
				if pid < t.N {
					left--
				}
				if x := recover(); x != nil {
					o.Panic, o.Stack = x, string(debug.Stack())
				}
			}()
			f()
			o.Ended = true
		}()
	}
	idle := time.Duration(0)
	step := time.Millisecond
	for {
		synctest.Wait()
		mu.Lock()
		over := left == 0
		mu.Unlock()
		if over {
			break
		}
		select {
		case <-t.wake:
		default:
		}
		t.mu.Lock()
		t.Steps++
		if t.Steps > t.Limit {
			t.Stuck = []string{fmt.Sprintf("%d operations without an end", t.Limit)}
			t.mu.Unlock()
			break
		}
		ops := append([]*Op(nil), t.pending...)
		sort.SliceStable(ops, func(i, j int) bool { return less(ops[i], ops[j]) })
		var local *Op
		var ready []*Op
		for _, o := range ops {
			if o.Kind == Write || o.Kind == Close || o.drain && t.enabled(o) {
				local = o
				break
			}
			if t.enabled(o) {
				ready = append(ready, o)
			}
		}
		if local != nil {
			t.exec(local)
			t.mu.Unlock()
			continue
		}
		if len(ready) == 0 {
			if t.Patience > 0 && idle > t.Patience {
				var late *Op
				for _, o := range ops {
					if o.Kind != Listen && (o.Kind == Read || !t.PatientWriters) && (late == nil || o.since.Before(late.since)) {
						late = o
					}
				}
				if late != nil {
					late.err = errLate
					t.Trace = append(t.Trace, late.String()+" (times out)")
					if late.drain {
						late.Link.broken = true
					}
					t.finish(late)
					t.mu.Unlock()
					idle, step = 0, time.Millisecond
					continue
				}
			}
			if idle > max(time.Minute, t.Calm) {
				for _, o := range ops {
					t.Stuck = append(t.Stuck, o.String())
				}
				if len(ops) == 0 {
					t.Stuck = []string{"no party uses the network"}
				}
				t.mu.Unlock()
				break
			}
			t.mu.Unlock()
			before := time.Now()
			select {
			case <-t.wake:
			case <-time.After(step):
			}
			idle += time.Since(before)
			if step < max(time.Second, t.Calm/60) {
				step *= 2
			}
			continue
		}
		idle, step = 0, time.Millisecond
		alts := ready
		if t.Order != nil && len(ready) > 1 {
			// operations that do not compete happen at once
			for _, o := range ready {
				if !t.Order(o) {
					alts = []*Op{o}
					break
				}
			}
		}
		n := len(alts)
		k := 0
		ticks := 0
		if t.Order == nil || t.Order(alts[0]) {
			ticks = len(t.Ticks)
		}
		if !t.Quiet && t.Ch != nil && n+ticks > 1 {
			k = t.Ch.Choose(n+ticks, "next: "+alts[0].String())
		}
		if k >= n {
			d := t.Ticks[k-n]
			t.Trace = append(t.Trace, fmt.Sprintf("%v pass", d))
			t.mu.Unlock()
			time.Sleep(d)
			continue
		}
		t.exec(alts[k])
		t.mu.Unlock()
	}
	// let go of what is still waiting, unless the parties could not end: what waits for it
	// would run on in a state it can not be in
	for i := 0; i < 100 && t.Stuck == nil; i++ {
		t.mu.Lock()
		t.dead = true
		ops := t.pending
		t.pending = nil
		for _, o := range ops {
			o.kill = true
			close(o.done)
		}
		t.mu.Unlock()
		synctest.Wait()
		t.mu.Lock()
		none := len(t.pending) == 0
		t.mu.Unlock()
		if none {
			break
		}
	}
}
