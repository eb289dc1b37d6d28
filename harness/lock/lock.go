package lock

import (
	"fmt"
	"reflect"
	"runtime/debug"
	stdsync "sync"
	"time"
	"unsafe"

	"verif/harness/mc"

	"gitlab.com/alephledger/core-go/pkg/tests"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// Sent is what one party handed to the network in one round.
type Sent struct {
	Round int // counted per party, from 0
	From  int
	All   bool     // one message for everyone
	Data  [][]byte // by recipient; nil for the sender
}

// Net connects n parties that take turns: each runs until it enters a round, and once all
// that are left have entered theirs, the messages are delivered.
type Net struct {
	N int
	// Tamper may change or drop (ok false) a message; nil delivers all.
	Tamper func(round, from, to int, data []byte) (out []byte, ok bool)
	// Err, if set, is asked for an error of the sending side that does not lose messages.
	Err    func(round, pid int) error
	Log    []Sent
	Rounds []int // rounds entered, by party

	parties []*party
}

// Outcome is how the program of a party ended.
type Outcome struct {
	Panic any
	Stack string
	Hung  bool
}

type party struct {
	net       *Net
	pid       int
	go_       chan struct{}
	stop      chan struct{} // tells the driver that the party entered a round or ended
	ended     bool
	inRound   bool
	out       [][]byte
	in        [][]byte
	inOK      []bool
	out_      Outcome
	src       *Source
	roundHere int
}

// Start and Stop do nothing: all parties are connected.
func (p *party) Start() {}

// Stop does nothing.
func (p *party) Stop() {}

// Round hands the messages to the driver, waits for the others, and gives theirs to check.
func (p *party) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	n := p.net.N
	if len(toSend) != 1 && len(toSend) != n {
		panic(mc.Broken("round entered with %d messages for %d parties", len(toSend), n))
	}
	p.out = make([][]byte, n)
	for to := range p.out {
		if to == p.pid {
			continue
		}
		d := toSend[0]
		if len(toSend) > 1 {
			d = toSend[to]
		}
		p.out[to] = append([]byte{}, d...)
	}
	p.roundHere = p.net.Rounds[p.pid]
	p.net.Rounds[p.pid]++
	p.net.Log = append(p.net.Log, Sent{p.roundHere, p.pid, len(toSend) == 1, p.out})
	p.inRound = true
	p.stop <- struct{}{}
	<-p.go_
	var bad []int
	for from := 0; from < n; from++ {
		if from == p.pid {
			continue
		}
		if !p.inOK[from] {
			bad = append(bad, from)
			continue
		}
		if err := check(uint16(from), p.in[from]); err != nil {
			bad = append(bad, from)
		}
	}
	if len(bad) > 0 {
		return RoundError(n, p.pid, bad)
	}
	if p.net.Err != nil {
		return p.net.Err(p.roundHere, p.pid)
	}
	return nil
}

// Run runs body once per party to completion and tells how each ended.
func (t *Net) Run(src []*Source, body func(pid int, srv sync.Server)) []Outcome {
	if len(t.Rounds) == 0 {
		t.Rounds = make([]int, t.N)
	}
	t.parties = make([]*party, t.N)
	for i := range t.parties {
		p := &party{net: t, pid: i, go_: make(chan struct{}), stop: make(chan struct{})}
		if src != nil {
			p.src = src[i]
		}
		t.parties[i] = p
		go func() {
			<-p.go_
			defer func() {
				if x := recover(); x != nil {
					p.out_.Panic, p.out_.Stack = x, string(debug.Stack())
				}
				p.ended, p.inRound = true, false
				p.stop <- struct{}{}
			}()
			if p.src != nil {
				As(p.src, func() { body(p.pid, p) })
			} else {
				body(p.pid, p)
			}
		}()
	}
	for {
		live := 0
		for _, p := range t.parties {
			if p.ended {
				continue
			}
			live++
			p.go_ <- struct{}{}
			if !wait(p.stop) {
				p.ended, p.out_.Hung = true, true
			}
		}
		if live == 0 {
			break
		}
		for _, to := range t.parties {
			if to.ended {
				continue
			}
			to.in, to.inOK = make([][]byte, t.N), make([]bool, t.N)
			for _, from := range t.parties {
				if from == to || from.ended || !from.inRound {
					continue
				}
				d, ok := append([]byte{}, from.out[to.pid]...), true
				if t.Tamper != nil {
					d, ok = t.Tamper(to.roundHere, from.pid, to.pid, d)
				}
				to.in[from.pid], to.inOK[from.pid] = d, ok
			}
		}
		for _, p := range t.parties {
			p.inRound = false
		}
	}
	res := make([]Outcome, t.N)
	for i, p := range t.parties {
		res[i] = p.out_
	}
	return res
}

func wait(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
	}
	t := time.NewTimer(40 * time.Second)
	defer t.Stop()
	select {
	case <-c:
		return true
	case <-t.C:
		return false
	}
}

// By returns what a party sent in one of its rounds.
func (t *Net) By(from, round int) Sent {
	for _, s := range t.Log {
		if s.From == from && s.Round == round {
			return s
		}
	}
	panic(mc.Broken("party %d sent nothing in round %d", from, round))
}

// One returns what a party broadcast in one of its rounds.
func (t *Net) One(from, round int) []byte {
	s := t.By(from, round)
	for to, d := range s.Data {
		if to != from {
			return d
		}
	}
	return nil
}

var (
	errMu    stdsync.Mutex
	errCache = map[string]error{}
)

// RoundError is the error that the repository's own server gives to party pid among n when
// the data of the bad parties is refused. It is obtained from that server.
func RoundError(n, pid int, bad []int) error {
	if n > 62 {
		return large(bad)
	}
	mask := 0
	for _, b := range bad {
		mask |= 1 << b
	}
	key := fmt.Sprint(n, pid, mask)
	errMu.Lock()
	defer errMu.Unlock()
	e, ok := errCache[key]
	for wait := 200 * time.Millisecond; !ok; wait *= 3 {
		if wait > 20*time.Second {
			panic(mc.Broken("rounds among %d live parties do not begin", n))
		}
		masks := []int{mask}
		if n <= 7 {
			masks = masks[:0]
			for m := 1; m < 1<<n; m++ {
				masks = append(masks, m)
			}
		}
		if fill(n, wait, masks) {
			if e, ok = errCache[key]; !ok {
				panic(mc.Broken("a round in which the data of %v is refused succeeds", bad))
			}
		}
	}
	return e
}

// large is the error for a large committee: one of a small committee with another list of parties.
func large(bad []int) error {
	e, ok := RoundError(3, 0, []int{1}).(*sync.RoundError)
	if !ok {
		panic(mc.Broken("a failed round gives no *RoundError"))
	}
	e = reflect.New(reflect.TypeOf(e).Elem()).Interface().(*sync.RoundError)
	v := reflect.ValueOf(e).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf([]uint16(nil)) {
			l := make([]uint16, len(bad))
			for j, b := range bad {
				l[j] = uint16(b)
			}
			*(*[]uint16)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = l
			return e
		}
	}
	return nil
}

// Large tells whether committees of more than 62 parties can be had.
func Large() bool {
	e := large([]int{7, 70})
	return e != nil && fmt.Sprint(e.(*sync.RoundError).Missing()) == "[7 70]"
}

var running = map[int][]sync.Server{}

// fill runs rounds in which subsets of the peers are refused.
func fill(n int, wait time.Duration, masks []int) bool {
	servers, first := running[n], false
	if servers == nil {
		first = true
		nets := tests.NewNetwork(n, time.Second)
		servers = make([]sync.Server, n)
		start := time.Now().Add(wait)
		for i := range servers {
			servers[i] = sync.NewServer(uint16(i), uint16(n), start, time.Second, nets[i])
			servers[i].Start()
		}
	}
	var mu stdsync.Mutex
	checked := 0
	done := make(chan struct{})
	go func() {
		for k, mask := range masks {
			var wg stdsync.WaitGroup
			for i := range servers {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					err := servers[i].Round([][]byte{{1}}, func(from uint16, _ []byte) error {
						mu.Lock()
						checked++
						mu.Unlock()
						if mask>>from&1 == 1 {
							return fmt.Errorf("refused")
						}
						return nil
					})
					if err != nil && mask>>i&1 == 0 {
						mu.Lock()
						errCache[fmt.Sprint(n, i, mask)] = err
						mu.Unlock()
					}
				}(i)
			}
			wg.Wait()
			mu.Lock()
			late := first && k == 0 && checked < n*(n-1)
			mu.Unlock()
			if late {
				break
			}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		panic(mc.Broken("a round among %d live parties does not end", n))
	}
	mu.Lock()
	defer mu.Unlock()
	if checked < n*(n-1) {
		for k := range errCache {
			var a, b, c int
			if fmt.Sscan(k, &a, &b, &c); a == n {
				delete(errCache, k)
			}
		}
		return false
	}
	running[n] = servers
	return true
}
