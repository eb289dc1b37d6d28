package syncchk

import (
	"bufio"
	"errors"
	"fmt"
	"net"
	stdsync "sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/mc"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

func long(int) time.Duration { return 5 * time.Second }

func TestS05(t *testing.T) {
	check(t, "S05", func(r *mc.Run) {
		if mc.Race {
			races(r)
			return
		}
		deep := func(quick, thorough int) int {
			if r.Thorough {
				return thorough
			}
			return quick
		}
		each := func(from, round int) bool { return (from+round)%2 == 0 }
		explore := func(n, rounds, bound int, k [2]bool, quiet bool, refuse func(at, round, from int) bool, what any, ticks ...time.Duration) {
			r.ExploreP(bound, func(ch *mc.Chooser) {
				s := &session{r: r, n: n, rounds: rounds, each: each, refuse: refuse, what: what}
				s.faulty(k, ch, 1)
				s.net.Quiet, s.net.Ticks = quiet, ticks
				s.lead = long
				s.run()
				s.general(true)
			})
		}
		r.Part("a failure, then two rounds", func() {
			for _, k := range kinds[:3] {
				for n := 2; n <= deep(3, 5); n++ {
					explore(n, 3, 1, k, true, nil, "a failure, then further rounds")
				}
			}
		})
		r.Part("schedules of the rounds after a failure", func() {
			for _, k := range kinds[:2] {
				explore(2, 2, 2, k, false, nil, "a failure and a schedule deviation", 2*time.Millisecond, 150*time.Millisecond)
				explore(3, 2, deep(1, 2), k, false, nil, "a failure or a schedule deviation", 2*time.Millisecond, 150*time.Millisecond)
			}
			if r.Thorough {
				explore(2, 3, 3, kinds[1], false, nil, "a failure and schedule deviations")
			}
		})
		r.Part("refusals, then two rounds", func() {
			for n := 2; n <= 3; n++ {
				for mask := 1; mask < 1<<(n*(n-1)); mask++ {
					if n == 3 && mask%3 != 0 && !r.Thorough {
						continue
					}
					refuse := func(at, round, from int) bool {
						j := from
						if from > at {
							j--
						}
						return round == 0 && mask>>(at*(n-1)+j)&1 == 1
					}
					explore(n, 3, deep(3-n, 1), kinds[mask%2], n == 3, refuse, fmt.Sprintf("refusals %b in the first round", mask))
				}
			}
		})
		r.Part("a slow reader", func() {
			// a party enters its rounds late, on links that make the sender wait, while another fails
			for _, delay := range []time.Duration{5 * time.Millisecond, 60 * time.Millisecond, 250 * time.Millisecond} {
				for n := 2; n <= 3; n++ {
					r.ExploreP(1, func(ch *mc.Chooser) {
						s := &session{r: r, n: n, rounds: 3, each: each, what: fmt.Sprintf("party %d is %v late", n-1, delay)}
						s.faulty(kinds[1], ch, 1)
						s.net.Quiet = true
						s.lead = long
						s.pause = func(pid, round int) time.Duration {
							if pid == n-1 {
								return delay
							}
							return 0
						}
						s.run()
						s.general(true)
					})
				}
			}
		})
	})
}

// races runs the servers freely, under the race detector.
func races(r *mc.Run) {
	type job struct {
		n, by, at, round int
		what             string
	}
	r.Part("free runs under the race detector", func() {
		var jobs []job
		for n := 2; n <= 3; n++ {
			for by := 0; by < n; by++ {
				for round := 0; round < 2; round++ {
					for at := 0; at < 12; at++ {
						jobs = append(jobs, job{n, by, at, round, "write"}, job{n, by, at, round, "read"})
					}
					jobs = append(jobs, job{n, by, 0, round, "refuse"}, job{n, by, 0, round, "late"}, job{n, by, 0, round, "stop"})
				}
			}
		}
		if !r.Thorough {
			var some []job
			for i, j := range jobs {
				if j.at < 7 || i%3 == 0 {
					some = append(some, j)
				}
			}
			jobs = some
		}
		sem := make(chan struct{}, 24)
		var wg stdsync.WaitGroup
		var runs atomic.Int64
		for _, j := range jobs {
			if r.Late() {
				break
			}
			sem <- struct{}{}
			wg.Add(1)
			go func() {
				defer func() { <-sem; wg.Done() }()
				if !free(r, j.n, j.by, j.at, j.round, j.what) {
					r.Report(fmt.Sprint(j), "rounds among %d parties do not end (party %d, %s %d in round %d fails)", j.n, j.by, j.what, j.at, j.round)
				}
				runs.Add(1)
				r.State(1)
				r.Step(3 * j.n)
				r.Outcome("free runs", j.what)
			}()
		}
		wg.Wait()
		r.Trace(int(runs.Load()))
	})
}

// pipe is a link in memory whose operations fail on demand.
type pipe struct {
	net.Conn
	w    *bufio.Writer
	bad  func(op string) bool
	once stdsync.Once
}

var errBad = errors.New("injected failure")

func (p *pipe) Read(b []byte) (int, error) {
	p.Conn.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
	if p.bad("read") {
		return 0, errBad
	}
	return p.Conn.Read(b)
}
func (p *pipe) Write(b []byte) (int, error) {
	if p.bad("write") {
		return 0, errBad
	}
	return p.w.Write(b)
}
func (p *pipe) Flush() error {
	p.Conn.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
	if p.bad("write") {
		return errBad
	}
	return p.w.Flush()
}

type memory struct {
	pid int
	in  []chan network.Connection
	bad func(pid int, op string) bool
}

func (m *memory) Dial(pid uint16) (network.Connection, error) {
	if m.bad(m.pid, "dial") {
		return nil, errBad
	}
	a, b := net.Pipe()
	mk := func(c net.Conn, who int) network.Connection {
		return &pipe{Conn: c, w: bufio.NewWriter(c), bad: func(op string) bool { return m.bad(who, op) }}
	}
	select {
	case m.in[pid] <- mk(b, int(pid)):
		return mk(a, m.pid), nil
	case <-time.After(5 * time.Second):
		return nil, errors.New("timeout")
	}
}

func (m *memory) Listen() (network.Connection, error) {
	select {
	case c := <-m.in[m.pid]:
		return c, nil
	case <-time.After(5 * time.Second):
		return nil, errors.New("timeout")
	}
}

func (m *memory) Stop() {}

// free runs three rounds; it tells whether they ended.
func free(r *mc.Run, n, by, at, round int, what string) bool {
	in := make([]chan network.Connection, n)
	for i := range in {
		in[i] = make(chan network.Connection)
	}
	var now, count atomic.Int64
	now.Store(-1)
	bad := func(pid int, op string) bool {
		if pid != by || op != what || now.Load() != int64(round) {
			return false
		}
		return int(count.Add(1))-1 == at
	}
	start := time.Now().Add(150 * time.Millisecond)
	var wg stdsync.WaitGroup
	for pid := 0; pid < n; pid++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			srv := sync.NewServer(uint16(pid), uint16(n), start, 100*time.Millisecond, &memory{pid, in, bad})
			srv.Start()
			for k := 0; k < 3; k++ {
				if pid == by {
					now.Store(int64(k))
					if what == "late" && k == round {
						time.Sleep(20 * time.Millisecond)
					}
				}
				got := 0
				toSend := [][]byte{[]byte("all")}
				if k == 1 {
					toSend = make([][]byte, n)
				}
				srv.Round(toSend, func(from uint16, d []byte) error {
					got += len(d)
					if what == "refuse" && pid == by && k == round {
						return errBad
					}
					return nil
				})
			}
			srv.Stop()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(30 * time.Second):
		return false
	}
}
