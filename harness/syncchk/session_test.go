package syncchk

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"testing"
	"time"

	"verif/harness/mc"
	"verif/harness/simnet"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// lead is the time between the creation of the servers and the first round.
const lead = 50 * time.Millisecond

var tt *testing.T

func check(t *testing.T, id string, body func(r *mc.Run)) {
	tt = t
	mc.Check(t, id, body)
}

// result is what a party saw in a round.
type result struct {
	entered, done bool
	err           error
	got           map[uint16][][]byte
	order         []uint16
	refused       map[uint16]bool
	kept          [][2][]byte // what was handed over, and a copy from when it was
	began, ended  time.Time
}

// session is a number of rounds among parties that are all honest, over a network that may not be.
type session struct {
	r       *mc.Run
	net     *simnet.Net
	n       int
	rounds  int
	payload func(from, round, to int) []byte
	each    func(from, round int) bool // individual messages rather than one for all
	refuse  func(at, round, from int) bool
	late    func(pid int) time.Duration // delay before a party comes up
	lead    func(pid int) time.Duration
	pause   func(pid, round int) time.Duration // before entering a round
	stop    bool
	settle  bool // everybody is connected before anybody enters a round
	extra   map[int]func()
	what    any

	res   [][]*result
	start time.Time
	begun []time.Time
	out   map[int]*simnet.Outcome
}

func defaultPayload(from, round, to int) []byte {
	return []byte(fmt.Sprintf("<%d.%d.%d>", from, round, to))
}

func (s *session) toAll(from, round int) []byte { return s.payload(from, round, -1) }

func (s *session) expect(from, round, to int) []byte {
	if s.each != nil && s.each(from, round) {
		return s.payload(from, round, to)
	}
	return s.toAll(from, round)
}

func (s *session) show() any {
	return map[string]any{"parties": s.n, "rounds": s.rounds, "case": s.what, "choices": s.net.Ch.Deviations(), "faults": s.net.Happened, "history": s.net.Trace,
		"network": map[string]any{"rendezvous": s.net.Rendezvous, "dial waits for accept": s.net.Meet}}
}

func (s *session) fail(format string, args ...any) { s.r.Fail(s.show(), format, args...) }

// run executes the session.
func (s *session) run() {
	if s.payload == nil {
		s.payload = defaultPayload
	}
	s.res = make([][]*result, s.n)
	s.begun = make([]time.Time, s.n)
	mains := map[int]func(){}
	for pid := 0; pid < s.n; pid++ {
		s.res[pid] = make([]*result, s.rounds)
		for k := range s.res[pid] {
			s.res[pid][k] = &result{got: map[uint16][][]byte{}, refused: map[uint16]bool{}}
		}
		mains[pid] = func() { s.party(pid) }
	}
	for p, f := range s.extra {
		mains[p] = f
	}
	done := s.r.Running(map[string]any{"parties": s.n, "rounds": s.rounds, "case": s.what, "choices": s.net.Ch.Prefix()})
	s.out = s.net.Run(tt, mains)
	done()
	for pid, o := range s.out {
		if o.Panic != nil && pid < s.n && !s.net.Crashed[pid] {
			s.r.Try(s.show(), func() {
				if mc.UnderTest(o.Stack) {
					panic(mc.Broken("panic of party %d: %v\n%s", pid, o.Panic, o.Stack))
				}
				panic(o.Panic)
			})
		}
	}
}

func (s *session) party(pid int) {
	if s.late != nil {
		time.Sleep(s.late(pid))
	}
	l := lead
	if s.lead != nil {
		l = s.lead(pid)
	}
	s.begun[pid] = time.Now().Add(l)
	srv := sync.NewServer(uint16(pid), uint16(s.n), s.begun[pid], 400*time.Millisecond, s.net.Server(pid))
	srv.Start()
	if s.settle {
		time.Sleep(lead / 2)
	}
	for k := 0; k < s.rounds; k++ {
		if s.pause != nil {
			time.Sleep(s.pause(pid, k))
		}
		s.net.Enter(pid, fmt.Sprintf("round %d", k))
		var toSend [][]byte
		if s.each != nil && s.each(pid, k) {
			toSend = make([][]byte, s.n)
			for to := range toSend {
				toSend[to] = s.payload(pid, k, to)
			}
		} else {
			toSend = [][]byte{s.toAll(pid, k)}
		}
		kept := fmt.Sprintf("%x", toSend)
		r := s.res[pid][k]
		r.entered = true
		r.began = time.Now()
		s.net.SetMark(pid, k+1)
		err := srv.Round(toSend, func(from uint16, d []byte) error {
			if r.done {
				panic(mc.Broken("data of party %d handed over after the round", from))
			}
			c := append([]byte{}, d...)
			r.got[from] = append(r.got[from], c)
			r.kept = append(r.kept, [2][]byte{d, c})
			r.order = append(r.order, from)
			if s.refuse != nil && s.refuse(pid, k, int(from)) {
				r.refused[from] = true
				return errors.New("refused")
			}
			return nil
		})
		s.net.SetMark(pid, -(k + 1))
		r.err, r.done, r.ended = err, true, time.Now()
		if fmt.Sprintf("%x", toSend) != kept {
			panic(mc.Broken("a round changes what it is to send"))
		}
	}
	if s.stop {
		s.net.Enter(pid, "stop")
		srv.Stop()
	}
}

// missing is the list of parties in the error of a round.
func missing(err error) []int {
	if err == nil {
		return nil
	}
	var e interface{ Missing() []uint16 }
	if !errors.As(err, &e) {
		return []int{-1}
	}
	m := []int{}
	for _, p := range e.Missing() {
		m = append(m, int(p))
	}
	sort.Ints(m)
	return m
}

// stays checks that what was handed over in any round has stayed as it was.
func (s *session) stays() {
	for p := 0; p < s.n; p++ {
		for k, r := range s.res[p] {
			for i, d := range r.kept {
				if !bytes.Equal(d[0], d[1]) {
					s.fail("what party %d was handed as the data of party %d in round %d changes later from %.80q to %.80q", p, r.order[i], k, d[1], d[0])
				}
			}
		}
	}
}

// completed checks that all parties completed all rounds with all data, in an execution without faults.
func (s *session) completed() {
	if s.net.Stuck != nil {
		s.fail("the parties do not finish; waiting: %v", s.net.Stuck)
	}
	for p := 0; p < s.n; p++ {
		for k := 0; k < s.rounds; k++ {
			r := s.res[p][k]
			if r.err != nil {
				s.fail("round %d fails at party %d though nothing went wrong: %v", k, p, r.err)
			}
			if !r.done {
				s.fail("party %d does not complete round %d", p, k)
			}
			want := []uint16{}
			for q := 0; q < s.n; q++ {
				if q != p {
					want = append(want, uint16(q))
				}
			}
			if fmt.Sprint(r.order) != fmt.Sprint(want) {
				s.fail("in round %d party %d hands over the data of %v, not of %v", k, p, r.order, want)
			}
			for _, q := range want {
				if !bytes.Equal(r.got[q][0], s.expect(int(q), k, p)) {
					s.fail("in round %d party %d hands over %.80q as the data of party %d, who sent %.80q", k, p, r.got[q][0], q, s.expect(int(q), k, p))
				}
				s.r.Step(1)
			}
		}
	}
	s.wires()
	s.stays()
	s.r.Trace(1)
	s.r.State(s.net.Steps)
}

// wires checks what went over the links and when: nothing of a round outside of it, and
// nothing of the first before its time.
func (s *session) wires() {
	for _, l := range s.net.Links {
		for side, from := range []int{l.From, l.To} {
			if from >= s.n {
				continue
			}
			to := l.From + l.To - from
			early := []byte{} // room for an introduction only
			for _, p := range l.Pushed[side] {
				if p.Mark < 0 {
					s.fail("party %d sends %.60q to party %d after its round %d is over", from, p.Data, to, -p.Mark-1)
				}
				if p.At.Before(s.begun[from]) {
					early = append(early, p.Data...)
				}
			}
			if len(early) > 8 {
				s.fail("party %d sends %.60q to party %d before the agreed start", from, early, to)
			}
		}
	}
}

// general checks what holds whatever happens to the links.
func (s *session) general(precise bool) {
	if s.net.Stuck != nil {
		s.fail("the parties do not finish; waiting: %v", s.net.Stuck)
	}
	type rk struct{ p, k, q int }
	readFail, sendFail := map[rk]bool{}, map[rk]bool{}
	for _, f := range s.net.Fails {
		if f.Mark <= 0 {
			continue
		}
		if f.Kind == simnet.Read {
			readFail[rk{f.By, f.Mark - 1, f.Peer}] = true
		}
		if f.Kind == simnet.Write || f.Kind == simnet.Flush {
			sendFail[rk{f.By, f.Mark - 1, f.Peer}] = true
		}
	}
	// links that something happened to, with the first round in which their state is uncertain
	hit := map[[2]int]int{}
	strike := func(from, to, k int) {
		if o, ok := hit[[2]int{from, to}]; !ok || k < o {
			hit[[2]int{from, to}] = max(k, 0)
		}
	}
	for _, l := range s.net.Hit {
		strike(l.Link.From, l.Link.To, l.Mark-1)
	}
	// a link whose reader or writer gave up in some round is out of step from then on
	for k := range readFail {
		strike(k.q, k.p, k.k)
	}
	for k := range sendFail {
		strike(k.p, k.q, k.k)
	}
	for p := 0; p < s.n; p++ {
		if s.net.Crashed[p] {
			continue
		}
		for k := 0; k < s.rounds; k++ {
			r := s.res[p][k]
			if !r.done {
				s.fail("party %d does not finish round %d", p, k)
			}
			s.r.Step(1)
			miss := map[int]bool{}
			for _, q := range missing(r.err) {
				if q < 0 || q >= s.n || q == p || miss[q] {
					s.fail("the error of party %d in round %d names %v", p, k, missing(r.err))
				}
				miss[q] = true
			}
			bad := false
			for q := 0; q < s.n; q++ {
				if q == p {
					if len(r.got[uint16(q)]) > 0 {
						s.fail("party %d checks data of its own", p)
					}
					continue
				}
				got := r.got[uint16(q)]
				failed := readFail[rk{p, k, q}]
				want := s.expect(q, k, p)
				if len(got) > 1 || len(got) == 1 && !bytes.Equal(got[0], want) {
					s.fail("in round %d party %d hands over %.80q as the data of party %d, who sent %.80q (faults %v)", k, p, got, q, want, s.net.Happened)
				}
				if failed && len(got) > 0 {
					s.fail("in round %d party %d hands over data of party %d whose stream failed", k, p, q)
				}
				if failed || r.refused[uint16(q)] {
					bad = true
					if !miss[q] {
						s.fail("in round %d the data of party %d does not arrive at party %d or is refused (faults %v), and the error %v names %v", k, q, p, s.net.Happened, r.err, missing(r.err))
					}
					if failed {
						continue
					}
				}
				out := len(got) == 0
				if out && !miss[q] {
					s.fail("in round %d party %d does without the data of party %d: error %v (faults %v)", k, p, q, r.err, s.net.Happened)
				}
				if h, ok := hit[[2]int{q, p}]; out && !(ok && h <= k) && !s.net.Crashed[q] {
					s.fail("in round %d party %d misses the data of party %d, whose link works (faults %v): %v", k, p, q, s.net.Happened, r.err)
				}
				if !out && miss[q] && !r.refused[uint16(q)] {
					s.fail("in round %d party %d names party %d whose data arrived (faults %v): %v", k, p, q, s.net.Happened, r.err)
				}
				bad = bad || out
			}
			sent := false
			for q := 0; q < s.n; q++ {
				sent = sent || sendFail[rk{p, k, q}]
			}
			if (bad || sent) && r.err == nil {
				s.fail("round %d succeeds at party %d though its stream to or from a peer failed (faults %v)", k, p, s.net.Happened)
			}
			if !bad && !sent && r.err != nil {
				s.fail("round %d fails at party %d though its own streams work (faults %v): %v", k, p, s.net.Happened, r.err)
			}
			switch {
			case r.err == nil:
				s.r.Outcome("rounds", "complete")
			case len(miss) == 0:
				s.r.Outcome("rounds", "own sending failed")
			default:
				s.r.Outcome("rounds", fmt.Sprintf("%d missing", len(miss)))
			}
		}
	}
	s.wires()
	s.stays()
	// what a party flushes in a round is of that round
	for _, l := range s.net.Links {
		for side, from := range []int{l.From, l.To} {
			for _, p := range l.Pushed[side] {
				for k := 0; k < s.rounds; k++ {
					if p.Mark > 0 && k != p.Mark-1 && bytes.Contains(p.Data, []byte(fmt.Sprintf("<%d.%d.", from, k))) {
						s.fail("party %d sends data of round %d in round %d: %q", from, k, p.Mark-1, p.Data)
					}
				}
			}
		}
	}
	s.r.Trace(1)
	s.r.State(s.net.Steps)
	for _, h := range s.net.Happened {
		i := len(h) - 1
		for h[i] != ' ' {
			i--
		}
		s.r.Outcome("faults", h[i+1:])
	}
}
