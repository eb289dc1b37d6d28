package syncchk

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"time"

	"verif/harness/mc"
	"verif/harness/simnet"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// roundFaults are the things that may go wrong in an operation of a round.
func roundFaults(net *simnet.Net, all bool) func(o *simnet.Op) []simnet.Fault {
	return func(o *simnet.Op) []simnet.Fault {
		if net.Mark[o.By] <= 0 {
			return nil
		}
		switch o.Kind {
		case simnet.Read:
			return []simnet.Fault{simnet.Error, simnet.End, simnet.Timeout}
		case simnet.Write:
			return []simnet.Fault{simnet.Error, simnet.Glitch}
		case simnet.Flush:
			return []simnet.Fault{simnet.Error, simnet.Half, simnet.Timeout, simnet.Crash, simnet.Glitch}
		}
		return nil
	}
}

func (s *session) faulty(k [2]bool, ch *mc.Chooser, faults int) *simnet.Net {
	s.net = newNet(s.n, ch, k)
	s.net.Order = func(o *simnet.Op) bool { return s.net.Mark[o.By] != 0 || o.Kind == simnet.Enter }
	s.net.Faults = roundFaults(s.net, true)
	s.net.MaxFaults = faults
	s.net.Patience = 100 * time.Millisecond
	s.settle = true
	return s.net
}

func TestS02(t *testing.T) {
	check(t, "S02", func(r *mc.Run) {
		individual := func(from, round int) bool { return (from+round)%2 == 1 }
		deep := func(quick, thorough int) int {
			if r.Thorough {
				return thorough
			}
			return quick
		}
		explore := func(n, rounds, bound, faults int, k [2]bool, quiet bool, refuse func(at, round, from int) bool, what any) {
			r.ExploreP(bound, func(ch *mc.Chooser) {
				s := &session{r: r, n: n, rounds: rounds, each: individual, refuse: refuse, what: what}
				s.faulty(k, ch, faults)
				s.net.Quiet = quiet
				s.run()
				s.general(true)
			})
		}
		r.Part("one failure", func() {
			for _, k := range kinds[:3] {
				for n := 2; n <= deep(4, 5); n++ {
					explore(n, 2, 1, 1, k, true, nil, "one failure")
				}
			}
		})
		r.Part("one failure in any order", func() {
			for _, k := range kinds[:2] {
				explore(2, 2, deep(2, 3), 1, k, false, nil, "one failure and schedule deviations")
			}
			explore(3, 1, 2, 1, kinds[0], false, nil, "one failure and schedule deviations")
			if r.Thorough {
				explore(3, 1, 2, 1, kinds[1], false, nil, "one failure and schedule deviations")
				explore(3, 2, 2, 1, kinds[0], false, nil, "one failure and schedule deviations")
			}
		})
		r.Part("two failures", func() {
			for _, k := range kinds[:2] {
				explore(2, 2, 2, 2, k, true, nil, "two failures")
				explore(3, 1, 2, 2, k, true, nil, "two failures")
				if r.Thorough {
					explore(2, 1, 3, 3, k, true, nil, "three failures")
					explore(3, 2, 2, 2, k, true, nil, "two failures")
				}
			}
		})
		r.Part("refusing checks", func() {
			// every subset of refusals at every party, in either of two rounds
			for n := 2; n <= 4; n++ {
				pairs := n * (n - 1)
				if n == 4 {
					pairs = 6 // parties 0 and 1
				}
				r.Parallel(1<<pairs, func(mask int) {
					for round := 0; round < 2; round++ {
						refuse := func(at, rd, from int) bool {
							if rd != round || n == 4 && at > 1 {
								return false
							}
							j := from
							if from > at {
								j--
							}
							return mask>>(at*(n-1)+j)&1 == 1
						}
						s := &session{r: r, n: n, rounds: 2, each: individual, refuse: refuse, what: fmt.Sprintf("refusals %b in round %d", mask, round)}
						s.faulty(kinds[mask%4], &mc.Chooser{}, 0)
						s.run()
						s.general(true)
					}
				})
			}
		})
		r.Part("large committees", func() {
			if !documented(r) {
				return
			}
			// one party among many, one or several of which fail or are refused
			type job struct{ n, real, gone, refused int }
			var jobs []job
			for _, n := range []int{70, 301} {
				for _, real := range []int{0, n - 1} {
					for q := 0; q < n; q++ {
						if q == real || !r.Thorough && (n > 100 && q%64 > 1 || n < 100 && real > 0 && q%8 > 0) {
							continue
						}
						jobs = append(jobs, job{n, real, q, -1}, job{n, real, -1, q}, job{n, real, q, (q + 64) % n})
					}
				}
			}
			r.Parallel(len(jobs), func(i int) {
				j := jobs[i]
				lost := func(q, round int) bool { return q == j.gone }
				crowd(r, j.n, j.real, 2, lost, func(q, round int) bool { return q == j.refused && round == 0 })
			})
			// every so many of the parties fail, and others are refused
			type some struct{ n, real, of, gone, refused int }
			var sets []some
			for _, n := range []int{9, 12, 20, 70, 301} {
				for _, of := range []int{1, 2, 3, 5} {
					for gone := -1; gone < of; gone++ {
						for refused := -1; refused < of; refused++ {
							if r.Thorough || n < 100 || (gone+refused)%2 == 0 {
								sets = append(sets, some{n, n / 2, of, gone, refused})
							}
						}
					}
				}
			}
			r.Parallel(len(sets), func(i int) {
				j := sets[i]
				crowd(r, j.n, j.real, 2, func(q, round int) bool { return q%j.of == j.gone },
					func(q, round int) bool { return q%j.of == j.refused && round == 1 })
			})
		})
		r.Part("refusals and failures", func() {
			for mask := 1; mask < 1<<6; mask++ {
				refuse := func(at, rd, from int) bool {
					j := from
					if from > at {
						j--
					}
					return rd == 0 && mask>>(at*2+j)&1 == 1
				}
				if !r.Thorough && mask%5 != 1 {
					continue
				}
				explore(3, deep(1, 2), 1, 1, kinds[0], true, refuse, fmt.Sprintf("refusals %b", mask))
			}
		})
		r.Part("streams in pieces", func() {
			// bytewise delivery, so that a link may fail after any number of bytes
			for n := 2; n <= 3; n++ {
				r.ExploreP(1, func(ch *mc.Chooser) {
					s := &session{r: r, n: n, rounds: 2, each: individual, what: "failure at any byte"}
					s.faulty(kinds[0], ch, 1)
					s.net.Quiet, s.net.Bytewise = true, true
					s.run()
					s.general(true)
				})
			}
		})
	})
}

// crowd runs one real party among scripted ones, some of which end their stream before a round,
// or are refused in one.
func crowd(r *mc.Run, n, real, rounds int, lost, refuse func(q, round int) bool) {
	net := newNet(n, &mc.Chooser{}, kinds[0])
	net.Quiet = true
	var res []*result
	var gone, refused []int
	for q := 0; q < n; q++ {
		if q != real && lost(q, 0) {
			gone = append(gone, q)
		}
		if q != real && refuse(q, 0) {
			refused = append(refused, q)
		}
	}
	show := func() any {
		return map[string]any{"parties": n, "real party": real, "end their streams": gone, "refused": refused}
	}
	mains := map[int]func(){}
	for p := 0; p < n; p++ {
		mains[p] = func() {
			c, err := net.Server(p).Dial(uint16(real))
			if err != nil {
				r.Bug("%v", err)
			}
			send := func(b []byte) {
				c.Write(b)
				c.Flush()
			}
			send(introduction(p))
			for k := 0; k < rounds; k++ {
				if lost(p, k) {
					c.Close()
					break
				}
				send(frame(p, k, defaultPayload(p, k, real)))
			}
			net.Server(p).Listen()
		}
	}
	mains[real] = func() {
		srv := sync.NewServer(uint16(real), uint16(n), time.Now().Add(lead), 400*time.Millisecond, net.Server(real))
		srv.Start()
		for k := 0; k < rounds; k++ {
			x := &result{got: map[uint16][][]byte{}}
			res = append(res, x)
			x.err = srv.Round([][]byte{defaultPayload(real, k, -1)}, func(from uint16, d []byte) error {
				x.got[from] = append(x.got[from], append([]byte{}, d...))
				if refuse(int(from), k) {
					return errors.New("refused")
				}
				return nil
			})
			x.done = true
		}
	}
	if o := net.Run(tt, mains)[real]; o.Panic != nil {
		r.Fail(show(), "panic: %v", o.Panic)
	}
	for k, x := range res {
		if !x.done {
			r.Fail(show(), "round %d does not end", k)
		}
		want := []int{}
		for q := 0; q < n; q++ {
			if q == real {
				continue
			}
			out := false
			for i := 0; i <= k; i++ {
				out = out || lost(q, i)
			}
			if out || refuse(q, k) {
				want = append(want, q)
			}
			if out {
				if len(x.got[uint16(q)]) > 0 {
					r.Fail(show(), "in round %d the party is handed %q of party %d, whose stream ended", k, x.got[uint16(q)], q)
				}
				continue
			}
			if d := x.got[uint16(q)]; len(d) != 1 || !bytes.Equal(d[0], defaultPayload(q, k, real)) {
				r.Fail(show(), "in round %d the party is handed %q as the data of party %d", k, d, q)
			}
		}
		if got := missing(x.err); fmt.Sprint(got) != fmt.Sprint(want) && len(got)+len(want) > 0 || x.err != nil && len(want) == 0 {
			r.Fail(show(), "the error of round %d names %v, not %v: %.200v", k, missing(x.err), want, x.err)
		}
		r.Step(1)
	}
	r.Trace(1)
	r.State(net.Steps)
}
