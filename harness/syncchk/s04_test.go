package syncchk

import (
	"encoding/binary"
	"fmt"
	stdsync "sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/mc"
	"verif/harness/simnet"
)

// starting tells whether an operation serves to make a link.
func starting(o *simnet.Op) bool {
	if o.Link == nil {
		return true
	}
	n := 0
	for _, p := range o.Link.Pushed[0] {
		n += len(p.Data)
	}
	return n < 2
}

// startFaults are what may go wrong while links are made. Once an introduction is on its
// way its sender has no means to learn that it was lost, so reads do not fail here.
func startFaults(net *simnet.Net) func(o *simnet.Op) []simnet.Fault {
	return func(o *simnet.Op) []simnet.Fault {
		if o.By >= net.N || !starting(o) {
			return nil
		}
		switch o.Kind {
		case simnet.Dial, simnet.Listen, simnet.Write:
			return []simnet.Fault{simnet.Error}
		case simnet.Flush:
			return []simnet.Fault{simnet.Error, simnet.Half, simnet.Timeout}
		}
		return nil
	}
}

// closes checks that stopping closed each link in use once, at both sides, and no other one twice.
func (s *session) closes() {
	used := map[[2]int]int{}
	for _, l := range s.net.Links {
		for side := range l.Closed {
			if l.Closed[side] > 1 {
				s.fail("link %v is closed %d times at one side", l, l.Closed[side])
			}
		}
		if l.From >= s.n {
			if l.Accepted && l.Closed[1] != 1 && len(l.Pushed[0]) > 0 {
				s.fail("the link of a stray party to party %d is kept", l.To)
			}
			continue
		}
		n := 0
		for _, p := range l.Pushed[0] {
			n += len(p.Data)
		}
		if !l.Accepted || n < 2 {
			continue
		}
		used[[2]int{l.From, l.To}]++
		if l.Closed[0] != 1 || l.Closed[1] != 1 {
			s.fail("after stopping, link %v is closed %d times at its dialling and %d times at its accepting side", l, l.Closed[0], l.Closed[1])
		}
		s.r.Step(1)
	}
	for p := 0; p < s.n; p++ {
		for q := 0; q < s.n; q++ {
			if p != q && used[[2]int{p, q}] != 1 {
				s.fail("there are %d links from party %d to party %d", used[[2]int{p, q}], p, q)
			}
		}
	}
}

// a stray dials a party and introduces itself in some way.
type stray struct {
	name  string
	bytes func(n, victim int) []byte
	then  string // "", "close", "more"
	dup   bool   // waits until the peer it claims to be is known
}

func u16(x int) []byte { return binary.LittleEndian.AppendUint16(nil, uint16(x)) }

var strays = []stray{
	{"silent", func(n, v int) []byte { return nil }, "", false},
	{"closes at once", func(n, v int) []byte { return nil }, "close", false},
	{"one byte", func(n, v int) []byte { return []byte{0} }, "close", false},
	{"one byte of many", func(n, v int) []byte { return []byte{1} }, "", false},
	{"number of parties", func(n, v int) []byte { return u16(n) }, "", false},
	{"number of parties and data", func(n, v int) []byte { return append(u16(n), frame(0, 0, []byte("x"))...) }, "close", false},
	{"one more", func(n, v int) []byte { return u16(n + 1) }, "", false},
	{"the party itself", func(n, v int) []byte { return u16(v) }, "", false},
	{"the party itself, ending", func(n, v int) []byte { return u16(v) }, "close", false},
	{"largest number", func(n, v int) []byte { return u16(65535) }, "", false},
	{"largest positive", func(n, v int) []byte { return u16(32767) }, "", false},
	{"sign bit", func(n, v int) []byte { return u16(32768) }, "", false},
	{"high byte", func(n, v int) []byte { return u16(256 * (v + 1)) }, "", false},
	{"both bytes", func(n, v int) []byte { return u16(257 * (1 + v%2)) }, "close", false},
	{"again", func(n, v int) []byte { return u16((v + 1) % n) }, "", true},
	{"again, with data", func(n, v int) []byte { return append(u16((v+1)%n), frame((v+1)%n, 0, []byte("stray"))...) }, "", true},
	{"again, ending", func(n, v int) []byte { return u16((v + 1) % n) }, "close", true},
}

// intruder is what a stray does, as host pid.
func (s *session) intruder(pid, victim int, st stray) func() {
	return func() {
		if st.dup {
			// when all others are connected and the last party is not
			time.Sleep(5 * time.Millisecond)
		}
		c, err := s.net.Server(pid).Dial(uint16(victim))
		if err != nil {
			return
		}
		if b := st.bytes(s.n, victim); len(b) > 0 {
			c.Write(b)
			c.Flush()
		}
		if st.then == "close" {
			c.Close()
		}
	}
}

// freeStarts makes the links under the race detector.
func freeStarts(r *mc.Run) {
	r.Part("free starts under the race detector", func() {
		type job struct {
			n, by, at int
			what      string
		}
		var jobs []job
		for n := 2; n <= 5; n++ {
			for by := 0; by < n; by++ {
				for at := 0; at < n-1; at++ {
					jobs = append(jobs, job{n, by, at, "dial"}, job{n, by, at, "write"})
				}
			}
			jobs = append(jobs, job{n, 0, 0, "nothing"})
		}
		sem := make(chan struct{}, 24)
		var wg stdsync.WaitGroup
		var runs atomic.Int64
		for _, j := range jobs {
			sem <- struct{}{}
			wg.Add(1)
			go func() {
				defer func() { <-sem; wg.Done() }()
				if !free(r, j.n, j.by, j.at, -1, j.what) {
					r.Report(fmt.Sprint(j), "the start of %d parties does not end (%s %d of party %d fails)", j.n, j.what, j.at, j.by)
				}
				runs.Add(1)
				r.State(1)
				r.Step(j.n * (j.n - 1))
				r.Outcome("free starts", j.what)
			}()
		}
		wg.Wait()
		r.Trace(int(runs.Load()))
	})
}

func TestS04(t *testing.T) {
	check(t, "S04", func(r *mc.Run) {
		if mc.Race {
			freeStarts(r)
			return
		}
		deep := func(quick, thorough int) int {
			if r.Thorough {
				return thorough
			}
			return quick
		}
		r.Part("orders of connecting", func() {
			for _, k := range kinds {
				for n := 2; n <= 3; n++ {
					bound := deep(3, 5)
					if n == 3 {
						bound = deep(2, 3)
					}
					for _, rounds := range []int{0, 1} {
						r.ExploreP(bound, func(ch *mc.Chooser) {
							s := &session{r: r, n: n, rounds: rounds, stop: true, what: "start, rounds, stop"}
							s.net = newNet(n, ch, k)
							s.net.Order = func(o *simnet.Op) bool { return s.net.Mark[o.By] == 0 || starting(o) }
							s.run()
							s.completed()
							s.closes()
							r.Outcome("orders", fmt.Sprintf("%d parties", n))
						})
					}
				}
			}
			// many parties, one deviation
			for n := 4; n <= deep(5, 7); n++ {
				r.ExploreP(1, func(ch *mc.Chooser) {
					s := &session{r: r, n: n, rounds: 1, stop: true, what: "start, a round, stop"}
					s.net = newNet(n, ch, kinds[n%4])
					s.net.Order = func(o *simnet.Op) bool { return s.net.Mark[o.By] == 0 || starting(o) }
					s.run()
					s.completed()
					s.closes()
				})
			}
		})
		r.Part("parties come up one after the other", func() {
			for _, k := range kinds {
				for n := 2; n <= 4; n++ {
					for mask := 0; mask < 1<<(2*n); mask++ {
						delay := func(pid int) time.Duration { return time.Duration(mask>>(2*pid)&3) * 7 * time.Millisecond }
						r.ExploreP(deep(0, 1), func(ch *mc.Chooser) {
							s := &session{r: r, n: n, rounds: 2, stop: true, late: delay, what: fmt.Sprintf("delays %x", mask),
								lead: func(pid int) time.Duration { return lead - delay(pid) }}
							s.net = newNet(n, ch, k)
							s.net.Order = func(o *simnet.Op) bool { return s.net.Mark[o.By] == 0 || starting(o) }
							s.run()
							s.completed()
							s.closes()
						})
					}
				}
			}
		})
		r.Part("failing attempts", func() {
			for _, k := range kinds {
				for n := 2; n <= 3; n++ {
					for faults := 1; faults <= deep(2, 3); faults++ {
						if n == 3 && faults > deep(1, 2) {
							continue
						}
						for _, quiet := range []bool{true, false} {
							bound := faults
							if !quiet {
								bound = faults + 1
								if n == 3 && !r.Thorough && k != kinds[0] {
									continue
								}
							}
							r.ExploreP(bound, func(ch *mc.Chooser) {
								s := &session{r: r, n: n, rounds: 1, stop: true, what: "failing attempts"}
								s.net = newNet(n, ch, k)
								s.net.Quiet = quiet
								s.net.Order = func(o *simnet.Op) bool { return s.net.Mark[o.By] == 0 || starting(o) }
								s.net.Faults = startFaults(s.net)
								s.net.MaxFaults = faults
								s.net.Patience = 10 * time.Millisecond
								s.run()
								s.completed()
								s.closes()
								r.Outcome("failures", fmt.Sprint(len(s.net.Happened)))
							})
						}
					}
				}
			}
		})
		r.Part("stubborn failures", func() {
			// the first attempts of one kind fail, however many
			times := []int{7, 70, 700}
			if r.Thorough {
				times = append(times, 3000)
			}
			for n := 2; n <= 4; n++ {
				for by := 0; by < n; by++ {
					for what, kind := range map[string]simnet.Kind{"dialling": simnet.Dial, "listening": simnet.Listen, "introducing": simnet.Write, "sending": simnet.Flush, "half": simnet.Flush} {
						for _, k := range times {
							s := &session{r: r, n: n, rounds: 1, stop: true, what: fmt.Sprintf("party %d fails %d times when %s", by, k, what)}
							s.net = newNet(n, &mc.Chooser{}, kinds[(n+by)%4])
							s.net.Limit = 100000
							s.net.Patience = 10 * time.Millisecond
							left := k
							s.net.Force = func(o *simnet.Op) simnet.Fault {
								if o.By != by || o.Kind != kind || left == 0 || !starting(o) {
									return simnet.Fine
								}
								left--
								if what == "half" {
									return simnet.Half
								}
								return simnet.Error
							}
							s.run()
							s.completed()
							s.closes()
							r.Trace(1)
							r.Outcome("stubborn failures", fmt.Sprintf("%s %d times", what, k))
						}
					}
				}
				// and many strays come before the parties
				for _, k := range times {
					for i, st := range strays {
						if st.then != "close" || st.dup || i%n != 0 && !r.Thorough {
							continue
						}
						s := &session{r: r, n: n, rounds: 1, stop: true, extra: map[int]func(){}, what: fmt.Sprintf("%d strays that do: %s", k, st.name)}
						s.net = newNet(n, &mc.Chooser{}, kinds[i%4])
						s.net.Limit = 100000
						s.net.Patience, s.net.PatientWriters = 10*time.Millisecond, true
						s.late = func(int) time.Duration { return 5 * time.Millisecond }
						s.lead = func(int) time.Duration { return lead - 5*time.Millisecond }
						s.extra[n] = func() {
							for j := 0; j < k; j++ {
								s.intruder(n, 0, st)()
							}
						}
						s.run()
						s.completed()
						s.closes()
						r.Trace(1)
					}
				}
			}
		})
		r.Part("closing fails", func() {
			for _, k := range kinds {
				for n := 2; n <= 4; n++ {
					for by := 0; by < n; by++ {
						for mask := 1; mask < 1<<(2*(n-1)); mask++ {
							if n == 4 && mask&(mask-1) != 0 && mask != 63 {
								continue
							}
							s := &session{r: r, n: n, rounds: 1, stop: true, what: fmt.Sprintf("closing fails at party %d: %b", by, mask)}
							s.net = newNet(n, &mc.Chooser{}, k)
							at := 0
							s.net.Force = func(o *simnet.Op) simnet.Fault {
								if o.By == by && o.Kind == simnet.Close && s.net.Mark[by] < 0 {
									at++
									if mask>>(at-1)&1 == 1 {
										return simnet.Error
									}
								}
								return simnet.Fine
							}
							s.run()
							s.completed()
							s.closes()
							r.Trace(1)
							r.Outcome("closing", "fails")
						}
					}
				}
			}
		})
		r.Part("stray parties", func() {
			for _, k := range kinds {
				for n := 2; n <= 3; n++ {
					for victim := 0; victim < n; victim++ {
						for i := range strays {
							for j := -1; j < len(strays); j++ {
								if j >= 0 && (i+j)%deep(5, 1) != 0 {
									continue
								}
								pick := []stray{strays[i]}
								if j >= 0 {
									pick = append(pick, strays[j])
								}
								dup := false
								for _, st := range pick {
									dup = dup || st.dup
								}
								if dup && n == 2 {
									continue // all its peers are known: it no longer listens
								}
								bound := 1
								if j >= 0 || dup && !r.Thorough {
									bound = deep(0, 1)
								}
								r.ExploreP(bound, func(ch *mc.Chooser) {
									s := &session{r: r, n: n, rounds: 2, stop: true, extra: map[int]func(){}, what: map[string]any{"stray": pick[0].name, "strays": len(pick), "at": victim}}
									s.net = newNet(n, ch, k)
									s.net.Order = func(o *simnet.Op) bool { return o.By >= n || s.net.Mark[o.By] == 0 }
									s.net.Patience, s.net.PatientWriters = 10*time.Millisecond, true
									if dup {
										last := (victim + 2) % n
										s.late = func(pid int) time.Duration {
											if pid == last {
												return 20 * time.Millisecond
											}
											return 0
										}
										s.lead = func(pid int) time.Duration { return lead - s.late(pid) }
									}
									for x, st := range pick {
										s.extra[n+x] = s.intruder(n+x, victim, st)
									}
									s.run()
									s.completed()
									s.closes()
									r.Outcome("strays", pick[0].name)
								})
							}
						}
					}
				}
			}
		})
		r.Part("start time", func() {
			leads := []time.Duration{-time.Hour, -time.Second, -time.Millisecond, -1, 1, time.Millisecond, time.Second, time.Hour, 400 * time.Hour}
			for _, k := range kinds {
				for n := 1; n <= 3; n++ {
					for _, l := range leads {
						for late := -1; late < n && (late < 0 || l < time.Millisecond); late++ {
							for _, p := range []time.Duration{0, 2 * time.Millisecond} {
								s := &session{r: r, n: n, rounds: 1, stop: true, settle: late >= 0, what: map[string]any{"start in": l, "waits": p, "only": late}}
								s.net = newNet(n, &mc.Chooser{}, k)
								s.net.Calm = 500 * time.Hour
								if late >= 0 {
									s.net.Patience = time.Hour
								}
								s.lead = func(pid int) time.Duration {
									if late >= 0 && pid != late {
										return 30 * time.Minute
									}
									return l
								}
								s.pause = func(pid, k int) time.Duration { return p }
								s.run()
								if s.net.Stuck != nil {
									s.fail("the parties do not finish; waiting: %v", s.net.Stuck)
								}
								past := func(pid int) bool {
									d := s.lead(pid) - p
									if s.settle {
										d -= lead / 2
									}
									return d < 0
								}
								for pid := 0; pid < n; pid++ {
									x := s.res[pid][0]
									if !x.done {
										s.fail("party %d does not end its round", pid)
									}
									if past(pid) {
										if x.err == nil || len(x.order) > 0 || len(missing(x.err)) > 0 {
											s.fail("the start time of party %d has passed, the round hands over data of %v and returns %v", pid, x.order, x.err)
										}
										r.Outcome("start", "passed")
										continue
									}
									if x.err == nil && x.ended.Before(s.begun[pid]) {
										s.fail("party %d completes a round before the agreed start", pid)
									}
									lack := []int{}
									for q := 0; q < n; q++ {
										if q != pid && past(q) {
											lack = append(lack, q)
										}
									}
									if fmt.Sprint(missing(x.err)) != fmt.Sprint(lack) && !(x.err == nil && len(lack) == 0) {
										s.fail("the parties %v can not take part, the round of party %d ends with %v naming %v", lack, pid, x.err, missing(x.err))
									}
									r.Outcome("start", "in time")
								}
								for _, ln := range s.net.Links {
									var got []byte
									for _, x := range ln.Pushed[0] {
										got = append(got, x.Data...)
									}
									if past(ln.From) && len(got) > 8 {
										s.fail("party %d, too late for the start, sends %q", ln.From, got)
									}
								}
								s.wires()
								r.Trace(1)
							}
						}
					}
				}
			}
		})
		r.Part("introductions", func() {
			// every first two bytes, at a party of two and of three
			for n := 2; n <= 3; n++ {
				total := 65536
				if !r.Thorough {
					total = 1024
				}
				r.Parallel(total+64, func(x int) {
					if x >= total { // large ones
						x = 65536 - (x - total) - 1
					}
					if x < n && x != 0 {
						return // a party: it may take the place of the real one
					}
					net := newNet(n, &mc.Chooser{}, kinds[x%4])
					net.Patience, net.PatientWriters = 10*time.Millisecond, true
					s := &session{r: r, n: n, rounds: 1, stop: true, extra: map[int]func(){}, what: fmt.Sprintf("introduction %d", x), net: net}
					s.extra[n] = s.intruder(n, 0, stray{"", func(int, int) []byte { return u16(x) }, "", false})
					s.run()
					s.completed()
					s.closes()
				})
			}
		})
	})
}
