package syncchk

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"verif/harness/mc"
	"verif/harness/simnet"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// kinds of networks: whether a write waits for its reader, and a dial for its listener.
var kinds = [][2]bool{{false, false}, {true, true}, {true, false}, {false, true}}

func newNet(n int, ch *mc.Chooser, kind [2]bool) *simnet.Net {
	t := simnet.New(n, ch)
	t.Rendezvous, t.Meet = kind[0], kind[1]
	return t
}

func TestS01(t *testing.T) {
	check(t, "S01", func(r *mc.Run) {
		deep := func(quick, thorough int) int {
			if r.Thorough {
				return thorough
			}
			return quick
		}
		individual := func(from, round int) bool { return (from+round)%2 == 1 }
		schedules := func(n, rounds, bound int, kind [2]bool, ticks ...time.Duration) {
			r.ExploreP(bound, func(ch *mc.Chooser) {
				net := newNet(n, ch, kind)
				net.Ticks = ticks
				// what happens before the first round is the subject of S04
				net.Order = func(o *simnet.Op) bool { return net.Mark[o.By] != 0 || o.Kind == simnet.Enter }
				s := &session{r: r, net: net, n: n, rounds: rounds, each: individual, settle: true, what: "schedule"}
				s.run()
				s.completed()
			})
		}
		r.Part("schedules of two parties", func() {
			for i, k := range kinds[:2] {
				schedules(2, 3, deep(2, 3), k, 2*time.Millisecond)
				schedules(2, 2, deep(3-i, 4-i), k)
			}
		})
		r.Part("schedules of three parties", func() {
			for _, k := range kinds[:2] {
				schedules(3, deep(2, 3), deep(1, 2), k, 2*time.Millisecond)
			}
			schedules(3, 1, deep(2, 3), kinds[0])
		})
		r.Part("schedules of four parties", func() { schedules(4, 1, deep(1, 2), kinds[0]) })
		r.Part("segments", func() {
			for n := 2; n <= 3; n++ {
				r.ExploreP(deep(4-n, 5-n), func(ch *mc.Chooser) {
					net := newNet(n, ch, kinds[0])
					net.Quiet, net.Partial = true, true
					s := &session{r: r, net: net, n: n, rounds: 2, each: individual, settle: true, what: "streams in pieces"}
					s.run()
					s.completed()
				})
				for _, k := range kinds {
					net := newNet(n, &mc.Chooser{}, k)
					net.Bytewise = true
					s := &session{r: r, net: net, n: n, rounds: 3, each: individual, what: "streams byte by byte"}
					s.run()
					s.completed()
				}
			}
		})
		r.Part("late parties", func() {
			// every combination of delays before coming up, and of the time before entering a round
			ds := []time.Duration{0, 300 * time.Microsecond, 5 * time.Millisecond, 40 * time.Millisecond}
			for n := 2; n <= deep(3, 4); n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(ds)
				}
				r.Parallel(total*len(kinds), func(i int) {
					k := kinds[i%len(kinds)]
					i /= len(kinds)
					net := newNet(n, &mc.Chooser{}, k)
					s := &session{r: r, net: net, n: n, rounds: 3, each: individual, what: fmt.Sprintf("delays %d", i)}
					s.late = func(pid int) time.Duration {
						j := i
						for ; pid > 0; pid-- {
							j /= len(ds)
						}
						return ds[j%len(ds)]
					}
					s.run()
					s.completed()
				})
			}
		})
		r.Part("large committees", func() {
			ns := []int{5, 9, 17}
			if r.Thorough {
				ns = append(ns, 33, 49)
			}
			r.Parallel(len(ns), func(i int) {
				for _, k := range kinds[:2] {
					net := newNet(ns[i], &mc.Chooser{}, k)
					net.Limit = 40 * ns[i] * ns[i]
					s := &session{r: r, net: net, n: ns[i], rounds: 2, each: individual, settle: true, what: "large committee"}
					s.run()
					s.completed()
				}
			})
		})
		r.Part("large numbers", func() {
			if documented(r) {
				highNumbers(r)
			}
		})
		r.Part("many rounds", func() {
			for _, n := range []int{300, deep(3000, 66000)} {
				net := newNet(2, &mc.Chooser{}, kinds[0])
				net.Limit = 40 * n
				s := &session{r: r, net: net, n: 2, rounds: n, each: individual, settle: true, what: "many rounds"}
				s.run()
				s.completed()
			}
		})
		r.Part("large payloads", func() {
			for _, l := range []int{1 << 20, 3<<20 + 1, deep(17, 60)<<20 - 11} {
				net := newNet(2, &mc.Chooser{}, kinds[0])
				s := &session{r: r, net: net, n: 2, rounds: 2, settle: true, each: individual, what: fmt.Sprintf("%d bytes", l)}
				s.payload = func(from, round, to int) []byte { return bytes.Repeat([]byte{byte(from), byte(round), 7}, l/3+1)[:l] }
				s.run()
				s.completed()
			}
		})
		r.Part("payloads", func() {
			lens := []int{0, 1, 2, 7, 8, 9, 10, 11, 17, 255, 256, 4085, 4086, 4087, 4096, 65535, 65536, 70001}
			if r.Thorough {
				for l := 3; l < 4200; l += 7 {
					lens = append(lens, l)
				}
				lens = append(lens, 1<<20, 1<<22)
			}
			type job struct{ n, a, b, style int }
			var jobs []job
			for n := 1; n <= 4; n++ {
				for a := range lens {
					for style := 0; style < 4; style++ {
						jobs = append(jobs, job{n, a, (a*7 + 3) % len(lens), style})
					}
				}
			}
			for a := 0; a < 10; a++ {
				for b := 0; b < 10; b++ {
					for style := 0; style < 4; style++ {
						jobs = append(jobs, job{2, a, b, style})
					}
				}
			}
			r.Parallel(len(jobs), func(i int) {
				j := jobs[i]
				net := newNet(j.n, &mc.Chooser{}, kinds[i%4])
				s := &session{r: r, net: net, n: j.n, rounds: 3, what: fmt.Sprintf("lengths %d and %d, style %d", lens[j.a], lens[j.b], j.style)}
				s.each = func(from, round int) bool { return (j.style>>(from%2))&1 == 1 }
				s.payload = func(from, round, to int) []byte {
					l := lens[j.a]
					if (from+round+to)%2 == 1 {
						l = lens[j.b]
					}
					b := bytes.Repeat([]byte{byte(16*from + round), byte(to), 0xff, 0}, l/4+1)[:l]
					if l == 0 && round == 1 {
						return nil
					}
					return b
				}
				s.run()
				s.completed()
				r.Outcome("lengths", fmt.Sprint(lens[j.a]))
			})
		})
	})
}

// highNumbers runs two real parties, whose numbers differ by 256, in a committee of 301. The
// others are scripted.
func highNumbers(r *mc.Run) {
	const n, rounds = 301, 2
	real := map[int]bool{44: true, 300: true}
	net := newNet(n, &mc.Chooser{}, kinds[0])
	show := func() any { return map[string]any{"parties": n, "real parties": "44 and 300"} }
	res := map[int][]*result{}
	mains := map[int]func(){}
	for p := 0; p < n; p++ {
		if !real[p] {
			mains[p] = func() {
				for v := range real {
					c, err := net.Server(p).Dial(uint16(v))
					if err != nil {
						r.Bug("%v", err)
					}
					for _, b := range [][]byte{introduction(p), frame(p, 0, defaultPayload(p, 0, v)), frame(p, 1, defaultPayload(p, 1, v))} {
						c.Write(b)
						c.Flush()
					}
				}
				for range real {
					net.Server(p).Listen()
				}
			}
			continue
		}
		for k := 0; k < rounds; k++ {
			res[p] = append(res[p], &result{got: map[uint16][][]byte{}})
		}
		mains[p] = func() {
			srv := sync.NewServer(uint16(p), n, time.Now().Add(lead), 400*time.Millisecond, net.Server(p))
			srv.Start()
			for k, x := range res[p] {
				toSend := make([][]byte, n)
				for to := range toSend {
					toSend[to] = defaultPayload(p, k, to)
				}
				x.err = srv.Round(toSend, func(from uint16, d []byte) error {
					x.got[from] = append(x.got[from], append([]byte{}, d...))
					x.order = append(x.order, from)
					return nil
				})
				x.done = true
			}
		}
	}
	for p, o := range net.Run(tt, mains) {
		if o.Panic != nil && real[p] {
			r.Fail(show(), "party %d panics: %v", p, o.Panic)
		}
	}
	for p := range real {
		for k, x := range res[p] {
			if !x.done || x.err != nil {
				r.Fail(show(), "party %d does not complete round %d: %v", p, k, x.err)
			}
			if len(x.order) != n-1 {
				r.Fail(show(), "party %d is handed the data of %d parties", p, len(x.order))
			}
			for i, from := range x.order {
				if i > 0 && from <= x.order[i-1] {
					r.Fail(show(), "party %d is handed the data of party %d after that of %d", p, from, x.order[i-1])
				}
				if want := defaultPayload(int(from), k, p); len(x.got[from]) != 1 || !bytes.Equal(x.got[from][0], want) {
					r.Fail(show(), "party %d is handed %q as the data of party %d in round %d", p, x.got[from], from, k)
				}
				r.Step(1)
			}
		}
		for _, l := range net.Links {
			if l.From != p {
				continue
			}
			got := []byte{}
			for _, b := range l.Pushed[0] {
				got = append(got, b.Data...)
			}
			want := append(introduction(p), append(frame(p, 0, defaultPayload(p, 0, l.To)), frame(p, 1, defaultPayload(p, 1, l.To))...)...)
			if !bytes.Equal(got, want) {
				r.Fail(show(), "party %d sends %q to party %d, not %q", p, got, l.To, want)
			}
		}
	}
	r.Trace(1)
	r.State(net.Steps)
}
