package syncchk

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"testing"
	"time"

	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

func introduction(pid int) []byte { return binary.LittleEndian.AppendUint16(nil, uint16(pid)) }

// frame is what a party sends in a round.
func frame(pid, round int, payload []byte) []byte {
	b := binary.LittleEndian.AppendUint64(nil, uint64(10+len(payload)))
	b = binary.LittleEndian.AppendUint16(b, uint16(pid))
	b = binary.LittleEndian.AppendUint64(b, uint64(round))
	return append(b, payload...)
}

// documented tells whether real parties send what frame and introduction say.
func documented(r *mc.Run) bool {
	net := newNet(2, &mc.Chooser{}, kinds[0])
	s := &session{r: r, net: net, n: 2, rounds: 2, settle: true, what: "wire format"}
	s.run()
	s.completed()
	for _, l := range net.Links {
		var got []byte
		for _, p := range l.Pushed[0] {
			got = append(got, p.Data...)
		}
		want := append(introduction(l.From), frame(l.From, 0, s.toAll(l.From, 0))...)
		want = append(want, frame(l.From, 1, s.toAll(l.From, 1))...)
		if !bytes.Equal(got, want) {
			r.Skip("parties send %x, not %x: frames of another format are not altered", got, want)
			return false
		}
	}
	return true
}

// ending is what a misbehaving peer does after its bytes.
type ending int

const (
	silence ending = iota
	closing
	further
)

// misbehave runs one real party among scripted peers, one of which sends the given bytes in
// the given round.
type misbehave struct {
	r                     *mc.Run
	n, victim, bad, round int
	bytes                 []byte
	valid                 []byte // what they amount to in that round, nil if nothing
	end                   ending
	chunk                 bool
	what                  string
	memory                bool
}

func (m *misbehave) run() {
	const rounds = misbehaveRounds
	r := m.r
	net := newNet(m.n, &mc.Chooser{}, kinds[0])
	net.Patience = 100 * time.Millisecond
	net.Bytewise = m.chunk
	show := func() any {
		return map[string]any{"parties": m.n, "receiver": m.victim, "peer": m.bad, "round": m.round, "bytes": fmt.Sprintf("%.200x", m.bytes), "then": []string{"silence", "the link ends", "further frames"}[m.end], "case": m.what, "history": net.Trace}
	}
	fail := func(format string, args ...any) { r.Fail(show(), format, args...) }
	payload := misbehavePayload
	m.valid = refer(m.stream(), m.bad, m.round)
	res := make([]*result, rounds)
	mains := map[int]func(){}
	for q := 0; q < m.n; q++ {
		if q == m.victim {
			continue
		}
		mains[q] = func() {
			srv := net.Server(q)
			c, err := srv.Dial(uint16(m.victim))
			if err != nil {
				r.Bug("%v", err)
			}
			send := func(b []byte) {
				c.Write(b)
				c.Flush()
			}
			send(introduction(q))
			srv.Listen()
			for k := 0; k < rounds; k++ {
				if q != m.bad || k != m.round {
					send(frame(q, k, payload(q, k)))
					continue
				}
				send(m.bytes)
				if m.end == silence {
					return
				}
				if m.end == closing {
					c.Close()
					return
				}
			}
		}
	}
	mains[m.victim] = func() {
		start := time.Now().Add(lead)
		srv := sync.NewServer(uint16(m.victim), uint16(m.n), start, 400*time.Millisecond, net.Server(m.victim))
		srv.Start()
		for k := range res {
			x := &result{got: map[uint16][][]byte{}}
			res[k] = x
			x.err = srv.Round([][]byte{payload(m.victim, k)}, func(from uint16, d []byte) error {
				x.got[from] = append(x.got[from], append([]byte{}, d...))
				return nil
			})
			x.done = true
		}
	}
	done := func() {}
	if !m.memory {
		done = r.Running(map[string]any{"receiver": m.victim, "peer": m.bad, "bytes": fmt.Sprintf("%.100x", m.bytes), "case": m.what})
	}
	out := net.Run(tt, mains)
	done()
	if o := out[m.victim]; o.Panic != nil {
		r.Try(show(), func() {
			if mc.UnderTest(o.Stack) {
				panic(mc.Broken("panic: %v\n%s", o.Panic, o.Stack))
			}
			panic(o.Panic)
		})
	}
	if net.Stuck != nil {
		fail("the party does not finish; waiting: %v", net.Stuck)
	}
	for k, x := range res {
		if !x.done {
			fail("round %d does not end", k)
		}
		miss := map[int]bool{}
		for _, q := range missing(x.err) {
			if q < 0 || q >= m.n || q == m.victim || miss[q] {
				fail("the error of round %d names %v", k, missing(x.err))
			}
			miss[q] = true
		}
		for q := 0; q < m.n; q++ {
			if q == m.victim {
				continue
			}
			got := x.got[uint16(q)]
			want := payload(q, k)
			if q == m.bad && k == m.round {
				want = m.valid
			}
			if len(got) > 1 {
				fail("in round %d data of party %d is handed over twice", k, q)
			}
			r.Step(1)
			switch {
			case q != m.bad || k < m.round || k == m.round && m.valid != nil:
				if len(got) != 1 || !bytes.Equal(got[0], want) {
					fail("in round %d party %d sent %q and %q is handed over: %v", k, q, want, got, x.err)
				}
				if miss[q] {
					fail("round %d blames party %d, who behaved: %v", k, q, x.err)
				}
			case k == m.round:
				if len(got) > 0 {
					fail("in round %d %q is handed over as the data of party %d", k, got, q)
				}
				if x.err == nil || !miss[q] {
					fail("in round %d party %d misbehaves and the error is %v, naming %v", k, q, x.err, missing(x.err))
				}
			default:
				// the link may be out of step by now; if it delivers, then what was sent
				if len(got) == 1 && !bytes.Contains(m.stream(), frame(q, k, got[0])) {
					fail("after it misbehaved in round %d, %q is handed over as the data of party %d in round %d", m.round, got, q, k)
				}
				if (len(got) == 1) == miss[q] || (len(got) == 0) && x.err == nil {
					fail("in round %d the error is %v", k, x.err)
				}
			}
		}
	}
	r.Trace(1)
	r.State(1)
}

const misbehaveRounds = 3

func misbehavePayload(from, round int) []byte { return []byte(fmt.Sprintf("<%d.%d>", from, round)) }

// stream is all the misbehaving peer sends from the round on.
func (m *misbehave) stream() []byte {
	b := append([]byte{}, m.bytes...)
	if m.end == further {
		for k := m.round + 1; k < misbehaveRounds; k++ {
			b = append(b, frame(m.bad, k, misbehavePayload(m.bad, k))...)
		}
	}
	return b
}

// refer is the meaning of bytes on a link in a round: the payload, or nil.
func refer(b []byte, pid, round int) []byte {
	if len(b) < 8 {
		return nil
	}
	l := binary.LittleEndian.Uint64(b)
	if l < 10 || l > 1<<26 || l > uint64(len(b)-8) {
		return nil
	}
	f := b[8 : 8+l]
	if int(binary.LittleEndian.Uint16(f)) != pid || binary.LittleEndian.Uint64(f[2:]) != uint64(round) {
		return nil
	}
	return append([]byte{}, f[10:]...)
}

func TestS03(t *testing.T) {
	check(t, "S03", func(r *mc.Run) {
		type place struct{ n, victim, bad, round int }
		places := []place{{2, 0, 1, 0}, {2, 1, 0, 1}, {3, 1, 0, 0}, {3, 1, 2, 1}, {3, 0, 2, 0}}
		if r.Thorough {
			places = nil
			for n := 2; n <= 4; n++ {
				for v := 0; v < n; v++ {
					for b := 0; b < n; b++ {
						for k := 0; k < 3; k++ {
							if b != v {
								places = append(places, place{n, v, b, k})
							}
						}
					}
				}
			}
		}
		type job struct {
			place
			b    []byte
			what string
			end  ending
		}
		run := func(jobs []job) {
			r.Parallel(len(jobs), func(i int) {
				j := jobs[i]
				valid := refer(j.b, j.bad, j.round)
				(&misbehave{r: r, n: j.n, victim: j.victim, bad: j.bad, round: j.round, bytes: j.b, valid: valid, end: j.end, chunk: i%7 == 3, what: j.what}).run()
				r.Outcome("frames", fmt.Sprintf("%s (valid: %v)", j.what, valid != nil))
			})
		}
		ok := true
		r.Part("format", func() { ok = documented(r) })
		endings := []ending{silence, closing, further}
		lengths := []uint64{1<<26 - 1, 1 << 26, 1<<26 + 1, 1 << 31, 1<<31 + 10, 1 << 32, 1<<32 + 10, 1<<32 + 15, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 15, 1<<64 - 16, 1<<64 - 10, 1<<64 - 8, 1<<64 - 1}
		r.Part("lengths", func() {
			var jobs []job
			for _, p := range places {
				good := frame(p.bad, p.round, []byte("pay"))
				for _, end := range endings {
					ls := append([]uint64{}, lengths...)
					for l := uint64(0); l < 64; l++ {
						ls = append(ls, l)
					}
					for _, l := range ls {
						b := binary.LittleEndian.AppendUint64(nil, l)
						jobs = append(jobs, job{p, append(b, good[8:]...), "length", end})
						jobs = append(jobs, job{p, b, "length and nothing", end})
						big := binary.BigEndian.AppendUint64(nil, l)
						jobs = append(jobs, job{p, append(big, good[8:]...), "length reversed", end})
					}
				}
			}
			if ok {
				run(jobs)
			}
		})
		r.Part("senders and rounds", func() {
			var jobs []job
			for _, p := range places {
				for _, end := range endings {
					for _, id := range []int{0, 1, 2, 3, 4, 5, 254, 255, 256, 257, 512, p.bad<<8 | p.bad, p.bad << 8, p.bad | 1<<8, 32767, 32768, 65535} {
						jobs = append(jobs, job{p, frame(id, p.round, []byte("pay")), "sender", end})
					}
					for _, rd := range []uint64{0, 1, 2, 3, 4, 256, 257, 1 << 16, 1<<16 + 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 33, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, uint64(p.round) | 1<<8, uint64(p.round) | 1<<63, uint64(p.round) << 56} {
						f := frame(p.bad, 0, []byte("pay"))
						binary.LittleEndian.PutUint64(f[10:], rd)
						jobs = append(jobs, job{p, f, "round", end})
					}
				}
			}
			if ok {
				run(jobs)
			}
		})
		r.Part("truncations and flips", func() {
			var jobs []job
			for _, p := range places {
				good := frame(p.bad, p.round, []byte("pay"))
				for _, end := range endings {
					for l := 0; l < len(good); l++ {
						jobs = append(jobs, job{p, good[:l], "truncated", end})
					}
					for i := range good {
						for _, m := range []byte{1, 2, 4, 8, 16, 32, 64, 128, 255} {
							b := append([]byte{}, good...)
							b[i] ^= m
							jobs = append(jobs, job{p, b, "changed", end})
						}
					}
					for x := 0; x < 256; x += map[bool]int{true: 1, false: 5}[r.Thorough] {
						for _, l := range []int{1, 7, 8, 9, 17, 18, 19, 30} {
							jobs = append(jobs, job{p, bytes.Repeat([]byte{byte(x)}, l), "garbage", end})
						}
					}
				}
			}
			if ok {
				run(jobs)
			}
		})
		r.Part("memory", func() {
			if !ok {
				return
			}
			p := places[0]
			for _, end := range []ending{silence, closing} {
				for _, l := range append(lengths, 1<<20, 1<<22, 1<<24, 1<<25) {
					for _, rest := range []int{0, 5, 13, 100} {
						b := append(binary.LittleEndian.AppendUint64(nil, l), make([]byte, rest)...)
						var before, after runtime.MemStats
						runtime.ReadMemStats(&before)
						m := &misbehave{r: r, n: p.n, victim: p.victim, bad: p.bad, round: p.round, bytes: b, end: end, what: "announced length", memory: true}
						m.run()
						runtime.ReadMemStats(&after)
						if d := after.TotalAlloc - before.TotalAlloc; d > 600<<10 {
							r.Fail(map[string]any{"announced": l, "sent": rest}, "a peer that announces %d bytes and sends %d makes the party allocate %d bytes", l, rest, d)
						}
					}
				}
			}
		})
	})
}
