package arith

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"runtime"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

type tamperer func(round, from, to int, d []byte) ([]byte, bool)

// session is a protocol whose messages are to be altered. begin prepares it among honest
// parties; what it returns runs it and may be used once.
type session struct {
	name  string
	begin func(e *env, x *exec) func(tamper tamperer) []error
	// format is that of the messages of a round which all parties must be able to decode; nil
	// for the others.
	format func(e *env, n, round int) func(b []byte) error
	after  bool // the parties can be asked to do it again
}

// points tells whether b begins with what the grammar says, all points being on the curve.
func (e *env) points(grammar string) func(b []byte) error {
	return func(b []byte) error {
		ps, err := cut(grammar, b)
		if err != nil {
			return err
		}
		for _, p := range ps {
			raw := p.raw
			if p.kind == 'N' {
				raw = raw[8+binary.BigEndian.Uint32(raw)+binary.BigEndian.Uint32(raw[4:]):]
			}
			for len(raw) > 0 {
				var a lab.Aff
				if a, raw, err = lab.Unwire(raw); err != nil {
					return err
				}
				if !e.On(a) {
					return fmt.Errorf("not on the curve")
				}
			}
		}
		return nil
	}
}

func lengths(b []byte) error {
	_, err := committed("", b)
	return err
}

func (e *env) reshareFormat(n, t, round int) func(b []byte) error {
	switch round {
	case 0:
		return e.points("N")
	case 1:
		return lengths
	case 2:
		return e.points(rep("C", t) + rep("N", t+1))
	case 3:
		return e.points(rep("C", n) + rep("N", n))
	case 4:
		f := e.resharing(n, t)
		return func(b []byte) error { _, err := f(4, b); return err }
	}
	return e.points("NC")
}

func (e *env) jointFormat(round int) func(b []byte) error {
	if round%2 == 0 {
		return lengths
	}
	return e.points("P")
}

func none(*env, int, int) func([]byte) error { return nil }

func sessions() []session {
	sharing := func(x *exec, t int) *shared { return x.reshare(x.gen("a"), t) }
	all := func(x *exec, tamper tamperer, f func(pid int, srv psync.Server) error) []error {
		errs := make([]error, x.n)
		x.run(tamper, func(pid int, srv psync.Server) { errs[pid] = f(pid, srv) })
		return errs
	}
	ss := []session{
		{"secret generation", func(e *env, x *exec) func(tamperer) []error {
			return func(t tamperer) []error {
				return all(x, t, func(pid int, srv psync.Server) error {
					_, err := arith.Gen("a", srv, x.e.egf, uint16(pid), uint16(x.n))
					return err
				})
			}
		}, func(e *env, n, round int) func([]byte) error { return e.points("C") }, false},
		{"key generation", func(e *env, x *exec) func(tamperer) []error {
			return func(t tamperer) []error {
				return all(x, t, func(pid int, srv psync.Server) error {
					_, err := arith.GenExpReveal(uint16(pid), "a", srv, uint16(x.n), e.g)
					return err
				})
			}
		}, func(e *env, n, round int) func([]byte) error { return e.jointFormat(round) }, false},
		{"check of a pair", func(e *env, x *exec) func(tamperer) []error {
			shares := make([]*big.Int, x.n)
			sum := B(0)
			for i := range shares {
				shares[i] = B(int64(2 + i))
				sum.Add(sum, shares[i])
			}
			keys := x.keyed(shares)
			return func(t tamperer) []error { return x.dh(keys, B(3), mul(B(3), sum), t) }
		}, func(e *env, n, round int) func([]byte) error {
			switch round {
			case 0:
				return lengths
			case 1:
				return e.points("PP")
			}
			return e.points("P")
		}, false},
		{"private multiplication", func(e *env, x *exec) func(tamperer) []error {
			k := e.ring(x.n, 0)
			return func(t tamperer) []error {
				return all(x, t, func(pid int, srv psync.Server) error {
					_, err := arith.PrivMult(B(int64(2+pid)), B(int64(3+pid)), pid, x.n, srv, k.priv[pid], k.pub[pid], k.pub)
					return err
				})
			}
		}, none, false},
		{"multiplication", func(e *env, x *exec) func(tamperer) []error {
			k := e.ring(x.n, 0)
			a, b := x.gen("a"), x.gen("b")
			return func(t tamperer) []error {
				return all(x, t, func(pid int, _ psync.Server) error {
					_, err := arith.Mult(a.ads[pid], b.ads[pid], "c", k.priv[pid], k.pub[pid], k.pub)
					return err
				})
			}
		}, func(e *env, n, round int) func([]byte) error {
			if round < 2 {
				return nil
			}
			return e.points("C")
		}, false},
	}
	for t := 1; t <= 3; t++ {
		ss = append(ss, session{fmt.Sprintf("resharing with threshold %d", t), func(e *env, x *exec) func(tamperer) []error {
			s := x.gen("a")
			return func(tm tamperer) []error {
				return all(x, tm, func(pid int, _ psync.Server) error { _, err := s.ads[pid].Reshare(uint16(t)); return err })
			}
		}, func(e *env, n, round int) func([]byte) error { return e.reshareFormat(n, t, round) }, t == 1},
			session{fmt.Sprintf("revealing with threshold %d", t), func(e *env, x *exec) func(tamperer) []error {
				s := sharing(x, t)
				return func(tm tamperer) []error {
					return all(x, tm, func(pid int, _ psync.Server) error { _, err := s.tds[pid].Reveal(); return err })
				}
			}, none, true},
			session{fmt.Sprintf("exponent with threshold %d", t), func(e *env, x *exec) func(tamperer) []error {
				s := sharing(x, t)
				return func(tm tamperer) []error {
					return all(x, tm, func(pid int, _ psync.Server) error { _, err := s.tds[pid].Exp(); return err })
				}
			}, func(e *env, n, round int) func([]byte) error {
				if t < n {
					return nil
				}
				return e.points("P")
			}, true},
			session{fmt.Sprintf("presigning with threshold %d", t), func(e *env, x *exec) func(tamperer) []error {
				c := x.start()
				return func(tm tamperer) []error {
					return all(x, tm, func(pid int, _ psync.Server) error { return c.ps[pid].Presign(uint16(t)) })
				}
			}, func(e *env, n, round int) func([]byte) error {
				if round < 4 {
					return e.points("C")
				}
				return e.reshareFormat(n, t, (round-4)%6)
			}, true},
			session{fmt.Sprintf("signing with threshold %d", t), func(e *env, x *exec) func(tamperer) []error {
				c := x.start()
				c.run(nil, func(pid int, _ psync.Server) { c.ps[pid].Presign(uint16(t)) })
				return func(tm tamperer) []error {
					return all(x, tm, func(pid int, _ psync.Server) error { _, err := c.ps[pid].Sign(B(4)); return err })
				}
			}, func(e *env, n, round int) func([]byte) error {
				if t < n || round > 0 {
					return nil
				}
				return e.points("P")
			}, false})
	}
	ss = append(ss, session{"initialisation", func(e *env, x *exec) func(tamperer) []error {
		return func(t tamperer) []error {
			return all(x, t, func(pid int, srv psync.Server) error {
				_, err := tecdsa.Init(uint16(pid), uint16(x.n), srv)
				return err
			})
		}
	}, func(e *env, n, round int) func([]byte) error { return e.jointFormat(round) }, false})
	return ss
}

// opens is the round of the commitments that the messages of a round open, or -1.
func (s session) opens(round int) int {
	switch {
	case s.name == "key generation" || s.name == "initialisation":
		if round%2 == 1 {
			return round - 1
		}
	case s.name == "check of a pair":
		if round == 1 {
			return 0
		}
	case s.name[:4] == "resh":
		if round == 2 {
			return 1
		}
	case s.name[:4] == "pres":
		if round >= 4 && (round-4)%6 == 2 {
			return round - 1
		}
	}
	return -1
}

// commitments are those a party could have sent for an opening b; orig is one for an honest opening.
func commitments(orig, b []byte) (cs [][]byte) {
	put := func(d, z []byte) {
		c := binary.LittleEndian.AppendUint32(nil, uint32(len(d)))
		c = binary.LittleEndian.AppendUint32(c, uint32(len(z)))
		c = append(append(c, d...), z...)
		for _, o := range cs {
			if bytes.Equal(o, c) {
				return
			}
		}
		cs = append(cs, c)
	}
	put(b, nil)
	if len(orig) >= 8 {
		if d := int(binary.LittleEndian.Uint32(orig)); d <= len(b) {
			put(b[:d], b[d:])
		}
	}
	put(b[len(b)/2:], nil)
	put(append(append([]byte(nil), b[len(b)/2:]...), b[:len(b)/2]...), nil)
	return
}

// threshold is the one in the name of a session.
func (s session) threshold() (t int) {
	fmt.Sscanf(s.name[len(s.name)-1:], "%d", &t)
	return
}

// hostile are the messages put in the place of b.
func hostile(b []byte, level int, others [][]byte) (es []edit) {
	add := func(name string, d []byte) { es = append(es, edit{name, d}) }
	if level < 0 {
		// few: cuts, every byte, lengths
		for _, l := range []int{0, 1, 3, 4, 8, len(b) / 2, len(b) - 1} {
			if l >= 0 && l < len(b) {
				add(fmt.Sprintf("cut to %d bytes", l), b[:l])
			}
		}
		for i := range b {
			if i > 16 && i < len(b)-4 && i%5 != 0 {
				continue
			}
			c := append([]byte(nil), b...)
			c[i] ^= 0xff
			add(fmt.Sprintf("byte %d xor ff", i), c)
		}
		for i := 0; i+4 <= len(b) && i < 20; i += 4 {
			c := append([]byte(nil), b...)
			binary.BigEndian.PutUint32(c[i:], 0xffffffff)
			add(fmt.Sprintf("bytes %d to %d set to ffffffff", i, i+3), c)
		}
		for i := range others {
			if !bytes.Equal(others[i], b) {
				add("another message", others[i])
			}
		}
		add("zeros", make([]byte, 64))
		add("ones", bytes.Repeat([]byte{0xff}, 64))
		add("more after it", append(append([]byte(nil), b...), bytes.Repeat([]byte{1}, 8)...))
		return
	}
	for l := 0; l < len(b); l++ {
		if level > 0 || l < 12 || l%3 == 0 || l > len(b)-4 {
			add(fmt.Sprintf("cut to %d bytes", l), b[:l])
		}
	}
	masks := []byte{0xff}
	if level > 0 {
		masks = []byte{0xff, 0x80, 1, 2}
	}
	for i := range b {
		for _, m := range masks {
			c := append([]byte(nil), b...)
			c[i] ^= m
			add(fmt.Sprintf("byte %d xor %02x", i, m), c)
		}
	}
	for i := 0; i+4 <= len(b); i++ {
		vals := []uint32{0, 0xffffffff}
		if level > 0 {
			vals = []uint32{0, 0xffffffff, 0x7fffffff, 0x80000000, 1, 0x01000000, 65, 0x41000000}
		}
		for _, v := range vals {
			c := append([]byte(nil), b...)
			binary.BigEndian.PutUint32(c[i:], v)
			if !bytes.Equal(c, b) {
				add(fmt.Sprintf("bytes %d to %d set to %08x", i, i+3, v), c)
			}
		}
	}
	for i := range others {
		if !bytes.Equal(others[i], b) {
			add("another message", others[i])
		}
	}
	for _, l := range []int{1, 4, 8, 64, 1000} {
		add("zeros", make([]byte, l))
		add("ones", bytes.Repeat([]byte{0xff}, l))
		add("more after it", append(append([]byte(nil), b...), bytes.Repeat([]byte{1}, l)...))
		add("twos", bytes.Repeat([]byte{0, 0, 0, 1}, l))
	}
	add("large", bytes.Repeat([]byte{0x5a}, 70000))
	return
}

func TestT03(t *testing.T) {
	check(t, "T03", func(r *mc.Run) {
		attack := func(e *env, s session, n, from, victim, seed, level int, memory bool) {
			begin := func(what any) (*exec, func(tamperer) []error) {
				x := e.exec(r, n, nil, seed, what)
				return x, s.begin(e, x)
			}
			x, run := begin(s.name + ", untouched")
			x.ok(run(nil), s.name)
			net := x.net
			var others [][]byte
			for round := 0; round < net.Rounds[from]; round++ {
				for p := 0; p < n; p++ {
					if d := net.By(p, round).Data[(p+1)%n]; (round*n+p)%max(1, net.Rounds[from]*n/8) == 0 {
						others = append(others, d)
					}
				}
			}
			for round := 0; round < net.Rounds[from]; round++ {
				to := victim
				if to < 0 {
					to = (from + 1) % n
				}
				var f func([]byte) error
				if s.format != nil {
					f = s.format(e, n, round)
				}
				orig := net.By(from, round).Data[to]
				if f != nil && f(orig) != nil {
					r.Skip("%s: the message of round %d does not look as documented: %x", s.name, round, orig)
					f = nil
				}
				es := hostile(orig, level, others)
				cs := make([][]byte, len(es))
				commit := s.opens(round)
				if commit >= 0 && !memory {
					// the party may have committed to what it opens
					own := net.By(from, commit).Data[to]
					for _, h := range hostile(orig, max(-1, level-1), others) {
						for _, c := range commitments(own, h.data) {
							es = append(es, edit{h.name + ", as committed to", h.data})
							cs = append(cs, c)
						}
					}
				}
				one := func(i int) {
					what := map[string]any{"session": s.name, "round": round, "from": from, "to": victim, "alteration": es[i].name, "message": fmt.Sprintf("%.300x", es[i].data)}
					if cs[i] != nil {
						what["commitment"] = fmt.Sprintf("%.300x", cs[i])
					}
					x, run := begin(what)
					errs := run(func(rd, fr, to int, d []byte) ([]byte, bool) {
						if cs[i] != nil && rd == commit && fr == from && (victim < 0 || to == victim) {
							return append([]byte(nil), cs[i]...), true
						}
						if rd == round && fr == from && (victim < 0 || to == victim) {
							return append([]byte(nil), es[i].data...), true
						}
						return d, true
					})
					r.Step(1)
					r.Trace(1)
					bad := f != nil && f(es[i].data) != nil
					r.Outcome(s.name, map[bool]string{true: "undecodable", false: "altered"}[bad])
					for p := range errs {
						if bad && p != from && (victim < 0 || p == victim) && errs[p] == nil {
							x.fail("%s succeeds at party %d though the message of party %d in round %d can not be decoded (%s)", s.name, p, from, round, es[i].name)
						}
					}
					if s.after && !memory {
						// whatever happened, it can be done again
						x.ok(run(nil), s.name+" after an altered one")
					}
				}
				if !memory {
					r.Parallel(len(es), one)
					r.State(len(es))
					continue
				}
				for i := range es {
					var a, b runtime.MemStats
					runtime.ReadMemStats(&a)
					one(i)
					runtime.ReadMemStats(&b)
					if got := b.TotalAlloc - a.TotalAlloc; got > 48<<20 {
						x.fail("%s: a message of %d bytes in round %d (%s) makes the parties allocate %d bytes", s.name, len(es[i].data), round, es[i].name, got)
					}
				}
				r.State(len(es))
			}
		}
		// long are the sessions with many messages
		long := func(s session) bool { return s.name[:4] == "resh" || s.name[:4] == "pres" }
		lev := func(s session) int {
			switch {
			case r.Thorough:
				return 1
			case s.name[:4] == "pres":
				return -1
			case long(s):
				return 0
			}
			return 1
		}
		every := func(e *env, n int, f func(s session)) {
			for _, s := range sessions() {
				if s.threshold() <= n {
					f(s)
				}
			}
		}
		tiny(r, 7, "memory", func(e *env) {
			every(e, 2, func(s session) {
				if s.threshold() != 1 {
					attack(e, s, 2, 0, -1, 3, 0, true)
				}
			})
		})
		if r.Failed() {
			return // what follows would take all the memory there is
		}
		tiny(r, 7, "two parties", func(e *env) {
			every(e, 2, func(s session) {
				for from := 0; from < 2; from++ {
					attack(e, s, 2, from, -1, 3, lev(s), false)
				}
			})
		})
		tiny(r, 199, "two parties", func(e *env) {
			every(e, 2, func(s session) { attack(e, s, 2, 1, -1, 5, lev(s)-1+map[bool]int{true: 1}[r.Thorough], false) })
		})
		tiny(r, 7, "three parties", func(e *env) {
			every(e, 3, func(s session) {
				for from := 0; from < 3; from++ {
					for victim := -1; victim < 3; victim++ {
						if victim == from || !r.Thorough && from+victim != 1 {
							continue
						}
						attack(e, s, 3, from, victim, 4, map[bool]int{true: 1, false: lev(s) - 1}[r.Thorough], false)
					}
				}
			})
		})
		real(r, "two parties", func(e *env) {
			every(e, 2, func(s session) {
				if s.name[:4] == "pres" && !r.Thorough {
					return
				}
				attack(e, s, 2, 1, -1, 5, map[bool]int{true: 0, false: min(0, lev(s)) - 1}[r.Thorough], false)
			})
		})
	})
}
