package arith

import (
	"fmt"
	"testing"
	"time"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// sendError is the error of a round in which all data arrived but not all could be sent;
// like it, the error of a round that begins too late names no missing party.
func sendError() error {
	s := psync.NewServer(0, 1, time.Now().Add(-time.Hour), time.Second, nil)
	s.Start()
	return s.Round([][]byte{nil}, func(uint16, []byte) error { return nil })
}

// delivery checks Reveal or Exp for every set of parties whose shares arrive.
func delivery(r *mc.Run, opening func(x *exec, s *shared, t int, want lab.Aff)) {
	one := func(e *env, n, t int, ch *mc.Chooser, seed int) {
		x := e.exec(r, n, ch, seed, fmt.Sprintf("threshold %d", t))
		s := x.gen("a")
		want := x.secret(s)
		x.reshare(s, t)
		opening(x, s, t, want)
		r.State(1)
		r.Trace(1)
		if e.Tiny {
			r.Outcome("secrets", fmt.Sprint(e.Log(want)))
		}
	}
	sweep := func(e *env, n, t, bound, seeds int, may func(string) bool) {
		for seed := 1; seed <= seeds; seed++ {
			r.ExploreFrom(bound, may, func(ch *mc.Chooser) { one(e, n, t, ch, seed) })
		}
	}
	tiny(r, 7, "sharings", func(e *env) {
		for n := 2; n <= 5; n++ {
			for t := 1; t <= n; t++ {
				inf := influence(r, e, n, t)
				b := map[int]int{2: -1, 3: 2, 4: 1, 5: 1}[n]
				if r.Thorough && n > 2 {
					b++
				}
				sweep(e, n, t, b, 1, func(l string) bool { return inf[l] })
			}
		}
		sweep(e, 1, 1, 1, 1, nil)
		sweep(e, 6, 4, 0, 2, nil)
	})
	tiny(r, 199, "larger group", func(e *env) {
		for n := 2; n <= 7; n++ {
			for t := 1; t <= n; t++ {
				sweep(e, n, t, 0, 2, nil)
			}
		}
		if r.Thorough {
			for t := 1; t <= 3; t++ {
				inf := influence(r, e, 3, t)
				sweep(e, 3, t, 1, 1, func(l string) bool { return inf[l] })
			}
		}
	})
	tiny(r, 31, "large committees", func(e *env) {
		ns := []int{9, 17, 24}
		if r.Thorough {
			ns = []int{8, 9, 10, 12, 14, 16, 17, 18, 20, 24, 30}
		}
		r.Parallel(len(ns), func(i int) {
			n := ns[i]
			for _, t := range []int{1, 2, n/2 + 1, n - 1, n} {
				sweep(e, n, t, 0, 1, nil)
			}
		})
	})
	real(r, "edges", func(e *env) {
		for n := 2; n <= 5; n++ {
			for t := 1; t <= n; t++ {
				if n > 3 || n > 2 && !r.Thorough {
					sweep(e, n, t, 0, 1, nil)
					continue
				}
				inf := influence(r, e, n, t)
				sweep(e, n, t, 1, 1, func(l string) bool { return inf[l] })
			}
		}
	})
}

func TestA02(t *testing.T) {
	check(t, "A02", func(r *mc.Run) {
		delivery(r, func(x *exec, s *shared, t int, want lab.Aff) {
			x.reveals(s.tds, t, want, "the secret", nil)
			x.err = sendError()
			x.reveals(s.tds, t, want, "the secret", func(k int) bool { return k == x.n || k == 1 && t > 1 })
			x.err = nil
			x.reveals(s.tds, t, want, "the secret", func(k int) bool { return k == t-1 || k == t })
		})
		real(r, "hundreds of parties", func(e *env) {
			ts := []int{2, 129, 257}
			if r.Thorough {
				ts = []int{2, 3, 128, 129, 255, 256, 257, 258, 300}
			}
			e.wide(r, 300, ts, func(d *arith.TDSecret) (lab.Aff, bool, error) {
				v, err := d.Reveal()
				if err != nil {
					return lab.Aff{}, true, err
				}
				return e.Mul(v), v.Sign() < 0 || v.Cmp(e.N) >= 0, nil
			})
		})
	})
}

func TestA03(t *testing.T) {
	check(t, "A03", func(r *mc.Run) {
		delivery(r, func(x *exec, s *shared, t int, want lab.Aff) {
			x.exps(s.tds, t, want, "the secret", nil)
			x.err = sendError()
			x.exps(s.tds, t, want, "the secret", func(k int) bool { return k == x.n || k == 1 && t > 1 })
			x.err = nil
			x.exps(s.tds, t, want, "the secret", func(k int) bool { return k == t-1 || k == t })
			x.garbled(s, t, want)
		})
		real(r, "hundreds of parties", func(e *env) {
			ts := []int{2, 257}
			if r.Thorough {
				ts = []int{2, 3, 128, 129, 255, 256, 257, 258, 300}
			}
			e.wide(r, 300, ts, func(d *arith.TDSecret) (lab.Aff, bool, error) {
				k, err := d.Exp()
				if err != nil {
					return lab.Aff{}, true, err
				}
				return lab.See(e.g, k.PublicKey()), int(k.Threshold()) != int(d.Threshold()), nil
			})
		})
	})
}

// garbled lets each peer in turn announce something that is no point.
func (x *exec) garbled(s *shared, t int, want lab.Aff) {
	bad := [][]byte{{}, {0}, {0, 0, 0, 1}, {0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 0}, {0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0}}
	for from := 0; from < x.n && x.n <= 7; from++ {
		for _, b := range bad {
			keys, errs := make([]lab.Aff, x.n), make([]error, x.n)
			x.run(func(_, f, _ int, d []byte) ([]byte, bool) {
				if f == from {
					return b, true
				}
				return d, true
			}, func(pid int, _ psync.Server) {
				k, err := s.tds[pid].Exp()
				if errs[pid] = err; err == nil {
					keys[pid] = lab.See(x.e.g, k.PublicKey())
				}
			})
			for i := range keys {
				if i == from {
					continue
				}
				x.r.Step(1)
				if enough := x.n-1 >= t; enough != (errs[i] == nil) || enough && !keys[i].Same(want) {
					x.fail("party %d with %d public shares and garbage %x from %d, threshold %d, gets the key %v, error %v; want %v", i, x.n-1, b, from, t, keys[i], errs[i], want)
				}
			}
		}
	}
}
