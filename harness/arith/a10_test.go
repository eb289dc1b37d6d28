package arith

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

func state(ads *arith.ADSecret) string {
	egs, ints := held(ads)
	s := ads.Label() + lab.Dump(ints)
	for _, e := range egs {
		s += fmt.Sprintf("%x", lab.EncC(e))
	}
	return s
}

// refused tries thresholds that must be refused at once.
func (x *exec) refused(s *shared, ts []int) {
	for _, t := range ts {
		before := make([]string, x.n)
		for i := range before {
			before[i] = state(s.ads[i])
		}
		tds, errs := make([]*arith.TDSecret, x.n), make([]error, x.n)
		net := x.run(nil, func(pid int, _ psync.Server) { tds[pid], errs[pid] = s.ads[pid].Reshare(uint16(t)) })
		for i := range errs {
			x.r.Step(1)
			if errs[i] == nil || tds[i] != nil {
				x.fail("party %d of %d reshares with threshold %d: error %v", i, x.n, t, errs[i])
			}
			if net.Rounds[i] != 0 || len(net.Log) != 0 {
				x.fail("party %d of %d enters %d rounds before it refuses threshold %d", i, x.n, net.Rounds[i], t)
			}
			if state(s.ads[i]) != before[i] {
				x.fail("refusing threshold %d changes what party %d of %d holds", t, i, x.n)
			}
		}
	}
}

func TestA10(t *testing.T) {
	check(t, "A10", func(r *mc.Run) {
		history := func(e *env, n int, bad []int, good []int) {
			x := e.exec(r, n, nil, n, map[string]any{"refused": len(bad), "then": good})
			s := x.gen("a")
			want := x.secret(s)
			x.refused(s, bad)
			for _, t := range good {
				d := x.reshare(s, t) // checks the threshold
				x.reveals(d.tds, t, want, "the secret", func(k int) bool { return k == n || k == t-1 || k == t })
				few := append([]int{}, bad[:min(3, len(bad))]...)
				x.refused(s, append(few, bad[len(bad)-1]))
				keys, errs := make([]*arith.TDKey, n), make([]error, n)
				x.run(nil, func(pid int, _ psync.Server) { keys[pid], errs[pid] = d.tds[pid].Exp() })
				x.ok(errs, "deriving the key")
				for i := range keys {
					if keys[i].Threshold() != uint16(t) {
						x.fail("the key at party %d reports threshold %d, not %d", i, keys[i].Threshold(), t)
					}
				}
			}
			r.State(len(bad))
			r.Trace(1)
			r.Outcome("refused", fmt.Sprintf("%d of %d thresholds with %d parties", len(bad), 1<<16, n))
		}
		tiny(r, 31, "every threshold", func(e *env) {
			// all 65536 thresholds, for every number of parties up to the bound
			max := map[bool]int{false: 6, true: 9}[r.Thorough]
			r.Parallel(max, func(i int) {
				n := i + 1
				bad := []int{0}
				for t := n + 1; t < 1<<16; t++ {
					bad = append(bad, t)
				}
				var good []int
				for t := 1; t <= n; t++ {
					good = append(good, t)
				}
				history(e, n, bad, good)
			})
		})
		tiny(r, 31, "sequences", func(e *env) {
			// all sequences of three resharings, the impossible ones without effect on the others
			for n := 1; n <= 3; n++ {
				m := n + 3
				r.Parallel(m*m*m, func(i int) {
					x := e.exec(r, n, nil, i, map[string]any{"sequence": []int{i % m, i / m % m, i / m / m}})
					s := x.gen("a")
					want := x.secret(s)
					for _, t := range []int{i % m, i / m % m, i / m / m} {
						if t < 1 || t > n {
							x.refused(s, []int{t})
							continue
						}
						d := x.reshare(s, t)
						x.reveals(d.tds, t, want, "the secret", func(k int) bool { return k >= n-1 })
					}
					r.State(1)
					r.Trace(1)
				})
			}
		})
		prepare(r)
		presigning := func(e *env, n int, bad []int, seed int) {
			c := e.house(r, n, nil, seed, map[string]any{"presigning": len(bad)})
			x := c.exec
			try := func(ts []int) {
				for _, t := range ts {
					errs := make([]error, n)
					net := x.run(nil, func(pid int, _ psync.Server) { errs[pid] = c.ps[pid].Presign(uint16(t)) })
					for i := range errs {
						r.Step(1)
						if errs[i] == nil {
							x.fail("party %d of %d presigns with threshold %d", i, n, t)
						}
						if net.Rounds[i] != 0 || len(net.Log) != 0 {
							x.fail("party %d of %d enters %d rounds before it refuses to presign with threshold %d", i, n, net.Rounds[i], t)
						}
					}
				}
			}
			try(bad)
			few := append(append([]int{}, bad[:min(3, len(bad))]...), bad[len(bad)-1])
			// nothing can be signed with what was refused; what follows is not disturbed
			c.attempt(B(9), -1, false)
			for t := 1; t <= n; t++ {
				c.presign(t)
				try(few)
			}
			for t := 1; t <= n; t++ {
				c.signs(B(int64(t)), nil)
				try(few)
			}
			c.attempt(B(9), -1, false)
			r.State(len(bad))
			r.Trace(1)
			r.Outcome("presigning refused", fmt.Sprintf("%d thresholds with %d parties", len(bad), n))
		}
		tiny(r, 199, "presigning", func(e *env) {
			r.Parallel(7, func(i int) {
				n := i + 2
				bad := []int{0}
				for t := n + 1; t < 1<<16; t++ {
					if r.Thorough || n < 6 || t < 2*n+2 || t&(t-1) == 0 || t%256 == n || t == 65535 {
						bad = append(bad, t)
					}
				}
				presigning(e, n, bad, n)
			})
		})
		real(r, "presigning", func(e *env) {
			for n := 2; n <= 3; n++ {
				bad := []int{0, n + 1, n + 2, 255, 256, 256 + n, 32768, 65535}
				presigning(e, n, bad, n)
			}
		})
		real(r, "every threshold", func(e *env) {
			for n := 1; n <= 4; n++ {
				bad := []int{0, n + 1, n + 2, 2 * n, 2*n + 1, 255, 256, 256 + n, 257, 32767, 32768, 32768 + n, 65534, 65535}
				history(e, n, bad, []int{1, n})
			}
		})
		tiny(r, 7, "reported by a combination", func(e *env) {
			for n := 2; n <= 3; n++ {
				for t := 1; t <= n; t++ {
					x := e.exec(r, n, nil, 1, map[string]any{"threshold": t})
					a, b := x.gen("a"), x.gen("b")
					x.reshare(a, t)
					x.reshare(b, t)
					for i := 0; i < n; i++ {
						if c := arith.Lin(big.NewInt(2), big.NewInt(3), a.tds[i], b.tds[i], "c"); c.Threshold() != uint16(t) {
							x.fail("the combination of secrets with threshold %d reports %d", t, c.Threshold())
						}
					}
				}
			}
		})
	})
}
