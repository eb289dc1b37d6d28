package arith

import (
	"fmt"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// commitments checks that every party holds, for every share, the same commitment, that it
// hides the share, and that each party can open its own.
func (x *exec) commitments(s *shared, what string) {
	shares := make([]lab.Aff, x.n)
	open := make([]bool, x.n)
	for i, d := range s.tds {
		egs, ints := held(d)
		if len(egs) != x.n || len(ints) < 2 {
			x.r.Outcome("commitments of shares", "not visible")
			return
		}
		for _, c := range egs {
			if c == nil {
				x.fail("party %d holds no commitment to a share of %s", i, what)
			}
		}
		f, c := lab.SeeC(egs[i])
		for _, a := range ints {
			for _, b := range ints {
				if a == b {
					continue
				}
				ff, cc := x.e.Comm(x.e.h, a, b)
				if ff.Same(f) && cc.Same(c) {
					open[i] = true
				}
			}
		}
		if !open[i] {
			x.fail("party %d: the share and randomness it holds for %s do not open its own commitment", i, what)
		}
		shares[i] = x.e.value(point2{f, c})
	}
	for i, d := range s.tds {
		egs, _ := held(d)
		for j := range egs {
			f, c := lab.SeeC(egs[j])
			other, _ := held(s.tds[j])
			f2, c2 := lab.SeeC(other[j])
			if !f.Same(f2) || !c.Same(c2) {
				x.fail("parties %d and %d hold different commitments to the share of %d", i, j, j)
			}
		}
	}
	x.r.Outcome("commitments of shares", "agree and open")
}

func TestA01(t *testing.T) {
	check(t, "A01", func(r *mc.Run) {
		one := func(e *env, n, t1, t2 int, ch *mc.Chooser, seed int) {
			x := e.exec(r, n, ch, seed, fmt.Sprintf("thresholds %d, then %d", t1, t2))
			s := x.gen("a")
			want := x.secret(s)
			a := x.reshare(s, t1)
			x.reveals(a.tds, t1, want, "the secret", func(k int) bool { return k == t1 || k == n })
			x.commitments(a, "the secret")
			if t2 > 0 {
				b := x.reshare(s, t2)
				x.reveals(b.tds, t2, want, "the secret after another resharing", func(k int) bool { return k == t2 || k == n })
				x.reveals(a.tds, t1, want, "the secret after the other resharing", func(k int) bool { return k == n })
				x.commitments(b, "the secret shared again")
			}
			r.Trace(1)
			r.State(1)
			if e.Tiny {
				r.Outcome("secrets", fmt.Sprint(e.Log(want)))
			}
		}
		sweep := func(e *env, n, t1, t2, bound, seeds int) {
			for seed := 1; seed <= seeds; seed++ {
				r.ExploreP(bound, func(ch *mc.Chooser) { one(e, n, t1, t2, ch, seed) })
			}
		}
		deep := r.Thorough
		for _, q := range []int64{7, 31, 199} {
			if q > 13 && !deep {
				continue
			}
			tiny(r, q, "one draw varied", func(e *env) {
				for n := 2; n <= 5; n++ {
					if int64(n) >= q {
						continue
					}
					for t := 1; t <= n; t++ {
						if q > 13 && n > 3 {
							continue
						}
						sweep(e, n, t, 0, 1, map[bool]int{false: 1, true: 2}[n < 4])
						for t2 := 1; t2 <= n && n <= 4; t2++ {
							sweep(e, n, t, t2, map[bool]int{false: 0, true: 1}[n < 4 && q == 7], 1)
						}
					}
				}
			})
		}
		tiny(r, 7, "two draws varied", func(e *env) {
			sweep(e, 2, 1, 0, 2, 1)
			sweep(e, 2, 2, 0, 2, 1)
			if deep {
				sweep(e, 2, 2, 1, 2, 1)
				sweep(e, 3, 2, 0, 2, 1)
				sweep(e, 3, 3, 0, 2, 1)
			}
		})
		tiny(r, 7, "keys", func(e *env) {
			for h := int64(1); h < 7; h++ {
				for n := 1; n <= 4; n++ {
					for t := 1; t <= n; t++ {
						sweep(e.key(B(h)), n, t, 0, 0, 3)
					}
				}
			}
		})
		tiny(r, 7, "contributions and coefficients", func(e *env) { contributions(r, e, deep, one) })
		committees := []int{8, 9, 16, 17, 20}
		if deep {
			committees = []int{6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24}
		}
		tiny(r, 31, "large committees", func(e *env) {
			r.Parallel(len(committees), func(i int) {
				n := committees[i]
				for _, t := range []int{1, 2, n/2 + 1, n - 1, n} {
					sweep(e, n, t, 0, 0, 1)
				}
			})
		})
		real(r, "large committees", func(e *env) {
			sweep(e, 17, 17, 0, 0, 1)
			if deep {
				sweep(e, 20, 20, 0, 0, 1)
			}
		})
		real(r, "modulus", func(e *env) {
			if arith.Q.Cmp(e.N) != 0 {
				r.Fail(fmt.Sprintf("%x", arith.Q), "shares are drawn modulo %x, which is not the order of the group", arith.Q)
			}
		})
		real(r, "edges", func(e *env) {
			for n := 2; n <= 4; n++ {
				for t := 1; t <= n; t++ {
					sweep(e, n, t, 0, map[bool]int{false: 0, true: 1}[n == 2 || deep && n == 3], 1)
				}
			}
			sweep(e, 3, 2, 3, 0, 2)
			sweep(e, 3, 3, 1, 0, 2)
		})
	})
}
