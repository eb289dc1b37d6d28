package arith

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// lin combines a and b at every party and checks the outcome.
func (x *exec) lin(a, b []*arith.TDSecret, t int, alpha, beta *big.Int, wantA, wantB lab.Aff) ([]*arith.TDSecret, lab.Aff) {
	what := fmt.Sprintf("%v·a + %v·b", alpha, beta)
	al, be := cp(alpha), cp(beta)
	c := make([]*arith.TDSecret, x.n)
	x.run(nil, func(pid int, _ psync.Server) {
		before := lab.Dump(a[pid]) + lab.Dump(b[pid])
		c[pid] = arith.Lin(al, be, a[pid], b[pid], "c")
		if lab.Dump(a[pid])+lab.Dump(b[pid]) != before {
			panic(mc.Broken("combining changes its operands: %s", what))
		}
	})
	if len(x.net.Log) > 0 {
		x.fail("combining locally communicates")
	}
	if al.Cmp(alpha) != 0 || be.Cmp(beta) != 0 {
		x.fail("combining changes its coefficients: %v and %v became %v and %v", alpha, beta, al, be)
	}
	want := x.e.Add(x.e.Times(wantA, alpha), x.e.Times(wantB, beta))
	for i := range c {
		if c[i].Threshold() != uint16(t) || c[i].Label() != "c" {
			x.fail("the combination has threshold %d and label %q", c[i].Threshold(), c[i].Label())
		}
	}
	x.reveals(c, t, want, what, func(k int) bool { return k == t-1 || k >= t })
	for i := 0; i < x.n && x.n > 1; i++ {
		if v := new(big.Int).SetBytes(x.net.One(i, 0)); v.Cmp(x.e.N) >= 0 {
			x.fail("party %d sends %v as its share of %s, which discloses more than the combination", i, v, what)
		}
	}
	x.r.Step(1)
	return c, want
}

// hides checks the commitments that come with a combination.
func (x *exec) hides(c []*arith.TDSecret, what string) {
	for i := range c {
		egs, ints := held(c[i])
		if len(egs) != x.n || len(ints) == 0 {
			return
		}
		for j := range egs {
			if egs[j] == nil {
				x.fail("party %d holds no commitment to the share of %d of %s", i, j, what)
			}
			_, other := held(c[j])
			f, s := lab.SeeC(egs[j])
			ok := false
			for _, v := range other {
				ok = ok || x.e.value(point2{f, s}).Same(x.e.Mul(v))
			}
			if !ok {
				x.fail("the commitment held by party %d to the share of %d of %s does not hide that share", i, j, what)
			}
		}
	}
	x.r.Outcome("commitments", "hide the shares")
}

func TestA04(t *testing.T) {
	check(t, "A04", func(r *mc.Run) {
		one := func(e *env, n, t int, ch *mc.Chooser, seed int, coefs [][2]*big.Int, nested bool) {
			x := e.exec(r, n, ch, seed, fmt.Sprintf("threshold %d", t))
			a, b := x.gen("a"), x.gen("b")
			wa, wb := x.secret(a), x.secret(b)
			x.reshare(a, t)
			x.reshare(b, t)
			for _, k := range coefs {
				c, wc := x.lin(a.tds, b.tds, t, k[0], k[1], wa, wb)
				if !nested {
					continue
				}
				x.hides(c, fmt.Sprintf("%v·a+%v·b", k[0], k[1]))
				x.exps(c, t, wc, "the combination", func(k int) bool { return k == t || k == n })
				x.lin(c, a.tds, t, B(3), B(4), wc, wa)
				x.lin(c, c, t, k[1], B(1), wc, wc)
				x.reveals(c, t, wc, "the combination, after it was combined again", func(k int) bool { return k == n })
			}
			x.reveals(a.tds, t, wa, "the first operand", func(k int) bool { return k == n })
			x.reveals(b.tds, t, wb, "the second operand", func(k int) bool { return k == n })
			r.State(1)
			r.Trace(1)
		}
		square := func(vals []*big.Int) (c [][2]*big.Int) {
			for _, a := range vals {
				for _, b := range vals {
					c = append(c, [2]*big.Int{a, b})
				}
			}
			return
		}
		tiny(r, 7, "coefficients", func(e *env) {
			vals := []*big.Int{B(0), B(1), B(2), B(3), B(4), B(5), B(6), B(7), B(13), lsh(300)}
			for n := 2; n <= 4; n++ {
				for t := 1; t <= n; t++ {
					for seed := 1; seed <= map[bool]int{false: 2, true: 12}[r.Thorough]; seed++ {
						r.ExploreP(0, func(ch *mc.Chooser) { one(e, n, t, ch, seed, square(vals), true) })
					}
				}
			}
		})
		tiny(r, 7, "operands", func(e *env) {
			for n := 2; n <= 3; n++ {
				for t := 1; t <= n; t++ {
					inf := influence(r, e, n, t)
					coefs := [][2]*big.Int{{B(2), B(5)}, {B(1), B(6)}}
					b := map[bool]int{false: 2, true: 4}[n == 2]
					if r.Thorough {
						b++
					}
					// the draws of the second secret come later; vary those of the first
					r.ExploreFrom(b, func(l string) bool { return inf[l] }, func(ch *mc.Chooser) { one(e, n, t, ch, 1, coefs, false) })
				}
			}
			bound := 1
			if r.Thorough {
				bound = 2
			}
			r.ExploreP(bound, func(ch *mc.Chooser) { one(e, 2, 2, ch, 2, [][2]*big.Int{{B(3), B(2)}}, false) })
		})
		// different secrets may need different numbers of parties, their combination needs the larger
		mixed := func(e *env, n, ta, tb int, ch *mc.Chooser, seed int, coefs [][2]*big.Int) {
			x := e.exec(r, n, ch, seed, fmt.Sprintf("thresholds %d and %d", ta, tb))
			a, b := x.gen("a"), x.gen("b")
			wa, wb := x.secret(a), x.secret(b)
			x.reshare(a, ta)
			x.reshare(b, tb)
			t := max(ta, tb)
			for _, k := range coefs {
				c, wc := x.lin(a.tds, b.tds, t, k[0], k[1], wa, wb)
				x.hides(c, fmt.Sprintf("%v·a+%v·b", k[0], k[1]))
				x.exps(c, t, wc, "the combination", func(k int) bool { return k >= t-1 })
				x.lin(c, a.tds, t, B(3), B(4), wc, wa)
				x.lin(b.tds, c, t, B(2), B(5), wb, wc)
			}
			x.reveals(a.tds, ta, wa, "the first operand", func(k int) bool { return k >= ta-1 })
			x.reveals(b.tds, tb, wb, "the second operand", func(k int) bool { return k >= tb-1 })
			r.State(1)
			r.Trace(1)
		}
		tiny(r, 7, "thresholds", func(e *env) {
			top := map[bool]int{false: 4, true: 5}[r.Thorough]
			for n := 2; n <= top; n++ {
				for ta := 1; ta <= n; ta++ {
					for tb := 1; tb <= n; tb++ {
						for seed := 1; seed <= 3 && ta != tb; seed++ {
							r.ExploreP(0, func(ch *mc.Chooser) {
								mixed(e, n, ta, tb, ch, seed, square([]*big.Int{B(0), B(1), B(2), B(6)}))
							})
						}
					}
				}
			}
		})
		tiny(r, 199, "larger committees", func(e *env) {
			cases := [][2]int{{5, 2}, {6, 6}, {7, 4}}
			if r.Thorough {
				cases = append(cases, [][2]int{{8, 5}, {9, 8}}...)
			}
			r.Parallel(2*len(cases), func(i int) {
				n, t := cases[i/2][0], cases[i/2][1]
				if i%2 == 0 {
					r.ExploreP(0, func(ch *mc.Chooser) { one(e, n, t, ch, n, square([]*big.Int{B(0), B(57)}), true) })
					return
				}
				r.ExploreP(0, func(ch *mc.Chooser) { mixed(e, n, t-1, n, ch, n, [][2]*big.Int{{B(3), B(198)}}) })
			})
		})
		real(r, "edges", func(e *env) {
			r.ExploreP(0, func(ch *mc.Chooser) { mixed(e, 3, 1, 3, ch, 1, [][2]*big.Int{{B(1), sub(e.N, B(1))}, {B(0), B(1)}}) })
			r.ExploreP(0, func(ch *mc.Chooser) { mixed(e, 3, 3, 2, ch, 1, [][2]*big.Int{{lsh(255), B(1)}}) })
			vals := []*big.Int{B(0), B(1), sub(e.N, B(1)), cp(e.N), lsh(255), lsh(511)}
			for n := 2; n <= 3; n++ {
				for t := 1; t <= n; t++ {
					r.ExploreP(0, func(ch *mc.Chooser) { one(e, n, t, ch, 1, square(vals), n == 2 || r.Thorough) })
				}
			}
			r.ExploreP(0, func(ch *mc.Chooser) { one(e, 4, 3, ch, 1, square(vals[1:3]), true) })
			r.ExploreP(1, func(ch *mc.Chooser) { one(e, 2, 2, ch, 2, [][2]*big.Int{{sub(e.N, B(1)), B(2)}}, false) })
		})
	})
}
