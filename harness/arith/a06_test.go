package arith

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// keyed gives every party the joint key of the given secret shares.
func (x *exec) keyed(shares []*big.Int) []*arith.DKey {
	keys := make([]*arith.DKey, x.n)
	for i := range keys {
		ps := make([]curve.Point, x.n)
		for j := range ps {
			ps[j] = x.e.g.ScalarBaseMult(cp(shares[j]))
		}
		keys[i] = arith.NewDKey(arith.NewDSecret(uint16(i), "x", cp(shares[i]), x.srvs[i]), ps, x.e.g)
	}
	return keys
}

// dh runs the check of (u,v) at all parties.
func (x *exec) dh(keys []*arith.DKey, u, v *big.Int, tamper func(round, from, to int, d []byte) ([]byte, bool)) []error {
	errs := make([]error, x.n)
	x.run(tamper, func(pid int, _ psync.Server) {
		up, vp := x.e.g.ScalarBaseMult(cp(u)), x.e.g.ScalarBaseMult(cp(v))
		ints := func() string {
			_, k := held(keys[pid])
			return lab.Dump(up) + lab.Dump(vp) + lab.Dump(keys[pid].PublicKey()) + lab.Dump(k)
		}
		before := ints()
		errs[pid] = arith.CheckDH(up, vp, x.e.g, keys[pid])
		if ints() != before {
			panic(mc.Broken("the check changes what it is given"))
		}
	})
	return errs
}

// opening is the format of the messages of the check of a pair, and of key generation.
func checkFormat(inner, open string) format {
	return func(round int, b []byte) ([]part, error) {
		switch round {
		case 0:
			return committed("", b)
		case 1:
			return cut(open, b)
		}
		return cut("P", b)
	}
}

func TestA06(t *testing.T) {
	check(t, "A06", func(r *mc.Run) {
		show := func(shares []*big.Int, u, v *big.Int) any {
			return fmt.Sprintf("shares %v, u = %v·G, v = %v·G", shares, u, v)
		}
		sum := func(e *env, s []*big.Int) *big.Int {
			t := B(0)
			for _, x := range s {
				t.Add(t, x)
			}
			return e.Mod(t)
		}
		// one execution; all parties must agree. It tells whether they accept.
		run := func(e *env, shares []*big.Int, u, v *big.Int, ch *mc.Chooser, seed int) bool {
			n := len(shares)
			x := e.exec(r, n, ch, seed, show(shares, u, v))
			errs := x.dh(x.keyed(shares), u, v, nil)
			for i := range errs {
				if (errs[i] == nil) != (errs[0] == nil) {
					x.fail("parties disagree: %v", errs)
				}
			}
			if e.Mod(mul(u, sum(e, shares))).Cmp(e.Mod(v)) == 0 && errs[0] != nil {
				x.fail("a Diffie-Hellman pair is refused: %v", errs[0])
			}
			r.Step(1)
			r.Trace(1)
			return errs[0] == nil
		}
		tiny(r, 7, "pairs", func(e *env) {
			// every pair, every outcome of randomness: a pair that is none passes at most once in q
			type job struct {
				shares []*big.Int
				u, v   int64
			}
			var jobs []job
			keys := [][]*big.Int{{B(2), B(3)}, {B(0), B(1)}, {B(6), B(1)}}
			if r.Thorough {
				keys = nil
				for a := int64(0); a < 7; a++ {
					for b := int64(0); b < 7; b++ {
						keys = append(keys, []*big.Int{B(a), B(b)})
					}
				}
			}
			for _, k := range keys {
				for u := int64(0); u < 7; u++ {
					for v := int64(0); v < 7; v++ {
						jobs = append(jobs, job{k, u, v})
					}
				}
			}
			r.Parallel(len(jobs), func(i int) {
				j := jobs[i]
				total, passed := 0, 0
				all := 7 * 7 * 7 * 7
				for c := 0; c < all; c++ {
					src := func(pid int) *lock.Source {
						return &lock.Source{Pick: func(k, n int) []byte {
							b := make([]byte, n)
							x := c
							if pid == 1 {
								x /= 49
							}
							if k%2 == 1 {
								x /= 7
							}
							b[n-1] = byte(x % 7)
							return b
						}}
					}
					x := e.exec(r, 2, nil, c, show(j.shares, B(j.u), B(j.v)))
					x.src = []*lock.Source{src(0), src(1)}
					errs := x.dh(x.keyed(j.shares), B(j.u), B(j.v), nil)
					if (errs[0] == nil) != (errs[1] == nil) {
						x.fail("parties disagree: %v", errs)
					}
					total++
					if errs[0] == nil {
						passed++
					}
				}
				r.Step(total)
				r.Trace(total)
				r.State(1)
				good := e.Mod(mul(B(j.u), sum(e, j.shares))).Int64() == j.v
				if good && passed != total {
					r.Fail(show(j.shares, B(j.u), B(j.v)), "a Diffie-Hellman pair is refused in %d of %d outcomes of randomness", total-passed, total)
				}
				if !good && passed*7 > total {
					r.Fail(show(j.shares, B(j.u), B(j.v)), "a pair that is none is accepted in %d of %d outcomes of randomness, more than one in the order", passed, total)
				}
				r.Outcome("accepted outcomes", fmt.Sprintf("%d of %d (pair: %v)", passed, total, good))
			})
		})
		tiny(r, 7, "more parties", func(e *env) {
			// completeness at every party, and for pairs that are none the exact chance over one party's draws
			for n := 1; n <= 5; n++ {
				for seed := 1; seed <= map[bool]int{false: 2, true: 15}[r.Thorough]; seed++ {
					var shares []*big.Int
					for i := 0; i < n; i++ {
						shares = append(shares, B(int64(lock.Mix(seed, i)%7)))
					}
					k := sum(e, shares)
					for u := int64(0); u < 7; u++ {
						r.ExploreP(1, func(ch *mc.Chooser) { run(e, shares, B(u), e.Mod(mul(B(u), k)), ch, seed) })
						for d := int64(1); d < 7; d++ {
							v := e.Mod(add(mul(B(u), k), B(d)))
							passed := 0
							for a := 0; a < 49; a++ {
								r.Replay([]int{a % 7, a / 7}, func(ch *mc.Chooser) {
									if run(e, shares, B(u), v, ch, seed) {
										passed++
									}
								})
							}
							if passed > 7 {
								r.Fail(show(shares, B(u), v), "a pair that is none is accepted for %d of 49 values of two draws", passed)
							}
							r.State(1)
						}
					}
				}
			}
		})
		tiny(r, 31, "large committees", func(e *env) {
			ns := []int{9, 17, 65, 130, 260}
			r.Parallel(len(ns), func(i int) {
				var shares []*big.Int
				for p := 0; p < ns[i]; p++ {
					shares = append(shares, B(int64(lock.Mix(3, p)%31)))
				}
				k := sum(e, shares)
				run(e, shares, B(5), e.Mod(mul(B(5), k)), nil, 1)
				passed := 0
				for seed := 1; seed <= 3; seed++ {
					if run(e, shares, B(5), e.Mod(add(mul(B(5), k), B(1))), nil, seed) {
						passed++
					}
				}
				if passed == 3 {
					r.Fail(fmt.Sprintf("%d parties", ns[i]), "a pair that is none is accepted in %d of 3 outcomes of randomness", passed)
				}
				r.State(1)
			})
		})
		real(r, "pairs", func(e *env) {
			vals := []*big.Int{B(0), B(1), sub(e.N, B(1)), lsh(255), B(12345)}
			for n := 2; n <= 4; n++ {
				for a, s0 := range vals {
					var shares []*big.Int
					for i := 0; i < n; i++ {
						shares = append(shares, e.Mod(mul(vals[(a+i)%len(vals)], add(s0, B(int64(i))))))
					}
					k := sum(e, shares)
					for _, u := range vals {
						r.ExploreP(map[bool]int{true: 1, false: 0}[n == 2 && a < 2], func(ch *mc.Chooser) { run(e, shares, u, e.Mod(mul(u, k)), ch, 1) })
						for _, v := range append([]*big.Int{e.Mod(add(mul(u, k), B(1))), sub(e.N, e.Mod(mul(u, k)))}, vals...) {
							if e.Mod(v).Cmp(e.Mod(mul(u, k))) == 0 {
								continue
							}
							r.ExploreP(0, func(ch *mc.Chooser) {
								if run(e, shares, u, v, ch, 2) {
									r.Fail(show(shares, u, v), "a pair that is none is accepted")
								}
							})
						}
						r.State(1)
					}
				}
			}
		})
		// openings other than what was committed to
		alter := func(e *env, n, from, victim int, masks []int) {
			var shares []*big.Int
			for i := 0; i < n; i++ {
				shares = append(shares, []*big.Int{B(2), B(4), B(5), B(1)}[i%4])
			}
			u := B(3)
			v := e.Mod(mul(u, sum(e, shares)))
			go1 := func(seed int, what any, tamper func(round, from, to int, d []byte) ([]byte, bool)) ([]error, *lock.Net, *exec) {
				x := e.exec(r, n, nil, seed, what)
				errs := x.dh(x.keyed(shares), u, v, tamper)
				return errs, x.net, x
			}
			errs, net, x := go1(4, "untouched", nil)
			x.ok(errs, "checking a pair")
			_, other, _ := go1(5, "untouched", nil)
			f := checkFormat("PP", "PP")
			for round := 0; round < 2; round++ {
				orig := net.By(from, round).Data[victim]
				ps, err := f(round, orig)
				known := err == nil
				want := meaning(ps, nil)
				var spare []part
				var whole []edit
				for p := 0; p < n; p++ {
					for to := 0; to < n; to++ {
						if to == p {
							continue
						}
						for _, l := range []*lock.Net{net, other} {
							d := l.By(p, round).Data[to]
							whole = append(whole, edit{fmt.Sprintf("message of party %d", p), d})
							if q, err := f(round, d); err == nil {
								spare = append(spare, q...)
							}
						}
					}
				}
				if round == 1 {
					for k := int64(0); k < 7; k++ {
						spare = append(spare, part{'P', lab.Wire(e.Mul(B(k))), e.Mul(B(k)).String()})
					}
				}
				es := append(edits(ps, orig, masks, spare), whole...)
				if !known {
					es = unfamiliar(r, round, orig, whole)
				}
				r.Parallel(len(es), func(i int) {
					if known && meaning(f(round, es[i].data)) == want {
						return
					}
					errs, _, x := go1(4, map[string]any{"from": from, "round": round, "alteration": es[i].name, "message": fmt.Sprintf("%x", es[i].data)}, func(rd, fr, to int, d []byte) ([]byte, bool) {
						if rd == round && fr == from && to == victim {
							return es[i].data, true
						}
						return d, true
					})
					r.Step(1)
					r.Trace(1)
					r.Outcome("alterations", fmt.Sprintf("round %d", round))
					if errs[victim] == nil {
						x.fail("party %d accepts although party %d opened something other than it committed to (%s)", victim, from, es[i].name)
					}
				})
				r.State(len(es))
			}
		}
		bits := []int{1, 2, 4, 8, 0x80}
		tiny(r, 7, "openings", func(e *env) {
			alter(e, 2, 0, 1, bits)
			alter(e, 3, 2, 0, bits)
			alter(e, 4, 1, 3, bits)
			// larger committees: the party that cheats is any of them
			for _, n := range []int{5, 6, 7, 9} {
				for from := 0; from < n; from++ {
					if n < 9 || from > 3 || r.Thorough {
						alter(e, n, from, (from+n-1)%n, bits[:1])
					}
				}
			}
		})
		real(r, "openings", func(e *env) {
			if r.Thorough {
				alter(e, 2, 1, 0, bits)
			}
			alter(e, 2, 1, 0, bits[:1])
			alter(e, 3, 0, 2, bits[:1])
		})
	})
}
