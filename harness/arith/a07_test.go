package arith

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

func (x *exec) joint(tamper func(round, from, to int, d []byte) ([]byte, bool)) ([]*arith.DKey, []error) {
	keys, errs := make([]*arith.DKey, x.n), make([]error, x.n)
	x.run(tamper, func(pid int, srv psync.Server) {
		keys[pid], errs[pid] = arith.GenExpReveal(uint16(pid), "key", srv, uint16(x.n), x.e.g)
	})
	return keys, errs
}

func TestA07(t *testing.T) {
	check(t, "A07", func(r *mc.Run) {
		honest := func(e *env, n int, ch *mc.Chooser, seed int) {
			x := e.exec(r, n, ch, seed, "honest")
			keys, errs := x.joint(nil)
			x.ok(errs, "generating a key")
			product := lab.Aff{Inf: true}
			for i := range keys {
				_, ints := held(keys[i])
				if n == 1 {
					if len(ints) > 0 {
						product = e.Mul(ints[0])
					}
					continue
				}
				var share lab.Aff
				for to := 0; to < n; to++ {
					if to == i {
						continue
					}
					a, _, err := lab.Unwire(x.net.By(i, 1).Data[to])
					if err != nil {
						x.fail("party %d announces %x", i, x.net.By(i, 1).Data[to])
					}
					if share.X != nil && !a.Same(share) || share.Inf && !a.Inf {
						x.fail("party %d announces %v and %v", i, a, share)
					}
					share = a
				}
				own := len(ints) == 0
				for _, k := range ints {
					own = own || e.Mul(k).Same(share)
				}
				if !own {
					x.fail("party %d announces %v, which is not the generator raised to what it contributed", i, share)
				}
				product = e.Add(product, share)
			}
			for i := range keys {
				if keys[i].Label() != "key" {
					x.fail("label %q", keys[i].Label())
				}
				if pk := lab.See(e.g, keys[i].PublicKey()); !pk.Same(product) {
					x.fail("party %d holds the public key %v; the product of what was announced is %v", i, pk, product)
				}
			}
			// the contributions are those of the key: the pair (G, key) has the key as its exponent
			res := make([]error, n)
			x.run(nil, func(pid int, _ psync.Server) {
				res[pid] = arith.CheckDH(e.g.Gen(), keys[pid].PublicKey(), e.g, keys[pid])
			})
			x.ok(res, "checking the generated key")
			r.Step(n)
			r.Trace(1)
			r.State(1)
			if e.Tiny {
				r.Outcome("keys", fmt.Sprint(e.Log(product)))
			}
		}
		tiny(r, 7, "contributions", func(e *env) {
			for n := 1; n <= 4; n++ {
				// each party's only draw during generation is its contribution; vary all of them
				r.ExploreFrom(-1, func(l string) bool { return len(l) > 6 && l[len(l)-6:] == "draw 0" }, func(ch *mc.Chooser) { honest(e, n, ch, 1) })
			}
			r.ExploreP(2, func(ch *mc.Chooser) { honest(e, 2, ch, 3) })
			if r.Thorough {
				r.ExploreP(2, func(ch *mc.Chooser) { honest(e, 5, ch, 3) })
				r.ExploreP(3, func(ch *mc.Chooser) { honest(e, 3, ch, 3) })
			}
		})
		tiny(r, 199, "large committees", func(e *env) {
			ns := []int{9, 17, 65, 130, 260}
			r.Parallel(len(ns), func(i int) { honest(e, ns[i], nil, 1) })
		})
		real(r, "edges", func(e *env) {
			for n := 1; n <= 5; n++ {
				r.ExploreP(map[bool]int{true: 2, false: 1}[n < 3], func(ch *mc.Chooser) { honest(e, n, ch, n) })
			}
			// contributions that cancel out
			x := e.exec(r, 2, nil, 1, "opposite contributions")
			for i, v := range []*big.Int{B(5), sub(e.N, B(5))} {
				x.src[i] = &lock.Source{Pick: func(_, n int) []byte { b := make([]byte, n); return v.FillBytes(b) }}
			}
			keys, errs := x.joint(nil)
			x.ok(errs, "generating a key")
			for i := range keys {
				if k := lab.See(e.g, keys[i].PublicKey()); !k.Inf {
					x.fail("opposite contributions give the key %v", k)
				}
			}
		})
		alter := func(e *env, n, from, victim, seed int, masks []int) {
			go1 := func(seed int, what any, tamper func(round, from, to int, d []byte) ([]byte, bool)) ([]*arith.DKey, []error, *exec) {
				x := e.exec(r, n, nil, seed, what)
				k, errs := x.joint(tamper)
				return k, errs, x
			}
			_, errs, x := go1(seed, "untouched", nil)
			x.ok(errs, "generating a key")
			_, _, y := go1(seed+1, "untouched", nil)
			net, other := x.net, y.net
			f := checkFormat("P", "P")
			for round := 0; round < 2; round++ {
				orig := net.By(from, round).Data[victim]
				ps, err := f(round, orig)
				known := err == nil
				want := meaning(ps, nil)
				var spare []part
				var whole []edit
				for p := 0; p < n; p++ {
					for to := 0; to < n; to++ {
						for _, l := range []*lock.Net{net, other} {
							if to != p {
								whole = append(whole, edit{fmt.Sprintf("message of party %d", p), l.By(p, round).Data[to]})
							}
						}
					}
				}
				if round == 1 {
					ks := []*big.Int{B(0), B(1), B(2), B(3), B(4), B(5), B(6)}
					for _, k := range ks {
						spare = append(spare, part{'P', lab.Wire(e.Mul(k)), e.Mul(k).String()})
					}
					neg := orig
					if a, _, err := lab.Unwire(neg); err == nil {
						spare = append(spare, part{'P', lab.Wire(e.Neg(a)), e.Neg(a).String()})
					}
				}
				es := append(edits(ps, orig, masks, spare), whole...)
				if !known {
					es = unfamiliar(r, round, orig, whole)
				}
				r.Parallel(len(es), func(i int) {
					if known && meaning(f(round, es[i].data)) == want {
						return
					}
					keys, errs, x := go1(seed, map[string]any{"from": from, "round": round, "alteration": es[i].name, "message": fmt.Sprintf("%x", es[i].data)}, func(rd, fr, to int, d []byte) ([]byte, bool) {
						if rd == round && fr == from && to == victim {
							return es[i].data, true
						}
						return d, true
					})
					r.Step(1)
					r.Trace(1)
					r.Outcome("alterations", fmt.Sprintf("round %d", round))
					if errs[victim] == nil || keys[victim] != nil {
						x.fail("party %d gets a key although party %d opened something other than it committed to (%s)", victim, from, es[i].name)
					}
				})
				r.State(len(es))
			}
		}
		var every []int
		for m := 1; m < 256; m++ {
			every = append(every, m)
		}
		tiny(r, 7, "openings", func(e *env) {
			for seed := 1; seed < 5; seed++ {
				alter(e, 2, 0, 1, seed, every)
				alter(e, 3, 2, 0, seed, every)
			}
			alter(e, 4, 1, 3, 1, every)
			// larger committees: the party that cheats is any of them
			for _, n := range []int{5, 6, 7, 9} {
				for from := 0; from < n; from++ {
					if n < 9 || from > 3 || r.Thorough {
						alter(e, n, from, (from+n-1)%n, 1, []int{1})
					}
				}
			}
			alter(e, 33, 32, 5, 1, nil)
		})
		real(r, "openings", func(e *env) {
			alter(e, 2, 1, 0, 1, []int{1, 2, 0x80, 0xff})
			alter(e, 3, 0, 2, 1, []int{1})
			if r.Thorough {
				alter(e, 3, 1, 2, 7, every)
			}
		})
	})
}
