package base

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
)

func TestZ03(t *testing.T) {
	check(t, "Z03", func(r *mc.Run) {
		// tiny groups: how many first messages can a prover answer, for a false refreshment?
		// In a sound proof it has to guess the challenge, so about one in the group order.
		tinyOnly(r, []int64{7}, nil, "false refreshments", func(e *env) {
			n := e.N.Int64()
			keys := []int64{3}
			if r.Thorough {
				keys = []int64{0, 1, 2, 3, 6}
			}
			all := e.exps()
			var zs []*big.Int
			for z := int64(0); z < n; z++ {
				zs = append(zs, B(z))
			}
			zs = append(zs, cp(e.N), add(e.N, B(3)), B(255), B(256))
			for _, k := range keys {
				h := B(k)
				f := e.factory(h)
				type cell struct{ yes, all int }
				res := make([][]bool, n*n*n*n) // [c1,c2] -> first messages answered
				r.Parallel(int(n*n*n*n), func(i int) {
					v1, r1, v2, r2 := int64(i)%n, int64(i)/n%n, int64(i)/n/n%n, int64(i)/n/n/n
					if v1 == v2 {
						return
					}
					if !r.Thorough && v1 > 2 && v1 != n-1 {
						return
					}
					c1, c2 := e.commit(h, B(v1), B(r1)), e.commit(h, B(v2), B(r2))
					row := make([]bool, n*n)
					for j := range row {
						a, b := e.Comm(h, all[int64(j)/n], all[int64(j)%n])
					search:
						for _, z1 := range zs {
							for _, z2 := range zs {
								r.Step(1)
								if refresh.verify(f, c1, c2, lab.WireP(lab.Proof{Z1: z1, Z2: z2, First: a, Secnd: b})) == nil {
									row[j] = true
									break search
								}
							}
						}
						r.State(1)
						r.Trace(1)
					}
					res[i] = row
				})
				if r.Late() {
					return
				}
				// over all, and over every class that a special case could single out
				classes := map[string]*cell{}
				hit := func(class string, yes bool) {
					c := classes[class]
					if c == nil {
						c = &cell{}
						classes[class] = c
					}
					c.all++
					if yes {
						c.yes++
					}
				}
				for i, row := range res {
					v1, r1, v2, r2 := int64(i)%n, int64(i)/n%n, int64(i)/n/n%n, int64(i)/n/n/n
					for j, yes := range row {
						hit("all", yes)
						hit(fmt.Sprintf("first commitment (%d,%d)", v1, r1), yes)
						hit(fmt.Sprintf("second commitment (%d,%d)", v2, r2), yes)
						hit(fmt.Sprintf("difference (%d,%d)", (v2-v1+n)%n, (r2-r1+n)%n), yes)
						hit(fmt.Sprintf("first message (%d,%d)", int64(j)/n, int64(j)%n), yes)
						if v1 != 0 {
							hit(fmt.Sprintf("quotient of the values %d", new(big.Int).Mod(mul(B(v2), new(big.Int).ModInverse(B(v1), e.N)), e.N)), yes)
						}
					}
				}
				for name, c := range classes {
					if c.all >= 250 && c.yes*7 > 3*c.all {
						r.Fail(map[string]any{"curve": e.name, "key": k, "class": name}, "%s key %d: %s: %d of %d first messages of false refreshments can be answered", e.name, k, name, c.yes, c.all)
					}
				}
				r.Outcome("false refreshments "+e.name, fmt.Sprintf("key %d: %d of %d first messages can be answered", k, classes["all"].yes, classes["all"].all))
			}
			r.Sample(map[string]string{"curve": e.name, "statements": "all pairs of commitments to different values", "first messages": "all", "responses": fmt.Sprint(len(zs) * len(zs))})
		})

		// tiny groups: proofs made by choosing challenge and responses first
		tinyOnly(r, []int64{7}, nil, "responses first", func(e *env) {
			n := e.N.Int64()
			for _, k := range []int64{0, 3} {
				h := B(k)
				f := e.factory(h)
				r.Parallel(int(n*n), func(i int) {
					v, rnd := int64(i)/n, int64(i)%n
					c := e.commit(h, B(v), B(rnd))
					for _, kd := range []kind{know, refresh} {
						for d := int64(0); d < n; d++ { // for a refreshment of a commitment by (d, 1)
							var c2 *commitment.ElGamal
							if kd.two {
								if d == 0 {
									continue
								}
								c2 = e.commit(h, B(v+d), B(rnd+1))
							} else if d > 0 || v == 0 && rnd == 0 {
								continue // the neutral commitment has the challenge nowhere in its equations
							}
							for x := int64(0); x < n; x++ {
								yes := 0
								for z1 := int64(0); z1 < n; z1++ {
									for z2 := int64(0); z2 < n; z2++ {
										var p lab.Proof
										p.Z1, p.Z2 = B(z1), B(z2)
										if kd.two {
											// xy = Create(0,z1) + z2·c1 - x·c2
											p.First, p.Secnd = e.Comm(h, B(z2*v-x*(v+d)), B(z1+z2*rnd-x*(rnd+1)))
										} else {
											// xy = Create(z2,z1) - x·c, or with the sign the other way round
											p.First, p.Secnd = e.Comm(h, B(z2-x*v), B(z1-x*rnd))
										}
										r.Step(1)
										r.Trace(1)
										if kd.verify(f, c, c2, lab.WireP(p)) == nil {
											yes++
										}
									}
								}
								r.State(1)
								if yes*7 > 4*int(n*n) {
									r.Fail([]int64{k, v, rnd, d, x}, "%s key %d: proofs of %s for (%d,%d), difference %d, made for the guessed challenge %d: %d of %d accepted", e.name, k, kd.name, v, rnd, d, x, yes, n*n)
								}
							}
						}
					}
				})
			}
		})

		// real curve: the same, with every guess a forger could compute beforehand
		realOnly(r, "responses first", func(e *env) {
			for _, h := range []*big.Int{B(3), B(1)} {
				f := e.factory(h)
				for _, w := range [][4]*big.Int{{B(5), B(7), B(6), B(8)}, {B(0), B(0), B(1), B(0)}, {sub(e.N, B(1)), B(1), B(0), B(4)}, {B(3), B(9), B(6), B(18)}, {B(3), B(9), B(6), B(19)}} {
					c, c2 := e.commit(h, w[0], w[1]), e.commit(h, w[2], w[3])
					parts := [][]byte{lab.EncC(c), lab.EncC(c2), lab.Enc(e.g, e.g.ScalarBaseMult(h)), lab.Enc(e.g, e.g.Gen())}
					guess := []*big.Int{B(0), B(1), sub(e.N, B(1)), B(2)}
					for m := 0; m < 1<<len(parts); m++ {
						var msg []byte
						for i, p := range parts {
							if m>>i&1 == 1 {
								msg = append(msg, p...)
							}
						}
						guess = append(guess, pkg.HashToBigInt(msg))
					}
					zs := []*big.Int{B(0), B(1), B(12345), sub(e.N, B(1))}
					r.Parallel(len(guess), func(gi int) {
						x := guess[gi]
						for _, z1 := range zs {
							for _, z2 := range append([]*big.Int{x, e.Mod(sub(B(0), x)), e.Mod(mul(x, B(2)))}, zs...) {
								if r.Late() {
									return
								}
								if w[0].Sign() != 0 || w[1].Sign() != 0 {
									var p lab.Proof
									p.Z1, p.Z2 = z1, z2
									p.First, p.Secnd = e.Comm(h, sub(z2, mul(x, w[0])), sub(z1, mul(x, w[1])))
									r.Step(1)
									r.Trace(1)
									if know.verify(f, c, nil, lab.WireP(p)) == nil {
										r.Fail([]string{w[0].String(), w[1].String(), x.String(), z1.String(), z2.String()}, "a proof of knowledge assembled for the guessed challenge %d (%v) is accepted", gi, x)
									}
								}
								var p lab.Proof
								p.Z1, p.Z2 = z1, z2
								p.First, p.Secnd = e.Comm(h, sub(mul(z2, w[0]), mul(x, w[2])), sub(add(z1, mul(z2, w[1])), mul(x, w[3])))
								r.Step(1)
								r.Trace(1)
								if refresh.verify(f, c, c2, lab.WireP(p)) == nil {
									r.Fail([]string{w[0].String(), w[1].String(), w[2].String(), w[3].String(), x.String()}, "a false proof of refreshment assembled for the guessed challenge %d (%v) is accepted", gi, x)
								}
							}
						}
						r.State(1)
					})
				}
			}
		})

		// real curve: the statement chosen last. If the challenge leaves out a part of the statement,
		// that part can be solved for once the challenge is known.
		realOnly(r, "statement last", func(e *env) {
			h := B(3)
			f := e.factory(h)
			for _, w := range [][4]int64{{5, 7, 11, 13}, {1, 0, 1, 1}, {0, 0, 6, 2}} {
				xf, xs := e.Comm(h, B(w[2]), B(w[3]))
				known := e.commit(h, B(w[0]), B(w[1]))
				parts := [][]byte{lab.EncC(known), lab.Wire(e.Mul(h)), lab.Wire(e.G()), lab.Wire(xf), lab.Wire(xs)}
				for m := 0; m < 1<<len(parts); m++ {
					for dup := 0; dup < 2; dup++ {
						var msg []byte
						for i, p := range parts {
							if m>>i&1 == 1 {
								msg = append(msg, p...)
								if i == 0 && dup == 1 {
									msg = append(msg, p...)
								}
							}
						}
						x := pkg.HashToBigInt(msg)
						inv := new(big.Int).ModInverse(x, e.N)
						z1 := B(12345)
						// knowledge: x·c = Create(z2,z1) - xy
						z2 := B(777)
						cv, cr := mul(inv, sub(z2, B(w[2]))), mul(inv, sub(z1, B(w[3])))
						p := lab.Proof{Z1: z1, Z2: z2, First: xf, Secnd: xs}
						if know.verify(f, e.commit(h, cv, cr), nil, lab.WireP(p)) == nil {
							r.Fail(m, "a proof of knowledge made before the commitment it is about is accepted (challenge from parts %b)", m)
						}
						// refreshment: x·c2 = Create(0,z1) + x·c1 - xy, and x·c1 = xy + x·c2 - Create(0,z1)
						p.Z2 = x
						if refresh.verify(f, known, e.commit(h, sub(B(w[0]), mul(inv, B(w[2]))), add(B(w[1]), mul(inv, sub(z1, B(w[3]))))), lab.WireP(p)) == nil {
							r.Fail(m, "a false refreshment chosen after its proof is accepted (challenge from parts %b)", m)
						}
						if refresh.verify(f, e.commit(h, add(B(w[0]), mul(inv, B(w[2]))), sub(B(w[1]), mul(inv, sub(z1, B(w[3]))))), known, lab.WireP(p)) == nil {
							r.Fail(m, "a false refreshment of a commitment chosen after its proof is accepted (challenge from parts %b)", m)
						}
						r.Step(3)
						r.Trace(3)
					}
				}
				r.State(1)
			}
		})

		// real curve: a prover who knows both openings and the challenge function, with the values related
		realOnly(r, "false refreshments", func(e *env) {
			h := B(3)
			f := e.factory(h)
			for _, w := range [][4]int64{{5, 7, 10, 14}, {5, 7, 10, 20}, {1, 0, 2, 0}, {5, 7, 0, 0}, {5, 7, -5, -7}, {2, 3, 6, 1}, {0, 0, 1, 1}, {4, 4, 5, 4}} {
				if w[0] == w[2] {
					continue
				}
				c1, c2 := e.commit(h, e.Mod(B(w[0])), e.Mod(B(w[1]))), e.commit(h, e.Mod(B(w[2])), e.Mod(B(w[3])))
				// the witness (z2 multiplies c1): choose the first message, hash as the verifier does, solve
				for _, tau := range []int64{0, 1, 5} {
					for _, sigma := range []int64{0, 1, 77} {
						for _, d := range []int64{0, 1} {
							var p lab.Proof
							first, second := e.Comm(h, B(tau*w[0]+d), B(tau*w[1]+sigma))
							xy := e.comm(first, second)
							msg := append(append(append([]byte{}, lab.EncC(c1)...), lab.EncC(c2)...), lab.EncC(xy)...)
							for _, x := range []*big.Int{pkg.HashToBigInt(msg), pkg.HashToBigInt(msg[:len(msg)-len(lab.EncC(xy))])} {
								// z2 with z2·v1 = tau·v1 + d + x·v2, z1 with z1 + z2·r1 = tau·r1 + sigma + x·r2
								var cand []*big.Int
								if inv := new(big.Int).ModInverse(e.Mod(B(w[0])), e.N); inv != nil {
									cand = append(cand, e.Mod(mul(inv, add(B(tau*w[0]+d), mul(x, B(w[2]))))))
								}
								cand = append(cand, x, e.Mod(add(x, B(tau))), B(0), B(tau), e.Mod(mul(x, B(2))))
								for _, z2 := range cand {
									z1 := e.Mod(sub(add(B(tau*w[1]+sigma), mul(x, B(w[3]))), mul(z2, B(w[1]))))
									p = lab.Proof{Z1: z1, Z2: z2, First: first, Secnd: second}
									r.Step(1)
									r.Trace(1)
									if refresh.verify(f, c1, c2, lab.WireP(p)) == nil {
										r.Fail(fmt.Sprint(w), "a proof that %v·G's refreshment is (%d,%d), of a commitment to (%d,%d), is accepted (tau %d, sigma %d, d %d)", h, w[2], w[3], w[0], w[1], tau, sigma, d)
									}
								}
								// the honest prover cannot help either
								enc, err := refresh.prove(f, c1, c2, B(w[0]), e.Mod(B(w[3]-w[1])))
								if err == nil || enc != nil && refresh.verify(f, c1, c2, enc) == nil {
									r.Fail(fmt.Sprint(w), "the prover's own proof of a false refreshment is accepted")
								}
								r.Step(1)
							}
						}
					}
				}
				r.State(1)
			}
			r.Sample(map[string]string{"false statement": "c1 to (5,7), c2 to (10,14)", "forgery": "multiple of c1 as the refreshed commitment"})
		})
	})
}
