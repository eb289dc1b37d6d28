package arith

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// primes give moduli of 768 bits; the last one is just above 2^768.
var primes = [][2]string{
	{"f1eb40eeefe8aca55e87c80efd410021b578429f8eacb7aaa688a86c707ef5286617ecaab6ca06c74f55b10228b8fbd9", "da3b27aed24f4381f4b16f0d3ff668292021f4836046e9d0684fc93ad5cdab4aa2711eea930464385da44b58d78ce267"},
	{"c860646b40f17b10cfcb90a2c717a4df6c5976b9bd38201d2cd231d5a6d30e83274c9ccdd7cc9ac3308242b83d561afb", "d4be6d73ba3fee0adbeb04e088b79ec6e389da1a2599f7a36dd0ea650f6041fbdc71ba6527f0ce2619641df00c17c55d"},
	{"c1e2cf4aaa4b3565abc34ba4f2990a58588fe0198bf3cc3dd8e63ec4bc846710689771c7fe3352ffd549e7ccd105422f", "ef25ebc41d4992b5384d69dc73f68494fce413f7a9ce9e4fb37d0f6c8d7236c267df7c3f961d5ed47ae4fb36db5125a1"},
	{"e9266ccd10a1aeb5c92fa19ee74155b21c32bb6d17c20830c702a0ed0bc0490257b8361ff5051fb43910564c505853c3", "ed0bb33f2b9ae893394ef38eb7882b4b6d84810fc20001fe5cea9294867f7a0bbdc9d055555dc943bd09ff735c3447a5"},
	{"d3a1b7c59e2f40168bd7719ac3e5f2046b8d1c3a57e9f0b25d", "135ab87ac4b99eb276f11c45a4e58b1e0bfdd05f22a2480e3f534abd19caad6286858aa989c223ae377d95488f949d3e03e3a954ee987c672decb4e8bc159b93bc80d756f846c63"},
}

type ring struct {
	priv []*paillier.PrivateKey
	pub  []*paillier.PublicKey
}

func newRing(ps [][2]*big.Int) (k ring) {
	for _, p := range ps {
		priv, pub := paillier.FromPrimes(p[0], p[1])
		k.priv, k.pub = append(k.priv, priv), append(k.pub, pub)
	}
	return
}

func (e *env) ring(n, shift int) ring {
	var ps [][2]*big.Int
	for i := 0; i < n; i++ {
		if e.Tiny {
			t := [][2]int64{{11, 13}, {13, 17}, {17, 19}, {11, 17}, {251, 241}, {7, 19}}
			if e.N.Int64() > 7 {
				t = [][2]int64{{251, 241}, {241, 239}, {251, 233}, {7, 2341}}
			}
			p := t[(i+shift)%len(t)]
			ps = append(ps, [2]*big.Int{B(p[0]), B(p[1])})
			continue
		}
		p := primes[(i+shift)%len(primes)]
		ps = append(ps, [2]*big.Int{lab.Hex(p[0]), lab.Hex(p[1])})
	}
	return newRing(ps)
}

// multSource answers reads the way the base sources do, but with units for the encryption.
func (x *exec) privMult(k ring, a, b []*big.Int) []*big.Int {
	out, errs := make([]*big.Int, x.n), make([]error, x.n)
	x.run(nil, func(pid int, srv psync.Server) {
		ai, bi := cp(a[pid]), cp(b[pid])
		out[pid], errs[pid] = arith.PrivMult(ai, bi, pid, x.n, srv, k.priv[pid], k.pub[pid], k.pub)
		if ai.Cmp(a[pid]) != 0 || bi.Cmp(b[pid]) != 0 {
			panic(mc.Broken("multiplying changes its operands"))
		}
	})
	x.ok(errs, "multiplying")
	sa, sb, sc := B(0), B(0), B(0)
	for i := range a {
		sa.Add(sa, a[i])
		sb.Add(sb, b[i])
		if out[i] == nil || out[i].Sign() < 0 || out[i].Cmp(x.e.N) >= 0 {
			x.fail("party %d gets the share %v, which is not reduced", i, out[i])
		}
		sc.Add(sc, out[i])
	}
	if x.e.Mod(sc).Cmp(x.e.Mod(mul(sa, sb))) != 0 {
		x.fail("shares %v of (Σ%v)·(Σ%v) add up to %v, not %v", out, a, b, x.e.Mod(sc), x.e.Mod(mul(sa, sb)))
	}
	x.r.Step(1)
	x.r.Trace(1)
	return out
}

func TestA08(t *testing.T) {
	check(t, "A08", func(r *mc.Run) {
		product := func(e *env, n, th int, ch *mc.Chooser, seed int) {
			x := e.exec(r, n, ch, seed, fmt.Sprintf("product, then threshold %d", th))
			k := e.ring(n, seed)
			a, b := x.gen("a"), x.gen("b")
			wa, wb := x.secret(a), x.secret(b)
			c := &shared{ads: make([]*arith.ADSecret, n), tds: make([]*arith.TDSecret, n)}
			errs := make([]error, n)
			x.run(nil, func(pid int, _ psync.Server) {
				c.ads[pid], errs[pid] = arith.Mult(a.ads[pid], b.ads[pid], "c", k.priv[pid], k.pub[pid], k.pub)
			})
			x.ok(errs, "multiplying")
			for i := range c.ads {
				if c.ads[i].Label() != "c" {
					x.fail("the product is labelled %q", c.ads[i].Label())
				}
			}
			// the product of the secrets, where logarithms can be taken; else check the sum of the shares of c in the exponent
			x.reshare(a, th)
			x.reshare(b, th)
			ra, rb := x.value(a.tds), x.value(b.tds)
			if !e.Mul(ra).Same(wa) || !e.Mul(rb).Same(wb) {
				x.fail("the operands reveal to %v and %v after they were multiplied", ra, rb)
			}
			want := e.Mul(mul(ra, rb))
			x.reshare(c, th)
			x.reveals(c.tds, th, want, "the product", func(k int) bool { return k == th-1 || k >= th })
			x.commitments(c, "the product")
			x.exps(c.tds, th, want, "the product", func(k int) bool { return k == n })
			x.lin(c.tds, a.tds, th, B(2), B(3), want, wa)
			r.State(1)
			r.Trace(1)
			if e.Tiny {
				r.Outcome("products", fmt.Sprint(e.Log(want)))
			}
		}
		tiny(r, 7, "shares", func(e *env) {
			var all [][4]int64
			for i := int64(0); i < 7*7*7*7; i++ {
				all = append(all, [4]int64{i % 7, i / 7 % 7, i / 49 % 7, i / 343})
			}
			r.Parallel(len(all), func(i int) {
				v := all[i]
				a, b := []*big.Int{B(v[0]), B(v[1])}, []*big.Int{B(v[2]), B(v[3])}
				r.Explore(1, func(ch *mc.Chooser) {
					e.exec(r, 2, ch, i, map[string]any{"a": fmt.Sprint(a), "b": fmt.Sprint(b)}).privMult(e.ring(2, i), a, b)
				})
				r.State(1)
			})
		})
		tiny(r, 7, "masks", func(e *env) {
			// every value of every draw that some share depends on
			vals := []int64{0, 1, 3, 6}
			e.alts = []int64{0, 1, 6, 35, 36, 65, 66, 70, 71, 92, 110, 142, 255}
			if r.Thorough {
				e.alts = nil
				for v := int64(0); v < 128; v++ {
					e.alts = append(e.alts, v)
				}
			}
			e.alts = append(e.alts, 8192, 30244)
			for n := 2; n <= 3; n++ {
				probe := func(p []int) (s string, labels []string) {
					r.Replay(p, func(ch *mc.Chooser) {
						x := e.exec(r, n, ch, 1, "influence")
						v := []*big.Int{B(2), B(3), B(4)}[:n]
						s = fmt.Sprint(x.privMult(e.ring(n, 0), v, v))
						labels = ch.Labels()
					})
					return
				}
				base, labels := probe(nil)
				inf := map[string]bool{}
				for i, l := range labels {
					for alt := 1; alt <= len(e.alts) && !inf[l]; alt++ {
						p := make([]int, i+1)
						p[i] = alt
						// a number that is drawn again moves all that follow
						if s, ls := probe(p); s != base && len(ls) == len(labels) {
							inf[l] = true
						}
					}
				}
				r.Note("%d parties: shares of the product depend on the draws %v", n, inf)
				for c := 0; c < 256; c++ {
					var a, b []*big.Int
					for i := 0; i < n; i++ {
						m := lock.Mix(c, i)
						if n == 2 {
							m = uint64(c >> (4 * i))
						}
						a, b = append(a, B(vals[m%4])), append(b, B(vals[m/4%4]))
					}
					bound := map[bool]int{true: -1, false: 2}[n == 2]
					if n == 3 && c > 20 && !r.Thorough {
						break
					}
					r.ExploreFrom(bound, func(l string) bool { return inf[l] }, func(ch *mc.Chooser) {
						e.exec(r, n, ch, c, map[string]any{"a": fmt.Sprint(a), "b": fmt.Sprint(b)}).privMult(e.ring(n, c), a, b)
					})
				}
			}
			for n := 1; n <= 6; n++ {
				for c := 0; c < 200; c++ {
					var a, b []*big.Int
					for i := 0; i < n; i++ {
						a, b = append(a, B(int64(lock.Mix(c, i)%7))), append(b, B(int64(lock.Mix(c, i, 1)%7)))
					}
					e.exec(r, n, nil, c, map[string]any{"a": fmt.Sprint(a), "b": fmt.Sprint(b)}).privMult(e.ring(n, c), a, b)
				}
			}
		})
		tiny(r, 7, "used like any other", func(e *env) {
			for n := 2; n <= 4; n++ {
				for th := 1; th <= n; th++ {
					for seed := 1; seed <= map[bool]int{false: 3, true: 20}[r.Thorough]; seed++ {
						r.ExploreP(map[bool]int{true: 1, false: 0}[n == 2 && seed < 3 || n == 3 && r.Thorough && seed == 1], func(ch *mc.Chooser) { product(e, n, th, ch, seed) })
					}
				}
			}
		})
		tiny(r, 7, "large committees", func(e *env) {
			ns := []int{9, 17, 65, 130}
			r.Parallel(len(ns), func(i int) {
				var a, b []*big.Int
				for p := 0; p < ns[i]; p++ {
					a, b = append(a, B(int64(lock.Mix(1, p)%7))), append(b, B(int64(lock.Mix(2, p)%7)))
				}
				e.exec(r, ns[i], nil, 1, map[string]any{"a": fmt.Sprint(a), "b": fmt.Sprint(b)}).privMult(e.ring(ns[i], i), a, b)
			})
		})
		tiny(r, 31, "large committees", func(e *env) {
			for _, n := range []int{9, 17} {
				product(e, n, n/2+1, nil, 1)
			}
		})
		real(r, "shares", func(e *env) {
			vals := []*big.Int{B(0), B(1), sub(e.N, B(1)), lsh(255), sub(e.N, lsh(127))}
			if !r.Thorough {
				vals = vals[:4]
			}
			l := len(vals)
			r.Parallel(l*l*l*l, func(i int) {
				a, b := []*big.Int{vals[i%l], vals[i/l%l]}, []*big.Int{vals[i/l/l%l], vals[i/l/l/l]}
				what := map[string]any{"a": fmt.Sprintf("%x", a), "b": fmt.Sprintf("%x", b)}
				e.exec(r, 2, nil, i, what).privMult(e.ring(2, i), a, b)
				// edge values of the masks: everything the parties draw is an edge value once
				r.Explore(map[bool]int{true: 1, false: 0}[i%16 == 5 || r.Thorough && i%5 == 0], func(ch *mc.Chooser) {
					e.exec(r, 2, ch, i, what).privMult(e.ring(2, i), a, b)
				})
				r.State(1)
			})
			r.Parallel(32, func(i int) {
				var a, b []*big.Int
				n := 3 + i%2
				for j := 0; j < n; j++ {
					a, b = append(a, vals[lock.Mix(i, j)%uint64(l)]), append(b, vals[lock.Mix(i, j, 1)%uint64(l)])
				}
				e.exec(r, n, nil, i, map[string]any{"a": fmt.Sprintf("%x", a), "b": fmt.Sprintf("%x", b)}).privMult(e.ring(n, i), a, b)
			})
		})
		real(r, "used like any other", func(e *env) {
			for n := 2; n <= 3; n++ {
				for th := 1; th <= n; th++ {
					r.ExploreP(0, func(ch *mc.Chooser) { product(e, n, th, ch, 1) })
				}
			}
		})
	})
}

// value reveals with all shares.
func (x *exec) value(tds []*arith.TDSecret) *big.Int {
	vals, errs := make([]*big.Int, x.n), make([]error, x.n)
	x.run(nil, func(pid int, _ psync.Server) { vals[pid], errs[pid] = tds[pid].Reveal() })
	x.ok(errs, "revealing")
	for _, v := range vals {
		if v == nil || v.Cmp(vals[0]) != 0 {
			x.fail("parties reveal %v", vals)
		}
	}
	return vals[0]
}
