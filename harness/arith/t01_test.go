package arith

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"
)

// contributing are the draws of a party that decide the secrets of a presignature, in the
// order of the secrets.
func contributing(r *mc.Run, e *env, n, t int) (out []string) {
	see := func(prefix []int) (v []lab.Aff, labels []string) {
		r.Replay(prefix, func(ch *mc.Chooser) {
			c := e.house(r, n, ch, 1, "which draws contribute")
			before := len(ch.Labels())
			m := c.presign(t)
			v = m.all[:]
			labels = ch.Labels()
			for i := 0; i < before; i++ {
				labels[i] = ""
			}
		})
		return
	}
	base, labels := see(nil)
	out = make([]string, 4)
	for i, l := range labels {
		if len(l) < 8 || l[:8] != "party 0 " {
			continue
		}
		p := make([]int, i+1)
		p[i] = 1
		v, _ := see(p)
		for j := range v {
			if !v[j].Same(base[j]) {
				if out[j] != "" {
					out[j] += "?"
				} else {
					out[j] = l
				}
			}
		}
	}
	return
}

func TestT01(t *testing.T) {
	check(t, "T01", func(r *mc.Run) {
		prepare(r)
		tiny(r, 7, "secrets and messages", func(e *env) {
			for n := 2; n <= 3; n++ {
				for t := 1; t <= n; t++ {
					if n == 3 && t != 2 && !r.Thorough {
						continue
					}
					ls := contributing(r, e, n, t)
					r.Note("%d parties, threshold %d: the secrets depend on the draws %q", n, t, ls)
					vary := map[string]bool{"message": true}
					for i, l := range ls {
						if i != role.k || n == 2 && r.Thorough {
							vary[l] = true
						}
					}
					if n == 3 && !r.Thorough {
						delete(vary, ls[role.rho])
					}
					r.ExploreFrom(-1, func(l string) bool { return vary[l] }, func(ch *mc.Chooser) {
						c := e.house(r, n, ch, 1, fmt.Sprintf("threshold %d", t))
						c.presign(t)
						c.signs(B(int64(ch.Choose(7, "message"))), nil)
						r.State(1)
						r.Trace(1)
					})
				}
			}
		})
		tiny(r, 7, "nonces", func(e *env) {
			// every nonce with every message, and earlier signatures that stay as they are
			ls := contributing(r, e, 2, 2)
			r.ExploreFrom(-1, func(l string) bool { return l == ls[role.k] || l == ls[role.tau] || l == "message" }, func(ch *mc.Chooser) {
				c := e.house(r, 2, ch, 1, "two signatures")
				c.presign(2)
				c.presign(1)
				m := B(int64(ch.Choose(7, "message")))
				one := c.signs(m, nil)
				c.signs(add(m, B(1)), nil)
				for i, s := range one {
					if s.err != nil {
						continue
					}
					if r, s2 := c.look(s.sig); r.Cmp(s.r) != 0 || s2.Cmp(s.s) != 0 {
						c.fail("the signature (%v, %v) of party %d is (%v, %v) after signing another message", s.r, s.s, i, r, s2)
					}
				}
				r.State(1)
				r.Trace(1)
			})
		})
		tiny(r, 199, "committees", func(e *env) {
			for n := 2; n <= 8; n++ {
				for t := 1; t <= n; t++ {
					if n > 5 && t > 1 && t < n-2 && !r.Thorough {
						continue
					}
					r.Parallel(map[bool]int{true: 40, false: map[bool]int{true: 8, false: 1}[n < 6]}[r.Thorough], func(seed int) {
						c := e.house(r, n, nil, seed, fmt.Sprintf("threshold %d", t))
						ms := []*big.Int{B(0), B(1), B(198), B(199), B(200), B(12345678901), lsh(255), lsh(300), B(-1), neg(lsh(300)), lsh(900)}
						for i := range ms {
							c.presign((t+i-1)%n + 1)
						}
						var all []*signed
						for _, m := range ms {
							all = append(all, c.signs(m, nil)...)
						}
						for _, s := range all {
							if s.err == nil {
								if r, s2 := c.look(s.sig); r.Cmp(s.r) != 0 || s2.Cmp(s.s) != 0 {
									c.fail("a signature changes later")
								}
							}
						}
						r.State(len(ms))
						r.Trace(len(ms))
					})
				}
			}
		})
		deliveries := func(e *env, n, t, bound int) {
			r.ExploreP(bound, func(ch *mc.Chooser) {
				// the draws are those of the pattern
				c := e.house(r, n, nil, n+10*t, "delivery")
				c.presign(t)
				lost := map[[3]int]bool{}
				for round := 0; round < 3; round++ {
					for from := 0; from < n; from++ {
						for to := 0; to < n; to++ {
							if from != to && ch.Choose(2, fmt.Sprintf("round %d from %d to %d", round, from, to)) == 1 {
								lost[[3]int{round, from, to}] = true
							}
						}
					}
				}
				c.exec.what = func() any {
					return map[string]any{"curve": e.name, "parties": n, "threshold": t, "lost": ch.Deviations()}
				}
				c.signs(B(5), func(round, from, to int) bool { return !lost[[3]int{round, from, to}] })
				r.State(1)
				r.Trace(1)
			})
		}
		tiny(r, 31, "lost messages", func(e *env) {
			for t := 1; t <= 2; t++ {
				deliveries(e, 2, t, -1)
			}
			for t := 1; t <= 3; t++ {
				deliveries(e, 3, t, map[bool]int{true: 5, false: 3}[r.Thorough])
			}
			deliveries(e, 4, 2, map[bool]int{true: 3, false: 1}[r.Thorough])
			deliveries(e, 4, 3, map[bool]int{true: 3, false: 2}[r.Thorough])
		})
		tiny(r, 199, "any set of parties is silent", func(e *env) {
			// from one of the rounds on, in committees up to the bound
			type job struct{ n, t, silent, from int }
			var jobs []job
			for n := 5; n <= map[bool]int{true: 9, false: 7}[r.Thorough]; n++ {
				for t := 1; t <= n; t++ {
					for silent := 0; silent < 1<<n; silent++ {
						for from := 0; from < 3; from += 2 {
							if from == 0 || r.Thorough || (silent+t)%4 == 0 {
								jobs = append(jobs, job{n, t, silent, from})
							}
						}
					}
				}
			}
			r.Parallel(len(jobs), func(i int) {
				k := jobs[i]
				c := e.house(r, k.n, nil, i, map[string]any{"threshold": k.t, "silent": fmt.Sprintf("%b", k.silent), "from round": k.from})
				c.presign(k.t)
				c.signs(B(int64(i)), func(round, from, to int) bool { return round < k.from || k.silent>>from&1 == 0 })
				r.State(1)
				r.Trace(1)
			})
		})
		real(r, "signatures", func(e *env) {
			for n := 2; n <= 3; n++ {
				for t := 1; t <= n; t++ {
					ms := []*big.Int{B(0), B(1), sub(e.N, B(1)), e.N, lsh(256), lab.Hex("9F86D081884C7D659A2FEAA0C55AD015A3BF4F1B2B0B822CD15D6C15B0F00A08")}
					if !r.Thorough {
						ms = []*big.Int{ms[n+t-3], ms[5]}
					}
					r.Parallel(len(ms), func(i int) {
						c := e.house(r, n, nil, 1+i, fmt.Sprintf("threshold %d", t))
						ps := c.presign(t)
						for _, s := range c.signs(ms[i], nil) {
							if s.err == nil && !e.ecdsa(c.key, ms[i], s.r, s.s) && !e.ecdsa(c.key, ms[i], s.s, s.r) {
								r.Finding("T01-not-ecdsa", c.what(), "the pair (%x, %x) is not an ECDSA signature of %x under the key %v: the presignature's secrets are unrelated (nonce %v)", s.r, s.s, ms[i], c.key, ps.k)
								r.Outcome("signatures", "not ECDSA")
							} else if s.err == nil {
								r.Outcome("signatures", "ECDSA")
							}
						}
						r.State(1)
						r.Trace(1)
					})
				}
			}
		})
	})
}

// ecdsa verifies a signature by the book.
func (e *env) ecdsa(key lab.Aff, m, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(e.N) >= 0 || s.Cmp(e.N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, e.N)
	p := e.Add(e.Mul(mul(m, w)), e.Times(key, mul(r, w)))
	return !p.Inf && e.Mod(p.X).Cmp(r) == 0
}

// prepare learns the positions of the secrets.
func prepare(r *mc.Run) {
	tiny(r, 199, "positions", func(e *env) { learn(r, e) })
	real(r, "positions", func(e *env) { learn(r, e) })
}
