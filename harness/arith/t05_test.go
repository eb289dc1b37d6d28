package arith

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

func TestT05(t *testing.T) {
	check(t, "T05", func(r *mc.Run) {
		prepare(r)
		// What is sent while signing, for all values of the secrets of a presignature.
		sent := func(e *env, n, t, seed int, free []int, ms []int64, lossy bool) {
			q := e.N.Int64()
			ls := contributing(r, e, n, t)
			vary := map[string]bool{}
			for _, i := range free {
				vary[ls[i]] = true
			}
			var mu sync.Mutex
			nonce := map[int64]int64{}
			// messages lost: none, all to one party in one round, all of one party in one round
			var patterns []func(round, from, to int) bool
			var names []string
			patterns, names = append(patterns, nil), append(names, "nothing")
			for k := 0; k < 3 && lossy; k++ {
				for p := 0; p < n; p++ {
					patterns = append(patterns, func(round, from, to int) bool { return round != k || to != p })
					names = append(names, fmt.Sprintf("what is sent to party %d in round %d", p, k))
					patterns = append(patterns, func(round, from, to int) bool { return round != k || from != p })
					names = append(names, fmt.Sprintf("what party %d sends in round %d", p, k))
				}
			}
			for i, deliver := range patterns {
				for _, m := range ms {
					type key struct{ k, tau, s, next int64 }
					type view struct{ sent, secrets string }
					seen := map[key]view{}
					of := map[key]int{}
					r.ExploreFrom(-1, func(l string) bool { return vary[l] }, func(ch *mc.Chooser) {
						c := e.house(r, n, ch, seed, map[string]any{"threshold": t, "message": m, "lost": names[i]})
						ps := c.presign(t)
						then := c.presign(n + 1 - t)
						res, net := c.sign(B(m), deliver)
						// and once more with the next presignature
						_, net2 := c.sign(B(m+1), nil)
						k := key{e.Log(ps.k), e.Log(ps.tau), 0, e.Log(then.k)}
						mu.Lock()
						defer mu.Unlock()
						for _, s := range res {
							if i == 0 && s.err == nil {
								nonce[k.k] = e.Mod(s.r).Int64()
							}
						}
						rr, ok := nonce[k.k]
						if !ok && k.tau != 0 {
							return
						}
						k.s = (m*e.Log(ps.rho) + rr*e.Log(ps.eta)) % q
						if k.tau == 0 {
							k.s = 0
						}
						v := view{secrets: fmt.Sprintf("ρ = %d, η = %d", e.Log(ps.rho), e.Log(ps.eta))}
						for p := 0; p < n; p++ {
							for round := 0; round < 3; round++ {
								if round < net.Rounds[p] {
									v.sent += fmt.Sprintf("party %d sends %x in round %d; ", p, net.By(p, round).Data, round)
								}
								if round < net2.Rounds[p] {
									v.sent += fmt.Sprintf("party %d sends %x in round %d of the next signature; ", p, net2.By(p, round).Data, round)
								}
							}
						}
						of[k]++
						if w, ok := seen[k]; !ok {
							seen[k] = v
						} else if w.sent != v.sent {
							c.fail("what is sent while signing %d is not determined by the nonce %d, the mask %d and the sum m·ρ + r·η = %d: with %s and with %s it is not the same: %s", m, k.k, k.tau, k.s, w.secrets, v.secrets, differ(w.sent, v.sent))
						}
						r.Step(1)
						r.Trace(1)
					})
					r.State(len(seen))
					for k, x := range of {
						if k.tau != 0 {
							r.Outcome("secrets that look the same", fmt.Sprintf("%d parties, threshold %d: %d", n, t, x))
						}
					}
				}
			}
		}
		pairs := func() []int { return []int{role.rho, role.eta} }
		tiny(r, 7, "signing", func(e *env) {
			for n := 2; n <= 3; n++ {
				for t := 1; t <= n; t++ {
					ms := []int64{0, 1, 5}
					if n == 3 {
						ms = []int64{0, 5}
					}
					if r.Thorough {
						ms = []int64{0, 1, 2, 3, 4, 5, 6, 7, 12}
					}
					sent(e, n, t, masked(r, e, n, t), pairs(), ms, true)
				}
			}
			if r.Thorough {
				for n := 4; n <= 5; n++ {
					for t := 1; t <= n; t++ {
						sent(e, n, t, masked(r, e, n, t), pairs(), []int64{0, 3}, true)
					}
				}
				sent(e, 2, 2, 1, []int{role.rho, role.eta, role.tau}, []int64{0, 3}, true)
			}
		})
		tiny(r, 31, "signing in a larger group", func(e *env) {
			sent(e, 2, 2, masked(r, e, 2, 2), pairs(), []int64{0, 7}, r.Thorough)
		})
		tiny(r, 7, "values of the secrets", func(e *env) {
			for n := 2; n <= 3; n++ {
				if n == 3 && !r.Thorough {
					break
				}
				t := n
				ls := contributing(r, e, n, t)
				vary := map[string]bool{}
				for _, l := range ls {
					vary[l] = true
				}
				var mu sync.Mutex
				seen := map[[4]int64]int{}
				total := 0
				r.ExploreFrom(-1, func(l string) bool { return vary[l] }, func(ch *mc.Chooser) {
					c := e.house(r, n, ch, 1, "all contributions of a party")
					ps := c.presign(t)
					var v [4]int64
					for i := range v {
						v[i] = e.Log(ps.all[i])
					}
					mu.Lock()
					defer mu.Unlock()
					seen[v]++
					total++
					r.Step(1)
					r.Trace(1)
				})
				r.State(len(seen))
				if r.Late() {
					return
				}
				want := 7 * 7 * 7 * 7
				if len(seen) != want {
					r.Fail(map[string]any{"parties": n, "draws": ls}, "over all contributions of one party the four secrets of a presignature take %d of %d values together", len(seen), want)
				}
				for v, x := range seen {
					if x*want != total {
						r.Fail(map[string]any{"parties": n, "draws": ls, "secrets": v}, "over all contributions of one party the secrets %v come %d times in %d, not as often as all others", v, x, total)
					}
				}
			}
		})
		tiny(r, 199, "several presignatures", func(e *env) {
			if e.reused(r) {
				return
			}
			for n := 2; n <= 3; n++ {
				for p := 0; p < n; p++ {
					count := 3
					if r.Thorough {
						count = 5
					}
					one := func(prefix []int) (row []lab.Aff, reads int, labels []string) {
						r.Replay(prefix, func(ch *mc.Chooser) {
							c := e.house(r, n, ch, 3, map[string]any{"party": p})
							row = append(row, c.key)
							for i := 0; i < count; i++ {
								ps := c.presign(1 + i%n)
								row = append(row, ps.all[:]...)
								if i == 1 {
									c.signs(B(3), nil)
								}
							}
							labels = ch.Labels()
							reads = len(c.src[p].Got)
						})
						r.Step(1)
						return
					}
					base, reads, labels := one(nil)
					var rows [][]int64
					for i, l := range labels {
						if !of(p, l) {
							continue
						}
						for v := 1; v < 199; v++ {
							prefix := make([]int, i+1)
							prefix[i] = v
							row, got, _ := one(prefix)
							if got != reads {
								continue
							}
							var diff []int64
							moved := false
							for j := range row {
								d := e.Log(e.Add(row[j], e.Neg(base[j])))
								diff = append(diff, d)
								moved = moved || d != 0
							}
							if moved {
								rows = append(rows, diff)
							}
							break
						}
					}
					if rk := rank(rows, 199); rk != len(base) {
						r.Fail(map[string]any{"parties": n, "party": p, "presignatures": count}, "the key and the %d secrets of %d presignatures depend on %d independent draws of party %d only", len(base)-1, count, rk, p)
					}
					r.State(len(base))
					r.Trace(len(rows))
				}
			}
		})
		real(r, "secrets", func(e *env) {
			n := 2
			c := e.house(r, n, nil, 5, "several presignatures")
			seen := map[string]string{fmt.Sprint(c.key): "the key", fmt.Sprint(c.com): "the commitment key"}
			for i := 0; i < 4; i++ {
				ps := c.presign(1 + i%n)
				for j, v := range ps.all {
					name := fmt.Sprintf("secret %d of presignature %d", j, i)
					if other, ok := seen[fmt.Sprint(v)]; ok {
						c.fail("%s is the same as %s", name, other)
					}
					seen[fmt.Sprint(v)] = name
				}
				r.Step(4)
			}
			r.State(1)
			r.Trace(1)
		})
		real(r, "messages", func(e *env) {
			type one struct{ n, t, round, victim int }
			var all []one
			for n := 2; n <= 3; n++ {
				for t := 1; t <= n; t++ {
					all = append(all, one{n, t, -1, 0})
					for round := 0; round < 3; round++ {
						for p := 0; p < n; p++ {
							if n == 2 || p == (round+t)%n || r.Thorough {
								all = append(all, one{n, t, round, p})
							}
						}
					}
				}
			}
			r.Parallel(len(all), func(i int) {
				k := all[i]
				c := e.house(r, k.n, nil, 2+i, fmt.Sprintf("threshold %d, party %d gets nothing in round %d of signing", k.t, k.victim, k.round))
				first := c.presign(k.t)
				second := c.presign(k.n)
				secrets := make([]map[string]string, k.n)
				for p := range secrets {
					secrets[p] = map[string]string{}
					note := func(what string, v *big.Int) {
						if v.BitLen() <= 100 {
							return
						}
						b := v.Bytes()
						rev := make([]byte, len(b))
						for i := range b {
							rev[len(b)-1-i] = b[i]
						}
						for _, form := range []string{string(b), string(rev), v.String(), v.Text(16), v.Text(62)} {
							secrets[p][form] = what
						}
					}
					for i, v := range c.src[p].Ints() {
						note(fmt.Sprintf("draw %d", i), v)
					}
					for i, s := range within[arith.TDSecret](c.ps[p]) {
						for j, v := range within[big.Int](s) {
							note(fmt.Sprintf("number %d in its shared secret %d", j, i), v)
						}
					}
					for i, v := range within[big.Int](c.ps[p]) {
						note(fmt.Sprintf("secret number %d", i), v)
					}
				}
				_, sign := c.sign(B(77), func(round, from, to int) bool { return round != k.round || to != k.victim })
				_, after := c.sign(B(78), nil)
				for step, net := range []*lock.Net{c.boot, first.net, second.net, sign, after} {
					for _, m := range net.Log {
						if !m.All && step < 3 {
							continue // evaluations
						}
						for to, d := range m.Data {
							if to == m.From {
								continue
							}
							r.Step(1)
							for form, what := range secrets[m.From] {
								if step > 2 && m.Round > 0 && form == string(new(big.Int).SetBytes(d).Bytes()) {
									continue // the share that is opened
								}
								if bytes.Contains(d, []byte(form)) {
									c.fail("in %s the message of party %d in round %d contains its %s", []string{"initialising", "presigning", "presigning", "signing", "signing again"}[step], m.From, m.Round, what)
								}
							}
						}
					}
				}
				r.State(1)
				r.Trace(1)
			})
		})
	})
}

// masked is a pattern of draws with which the mask of a presignature is not zero.
func masked(r *mc.Run, e *env, n, t int) int {
	for seed := 1; ; seed++ {
		ok := false
		r.Replay(nil, func(ch *mc.Chooser) {
			c := e.house(r, n, ch, seed, "looking for a mask")
			ok = !c.presign(t).tau.Inf && !c.presign(n+1-t).tau.Inf
		})
		if ok {
			return seed
		}
	}
}

// differ shows where two texts part.
func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("%q and %q", a[from:min(len(a), i+30)], b[from:min(len(b), i+30)])
}

// reused finds out whether presignatures that announce fewer than four secrets work with those of the first one.
func (e *env) reused(r *mc.Run) (fewer bool) {
	const count = 4
	for seed := 1; seed < 6 && (seed == 1 || fewer); seed++ {
		n := 2
		c := e.house(r, n, nil, seed, "secrets of an earlier presignature")
		var vs [][]lab.Aff
		for i := 0; i < count; i++ {
			errs := make([]error, n)
			net := c.run(nil, func(pid int, _ psync.Server) { errs[pid] = c.ps[pid].Presign(uint16(n)) })
			c.ok(errs, "presigning")
			vs = append(vs, c.values(net))
			fewer = fewer || i > 0 && len(vs[i]) < len(vs[0])
		}
		if !fewer || len(vs[0]) != 4 {
			return
		}
		var sigs []*signed
		for i := 0; i < count; i++ {
			res, _ := c.sign(B(int64(5+i)), nil)
			sigs = append(sigs, res[0])
		}
		for missing := 0; missing < 4; missing++ {
			all := true
			for i := 1; i < count && all; i++ {
				if len(vs[i]) != 3 || sigs[i].err != nil {
					all = false
					break
				}
				v := append(append(append([]lab.Aff{}, vs[i][:missing]...), vs[0][missing]), vs[i][missing:]...)
				m := &made{k: v[role.k], rho: v[role.rho], eta: v[role.eta], tau: v[role.tau]}
				all = c.correct(B(int64(5+i)), m, sigs[i].r, sigs[i].s) == ""
			}
			if all {
				c.fail("secret %d of the first presignature is used in %d more", missing, count-1)
			}
		}
		r.Step(2 * count)
	}
	return
}
