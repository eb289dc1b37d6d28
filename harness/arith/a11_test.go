package arith

import (
	"fmt"
	"math/big"
	"sort"
	"sync"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	psync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// spread is a source of bytes over their whole range, except for the reads in over.
func spread(seed, pid int, over map[int]*big.Int) *lock.Source {
	return &lock.Source{Pick: func(k, n int) []byte {
		b := make([]byte, n)
		if v, ok := over[k]; ok {
			if v.BitLen() <= 8*n {
				return v.FillBytes(b)
			}
			for i := range b {
				b[i] = 0xff
			}
			return b
		}
		for j := range b {
			b[j] = byte(lock.Mix(seed, pid, k, j/8) >> (8 * (j % 8)))
		}
		return b
	}}
}

// sent is what one party sends while multiplying, as those see it who can decrypt it.
type sent struct {
	plain map[string]*big.Int // replies, by run and recipient
	noise map[string]string   // the randomness of ciphertexts
	mod   map[string]*big.Int // the modulus of each reply
	group map[string]string   // ciphertexts that may share theirs
	reads int
	sizes []int
}

// multiply runs one multiplication or several, and returns what party p sent.
func (e *env) multiply(r *mc.Run, n, p, seed, runs int, k ring, a, b []*big.Int, over map[int]*big.Int) (s sent, ok bool) {
	x := e.exec(r, n, nil, seed, map[string]any{"party": p, "a": fmt.Sprint(a), "b": fmt.Sprint(b), "draws": fmt.Sprint(over)})
	for i := range x.src {
		x.src[i] = spread(seed, i, nil)
	}
	x.src[p] = spread(seed, p, over)
	s = sent{plain: map[string]*big.Int{}, noise: map[string]string{}, mod: map[string]*big.Int{}, group: map[string]string{}}
	for run := 0; run < runs; run++ {
		errs := make([]error, n)
		net := x.run(nil, func(pid int, srv psync.Server) {
			_, errs[pid] = arith.PrivMult(cp(a[pid]), cp(b[pid]), pid, n, srv, k.priv[pid], k.pub[pid], k.pub)
		})
		x.ok(errs, "multiplying")
		for round := 0; round < 2; round++ {
			for to := 0; to < n; to++ {
				if to == p {
					continue
				}
				key := k.priv[p]
				name := fmt.Sprintf("run %d, first message", run)
				if round == 1 {
					key = k.priv[to]
					name = fmt.Sprintf("run %d, reply to party %d", run, to)
				}
				c := new(big.Int).SetBytes(net.By(p, round).Data[to])
				m, err := key.Decrypt(c)
				if err != nil {
					return s, false
				}
				one := fmt.Sprintf("%s, to party %d", name, to)
				s.group[one] = name
				if round == 1 {
					s.plain[one], s.mod[one] = m, key.N
				} else if m.Cmp(a[p]) != 0 {
					return s, false
				}
				// c = (1+N)^m·x^N modulo N², hence x^N modulo N
				s.noise[one] = new(big.Int).Mod(c, key.N).String()
			}
		}
	}
	for _, g := range x.src[p].Got {
		s.sizes = append(s.sizes, len(g))
	}
	s.reads = len(s.sizes)
	return s, true
}

func names[V any](m map[string]V) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func TestA11(t *testing.T) {
	check(t, "A11", func(r *mc.Run) {
		skip := func() { r.Skip("the messages of a multiplication do not look as documented") }
		tiny(r, 7, "replies", func(e *env) {
			k := newRing([][2]*big.Int{{B(61), B(67)}, {B(59), B(71)}})
			for p := 0; p < 2; p++ {
				other := 1 - p
				set := func(mine, theirs int64) []*big.Int {
					l := []*big.Int{B(mine), B(mine)}
					l[other] = B(theirs)
					return l
				}
				base, ok := e.multiply(r, 2, p, 1, 1, k, set(3, 6), set(2, 5), nil)
				if !ok {
					skip()
					return
				}
				name := names(base.plain)[0]
				// the draws that the plaintext of the reply depends on
				var draws []int
				for i := 0; i < base.reads; i++ {
					for v := int64(0); v < 256; v += 5 {
						d, ok := e.multiply(r, 2, p, 1, 1, k, set(3, 6), set(2, 5), map[int]*big.Int{i: B(v)})
						r.Step(1)
						if ok && d.reads == base.reads && d.plain[name].Cmp(base.plain[name]) != 0 {
							draws = append(draws, i)
							break
						}
					}
				}
				theirs := []int64{6, 1, 3}
				if r.Thorough {
					theirs = []int64{0, 1, 2, 3, 4, 5, 6}
				}
				best := 2.0
				var worst [2]int64
				at, support := int64(0), 0
				for _, i := range draws {
					values := int64(1) << min(8*uint(base.sizes[i]), 13)
					hist := make([]map[string]int, len(theirs)*7)
					r.Parallel(len(hist), func(c int) {
						h := map[string]int{}
						for v := int64(0); v < values; v++ {
							d, ok := e.multiply(r, 2, p, 1, 1, k, set(3, theirs[c/7]), set(int64(c%7), 5), map[int]*big.Int{i: B(v)})
							if ok && d.reads == base.reads {
								h[d.plain[name].String()]++
							}
						}
						hist[c] = h
						r.Step(int(values))
						r.State(len(h))
					})
					if r.Late() {
						return
					}
					far, pair, of := 0.0, [2]int64{}, int64(0)
					for c := range hist {
						for d := c - c%7; d < c; d++ {
							if dist := distance(hist[c], hist[d]); dist > far {
								far, pair, of = dist, [2]int64{int64(d % 7), int64(c % 7)}, theirs[c/7]
							}
						}
					}
					if far < best {
						best, worst, at, support = far, pair, of, len(hist[0])
					}
					r.Trace(int(values) * len(hist))
				}
				what := map[string]any{"party": p, "its shares": worst, "share of the peer": at}
				if len(draws) == 0 {
					r.Fail(what, "%s: the reply of party %d in a multiplication is not masked: its plaintext depends on no draw", e.name, p)
				}
				r.Outcome("replies", fmt.Sprintf("party %d: distributions over %d values at most %.3f apart", p, support, best))
				if best > 0.25 {
					r.Fail(what, "%s: what party %d replies to the share %d of its peer tells its own share: over all masks, the replies for %d and for %d are %.2f apart (1: never the same)", e.name, p, at, worst[0], worst[1], best)
				}
			}
		})
		tiny(r, 7, "independence", func(e *env) {
			ps := [][2]*big.Int{{B(61), B(67)}, {B(59), B(71)}, {B(53), B(73)}, {B(47), B(83)}, {B(43), B(89)}, {B(41), B(97)}}
			for n := 2; n <= 6; n++ {
				if n > 4 && !r.Thorough {
					break
				}
				k := newRing(ps[:n])
				a, b := []*big.Int{B(3), B(5), B(6), B(2), B(4), B(1)}[:n], []*big.Int{B(2), B(6), B(4), B(3), B(1), B(5)}[:n]
				for p := 0; p < n; p++ {
					base, ok := e.multiply(r, n, p, 2, 2, k, a, b, nil)
					if !ok {
						skip()
						return
					}
					var rows [][]int64
					alone := map[string]bool{}
					for i := 0; i < base.reads; i++ {
						// the values that a draw takes move the plaintexts together or not at all
						count := 0
						for v := int64(1); v < 256 && count < 3; v += 3 {
							d, ok := e.multiply(r, n, p, 2, 2, k, a, b, map[int]*big.Int{i: B(v)})
							r.Step(1)
							if !ok || d.reads != base.reads {
								continue
							}
							var row []int64
							moved := false
							for _, m := range names(base.plain) {
								// the change of the mask, which is less than half of the modulus
								change := new(big.Int).Mod(sub(d.plain[m], base.plain[m]), base.mod[m])
								if new(big.Int).Lsh(change, 1).Cmp(base.mod[m]) > 0 {
									change.Sub(change, base.mod[m])
								}
								diff := change.Mod(change, B(8191)).Int64()
								row = append(row, diff)
								moved = moved || diff != 0
							}
							groups := map[string]bool{}
							for m, x := range d.noise {
								if x != base.noise[m] {
									groups[base.group[m]] = true
								}
							}
							if moved {
								rows = append(rows, row)
							}
							if len(groups) == 1 {
								for g := range groups {
									alone[g] = true
								}
							}
							if moved || len(groups) > 0 {
								count++
							}
						}
					}
					what := map[string]any{"parties": n, "party": p}
					if rk := rank(rows, 8191); rk != len(base.plain) {
						r.Fail(what, "%s: the %d replies of party %d in two multiplications among %d are masked by %d independent values only", e.name, len(base.plain), p, n, rk)
					}
					for m, g := range base.group {
						if !alone[g] {
							r.Fail(what, "%s: %d parties: the ciphertext %q of party %d has no randomness of its own", e.name, n, m, p)
						}
					}
					r.State(base.reads)
					r.Trace(len(rows))
					r.Outcome("masks", fmt.Sprintf("%d parties: %d independent masks", n, len(base.plain)))
				}
			}
		})
		tiny(r, 199, "commitments", func(e *env) {
			k := newRing([][2]*big.Int{{B(509), B(521)}, {B(503), B(523)}, {B(499), B(541)}})
			for n := 2; n <= 3; n++ {
				for p := 0; p < n; p++ {
					one := func(prefix []int) (row []lab.Aff, reads int, labels []string) {
						r.Replay(prefix, func(ch *mc.Chooser) {
							x := e.exec(r, n, ch, 7, map[string]any{"party": p})
							a, b := x.gen("a"), x.gen("b")
							row = append(row, a.gen[p].first, b.gen[p].first)
							for run := 0; run < 2; run++ {
								errs := make([]error, n)
								net := x.run(nil, func(pid int, _ psync.Server) {
									_, errs[pid] = arith.Mult(a.ads[pid], b.ads[pid], "c", k.priv[pid], k.pub[pid], k.pub)
								})
								x.ok(errs, "multiplying")
								for round := 2; round < 4; round++ {
									c, _ := comm(net.One(p, round))
									row = append(row, c.first)
								}
							}
							reads, labels = len(x.src[p].Got), ch.Labels()
						})
						r.Step(1)
						return
					}
					base, reads, labels := one(nil)
					var rows [][]int64
					for i, l := range labels {
						if !of(p, l) {
							continue
						}
						for v := 1; v < 199; v++ {
							prefix := make([]int, i+1)
							prefix[i] = v
							row, got, _ := one(prefix)
							if got != reads {
								continue
							}
							var diff []int64
							for j := range row {
								diff = append(diff, e.Log(e.Add(row[j], e.Neg(base[j]))))
							}
							rows = append(rows, diff)
							break
						}
					}
					if rk := rank(rows, 199); rk != len(base) {
						r.Fail(map[string]any{"parties": n, "party": p}, "the randomness of the %d commitments of party %d around two multiplications depends on %d independent draws only", len(base), p, rk)
					}
					r.State(len(base))
					r.Trace(len(rows))
				}
			}
		})
		real(r, "replies", func(e *env) {
			top := sub(e.N, B(1))
			for _, n := range []int{2, 3, 6} {
				k := e.ring(n, 0)
				for p := 0; p < n; p++ {
					if n == 6 && p%5 > 0 && !r.Thorough {
						continue
					}
					var a, b []*big.Int
					for i := 0; i < n; i++ {
						a, b = append(a, top), append(b, B(4))
					}
					a[p], b[p] = B(3), top
					base, ok := e.multiply(r, n, p, 3, 1, k, a, b, nil)
					if !ok {
						skip()
						return
					}
					best, draws := map[string]*big.Int{}, 0
					var mu sync.Mutex
					r.Parallel(base.reads, func(i int) {
						lo, hi := map[string]*big.Int{}, map[string]*big.Int{}
						moved := false
						for w := 0; w <= 8*base.sizes[i]; w++ {
							if w%32 > 0 && w < 8*base.sizes[i]-10 && (!r.Thorough || n > 2) || n > 2 && w > 0 && w%8 < 6 {
								continue
							}
							d, ok := e.multiply(r, n, p, 3, 1, k, a, b, map[int]*big.Int{i: sub(lsh(uint(w)), B(1))})
							r.Step(1)
							r.Trace(1)
							if !ok || d.reads != base.reads {
								continue
							}
							// replies are integers, those above half of the modulus negative ones
							for m, x := range d.plain {
								v := new(big.Int).Set(x)
								if new(big.Int).Lsh(v, 1).Cmp(d.mod[m]) > 0 {
									v.Sub(v, d.mod[m])
								}
								moved = moved || lo[m] != nil && v.Cmp(lo[m]) != 0
								if lo[m] == nil || v.Cmp(lo[m]) < 0 {
									lo[m] = v
								}
								if hi[m] == nil || v.Cmp(hi[m]) > 0 {
									hi[m] = v
								}
							}
						}
						mu.Lock()
						defer mu.Unlock()
						if moved {
							draws++
						}
						for m := range lo {
							if w := sub(hi[m], lo[m]); best[m] == nil || w.Cmp(best[m]) > 0 {
								best[m] = w
							}
						}
					})
					r.State(draws)
					for _, m := range names(base.plain) {
						bits := 0
						if best[m] != nil {
							bits = best[m].BitLen()
						}
						r.Outcome("masks", fmt.Sprintf("%d parties: party %d: %d draws, replies range over %d bits", n, p, draws, bits))
						if bits < 2*e.N.BitLen()+40 {
							r.Fail(map[string]any{"parties": n, "party": p, "reply": m}, "real: the masks of the replies of party %d range over %d bits only; the products of shares they hide have %d bits", p, bits, 2*e.N.BitLen())
						}
					}
				}
			}
		})
		real(r, "ciphertexts", func(e *env) {
			vals := []*big.Int{B(0), B(1), B(2), sub(e.N, B(1)), lsh(255)}
			for n := 2; n <= 3; n++ {
				if n == 3 && !r.Thorough {
					vals = vals[2:4]
				}
				k := e.ring(n, 1)
				r.Parallel(len(vals)*len(vals), func(i int) {
					var a, b []*big.Int
					for j := 0; j < n; j++ {
						a, b = append(a, vals[i%len(vals)]), append(b, vals[i/len(vals)])
					}
					seen := map[string]string{}
					first := map[string]bool{}
					all := make([]sent, n)
					for p := 0; p < n; p++ {
						s, ok := e.multiply(r, n, p, i+1, 2, k, a, b, nil)
						if !ok {
							skip()
							return
						}
						all[p] = s
						for m, x := range s.noise {
							g := fmt.Sprintf("party %d, %s", p, s.group[m])
							if o, dup := seen[x]; dup && o != g || x == "1" || x == "0" {
								r.Fail([]string{o, g}, "real: %d parties, shares %x and %x: the randomness of the ciphertext %q is %s, that of %q", n, a, b, g, x, o)
							}
							seen[x] = g
							first[g] = true
						}
						r.Step(1)
					}
					// a reply without randomness of its own has that of the question to the power of the share
					for p := 0; p < n; p++ {
						for q := 0; q < n; q++ {
							if p == q {
								continue
							}
							asked, reply := all[q], all[p]
							for _, m := range names(asked.noise) {
								if asked.group[m] != "run 0, first message" {
									continue
								}
								x, _ := new(big.Int).SetString(asked.noise[m], 10)
								x.Exp(x, b[p], k.pub[q].N)
								if reply.noise[fmt.Sprintf("run 0, reply to party %d, to party %d", q, q)] == x.String() {
									r.Fail([]int{p, q}, "real: %d parties, shares %x and %x: the reply of party %d to party %d is not randomised", n, a, b, p, q)
								}
							}
						}
					}
					r.State(len(first))
					r.Trace(1)
				})
			}
		})
	})
}

// distance between two distributions: 0 if they are the same, 1 if they never agree.
func distance(a, b map[string]int) float64 {
	na, nb := 0, 0
	for _, c := range a {
		na += c
	}
	for _, c := range b {
		nb += c
	}
	d := 0.0
	for v, c := range a {
		x := float64(c)/float64(na) - float64(b[v])/float64(nb)
		if x > 0 {
			d += x
		}
	}
	return d
}
