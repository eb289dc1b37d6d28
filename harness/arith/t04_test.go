package arith

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"verif/harness/lab"
	"verif/harness/lock"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
)

// agreed checks that all parties hold the joint keys that were announced.
func (c *house) agreed() {
	want := map[string]bool{c.key.String(): true, c.com.String(): true}
	for i, p := range c.ps {
		ks := within[arith.DKey](p)
		if len(ks) != 2 {
			c.r.Skip("a party holds %d keys, not two", len(ks))
			return
		}
		seen := map[string]lab.Aff{}
		for _, k := range ks {
			seen[k.Label()] = lab.See(c.e.g, k.PublicKey())
		}
		for l, k := range seen {
			if !want[k.String()] {
				c.fail("party %d holds %q = %v; the joint keys are %v and %v", i, l, k, c.key, c.com)
			}
		}
		for _, k := range within[arith.DKey](c.ps[0]) {
			if a := lab.See(c.e.g, k.PublicKey()); !a.Same(seen[k.Label()]) {
				c.fail("party 0 holds %q = %v, party %d %v", k.Label(), a, i, seen[k.Label()])
			}
		}
	}
}

// published checks every commitment and every proof published while presigning.
func (c *house) published(net *lock.Net, t int, drawn bool) {
	n := c.n
	e := c.e.key(c.h)
	egf := e.egf
	var gens [][]*commitment.ElGamal
	var rest []int
	for round := 0; round < net.Rounds[0]; round++ {
		var cs []*commitment.ElGamal
		for p := 0; p < n; p++ {
			ps, err := cut("C", net.One(p, round))
			if err != nil || len(ps[0].raw) != len(net.One(p, round)) {
				cs = nil
				break
			}
			eg := &commitment.ElGamal{}
			if err := eg.Decode(bytes.NewReader(ps[0].raw)); err != nil {
				c.fail("the commitment %x of party %d is refused: %v", ps[0].raw, p, err)
			}
			cs = append(cs, eg)
		}
		if cs == nil {
			rest = append(rest, round)
			continue
		}
		gens = append(gens, cs)
		if !drawn {
			continue
		}
		// the commitment hides something the party drew, under the commitment key
		for p := 0; p < n; p++ {
			pt, _ := comm(net.One(p, round))
			found := false
			for _, v := range c.src[p].Ints() {
				if e.Mul(v).Same(e.value(pt)) {
					found = true
					break
				}
			}
			if !found {
				c.fail("the commitment of party %d in round %d of presigning hides none of the numbers it drew, under the commitment key", p, round)
			}
			c.r.Step(1)
		}
	}
	if len(gens) != 4 || len(rest) != 24 {
		c.r.Skip("presigning has %d rounds of commitments and %d others", len(gens), len(rest))
		return
	}
	one := func(round, p int) *bytes.Reader { return bytes.NewReader(net.One(p, round)) }
	bad := func(what string, p, round int, err error) {
		if err != nil {
			c.fail("%s of party %d in round %d is not valid under the commitment key: %v", what, p, round, err)
		}
		c.r.Step(1)
	}
	used := map[int]bool{}
	for i := 0; i < 4; i++ {
		rd := rest[6*i : 6*i+6]
		// which of the secrets is reshared
		at := -1
		for g := range gens {
			all := !used[g]
			for p := 0; p < n && all; p++ {
				var z zkpok.ZKEGKnow
				all = z.Decode(one(rd[0], p)) == nil && z.Verify(egf, gens[g][p]) == nil
			}
			if all {
				at = g
				break
			}
		}
		if at < 0 {
			c.fail("the proofs of knowledge in round %d of presigning are valid for none of the announced commitments under the commitment key", rd[0])
		}
		used[at] = true
		own := make([][]*commitment.ElGamal, n)
		for p := 0; p < n; p++ {
			b := one(rd[2], p)
			cs := make([]*commitment.ElGamal, t)
			for k := range cs {
				cs[k] = &commitment.ElGamal{}
				bad("a commitment", p, rd[2], cs[k].Decode(b))
			}
			for k := range cs {
				var z zkpok.ZKEGKnow
				bad("a proof", p, rd[2], z.Decode(b))
				bad("a proof of knowledge", p, rd[2], z.Verify(egf, cs[k]))
			}
			var z zkpok.ZKEGRefresh
			bad("a proof", p, rd[2], z.Decode(b))
			bad("a refresh proof", p, rd[2], z.Verify(egf, gens[at][p], cs[0]))
			b = one(rd[3], p)
			own[p] = make([]*commitment.ElGamal, n)
			for k := range own[p] {
				own[p][k] = &commitment.ElGamal{}
				bad("a commitment", p, rd[3], own[p][k].Decode(b))
			}
			for k := range own[p] {
				// the commitment to the evaluation at k+1, from those to the coefficients
				sum, tmp := egf.Neutral(), egf.Neutral()
				for j := range cs {
					pow := new(big.Int).Exp(B(int64(k+1)), B(int64(j)), nil)
					tmp.Exp(cs[j], pow)
					sum.Compose(sum, tmp)
				}
				var z zkpok.ZKEGRefresh
				bad("a proof", p, rd[3], z.Decode(b))
				bad("a refresh proof", p, rd[3], z.Verify(egf, sum, own[p][k]))
			}
		}
		for p := 0; p < n; p++ {
			for to := 0; to < n; to++ {
				if to == p {
					continue
				}
				v, rnd := c.evaluation(net.By(p, rd[4]).Data[to])
				if eg := egf.Create(v, rnd); !eg.Equal(eg, own[p][to]) {
					c.fail("the evaluation party %d sends to %d in round %d does not open its commitment under the commitment key", p, to, rd[4])
				}
				c.r.Step(1)
			}
			sum := egf.Neutral()
			for q := range own {
				sum.Compose(sum, own[q][p])
			}
			// proof and commitment, in either order
			var errs [2]error
			for order := range errs {
				var z zkpok.ZKEGRefresh
				var eg commitment.ElGamal
				b := one(rd[5], p)
				if order == 0 {
					errs[0] = z.Decode(b)
				}
				if err := eg.Decode(b); err != nil && errs[order] == nil {
					errs[order] = err
				}
				if order == 1 && errs[1] == nil {
					errs[1] = z.Decode(b)
				}
				if errs[order] == nil {
					errs[order] = z.Verify(egf, sum, &eg)
				}
			}
			if errs[1] != nil {
				bad("the refreshed commitment", p, rd[5], errs[0])
			}
		}
	}
}

func TestT04(t *testing.T) {
	check(t, "T04", func(r *mc.Run) {
		prepare(r)
		boot := func(e *env, n int, ch *mc.Chooser, seed int) *house { return e.exec(r, n, ch, seed, "keys").start() }
		// draws that move a key, by key
		moving := func(e *env, n, seed int) (key, com map[string]bool) {
			see := func(prefix []int) (a, b lab.Aff, l []string) {
				r.Replay(prefix, func(ch *mc.Chooser) {
					c := boot(e, n, ch, seed)
					c.agreed()
					a, b, l = c.key, c.com, ch.Labels()
				})
				return
			}
			a, b, labels := see(nil)
			key, com = map[string]bool{}, map[string]bool{}
			for i, l := range labels {
				for by := 1; by < map[bool]int{true: 4, false: 6}[e.Tiny]; by++ {
					p := make([]int, i+1)
					p[i] = by
					a2, b2, _ := see(p)
					if !a2.Same(a) {
						key[l] = true
					}
					if !b2.Same(b) {
						com[l] = true
					}
					if key[l] && com[l] {
						r.Fail(map[string]any{"curve": e.name, "parties": n, "pattern": seed, "draw": l}, "the %s decides both the signing key and the commitment key", l)
					}
					r.Step(1)
				}
			}
			// one draw by each party for each key
			for p := 0; p < n; p++ {
				for which, m := range map[string]map[string]bool{"signing": key, "commitment": com} {
					k := 0
					for l := range m {
						if of(p, l) {
							k++
						}
					}
					if k == 0 {
						r.Fail(map[string]any{"curve": e.name, "parties": n, "pattern": seed}, "nothing that party %d draws changes the %s key", p, which)
					}
				}
			}
			r.State(len(labels))
			r.Trace(1)
			return
		}
		tiny(r, 7, "independence", func(e *env) {
			for n := 2; n <= map[bool]int{true: 4, false: 3}[r.Thorough]; n++ {
				for who := -1; who < n; who++ {
					if who < 0 && (n > 3 || n == 3 && !r.Thorough) {
						continue
					}
					key, com := moving(e, n, 1)
					count := map[[2]string]int{}
					var mu sync.Mutex
					all := 1
					for _, m := range []map[string]bool{key, com} {
						for l := range m {
							if who < 0 || of(who, l) {
								all *= 7
							}
						}
					}
					r.ExploreFrom(-1, func(l string) bool { return (key[l] || com[l]) && (who < 0 || of(who, l)) }, func(ch *mc.Chooser) {
						c := boot(e, n, ch, 1)
						c.agreed()
						mu.Lock()
						count[[2]string{c.key.String(), c.com.String()}]++
						mu.Unlock()
						r.State(1)
						r.Trace(1)
					})
					r.Outcome("pairs of keys", fmt.Sprintf("%d parties, draws of %d: %d pairs", n, who, len(count)))
					for k, v := range count {
						if len(count) != 49 || v*49 != all {
							r.Fail(map[string]any{"curve": e.name, "parties": n, "draws of": who}, "the %d ways to draw give %d pairs of keys; %v %d times, where each of 49 should come up equally often", all, len(count), k, v)
						}
					}
				}
			}
		})
		tiny(r, 199, "one draw at a time", func(e *env) {
			for n := 2; n <= map[bool]int{true: 8, false: 6}[r.Thorough]; n++ {
				r.Parallel(map[bool]int{true: 20, false: 4}[r.Thorough], func(seed int) { moving(e, n, seed) })
			}
		})
		tiny(r, 7, "published", func(e *env) {
			// every pair of keys
			for n := 2; n <= map[bool]int{true: 4, false: 3}[r.Thorough]; n++ {
				key, com := moving(e, n, 1)
				for t := 1; t <= n; t++ {
					r.ExploreFrom(-1, func(l string) bool { return (key[l] || com[l]) && of(0, l) }, func(ch *mc.Chooser) {
						c := boot(e, n, ch, 1)
						c.published(c.presign(t).net, t, false)
						r.State(1)
						r.Trace(1)
					})
				}
			}
		})
		tiny(r, 199, "published", func(e *env) {
			for n := 2; n <= 9; n++ {
				for t := 1; t <= n; t++ {
					if n > 6 && t > 1 && t < n-1 {
						continue
					}
					r.Parallel(map[bool]int{true: 200, false: 16}[r.Thorough]/map[bool]int{true: 1, false: 16}[n < 6], func(seed int) {
						c := boot(e, n, nil, seed)
						c.agreed()
						for i := 0; i < 2; i++ {
							c.published(c.presign(t).net, t, true)
							r.State(1)
							r.Trace(1)
						}
					})
				}
			}
		})
		real(r, "one draw at a time", func(e *env) {
			for n := 2; n <= 3; n++ {
				moving(e, n, 1)
			}
		})
		real(r, "published", func(e *env) {
			for n := 2; n <= map[bool]int{true: 4, false: 3}[r.Thorough]; n++ {
				r.Parallel(n*map[bool]int{true: 12, false: 2}[r.Thorough], func(i int) {
					t := i%n + 1
					c := e.house(r, n, nil, i/n, fmt.Sprintf("threshold %d", t))
					c.agreed()
					c.published(c.presign(t).net, t, true)
					r.State(1)
					r.Trace(1)
				})
			}
		})
	})
}
