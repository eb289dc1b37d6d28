package base

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"
)

func TestZ04(t *testing.T) {
	check(t, "Z04", func(r *mc.Run) {
		// tiny group: all outcomes of the randomness. The first message must be uniform over
		// all (rho, sigma), whatever the witness, and what was drawn for other proofs.
		tinyOnly(r, []int64{7}, nil, "distribution", func(e *env) {
			n := e.N.Int64()
			h := B(3)
			f := e.factory(h)
			wits := [][3]int64{{0, 0, 0}, {1, 1, 1}, {5, 2, 6}, {6, 6, 3}}
			if r.Thorough {
				wits = nil
				for v := int64(0); v < n; v++ {
					for rr := int64(0); rr < n; rr++ {
						wits = append(wits, [3]int64{v, rr, (v + 2*rr) % n})
					}
				}
			}
			for _, k := range []kind{know, refresh} {
				for _, w := range wits {
					c1, c2 := e.commit(h, B(w[0]), B(w[1])), e.commit(h, B(w[0]), B(w[1]+w[2]))
					rnd := B(w[1])
					if k.two {
						rnd = B(w[2])
					}
					prove := func(src *script) lab.Proof {
						var enc []byte
						var err error
						with(src, func() { enc, err = k.prove(f, c1, c2, B(w[0]), rnd) })
						if err != nil {
							r.Fail(w, "%s: no proof: %v", e.name, err)
						}
						r.Step(1)
						return parseP(r, enc)
					}
					// how much is read when nothing is rejected
					base := pattern(0, nil)
					prove(base)
					min := base.total
					reads := len(base.reads)
					need := 1
					if !k.two {
						need = 2
					}
					if min == 0 {
						r.Fail(w, "%s: a proof of %s draws no randomness", e.name, k.name)
					}
					if min > 2 {
						// wide reads: bytes are not enumerable; every value must still be reached from the last byte of each read
						r.Note("%s: %d bytes drawn in %d reads: only the last byte of each is enumerated", k.name, min, reads)
					}
					counts := map[string]int{}
					total := 0
					var walk func(prefix []byte, depth int)
					wide := min > 2
					free := min
					if wide {
						free = reads
					}
					if free > 3 {
						r.Note("%s: %d free bytes: not enumerated", k.name, free)
						continue
					}
					limit := 256
					if free > 2 {
						limit = 64
					}
					walk = func(vals []byte, depth int) {
						if depth < free {
							for v := 0; v < limit; v++ {
								if r.Late() {
									return
								}
								walk(append(append([]byte{}, vals...), byte(v)), depth+1)
							}
							return
						}
						s := &script{}
						pos := 0
						s.next = func(l, read int) []byte {
							b := make([]byte, l)
							if wide {
								if read < len(vals) {
									b[l-1] = vals[read]
								}
								return b
							}
							for i := range b {
								if pos < len(vals) {
									b[i] = vals[pos]
								}
								pos++
							}
							return b
						}
						p := prove(s)
						if s.total != min {
							return // something was rejected; given that nothing was, the outcome must be uniform
						}
						counts[p.First.String()+p.Secnd.String()]++
						total++
					}
					walk(nil, 0)
					if r.Late() {
						return
					}
					want := 1
					for i := 0; i < need; i++ {
						want *= int(n)
					}
					r.State(len(counts))
					r.Trace(total)
					c := map[string]any{"curve": e.name, "proof": k.name, "witness": w}
					if len(counts) < want {
						r.Fail(c, "%s: over all randomness a proof of %s of %v has %d first messages; independent uniform nonces give %d", e.name, k.name, w, len(counts), want)
					}
					lo, hi := total, 0
					for _, x := range counts {
						if x < lo {
							lo = x
						}
						if x > hi {
							hi = x
						}
					}
					// exactly uniform if values are rejected; reduced bytes are uniform up to 256 mod 7
					tol := 0
					if total%want != 0 {
						tol = hi / 4
					}
					if hi-lo > tol {
						r.Fail(c, "%s: the first message of a proof of %s of %v is not uniform: some occur %d times, some %d, of %d", e.name, k.name, w, lo, hi, total)
					}
					r.Outcome("first messages "+k.name, fmt.Sprintf("%d values, each %d..%d times", len(counts), lo, hi))
				}
			}
			r.Sample(map[string]string{"curve": e.name, "randomness": "all byte values of all reads", "witnesses": fmt.Sprint(len(wits))})
		})

		// tiny group: proofs made one after the other: each has its own randomness
		tinyOnly(r, []int64{31}, nil, "sequences", func(e *env) {
			h := B(3)
			f := e.factory(h)
			c1, c2, c3 := e.commit(h, B(5), B(7)), e.commit(h, B(5), B(9)), e.commit(h, B(2), B(7))
			type step struct {
				name string
				run  func() []byte
			}
			pv := func(k kind, v, rnd int64, a, b int) func() []byte {
				cs := []interface{}{c1, c2, c3}
				_ = cs
				return func() []byte {
					ca, cb := c1, c2
					if a == 3 {
						ca = c3
					}
					enc, err := k.prove(f, ca, cb, B(v), B(rnd))
					if err != nil {
						r.Fail(nil, "%s: no proof: %v", e.name, err)
					}
					return enc
				}
			}
			steps := []step{{"know c1", pv(know, 5, 7, 1, 0)}, {"know c3", pv(know, 2, 7, 3, 0)}, {"refresh c1", pv(refresh, 5, 2, 1, 2)}}
			depth := 3
			if r.Thorough {
				depth = 5
			}
			total := 1
			for i := 0; i < depth; i++ {
				total *= len(steps)
			}
			for code := 0; code < total; code++ {
				// every proof in turn gets other randomness than in the base run: it, and no other, changes
				run := func(changed int) (encs [][]byte, first []string, reads []int) {
					cur := 0
					s := &script{}
					s.next = func(n, _ int) []byte {
						b := bytes.Repeat([]byte{byte(1 + cur)}, n)
						if cur == changed {
							b = bytes.Repeat([]byte{byte(11 + cur)}, n)
						}
						return b
					}
					with(s, func() {
						for i, c := 0, code; i < depth; i, c = i+1, c/len(steps) {
							cur = i
							before := len(s.reads)
							enc := steps[c%len(steps)].run()
							p := parseP(r, enc)
							encs = append(encs, enc)
							first = append(first, p.First.String())
							reads = append(reads, len(s.reads)-before)
							r.Step(1)
						}
					})
					return
				}
				base, bf, reads := run(-1)
				for i := 0; i < depth; i++ {
					if reads[i] == 0 {
						r.Fail(code, "%s: proof %d of the sequence %d draws no randomness", e.name, i, code)
					}
					encs, first, _ := run(i)
					for j := range encs {
						if same := bytes.Equal(encs[j], base[j]); same != (i != j) {
							r.Fail([]int{code, i, j}, "%s: sequence %d: other randomness for proof %d: proof %d the same: %v", e.name, code, i, j, same)
						}
						if i == j && first[j] == bf[j] {
							r.Fail([]int{code, i, j}, "%s: sequence %d: the first message of proof %d does not depend on the randomness drawn for it", e.name, code, i)
						}
					}
					r.Trace(1)
				}
				r.State(1)
			}
		})

		// real curve: every bit of the randomness matters, nonces are as large as scalars,
		// and neither witness nor nonce is sent
		realOnly(r, "bits", func(e *env) {
			h := B(3)
			f := e.factory(h)
			for _, k := range []kind{know, refresh} {
				for _, w := range [][2]*big.Int{{B(0), B(0)}, {lab.Hex("1122334455667788991122334455667788991122334455667788991122334455"), lab.Hex("6655443322110099887766554433221100998877665544332211009988776655")}, {sub(e.N, B(1)), sub(e.N, B(1))}} {
					c1 := e.commit(h, w[0], w[1])
					c2 := e.commit(h, w[0], add(w[1], w[1]))
					prove := func(src *script) ([]byte, lab.Proof) {
						var enc []byte
						var err error
						with(src, func() { enc, err = k.prove(f, c1, c2, w[0], w[1]) })
						if err != nil {
							r.Fail(w, "no proof: %v", err)
						}
						r.Step(1)
						r.Trace(1)
						return enc, parseP(r, enc)
					}
					s := pattern(0x5a, nil)
					encBase, base := prove(s)
					need := 32
					if !k.two {
						need = 64
					}
					if s.total < need {
						r.Fail(k.name, "a proof of %s draws %d bytes of randomness; its nonces need %d", k.name, s.total, need)
					}
					if k.name == "knowledge" && base.First.Same(base.Secnd) {
						r.Note("first message with equal halves")
					}
					secret := func(what string, x *big.Int, enc []byte) {
						if b := x.Bytes(); len(b) >= 16 && bytes.Contains(enc, b) {
							r.Fail(k.name, "a proof of %s contains %s", k.name, what)
						}
					}
					secret("the value", w[0], encBase)
					secret("the randomness of the commitment", w[1], encBase)
					seen := map[string]string{base.First.String() + base.Secnd.String(): "nothing changed"}
					or1, and1 := cp(base.Z1), cp(base.Z1)
					or2, and2 := cp(base.Z2), cp(base.Z2)
					for pos := 0; pos < s.total && pos < 200; pos++ {
						for bit := 0; bit < 8; bit++ {
							enc, p := prove(pattern(0x5a, map[int]byte{pos: 0x5a ^ 1<<bit}))
							key := p.First.String() + p.Secnd.String()
							what := fmt.Sprintf("bit %d of byte %d changed", bit, pos)
							if o, dup := seen[key]; dup {
								r.Fail(what, "proof of %s: the same first message with %s as with %s", k.name, what, o)
							}
							seen[key] = what
							if w[0].Sign() != 0 || w[1].Sign() != 0 {
								secret("the value", w[0], enc)
								secret("the randomness of the commitment", w[1], enc)
								secret("a nonce", new(big.Int).SetBytes(bytes.Repeat([]byte{0x5a}, 32)), enc)
							}
							or1.Or(or1, p.Z1)
							and1.And(and1, p.Z1)
							or2.Or(or2, p.Z2)
							and2.And(and2, p.Z2)
							r.State(1)
						}
					}
					// different nonces for the two halves: with all reads equal the halves are still
					// independent, because flipping any byte gave another first message
					full := sub(lsh(256), B(1))
					if w[1].Sign() != 0 && (or1.Cmp(full) != 0 || and1.Sign() != 0) {
						r.Fail(k.name, "proof of %s: some bits of the first response are constant", k.name)
					}
					if w[0].Sign() != 0 && !k.two && (or2.Cmp(full) != 0 || and2.Sign() != 0) {
						r.Fail(k.name, "proof of %s: some bits of the second response are constant", k.name)
					}
				}
			}
			r.Sample(map[string]string{"randomness": "constant 5a with every single bit flipped", "proofs": "knowledge, refreshment"})
		})
		// real curve: with fresh system randomness no two proofs share a first message
		realOnly(r, "freshness", func(e *env) {
			h := B(3)
			f := e.factory(h)
			c1, c2 := e.commit(h, B(5), B(7)), e.commit(h, B(5), B(9))
			for _, k := range []kind{know, refresh} {
				rnd := B(7)
				if k.two {
					rnd = B(2)
				}
				seen := map[string]bool{}
				halves := map[string]bool{}
				for i := 0; i < 40; i++ {
					enc, err := k.prove(f, c1, c2, B(5), rnd)
					if err != nil {
						r.Fail(k.name, "no proof: %v", err)
					}
					p := parseP(r, enc)
					for _, a := range []lab.Aff{p.First, p.Secnd} {
						if halves[a.String()] {
							r.Fail(k.name, "two proofs of %s share half of their first message", k.name)
						}
						halves[a.String()] = true
					}
					for _, z := range []*big.Int{p.Z1, p.Z2} {
						if seen[z.String()] {
							r.Fail(k.name, "two proofs of %s share a response", k.name)
						}
						seen[z.String()] = true
					}
					r.Step(1)
					r.State(1)
				}
			}
		})
	})
}
