package base

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
)

// proofCase is an honest proof with its statement.
type proofCase struct {
	k      kind
	h      *big.Int
	v, rnd *big.Int // opening of c1
	rr     *big.Int // refreshment
	f      *commitment.ElGamalFactory
	c1, c2 *commitment.ElGamal
	enc    []byte
	p      lab.Proof
}

func (e *env) mk(r *mc.Run, k kind, h, v, rnd, rr *big.Int, src *script) *proofCase {
	pc := &proofCase{k: k, h: h, v: v, rnd: rnd, rr: rr, f: e.factory(h), c1: e.commit(h, v, rnd)}
	w := rnd
	if k.two {
		pc.c2 = e.commit(h, v, add(rnd, rr))
		w = rr
	}
	var err error
	with(src, func() { pc.enc, err = k.prove(pc.f, pc.c1, pc.c2, v, w) })
	if err != nil {
		r.Fail([]string{v.String(), rnd.String()}, "%s: no proof of %s: %v", e.name, k.name, err)
	}
	pc.p = parseP(r, pc.enc)
	return pc
}

func (pc *proofCase) String() string {
	return fmt.Sprintf("proof of %s for (%v,%v), refreshment %v, under key %v", pc.k.name, pc.v, pc.rnd, pc.rr, pc.h)
}

func TestZ02(t *testing.T) {
	check(t, "Z02", func(r *mc.Run) {
		// real curve: every mutation of the proof, of the statement and of the key
		realOnly(r, "mutations", func(e *env) {
			var cases []*proofCase
			for _, k := range []kind{know, refresh} {
				i := 0
				for _, w := range [][3]*big.Int{{B(5), B(7), B(9)}, {B(0), B(4), B(1)}, {sub(e.N, B(1)), sub(e.N, B(2)), lsh(200)}, {B(153), lsh(255), sub(e.N, B(1))}, {B(0), B(0), B(9)}, {B(5), B(0), B(9)}} {
					for _, h := range []*big.Int{B(3), B(1)} {
						i++
						cases = append(cases, e.mk(r, k, h, w[0], w[1], w[2], pattern(byte(0x31+i), map[int]byte{40: 0x77})))
					}
				}
			}
			points := func(a lab.Aff) []lab.Aff {
				l := []lab.Aff{{Inf: true}, e.G(), e.Mul(B(7)), e.Add(a, e.G()), e.Add(a, a)}
				if !a.Inf {
					l = append(l, lab.Aff{X: a.X, Y: sub(e.P, a.Y)})
				}
				return l
			}
			r.Parallel(len(cases), func(i int) {
				pc := cases[i]
				other := cases[(i+2)%len(cases)]
				reject := func(what string, f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, enc []byte) {
					r.Step(1)
					r.Trace(1)
					if err := pc.k.verify(f, c1, c2, enc); err == nil {
						r.Fail(map[string]string{"proof": pc.String(), "change": what}, "%v is accepted after %s", pc, what)
					}
				}
				if err := pc.k.verify(pc.f, pc.c1, pc.c2, pc.enc); err != nil {
					r.Fail(pc.String(), "%v is rejected: %v", pc, err)
				}
				r.State(1)
				// responses
				resp := func(z *big.Int) []*big.Int {
					l := []*big.Int{B(0), B(1), add(z, B(1)), add(z, e.N), add(z, mul(e.N, B(2))), sub(e.N, z), other.p.Z1, other.p.Z2}
					if z.Sign() > 0 {
						l = append(l, sub(z, B(1)))
					}
					for b := uint(0); b < 256; b += 17 {
						l = append(l, new(big.Int).Xor(z, lsh(b)))
					}
					return l
				}
				for _, z := range resp(pc.p.Z1) {
					if q := pc.p; z.Cmp(q.Z1) != 0 {
						q.Z1 = z
						reject(fmt.Sprintf("the first response became %v", z), pc.f, pc.c1, pc.c2, lab.WireP(q))
					}
				}
				for _, z := range resp(pc.p.Z2) {
					if q := pc.p; z.Cmp(q.Z2) != 0 {
						q.Z2 = z
						reject(fmt.Sprintf("the second response became %v", z), pc.f, pc.c1, pc.c2, lab.WireP(q))
					}
				}
				q := pc.p
				q.Z1, q.Z2 = q.Z2, q.Z1
				reject("the responses were swapped", pc.f, pc.c1, pc.c2, lab.WireP(q))
				q = pc.p
				q.Z1, q.Z2 = add(q.Z1, e.N), add(q.Z2, e.N)
				reject("the order was added to both responses", pc.f, pc.c1, pc.c2, lab.WireP(q))
				// first message
				for _, a := range points(pc.p.First) {
					if !a.Same(pc.p.First) {
						q := pc.p
						q.First = a
						reject(fmt.Sprintf("the first half of the first message became %v", a), pc.f, pc.c1, pc.c2, lab.WireP(q))
					}
				}
				for _, a := range points(pc.p.Secnd) {
					if !a.Same(pc.p.Secnd) {
						q := pc.p
						q.Secnd = a
						reject(fmt.Sprintf("the second half of the first message became %v", a), pc.f, pc.c1, pc.c2, lab.WireP(q))
					}
				}
				q = pc.p
				q.First, q.Secnd = q.Secnd, q.First
				if !q.First.Same(q.Secnd) {
					reject("the halves of the first message were swapped", pc.f, pc.c1, pc.c2, lab.WireP(q))
				}
				// statement
				for n, c := range []*commitment.ElGamal{pc.c1, pc.c2} {
					if c == nil {
						continue
					}
					set := func(what string, a, b lab.Aff) {
						c1, c2 := pc.c1, pc.c2
						if n == 0 {
							c1 = e.comm(a, b)
						} else {
							c2 = e.comm(a, b)
						}
						reject(fmt.Sprintf("%s of commitment %d of the statement changed to (%v,%v)", what, n+1, a, b), pc.f, c1, c2, pc.enc)
					}
					f, s := lab.SeeC(c)
					for _, a := range points(f) {
						if !a.Same(f) {
							set("the first half", a, s)
						}
					}
					for _, a := range points(s) {
						if !a.Same(s) {
							set("the second half", f, a)
						}
					}
					if !f.Same(s) {
						set("the order of the halves", s, f)
					}
					if !f.Inf || !s.Inf {
						set("everything", lab.Aff{Inf: true}, lab.Aff{Inf: true})
					}
					of, os := lab.SeeC(other.c1)
					if !of.Same(f) || !os.Same(s) {
						set("everything", of, os)
					}
				}
				if pc.k.two {
					reject("the commitments of the statement were swapped", pc.f, pc.c2, pc.c1, pc.enc)
					reject("the first commitment took the place of the second", pc.f, pc.c1, pc.c1, pc.enc)
					reject("the second commitment took the place of the first", pc.f, pc.c2, pc.c2, pc.enc)
				}
				// key
				for _, k := range []*big.Int{B(0), B(1), B(2), B(3), B(4), sub(e.N, pc.h), sub(e.N, B(1))} {
					if k.Cmp(pc.h) != 0 {
						reject(fmt.Sprintf("the key became %v", k), e.factory(k), pc.c1, pc.c2, pc.enc)
					}
				}
				// every bit and every truncation of the encoding, unless what is decoded is the same proof
				for b := 0; b < 8*len(pc.enc); b++ {
					m := append([]byte{}, pc.enc...)
					m[b/8] ^= 1 << (b % 8)
					if p, err := lab.SeeP(m); err == nil && bytes.Equal(lab.WireP(p), pc.enc) {
						continue
					}
					reject(fmt.Sprintf("bit %d of the encoding was flipped", b), pc.f, pc.c1, pc.c2, m)
				}
				for n := 0; n < len(pc.enc); n++ {
					reject(fmt.Sprintf("the encoding was cut to %d bytes", n), pc.f, pc.c1, pc.c2, pc.enc[:n])
				}
			})
			// any proof against any other statement
			for _, a := range cases {
				for _, b := range cases {
					if a != b && a.k.name == b.k.name {
						r.Step(1)
						if a.k.verify(b.f, b.c1, b.c2, a.enc) == nil {
							r.Fail(a.String(), "%v is accepted as %v", a, b)
						}
					}
				}
			}
			// one proof verified again and again, or read into again, remembers nothing
			var same [][]*proofCase
			for _, a := range cases {
				var l []*proofCase
				for _, b := range cases {
					if a.k.name == b.k.name {
						l = append(l, b)
					}
				}
				same = append(same, l)
			}
			r.Parallel(3*len(cases), func(i int) {
				a, how := cases[i/3], i%3
				w := a.rnd
				if a.k.two {
					w = a.rr
				}
				var o object
				var err error
				switch how {
				case 0:
					with(pattern(0x42, nil), func() { o, err = a.k.object(a.f, a.c1, a.c2, a.v, w) })
				case 1:
					if o, err = a.k.object(nil, nil, nil, nil, nil); err == nil {
						err = o.read(a.enc)
					}
				}
				for _, b := range same[i/3] {
					if how == 2 {
						if o, err = a.k.object(nil, nil, nil, nil, nil); err == nil {
							err = o.read(b.enc)
						}
						if err == nil {
							err = o.verify(b.f, b.c1, b.c2)
						}
						if err == nil {
							err = o.read(a.enc)
						}
					}
					for k := 0; k < 2 && err == nil; k++ {
						if err = o.verify(a.f, a.c1, a.c2); err == nil && a != b && o.verify(b.f, b.c1, b.c2) == nil {
							r.Fail([]string{a.String(), b.String()}, "%v, once accepted, is accepted as %v as well", a, b)
						}
						if err == nil && o.verify(a.f, b.c1, b.c2) == nil && a != b && !(b.c1.Equal(a.c1, b.c1) && (!a.k.two || b.c1.Equal(a.c2, b.c2))) {
							r.Fail([]string{a.String(), b.String()}, "%v, once accepted, is accepted under the same key for the commitments of %v as well", a, b)
						}
						r.Step(1)
					}
				}
				if err != nil {
					r.Fail(a.String(), "%v, verified repeatedly: %v", a, err)
				}
				// a commitment of the statement changes in place
				for n := 0; n < map[bool]int{true: 2, false: 1}[a.k.two] && how > 0; n++ {
					c := []*commitment.ElGamal{a.c1, a.c2}
					for _, b := range same[i/3] {
						now := []*commitment.ElGamal{b.c1, b.c2}[n]
						if now.Equal(now, c[n]) {
							continue
						}
						f, s := lab.SeeC(c[n])
						mine := e.comm(f, s)
						l := []*commitment.ElGamal{a.c1, a.c2}
						l[n] = mine
						if o.read(a.enc) != nil || o.verify(a.f, l[0], l[1]) != nil {
							r.Fail(a.String(), "%v can not be verified again", a)
						}
						mine.Compose(now, a.f.Neutral())
						if o.verify(a.f, l[0], l[1]) == nil {
							r.Fail([]string{a.String(), b.String()}, "%v is still accepted after commitment %d of its statement became that of %v", a, n+1, b)
						}
						r.Step(1)
					}
				}
				// a change to the proof that was accepted
				for b := 0; b < len(a.enc) && how > 0; b++ {
					m := append([]byte{}, a.enc...)
					m[b] ^= 1
					if p, err := lab.SeeP(m); err == nil && bytes.Equal(lab.WireP(p), a.enc) {
						continue
					}
					if o.read(a.enc) != nil || o.verify(a.f, a.c1, a.c2) != nil {
						r.Fail(a.String(), "%v can not be read again", a)
					}
					if o.read(m) == nil && o.verify(a.f, a.c1, a.c2) == nil {
						r.Fail(a.String(), "%v is accepted although byte %d changed when it was read again", a, b)
					}
					r.Step(1)
				}
				r.Trace(1)
			})
			r.Outcome("honest proofs mutated", fmt.Sprint(len(cases)))
			r.Sample(map[string]string{"proof": cases[0].String(), "encoding": fmt.Sprintf("%x", cases[0].enc)})
		})

		// real curve: the challenge is large and belongs to this statement and this first message.
		// Two proofs with the same first message and known witnesses determine their challenges.
		realOnly(r, "challenge", func(e *env) {
			h := B(3)
			var all []*big.Int
			seen := map[string]string{}
			stale := func(k kind, what string, f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, p lab.Proof) {
				r.Step(1)
				r.Trace(1)
				if k.verify(f, c1, c2, lab.WireP(p)) == nil {
					r.Fail(what, "proof of %s: the challenge does not depend on %s: a proof answering the old challenge is accepted", k.name, what)
				}
			}
			f := e.factory(h)
			for fill := 1; fill <= 8; fill++ {
				mkp := func(k kind, v, rnd, rr int64) *proofCase {
					return e.mk(r, k, h, B(v), B(rnd), B(rr), pattern(byte(fill*7), map[int]byte{35: byte(fill)}))
				}
				// knowledge: z1 = sigma + e·r, z2 = rho + e·v, twice with the same sigma and rho
				a, b := mkp(know, 5, 7, 0), mkp(know, 2, 11, 0)
				if !a.p.First.Same(b.p.First) || !a.p.Secnd.Same(b.p.Secnd) {
					r.Note("first messages depend on the statement: challenges of proofs of knowledge not extracted")
					break
				}
				d1, d2 := sub(a.p.Z1, b.p.Z1), sub(a.p.Z2, b.p.Z2)
				// e·7 - e'·11 = d1, e·5 - e'·2 = d2
				det := e.Mod(B(-7*2 + 11*5))
				inv := new(big.Int).ModInverse(det, e.N)
				ea := e.Mod(mul(inv, sub(mul(d2, B(11)), mul(d1, B(2)))))
				sigma, rho := e.Mod(sub(a.p.Z1, mul(ea, B(7)))), e.Mod(sub(a.p.Z2, mul(ea, B(5))))
				wf, ws := e.Comm(h, rho, sigma)
				if !wf.Same(a.p.First) || !ws.Same(a.p.Secnd) {
					r.Fail(a.String(), "the challenge of a proof of knowledge cannot be extracted: its responses do not have the specified form")
				}
				eb := e.Mod(mul(inv, sub(mul(d2, B(7)), mul(d1, B(5)))))
				for i, x := range []*big.Int{ea, eb} {
					name := fmt.Sprintf("knowledge %d/%d", fill, i)
					if o, dup := seen[x.String()]; dup {
						r.Fail(name, "proofs %s and %s answer the same challenge %v", o, name, x)
					}
					seen[x.String()] = name
					all = append(all, x)
				}
				// the answer to the old challenge for a changed first message or statement
				nonces := func(what string, rho, sigma *big.Int) {
					first, second := e.Comm(h, rho, sigma)
					stale(know, what, f, a.c1, nil, lab.Proof{Z1: e.Mod(add(sigma, mul(ea, B(7)))), Z2: e.Mod(add(rho, mul(ea, B(5)))), First: first, Secnd: second})
				}
				nonces("the second half of the first message", add(rho, B(1)), sigma)
				nonces("the first half of the first message", sub(rho, h), add(sigma, B(1)))
				nonces("the sign of the first message", sub(e.N, rho), sub(e.N, sigma))
				s := e.Mod(add(rho, mul(h, sigma)))
				nonces("the sign of the second half of the first message", sub(sub(B(0), s), mul(h, sigma)), sigma)
				nonces("the sign of the first half of the first message", add(s, mul(h, sigma)), sub(e.N, sigma))
				nonces("whether the first message is neutral", B(0), B(0))
				state := func(what string, v, rnd *big.Int) {
					v, rnd = e.Mod(v), e.Mod(rnd)
					stale(know, what, f, e.commit(h, v, rnd), nil, lab.Proof{Z1: e.Mod(add(sigma, mul(ea, rnd))), Z2: e.Mod(add(rho, mul(ea, v))), First: a.p.First, Secnd: a.p.Secnd})
				}
				state("the second half of the commitment", B(6), B(7))
				state("the first half of the commitment", B(5-3), B(8))
				state("the sign of the commitment", B(-5), B(-7))
				state("the sign of the second half of the commitment", B(-5-3*7-3*7), B(7))
				state("the sign of the first half of the commitment", B(5+3*7+3*7), B(-7))

				// refreshment: z1 = sigma + e·r, z2 = e
				y := mkp(refresh, 5, 7, 9)
				er := e.Mod(y.p.Z2)
				sg := e.Mod(sub(y.p.Z1, mul(er, B(9))))
				wf, ws = e.Comm(h, B(0), sg)
				if !wf.Same(y.p.First) || !ws.Same(y.p.Secnd) {
					r.Note("the challenge of a proof of refreshment is not its second response: not extracted")
					continue
				}
				if o, dup := seen[er.String()]; dup {
					r.Fail(y.String(), "proofs %s and refreshment %d answer the same challenge %v", o, fill, er)
				}
				seen[er.String()] = fmt.Sprintf("refreshment %d", fill)
				all = append(all, er)
				ref := func(what string, v1, r1, v2, r2, n *big.Int) {
					// only statements that hold can be answered for
					first, second := e.Comm(h, B(0), n)
					stale(refresh, what, f, e.commit(h, v1, r1), e.commit(h, v2, r2), lab.Proof{Z1: e.Mod(add(n, mul(er, sub(r2, r1)))), Z2: er, First: first, Secnd: second})
				}
				ref("the first message", B(5), B(7), B(5), B(16), add(sg, B(1)))
				ref("the sign of the first message", B(5), B(7), B(5), B(16), sub(e.N, sg))
				ref("the statement", B(6), B(7), B(6), B(16), sg)
				ref("the second commitment", B(5), B(7), B(5), B(17), sg)
				ref("the first commitment", B(5), B(8), B(5), B(16), sg)
				ref("the sign of the statement", B(-5), B(-7), B(-5), B(2), sg)
				// a false statement c2 = c1 + (1, 9) with a first message that makes up for the old challenge
				bad := e.commit(h, B(6), B(16))
				first, second := e.Comm(h, e.Mod(sub(B(0), er)), sg)
				stale(refresh, "the second half of the second commitment and of the first message", f, y.c1, bad, lab.Proof{Z1: y.p.Z1, Z2: er, First: first, Secnd: second})
				r.State(2)
			}
			small := 0
			for _, x := range all {
				if x.BitLen() <= 200 {
					small++
				}
			}
			if small > 0 {
				r.Fail(small, "%d of %d challenges have 200 bits or less", small, len(all))
			}
			// every bit of the challenge is used
			or, and := B(0), sub(lsh(256), B(1))
			for _, x := range all {
				or.Or(or, x)
				and.And(and, x)
			}
			if len(all) >= 16 && (or.BitLen() < 250 || and.BitLen() > 250) {
				r.Fail(or.String(), "challenges do not cover the scalar range: or %x, and %x", or, and)
			}
			r.Outcome("challenges extracted", fmt.Sprint(len(all)))
		})

		// tiny groups: for every statement and every first message at most one response
		tinyOnly(r, []int64{7}, nil, "unique responses", func(e *env) {
			n := e.N.Int64()
			h := B(3)
			zs := []*big.Int{}
			for z := int64(0); z <= 2*n; z++ {
				zs = append(zs, B(z))
			}
			zs = append(zs, B(63), B(255), B(256), lsh(255), sub(lsh(256), B(1)))
			f := e.factory(h)
			all := e.exps()
			ch := make([]map[[3]int64]int64, n*n) // challenges of proofs of knowledge
			r.Parallel(int(n*n), func(i int) {
				v, rnd := B(int64(i)/n), B(int64(i)%n)
				c := e.commit(h, v, rnd)
				ch[i] = map[[3]int64]int64{}
				for _, rho := range all {
					for _, sigma := range all {
						a, b := e.Comm(h, rho, sigma)
						acc := 0
						for _, z1 := range zs {
							for _, z2 := range zs {
								r.Step(1)
								if know.verify(f, c, nil, lab.WireP(lab.Proof{Z1: z1, Z2: z2, First: a, Secnd: b})) == nil {
									acc++
									if acc > 1 {
										r.Fail([]string{v.String(), rnd.String(), rho.String(), sigma.String(), z1.String(), z2.String()}, "%s: knowledge of (%v,%v), first message (%v,%v): a second response (%v,%v) is accepted", e.name, v, rnd, rho, sigma, z1, z2)
									}
									// e from z1 = sigma + e·r or z2 = rho + e·v
									if rnd.Sign() != 0 {
										x := e.Mod(mul(sub(z1, sigma), new(big.Int).ModInverse(rnd, e.N)))
										ch[i][[3]int64{rho.Int64(), sigma.Int64()}] = x.Int64()
									} else if v.Sign() != 0 {
										x := e.Mod(mul(sub(z2, rho), new(big.Int).ModInverse(v, e.N)))
										ch[i][[3]int64{rho.Int64(), sigma.Int64()}] = x.Int64()
									}
								}
							}
						}
						r.State(1)
						r.Trace(1)
					}
				}
			})
			if r.Late() {
				return
			}
			// the challenge varies with every part: with one part changed it is rarely the same.
			// parts by their logarithms: c.first = rnd, c.second = v+h·rnd, xy.first = sigma, xy.second = rho+h·sigma
			get := func(q [4]int64) (int64, bool) {
				rnd, s, sg, t := q[0], q[1], q[2], q[3]
				v := ((s-3*rnd)%n + n) % n
				rho := ((t-3*sg)%n + n) % n
				x, ok := ch[v*n+rnd][[3]int64{rho, sg}]
				return x, ok
			}
			for part := 0; part < 4; part++ {
				same, total := 0, 0
				for code := int64(0); code < n*n*n*n; code++ {
					q := [4]int64{code % n, code / n % n, code / n / n % n, code / n / n / n}
					x, ok := get(q)
					for d := int64(1); ok && d < n; d++ {
						p := q
						p[part] = (q[part] + d) % n
						if y, ok := get(p); ok {
							total++
							if x == y {
								same++
							}
						}
					}
				}
				names := []string{"first half of the commitment", "second half of the commitment", "first half of the first message", "second half of the first message"}
				if total > 0 {
					r.Outcome("challenge of a proof of knowledge", fmt.Sprintf("%s: unchanged in %d of %d changes", names[part], same, total))
					if same*2 > total {
						r.Fail(names[part], "%s: the challenge of a proof of knowledge does not depend on the %s (%d of %d changes leave it)", e.name, names[part], same, total)
					}
				}
			}
			r.Sample(map[string]string{"curve": e.name, "first messages": "all", "responses": fmt.Sprint(len(zs) * len(zs))})

			type st struct{ v1, r1, v2, r2 int64 }
			var sts []st
			for _, c1 := range [][2]int64{{0, 0}, {1, 0}, {0, 1}, {2, 5}, {6, 6}} {
				for v2 := int64(0); v2 < n; v2++ {
					for r2 := int64(0); r2 < n; r2++ {
						sts = append(sts, st{c1[0], c1[1], v2, r2})
					}
				}
			}
			if !r.Thorough {
				zs = zs[:n+2]
			}
			r.Parallel(len(sts), func(i int) {
				s := sts[i]
				c1, c2 := e.commit(h, B(s.v1), B(s.r1)), e.commit(h, B(s.v2), B(s.r2))
				for _, rho := range all {
					for _, sigma := range all {
						a, b := e.Comm(h, rho, sigma)
						acc := 0
						for _, z1 := range zs {
							for _, z2 := range zs {
								r.Step(1)
								if refresh.verify(f, c1, c2, lab.WireP(lab.Proof{Z1: z1, Z2: z2, First: a, Secnd: b})) == nil {
									if acc++; acc > 1 {
										r.Fail([]any{s, rho.String(), sigma.String(), z1.String(), z2.String()}, "%s: refreshment %+v, first message (%v,%v): a second response (%v,%v) is accepted", e.name, s, rho, sigma, z1, z2)
									}
								}
							}
						}
						r.State(1)
						r.Trace(1)
					}
				}
			})
		})
	})
}
