package base

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
)

// keys are discrete logarithms of commitment keys.
func (e *env) keys() []*big.Int {
	if e.Tiny {
		if e.N.Int64() <= 31 {
			return e.exps()
		}
		return []*big.Int{B(0), B(1), B(2), B(3), sub(e.N, B(1)), sub(e.N, B(2))}
	}
	return []*big.Int{B(0), B(1), B(3), sub(e.N, B(1)), B(153)}
}

// vals are values and randomness for commitments: everything below the order, and some above it.
func (e *env) vals(wide bool) []*big.Int {
	if !e.Tiny {
		l := []*big.Int{B(0), B(1), B(2), sub(e.N, B(1)), sub(e.N, B(2)), B(153), lsh(255)}
		if wide {
			l = append(l, cp(e.N), add(e.N, B(1)), sub(mul(e.N, B(2)), B(1)), lsh(256), add(lsh(300), B(5)))
		}
		return l
	}
	l := e.exps()
	if wide {
		l = append(l, cp(e.N), add(e.N, B(1)), add(mul(e.N, B(2)), B(3)), B(255), B(256), add(mul(lsh(256), e.N), B(2)))
	}
	return l
}

type reg struct{ v, r int64 }

func TestE01(t *testing.T) {
	check(t, "E01", func(r *mc.Run) {
		// every pair of commitments, every exponent, every receiver
		envs(r, []int64{7}, []int64{31}, "single operations", func(e *env) {
			keys := e.keys()
			r.Parallel(len(keys), func(ki int) {
				h := keys[ki]
				f := commitment.NewElGamalFactory(e.g.ScalarBaseMult(h))
				vals := e.vals(false)
				if e.Tiny && e.N.Int64() > 7 {
					vals = []*big.Int{B(0), B(1), B(2), B(15), B(16), B(29), B(30)}
				}
				var vr [][2]*big.Int
				for _, v := range e.vals(true) {
					for _, rr := range e.vals(true) {
						vr = append(vr, [2]*big.Int{v, rr})
						e.isC(r, f.Create(v, rr), h, v, rr, "Create(%v,%v)", v, rr)
						r.Step(1)
						r.State(1)
					}
				}
				for _, a := range vr {
					ca := f.Create(a[0], a[1])
					e.isC(r, f.Neutral().Inverse(ca), h, sub(B(0), a[0]), sub(B(0), a[1]), "Inverse(%v,%v)", a[0], a[1])
					x := f.Create(a[0], a[1])
					e.isC(r, x.Inverse(x), h, sub(B(0), a[0]), sub(B(0), a[1]), "in-place Inverse(%v,%v)", a[0], a[1])
					e.isC(r, x, h, sub(B(0), a[0]), sub(B(0), a[1]), "receiver of in-place Inverse(%v,%v)", a[0], a[1])
					r.Step(2)
					for _, n := range e.scalars() {
						x := f.Neutral()
						y := x.Exp(ca, n)
						e.isC(r, y, h, mul(n, a[0]), mul(n, a[1]), "Exp((%v,%v),%v)", a[0], a[1], n)
						e.isC(r, x, h, mul(n, a[0]), mul(n, a[1]), "receiver of Exp((%v,%v),%v)", a[0], a[1], n)
						x = f.Create(a[0], a[1])
						e.isC(r, x.Exp(x, n), h, mul(n, a[0]), mul(n, a[1]), "in-place Exp((%v,%v),%v)", a[0], a[1], n)
						r.Step(2)
						r.Trace(1)
					}
				}
				// the caller's variables take every value in turn
				cv, cr, cn, cc := new(big.Int), new(big.Int), new(big.Int), f.Neutral()
				for _, a := range vr { // one operation again and again
					cv.Set(a[0])
					cr.Set(a[1])
					e.isC(r, f.Create(cv, cr), h, cv, cr, "Create of variables that are now %v,%v", cv, cr)
					r.Step(1)
				}
				cx := f.Create(B(2), B(3))
				for _, a := range vr {
					cn.Set(a[1])
					e.isC(r, f.Neutral().Exp(cx, cn), h, mul(cn, B(2)), mul(cn, B(3)), "Exp of (2,3) to a variable that is now %v", cn)
					r.Step(1)
				}
				for _, a := range vr {
					cv.Set(a[0])
					cr.Set(a[1])
					e.isC(r, f.Create(cv, cr), h, cv, cr, "Create of variables that are now %v,%v", cv, cr)
					e.isC(r, f.Create(cr, cv), h, cr, cv, "Create of variables that are now %v,%v", cr, cv)
					cc.Compose(f.Create(a[0], a[1]), f.Neutral())
					cn.Add(cv, cr)
					e.isC(r, f.Neutral().Exp(cc, cn), h, mul(cn, cv), mul(cn, cr), "Exp of a variable that is now (%v,%v) to one that is now %v", cv, cr, cn)
					e.isC(r, f.Neutral().Inverse(cc), h, sub(B(0), cv), sub(B(0), cr), "Inverse of a variable that is now (%v,%v)", cv, cr)
					e.isC(r, f.Neutral().Compose(cc, cc), h, add(cv, cv), add(cr, cr), "Compose of a variable that is now (%v,%v) with itself", cv, cr)
					r.Step(5)
				}
				for _, av := range vals {
					for _, ar := range vals {
						if r.Late() {
							return
						}
						ca := f.Create(av, ar)
						for _, bv := range vals {
							for _, br := range vals {
								cb := f.Create(bv, br)
								v, rr := add(av, bv), add(ar, br)
								x := f.Neutral()
								e.isC(r, x.Compose(ca, cb), h, v, rr, "Compose((%v,%v),(%v,%v))", av, ar, bv, br)
								e.isC(r, x, h, v, rr, "receiver of Compose((%v,%v),(%v,%v))", av, ar, bv, br)
								y := f.Create(av, ar)
								e.isC(r, y.Compose(y, cb), h, v, rr, "Compose((%v,%v),(%v,%v)) into its first operand", av, ar, bv, br)
								y = f.Create(bv, br)
								e.isC(r, y.Compose(ca, y), h, v, rr, "Compose((%v,%v),(%v,%v)) into its second operand", av, ar, bv, br)
								r.Step(3)
								r.Trace(1)
							}
						}
						y := f.Create(av, ar)
						e.isC(r, y.Compose(y, y), h, mul(B(2), av), mul(B(2), ar), "c.Compose(c,c), c=(%v,%v)", av, ar)
						r.Step(1)
					}
				}
			})
			r.Sample(map[string]string{"curve": e.name, "commitment key": keys[len(keys)-1].String() + "·G", "Exp": "(1,2) to every scalar"})
		})

		// every sequence of operations on two registers: all reachable states of the pair
		tinyOnly(r, []int64{7}, nil, "sequences", func(e *env) {
			n := e.N.Int64()
			keys := []int64{0, 3}
			if r.Thorough {
				keys = []int64{0, 1, 2, 3, 6}
			}
			r.Parallel(len(keys), func(ki int) {
				h := B(keys[ki])
				type pair struct{ a, b reg }
				first := pair{reg{1, 0}, reg{0, 1}}
				seen := map[pair]bool{first: true}
				queue := []pair{first}
				red := func(x int64) int64 { return ((x % n) + n) % n }
				mk := func(x reg) *commitment.ElGamal {
					a, b := e.Comm(h, B(x.v), B(x.r))
					return e.comm(a, b) // out of its encoding, so that any representation of the points is reached
				}
				for len(queue) > 0 {
					if r.Late() {
						return
					}
					s := queue[0]
					queue = queue[1:]
					r.State(1)
					step := func(name string, op func(x, y *commitment.ElGamal), next pair) {
						x, y := mk(s.a), mk(s.b)
						op(x, y)
						e.isC(r, x, h, B(next.a.v), B(next.a.r), "register 1 after %s on %v", name, s)
						e.isC(r, y, h, B(next.b.v), B(next.b.r), "register 2 after %s on %v", name, s)
						r.Step(1)
						r.Trace(1)
						if !seen[next] {
							seen[next] = true
							queue = append(queue, next)
						}
					}
					sum := reg{red(s.a.v + s.b.v), red(s.a.r + s.b.r)}
					step("x.Compose(x,y)", func(x, y *commitment.ElGamal) { x.Compose(x, y) }, pair{sum, s.b})
					step("y.Compose(x,y)", func(x, y *commitment.ElGamal) { y.Compose(x, y) }, pair{s.a, sum})
					step("x.Compose(y,y)", func(x, y *commitment.ElGamal) { x.Compose(y, y) }, pair{reg{red(2 * s.b.v), red(2 * s.b.r)}, s.b})
					step("x.Inverse(x)", func(x, y *commitment.ElGamal) { x.Inverse(x) }, pair{reg{red(-s.a.v), red(-s.a.r)}, s.b})
					step("y.Inverse(x)", func(x, y *commitment.ElGamal) { y.Inverse(x) }, pair{s.a, reg{red(-s.a.v), red(-s.a.r)}})
					for _, k := range []int64{0, 1, 2, n - 1, n, n + 3} {
						k := k
						step(fmt.Sprintf("x.Exp(x,%d)", k), func(x, y *commitment.ElGamal) { x.Exp(x, B(k)) }, pair{reg{red(k * s.a.v), red(k * s.a.r)}, s.b})
						step(fmt.Sprintf("y.Exp(x,%d)", k), func(x, y *commitment.ElGamal) { y.Exp(x, B(k)) }, pair{s.a, reg{red(k * s.a.v), red(k * s.a.r)}})
					}
				}
				r.Outcome("reachable pairs of commitments", fmt.Sprintf("key %d: %d", keys[ki], len(seen)))
			})
		})

		// long chains on objects that stay in memory
		envs(r, []int64{7, 31, 79}, []int64{67, 139, 199}, "chains", func(e *env) {
			h := B(3)
			f := commitment.NewElGamalFactory(e.g.ScalarBaseMult(h))
			ops := []string{"x=x+y", "y=x+y", "x=-x", "x=2x", "y=(N-1)y", "x=0x", "y=y+y"}
			depth := 4
			if r.Thorough {
				depth = 6
			}
			if !e.Tiny {
				depth = 3
				if r.Thorough {
					depth = 4
				}
			}
			m1 := sub(e.N, B(1))
			starts := [][4]*big.Int{{B(1), B(2), B(4), B(0)}, {B(0), B(0), m1, B(1)}, {m1, m1, B(1), B(1)}}
			r.Parallel(len(starts), func(si int) {
				st := starts[si]
				total := 1
				for i := 0; i < depth; i++ {
					total *= len(ops)
				}
				for code := 0; code < total; code++ {
					if r.Late() {
						return
					}
					x, y := f.Create(st[0], st[1]), f.Create(st[2], st[3])
					xv, xr, yv, yr := cp(st[0]), cp(st[1]), cp(st[2]), cp(st[3])
					var hist []string
					for i, c := 0, code; i < depth; i, c = i+1, c/len(ops) {
						o := c % len(ops)
						hist = append(hist, ops[o])
						switch o {
						case 0:
							x.Compose(x, y)
							xv, xr = e.Mod(add(xv, yv)), e.Mod(add(xr, yr))
						case 1:
							y.Compose(x, y)
							yv, yr = e.Mod(add(xv, yv)), e.Mod(add(xr, yr))
						case 2:
							x.Inverse(x)
							xv, xr = e.Mod(sub(B(0), xv)), e.Mod(sub(B(0), xr))
						case 3:
							x.Exp(x, B(2))
							xv, xr = e.Mod(mul(B(2), xv)), e.Mod(mul(B(2), xr))
						case 4:
							y.Exp(y, m1)
							yv, yr = e.Mod(mul(m1, yv)), e.Mod(mul(m1, yr))
						case 5:
							x.Exp(x, B(0))
							xv, xr = B(0), B(0)
						case 6:
							y.Compose(y, y)
							yv, yr = e.Mod(add(yv, yv)), e.Mod(add(yr, yr))
						}
						r.Step(1)
					}
					e.isC(r, x, h, xv, xr, "register 1 after %v from %v", hist, st)
					e.isC(r, y, h, yv, yr, "register 2 after %v from %v", hist, st)
					r.Trace(1)
					r.State(1)
				}
			})
		})
	})
}

func TestE02(t *testing.T) {
	check(t, "E02", func(r *mc.Run) {
		envs(r, []int64{7, 31}, []int64{67, 79}, "equality and encoding", func(e *env) {
			keys := e.keys()
			if e.Tiny && e.N.Int64() > 7 && !r.Thorough {
				keys = []*big.Int{B(0), B(1), B(3), B(30)}
			}
			if e.Tiny && e.N.Int64() > 31 {
				keys = []*big.Int{B(3)}
			}
			r.Parallel(len(keys), func(ki int) {
				h := keys[ki]
				f := commitment.NewElGamalFactory(e.g.ScalarBaseMult(h))
				nv, nr := e.vals(false), e.vals(false)
				if e.Tiny && e.N.Int64() > 7 {
					nr = []*big.Int{B(0), B(1), B(2), sub(e.N, B(1))}
				}
				type cm struct {
					c    *commitment.ElGamal
					v, r *big.Int
					enc  []byte
				}
				var all []cm
				for _, v := range nv {
					for _, rr := range nr {
						c := f.Create(v, rr)
						all = append(all, cm{c, v, rr, lab.EncC(c)})
					}
				}
				// the same elements reached in other ways, and with unreduced openings
				for i, n := 0, len(all); i < n; i++ {
					a := all[i]
					c := f.Create(sub(e.N, B(1)), B(1))
					d := f.Create(e.Mod(add(a.v, B(1))), e.Mod(sub(a.r, B(1))))
					x := f.Neutral().Compose(c, d)
					all = append(all, cm{x, a.v, a.r, lab.EncC(x)})
				}
				for _, v := range e.vals(true)[len(e.vals(false)):] {
					c := f.Create(v, add(e.N, B(1)))
					all = append(all, cm{c, e.Mod(v), B(1), lab.EncC(c)})
				}
				var buf bytes.Buffer
				for i, a := range all {
					if r.Late() {
						return
					}
					zero := a.v.Sign() == 0 && a.r.Sign() == 0
					if got := f.IsNeutral(a.c); got != zero {
						r.Fail(a.v, "%s key %v: IsNeutral of the commitment to (%v,%v) is %v", e.name, h, a.v, a.r, got)
					}
					n := f.Neutral()
					e.isC(r, f.Neutral().Compose(n, a.c), h, a.v, a.r, "neutral+(%v,%v)", a.v, a.r)
					e.isC(r, f.Neutral().Compose(a.c, n), h, a.v, a.r, "(%v,%v)+neutral", a.v, a.r)
					inv := f.Neutral().Inverse(a.c)
					if !f.IsNeutral(f.Neutral().Compose(a.c, inv)) {
						r.Fail(a.v, "%s key %v: (%v,%v) composed with its inverse is not neutral", e.name, h, a.v, a.r)
					}
					r.Step(4)
					r.State(1)
					// the encoding, with something after it
					for _, tail := range [][]byte{nil, {1, 2, 3}} {
						rd := &cutReader{data: append(append([]byte{}, a.enc...), tail...)}
						d := &commitment.ElGamal{}
						if err := d.Decode(rd); err != nil {
							r.Fail(a.enc, "%s key %v: decoding the commitment to (%v,%v): %v", e.name, h, a.v, a.r, err)
						}
						if rd.pos != len(a.enc) {
							r.Fail(a.enc, "%s: decoding took %d of %d bytes", e.name, rd.pos, len(a.enc))
						}
						if !a.c.Equal(a.c, d) || !d.Equal(d, a.c) || !d.Equal(a.c, d) {
							r.Fail(a.enc, "%s key %v: the decoded commitment to (%v,%v) differs", e.name, h, a.v, a.r)
						}
						e.isC(r, d, h, a.v, a.r, "decoded (%v,%v)", a.v, a.r)
						// and it can be used as a receiver and as an operand
						e.isC(r, d.Compose(d, a.c), h, mul(B(2), a.v), mul(B(2), a.r), "decoded (%v,%v) doubled", a.v, a.r)
						r.Step(1)
						r.Trace(1)
					}
					// decoding into a commitment that already has a value
					d := f.Create(B(4), B(2))
					if err := d.Decode(bytesReader(a.enc)); err != nil {
						r.Fail(a.enc, "%s: decoding into a used commitment: %v", e.name, err)
					}
					e.isC(r, d, h, a.v, a.r, "(%v,%v) decoded into a used commitment", a.v, a.r)
					if i%7 == 0 {
						buf.Write(a.enc)
					}
				}
				// a sequence from one stream
				for i := 0; i < len(all); i += 7 {
					d := &commitment.ElGamal{}
					if err := d.Decode(&buf); err != nil {
						r.Fail(i, "%s: decoding commitment %d of a stream: %v", e.name, i, err)
					}
					e.isC(r, d, h, all[i].v, all[i].r, "commitment %d of a stream", i)
					r.Step(1)
				}
				// all pairs
				for _, a := range all {
					for _, b := range all {
						if r.Late() {
							return
						}
						same := a.v.Cmp(b.v) == 0 && a.r.Cmp(b.r) == 0
						if got := a.c.Equal(a.c, b.c); got != same {
							r.Fail([]string{a.v.String(), a.r.String(), b.v.String(), b.r.String()}, "%s key %v: Equal((%v,%v),(%v,%v)) is %v", e.name, h, a.v, a.r, b.v, b.r, got)
						}
						if bytes.Equal(a.enc, b.enc) != same {
							r.Fail([]string{a.v.String(), a.r.String(), b.v.String(), b.r.String()}, "%s key %v: encodings of (%v,%v) and (%v,%v) equal: %v", e.name, h, a.v, a.r, b.v, b.r, !same)
						}
						r.Step(1)
					}
				}
			})
			r.Sample(map[string]string{"curve": e.name, "keys": fmt.Sprint(len(keys))})
		})
	})
}
