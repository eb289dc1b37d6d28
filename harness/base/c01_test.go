package base

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

type elem struct {
	k   *big.Int
	p   curve.Point
	how string
}

// routes makes k·G in as many ways as there are operations.
func (e *env) routes(k *big.Int) []elem {
	g, n := e.g, e.N
	dec := func(p curve.Point) curve.Point {
		q, err := g.Decode(bytesReader(lab.Enc(g, p)))
		if err != nil {
			panic(mc.Broken("decoding the encoding of %v·G: %v", k, err))
		}
		return q
	}
	m := e.Mod(k)
	km1 := e.Mod(sub(m, B(1)))
	return []elem{
		{m, g.ScalarBaseMult(k), "base"},
		{m, g.ScalarMult(g.Gen(), k), "mult"},
		{m, g.Neg(g.ScalarBaseMult(e.Mod(sub(n, m)))), "neg"},
		{m, g.Add(g.ScalarBaseMult(km1), g.Gen()), "pred+G"},
		{m, g.Add(g.ScalarBaseMult(m), g.Neutral()), "+O"},
		{m, g.Add(g.Neutral(), g.ScalarBaseMult(m)), "O+"},
		{m, g.ScalarBaseMult(add(m, n)), "base+N"},
		{m, dec(g.ScalarBaseMult(m)), "decoded"},
		{m, g.ScalarMult(g.ScalarMult(g.Gen(), B(2)), e.Mod(mul(m, new(big.Int).ModInverse(B(2), n)))), "2·(k/2)"},
		{m, g.Add(g.ScalarBaseMult(e.Mod(add(m, m))), g.Neg(g.ScalarBaseMult(m))), "2k-k"},
	}
}

func TestC01(t *testing.T) {
	check(t, "C01", func(r *mc.Run) {
		envs(r, []int64{7, 31, 79}, []int64{67, 139, 199}, "parameters", func(e *env) {
			for i := 0; i < 3; i++ {
				if o := e.g.Order(); o.Cmp(e.N) != 0 {
					r.Fail(e.name, "the order is %v, not %v", o, e.N)
				}
				e.is(r, e.g.Gen(), B(1), "generator")
				e.is(r, e.g.Neutral(), B(0), "neutral")
				r.Step(3)
				e.g = curve.NewSecp256k1Group()
			}
		})
		envs(r, []int64{7, 31}, []int64{67, 79}, "table", func(e *env) {
			var all []elem
			for _, k := range e.exps() {
				r.Try(map[string]any{"curve": e.name, "k": k}, func() {
					for _, el := range e.routes(k) {
						e.is(r, el.p, el.k, "%v·G made by %s", k, el.how)
						all = append(all, el)
						r.State(1)
						r.Step(1)
					}
				})
			}
			// every pair of elements, however they were made
			step := 1
			if !e.Tiny && !r.Thorough {
				step = 3
			}
			r.Parallel(len(all), func(i int) {
				a := all[i]
				for j := i % step; j < len(all); j += step {
					b := all[j]
					r.Try(map[string]any{"curve": e.name, "a": a.k, "made by": a.how, "b": b.k, "made by ": b.how}, func() {
						if got, want := e.g.Equal(a.p, b.p), a.k.Cmp(b.k) == 0; got != want {
							r.Fail(e.name, "%s: %v·G (%s) == %v·G (%s) is %v", e.name, a.k, a.how, b.k, b.how, got)
						}
						s := e.g.Add(a.p, b.p)
						e.is(r, s, add(a.k, b.k), "%v·G (%s) + %v·G (%s)", a.k, a.how, b.k, b.how)
					})
					r.Step(2)
				}
			})
			r.Trace(len(all) * len(all) / step)
			for i, a := range all {
				if step > 1 && i%10 > 1 {
					continue
				}
				e.is(r, e.g.Neg(a.p), sub(e.N, a.k), "-(%v·G) (%s)", a.k, a.how)
				e.is(r, e.g.Add(a.p, e.g.Neg(a.p)), B(0), "%v·G - %v·G (%s)", a.k, a.k, a.how)
				e.is(r, e.g.Neg(e.g.Neg(a.p)), a.k, "-(-(%v·G)) (%s)", a.k, a.how)
				r.Step(3)
			}
			r.Sample(fmt.Sprintf("%s: %v·G made by %s plus %v·G made by %s", e.name, all[1].k, all[1].how, all[len(all)-1].k, all[len(all)-1].how))
		})
		envs(r, []int64{7, 31, 79}, []int64{67, 139, 199}, "scalars", func(e *env) {
			ks, ss := e.exps(), e.scalars()
			r.Parallel(len(ss), func(i int) {
				s := ss[i]
				r.Try(map[string]any{"curve": e.name, "scalar": s.String()}, func() {
					e.is(r, e.g.ScalarBaseMult(cp(s)), s, "base times %x", s)
					for _, k := range ks {
						p := e.g.ScalarBaseMult(k)
						e.is(r, e.g.ScalarMult(p, cp(s)), mul(k, s), "%v·G times %x", k, s)
						// multiplying the decoded copy, and after a negation
						e.is(r, e.g.ScalarMult(e.g.Neg(p), cp(s)), mul(sub(e.N, k), s), "-(%v·G) times %x", k, s)
					}
				})
				r.Step(1 + 2*len(ks))
				r.State(len(ks))
			})
			r.Trace(len(ss))
		})
		// one variable of the caller that takes every value in turn
		envs(r, []int64{31}, []int64{79}, "variables", func(e *env) {
			v, p := new(big.Int), e.g.ScalarBaseMult(B(5))
			for _, s := range e.scalars() {
				r.Try(map[string]any{"curve": e.name, "scalar": s.String()}, func() {
					v.Set(s)
					e.is(r, e.g.ScalarBaseMult(v), s, "base times a variable that is now %x", s)
					e.is(r, e.g.ScalarMult(p, v), mul(B(5), s), "5·G times a variable that is now %x", s)
					e.is(r, e.g.ScalarMult(e.g.Gen(), v), s, "G times a variable that is now %x", s)
				})
				r.Step(3)
			}
		})
		// distributivity over sums of scalars and points that cancel
		envs(r, []int64{7}, []int64{31}, "laws", func(e *env) {
			ks := e.exps()
			if !e.Tiny {
				ks = ks[:9]
			}
			r.Parallel(len(ks), func(i int) {
				a := ks[i]
				for _, b := range ks {
					for _, s := range ks {
						r.Try(map[string]any{"curve": e.name, "a": a, "b": b, "s": s}, func() {
							pa, pb := e.g.ScalarBaseMult(a), e.g.ScalarBaseMult(b)
							l := e.g.ScalarMult(e.g.Add(pa, pb), s)
							m := e.g.Add(e.g.ScalarMult(pa, s), e.g.ScalarMult(pb, s))
							n := e.g.Add(e.g.Add(pa, pb), e.g.ScalarBaseMult(s))
							o := e.g.Add(pa, e.g.Add(pb, e.g.ScalarBaseMult(s)))
							if !e.g.Equal(l, m) || !e.g.Equal(n, o) {
								r.Fail(e.name, "%s: %v,%v,%v: distributivity or associativity", e.name, a, b, s)
							}
							e.is(r, l, mul(s, add(a, b)), "(%v·G+%v·G)·%v", a, b, s)
							e.is(r, n, add(s, add(a, b)), "%v·G+%v·G+%v·G", a, b, s)
						})
						r.Step(4)
					}
				}
			})
			r.Trace(len(ks) * len(ks) * len(ks))
		})
		// points chosen by their coordinates: pairs that agree in some of the bits of x or of y, extremes of both
		realOnly(r, "chosen coordinates", func(e *env) {
			type pt struct {
				a lab.Aff
				p curve.Point
			}
			var all []pt
			had := map[string]bool{}
			put := func(a lab.Aff) {
				if had[a.String()] {
					return
				}
				had[a.String()] = true
				p, err := e.g.Decode(bytesReader(lab.Wire(a)))
				if err != nil {
					r.Fail(a.String(), "%s: the point %v is not decoded: %v", e.name, a, err)
				}
				all = append(all, pt{a, p})
				r.State(1)
			}
			byX := func(x *big.Int) bool {
				x = new(big.Int).Mod(x, e.P)
				y := new(big.Int).Exp(x, B(3), e.P)
				y = y.ModSqrt(y.Add(y, B(7)).Mod(y, e.P), e.P)
				if y == nil {
					return false
				}
				put(lab.Aff{X: x, Y: y})
				put(e.Neg(lab.Aff{X: x, Y: y}))
				return true
			}
			third := new(big.Int).Div(add(e.P, B(2)), B(9))
			byY := func(y *big.Int) bool {
				y = new(big.Int).Mod(y, e.P)
				c := new(big.Int).Mod(sub(mul(y, y), B(7)), e.P)
				x := new(big.Int).Exp(c, third, e.P)
				if !e.On(lab.Aff{X: x, Y: y}) {
					return false
				}
				put(lab.Aff{X: x, Y: y})
				return true
			}
			// the first few of base, base+step, base+2·step, ... that are coordinates of a point
			first := func(n int, f func(*big.Int) bool, base, step *big.Int) {
				for i := 0; n > 0 && i < 200; i++ {
					if f(add(base, mul(step, B(int64(i))))) {
						n--
					}
				}
			}
			for _, f := range []func(*big.Int) bool{byX, byY} {
				first(6, f, B(0), B(1))
				first(4, f, sub(e.P, B(1)), B(-1))
				for _, base := range []*big.Int{e.Gx, e.Gy} {
					for _, w := range []uint{8, 16, 31, 32, 63, 64, 65, 128, 192, 224, 248} {
						low := new(big.Int).Mod(base, lsh(w))
						first(2, f, low, lsh(w))              // the low bits are the same
						first(1, f, sub(base, low), B(1))     // the high bits are
						first(1, f, lsh(w), B(1))             // just above
						first(1, f, sub(lsh(w), B(1)), B(-1)) // and below a power of two
					}
				}
			}
			put(lab.Aff{Inf: true})
			see := func(p curve.Point, want lab.Aff, format string, args ...any) {
				r.Step(1)
				if got := lab.See(e.g, p); !got.Same(want) {
					what := fmt.Sprintf(format, args...)
					r.Fail(what, "%s: %s: got %v, want %v", e.name, what, got, want)
				}
			}
			r.Parallel(len(all), func(i int) {
				a := all[i]
				for j := 0; j < len(all); j++ {
					b := all[j]
					r.Try(map[string]any{"a": a.a.String(), "b": b.a.String()}, func() {
						see(e.g.Add(a.p, b.p), e.Add(a.a, b.a), "%v + %v", a.a, b.a)
						if got, want := e.g.Equal(a.p, b.p), a.a.Same(b.a); got != want {
							r.Fail([]string{a.a.String(), b.a.String()}, "%s: %v == %v is %v", e.name, a.a, b.a, got)
						}
					})
				}
				r.Try(a.a.String(), func() {
					see(e.g.Neg(a.p), e.Neg(a.a), "-%v", a.a)
					for _, k := range []*big.Int{B(0), B(1), B(2), B(5), sub(e.N, B(1)), lsh(255)} {
						if k.BitLen() > 8 && i%4 > 0 && !r.Thorough {
							continue
						}
						see(e.g.ScalarMult(a.p, k), e.Times(a.a, k), "%v times %x", a.a, k)
					}
				})
				r.Trace(len(all))
			})
			r.Outcome("chosen coordinates", fmt.Sprintf("%d points, all pairs", len(all)))
		})
		// reachable representations: breadth-first over everything the operations can make
		envs(r, []int64{7, 31}, []int64{79}, "reachable", func(e *env) {
			type st struct {
				k    *big.Int
				p    curve.Point
				path string
				d    int
			}
			limit, depth := 4000, 1000
			if !e.Tiny {
				limit, depth = 600, 4
				if r.Thorough {
					limit, depth = 20000, 6
				}
			}
			seen := map[string]bool{}
			var queue []st
			push := func(k *big.Int, p curve.Point, path string, d int) {
				k = e.Mod(k)
				e.is(r, p, k, "after %s", path)
				r.Step(1)
				key := k.String() + lab.Dump(p)
				if !seen[key] && len(seen) < limit {
					seen[key] = true
					queue = append(queue, st{k, p, path, d})
					r.State(1)
				}
			}
			push(B(1), e.g.Gen(), "G", 0)
			push(B(0), e.g.Neutral(), "O", 0)
			maxd := 0
			for len(queue) > 0 && !r.Late() {
				s := queue[0]
				queue = queue[1:]
				if s.d > maxd {
					maxd = s.d
				}
				if s.d >= depth {
					continue
				}
				r.Try(map[string]any{"curve": e.name, "path": s.path}, func() {
					g := e.g
					push(add(s.k, s.k), g.Add(s.p, s.p), s.path+" doubled", s.d+1)
					push(sub(e.N, s.k), g.Neg(s.p), s.path+" negated", s.d+1)
					push(add(s.k, B(1)), g.Add(s.p, g.Gen()), s.path+" +G", s.d+1)
					push(sub(s.k, B(1)), g.Add(g.Neg(g.Gen()), s.p), s.path+" -G", s.d+1)
					push(s.k, g.Add(g.Neutral(), s.p), s.path+" O+", s.d+1)
					push(B(0), g.Add(s.p, g.Neg(s.p)), s.path+" minus itself", s.d+1)
					push(B(0), g.ScalarMult(s.p, B(0)), s.path+" times 0", s.d+1)
					push(B(0), g.ScalarMult(s.p, e.g.Order()), s.path+" times N", s.d+1)
					push(s.k, g.ScalarMult(s.p, B(1)), s.path+" times 1", s.d+1)
					push(mul(s.k, B(3)), g.ScalarMult(s.p, add(e.N, B(3))), s.path+" times N+3", s.d+1)
					q, err := g.Decode(bytesReader(lab.Enc(g, s.p)))
					if err != nil {
						r.Fail(e.name, "%s: decoding the encoding of %s: %v", e.name, s.path, err)
					}
					push(s.k, q, s.path+" decoded", s.d+1)
				})
			}
			r.Outcome("reachable "+e.name, fmt.Sprintf("%d representations, depth %d, complete %v", len(seen), maxd, len(seen) < limit && maxd < depth))
		})
	})
}
