package base

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// obj is a value the operations must leave alone; snap observes it.
type obj struct {
	name string
	snap func() string
	seen string
}

// world is a set of values of each kind, every one with what it looked like when it appeared.
type world struct {
	e   *env
	f   *commitment.ElGamalFactory
	ss  []*big.Int
	ps  []curve.Point
	cs  []*commitment.ElGamal
	ks  []*zkpok.ZKEGKnow
	rs  []*zkpok.ZKEGRefresh
	bs  [][]byte
	all []obj
}

func (w *world) watch(name string, snap func() string) {
	w.all = append(w.all, obj{name, snap, snap()})
}

func (w *world) scalar(name string, s *big.Int) {
	w.ss = append(w.ss, s)
	w.watch(name, func() string { return s.String() })
}

func (w *world) point(name string, p curve.Point) {
	w.ps = append(w.ps, p)
	w.watch(name, func() string { return fmt.Sprintf("%x", lab.Enc(w.e.g, p)) })
}

func (w *world) comm(name string, c *commitment.ElGamal) {
	w.cs = append(w.cs, c)
	w.watch(name, func() string { return fmt.Sprintf("%x", lab.EncC(c)) })
}

func (w *world) know(name string, z *zkpok.ZKEGKnow) {
	w.ks = append(w.ks, z)
	w.watch(name, func() string { return fmt.Sprintf("%x", encP(z)) })
}

func (w *world) refresh(name string, z *zkpok.ZKEGRefresh) {
	w.rs = append(w.rs, z)
	w.watch(name, func() string { return fmt.Sprintf("%x", encP(z)) })
}

func (w *world) bytes(name string, b []byte) {
	w.bs = append(w.bs, b)
	w.watch(name, func() string { return fmt.Sprintf("%x", b[:cap(b)]) })
}

func (w *world) verify(r *mc.Run, after string) {
	for i := range w.all {
		o := &w.all[i]
		if now := o.snap(); now != o.seen {
			r.Fail(map[string]string{"curve": w.e.name, "after": after, "changed": o.name}, "%s: %s changed %s from %s to %s", w.e.name, after, o.name, o.seen, now)
		}
	}
}

func (w *world) mark() [8]int {
	return [8]int{len(w.ss), len(w.ps), len(w.cs), len(w.ks), len(w.rs), len(w.bs), len(w.all)}
}

func (w *world) reset(m [8]int) {
	w.ss, w.ps, w.cs, w.ks, w.rs, w.bs, w.all = w.ss[:m[0]], w.ps[:m[1]], w.cs[:m[2]], w.ks[:m[3]], w.rs[:m[4]], w.bs[:m[5]], w.all[:m[6]]
}

// cloneC copies a commitment through its encoding: a receiver that may be overwritten.
func cloneC(c *commitment.ElGamal) *commitment.ElGamal {
	d := &commitment.ElGamal{}
	if err := d.Decode(bytesReader(lab.EncC(c))); err != nil {
		panic(mc.Broken("%v", err))
	}
	return d
}

type encoder interface {
	Encode(w interface {
		Write([]byte) (int, error)
	}) error
}

func encP(z interface{}) []byte {
	var b bytes.Buffer
	var err error
	switch z := z.(type) {
	case *zkpok.ZKEGKnow:
		err = z.Encode(&b)
	case *zkpok.ZKEGRefresh:
		err = z.Encode(&b)
	}
	if err != nil {
		panic(mc.Broken("%v", err))
	}
	return b.Bytes()
}

type op struct {
	name string
	run  func() // adds its results to the world
}

func newWorld(e *env) *world {
	w := &world{e: e}
	g := e.g
	w.f = commitment.NewElGamalFactory(g.ScalarBaseMult(B(3)))
	w.watch("order", func() string { return g.Order().String() })
	w.watch("generator", func() string { return fmt.Sprintf("%x", lab.Enc(g, g.Gen())) })
	w.watch("fresh group", func() string {
		h := curve.NewSecp256k1Group()
		return h.Order().String() + fmt.Sprintf("%x", lab.Enc(h, h.Gen()))
	})
	w.watch("challenge modulus", func() string { return pkg.Q.String() })
	w.watch("factory", func() string {
		if !w.f.IsNeutral(w.f.Neutral()) {
			return "neutral is not neutral"
		}
		return fmt.Sprintf("%x %x", lab.EncC(w.f.Create(B(2), B(1))), lab.EncC(w.f.Neutral()))
	})
	w.scalar("0", B(0))
	w.scalar("5", B(5))
	w.scalar("N-1", sub(e.N, B(1)))
	w.scalar("N", cp(e.N))
	w.scalar("2N+3", add(mul(e.N, B(2)), B(3)))
	w.scalar("2^256+1", add(lsh(256), B(1)))
	w.point("O", g.Neutral())
	w.point("G", g.Gen())
	w.point("5G", g.ScalarBaseMult(B(5)))
	w.point("-5G", g.Neg(g.ScalarBaseMult(B(5))))
	w.comm("C(5,N-1)", w.f.Create(B(5), sub(e.N, B(1))))
	w.comm("C(0,4)", w.f.Create(B(0), B(4)))
	w.comm("neutral", w.f.Neutral())
	b := make([]byte, 40, 60)
	for i := range b[:60] {
		b[:60][i] = byte(i)
	}
	w.bytes("message", b)
	w.bytes("no message", nil)
	z, err := zkpok.NewZKEGKnow(w.f, w.cs[0], w.ss[1], w.ss[2])
	if err != nil {
		panic(mc.Broken("%v", err))
	}
	w.know("proof of knowledge", z)
	c2 := w.f.Neutral()
	c2.Compose(w.cs[0], w.f.Create(B(0), B(5)))
	w.comm("refreshed C(5,N-1)", c2)
	y, err := zkpok.NewZKEGRefresh(w.f, w.cs[0], c2, w.ss[1])
	if err != nil {
		panic(mc.Broken("%v", err))
	}
	w.refresh("proof of refreshment", y)
	return w
}

// ops lists every operation on every choice of arguments in the world. With from
// given, only those that use a value that appeared after it.
func (w *world) ops(from [8]int, all bool) []op {
	g := w.e.g
	var l []op
	add := func(fresh bool, name string, run func()) {
		if all || fresh {
			l = append(l, op{name, run})
		}
	}
	for i := range w.ps {
		i, p := i, w.ps[i]
		fi := i >= from[1]
		add(fi, fmt.Sprintf("Neg(p%d)", i), func() { w.point("neg", g.Neg(p)) })
		add(fi, fmt.Sprintf("Encode(p%d)", i), func() { lab.Enc(g, p) })
		add(fi, fmt.Sprintf("Decode(Encode(p%d))", i), func() {
			if q, err := g.Decode(bytesReader(lab.Enc(g, p))); err == nil {
				w.point("decoded", q)
			}
		})
		add(fi, fmt.Sprintf("NewElGamalFactory(p%d).Create", i), func() {
			f := commitment.NewElGamalFactory(p)
			w.comm("commitment under another key", f.Create(w.ss[1], w.ss[2]))
		})
		for j := range w.ps {
			j, q := j, w.ps[j]
			fj := fi || j >= from[1]
			add(fj, fmt.Sprintf("Add(p%d,p%d)", i, j), func() { w.point("sum", g.Add(p, q)) })
			add(fj, fmt.Sprintf("Equal(p%d,p%d)", i, j), func() { g.Equal(p, q) })
		}
		for j := range w.ss {
			j, s := j, w.ss[j]
			add(fi || j >= from[0], fmt.Sprintf("ScalarMult(p%d,s%d)", i, j), func() { w.point("multiple", g.ScalarMult(p, s)) })
		}
	}
	for i := range w.ss {
		i, s := i, w.ss[i]
		fi := i >= from[0]
		add(fi, fmt.Sprintf("ScalarBaseMult(s%d)", i), func() { w.point("base multiple", g.ScalarBaseMult(s)) })
		for j := range w.ss {
			j, s2 := j, w.ss[j]
			add(fi || j >= from[0], fmt.Sprintf("Create(s%d,s%d)", i, j), func() { w.comm("created", w.f.Create(s, s2)) })
		}
	}
	for i := range w.cs {
		i, c := i, w.cs[i]
		fi := i >= from[2]
		add(fi, fmt.Sprintf("Inverse(c%d)", i), func() { w.comm("inverse", w.f.Neutral().Inverse(c)) })
		add(fi, fmt.Sprintf("c.Inverse(c), c like c%d", i), func() { d := cloneC(c); w.comm("inverse in place", d.Inverse(d)) })
		add(fi, fmt.Sprintf("IsNeutral(c%d)", i), func() { w.f.IsNeutral(c) })
		add(fi, fmt.Sprintf("Encode, Decode(c%d)", i), func() { w.comm("decoded commitment", cloneC(c)) })
		for j := range w.cs {
			j, d := j, w.cs[j]
			fj := fi || j >= from[2]
			add(fj, fmt.Sprintf("Compose(c%d,c%d)", i, j), func() { w.comm("composed", w.f.Neutral().Compose(c, d)) })
			add(fj, fmt.Sprintf("Compose(c%d,c%d) into another", i, j), func() {
				x := w.f.Create(w.ss[1], w.ss[1])
				w.comm("composed into another", x.Compose(c, d))
			})
			add(fj, fmt.Sprintf("c.Compose(c,c%d), c like c%d", j, i), func() { x := cloneC(c); w.comm("composed in place", x.Compose(x, d)) })
			add(fj, fmt.Sprintf("c.Compose(c%d,c), c like c%d", j, i), func() { x := cloneC(c); w.comm("composed in place", x.Compose(d, x)) })
			add(fj, fmt.Sprintf("Equal(c%d,c%d)", i, j), func() { c.Equal(c, d) })
			add(fj, fmt.Sprintf("NewZKEGRefresh(c%d,c%d)", i, j), func() {
				if z, err := zkpok.NewZKEGRefresh(w.f, c, d, w.ss[1]); err == nil {
					w.refresh("new proof of refreshment", z)
				}
			})
			for k := range w.rs {
				z := w.rs[k]
				add(fj || k >= from[4], fmt.Sprintf("refresh%d.Verify(c%d,c%d)", k, i, j), func() { _ = z.Verify(w.f, c, d) })
			}
		}
		for j := range w.ss {
			j, s := j, w.ss[j]
			fj := fi || j >= from[0]
			add(fj, fmt.Sprintf("Exp(c%d,s%d)", i, j), func() { w.comm("power", w.f.Neutral().Exp(c, s)) })
			add(fj, fmt.Sprintf("c.Exp(c,s%d), c like c%d", j, i), func() { x := cloneC(c); w.comm("power in place", x.Exp(x, s)) })
			add(fj, fmt.Sprintf("NewZKEGKnow(c%d,s1,s%d)", i, j), func() {
				if z, err := zkpok.NewZKEGKnow(w.f, c, w.ss[1], s); err == nil {
					w.know("new proof of knowledge", z)
				}
			})
			add(fj, fmt.Sprintf("NewZKEGRefresh(c%d,c0,s%d)", i, j), func() {
				if z, err := zkpok.NewZKEGRefresh(w.f, c, w.cs[0], s); err == nil {
					w.refresh("new proof of refreshment", z)
				}
			})
			add(fj, fmt.Sprintf("NewZKEGKnow(c%d,s%d,s2)", i, j), func() {
				if z, err := zkpok.NewZKEGKnow(w.f, c, s, w.ss[2]); err == nil {
					w.know("new proof of knowledge", z)
				}
			})
		}
		for k := range w.ks {
			z := w.ks[k]
			add(fi || k >= from[3], fmt.Sprintf("know%d.Verify(c%d)", k, i), func() { _ = z.Verify(w.f, c) })
		}
	}
	for k := range w.ks {
		z := w.ks[k]
		add(k >= from[3], fmt.Sprintf("Encode, Decode(know%d)", k), func() {
			y := &zkpok.ZKEGKnow{}
			if y.Decode(bytesReader(encP(z))) == nil {
				w.know("decoded proof", y)
			}
		})
	}
	for k := range w.rs {
		z := w.rs[k]
		add(k >= from[4], fmt.Sprintf("Encode, Decode(refresh%d)", k), func() {
			y := &zkpok.ZKEGRefresh{}
			if y.Decode(bytesReader(encP(z))) == nil {
				w.refresh("decoded proof", y)
			}
		})
	}
	for i := range w.bs {
		b := w.bs[i]
		add(i >= from[5], fmt.Sprintf("HashToBigInt(b%d)", i), func() { w.scalar("hash", pkg.HashToBigInt(b)) })
	}
	add(false, "Neutral as receiver", func() { w.comm("neutral composed", w.f.Neutral().Compose(w.cs[0], w.cs[1])) })
	add(false, "Gen", func() { w.point("generator again", g.Gen()) })
	add(false, "Order", func() { w.scalar("order again", g.Order()) })
	add(false, "NewSecp256k1Group", func() { curve.NewSecp256k1Group() })
	return l
}

func TestC02(t *testing.T) {
	check(t, "C02", func(r *mc.Run) {
		envs(r, []int64{31}, []int64{7, 79}, "histories", func(e *env) {
			w := newWorld(e)
			w.verify(r, "setting up")
			m := w.mark()
			first := w.ops(m, true)
			names := map[string]bool{}
			second := 0
			for _, a := range first {
				if r.Late() {
					break
				}
				r.Try(map[string]string{"curve": e.name, "operation": a.name}, a.run)
				w.verify(r, a.name)
				r.Step(1)
				r.Trace(1)
				names[a.name] = true
				// then everything that can be done with what it returned (in a tiny group: everything there is)
				m2 := w.mark()
				for _, b := range w.ops(m, e.Tiny || r.Thorough) {
					r.Try(map[string]string{"curve": e.name, "operation": a.name, "then": b.name}, b.run)
					w.verify(r, a.name+", "+b.name)
					r.Step(1)
					r.Trace(1)
					second++
					w.reset(m2)
				}
				w.reset(m)
			}
			r.State(len(names))
			r.Outcome("operations "+e.name, fmt.Sprintf("%d first operations, %d second ones, %d watched values", len(first), second, len(w.all)))
			r.Sample(map[string]string{"curve": e.name, "first": first[0].name, "last": first[len(first)-1].name})
		})
		// a variable of the caller that has one value, then another: what was made of the first stays, what is made of the second is of the second
		envs(r, []int64{31}, []int64{79}, "variables", func(e *env) {
			g := e.g
			f := commitment.NewElGamalFactory(g.ScalarBaseMult(B(3)))
			enc := func(p curve.Point) func() string { return func() string { return fmt.Sprintf("%x", lab.Enc(g, p)) } }
			encC := func(c *commitment.ElGamal) func() string {
				return func() string { return fmt.Sprintf("%x", lab.EncC(c)) }
			}
			base, com := g.ScalarBaseMult(B(5)), f.Create(B(4), B(9))
			vals := e.exps()
			if !e.Tiny && !r.Thorough && len(vals) > 7 {
				vals = vals[:7]
			}
			pairs := func(what string, n int, one func(i, j int)) {
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						r.Try(map[string]any{"curve": e.name, "variable": what, "first": i, "then": j}, func() { one(i, j) })
						r.Trace(1)
					}
				}
				r.State(n)
			}
			must := func(what, when, got, want string) {
				r.Step(1)
				if got != want {
					r.Fail(map[string]string{"curve": e.name, "operation": what, "when": when}, "%s: %s, %s: got %s, want %s", e.name, what, when, got, want)
				}
			}
			scalarOps := []struct {
				name string
				run  func(v *big.Int) func() string
			}{
				{"ScalarBaseMult", func(v *big.Int) func() string { return enc(g.ScalarBaseMult(v)) }},
				{"ScalarMult", func(v *big.Int) func() string { return enc(g.ScalarMult(base, v)) }},
				{"Create of a value", func(v *big.Int) func() string { return encC(f.Create(v, B(2))) }},
				{"Create with a coefficient", func(v *big.Int) func() string { return encC(f.Create(B(2), v)) }},
				{"Exp", func(v *big.Int) func() string { return encC(f.Neutral().Exp(com, v)) }},
			}
			for _, o := range scalarOps {
				o := o
				pairs(o.name, len(vals), func(i, j int) {
					v := cp(vals[i])
					was := o.run(v)
					before := was()
					v.Set(vals[j])
					must(o.name, "the result after its argument was given another value", was(), before)
					must(o.name, "with the same variable, now of another value", o.run(v)(), o.run(cp(vals[j]))())
					must(o.name, "with the first value again", o.run(v.Set(vals[i]))(), before)
				})
			}
			var comms [][]byte
			for _, c := range []*commitment.ElGamal{f.Neutral(), f.Create(B(0), B(1)), f.Create(B(1), B(0)), com, f.Create(B(4), B(10)), f.Neutral().Inverse(com)} {
				comms = append(comms, lab.EncC(c))
			}
			commOps := []struct {
				name string
				run  func(c *commitment.ElGamal) func() string
			}{
				{"Compose on the left", func(c *commitment.ElGamal) func() string { return encC(f.Neutral().Compose(c, com)) }},
				{"Compose on the right", func(c *commitment.ElGamal) func() string { return encC(f.Neutral().Compose(com, c)) }},
				{"Exp of a commitment", func(c *commitment.ElGamal) func() string { return encC(f.Neutral().Exp(c, B(6))) }},
				{"Inverse", func(c *commitment.ElGamal) func() string { return encC(f.Neutral().Inverse(c)) }},
				{"IsNeutral", func(c *commitment.ElGamal) func() string {
					s := fmt.Sprint(f.IsNeutral(c))
					return func() string { return s }
				}},
				{"Equal", func(c *commitment.ElGamal) func() string {
					s := fmt.Sprint(c.Equal(c, com), c.Equal(com, c))
					return func() string { return s }
				}},
				{"Encode", func(c *commitment.ElGamal) func() string {
					s := fmt.Sprintf("%x", lab.EncC(c))
					return func() string { return s }
				}},
			}
			ways := []struct {
				name string
				set  func(c *commitment.ElGamal, b []byte)
			}{
				{"decoded into", func(c *commitment.ElGamal, b []byte) {
					if err := c.Decode(bytesReader(b)); err != nil {
						panic(mc.Broken("%v", err))
					}
				}},
				{"composed into", func(c *commitment.ElGamal, b []byte) {
					d := &commitment.ElGamal{}
					if err := d.Decode(bytesReader(b)); err != nil {
						panic(mc.Broken("%v", err))
					}
					c.Compose(d, f.Neutral())
				}},
			}
			for _, o := range commOps {
				for _, w := range ways {
					o, w := o, w
					pairs(o.name+", "+w.name, len(comms), func(i, j int) {
						fresh := func(b []byte) string {
							c := &commitment.ElGamal{}
							ways[0].set(c, b)
							return o.run(c)()
						}
						c := f.Neutral()
						w.set(c, comms[i])
						was := o.run(c)
						before := was()
						w.set(c, comms[j])
						must(o.name, "the result after its argument was "+w.name, was(), before)
						must(o.name, "with the same variable, "+w.name, o.run(c)(), fresh(comms[j]))
					})
				}
			}
			// a buffer that is filled again
			pairs("HashToBigInt", 6, func(i, j int) {
				b := make([]byte, 3, 8)
				fill := func(k int) { b = append(b[:0], bytes.Repeat([]byte{byte(k)}, 2+k%3)...) }
				fill(i)
				was := pkg.HashToBigInt(b)
				before := was.String()
				fill(j)
				must("HashToBigInt", "the result after the buffer was filled again", was.String(), before)
				must("HashToBigInt", "with the same buffer", pkg.HashToBigInt(b).String(), pkg.HashToBigInt(append([]byte{}, b...)).String())
				was.Add(was, B(1)) // the caller's own
				must("HashToBigInt", "after the caller changed an earlier result", pkg.HashToBigInt(b).String(), pkg.HashToBigInt(append([]byte{}, b...)).String())
			})
		})
	})
}
