package base

import (
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

var B = lab.B

// env is one instance of the system: the parameters of its curve and the group itself.
type env struct {
	*lab.Params
	g    curve.Group
	name string
}

// envs runs body for the real curve, or for each of the given tiny curves.
func envs(r *mc.Run, quick []int64, thorough []int64, part string, body func(e *env)) {
	if !lab.IsTiny {
		r.Part(part+"/real", func() { body(&env{lab.Real(), curve.NewSecp256k1Group(), "real"}) })
		return
	}
	orders := quick
	if r.Thorough {
		orders = append(append([]int64{}, quick...), thorough...)
	}
	for _, n := range orders {
		p := lab.Use(n)
		if o := curve.NewSecp256k1Group().Order(); o.Cmp(p.N) != 0 {
			// the order is not taken from the curve library: nothing can be said about tiny groups
			r.Skip("%s: the order of the group is %v with a curve of order %d", part, o, n)
			return
		}
		r.Part(fmt.Sprintf("%s/q=%d", part, n), func() { body(&env{p, curve.NewSecp256k1Group(), fmt.Sprintf("q=%d", n)}) })
	}
}

func tinyOnly(r *mc.Run, quick []int64, thorough []int64, part string, body func(e *env)) {
	if lab.IsTiny {
		envs(r, quick, thorough, part, body)
	}
}

func realOnly(r *mc.Run, part string, body func(e *env)) {
	if !lab.IsTiny {
		envs(r, nil, nil, part, body)
	}
}

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func lsh(n uint) *big.Int        { return new(big.Int).Lsh(B(1), n) }
func cp(a *big.Int) *big.Int     { return new(big.Int).Set(a) }

// exps are exponents of points worth looking at: all of a tiny group; on the real
// curve the ends of the range, the eigenvalue of the endomorphism (points that share
// their y), and points whose coordinates have leading zero bytes.
func (e *env) exps() []*big.Int {
	var l []*big.Int
	if e.Tiny {
		for k := int64(0); k < e.N.Int64(); k++ {
			l = append(l, B(k))
		}
		return l
	}
	lambda := lab.Hex("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
	half := new(big.Int).Rsh(add(e.N, B(1)), 1)
	l = []*big.Int{B(0), B(1), B(2), B(3), sub(e.N, B(1)), sub(e.N, B(2)), half, sub(half, B(1)),
		lambda, sub(sub(e.N, lambda), B(1)), e.Mod(mul(lambda, B(5))), B(5), sub(e.N, B(5)), lsh(255), lsh(128), lsh(8), B(255)}
	for _, s := range short {
		l = append(l, B(s))
	}
	return l
}

// short: multiples of the generator whose coordinates begin with zero bytes.
var short = []int64{153, 122, 246, 55959, 44629, 41192}

// scalars are the multipliers worth trying.
func (e *env) scalars() []*big.Int {
	var l []*big.Int
	if e.Tiny {
		n := e.N.Int64()
		for k := int64(0); k <= 2*n+2; k++ {
			l = append(l, B(k))
		}
		for _, b := range []int64{255, 256, 257, 65535, 65536} {
			l = append(l, B(b))
		}
	} else {
		l = append(l, e.exps()...)
		l = append(l, add(e.N, B(2)), add(e.N, B(3)), mul(e.N, B(2)), add(mul(e.N, B(2)), B(1)), sub(mul(e.N, B(2)), B(1)))
		l = append(l, lab.Hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"))
	}
	l = append(l, sub(e.N, B(1)), cp(e.N), add(e.N, B(1)), sub(lsh(256), B(1)), lsh(256), add(lsh(256), B(1)),
		mul(e.N, e.N), add(mul(e.N, e.N), B(2)), add(mul(e.N, lsh(256)), B(3)), add(lsh(512), B(7)), sub(lsh(64), B(1)), lsh(64))
	return l
}

// is checks that p is k times the generator.
func (e *env) is(r *mc.Run, p curve.Point, k *big.Int, format string, args ...any) {
	want := e.Mul(k)
	if got := lab.See(e.g, p); !got.Same(want) {
		r.Fail(map[string]string{"curve": e.name, "case": fmt.Sprintf(format, args...)}, "%s: %s: got %v, want %v", e.name, fmt.Sprintf(format, args...), got, want)
	}
}

// comm makes a commitment without the factory: out of the encodings of its parts.
func (e *env) comm(first, second lab.Aff) *commitment.ElGamal {
	c := &commitment.ElGamal{}
	if err := c.Decode(bytesReader(append(lab.Wire(first), lab.Wire(second)...))); err != nil {
		panic(mc.Broken("decoding a valid commitment (%v,%v): %v", first, second, err))
	}
	return c
}

// isC checks that c commits to (v, rnd) under the key h times the generator.
func (e *env) isC(r *mc.Run, c *commitment.ElGamal, h, v, rnd *big.Int, format string, args ...any) {
	wf, ws := e.Comm(h, v, rnd)
	f, s := lab.SeeC(c)
	if !f.Same(wf) || !s.Same(ws) {
		r.Fail(map[string]string{"curve": e.name, "case": fmt.Sprintf(format, args...)}, "%s key %v: %s: got (%v,%v), want (%v,%v)", e.name, h, fmt.Sprintf(format, args...), f, s, wf, ws)
	}
}

func check(t *testing.T, id string, body func(r *mc.Run)) { mc.Check(t, id, body) }
