package base

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
)

// draws explores the outcomes of the randomness: the first depth reads take every
// value of the alphabet, the others one that no reasonable sampler rejects.
func (e *env) draws(r *mc.Run, depth int, body func(src *script, what func() string)) {
	var alpha func(n int) [][]byte
	if e.Tiny {
		n := int(e.N.Int64())
		bits := 1
		for 1<<bits < n {
			bits++
		}
		alpha = func(l int) [][]byte {
			var a [][]byte
			for v := 0; v < 1<<bits; v++ {
				b := make([]byte, l)
				b[l-1] = byte(v)
				a = append(a, b)
			}
			a = append(a, bytes.Repeat([]byte{0xff}, l))
			return a
		}
	} else {
		alpha = func(l int) [][]byte {
			vals := []*big.Int{B(0), B(1), sub(e.N, B(1)), cp(e.N), sub(lsh(256), B(1)), lsh(128), sub(lsh(248), B(1))}
			var a [][]byte
			for _, v := range vals {
				b := make([]byte, l)
				w := make([]byte, l+40)
				v.FillBytes(w)
				copy(b, w[40:])
				a = append(a, b)
			}
			return a
		}
	}
	r.Explore(-1, func(c *mc.Chooser) {
		var got []string
		s := &script{}
		s.next = func(n, read int) []byte {
			if read >= depth {
				b := make([]byte, n)
				b[n-1] = 2
				return b
			}
			a := alpha(n)
			k := c.Choose(len(a), "read")
			got = append(got, fmt.Sprintf("%x", a[k]))
			return a[k]
		}
		with(s, func() { body(s, func() string { return fmt.Sprint(got) }) })
	})
}

func TestZ01(t *testing.T) {
	check(t, "Z01", func(r *mc.Run) {
		honest := func(e *env, k kind, h *big.Int, f *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, v, rnd *big.Int, what func() string) {
			c := func() any {
				return map[string]string{"curve": e.name, "proof": k.name, "key": h.String(), "value": v.String(), "randomness": rnd.String(), "draws": what()}
			}
			enc, err := k.prove(f, c1, c2, v, rnd)
			if err != nil {
				r.Fail(c(), "%s: an honest proof of %s of (%v,%v) under key %v with draws %s is rejected: %v", e.name, k.name, v, rnd, h, what(), err)
			}
			if err := k.verify(f, c1, c2, enc); err != nil {
				r.Fail(c(), "%s: an honest proof of %s of (%v,%v) under key %v with draws %s is rejected once sent: %v", e.name, k.name, v, rnd, h, what(), err)
			}
			r.Step(3)
			r.Trace(1)
		}
		run := func(e *env, depth int, keys []*big.Int, wit [][2]*big.Int, bases [][2]*big.Int) {
			for _, h := range keys {
				f := e.factory(h)
				for _, w := range wit {
					c := e.commit(h, w[0], w[1])
					e.draws(r, depth, func(src *script, what func() string) { honest(e, know, h, f, c, nil, w[0], w[1], what) })
					r.State(1)
				}
				for _, b := range bases {
					for _, w := range wit {
						c1, c2 := e.commit(h, b[0], b[1]), e.commit(h, b[0], add(b[1], w[1]))
						e.draws(r, depth-1, func(src *script, what func() string) { honest(e, refresh, h, f, c1, c2, b[0], w[1], what) })
						r.State(1)
					}
				}
				if r.Late() {
					return
				}
			}
			r.Sample(map[string]string{"curve": e.name, "witnesses": fmt.Sprint(len(wit)), "keys": fmt.Sprint(len(keys))})
		}
		tinyOnly(r, []int64{7}, nil, "all witnesses, keys and draws", func(e *env) {
			var wit [][2]*big.Int
			for _, v := range e.exps() {
				for _, rr := range e.exps() {
					wit = append(wit, [2]*big.Int{v, rr})
				}
			}
			// openings that are not reduced
			for _, v := range []*big.Int{B(7), B(8), B(20), lsh(256)} {
				wit = append(wit, [2]*big.Int{v, B(1)}, [2]*big.Int{B(1), v}, [2]*big.Int{v, v})
			}
			depth := 2
			if r.Thorough {
				depth = 3
			}
			run(e, depth, e.exps(), wit, [][2]*big.Int{{B(0), B(0)}, {B(1), B(0)}, {B(0), B(1)}, {B(3), B(5)}, {B(6), B(6)}})
		})
		tinyOnly(r, []int64{31}, []int64{79, 199}, "more witnesses", func(e *env) {
			n := e.N.Int64()
			var wit [][2]*big.Int
			for _, v := range []int64{0, 1, n / 2, n - 1} {
				for _, rr := range []int64{0, 1, n / 2, n - 1} {
					wit = append(wit, [2]*big.Int{B(v), B(rr)})
				}
			}
			depth := 1
			if r.Thorough {
				depth = 2
			}
			run(e, depth, []*big.Int{B(1), B(3), B(n - 1)}, wit, [][2]*big.Int{{B(0), B(0)}, {B(3), B(5)}})
		})
		realOnly(r, "edges", func(e *env) {
			m1 := sub(e.N, B(1))
			var wit [][2]*big.Int
			for _, v := range e.vals(true) {
				for _, rr := range e.vals(true) {
					wit = append(wit, [2]*big.Int{v, rr})
				}
			}
			run(e, 1, []*big.Int{B(3), m1}, wit, [][2]*big.Int{{B(1), B(2)}})
			few := [][2]*big.Int{{B(0), B(0)}, {m1, m1}, {B(1), B(0)}, {B(0), B(1)}, {lsh(255), B(153)}}
			keys := []*big.Int{B(0), B(1), B(3)}
			if !r.Thorough {
				keys = keys[1:2]
			}
			run(e, 3, keys, few, [][2]*big.Int{{B(0), B(0)}, {m1, B(5)}})
		})
		// the same proof object: verified repeatedly, encoded, decoded over another, verified again
		envs(r, []int64{7, 31}, []int64{79}, "lifetime", func(e *env) {
			for _, h := range []*big.Int{B(1), B(3)} {
				f := e.factory(h)
				for _, w := range [][2]*big.Int{{B(0), B(0)}, {B(1), B(2)}, {sub(e.N, B(1)), sub(e.N, B(1))}} {
					c := e.commit(h, w[0], w[1])
					d := e.commit(h, w[0], add(w[1], B(4)))
					z, err := zkpok.NewZKEGKnow(f, c, w[0], w[1])
					if err != nil {
						r.Fail(w, "%s: %v", e.name, err)
					}
					y, err := zkpok.NewZKEGRefresh(f, c, d, B(4))
					if err != nil {
						r.Fail(w, "%s: %v", e.name, err)
					}
					z2, y2 := *z, *y
					other, _ := zkpok.NewZKEGKnow(f, d, w[0], add(w[1], B(4)))
					for i := 0; i < 3; i++ {
						if z.Verify(f, c) != nil || y.Verify(f, c, d) != nil || z.Verify(e.factory(h), e.comm(lab.SeeC(c))) != nil {
							r.Fail(w, "%s: an honest proof is rejected when verified again", e.name)
						}
						if err := other.Decode(bytesReader(encP(z))); err != nil || other.Verify(f, c) != nil {
							r.Fail(w, "%s: a proof decoded over another is rejected (%v)", e.name, err)
						}
						if z2.Verify(f, c) != nil || y2.Verify(f, c, d) != nil {
							r.Fail(w, "%s: a copied proof is rejected", e.name)
						}
						r.Step(6)
					}
					r.State(1)
					r.Trace(1)
				}
			}
		})
	})
}
