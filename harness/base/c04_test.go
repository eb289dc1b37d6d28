package base

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"testing"

	"verif/harness/lab"
	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
)

// lengths are values for a length field.
var lengths = []uint32{0, 1, 2, 3, 4, 8, 16, 31, 32, 33, 34, 63, 64, 65, 127, 255, 256, 257, 1 << 12, 1 << 16, 1<<16 + 32, 1 << 20, 1 << 24, 1<<24 + 32, 1 << 27, 1<<31 - 1, 1 << 31, 1<<31 + 32, 1<<32 - 32, 1<<32 - 1}

// target is a kind of object that is decoded from untrusted bytes.
type target struct {
	name   string
	good   [][]byte // genuine encodings
	fields []int    // offsets of length fields in good[0], relative to the start
	// decode gives an error or an object; use exercises the object and returns a complaint
	decode func(rd io.Reader) (use func() string, err error)
}

func (e *env) badPoint(a lab.Aff) string {
	if !e.On(a) {
		return fmt.Sprintf("the decoded point %v is not on the curve", a)
	}
	return ""
}

func (e *env) targets() []target {
	g := e.g
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(B(3)))
	mk := func(k int64) []byte { return lab.Enc(g, g.ScalarBaseMult(B(k))) }
	var pts, cms, kns, rfs [][]byte
	for _, k := range []int64{2, 0, 1, 5} {
		pts = append(pts, mk(k))
	}
	if !e.Tiny {
		for _, k := range short {
			pts = append(pts, mk(k))
		}
	}
	c1, c0 := f.Create(B(2), B(5)), f.Neutral()
	cx := f.Create(sub(e.N, B(3)), B(1)) // the second component is the neutral element
	c2 := f.Neutral().Compose(c1, f.Create(B(0), B(4)))
	for _, c := range []*commitment.ElGamal{c1, c0, cx} {
		cms = append(cms, lab.EncC(c))
	}
	for _, w := range [][2]int64{{2, 5}, {0, 0}} {
		c := c1
		if w[0] == 0 {
			c = c0
		}
		z, err := zkpok.NewZKEGKnow(f, c, B(w[0]), B(w[1]))
		if err != nil {
			panic(mc.Broken("%v", err))
		}
		kns = append(kns, encP(z))
	}
	for _, c := range []*commitment.ElGamal{c1, c0} {
		d, rnd := c2, B(4)
		if c == c0 {
			d, rnd = c0, B(0)
		}
		z, err := zkpok.NewZKEGRefresh(f, c, d, rnd)
		if err != nil {
			panic(mc.Broken("%v", err))
		}
		rfs = append(rfs, encP(z))
	}
	comps := func(enc []byte) string {
		for len(enc) > 0 {
			a, rest, err := lab.Unwire(enc)
			if err != nil {
				return err.Error()
			}
			if s := e.badPoint(a); s != "" {
				return s
			}
			enc = rest
		}
		return ""
	}
	return []target{
		{"point", pts, []int{0, 4}, func(rd io.Reader) (func() string, error) {
			p, err := g.Decode(rd)
			if err != nil {
				return nil, err
			}
			return func() string {
				if s := e.badPoint(lab.See(g, p)); s != "" {
					return s
				}
				g.Equal(p, g.Gen())
				g.Equal(g.Neutral(), p)
				q := g.Add(g.Add(p, g.Gen()), g.Neg(p))
				if !g.Equal(g.ScalarMult(p, e.N), g.Neutral()) || !g.Equal(q, g.Gen()) {
					return "the decoded point does not behave like an element of the group"
				}
				return ""
			}, nil
		}},
		{"commitment", cms, []int{0, 4}, func(rd io.Reader) (func() string, error) {
			c := &commitment.ElGamal{}
			if err := c.Decode(rd); err != nil {
				return nil, err
			}
			return func() string {
				if s := comps(lab.EncC(c)); s != "" {
					return s
				}
				c.Equal(c, c1)
				f.IsNeutral(c)
				x := f.Neutral()
				x.Compose(x.Inverse(c), c1)
				x.Compose(x, x.Exp(c, B(3)))
				if s := comps(lab.EncC(x)); s != "" {
					return "after operations: " + s
				}
				d := f.Neutral()
				d.Compose(d.Inverse(c), c)
				if !f.IsNeutral(d) {
					return "the decoded commitment composed with its inverse is not neutral"
				}
				return ""
			}, nil
		}},
		{"proof of knowledge", kns, []int{0, 4}, func(rd io.Reader) (func() string, error) {
			z := &zkpok.ZKEGKnow{}
			if err := z.Decode(rd); err != nil {
				return nil, err
			}
			return func() string {
				_ = z.Verify(f, c1)
				_ = z.Verify(f, c0)
				return e.badProof(encP(z))
			}, nil
		}},
		{"proof of refreshment", rfs, []int{0, 4}, func(rd io.Reader) (func() string, error) {
			z := &zkpok.ZKEGRefresh{}
			if err := z.Decode(rd); err != nil {
				return nil, err
			}
			return func() string {
				_ = z.Verify(f, c1, c2)
				_ = z.Verify(f, c0, c0)
				return e.badProof(encP(z))
			}, nil
		}},
	}
}

func (e *env) badProof(b []byte) string {
	p, err := lab.SeeP(b)
	if err != nil {
		return err.Error()
	}
	if s := e.badPoint(p.First); s != "" {
		return s
	}
	return e.badPoint(p.Secnd)
}

// try decodes b in every required way: it may fail, it may give a usable object.
func (e *env) try(r *mc.Run, tg target, b []byte, how string) (ok bool) {
	r.Try(map[string]string{"curve": e.name, "kind": tg.name, "bytes": fmt.Sprintf("%x", b), "how": how}, func() {
		use, err := tg.decode(bytes.NewReader(b))
		if err == nil {
			ok = true
			if s := use(); s != "" {
				r.Fail(map[string]string{"kind": tg.name, "bytes": fmt.Sprintf("%x", b)}, "%s: %s %s %x: %s", e.name, tg.name, how, b, s)
			}
		}
	})
	r.Step(1)
	return ok
}

func TestC04(t *testing.T) {
	check(t, "C04", func(r *mc.Run) {
		orders, more := []int64{7, 31}, []int64{79, 199}
		envs(r, orders, more, "truncation", func(e *env) {
			for _, tg := range e.targets() {
				for gi, b := range tg.good {
					if !e.try(r, tg, b, "genuine") {
						r.Fail(fmt.Sprintf("%x", b), "%s: genuine %s %d refused: %x", e.name, tg.name, gi, b)
					}
					for n := 0; n < len(b); n++ {
						if e.try(r, tg, b[:n], "truncated") {
							r.Fail(fmt.Sprintf("%x", b[:n]), "%s: %s truncated from %d to %d bytes accepted: %x", e.name, tg.name, len(b), n, b[:n])
						}
						// the same with an error in place of the rest
						r.Try(n, func() {
							if _, err := tg.decode(io.MultiReader(bytes.NewReader(b[:n]), failing{})); err == nil {
								r.Fail(n, "%s: %s accepted although reading failed after %d of %d bytes", e.name, tg.name, n, len(b))
							}
						})
						// and with one byte missing in the middle
						e.try(r, tg, append(append([]byte(nil), b[:n]...), b[n+1:]...), "with one byte missing")
					}
					r.State(len(b) + 1)
					r.Sample(fmt.Sprintf("%s %s %x and all its prefixes", e.name, tg.name, b))
				}
			}
		})
		envs(r, orders, more, "changed byte", func(e *env) {
			accepted, refused := 0, 0
			for _, tg := range e.targets() {
				good := tg.good
				if !e.Tiny && len(good) > 2 && !r.Thorough {
					good = good[:2]
				}
				for _, b := range good {
					r.Parallel(len(b), func(i int) {
						m := append([]byte(nil), b...)
						for v := 0; v < 256; v++ {
							m[i] = byte(v)
							e.try(r, tg, m, fmt.Sprintf("with byte %d changed", i))
						}
					})
					for v := 0; v < 256; v++ {
						m := append([]byte(nil), b...)
						m[len(m)-1] = byte(v)
						if e.try(r, tg, m, "with the last byte changed") {
							accepted++
						} else {
							refused++
						}
					}
				}
			}
			r.Outcome("last byte changed "+e.name, fmt.Sprintf("accepted %d, refused %d", accepted, refused))
		})
		// every length in every length field, with bodies of several sizes and contents
		envs(r, orders, nil, "length fields", func(e *env) {
			for _, tg := range e.targets() {
				for _, l1 := range lengths {
					for _, l2 := range lengths {
						for _, body := range []int{0, 1, 2, 32, 64, 65, 200} {
							for fill := 0; fill < 3; fill++ {
								b := make([]byte, 8+body)
								binary.BigEndian.PutUint32(b, l1)
								binary.BigEndian.PutUint32(b[4:], l2)
								for i := 8; i < len(b); i++ {
									b[i] = []byte{0, 1, 255}[fill]
								}
								e.try(r, tg, b, "with lengths changed")
								if body == 0 {
									break
								}
							}
						}
						// genuine contents behind wrong lengths
						b := append([]byte(nil), tg.good[0]...)
						binary.BigEndian.PutUint32(b, l1)
						binary.BigEndian.PutUint32(b[4:], l2)
						e.try(r, tg, b, "with lengths changed")
					}
				}
				r.State(len(lengths) * len(lengths))
			}
		})
		// length fields further inside, and the memory that is reserved for them
		envs(r, []int64{31}, nil, "allocation", func(e *env) {
			var ms runtime.MemStats
			worst := uint64(0)
			for _, tg := range e.targets() {
				for _, b := range tg.good {
					for off := 0; off+4 <= len(b); off++ {
						for _, l := range lengths[15:] {
							m := append([]byte(nil), b...)
							binary.BigEndian.PutUint32(m[off:], l)
							for _, rd := range []io.Reader{bytes.NewReader(m), io.MultiReader(bytes.NewReader(m), io.LimitReader(forever{}, 1<<17))} {
								runtime.ReadMemStats(&ms)
								before := ms.TotalAlloc
								r.Try(map[string]any{"kind": tg.name, "bytes": fmt.Sprintf("%x", m)}, func() { tg.decode(rd) })
								runtime.ReadMemStats(&ms)
								if d := ms.TotalAlloc - before; d > worst {
									worst = d
								}
								if ms.TotalAlloc-before > 1<<20 {
									r.Fail(fmt.Sprintf("%x", m), "%s: decoding %d bytes as %s reserved %d bytes: %x", e.name, len(m), tg.name, ms.TotalAlloc-before, m)
								}
								r.Step(1)
							}
							if off > 8 && off < len(b)-8 && off%5 != 0 && !r.Thorough {
								break
							}
						}
					}
				}
			}
			r.Outcome("memory reserved at most", fmt.Sprintf("below %d KiB", worst>>10+1))
		})
		// complete coordinates: every pair of bytes (tiny), edge pairs (real)
		envs(r, orders, []int64{199}, "coordinates", func(e *env) {
			tgs := e.targets()
			onCurve := 0
			var xs []*big.Int
			if e.Tiny {
				for v := int64(0); v < 256; v++ {
					xs = append(xs, B(v))
				}
				xs = append(xs, B(256), B(257))
			} else {
				p := e.P
				xs = []*big.Int{B(0), B(1), B(7), e.Gx, e.Gy, sub(p, B(1)), cp(p), add(p, B(1)), add(p, e.Gx), sub(p, e.Gy), e.Mul(B(2)).X, e.Mul(B(2)).Y,
					sub(lsh(256), B(1)), e.Mul(B(short[0])).X, e.Mul(B(short[0])).Y, sub(p, e.Mul(B(short[1])).Y), e.Mul(B(short[1])).X, cp(e.N)}
				if d := sub(lsh(256), B(1)); true { // aliases above the prime that still fit
					one := e.Mul(B(1))
					_ = one
					xs = append(xs, d)
				}
			}
			for _, x := range xs {
				for _, y := range xs {
					for pad := 0; pad < 3; pad++ { // leading zeros: refused, or the same point
						xb, yb := x.Bytes(), y.Bytes()
						if pad == 1 {
							xb = append([]byte{0}, xb...)
						}
						if pad == 2 {
							yb = append([]byte{0, 0}, yb...)
						}
						b := make([]byte, 8)
						binary.BigEndian.PutUint32(b, uint32(len(xb)))
						binary.BigEndian.PutUint32(b[4:], uint32(len(yb)))
						b = append(append(b, xb...), yb...)
						if e.try(r, tgs[0], b, "with chosen coordinates") {
							onCurve++
						}
						if pad == 0 {
							e.try(r, tgs[1], append(append([]byte(nil), lab.Wire(e.Mul(B(2)))...), b...), "with a chosen second component")
							e.try(r, tgs[1], append(append([]byte(nil), b...), lab.Wire(e.Mul(B(2)))...), "with a chosen first component")
							for _, tg := range tgs[2:] {
								e.try(r, tg, append(append([]byte{0, 0, 0, 1, 0, 0, 0, 1, 1, 1}, lab.Wire(e.Mul(B(2)))...), b...), "with a chosen first message")
							}
						}
					}
				}
			}
			r.State(len(xs) * len(xs))
			r.Outcome("points accepted "+e.name, fmt.Sprint(onCurve))
		})
		// all byte strings over a small alphabet: up to 11 bytes, the longest tiny point has 10
		envs(r, []int64{7}, nil, "short strings", func(e *env) {
			tgs := e.targets()
			alphabet := []byte{0, 1, 5, 7, 0xff}
			max := 8
			if r.Thorough {
				max = 10
			}
			if !e.Tiny {
				alphabet, max = []byte{0, 1, 0x20, 0xff}, 7
			}
			n := 1
			for l := 0; l <= max; l++ {
				r.Parallel(n, func(i int) {
					b := make([]byte, l)
					for j, v := 0, i; j < l; j++ {
						b[j] = alphabet[v%len(alphabet)]
						v /= len(alphabet)
					}
					for _, tg := range tgs[:2] {
						e.try(r, tg, b, "short")
					}
					if l > 7 {
						e.try(r, tgs[2+i%2], b, "short")
					}
				})
				r.State(n)
				n *= len(alphabet)
			}
		})
		// responses of a proof: every pair of lengths up to the bound with every filling
		envs(r, []int64{31}, nil, "responses", func(e *env) {
			tgs := e.targets()
			for l1 := 0; l1 <= 40; l1++ {
				for l2 := 0; l2 <= 40; l2++ {
					for _, v := range []byte{0, 1, 0xff} {
						b := make([]byte, 8)
						binary.BigEndian.PutUint32(b, uint32(l1))
						binary.BigEndian.PutUint32(b[4:], uint32(l2))
						b = append(b, bytes.Repeat([]byte{v}, l1+l2)...)
						b = append(append(b, lab.Wire(e.Mul(B(2)))...), lab.Wire(e.Mul(B(0)))...)
						for _, tg := range tgs[2:] {
							e.try(r, tg, b, "with long responses")
						}
					}
				}
			}
			r.State(41 * 41 * 3)
			r.Trace(41 * 41 * 3)
		})
	})
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, fmt.Errorf("the link broke") }

type forever struct{}

func (forever) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 1
	}
	return len(p), nil
}
