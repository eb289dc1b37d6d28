// Package lab holds the reference the checks compare with: affine arithmetic on
// y^2 = x^3+7 written independently of the code under test, and what is needed to
// observe points, commitments and proofs through their encodings only.
package lab

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"
	"sync"

	"verif/harness/mc"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// Params are the parameters of the curve in use.
type Params struct {
	P, N, Gx, Gy *big.Int
	Tiny         bool
	mu           sync.Mutex
	memo         map[string]Aff
	logs         map[string]int64
}

// Aff is an affine point; Inf marks the neutral element.
type Aff struct {
	Inf  bool
	X, Y *big.Int
}

func (a Aff) String() string {
	if a.Inf {
		return "O"
	}
	return fmt.Sprintf("(%x,%x)", a.X, a.Y)
}

// Same compares two points.
func (a Aff) Same(b Aff) bool {
	return a.Inf == b.Inf && (a.Inf || (a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0))
}

// B makes a big integer.
func B(i int64) *big.Int { return big.NewInt(i) }

// Hex makes a big integer.
func Hex(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return x
}

// Mod reduces modulo the order.
func (c *Params) Mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, c.N) }

// Add adds two points by the textbook formulas.
func (c *Params) Add(a, b Aff) Aff {
	if a.Inf {
		return b
	}
	if b.Inf {
		return a
	}
	var num, den *big.Int
	if a.X.Cmp(b.X) == 0 {
		if s := new(big.Int).Add(a.Y, b.Y); s.Mod(s, c.P).Sign() == 0 {
			return Aff{Inf: true}
		}
		num = new(big.Int).Mul(a.X, a.X)
		num.Mul(num, B(3))
		den = new(big.Int).Lsh(a.Y, 1)
	} else {
		num = new(big.Int).Sub(b.Y, a.Y)
		den = new(big.Int).Sub(b.X, a.X)
	}
	den.Mod(den, c.P)
	l := new(big.Int).ModInverse(den, c.P)
	l.Mul(l, num).Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X).Sub(x, b.X).Mod(x, c.P)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l).Sub(y, a.Y).Mod(y, c.P)
	return Aff{X: x, Y: y}
}

// G is the generator.
func (c *Params) G() Aff { return Aff{X: c.Gx, Y: c.Gy} }

// Mul is k times the generator.
func (c *Params) Mul(k *big.Int) Aff {
	k = c.Mod(k)
	key := k.String()
	c.mu.Lock()
	if a, ok := c.memo[key]; ok {
		c.mu.Unlock()
		return a
	}
	c.mu.Unlock()
	r := Aff{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if k.Bit(i) == 1 {
			r = c.Add(r, c.G())
		}
	}
	c.mu.Lock()
	c.memo[key] = r
	c.mu.Unlock()
	return r
}

// Log is the discrete logarithm, on tiny curves.
func (c *Params) Log(a Aff) int64 {
	if !c.Tiny {
		panic("no discrete logarithms here")
	}
	c.mu.Lock()
	if len(c.logs) == 0 {
		c.mu.Unlock()
		m := map[string]int64{}
		for k := int64(0); k < c.N.Int64(); k++ {
			m[c.Mul(B(k)).String()] = k
		}
		c.mu.Lock()
		c.logs = m
	}
	k, ok := c.logs[a.String()]
	c.mu.Unlock()
	if !ok {
		return -1
	}
	return k
}

// On tells whether a is on the curve.
func (c *Params) On(a Aff) bool {
	if a.Inf {
		return true
	}
	if a.X.Sign() < 0 || a.Y.Sign() < 0 || a.X.Cmp(c.P) >= 0 || a.Y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(a.Y, a.Y)
	r := new(big.Int).Exp(a.X, B(3), c.P)
	r.Add(r, B(7)).Sub(r, l)
	return r.Mod(r, c.P).Sign() == 0
}

// Wire is the encoding of a point by the documented format.
func Wire(a Aff) []byte {
	if a.Inf {
		return make([]byte, 4)
	}
	x, y := a.X.Bytes(), a.Y.Bytes()
	b := make([]byte, 8, 8+len(x)+len(y))
	binary.BigEndian.PutUint32(b, uint32(len(x)))
	binary.BigEndian.PutUint32(b[4:], uint32(len(y)))
	return append(append(b, x...), y...)
}

// Unwire parses an encoded point and returns the rest.
func Unwire(b []byte) (Aff, []byte, error) {
	if len(b) < 4 {
		return Aff{}, nil, fmt.Errorf("short encoding %x", b)
	}
	lx := binary.BigEndian.Uint32(b)
	if lx == 0 {
		return Aff{Inf: true}, b[4:], nil
	}
	if len(b) < 8 {
		return Aff{}, nil, fmt.Errorf("short encoding %x", b)
	}
	ly := binary.BigEndian.Uint32(b[4:])
	if uint64(len(b)-8) < uint64(lx)+uint64(ly) {
		return Aff{}, nil, fmt.Errorf("short encoding %x", b)
	}
	b = b[8:]
	return Aff{X: new(big.Int).SetBytes(b[:lx]), Y: new(big.Int).SetBytes(b[lx : lx+ly])}, b[lx+ly:], nil
}

// Enc encodes a point with the code under test.
func Enc(g curve.Group, p curve.Point) []byte {
	var b bytes.Buffer
	if err := g.Encode(p, &b); err != nil {
		panic(mc.Broken("encoding a point to a buffer: %v", err))
	}
	return b.Bytes()
}

// See observes a point: through its encoding, or by its coordinates if it cannot be encoded.
func See(g curve.Group, p curve.Point) Aff {
	a, rest, err := Unwire(Enc(g, p))
	if err != nil || len(rest) != 0 {
		panic(mc.Broken("encoding of a point: rest %x, error %v", rest, err))
	}
	return a
}

// Encoder is what commitments and proofs have in common.
type Encoder interface {
	Encode(w interface{ Write([]byte) (int, error) }) error
}

// EncC encodes a commitment.
func EncC(c *commitment.ElGamal) []byte {
	var b bytes.Buffer
	if err := c.Encode(&b); err != nil {
		panic(mc.Broken("encoding a commitment to a buffer: %v", err))
	}
	return b.Bytes()
}

// SeeC observes a commitment.
func SeeC(c *commitment.ElGamal) (first, second Aff) {
	b := EncC(c)
	f, b, err := Unwire(b)
	if err != nil {
		panic(mc.Broken("%v", err))
	}
	s, b, err := Unwire(b)
	if err != nil || len(b) != 0 {
		panic(mc.Broken("encoding of a commitment: rest %x, error %v", b, err))
	}
	return f, s
}

// Comm is the reference for a commitment to v with randomness r under the key h·G.
func (c *Params) Comm(h, v, r *big.Int) (first, second Aff) {
	k := new(big.Int).Mul(h, r)
	return c.Mul(r), c.Mul(k.Add(k, v))
}

// Proof is a proof as sent: both responses and the first message.
type Proof struct {
	Z1, Z2       *big.Int
	First, Secnd Aff
}

// SeeP parses an encoded proof.
func SeeP(b []byte) (Proof, error) {
	var p Proof
	if len(b) < 8 {
		return p, fmt.Errorf("short proof %x", b)
	}
	l1, l2 := binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	if uint64(len(b)-8) < uint64(l1)+uint64(l2) {
		return p, fmt.Errorf("short proof %x", b)
	}
	b = b[8:]
	p.Z1, p.Z2 = new(big.Int).SetBytes(b[:l1]), new(big.Int).SetBytes(b[l1:l1+l2])
	var err error
	if p.First, b, err = Unwire(b[l1+l2:]); err != nil {
		return p, err
	}
	if p.Secnd, b, err = Unwire(b); err != nil {
		return p, err
	}
	if len(b) > 0 {
		return p, fmt.Errorf("proof has a rest %x", b)
	}
	return p, nil
}

// WireP encodes a proof by the documented format.
func WireP(p Proof) []byte {
	z1, z2 := p.Z1.Bytes(), p.Z2.Bytes()
	b := make([]byte, 8, 200)
	binary.BigEndian.PutUint32(b, uint32(len(z1)))
	binary.BigEndian.PutUint32(b[4:], uint32(len(z2)))
	b = append(append(b, z1...), z2...)
	return append(append(b, Wire(p.First)...), Wire(p.Secnd)...)
}

// Dump writes out a value with everything it points to, for canonical states.
func Dump(v any) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		b.WriteString(v.Kind().String())
	}
}

// Times is k times a point.
func (c *Params) Times(a Aff, k *big.Int) Aff {
	if c.Tiny {
		return c.Mul(new(big.Int).Mul(B(c.Log(a)), k))
	}
	k = c.Mod(k)
	r := Aff{Inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.Add(r, r)
		if k.Bit(i) == 1 {
			r = c.Add(r, a)
		}
	}
	return r
}

// Neg is the inverse of a point.
func (c *Params) Neg(a Aff) Aff {
	if a.Inf {
		return a
	}
	return Aff{X: a.X, Y: new(big.Int).Mod(new(big.Int).Neg(a.Y), c.P)}
}

// Reader reads from b.
func Reader(b []byte) io.Reader { return bytes.NewReader(b) }

// EncodeTo encodes anything that can be encoded.
func EncodeTo(v interface{ Encode(io.Writer) error }) []byte {
	var b bytes.Buffer
	if err := v.Encode(&b); err != nil {
		panic(mc.Broken("encoding to a buffer: %v", err))
	}
	return b.Bytes()
}
