// Package paillier is a stand-in for tss-lib's package of the same name, which
// is not available offline: textbook Paillier with the same names, the same
// argument checks and the same errors.
package paillier

import (
	"crypto/rand"
	"errors"
	"math/big"
	"time"
)

// ErrMessageTooLong: the message is not in the domain of the operation.
var (
	ErrMessageTooLong   = errors.New("the message is too large or < 0")
	ErrMessageMalFormed = errors.New("the message is mal-formed")
)

type (
	// PublicKey is a Paillier public key.
	PublicKey struct{ N *big.Int }
	// PrivateKey is a Paillier private key.
	PrivateKey struct {
		PublicKey
		LambdaN, // lcm(p-1, q-1)
		PhiN *big.Int // (p-1) * (q-1)
	}
)

var one = big.NewInt(1)

// FromPrimes makes a key pair out of two primes (not in the original package).
func FromPrimes(p, q *big.Int) (*PrivateKey, *PublicKey) {
	n := new(big.Int).Mul(p, q)
	p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
	phi := new(big.Int).Mul(p1, q1)
	lambda := new(big.Int).Div(phi, new(big.Int).GCD(nil, nil, p1, q1))
	pub := &PublicKey{N: n}
	return &PrivateKey{PublicKey: *pub, LambdaN: lambda, PhiN: phi}, pub
}

// Hook takes the place of GenerateKeyPair when it is set.
var Hook func(bits int) (*PrivateKey, *PublicKey, error)

// GenerateKeyPair generates a Paillier key pair with a modulus of the given length.
func GenerateKeyPair(modulusBitLen int, timeout time.Duration, optionalConcurrency ...int) (*PrivateKey, *PublicKey, error) {
	if Hook != nil {
		return Hook(modulusBitLen)
	}
	for {
		p, err := rand.Prime(rand.Reader, (modulusBitLen+1)/2)
		if err != nil {
			return nil, nil, err
		}
		q, err := rand.Prime(rand.Reader, modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		if p.Cmp(q) == 0 {
			continue
		}
		priv, pub := FromPrimes(p, q)
		if pub.N.BitLen() == modulusBitLen {
			return priv, pub, nil
		}
	}
}

// NSquare returns N^2.
func (pk *PublicKey) NSquare() *big.Int { return new(big.Int).Mul(pk.N, pk.N) }

// EncryptAndReturnRandomness encrypts m.
func (pk *PublicKey) EncryptAndReturnRandomness(m *big.Int) (c, x *big.Int, err error) {
	if m.Sign() < 0 || m.Cmp(pk.N) >= 0 {
		return nil, nil, ErrMessageTooLong
	}
	for {
		if x, err = rand.Int(rand.Reader, pk.N); err != nil {
			return nil, nil, err
		}
		if x.Sign() > 0 && new(big.Int).GCD(nil, nil, x, pk.N).Cmp(one) == 0 {
			break
		}
	}
	n2 := pk.NSquare()
	gm := new(big.Int).Exp(new(big.Int).Add(pk.N, one), m, n2)
	c = new(big.Int).Exp(x, pk.N, n2)
	c.Mul(c, gm).Mod(c, n2)
	return c, x, nil
}

// Encrypt encrypts m.
func (pk *PublicKey) Encrypt(m *big.Int) (*big.Int, error) {
	c, _, err := pk.EncryptAndReturnRandomness(m)
	return c, err
}

// HomoMult returns an encryption of m times what c1 encrypts.
func (pk *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(pk.N) >= 0 {
		return nil, ErrMessageTooLong
	}
	n2 := pk.NSquare()
	if c1.Sign() < 0 || c1.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Exp(c1, m, n2), nil
}

// HomoAdd returns an encryption of the sum of what c1 and c2 encrypt.
func (pk *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	n2 := pk.NSquare()
	if c1.Sign() < 0 || c1.Cmp(n2) >= 0 || c2.Sign() < 0 || c2.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	r := new(big.Int).Mul(c1, c2)
	return r.Mod(r, n2), nil
}

// Decrypt decrypts c.
func (sk *PrivateKey) Decrypt(c *big.Int) (*big.Int, error) {
	n2 := sk.NSquare()
	if c.Sign() < 0 || c.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	if new(big.Int).GCD(nil, nil, c, n2).Cmp(one) > 0 {
		return nil, ErrMessageMalFormed
	}
	l := func(u *big.Int) *big.Int {
		t := new(big.Int).Sub(u, one)
		return t.Div(t, sk.N)
	}
	lc := l(new(big.Int).Exp(c, sk.LambdaN, n2))
	lg := l(new(big.Int).Exp(new(big.Int).Add(sk.N, one), sk.LambdaN, n2))
	inv := new(big.Int).ModInverse(lg, sk.N)
	if inv == nil {
		return nil, ErrMessageMalFormed
	}
	m := lc.Mul(lc, inv)
	return m.Mod(m, sk.N), nil
}
