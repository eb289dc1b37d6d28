package base

import (
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"math/big"
	"testing"

	"verif/harness/mc"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
)

// hashRef is the specified hash: 48 bytes of HKDF-SHA256 (RFC 5869) with salt
// "ThresholdECDSA" and info "H2F" 0 1, reduced modulo q.
func hashRef(msg []byte, q *big.Int) *big.Int {
	mac := func(key []byte, parts ...[]byte) []byte {
		m := hmac.New(sha256.New, key)
		for _, p := range parts {
			m.Write(p)
		}
		return m.Sum(nil)
	}
	prk := mac([]byte("ThresholdECDSA"), msg)
	info := []byte{'H', '2', 'F', 0, 1}
	t1 := mac(prk, info, []byte{1})
	t2 := mac(prk, t1, info, []byte{2})
	x := new(big.Int).SetBytes(append(t1, t2[:16]...))
	return x.Mod(x, q)
}

func TestH01(t *testing.T) {
	check(t, "H01", func(r *mc.Run) {
		envs(r, []int64{7, 31, 199}, []int64{67, 79, 139}, "strings", func(e *env) {
			q := cp(e.N)
			seen := map[string]string{}
			try := func(msg []byte) {
				before := string(msg[:cap(msg)])
				want := hashRef(msg, q)
				a := pkg.HashToBigInt(msg)
				if string(msg[:cap(msg)]) != before {
					r.Fail(fmt.Sprintf("%x", before), "%s: hashing %d bytes changed the input", e.name, len(msg))
				}
				name := fmt.Sprintf("%d bytes", len(msg))
				if len(msg) <= 40 {
					name = fmt.Sprintf("%x", msg)
				}
				if a.Cmp(want) != 0 {
					r.Fail(name, "%s: hash of %s is %v, specified is %v", e.name, name, a, want)
				}
				if a.Sign() < 0 || a.Cmp(q) >= 0 {
					r.Fail(name, "%s: hash of %s is out of range: %v", e.name, name, a)
				}
				// the result belongs to the caller
				a.Add(a, q).Lsh(a, 3)
				b := pkg.HashToBigInt(msg)
				if b.Cmp(want) != 0 || pkg.Q.Cmp(q) != 0 {
					r.Fail(name, "%s: after the caller changed the result the hash of %s is %v, modulus %v", e.name, name, b, pkg.Q)
				}
				if !e.Tiny {
					if o, dup := seen[b.String()]; dup {
						r.Fail(name, "the hashes of %s and %s are equal", name, o)
					}
					seen[b.String()] = name
				}
				r.State(1)
				r.Step(2)
				r.Trace(1)
			}
			try(nil)
			for a := 0; a < 256; a++ {
				try([]byte{byte(a)})
			}
			for a := 0; a < 65536 && !r.Late(); a++ {
				if e.Tiny && e.N.Int64() != 7 && a%16 != 0 && !r.Thorough {
					continue
				}
				try([]byte{byte(a >> 8), byte(a)})
			}
			top := 300
			if r.Thorough {
				top = 2000
			}
			lens := []int{4096, 65536, 65537, 1 << 20}
			for n := 3; n <= top; n++ {
				lens = append(lens, n)
			}
			for _, n := range lens {
				if r.Late() {
					return
				}
				for _, fill := range []byte{0, 0xff, 0x5a} {
					b := make([]byte, n, n+17)
					for i := range b[:cap(b)] {
						b[:cap(b)][i] = fill
					}
					try(b)
					// one bit at either end
					b = append(make([]byte, 0, n+5), b...)
					b[n-1] ^= 1
					try(b)
					b = append([]byte{}, b...)
					b[n-1] ^= 1
					b[0] ^= 0x80
					try(b)
				}
			}
			// every single bit of a message as long as a statement with a first message
			msg := make([]byte, 320)
			for i := 0; i < len(msg)*8; i++ {
				b := append([]byte{}, msg...)
				b[i/8] ^= 1 << (i % 8)
				if i/8 == 0 && i%8 == 7 || i/8 == len(msg)-1 && i%8 == 0 {
					continue // done above if 320 is among the lengths
				}
				try(b)
			}
			r.Sample(map[string]string{"modulus": q.String(), "hash of the empty string": pkg.HashToBigInt(nil).String()})
		})
	})
}
