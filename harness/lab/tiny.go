//go:build tiny

package lab

import (
	"github.com/ethereum/go-ethereum/crypto/secp256k1"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
)

// IsTiny tells which dependency the harness was built with.
const IsTiny = true

// Real are the parameters of secp256k1.
func Real() *Params { panic("built with tiny curves") }

// Use selects a tiny curve, and its order as the modulus of the challenge.
func Use(order int64) *Params {
	for _, t := range secp256k1.Tiny {
		if int64(t[1]) == order {
			secp256k1.Use(t[1])
			c := &Params{P: B(int64(t[0])), N: B(order), Gx: B(int64(t[2])), Gy: B(int64(t[3])), Tiny: true, memo: map[string]Aff{}}
			pkg.Q = B(order)
			return c
		}
	}
	panic("no such curve")
}

// Yield installs a scheduling point in every operation of the curve.
func Yield(f func()) { secp256k1.Yield = f }
