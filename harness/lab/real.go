//go:build !tiny

package lab

// IsTiny tells which dependency the harness was built with.
const IsTiny = false

// Real are the parameters of secp256k1, from SEC 2.
func Real() *Params {
	return &Params{
		P:    Hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"),
		N:    Hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"),
		Gx:   Hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		Gy:   Hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),
		memo: map[string]Aff{},
	}
}

// Use selects a tiny curve.
func Use(order int64) *Params { panic("built with the real curve") }

// Yield installs a scheduling point in every operation of the curve.
func Yield(f func()) {}
