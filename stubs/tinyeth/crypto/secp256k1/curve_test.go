package secp256k1

import (
	"math/big"
	"testing"
)

func TestX(t *testing.T) {
	for _, v := range Tiny {
		c := built[v[1]]
		// compare table vs formulas
		for k := 1; k < v[1]; k++ {
			x, y := c.ScalarBaseMult(big.NewInt(int64(k)).Bytes())
			one := big.NewInt(1)
			jx, jy, jz := c.Gx, c.Gy, one
			for i := 1; i < k; i++ {
				if i == 1 {
					jx, jy, jz = c.doubleJacobian(jx, jy, jz)
				} else {
					jx, jy, jz = c.addJacobian(jx, jy, jz, c.Gx, c.Gy, one)
				}
			}
			ax, ay := c.affineFromJacobian(jx, jy, jz)
			if ax.Cmp(x) != 0 || ay.Cmp(y) != 0 || !c.IsOnCurve(x, y) {
				t.Fatal(v, k, x, y, ax, ay)
			}
		}
		// all pairs add
		for a := 1; a < v[1]; a++ {
			for b := 1; b < v[1]; b++ {
				if a == b {
					continue
				}
				p, q := c.points[a], c.points[b]
				B := func(i int) *big.Int { return big.NewInt(int64(i)) }
				x, y := c.Add(B(p[0]), B(p[1]), B(q[0]), B(q[1]))
				one := B(1)
				ax, ay := c.affineFromJacobian(c.addJacobian(B(p[0]), B(p[1]), one, B(q[0]), B(q[1]), one))
				if ax.Cmp(x) != 0 || ay.Cmp(y) != 0 {
					t.Fatal(v, a, b)
				}
			}
		}
	}
}
