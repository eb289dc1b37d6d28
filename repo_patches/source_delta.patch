From 23c0c62acdc1419316df85e03fa0f63915bcfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 01/36] fix: adding a point to its inverse gives the neutral
 element

---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..3c52970 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -52,6 +52,9 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		// inverse points, their sum is the neutral element
+		resultX, resultY = nil, nil
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From 7226a93f092cb5413f70ba3220dae710fec270c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 02/36] fix: reduce every scalar modulo the order, leave the
 caller's alone, multiply the neutral element

Scalars from the order up to 2^256 gave the neutral element, longer ones were
reduced in place in the caller's integer, and multiplying (hence negating) the
neutral element panicked.
---
 pkg/curve/secp256k1.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 3c52970..75157c8 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -72,8 +72,11 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
+	if scale.Cmp(g.Order()) >= 0 {
+		scale = new(big.Int).Mod(scale, g.Order())
+	}
+	if a.(sPoint).x == nil && a.(sPoint).y == nil {
+		return g.Neutral()
 	}
 	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
 	return sPoint{resultX, resultY}
@@ -81,8 +84,8 @@ func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
+	if scale.Cmp(g.Order()) >= 0 {
+		scale = new(big.Int).Mod(scale, g.Order())
 	}
 	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
 	return sPoint{resultX, resultY}
-- 
2.43.0


From 543035966312b2b4f3688407cb06986fc10c6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 03/36] fix: decode the encoding of the neutral element, and
 points that arrive in pieces

The neutral element is encoded in four bytes but decoding always read eight, so
it failed or swallowed four bytes of what followed. A reader that returned fewer
bytes than asked for, as any io.Reader may, made decoding fail.
---
 pkg/curve/secp256k1.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 75157c8..a18ef30 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -130,27 +130,25 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	// encoding of a neutral element ends after lenX
+	n, err := io.ReadFull(r, lenBytes[:4])
 	if err != nil {
 		return nil, err
 	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
-	}
 
 	lenX := binary.BigEndian.Uint32(lenBytes[:4])
 	if lenX == 0 {
 		return sPoint{nil, nil}, nil
 	}
 
+	if n, err = io.ReadFull(r, lenBytes[4:]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d: %v", 4+n, err)
+	}
+
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
 	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
-	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	if n, err = io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Too few bytes for x and y: expected %d, got %d: %v", lenX+lenY, n, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
-- 
2.43.0


From b03d411dbbf5ddae26e303e1d174711fc75a0917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 04/36] fix: reject encodings of anything that is not a point
 of the curve

Any pair of numbers was accepted as a point; lengths whose sum overflows made
decoding panic, and large ones made it allocate gigabytes.
---
 pkg/curve/secp256k1.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index a18ef30..a178881 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -146,12 +146,18 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 	}
 
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
+	if maxLen := uint32(g.curve.BitSize+7) / 8; lenX > maxLen || lenY > maxLen {
+		return nil, fmt.Errorf("Too long coordinates: %d and %d bytes", lenX, lenY)
+	}
 	xyBytes := make([]byte, lenX+lenY)
 	if n, err = io.ReadFull(r, xyBytes); err != nil {
 		return nil, fmt.Errorf("Too few bytes for x and y: expected %d, got %d: %v", lenX+lenY, n, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("Not a point of the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From 54656676efdc563a9d52878252738d91244f3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 05/36] fix: decoding a proof fails when any part of it is
 malformed

The error of decoding the first message was dropped, so that verifying a
truncated proof panicked; lengths whose sum overflows panicked as well.
---
 pkg/crypto/zkpok/zkpok.go | 44 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..533f602 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -13,6 +13,9 @@ import (
 	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
 )
 
+// maxScalarLen is the length in bytes of the longest response in a proof
+const maxScalarLen = 32
+
 //ZKproof represents a zero-knowledge proof that may be verified
 type ZKproof interface {
 	Verify() bool
@@ -96,32 +99,27 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	n, err := io.ReadFull(r, lenBytes)
 	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+		return fmt.Errorf("Too few bytes: expected 8, got %d: %v", n, err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > maxScalarLen || z2Len > maxScalarLen {
+		return fmt.Errorf("Too long payload: %d and %d bytes", z1Len, z2Len)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
+	n, err = io.ReadFull(r, allBytes)
 	if err != nil {
-		return err
-	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len+z2Len, n, err)
 	}
 
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-
-	return nil
+	return z.xy.Decode(r)
 }
 
 //ZKEGRerand implements proof that a comitment c2 is a proper rerandomization of commitment c1
@@ -281,30 +279,26 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	n, err := io.ReadFull(r, lenBytes)
 	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+		return fmt.Errorf("Too few bytes: expected 8, got %d: %v", n, err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > maxScalarLen || z2Len > maxScalarLen {
+		return fmt.Errorf("Too long payload: %d and %d bytes", z1Len, z2Len)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
+	n, err = io.ReadFull(r, allBytes)
 	if err != nil {
-		return err
-	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len+z2Len, n, err)
 	}
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-	return nil
+	return z.xy.Decode(r)
 }
 
 // ZKDLog implements proof of knowledge of discrete logarithm
-- 
2.43.0


From 4a029d9a44439793ab0f59f91f5b899e1e1b340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 06/36] fix: derive the challenge of a proof from its first
 message too

Hashing the statement alone tells the prover the challenge in advance: anybody
could pick responses and solve for the first message, proving anything.
---
 pkg/crypto/zkpok/zkpok.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 533f602..53be6e1 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -40,6 +40,10 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	if err := comm.Encode(buf); err != nil {
 		return nil, err
 	}
+	xy := fct.Create(rho, sigma)
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
@@ -47,7 +51,6 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -65,6 +68,9 @@ func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGam
 	if err := comm.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
@@ -215,6 +221,11 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err := c2.Encode(buf); err != nil {
 		return nil, err
 	}
+	xy := fct.Neutral()
+	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
@@ -223,8 +234,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
@@ -242,6 +251,9 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	if err := c2.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	d := fct.Neutral()
-- 
2.43.0


From 60ef40e253f255eed804dfeac5bcbe28e235d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 07/36] fix: a refresh proof shows that the value did not
 change

The responses let the prover use any exponent of the original commitment, so
whoever knew its opening could "refresh" it into a commitment to another value.
---
 pkg/crypto/zkpok/zkpok.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 53be6e1..34c0bd2 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -211,7 +211,8 @@ type ZKEGRefresh struct {
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
 	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
+	// c1 occurs in c2 with the public exponent 1, there is nothing to blind
+	tau := big.NewInt(0)
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -256,6 +257,11 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
+	// the exponent of c1 has to be 1: any other would prove a rerandomization of a multiple of c1
+	if new(big.Int).Mod(e, fct.Curve().Order()).Cmp(z.z2) != 0 {
+		return fmt.Errorf("verification failed")
+	}
+
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
 	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, z.z2))
-- 
2.43.0


From 8d4e452e355a07e3f2a0d112b90cdb40b6b2fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 08/36] fix: reject proofs with responses at or above the order

They stand for the same residue, so a proof could be altered and still verify.
---
 pkg/crypto/zkpok/zkpok.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 34c0bd2..27f4b95 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -63,6 +63,10 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 
 //Verify verifies proof z of knowledge of value and r for commitment c
 func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGamal) error {
+	if z.z1.Cmp(fct.Curve().Order()) >= 0 || z.z2.Cmp(fct.Curve().Order()) >= 0 {
+		return fmt.Errorf("verification failed: response out of range")
+	}
+
 	d := fct.Neutral()
 	buf := &bytes.Buffer{}
 	if err := comm.Encode(buf); err != nil {
@@ -245,6 +249,10 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 
 //Verify verifies ZKEGRefresh proof
 func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal) error {
+	if z.z1.Cmp(fct.Curve().Order()) >= 0 {
+		return fmt.Errorf("verification failed: response out of range")
+	}
+
 	buf := &bytes.Buffer{}
 	if err := c1.Encode(buf); err != nil {
 		return err
-- 
2.43.0


From 7660b4f753f2d4b840574fd2a48009a50dfe80c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 09/36] fix: draw shares and hash modulo the order of the
 group, not modulo the field prime

---
 pkg/arith/config.go | 4 ++--
 pkg/crypto/hash.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..465f61d 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -8,6 +8,6 @@ import (
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the curve
+	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 )
diff --git a/pkg/crypto/hash.go b/pkg/crypto/hash.go
index c70ba74..0066476 100644
--- a/pkg/crypto/hash.go
+++ b/pkg/crypto/hash.go
@@ -7,8 +7,8 @@ import (
 	"golang.org/x/crypto/hkdf"
 )
 
-// Q TODO: placeholder, should be replaced with order of the curve
-var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+// Q is the order of the curve
+var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 
 //HashToBigInt takes []byte and returns its hash as a big.Int
 func HashToBigInt(msg []byte) *big.Int {
-- 
2.43.0


From 1636d849a0ca2aa547fe07502f55b5cfad810d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 10/36] fix: resharing refuses thresholds above the number of
 parties and lengths beyond the message

---
 pkg/arith/reshare.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..d006861 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -13,7 +13,7 @@ import (
 
 // Reshare transforms the arithmetic secret into a threshold secret
 func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
-	if t < 1 {
+	if t < 1 || int(t) > len(ads.egs) {
 		return nil, fmt.Errorf("Cannot reshare with threshold %v", t)
 	}
 
@@ -340,6 +340,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
 		l := binary.LittleEndian.Uint32(data[:4])
+		if uint64(l) > uint64(len(data)-4) {
+			return fmt.Errorf("data for pid %v has wrong length %v of the evaluation", pid, l)
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From 72ef54bd4d9ad1d074078289886bee7c54389473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 11/36] fix: resharing returns the new share with its
 randomness and commitments, and keeps the original

---
 pkg/arith/reshare.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index d006861..227c5dd 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -431,10 +431,15 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	// Our own commitment was refreshed as well. The arithmetic secret itself stays as it was.
+	shareComms[ads.pid] = shareCommRefresh
+	shareRand.Add(shareRand, shareRandRefresh)
+	shareRand.Mod(shareRand, order)
+
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From 115249831cc2fa380a3f2604aca4543437759ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 12/36] fix: a malformed frame is an error of its sender, not a
 panic or a huge allocation

---
 pkg/sync/server.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..29a30cd 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -2,8 +2,10 @@
 package sync
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	"os"
 	"strings"
@@ -13,6 +15,9 @@ import (
 	"gitlab.com/alephledger/core-go/pkg/network"
 )
 
+// maxFrameLen bounds the length of data a party may send in one round
+const maxFrameLen = 1 << 26
+
 // Server implements
 type Server interface {
 	Start()
@@ -275,25 +280,22 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
-			l := int(binary.LittleEndian.Uint64(dataLen))
-			buf := make([]byte, l)
-			nRead := 0
-			for {
-				n, err := s.inDataConn[pid].Read(buf[nRead:])
-				if err != nil {
-					errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
-					return
-				}
-				nRead += n
-				if nRead == l {
-					break
-				}
-
+			l := binary.LittleEndian.Uint64(dataLen)
+			if l > maxFrameLen {
+				errors[pid] = fmt.Errorf("rid:%v: received impossible length %v from %v", s.roundID, l, pid)
+				return
+			}
+			// the buffer grows with the data that arrives, not with the length that was announced
+			frame := &bytes.Buffer{}
+			if _, err := io.CopyN(frame, s.inDataConn[pid], int64(l)); err != nil {
+				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
+				return
 			}
+			buf := frame.Bytes()
 
 			if len(buf) < 10 {
 				errors[pid] = fmt.Errorf("rid:%v: received too short data from %v", s.roundID, pid)
@@ -301,7 +303,8 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			}
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From d4653b144a39c62ef447b2f0fcbbad8231da3928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 13/36] fix: a failed round names the missing parties, checks
 the data of the others and ends its sending

---
 pkg/sync/server.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 29a30cd..75eed2f 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -153,26 +153,27 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	}()
 
 	data, missing, err := s.receiveFromAll(endRound)
-	if err != nil {
-		return wrap(err)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
 
+	// Whatever the outcome, this round has to be over before the next one starts sending
 	wg.Wait()
 
-	if errSend != nil {
-		return wrap(errSend)
-	}
-
 	errors := []error{}
 	wrong := []uint16{}
+	isMissing := make([]bool, s.nProc)
+	if err != nil {
+		errors = append(errors, err)
+		for _, pid := range missing {
+			isMissing[pid] = true
+		}
+	}
 	for pid := uint16(0); pid < s.nProc; pid++ {
 		if pid == s.pid {
 			continue
 		}
+		if isMissing[pid] {
+			wrong = append(wrong, pid)
+			continue
+		}
 		err = check(pid, data[pid])
 		if err != nil {
 			errors = append(errors, err)
@@ -184,6 +185,10 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 		return newRoundError(fmt.Errorf("rid:%v: Data sent by the parties %v is wrong with errors %v", s.roundID, wrong, errors).Error(), wrong)
 	}
 
+	if errSend != nil {
+		return wrap(errSend)
+	}
+
 	// TODO: better timeout handling
 	d := time.Until(endRound)
 	if d > time.Second {
@@ -337,7 +342,7 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 	}
 
 	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
+		return data, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
 	}
 
 	return data, nil, nil
-- 
2.43.0


From 3df5a4c71c3f54ced9148cc32de3c3571d400c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 14/36] fix: a failed or foreign introduction is dropped, it
 does not crash the party

---
 pkg/sync/server.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 75eed2f..b5e1f37 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -34,6 +34,7 @@ type server struct {
 	inDataConn, outDataConn []network.Connection
 	prevRoundEnd            time.Time
 	startWG                 sync.WaitGroup
+	startMx                 sync.Mutex
 }
 
 // NewServer construcs a SyncServer object
@@ -68,16 +69,17 @@ func (s *server) Start() {
 					}
 
 					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
+					_, err = io.ReadFull(conn, buf)
 					if err != nil {
-						panic(err.Error())
+						conn.Close()
+						continue
 					}
 
 					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					if !s.addInDataConn(pid, conn) {
+						conn.Close()
+						continue
 					}
-					s.inDataConn[pid] = conn
 					return
 				}
 			}()
@@ -99,10 +101,12 @@ func (s *server) Start() {
 					buf := make([]byte, 2)
 					binary.LittleEndian.PutUint16(buf, s.pid)
 					if _, err = conn.Write(buf); err != nil {
-						panic(fmt.Sprintf("succesfully dialed %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					if err = conn.Flush(); err != nil {
-						panic(fmt.Sprintf("succesfully written %v but then %v", pid, err))
+						conn.Close()
+						continue
 					}
 					s.outDataConn[pid] = conn
 					return
@@ -112,6 +116,18 @@ func (s *server) Start() {
 	}()
 }
 
+// addInDataConn registers conn as the incoming link of the given party.
+// It refuses parties outside of the committee and a second link of the same party.
+func (s *server) addInDataConn(pid uint16, conn network.Connection) bool {
+	s.startMx.Lock()
+	defer s.startMx.Unlock()
+	if pid >= s.nProc || pid == s.pid || s.inDataConn[pid] != nil {
+		return false
+	}
+	s.inDataConn[pid] = conn
+	return true
+}
+
 func (s *server) Stop() {
 	s.startWG.Wait()
 	for pid := uint16(0); pid < s.nProc; pid++ {
-- 
2.43.0


From 83e4b6ce2749e5899b4182de32424fd17d578094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 15/36] fix: a linear combination knows its owner and does not
 disclose its summands

---
 pkg/arith/distributed_secret.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..71b6d28 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -217,6 +217,7 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
@@ -225,6 +226,7 @@ func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
 	tmp := new(big.Int).Mul(beta, b.skShare)
 	tds.skShare.Add(tds.skShare, tmp)
+	tds.skShare.Mod(tds.skShare, a.egf.Curve().Order())
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
-- 
2.43.0


From 0d3c2250ce90990a3b0db529ca7481e8200dce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 16/36] fix: Reveal interpolates t shares modulo the order and
 fails with fewer

---
 pkg/arith/distributed_secret.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 71b6d28..b35d142 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -71,12 +71,24 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		}
 	}
 
-	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
+	// Interpolate the first t shares that arrived
+	args := make([]*big.Int, 0, tds.t)
+	for i, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Reveal: received %v shares, but the threshold is %v", len(args), tds.t)
+	}
+
+	order := tds.egf.Curve().Order()
+	sum := big.NewInt(0)
+	for _, arg := range args {
+		coef := lagrangeCoef(arg, args, order)
+		sum.Add(sum, coef.Mul(coef, secrets[arg.Int64()]))
+	}
+	sum.Mod(sum, order)
 
 	return sum, nil
 }
-- 
2.43.0


From f823f2934664f2f17b40d5b0113b32ed912ee55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 17/36] fix: Exp derives the key from any t public shares and
 fails with fewer

---
 pkg/arith/distributed_secret.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index b35d142..f9cce07 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -131,19 +131,22 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	channel := make(chan curve.Point, nProc)
 	counter := tds.t
 
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := make([]*big.Int, 0, tds.t)
+	values := make([]curve.Point, 0, tds.t)
 	for i, value := range tdk.pkShares {
 		if value == nil {
 			continue
 		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
+		args = append(args, big.NewInt(int64(i)))
+		values = append(values, value)
 		counter = counter - 1
 		if counter == 0 {
 			break
 		}
 	}
+	if counter > 0 {
+		return nil, fmt.Errorf("Exp: received %v public shares, but the threshold is %v", len(args), tds.t)
+	}
 
 	for i, arg := range args {
 		wg.Add(1)
-- 
2.43.0


From bdce383585167ba7c1e01a0a4f462c7a5231ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 18/36] fix: shares of a product add up to the product modulo
 the order

---
 pkg/arith/mult.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..90f651b 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -198,6 +198,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		}
 
 		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
+		negMyShare.Mod(negMyShare, pubs[id].N)
 		enc, err := pubs[id].Encrypt(negMyShare)
 		if err != nil {
 			return err
@@ -232,10 +233,13 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			var err error
 			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
+			// the plaintext aa'-t is negative when aa' is smaller than t
+			if new(big.Int).Lsh(abmts[id], 1).Cmp(pub.N) > 0 {
+				abmts[id].Sub(abmts[id], pub.N)
+			}
 		}
 
 		return nil
@@ -254,9 +258,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		share.Add(share, t)
 		share.Add(share, abmts[id])
 	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
-	}
+	share.Mod(share, Q)
 
 	return share, nil
 }
-- 
2.43.0


From a967ae22a642632176eb47917435f277f0d9e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 19/36] fix: a product can be used like any other shared secret

---
 pkg/arith/mult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 90f651b..8957d81 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,6 +18,8 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
+	c.egf = a.egf
 	c.label = cLabel
 	c.server = a.server
 
-- 
2.43.0


From 01c372e869cf8767aa141dda80d16c3b35f80f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 20/36] fix: a commitment to a message that announces more than
 it holds is an error, without allocating it

---
 pkg/arith/distributed_key.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/pkg/arith/distributed_key.go b/pkg/arith/distributed_key.go
index 92f11fa..58a3e89 100644
--- a/pkg/arith/distributed_key.go
+++ b/pkg/arith/distributed_key.go
@@ -77,33 +77,23 @@ func (nmc *NMCtmp) encode(w io.Writer) error {
 
 func (nmc *NMCtmp) decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("nmc wrong number of bytes in decode")
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of bytes in decode: %v", err)
 	}
 
-	lenData := int(binary.LittleEndian.Uint32(lenBytes[:4]))
-	nmc.dataBytes = make([]byte, lenData)
-	n, err = r.Read(nmc.dataBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenData {
-		return fmt.Errorf("nmc wrong number of dataBytes in decode")
+	// the buffers grow with the data that arrives, not with the lengths that were announced
+	dataBuf, zkpBuf := &bytes.Buffer{}, &bytes.Buffer{}
+	lenData := int64(binary.LittleEndian.Uint32(lenBytes[:4]))
+	if _, err := io.CopyN(dataBuf, r, lenData); err != nil {
+		return fmt.Errorf("nmc wrong number of dataBytes in decode: %v", err)
 	}
+	nmc.dataBytes = dataBuf.Bytes()
 
-	lenZkp := int(binary.LittleEndian.Uint32(lenBytes[4:8]))
-	nmc.zkpBytes = make([]byte, lenZkp)
-	n, err = r.Read(nmc.zkpBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenZkp {
-		return fmt.Errorf("nmc wrong number of zkpBytes in decode")
+	lenZkp := int64(binary.LittleEndian.Uint32(lenBytes[4:8]))
+	if _, err := io.CopyN(zkpBuf, r, lenZkp); err != nil {
+		return fmt.Errorf("nmc wrong number of zkpBytes in decode: %v", err)
 	}
+	nmc.zkpBytes = zkpBuf.Bytes()
 
 	return nil
 
-- 
2.43.0


From 3c9734aaf17b3813fb367c53b0041beade6b920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 21/36] fix: signing divides modulo the order, leaves r alone
 and refuses a zero mask

---
 pkg/tecdsa/tecdsa.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..ea7bb45 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,14 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	order := p.group.Order()
+	tauInv := new(big.Int).ModInverse(tau, order)
+	if tauInv == nil {
+		return nil, fmt.Errorf("The presignature can not be used, because its masking value is zero")
+	}
+	alpha, beta := new(big.Int).Mul(message, tauInv), new(big.Int).Mul(r, tauInv)
+	alpha.Mod(alpha, order)
+	beta.Mod(beta, order)
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From 56dd5f415251697c43a4cb15cf8a8955ff5ec589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 22/36] fix: commitments are made under the commitment key, not
 under the signing key

---
 pkg/tecdsa/tecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index ea7bb45..b7623ed 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -47,7 +47,7 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.egf = commitment.NewElGamalFactory(p.key.PublicKey())
+	p.egf = commitment.NewElGamalFactory(p.egKey.PublicKey())
 
 	return p, nil
 }
-- 
2.43.0


From e96ea581bd967b6c001d1ecb1ffcdba4da5417b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 23/36] fix: presigning refuses an impossible threshold before
 it sends anything

---
 pkg/tecdsa/tecdsa.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index b7623ed..1d6b831 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -54,6 +54,10 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 
 // Presign generates a new presignature
 func (p *Protocol) Presign(t uint16) error {
+	if t < 1 || t > p.nProc {
+		return fmt.Errorf("Cannot presign with threshold %v among %v parties", t, p.nProc)
+	}
+
 	var err error
 	var k, rho, eta, tau *arith.ADSecret
 	if k, err = arith.Gen("k", p.network, p.egf, p.pid, p.nProc); err != nil {
-- 
2.43.0


From ce954b3814fb3fee6cdf9c2fce3ade152720730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 24/36] fix: write all components of the private key, not the
 modulus three times

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From ad5f846a72feaa4ea750f77dc851e46307b848f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 25/36] fix: refuse an address list that is too short for the
 committee

---
 cmd/gen_keys/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 1bd5dd9..1aae018 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -82,6 +82,12 @@ func main() {
 		for pid := 0; pid < nProc && scanner.Scan(); pid++ {
 			addresses[pid] = scanner.Text()
 		}
+		for pid, addr := range addresses {
+			if addr == "" {
+				fmt.Fprintf(os.Stderr, "No address for process %d.\n", pid)
+				return
+			}
+		}
 	}
 	processes := make([]*proc, nProc)
 	for i := 0; i < nProc; i++ {
-- 
2.43.0


From f5e4aaee1de952d38c71759d608e2cfe09f83803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 26/36] fix: an undecodable or truncated key is an error, not a
 crash

---
 cmd/tecdsa/main.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..cd4dba9 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -37,15 +37,28 @@ type committee struct {
 }
 
 func decodeBigInt(data []byte, name string) (*big.Int, error) {
-	lenX := binary.LittleEndian.Uint16(data[:2])
-	if len(data) < 2+int(lenX) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong encoding, the length of %s is missing", name)
+	}
+	lenX := int(binary.LittleEndian.Uint16(data[:2]))
+	if len(data) < 2+lenX {
 		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
 	}
-	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
+	x := new(big.Int).SetBytes(data[2 : 2+lenX])
+	if x.Sign() == 0 {
+		return nil, fmt.Errorf("wrong encoding, %s is zero", name)
+	}
+	if data[2] == 0 {
+		return nil, fmt.Errorf("wrong encoding, %s is padded with zeros", name)
+	}
+	return x, nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
 	pk.PublicKey.N, err = decodeBigInt(data, "N")
@@ -92,6 +105,9 @@ func parseCommitteeLine(line string) (*paillier.PublicKey, string, error) {
 		return nil, "", errors.New("malformed address")
 	}
 	pk.N = new(big.Int).SetBytes(pkBytes)
+	if pk.N.Sign() == 0 {
+		return nil, "", errors.New("the paillier key is zero")
+	}
 
 	return pk, addr, nil
 }
-- 
2.43.0


From e4c5ef8a95b03df742367e1e37cf9304d7ca7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 27/36] fix: refuse party numbers, counts and thresholds out of
 range

---
 cmd/tecdsa/main.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index cd4dba9..dc11751 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -8,6 +8,7 @@ import (
 	"flag"
 	"fmt"
 	"io"
+	"math"
 	"math/big"
 	"os"
 	"os/signal"
@@ -142,6 +143,9 @@ func getCommittee(filename string) (*committee, error) {
 	if len(c.publicKeys) < 2 {
 		return nil, errors.New("the protocol needs at least 2 parties")
 	}
+	if len(c.publicKeys) > math.MaxUint16 {
+		return nil, errors.New("the protocol does not support that many parties")
+	}
 
 	return c, nil
 }
@@ -250,11 +254,21 @@ func main() {
 		return
 	}
 
-	if member.pid >= len(committee.addresses) {
+	if member.pid < 0 || member.pid >= len(committee.addresses) {
 		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
 		return
 	}
 
+	if options.sigNumber < 1 {
+		fmt.Fprintf(logFile, "Wrong number of signatures: %d.\n", options.sigNumber)
+		return
+	}
+
+	if options.threshold < 1 || options.threshold > len(committee.addresses) {
+		fmt.Fprintf(logFile, "Wrong threshold: %d.\n", options.threshold)
+		return
+	}
+
 	net, err := tcp.NewServer(committee.addresses[member.pid], committee.addresses, zerolog.Nop())
 	if err != nil {
 		fmt.Fprintf(logFile, "Could not init tcp server due to %v.\n", err)
-- 
2.43.0


From 076b123447c6b18ed8fdb73245e123e067fb963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 28/36] fix: multiply every share of one factor by every share
 of the other

---
 pkg/arith/mult.go | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 8957d81..384d415 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -141,38 +141,25 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party we run MtA twice: once as Bob, with our a and their b', and once as Alice,
+	// with their a' and our b.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) and wait for Enc(a').
 
 	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
 	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
-			// Bob for a
+		if id != pid {
 			toSendBuf1[id] = encA.Bytes()
 		}
 	}
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
+		if id != uint16(pid) {
 			encShares[id] = new(big.Int).SetBytes(data)
 		}
 
@@ -183,8 +170,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
+	// Step 2. Second round of MtA. Send Enc(a'b-t) and wait for Enc(ab'-t').
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
@@ -216,13 +202,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
-		} else if id > pid {
-			// Alice for b
+		if id != pid {
 			if err := genEncABmt(id, b); err != nil {
 				return nil, err
 			}
@@ -233,12 +213,11 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	check = func(id uint16, data []byte) error {
 		if id != uint16(pid) {
 			var err error
-			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
-			// the plaintext aa'-t is negative when aa' is smaller than t
+			// the plaintext ab'-t' is negative when ab' is smaller than t'
 			if new(big.Int).Lsh(abmts[id], 1).Cmp(pub.N) > 0 {
 				abmts[id].Sub(abmts[id], pub.N)
 			}
-- 
2.43.0


From 6a5027eb0a9aa25f3d0ee7658cd7f187d8fb3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 29/36] fix: a party that fails in a signing attempt sits out
 the rest of it

A party whose Sign failed went straight on to its next attempt, so the others
took its messages for shares of the attempt they were still in (Reveal took any
bytes for a share), and signed wrongly without an error, or lost the attempts
that followed. The failed party now takes part in the remaining rounds of the
attempt with empty messages, and Reveal accepts shares of the right length only.
---
 pkg/arith/distributed_secret.go |  8 ++++++--
 pkg/tecdsa/tecdsa.go            | 13 +++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index f9cce07..b5cb3b7 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -53,13 +53,18 @@ type TDSecret struct {
 // Reveal computes a join secret, which share is kept in tds.
 func (tds *TDSecret) Reveal() (*big.Int, error) {
 	// TODO: add EGReveal
-	toSend := [][]byte{tds.skShare.Bytes()}
+	order := tds.egf.Curve().Order()
+	shareLen := (order.BitLen() + 7) / 8
+	toSend := [][]byte{new(big.Int).Mod(tds.skShare, order).FillBytes(make([]byte, shareLen))}
 
 	secrets := make([]*big.Int, len(tds.egs))
 	secrets[tds.pid] = tds.skShare
 
 	check := func(pid uint16, data []byte) error {
 		// TODO: check zkpok
+		if len(data) != shareLen {
+			return fmt.Errorf("received a share of %v bytes instead of %v", len(data), shareLen)
+		}
 		secrets[pid] = new(big.Int).SetBytes(data)
 		return nil
 	}
@@ -82,7 +87,6 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		return nil, fmt.Errorf("Reveal: received %v shares, but the threshold is %v", len(args), tds.t)
 	}
 
-	order := tds.egf.Curve().Order()
 	sum := big.NewInt(0)
 	for _, arg := range args {
 		coef := lagrangeCoef(arg, args, order)
diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 1d6b831..9ed5161 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -101,24 +101,30 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 	ps := p.presig[0]
 	p.presig = p.presig[1:]
 
+	// A signing attempt takes three rounds. A party that fails sits out the rest of them,
+	// because otherwise the others would meet its next attempt in the middle of this one.
 	kKey, err := ps.k.Exp()
 	if err != nil {
+		p.sitOut(2)
 		return nil, err
 	}
 
 	w := &bytes.Buffer{}
 	if err := p.group.Encode(kKey.PublicKey(), w); err != nil {
+		p.sitOut(2)
 		return nil, err
 	}
 	r := crypto.HashToBigInt(w.Bytes())
 	tau, err := ps.tau.Reveal()
 	if err != nil {
+		p.sitOut(1)
 		return nil, err
 	}
 
 	order := p.group.Order()
 	tauInv := new(big.Int).ModInverse(tau, order)
 	if tauInv == nil {
+		p.sitOut(1)
 		return nil, fmt.Errorf("The presignature can not be used, because its masking value is zero")
 	}
 	alpha, beta := new(big.Int).Mul(message, tauInv), new(big.Int).Mul(r, tauInv)
@@ -133,3 +139,10 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 
 	return &Signature{r, s}, nil
 }
+
+// sitOut takes part in the given number of rounds without contributing anything
+func (p *Protocol) sitOut(rounds int) {
+	for ; rounds > 0; rounds-- {
+		p.network.Round([][]byte{{}}, func(uint16, []byte) error { return nil })
+	}
+}
-- 
2.43.0


From e77676c12eddd15137416d92f069c8fec518be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 30/36] fix: reduce the randomness sent along with an
 evaluation

An unreduced sum told its recipient about the randomness of the dealer's commitments.
---
 pkg/arith/reshare.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 227c5dd..de0c7e4 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -272,6 +272,8 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		// Randomizing element effectively used in the commitment is mult of the initial one and rerandomizing one
 		effectiveRandEval[pid] = big.NewInt(0)
 		effectiveRandEval[pid].Add(randEvalRefresh[pid], egEvalRands[pid])
+		// Unreduced, it would tell the recipient about the randomness of the commitments
+		effectiveRandEval[pid].Mod(effectiveRandEval[pid], order)
 
 		evalRefreshComm[pid] = ads.egf.Neutral()
 		evalRefreshComm[pid].Compose(egEval[pid], ads.egf.Create(big.NewInt(0), randEvalRefresh[pid]))
-- 
2.43.0


From 44db6216159395f88565bf08b4419f07d15fe0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 31/36] fix: mask replies in the multiplication far beyond the
 product they hide

A peer, who knows its own factor, could read ours off a*b - t with t below the order.
---
 pkg/arith/mult.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 384d415..a3cb1cf 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -180,7 +180,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			return err
 		}
 
-		myShares[id], err = rand.Int(randReader, Q)
+		// the product of shares is hidden as an integer, so the mask has to be much larger than it
+		myShares[id], err = rand.Int(randReader, new(big.Int).Rsh(pubs[id].N, 1))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 23569d80e6fab1eb327af62140243e103296dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 32/36] fix: the key of a thresholded secret knows its secret

Asking it for its label crashed.
---
 pkg/arith/distributed_secret.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index b5cb3b7..18ecd8a 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -104,6 +104,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	pid := tds.pid
 	tdk := &TDKey{}
 	tdk.secret = tds
+	tdk.DKey.secret = &tds.DSecret
 	tdk.pkShares = make([]curve.Point, len(tds.egs))
 	tdk.pkShares[pid] = group.ScalarBaseMult(tds.skShare)
 
-- 
2.43.0


From 939bf402e0f18766c9b03b53a64e2b5a6d100168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 33/36] fix: a linear combination has the larger of the
 thresholds of its operands

With the threshold of the first one it was revealed from too few shares, to a wrong value.
---
 pkg/arith/distributed_secret.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 18ecd8a..88974f4 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -241,7 +241,11 @@ func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
+	// revealing the combination needs as many parties as revealing each of the secrets
 	tds.t = a.t
+	if b.t > tds.t {
+		tds.t = b.t
+	}
 
 	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
 	tmp := new(big.Int).Mul(beta, b.skShare)
-- 
2.43.0


From abf124c975eb308030b2721e1c79f40e844b6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:38 +0000
Subject: [PATCH 34/36] fix: a node that can not open its log file ended
 without reporting any error

---
 cmd/tecdsa/main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index dc11751..41b0120 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -223,9 +223,14 @@ func bench(w io.Writer, name string, totalTime *int64, job func()) {
 
 func main() {
 	// temporary trick to capture stdout and stderr on remote instances
-	logFile, _ := os.OpenFile("aleph.log", os.O_WRONLY|os.O_CREATE|os.O_SYNC|os.O_APPEND, 0644)
-	syscall.Dup2(int(logFile.Fd()), 1)
-	syscall.Dup2(int(logFile.Fd()), 2)
+	logFile, err := os.OpenFile("aleph.log", os.O_WRONLY|os.O_CREATE|os.O_SYNC|os.O_APPEND, 0644)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Could not open the log file: %v.\n", err)
+		logFile = os.Stderr
+	} else {
+		syscall.Dup2(int(logFile.Fd()), 1)
+		syscall.Dup2(int(logFile.Fd()), 2)
+	}
 	go func() {
 		out, _ := os.Create("out")
 		defer out.Close()
-- 
2.43.0


From d006cd636e5abc170540f20a4c6c3ee97479cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:59 +0000
Subject: [PATCH 35/36] fix: the key generator ended without reporting that it
 could not generate a key

---
 cmd/gen_keys/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 1aae018..53c7947 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -93,6 +93,7 @@ func main() {
 	for i := 0; i < nProc; i++ {
 		processes[i], err = makeProcess(addresses[i])
 		if err != nil {
+			fmt.Fprintf(os.Stderr, "Cannot generate the keys of process %d: %v\n", i, err)
 			return
 		}
 	}
-- 
2.43.0


From c71fa4fe17864448cee0ee8160e5dd6bcf6f2b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:59 +0000
Subject: [PATCH 36/36] fix: the key generator kept every file open, which
 bounded the size of a committee

---
 cmd/gen_keys/main.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index 53c7947..1165584 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -105,12 +105,6 @@ func main() {
 			fmt.Fprintln(os.Stderr, err)
 			return
 		}
-		defer f.Close()
-		if err != nil {
-			fmt.Fprintln(os.Stderr, err)
-			return
-		}
-
 		if _, err = f.WriteString(encodePaillierPrivateKey(p.privateKey)); err != nil {
 			fmt.Fprintln(os.Stderr, err)
 			return
@@ -127,6 +121,10 @@ func main() {
 			fmt.Fprintln(os.Stderr, err)
 			return
 		}
+		if err = f.Close(); err != nil {
+			fmt.Fprintln(os.Stderr, err)
+			return
+		}
 	}
 
 	f, err := os.Create("keys_addrs")
-- 
2.43.0

