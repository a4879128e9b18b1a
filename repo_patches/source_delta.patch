From 00e34070e10459f4d337c9f8d44a8646e78667e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 01/30] fix: curve: reduce scalars modulo the order without
 touching the caller's integer

Scalars in [order, 2^256) made ScalarMult and ScalarBaseMult return the
neutral element, and longer scalars were reduced in place.
---
 pkg/curve/secp256k1.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..c36ba86 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -69,19 +69,15 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
-	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
+	reduced := new(big.Int).Mod(scale, g.Order())
+	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, reduced.Bytes())
 	return sPoint{resultX, resultY}
 }
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
-	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
+	reduced := new(big.Int).Mod(scale, g.Order())
+	resultX, resultY := g.curve.ScalarBaseMult(reduced.Bytes())
 	return sPoint{resultX, resultY}
 }
 
-- 
2.43.0


From 8bc82ba140e4555548ccbdf50e9900c426aee845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 02/30] fix: curve: multiplying or negating the neutral element
 yields the neutral element

The nil coordinates of the neutral element were passed on to the curve
library, which crashed.
---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index c36ba86..a14ed6d 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -69,6 +69,9 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
+	if as := a.(sPoint); as.x == nil && as.y == nil {
+		return g.Neutral()
+	}
 	reduced := new(big.Int).Mod(scale, g.Order())
 	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, reduced.Bytes())
 	return sPoint{resultX, resultY}
-- 
2.43.0


From fcd36b928b037f211a881b5e19262cb0f899a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 03/30] fix: curve: the sum of mutually inverse points is the
 neutral element

The curve library returns (0,0), which is not a point, for such operands.
---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index a14ed6d..31bd4c2 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -52,6 +52,9 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		// a and b are mutually inverse
+		return g.Neutral()
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From 60f808b943ce0e4368df8dd6d53e8cbe5c3cc46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 04/30] fix: curve: decode the neutral element from the four
 bytes it is encoded to

Decode always read eight bytes, so an encoded neutral element could not be
decoded, or swallowed the beginning of whatever followed it.
---
 pkg/curve/secp256k1.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 31bd4c2..ac2852e 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -126,12 +126,12 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	n, err := r.Read(lenBytes[:4])
 	if err != nil {
 		return nil, err
 	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
+	if n < 4 {
+		return nil, fmt.Errorf("Too few bytes for lenX: expected 4, got %d", n)
 	}
 
 	lenX := binary.BigEndian.Uint32(lenBytes[:4])
@@ -139,6 +139,14 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 		return sPoint{nil, nil}, nil
 	}
 
+	n, err = r.Read(lenBytes[4:])
+	if err != nil {
+		return nil, err
+	}
+	if n < 4 {
+		return nil, fmt.Errorf("Too few bytes for lenY: expected 4, got %d", n)
+	}
+
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
 	xyBytes := make([]byte, lenX+lenY)
 	n, err = r.Read(xyBytes)
-- 
2.43.0


From e49b236d5b2c5cf92553e0ffcd4458b35c8fd5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 05/30] fix: curve: decode points from readers that deliver the
 data in pieces

A single Read may return less than the whole point.
---
 pkg/curve/secp256k1.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index ac2852e..6b98992 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -126,12 +126,8 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes[:4])
-	if err != nil {
-		return nil, err
-	}
-	if n < 4 {
-		return nil, fmt.Errorf("Too few bytes for lenX: expected 4, got %d", n)
+	if _, err := io.ReadFull(r, lenBytes[:4]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenX: %w", err)
 	}
 
 	lenX := binary.BigEndian.Uint32(lenBytes[:4])
@@ -139,22 +135,14 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 		return sPoint{nil, nil}, nil
 	}
 
-	n, err = r.Read(lenBytes[4:])
-	if err != nil {
-		return nil, err
-	}
-	if n < 4 {
-		return nil, fmt.Errorf("Too few bytes for lenY: expected 4, got %d", n)
+	if _, err := io.ReadFull(r, lenBytes[4:]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenY: %w", err)
 	}
 
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
 	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
-	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	if _, err := io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Too few bytes for x and y: expected %d: %w", lenX+lenY, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
-- 
2.43.0


From 2dc67c0f577cc424192dd3ff815030c7d75ccffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 06/30] fix: curve: reject announced lengths and coordinates
 that are not those of a point

Decode allocated up to 4 GB, crashed when the sum of the announced lengths
overflowed, and accepted coordinates that are not on the curve.
---
 pkg/curve/secp256k1.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 6b98992..d120c09 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -140,12 +140,19 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 	}
 
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
+	coordLen := uint32(g.curve.BitSize+7) / 8
+	if lenX > coordLen || lenY > coordLen {
+		return nil, fmt.Errorf("Coordinates too long: at most %d bytes expected, got %d and %d", coordLen, lenX, lenY)
+	}
 	xyBytes := make([]byte, lenX+lenY)
 	if _, err := io.ReadFull(r, xyBytes); err != nil {
 		return nil, fmt.Errorf("Too few bytes for x and y: expected %d: %w", lenX+lenY, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("The decoded coordinates are not a point on the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From ad6a953ff99dd336eca3e3bbefc51919c630c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 07/30] fix: zkpok: decode proofs from chunked readers, bound
 the announced lengths and report a bad first message

---
 pkg/crypto/zkpok/zkpok.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..cbdd89b 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -13,6 +13,9 @@ import (
 	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
 )
 
+// maxResponseLen is the length in bytes of the longest response, an integer reduced modulo the order of the group
+const maxResponseLen = 32
+
 //ZKproof represents a zero-knowledge proof that may be verified
 type ZKproof interface {
 	Verify() bool
@@ -96,7 +99,7 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	n, err := io.ReadFull(r, lenBytes)
 	if err != nil {
 		return err
 	}
@@ -106,9 +109,12 @@ func (z *ZKEGKnow) Decode(r io.Reader) error {
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > maxResponseLen || z2Len > maxResponseLen {
+		return fmt.Errorf("Responses too long: %d and %d bytes, expected at most %d", z1Len, z2Len, maxResponseLen)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
+	n, err = io.ReadFull(r, allBytes)
 	if err != nil {
 		return err
 	}
@@ -119,7 +125,9 @@ func (z *ZKEGKnow) Decode(r io.Reader) error {
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
+	if err := z.xy.Decode(r); err != nil {
+		return err
+	}
 
 	return nil
 }
@@ -281,7 +289,7 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
+	n, err := io.ReadFull(r, lenBytes)
 	if err != nil {
 		return err
 	}
@@ -291,9 +299,12 @@ func (z *ZKEGRefresh) Decode(r io.Reader) error {
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > maxResponseLen || z2Len > maxResponseLen {
+		return fmt.Errorf("Responses too long: %d and %d bytes, expected at most %d", z1Len, z2Len, maxResponseLen)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
+	n, err = io.ReadFull(r, allBytes)
 	if err != nil {
 		return err
 	}
@@ -303,7 +314,9 @@ func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
+	if err := z.xy.Decode(r); err != nil {
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0


From 41cd6c01992a0a119c1d6b8e5ef8ad8cf8b9fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 08/30] fix: crypto: hash to integers modulo the order of the
 curve

---
 pkg/crypto/hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/hash.go b/pkg/crypto/hash.go
index c70ba74..0066476 100644
--- a/pkg/crypto/hash.go
+++ b/pkg/crypto/hash.go
@@ -7,8 +7,8 @@ import (
 	"golang.org/x/crypto/hkdf"
 )
 
-// Q TODO: placeholder, should be replaced with order of the curve
-var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+// Q is the order of the curve
+var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 
 //HashToBigInt takes []byte and returns its hash as a big.Int
 func HashToBigInt(msg []byte) *big.Int {
-- 
2.43.0


From 0dac5691fe0719d81afe58bb13d87f7ae0a05335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 09/30] fix: zkpok: bind the challenge to the first message of
 the prover

---
 pkg/crypto/zkpok/zkpok.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index cbdd89b..baa1ccc 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -34,12 +34,16 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	order := fct.Curve().Order()
 	sigma, _ := rand.Int(rand.Reader, order)
 	rho, _ := rand.Int(rand.Reader, order)
+	xy := fct.Create(rho, sigma)
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
 	if err := comm.Encode(buf); err != nil {
 		return nil, err
 	}
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
@@ -47,7 +51,6 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -65,6 +68,9 @@ func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGam
 	if err := comm.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
@@ -216,6 +222,8 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	g := fct.Curve()
 	sigma, _ := rand.Int(rand.Reader, g.Order())
 	tau, _ := rand.Int(rand.Reader, g.Order())
+	xy := fct.Neutral()
+	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -225,6 +233,9 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err := c2.Encode(buf); err != nil {
 		return nil, err
 	}
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
@@ -233,8 +244,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
@@ -252,6 +261,9 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	if err := c2.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	d := fct.Neutral()
-- 
2.43.0


From 5faddf84229fb0091913c4bc6b9c6099848013e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 10/30] fix: zkpok: refresh proofs show that the quotient is a
 commitment to zero

---
 pkg/crypto/zkpok/zkpok.go | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index baa1ccc..a080e00 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -213,7 +213,6 @@ func (z *ZKEGReveal) Decode(r io.Reader) error { return nil }
 //ZKEGRefresh implements proof that a comitment c2 is a proper refreshment of commitment c2
 type ZKEGRefresh struct {
 	z1 *big.Int
-	z2 *big.Int
 	xy *commitment.ElGamal
 }
 
@@ -221,9 +220,7 @@ type ZKEGRefresh struct {
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
 	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	xy := fct.Create(big.NewInt(0), sigma)
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -239,15 +236,11 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
-	var z2 big.Int
 	z1.Add(sigma, z1.Mul(e, r))
-	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
-	z2.Mod(&z2, fct.Curve().Order())
 
 	return &ZKEGRefresh{
 		z1: &z1,
-		z2: &z2,
 		xy: xy,
 	}, nil
 }
@@ -268,7 +261,7 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
-	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, z.z2))
+	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, e))
 	d.Compose(d, dtmp.Inverse(dtmp.Exp(c2, e)))
 
 	if !c1.Equal(d, z.xy) {
@@ -280,13 +273,10 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 //Encode encodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Encode(w io.Writer) error {
 	z1Bytes := z.z1.Bytes()
-	z2Bytes := z.z2.Bytes()
-	buf := make([]byte, 8, 8+len(z1Bytes)+len(z2Bytes))
+	buf := make([]byte, 4, 4+len(z1Bytes))
 	binary.BigEndian.PutUint32(buf[0:4], uint32(len(z1Bytes)))
-	binary.BigEndian.PutUint32(buf[4:8], uint32(len(z2Bytes)))
 
 	buf = append(buf, z1Bytes...)
-	buf = append(buf, z2Bytes...)
 
 	if _, err := w.Write(buf); err != nil {
 		return err
@@ -300,31 +290,29 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
-	lenBytes := make([]byte, 8)
+	lenBytes := make([]byte, 4)
 	n, err := io.ReadFull(r, lenBytes)
 	if err != nil {
 		return err
 	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if n < 4 {
+		return fmt.Errorf("Too few bytes: expected 4, got %d", n)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
-	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
-	if z1Len > maxResponseLen || z2Len > maxResponseLen {
-		return fmt.Errorf("Responses too long: %d and %d bytes, expected at most %d", z1Len, z2Len, maxResponseLen)
+	if z1Len > maxResponseLen {
+		return fmt.Errorf("Response too long: %d bytes, expected at most %d", z1Len, maxResponseLen)
 	}
-	allBytes := make([]byte, z1Len+z2Len)
+	allBytes := make([]byte, z1Len)
 
 	n, err = io.ReadFull(r, allBytes)
 	if err != nil {
 		return err
 	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	if uint32(n) < z1Len {
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len, n)
 	}
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
-	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
 	if err := z.xy.Decode(r); err != nil {
 		return err
-- 
2.43.0


From 408f10e8d620d1b36fbc79dd756b252bbe08de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 11/30] fix: name the missing parties when receiving fails

---
 pkg/sync/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..867be3f 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -149,7 +149,7 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 
 	data, missing, err := s.receiveFromAll(endRound)
 	if err != nil {
-		return wrap(err)
+		return newRoundError(err.Error(), missing)
 	}
 
 	if len(missing) > 0 {
-- 
2.43.0


From c626af95514c72946ae4ac68cda02e3d4d96038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 12/30] fix: wait for the sends of a round before it returns

---
 pkg/sync/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 867be3f..df3fe80 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -148,6 +148,8 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	}()
 
 	data, missing, err := s.receiveFromAll(endRound)
+	// the senders use the state of the round, so it can't end before they do
+	wg.Wait()
 	if err != nil {
 		return newRoundError(err.Error(), missing)
 	}
@@ -156,8 +158,6 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 		return newRoundError("Missing data from some parties", missing)
 	}
 
-	wg.Wait()
-
 	if errSend != nil {
 		return wrap(errSend)
 	}
-- 
2.43.0


From 658004fd8212747b233c22eac3be81ca06255848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 13/30] fix: read whole frames and bound the memory they take

---
 pkg/sync/server.go | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index df3fe80..2295a62 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -2,9 +2,11 @@
 package sync
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
-
+	"io"
+	"math"
 	"os"
 	"strings"
 	"sync"
@@ -275,30 +277,26 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
-			l := int(binary.LittleEndian.Uint64(dataLen))
-			buf := make([]byte, l)
-			nRead := 0
-			for {
-				n, err := s.inDataConn[pid].Read(buf[nRead:])
-				if err != nil {
-					errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
-					return
-				}
-				nRead += n
-				if nRead == l {
-					break
-				}
-
-			}
-
-			if len(buf) < 10 {
+			l := binary.LittleEndian.Uint64(dataLen)
+			if l < 10 {
 				errors[pid] = fmt.Errorf("rid:%v: received too short data from %v", s.roundID, pid)
 				return
 			}
+			if l > math.MaxInt64 {
+				errors[pid] = fmt.Errorf("rid:%v: received too long data from %v", s.roundID, pid)
+				return
+			}
+			// the announced length is not trusted, memory is taken as data arrives
+			var frame bytes.Buffer
+			if _, err := io.CopyN(&frame, s.inDataConn[pid], int64(l)); err != nil {
+				errors[pid] = fmt.Errorf("receiveFromAll buf err: %v", err)
+				return
+			}
+			buf := frame.Bytes()
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
 				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
-- 
2.43.0


From f568fd497eb4c14dec3800dd189fa8ca703549db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 14/30] fix: report a wrong sender as an error of the round

---
 pkg/sync/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 2295a62..6ff50bb 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -299,7 +299,8 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			buf := frame.Bytes()
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From 71077f88c4e356d398e1656cb43369acabf896e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 15/30] fix: refuse connections with an invalid introduction
 instead of crashing

---
 pkg/sync/server.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 6ff50bb..b139b7c 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -31,6 +31,7 @@ type server struct {
 	inDataConn, outDataConn []network.Connection
 	prevRoundEnd            time.Time
 	startWG                 sync.WaitGroup
+	acceptMx                sync.Mutex
 }
 
 // NewServer construcs a SyncServer object
@@ -64,17 +65,11 @@ func (s *server) Start() {
 						continue
 					}
 
-					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
-					if err != nil {
-						panic(err.Error())
-					}
-
-					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					if err = s.accept(conn); err != nil {
+						fmt.Fprintf(os.Stderr, "refused a connection (my pid:%v): %v\n", s.pid, err)
+						conn.Close()
+						continue
 					}
-					s.inDataConn[pid] = conn
 					return
 				}
 			}()
@@ -109,6 +104,26 @@ func (s *server) Start() {
 	}()
 }
 
+// accept registers an incoming connection after its introduction
+func (s *server) accept(conn network.Connection) error {
+	buf := make([]byte, 2)
+	if _, err := io.ReadFull(conn, buf); err != nil {
+		return err
+	}
+
+	pid := binary.LittleEndian.Uint16(buf)
+	if pid >= s.nProc || pid == s.pid {
+		return fmt.Errorf("unexpected party %d", pid)
+	}
+	s.acceptMx.Lock()
+	defer s.acceptMx.Unlock()
+	if s.inDataConn[pid] != nil {
+		return fmt.Errorf("connection with %d already established", pid)
+	}
+	s.inDataConn[pid] = conn
+	return nil
+}
+
 func (s *server) Stop() {
 	s.startWG.Wait()
 	for pid := uint16(0); pid < s.nProc; pid++ {
-- 
2.43.0


From 98c03e13ded25281de172e430ce46f2ef94f7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 16/30] fix: arith: draw scalars from the order of the curve,
 not from its base field

---
 pkg/arith/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..465f61d 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -8,6 +8,6 @@ import (
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the curve
+	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 )
-- 
2.43.0


From f06b4248d45676c1981ce608fd9bf248cb003066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 17/30] fix: arith: linear combinations keep the party, the
 randomness and reduced shares

---
 pkg/arith/distributed_secret.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..ecb2b9a 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -217,14 +217,19 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
 	tds.t = a.t
 
-	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
-	tmp := new(big.Int).Mul(beta, b.skShare)
-	tds.skShare.Add(tds.skShare, tmp)
+	lin := func(aVal, bVal *big.Int) *big.Int {
+		result := new(big.Int).Mul(alpha, aVal)
+		result.Add(result, new(big.Int).Mul(beta, bVal))
+		return result.Mod(result, tds.egf.Curve().Order())
+	}
+	tds.skShare = lin(a.skShare, b.skShare)
+	tds.r = lin(a.r, b.r)
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
-- 
2.43.0


From 369ad6513b777c159895b4d375b833b0503faf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 18/30] fix: sync: deliver the data of the present parties when
 others are missing

---
 pkg/sync/server.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index b139b7c..9229f1a 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -167,33 +167,43 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 	data, missing, err := s.receiveFromAll(endRound)
 	// the senders use the state of the round, so it can't end before they do
 	wg.Wait()
-	if err != nil {
-		return newRoundError(err.Error(), missing)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
-
-	if errSend != nil {
+	if err == nil && errSend != nil {
 		return wrap(errSend)
 	}
 
+	// the data of the other parties is delivered even when some parties are missing
+	isMissing := make([]bool, s.nProc)
+	for _, pid := range missing {
+		isMissing[pid] = true
+	}
 	errors := []error{}
 	wrong := []uint16{}
+	failed := []uint16{}
 	for pid := uint16(0); pid < s.nProc; pid++ {
 		if pid == s.pid {
 			continue
 		}
-		err = check(pid, data[pid])
-		if err != nil {
+		if isMissing[pid] {
+			failed = append(failed, pid)
+			continue
+		}
+		if err := check(pid, data[pid]); err != nil {
 			errors = append(errors, err)
 			wrong = append(wrong, pid)
+			failed = append(failed, pid)
 		}
 	}
 
 	if len(wrong) > 0 {
-		return newRoundError(fmt.Errorf("rid:%v: Data sent by the parties %v is wrong with errors %v", s.roundID, wrong, errors).Error(), wrong)
+		errWrong := fmt.Errorf("rid:%v: Data sent by the parties %v is wrong with errors %v", s.roundID, wrong, errors)
+		if err == nil {
+			err = errWrong
+		} else {
+			err = fmt.Errorf("%v; %v", err, errWrong)
+		}
+	}
+	if err != nil {
+		return newRoundError(err.Error(), failed)
 	}
 
 	// TODO: better timeout handling
@@ -348,7 +358,7 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 	}
 
 	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
+		return data, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
 	}
 
 	return data, nil, nil
-- 
2.43.0


From b44284e730846ad4befe3433d77fdae430ee9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 19/30] fix: arith: reveal interpolates the shares of a
 threshold of parties

---
 pkg/arith/distributed_secret.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index ecb2b9a..af177eb 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -64,21 +64,31 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		return nil
 	}
 
-	nProc := len(tds.egs)
-	if err := tds.server.Round(toSend, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
-			return nil, err
+	roundErr := tds.server.Round(toSend, check)
+	if _, ok := roundErr.(*sync.RoundError); roundErr != nil && !ok {
+		return nil, roundErr
+	}
+
+	// shares of any t parties determine the secret
+	args := []*big.Int{}
+	values := []*big.Int{}
+	for i, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			values = append(values, secret)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("not enough shares to reveal %v: got %v, need %v, round error: %v", tds.label, len(args), tds.t, roundErr)
+	}
 
+	order := tds.egf.Curve().Order()
 	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
-		}
+	for i, value := range values {
+		sum.Add(sum, new(big.Int).Mul(value, lagrangeCoef(args[i], args, order)))
 	}
 
-	return sum, nil
+	return sum.Mod(sum, order), nil
 }
 
 // Exp computes a common public key and its share related to this secret
-- 
2.43.0


From e1c7022c3f1920faebb09c6faa1528f9d6fbd228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 20/30] fix: arith: exponentiation uses the shares of any
 threshold of parties and reports when there are fewer

---
 pkg/arith/distributed_secret.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index af177eb..eae81d4 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -98,6 +98,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	pid := tds.pid
 	tdk := &TDKey{}
 	tdk.secret = tds
+	tdk.DKey.secret = &tds.DSecret
 	tdk.pkShares = make([]curve.Point, len(tds.egs))
 	tdk.pkShares[pid] = group.ScalarBaseMult(tds.skShare)
 
@@ -119,29 +120,25 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	}
 
 	nProc := len(tds.egs)
-	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
-			return nil, err
-		}
+	roundErr := tds.server.Round([][]byte{toSendBuf.Bytes()}, check)
+	if _, ok := roundErr.(*sync.RoundError); roundErr != nil && !ok {
+		return nil, roundErr
 	}
 
 	var wg stdsync.WaitGroup
 	channel := make(chan curve.Point, nProc)
-	counter := tds.t
 
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := []*big.Int{}
+	values := []curve.Point{}
 	for i, value := range tdk.pkShares {
-		if value == nil {
-			continue
-		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
-		counter = counter - 1
-		if counter == 0 {
-			break
+		if value != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
+			values = append(values, value)
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("not enough shares to exponentiate %v: got %v, need %v, round error: %v", tds.label, len(args), tds.t, roundErr)
+	}
 
 	for i, arg := range args {
 		wg.Add(1)
-- 
2.43.0


From 86d35cad06d5f1675711564ab8d2e143d1fca924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 21/30] fix: arith: refuse a share of a wrong announced length
 instead of crashing

---
 pkg/arith/reshare.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..beb1fa2 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -339,7 +339,10 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		if len(data) < 4 {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
-		l := binary.LittleEndian.Uint32(data[:4])
+		l := uint64(binary.LittleEndian.Uint32(data[:4]))
+		if l > uint64(len(data)-4) {
+			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From 83b377d8cd78554498532fb479db001678aa689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 22/30] fix: arith: resharing returns the new share with its
 commitment and leaves the shared secret unchanged

---
 pkg/arith/reshare.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index beb1fa2..234f3d1 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -431,10 +431,14 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	shareRand.Add(shareRand, shareRandRefresh)
+	shareRand.Mod(shareRand, order)
+	shareComms[ads.pid] = shareCommRefresh
+
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From 64f8eb82bb958b75a1727c9b62723ad5972e6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 23/30] fix: arith: read whole commitments and bound the memory
 they take

---
 pkg/arith/distributed_key.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/pkg/arith/distributed_key.go b/pkg/arith/distributed_key.go
index 92f11fa..8abbc4a 100644
--- a/pkg/arith/distributed_key.go
+++ b/pkg/arith/distributed_key.go
@@ -77,36 +77,26 @@ func (nmc *NMCtmp) encode(w io.Writer) error {
 
 func (nmc *NMCtmp) decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("nmc wrong number of bytes in decode")
+	if _, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("nmc wrong number of bytes in decode: %v", err)
 	}
 
-	lenData := int(binary.LittleEndian.Uint32(lenBytes[:4]))
-	nmc.dataBytes = make([]byte, lenData)
-	n, err = r.Read(nmc.dataBytes)
-	if err != nil {
-		return err
-	}
-	if n < lenData {
-		return fmt.Errorf("nmc wrong number of dataBytes in decode")
+	// the announced lengths are not trusted, memory is taken as data arrives
+	read := func(l uint32) ([]byte, error) {
+		var buf bytes.Buffer
+		_, err := io.CopyN(&buf, r, int64(l))
+		return buf.Bytes(), err
 	}
 
-	lenZkp := int(binary.LittleEndian.Uint32(lenBytes[4:8]))
-	nmc.zkpBytes = make([]byte, lenZkp)
-	n, err = r.Read(nmc.zkpBytes)
-	if err != nil {
-		return err
+	var err error
+	if nmc.dataBytes, err = read(binary.LittleEndian.Uint32(lenBytes[:4])); err != nil {
+		return fmt.Errorf("nmc wrong number of dataBytes in decode: %v", err)
 	}
-	if n < lenZkp {
-		return fmt.Errorf("nmc wrong number of zkpBytes in decode")
+	if nmc.zkpBytes, err = read(binary.LittleEndian.Uint32(lenBytes[4:8])); err != nil {
+		return fmt.Errorf("nmc wrong number of zkpBytes in decode: %v", err)
 	}
 
 	return nil
-
 }
 
 // Verify tests if ncm is a commitment to given args
-- 
2.43.0


From 8d22653401892ff29f8fb081ab0b391f4e3f1b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 24/30] fix: arith: the product secret knows its party and
 commitment factory

---
 pkg/arith/mult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..b44d9a1 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,8 +18,10 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
 	c.label = cLabel
 	c.server = a.server
+	c.egf = a.egf
 
 	// Step 1. Compute a product of commitments to b
 	pid := int(a.pid)
-- 
2.43.0


From dbd33b50013822beaff09e2a8929cf02cf0bfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 25/30] fix: arith: private multiplication sums the cross terms
 of the product

---
 pkg/arith/mult.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index b44d9a1..6072b12 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -183,8 +183,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
+	// Step 2. Second round of MtA. For id < pid send Enc(a'b-t) and wait for E(ab'-t), and
+	// for id > pid send Enc(ab'-t) and wait for Enc(a'b-t).
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
@@ -199,7 +199,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			return err
 		}
 
-		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
+		// congruent to -t and positive, so that the sum does not wrap around modulo N
+		negMyShare := new(big.Int).Sub(Q, myShares[id])
 		enc, err := pubs[id].Encrypt(negMyShare)
 		if err != nil {
 			return err
@@ -216,13 +217,13 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 
 	for id := range toSendBuf2 {
 		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
+			// Alice for a'
+			if err := genEncABmt(id, b); err != nil {
 				return nil, err
 			}
 		} else if id > pid {
-			// Alice for b
-			if err := genEncABmt(id, b); err != nil {
+			// Alice for b'
+			if err := genEncABmt(id, a); err != nil {
 				return nil, err
 			}
 		}
@@ -234,7 +235,6 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 			var err error
 			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
@@ -256,9 +256,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		share.Add(share, t)
 		share.Add(share, abmts[id])
 	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
-	}
+	share.Mod(share, Q)
 
 	return share, nil
 }
-- 
2.43.0


From 4313f470ed0e1539f132bb0bca78f7d64ed2aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 26/30] fix: gen_keys: write all components of the private key

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From f68997ebd77dfbb8bda0281198cc9ef04e693410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 27/30] fix: tecdsa: report malformed private key files instead
 of crashing or misreading them

---
 cmd/tecdsa/main.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..16e2529 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -36,34 +36,43 @@ type committee struct {
 	addresses  []string
 }
 
-func decodeBigInt(data []byte, name string) (*big.Int, error) {
-	lenX := binary.LittleEndian.Uint16(data[:2])
-	if len(data) < 2+int(lenX) {
-		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
+// decodeBigInt decodes an integer prefixed with its length and returns the data following it
+func decodeBigInt(data []byte, name string) (*big.Int, []byte, error) {
+	if len(data) < 2 {
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
 	}
-	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
+	lenX := int(binary.LittleEndian.Uint16(data[:2]))
+	data = data[2:]
+	if len(data) < lenX {
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data))
+	}
+	return new(big.Int).SetBytes(data[:lenX]), data[lenX:], nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
-	pk.PublicKey.N, err = decodeBigInt(data, "N")
+	pk.PublicKey.N, data, err = decodeBigInt(data, "N")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.PublicKey.N.Bytes()):]
 
-	pk.LambdaN, err = decodeBigInt(data, "LambdaN")
+	pk.LambdaN, data, err = decodeBigInt(data, "LambdaN")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.LambdaN.Bytes()):]
 
-	pk.PhiN, err = decodeBigInt(data, "PhiN")
+	pk.PhiN, data, err = decodeBigInt(data, "PhiN")
 	if err != nil {
 		return nil, err
 	}
+	if len(data) > 0 {
+		return nil, fmt.Errorf("wrong encoding, %d bytes after the key", len(data))
+	}
 
 	return pk, nil
 }
@@ -160,6 +169,9 @@ func getMember(filename string) (*member, error) {
 	if err != nil {
 		return nil, err
 	}
+	if m.pid < 0 {
+		return nil, fmt.Errorf("wrong pid: %d", m.pid)
+	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 109f47f6d022e85ed7390593ee9b66b0b11e2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 28/30] fix: tecdsa: divide by tau modulo the order and keep r

---
 pkg/tecdsa/tecdsa.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..d58e95e 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,15 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	// division is done in the field of scalars
+	order := p.group.Order()
+	tauInv := new(big.Int).ModInverse(tau, order)
+	if tauInv == nil {
+		return nil, fmt.Errorf("The presignature can't be used, tau is not invertible")
+	}
+	alpha, beta := new(big.Int).Mul(message, tauInv), new(big.Int).Mul(r, tauInv)
+	alpha.Mod(alpha, order)
+	beta.Mod(beta, order)
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From cf3db7f7652c40dc337796c2408cc10ce18c5ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 29/30] fix: tecdsa: base the commitments on the key generated
 for them

---
 pkg/tecdsa/tecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index d58e95e..8190c32 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -47,7 +47,7 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.egf = commitment.NewElGamalFactory(p.key.PublicKey())
+	p.egf = commitment.NewElGamalFactory(p.egKey.PublicKey())
 
 	return p, nil
 }
-- 
2.43.0


From 1c040181475a5e33188d5cb847c9ea38f1973a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 30/30] fix: arith: private multiplication covers both cross
 terms

---
 pkg/arith/mult.go | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 6072b12..9bdeee7 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -141,26 +141,18 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party MtA is run twice: we act as Bob for our a, and as Alice
+	// for our b, so that both ab' and a'b are shared.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) and wait for Enc(a').
 
 	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
 	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
+		if id != pid {
 			// Bob for a
 			toSendBuf1[id] = encA.Bytes()
 		}
@@ -168,11 +160,8 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
+		if id != uint16(pid) {
+			// Alice for a'
 			encShares[id] = new(big.Int).SetBytes(data)
 		}
 
@@ -183,8 +172,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(a'b-t) and wait for E(ab'-t), and
-	// for id > pid send Enc(ab'-t) and wait for Enc(a'b-t).
+	// Step 2. Second round of MtA. Send Enc(a'b-t) and wait for Enc(ab'-t').
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
@@ -216,16 +204,11 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
+		if id != pid {
 			// Alice for a'
 			if err := genEncABmt(id, b); err != nil {
 				return nil, err
 			}
-		} else if id > pid {
-			// Alice for b'
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
 		}
 	}
 
@@ -233,7 +216,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	check = func(id uint16, data []byte) error {
 		if id != uint16(pid) {
 			var err error
-			// Bob for b
+			// Bob for a
 			abmts[id] = new(big.Int).SetBytes(data)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
-- 
2.43.0

