From c4caec29d5593956efc25dcf2bc6b1374efbc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 01/30] fix: reduce scalars between the order and 2^256,
 without changing the caller's scalar

---
 pkg/curve/secp256k1.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index da77bfc..de64a60 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -69,18 +69,14 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
+	scale = new(big.Int).Mod(scale, g.Order())
 	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
 	return sPoint{resultX, resultY}
 }
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarBaseMult(scale *big.Int) Point {
-	if len(scale.Bytes()) > 32 {
-		scale.Mod(scale, g.Order())
-	}
+	scale = new(big.Int).Mod(scale, g.Order())
 	resultX, resultY := g.curve.ScalarBaseMult(scale.Bytes())
 	return sPoint{resultX, resultY}
 }
-- 
2.43.0


From 9ff24118e8ee8e9ed448a3fed2799237fcedd179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 02/30] fix: multiplying the neutral element panicked

---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index de64a60..5261cb4 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -69,6 +69,9 @@ func (g sGroup) Neg(a Point) Point {
 
 //scale has to be a nonnegative integer
 func (g sGroup) ScalarMult(a Point, scale *big.Int) Point {
+	if g.Equal(a, g.Neutral()) {
+		return g.Neutral()
+	}
 	scale = new(big.Int).Mod(scale, g.Order())
 	resultX, resultY := g.curve.ScalarMult(a.(sPoint).x, a.(sPoint).y, scale.Bytes())
 	return sPoint{resultX, resultY}
-- 
2.43.0


From 66c5990d895a49ec0776ed95735d05a52630e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 03/30] fix: the sum of opposite points is the neutral element

---
 pkg/curve/secp256k1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 5261cb4..650ec1d 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -52,6 +52,9 @@ func (g sGroup) Add(a Point, b Point) Point {
 		resultY = new(big.Int).Set(as.y)
 	} else if (as.x.Cmp(bs.x) == 0) && (as.y.Cmp(bs.y) == 0) {
 		resultX, resultY = g.curve.Double(as.x, as.y)
+	} else if as.x.Cmp(bs.x) == 0 {
+		// opposite points
+		return g.Neutral()
 	} else {
 		resultX, resultY = g.curve.Add(as.x, as.y, bs.x, bs.y)
 	}
-- 
2.43.0


From 90b789dc97f674fd00236a35c3a26b660d0d60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 04/30] fix: decode the neutral element as it is encoded, and
 read whole fields from fragmented streams

---
 pkg/curve/secp256k1.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 650ec1d..960ecca 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -126,12 +126,8 @@ func (g sGroup) Encode(a Point, w io.Writer) error {
 
 func (g sGroup) Decode(r io.Reader) (Point, error) {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return nil, err
-	}
-	if n < 8 {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected 8, got %d", n)
+	if n, err := io.ReadFull(r, lenBytes[:4]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenX: expected 4, got %d: %v", n, err)
 	}
 
 	lenX := binary.BigEndian.Uint32(lenBytes[:4])
@@ -139,14 +135,13 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 		return sPoint{nil, nil}, nil
 	}
 
+	if n, err := io.ReadFull(r, lenBytes[4:8]); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenY: expected 4, got %d: %v", n, err)
+	}
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
 	xyBytes := make([]byte, lenX+lenY)
-	n, err = r.Read(xyBytes)
-	if err != nil {
-		return nil, err
-	}
-	if uint32(n) < lenX+lenY {
-		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d", lenX+lenY, n)
+	if n, err := io.ReadFull(r, xyBytes); err != nil {
+		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d: %v", lenX+lenY, n, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
-- 
2.43.0


From aa8b964822846935fb3ef281e0e26233427469e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 05/30] fix: reject forged lengths and points outside the curve
 when decoding

---
 pkg/curve/secp256k1.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/curve/secp256k1.go b/pkg/curve/secp256k1.go
index 960ecca..8cf6b21 100644
--- a/pkg/curve/secp256k1.go
+++ b/pkg/curve/secp256k1.go
@@ -139,12 +139,18 @@ func (g sGroup) Decode(r io.Reader) (Point, error) {
 		return nil, fmt.Errorf("Too few bytes for lenY: expected 4, got %d: %v", n, err)
 	}
 	lenY := binary.BigEndian.Uint32(lenBytes[4:8])
+	if lenX > 32 || lenY > 32 {
+		return nil, fmt.Errorf("Coordinates too long: %d and %d", lenX, lenY)
+	}
 	xyBytes := make([]byte, lenX+lenY)
 	if n, err := io.ReadFull(r, xyBytes); err != nil {
 		return nil, fmt.Errorf("Too few bytes for lenX and lenY: expected %d, got %d: %v", lenX+lenY, n, err)
 	}
 	x := new(big.Int).SetBytes(xyBytes[:lenX])
 	y := new(big.Int).SetBytes(xyBytes[lenX:])
+	if x.Cmp(g.curve.P) >= 0 || y.Cmp(g.curve.P) >= 0 || !g.curve.IsOnCurve(x, y) {
+		return nil, fmt.Errorf("Decoded coordinates are not a point of the curve")
+	}
 
 	return sPoint{x, y}, nil
 }
-- 
2.43.0


From e66b7d528af6e0e95198b1c7dadb030aed52c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 06/30] fix: report a proof whose first message cannot be
 decoded

---
 pkg/crypto/zkpok/zkpok.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index f017369..04090e9 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -119,9 +119,7 @@ func (z *ZKEGKnow) Decode(r io.Reader) error {
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-
-	return nil
+	return z.xy.Decode(r)
 }
 
 //ZKEGRerand implements proof that a comitment c2 is a proper rerandomization of commitment c1
@@ -303,8 +301,7 @@ func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
 	z.xy = &commitment.ElGamal{}
-	z.xy.Decode(r)
-	return nil
+	return z.xy.Decode(r)
 }
 
 // ZKDLog implements proof of knowledge of discrete logarithm
-- 
2.43.0


From dae1c61b02871b38f160e129c2ad36969999102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 07/30] fix: reject forged lengths and read whole fields when
 decoding proofs

---
 pkg/crypto/zkpok/zkpok.go | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 04090e9..8a6e663 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -96,24 +96,19 @@ func (z *ZKEGKnow) Encode(w io.Writer) error {
 //Decode decodes ZKEGKnow proof
 func (z *ZKEGKnow) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if n, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Too few bytes: expected 8, got %d: %v", n, err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > 32 || z2Len > 32 {
+		return fmt.Errorf("Responses too long: %d and %d", z1Len, z2Len)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
-	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	if n, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len+z2Len, n, err)
 	}
 
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
@@ -279,24 +274,19 @@ func (z *ZKEGRefresh) Encode(w io.Writer) error {
 //Decode decodes ZKEGRefresh proof
 func (z *ZKEGRefresh) Decode(r io.Reader) error {
 	lenBytes := make([]byte, 8)
-	n, err := r.Read(lenBytes)
-	if err != nil {
-		return err
-	}
-	if n < 8 {
-		return fmt.Errorf("Too few bytes: expected 8, got %d", n)
+	if n, err := io.ReadFull(r, lenBytes); err != nil {
+		return fmt.Errorf("Too few bytes: expected 8, got %d: %v", n, err)
 	}
 
 	z1Len := binary.BigEndian.Uint32(lenBytes[:4])
 	z2Len := binary.BigEndian.Uint32(lenBytes[4:8])
+	if z1Len > 32 || z2Len > 32 {
+		return fmt.Errorf("Responses too long: %d and %d", z1Len, z2Len)
+	}
 	allBytes := make([]byte, z1Len+z2Len)
 
-	n, err = r.Read(allBytes)
-	if err != nil {
-		return err
-	}
-	if uint32(n) < z1Len+z2Len {
-		return fmt.Errorf("Too few bytes for payload: expected %d, got %d", z1Len+z2Len, n)
+	if n, err := io.ReadFull(r, allBytes); err != nil {
+		return fmt.Errorf("Too few bytes for payload: expected %d, got %d: %v", z1Len+z2Len, n, err)
 	}
 	z.z1 = new(big.Int).SetBytes(allBytes[:z1Len])
 	z.z2 = new(big.Int).SetBytes(allBytes[z1Len : z1Len+z2Len])
-- 
2.43.0


From 2928b94864a04ddfaf6364ef41a542e113aebb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 08/30] fix: reduce challenges modulo the group order instead
 of the field order

---
 pkg/crypto/hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/hash.go b/pkg/crypto/hash.go
index c70ba74..0066476 100644
--- a/pkg/crypto/hash.go
+++ b/pkg/crypto/hash.go
@@ -7,8 +7,8 @@ import (
 	"golang.org/x/crypto/hkdf"
 )
 
-// Q TODO: placeholder, should be replaced with order of the curve
-var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+// Q is the order of the curve
+var Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 
 //HashToBigInt takes []byte and returns its hash as a big.Int
 func HashToBigInt(msg []byte) *big.Int {
-- 
2.43.0


From 16c248244fa99d3ddad1599cf12b59d0f11324e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 09/30] fix: derive proof challenges from the first message
 too, proofs could be forged without a witness

---
 pkg/crypto/zkpok/zkpok.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index 8a6e663..b4bfe8b 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -37,6 +37,10 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	if err := comm.Encode(buf); err != nil {
 		return nil, err
 	}
+	xy := fct.Create(rho, sigma)
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	var z1, z2 big.Int
 
@@ -44,7 +48,6 @@ func NewZKEGKnow(fct *commitment.ElGamalFactory, comm *commitment.ElGamal, value
 	d = d.Compose(fct.Create(rho, sigma), d.Exp(comm, e))
 	z1.Add(sigma, z1.Mul(e, rnd))
 	z2.Add(rho, z2.Mul(e, value))
-	xy := fct.Create(rho, sigma)
 	z1.Mod(&z1, order)
 	z2.Mod(&z2, order)
 
@@ -62,6 +65,9 @@ func (z *ZKEGKnow) Verify(fct *commitment.ElGamalFactory, comm *commitment.ElGam
 	if err := comm.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 	d = d.Compose(z.xy, d.Exp(comm, e))
 
@@ -210,6 +216,11 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err := c2.Encode(buf); err != nil {
 		return nil, err
 	}
+	xy := fct.Neutral()
+	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	if err := xy.Encode(buf); err != nil {
+		return nil, err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	var z1 big.Int
@@ -218,8 +229,6 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	z2.Add(tau, e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
 
 	return &ZKEGRefresh{
 		z1: &z1,
@@ -237,6 +246,9 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	if err := c2.Encode(buf); err != nil {
 		return err
 	}
+	if err := z.xy.Encode(buf); err != nil {
+		return err
+	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
 	d := fct.Neutral()
-- 
2.43.0


From a7f354641c45d78314634d20d44929e6ef42f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 10/30] fix: a refresh proof accepted commitments to multiples
 of the value

---
 pkg/crypto/zkpok/zkpok.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/zkpok/zkpok.go b/pkg/crypto/zkpok/zkpok.go
index b4bfe8b..5a30343 100644
--- a/pkg/crypto/zkpok/zkpok.go
+++ b/pkg/crypto/zkpok/zkpok.go
@@ -206,7 +206,6 @@ type ZKEGRefresh struct {
 func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal, r *big.Int) (*ZKEGRefresh, error) {
 	g := fct.Curve()
 	sigma, _ := rand.Int(rand.Reader, g.Order())
-	tau, _ := rand.Int(rand.Reader, g.Order())
 
 	//e is the randomly produced challenge, here hash by Fiat-Shamir heuristic
 	buf := &bytes.Buffer{}
@@ -216,8 +215,7 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	if err := c2.Encode(buf); err != nil {
 		return nil, err
 	}
-	xy := fct.Neutral()
-	xy.Compose(xy.Exp(c1, tau), fct.Create(big.NewInt(0), sigma))
+	xy := fct.Create(big.NewInt(0), sigma)
 	if err := xy.Encode(buf); err != nil {
 		return nil, err
 	}
@@ -226,7 +224,7 @@ func NewZKEGRefresh(fct *commitment.ElGamalFactory, c1, c2 *commitment.ElGamal,
 	var z1 big.Int
 	var z2 big.Int
 	z1.Add(sigma, z1.Mul(e, r))
-	z2.Add(tau, e)
+	z2.Set(e)
 	z1.Mod(&z1, fct.Curve().Order())
 	z2.Mod(&z2, fct.Curve().Order())
 
@@ -251,6 +249,11 @@ func (z *ZKEGRefresh) Verify(fct *commitment.ElGamalFactory, c1, c2 *commitment.
 	}
 	e := pkg.HashToBigInt(buf.Bytes())
 
+	// the exponent of c1 is 1 and nothing else, so there is nothing to mask in z2
+	if z.z2.Cmp(e) != 0 {
+		return fmt.Errorf("verification failed")
+	}
+
 	d := fct.Neutral()
 	dtmp := fct.Neutral()
 	d.Compose(fct.Create(big.NewInt(0), z.z1), d.Exp(c1, z.z2))
-- 
2.43.0


From a5e2be4c8bb93e0c59ad229c663df06f01bd65fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 11/30] fix: draw secrets and coefficients modulo the group
 order instead of the field order

---
 pkg/arith/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/config.go b/pkg/arith/config.go
index a9141da..465f61d 100644
--- a/pkg/arith/config.go
+++ b/pkg/arith/config.go
@@ -8,6 +8,6 @@ import (
 
 var (
 	randReader io.Reader = rand.Reader
-	// Q TODO: placeholder, should be replaced with order of the curve
-	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
+	// Q is the order of the curve
+	Q, _ = big.NewInt(0).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
 )
-- 
2.43.0


From 502831c0ed06426183b83649899a35ed8a3a9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 12/30] fix: resharing returned the old share, and randomness
 that does not open the new commitment

---
 pkg/arith/reshare.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index 709c2a8..eccfb4d 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -428,10 +428,14 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		return nil, err
 	}
 
+	shareComms[ads.pid] = shareCommRefresh
+	shareRand.Add(shareRand, shareRandRefresh)
+	shareRand.Mod(shareRand, order)
+
 	tds := &TDSecret{*ads, t}
-	ads.skShare = share
-	ads.r = shareRandRefresh
-	ads.egs = shareComms
+	tds.skShare = share
+	tds.r = shareRand
+	tds.egs = shareComms
 
 	return tds, nil
 }
-- 
2.43.0


From 2ba7fdd3bfdc525b8af72ac8549acb3ceb08b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 13/30] fix: a forged length in a resharing message caused a
 panic

---
 pkg/arith/reshare.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index eccfb4d..d11ccaa 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -340,6 +340,9 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
 		l := binary.LittleEndian.Uint32(data[:4])
+		if uint64(l) > uint64(len(data)-4) {
+			return fmt.Errorf("data for pid %v is too short %v for a payload of %v", pid, len(data), l)
+		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
 		recvRand[pid] = new(big.Int).SetBytes(data[4+l:])
 		if !allEvalRefreshComm[pid][ads.pid].Equal(ads.egf.Create(recvEvals[pid], recvRand[pid]), allEvalRefreshComm[pid][ads.pid]) {
-- 
2.43.0


From d1eb066e671978f01a809032daf917e2df7c2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 14/30] fix: a linear combination lost its owner and its
 commitment randomness

---
 pkg/arith/distributed_secret.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 3f31379..f249148 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -217,6 +217,7 @@ func Gen(label string, server sync.Server, egf *commitment.ElGamalFactory, pid,
 // Lin computes locally a linear combination of the secrets
 func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds := &TDSecret{}
+	tds.pid = a.pid
 	tds.label = cLabel
 	tds.server = a.server
 	tds.egf = a.egf
@@ -225,6 +226,7 @@ func Lin(alpha, beta *big.Int, a, b *TDSecret, cLabel string) *TDSecret {
 	tds.skShare = new(big.Int).Mul(alpha, a.skShare)
 	tmp := new(big.Int).Mul(beta, b.skShare)
 	tds.skShare.Add(tds.skShare, tmp)
+	tds.r = new(big.Int).Add(new(big.Int).Mul(alpha, a.r), new(big.Int).Mul(beta, b.r))
 
 	makeEGLin := func(aeg, beg *commitment.ElGamal) *commitment.ElGamal {
 		result := tds.egf.Neutral()
-- 
2.43.0


From c5897b29e216b7f76d1fff5dd3556a167f0bc771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 15/30] fix: failed rounds were ignored when revealing a secret
 or deriving its key

---
 pkg/arith/distributed_secret.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index f249148..9acd3cd 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -66,7 +66,7 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 
 	nProc := len(tds.egs)
 	if err := tds.server.Round(toSend, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+		if rErr, ok := err.(*sync.RoundError); !ok || rErr.Missing() == nil || nProc-len(rErr.Missing()) < int(tds.t) {
 			return nil, err
 		}
 	}
@@ -110,7 +110,7 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 
 	nProc := len(tds.egs)
 	if err := tds.server.Round([][]byte{toSendBuf.Bytes()}, check); err != nil {
-		if rErr, ok := err.(*sync.RoundError); ok && rErr.Missing() != nil && nProc-len(rErr.Missing()) < int(tds.t) {
+		if rErr, ok := err.(*sync.RoundError); !ok || rErr.Missing() == nil || nProc-len(rErr.Missing()) < int(tds.t) {
 			return nil, err
 		}
 	}
-- 
2.43.0


From bde24f7482bb2d316b2c6d083c2e7eb55f41e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 16/30] fix: deriving a key panicked when a party with a low
 number was absent

---
 pkg/arith/distributed_secret.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 9acd3cd..2ca1a0a 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -119,19 +119,22 @@ func (tds *TDSecret) Exp() (*TDKey, error) {
 	channel := make(chan curve.Point, nProc)
 	counter := tds.t
 
-	args := make([]*big.Int, tds.t)
-	values := make([]curve.Point, tds.t)
+	args := make([]*big.Int, 0, tds.t)
+	values := make([]curve.Point, 0, tds.t)
 	for i, value := range tdk.pkShares {
 		if value == nil {
 			continue
 		}
-		args[i] = big.NewInt(int64(i))
-		values[i] = value
+		args = append(args, big.NewInt(int64(i)))
+		values = append(values, value)
 		counter = counter - 1
 		if counter == 0 {
 			break
 		}
 	}
+	if counter > 0 {
+		return nil, fmt.Errorf("Exp needs %v shares, %v are missing", tds.t, counter)
+	}
 
 	for i, arg := range args {
 		wg.Add(1)
-- 
2.43.0


From 52bd2945503af909059cbcdc65d6232716da2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 17/30] fix: reveal a threshold secret by interpolation instead
 of adding all shares up

---
 pkg/arith/distributed_secret.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/arith/distributed_secret.go b/pkg/arith/distributed_secret.go
index 2ca1a0a..f5260f0 100644
--- a/pkg/arith/distributed_secret.go
+++ b/pkg/arith/distributed_secret.go
@@ -71,12 +71,23 @@ func (tds *TDSecret) Reveal() (*big.Int, error) {
 		}
 	}
 
-	sum := big.NewInt(0)
-	for _, secret := range secrets {
-		if secret != nil {
-			sum.Add(sum, secret)
+	args := make([]*big.Int, 0, tds.t)
+	for i, secret := range secrets {
+		if secret != nil && len(args) < int(tds.t) {
+			args = append(args, big.NewInt(int64(i)))
 		}
 	}
+	if len(args) < int(tds.t) {
+		return nil, fmt.Errorf("Reveal needs %v shares, got %v", tds.t, len(args))
+	}
+
+	order := tds.egf.Curve().Order()
+	sum := big.NewInt(0)
+	for _, arg := range args {
+		coef := lagrangeCoef(arg, args, order)
+		sum.Add(sum, coef.Mul(coef, secrets[arg.Int64()]))
+	}
+	sum.Mod(sum, order)
 
 	return sum, nil
 }
-- 
2.43.0


From 8c18820225dcc129d266ca519396c00d9f56fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 18/30] fix: a product of secrets lost its owner and its
 commitment base

---
 pkg/arith/mult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index f72db7e..7cd9562 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -18,6 +18,8 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 	nProc := len(a.egs)
 
 	c = &ADSecret{}
+	c.pid = a.pid
+	c.egf = a.egf
 	c.label = cLabel
 	c.server = a.server
 
-- 
2.43.0


From bc125e56116fd26d96bcd98a496d71c20883dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 19/30] fix: multiply a with b instead of a with a and b with
 b, and decrypt the ciphertexts that were sent

---
 pkg/arith/mult.go | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index 7cd9562..da1cf12 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -141,38 +141,25 @@ func Mult(a, b *ADSecret, cLabel string, priv *paillier.PrivateKey, pub *paillie
 
 // PrivMult computes the product ab
 func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.PrivateKey, pub *paillier.PublicKey, pubs []*paillier.PublicKey) (*big.Int, error) {
-	// For all parties with id < pid, we act as Alice in MtA for a and Act as Bob for b.
-	// For all parties with id > pid, we act as Bob in MtA for a and act as Alice for b.
+	// With every other party we run MtA twice: as Bob for our a and their b, and as Alice for
+	// their a and our b. The modulus of each paillier key has to exceed 2*Q^2.
 
-	// Step 1. First round of MtA. For id < pid wait for their Enc(a') and send Enc(b), and
-	// for id > pid send Enc(a) and wait for their Enc(b').
+	// Step 1. First round of MtA. Send Enc(a) to everyone and wait for their Enc(a').
 
 	toSendBuf1 := make([][]byte, nProc)
 	encA, err := pub.Encrypt(a)
 	if err != nil {
 		return nil, err
 	}
-	encB, err := pub.Encrypt(b)
-	if err != nil {
-		return nil, err
-	}
 	for id := range toSendBuf1 {
-		if id < pid {
-			// Bob for b
-			toSendBuf1[id] = encB.Bytes()
-		} else if id > pid {
-			// Bob for a
+		if id != pid {
 			toSendBuf1[id] = encA.Bytes()
 		}
 	}
 
 	encShares := make([]*big.Int, nProc)
 	check := func(id uint16, data []byte) error {
-		if id < uint16(pid) {
-			// Alice for a
-			encShares[id] = new(big.Int).SetBytes(data)
-		} else if id > uint16(pid) {
-			// Alice for b
+		if id != uint16(pid) {
 			encShares[id] = new(big.Int).SetBytes(data)
 		}
 
@@ -183,8 +170,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		return nil, err
 	}
 
-	// Step 2. Second round of MtA. For id < pid send Enc(aa'-t) and wait for E(bb'-t), and
-	// for id > pid wait for Enc(aa'-t) and send Enc(bb'-t).
+	// Step 2. Second round of MtA. Send Enc(a'b-t) to everyone and wait for their Enc(ab'-t').
 	myShares := make([]*big.Int, nProc) // collection of t_A
 	toSendBuf2 := make([][]byte, nProc)
 	genEncABmt := func(id int, share *big.Int) error {
@@ -215,13 +201,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	}
 
 	for id := range toSendBuf2 {
-		if id < pid {
-			// Alice for a
-			if err := genEncABmt(id, a); err != nil {
-				return nil, err
-			}
-		} else if id > pid {
-			// Alice for b
+		if id != pid {
 			if err := genEncABmt(id, b); err != nil {
 				return nil, err
 			}
@@ -232,12 +212,14 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 	check = func(id uint16, data []byte) error {
 		if id != uint16(pid) {
 			var err error
-			// Bob for b
 			abmts[id] = new(big.Int).SetBytes(data)
-			abmts[id].Sub(abmts[id], pub.N)
 			if abmts[id], err = priv.Decrypt(abmts[id]); err != nil {
 				return err
 			}
+			// ab'-t' may be negative
+			if new(big.Int).Lsh(abmts[id], 1).Cmp(pub.N) > 0 {
+				abmts[id].Sub(abmts[id], pub.N)
+			}
 		}
 
 		return nil
@@ -256,9 +238,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		share.Add(share, t)
 		share.Add(share, abmts[id])
 	}
-	if len(share.Bytes()) > 32 {
-		share.Mod(share, Q)
-	}
+	share.Mod(share, Q)
 
 	return share, nil
 }
-- 
2.43.0


From 5662c77680c0420f566e034cc2e9c1ecd3fa064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 20/30] fix: base commitments on the key generated for them,
 not on the signing key

---
 pkg/tecdsa/tecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 896a428..962791b 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -47,7 +47,7 @@ func Init(pid, nProc uint16, network sync.Server) (*Protocol, error) {
 	if err != nil {
 		return nil, err
 	}
-	p.egf = commitment.NewElGamalFactory(p.key.PublicKey())
+	p.egf = commitment.NewElGamalFactory(p.egKey.PublicKey())
 
 	return p, nil
 }
-- 
2.43.0


From 7a155de51ed898e95b367a3298b564b46c23810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 21/30] fix: report absent parties, and still check the
 messages that did arrive

---
 pkg/sync/server.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index e56d740..8f329d6 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -147,25 +147,20 @@ func (s *server) Round(toSend [][]byte, check func(uint16, []byte) error) error
 		errSend = s.sendToAll(toSend)
 	}()
 
-	data, missing, err := s.receiveFromAll(endRound)
+	errors := []error{}
+	data, wrong, err := s.receiveFromAll(endRound)
 	if err != nil {
-		return wrap(err)
-	}
-
-	if len(missing) > 0 {
-		return newRoundError("Missing data from some parties", missing)
-	}
-
-	wg.Wait()
+		errors = append(errors, err)
+	} else {
+		wg.Wait()
 
-	if errSend != nil {
-		return wrap(errSend)
+		if errSend != nil {
+			return wrap(errSend)
+		}
 	}
 
-	errors := []error{}
-	wrong := []uint16{}
 	for pid := uint16(0); pid < s.nProc; pid++ {
-		if pid == s.pid {
+		if pid == s.pid || data[pid] == nil {
 			continue
 		}
 		err = check(pid, data[pid])
@@ -334,7 +329,7 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 	}
 
 	if b.Len() > 0 {
-		return nil, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
+		return data, missing, fmt.Errorf("rid:%v: %v", s.roundID, b.String())
 	}
 
 	return data, nil, nil
-- 
2.43.0


From b56ade77decbe36a518623c168f216a1b2afd8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 22/30] fix: malformed message headers caused a panic

---
 pkg/sync/server.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 8f329d6..3d194ec 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -4,6 +4,7 @@ package sync
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	"os"
 	"strings"
@@ -13,6 +14,9 @@ import (
 	"gitlab.com/alephledger/core-go/pkg/network"
 )
 
+// maxDataLen bounds the length of a message
+const maxDataLen = 1 << 28
+
 // Server implements
 type Server interface {
 	Start()
@@ -270,10 +274,14 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			defer wg.Done()
 
 			dataLen := make([]byte, 8)
-			if n, err := s.inDataConn[pid].Read(dataLen); err != nil {
+			if n, err := io.ReadFull(s.inDataConn[pid], dataLen); err != nil {
 				errors[pid] = fmt.Errorf("receiveFromAll dataLen err: %v, %v", n, err)
 				return
 			}
+			if binary.LittleEndian.Uint64(dataLen) > maxDataLen {
+				errors[pid] = fmt.Errorf("rid:%v: received too long data from %v", s.roundID, pid)
+				return
+			}
 			l := int(binary.LittleEndian.Uint64(dataLen))
 			buf := make([]byte, l)
 			nRead := 0
@@ -296,7 +304,8 @@ func (s *server) receiveFromAll(endRound time.Time) ([][]byte, []uint16, error)
 			}
 			id := binary.LittleEndian.Uint16(buf[:2])
 			if id != pid {
-				panic(fmt.Sprintf("some party uses wrong outDataConn: Expected %v, got %v", pid, id))
+				errors[pid] = fmt.Errorf("some party uses wrong outDataConn: Expected %v, got %v", pid, id)
+				return
 			}
 			roundID := binary.LittleEndian.Uint64(buf[2:10])
 			if int64(roundID) != s.roundID {
-- 
2.43.0


From e1e3b943f1070c4c2378e5e925d576f986d31141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 23/30] fix: a malformed handshake caused a panic

---
 pkg/sync/server.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/sync/server.go b/pkg/sync/server.go
index 3d194ec..32c66d1 100644
--- a/pkg/sync/server.go
+++ b/pkg/sync/server.go
@@ -53,6 +53,7 @@ func NewServer(pid, nProc uint16, startTime time.Time, roundDuration time.Durati
 
 func (s *server) Start() {
 	s.startWG.Add(2*int(s.nProc) - 2)
+	var mx sync.Mutex
 	go func() {
 		for pid := range s.inDataConn {
 			if pid == int(s.pid) {
@@ -67,16 +68,21 @@ func (s *server) Start() {
 					}
 
 					buf := make([]byte, 2)
-					_, err = conn.Read(buf)
+					_, err = io.ReadFull(conn, buf)
 					if err != nil {
-						panic(err.Error())
+						conn.Close()
+						continue
 					}
 
 					pid := binary.LittleEndian.Uint16(buf)
-					if s.inDataConn[pid] != nil {
-						panic(fmt.Sprintf("Connection with %d already established (my pid:%v)!", pid, s.pid))
+					mx.Lock()
+					if pid >= s.nProc || pid == s.pid || s.inDataConn[pid] != nil {
+						mx.Unlock()
+						conn.Close()
+						continue
 					}
 					s.inDataConn[pid] = conn
+					mx.Unlock()
 					return
 				}
 			}()
-- 
2.43.0


From 4e5b7f3d05b252a810fa1133079078bfc727b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 24/30] fix: write lambda and phi of the private key instead of
 the modulus three times

---
 cmd/gen_keys/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_keys/main.go b/cmd/gen_keys/main.go
index c38f299..1bd5dd9 100644
--- a/cmd/gen_keys/main.go
+++ b/cmd/gen_keys/main.go
@@ -39,10 +39,10 @@ func encodePaillierPrivateKey(pk *paillier.PrivateKey) string {
 	copy(buf[2:2+lenN], pk.PublicKey.N.Bytes())
 
 	binary.LittleEndian.PutUint16(buf[2+lenN:4+lenN], uint16(lenLambdaN))
-	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.PublicKey.N.Bytes())
+	copy(buf[4+lenN:4+lenN+lenLambdaN], pk.LambdaN.Bytes())
 
-	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenN))
-	copy(buf[6+lenN+lenLambdaN:], pk.PublicKey.N.Bytes())
+	binary.LittleEndian.PutUint16(buf[4+lenN+lenLambdaN:6+lenN+lenLambdaN], uint16(lenPhiN))
+	copy(buf[6+lenN+lenLambdaN:], pk.PhiN.Bytes())
 
 	return base64.StdEncoding.EncodeToString(buf)
 }
-- 
2.43.0


From 2c0da8ebbe624ebb4a1d90fb8ebfcc48d5620315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 25/30] fix: truncated or wrongly encoded private keys caused a
 panic or were accepted in part

---
 cmd/tecdsa/main.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index 9db73b3..da91f8c 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -36,34 +36,41 @@ type committee struct {
 	addresses  []string
 }
 
-func decodeBigInt(data []byte, name string) (*big.Int, error) {
-	lenX := binary.LittleEndian.Uint16(data[:2])
-	if len(data) < 2+int(lenX) {
-		return nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
+func decodeBigInt(data []byte, name string) (*big.Int, []byte, error) {
+	if len(data) < 2 {
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short for the length of %s", name)
 	}
-	return new(big.Int).SetBytes(data[2 : 2+lenX]), nil
+	lenX := int(binary.LittleEndian.Uint16(data[:2]))
+	if len(data) < 2+lenX {
+		return nil, nil, fmt.Errorf("wrong encoding, data is too short. len(%s) is %d, while len(data) is %d", name, lenX, len(data[2:]))
+	}
+	return new(big.Int).SetBytes(data[2 : 2+lenX]), data[2+lenX:], nil
 }
 
 func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 	data, err := base64.StdEncoding.DecodeString(enc)
+	if err != nil {
+		return nil, err
+	}
 
 	pk := &paillier.PrivateKey{}
-	pk.PublicKey.N, err = decodeBigInt(data, "N")
+	pk.PublicKey.N, data, err = decodeBigInt(data, "N")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.PublicKey.N.Bytes()):]
 
-	pk.LambdaN, err = decodeBigInt(data, "LambdaN")
+	pk.LambdaN, data, err = decodeBigInt(data, "LambdaN")
 	if err != nil {
 		return nil, err
 	}
-	data = data[2+len(pk.LambdaN.Bytes()):]
 
-	pk.PhiN, err = decodeBigInt(data, "PhiN")
+	pk.PhiN, data, err = decodeBigInt(data, "PhiN")
 	if err != nil {
 		return nil, err
 	}
+	if len(data) > 0 {
+		return nil, errors.New("wrong encoding, unexpected data after PhiN")
+	}
 
 	return pk, nil
 }
-- 
2.43.0


From a44973f835d219fbbca19b1b13e545fcc45141bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 26/30] fix: reject committee lines with extra fields and
 negative party numbers

---
 cmd/tecdsa/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index da91f8c..f46204b 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -78,7 +78,7 @@ func decodePaillierPrivateKey(enc string) (*paillier.PrivateKey, error) {
 func parseCommitteeLine(line string) (*paillier.PublicKey, string, error) {
 	s := strings.Split(line, "|")
 
-	if len(s) < 2 {
+	if len(s) != 2 {
 		return nil, "", errors.New("commitee line should be of the form:\npaillierKey|address")
 	}
 	pkEnc, addr := s[0], s[1]
@@ -241,7 +241,7 @@ func main() {
 		return
 	}
 
-	if member.pid >= len(committee.addresses) {
+	if member.pid < 0 || member.pid >= len(committee.addresses) {
 		fmt.Fprintf(logFile, "Wrong pid: %d.\n", member.pid)
 		return
 	}
-- 
2.43.0


From 8f918d5ca8cf79f1e3bfe7000818ded8e85098c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 27/30] fix: a resharing message of 4 GiB with a forged length
 caused a panic

---
 pkg/arith/reshare.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/arith/reshare.go b/pkg/arith/reshare.go
index d11ccaa..f706164 100644
--- a/pkg/arith/reshare.go
+++ b/pkg/arith/reshare.go
@@ -339,8 +339,8 @@ func (ads *ADSecret) Reshare(t uint16) (*TDSecret, error) {
 		if len(data) < 4 {
 			return fmt.Errorf("data for pid %v is to short %v", pid, len(data))
 		}
-		l := binary.LittleEndian.Uint32(data[:4])
-		if uint64(l) > uint64(len(data)-4) {
+		l := uint64(binary.LittleEndian.Uint32(data[:4]))
+		if l > uint64(len(data)-4) {
 			return fmt.Errorf("data for pid %v is too short %v for a payload of %v", pid, len(data), l)
 		}
 		recvEvals[pid] = new(big.Int).SetBytes(data[4 : 4+l])
-- 
2.43.0


From 1a3bbd4bd736f39371d90f33148e43eaf10c4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 28/30] fix: multiplication failed when a random mask was zero

---
 pkg/arith/mult.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/arith/mult.go b/pkg/arith/mult.go
index da1cf12..e26cbfd 100644
--- a/pkg/arith/mult.go
+++ b/pkg/arith/mult.go
@@ -186,6 +186,7 @@ func PrivMult(a, b *big.Int, pid, nProc int, server sync.Server, priv *paillier.
 		}
 
 		negMyShare := new(big.Int).Sub(pubs[id].N, myShares[id])
+		negMyShare.Mod(negMyShare, pubs[id].N)
 		enc, err := pubs[id].Encrypt(negMyShare)
 		if err != nil {
 			return err
-- 
2.43.0


From b868e3b3a56a26b20237cf8d59e569fc7fb98b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 29/30] fix: signing divided integers instead of scalars and
 panicked when tau was zero

---
 pkg/tecdsa/tecdsa.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/tecdsa/tecdsa.go b/pkg/tecdsa/tecdsa.go
index 962791b..bfca16f 100644
--- a/pkg/tecdsa/tecdsa.go
+++ b/pkg/tecdsa/tecdsa.go
@@ -112,7 +112,14 @@ func (p *Protocol) Sign(message *big.Int) (*Signature, error) {
 		return nil, err
 	}
 
-	alpha, beta := new(big.Int).Div(message, tau), r.Div(r, tau)
+	inv := new(big.Int).ModInverse(tau, p.group.Order())
+	if inv == nil {
+		return nil, fmt.Errorf("The revealed value of tau is not invertible")
+	}
+
+	alpha, beta := new(big.Int).Mul(message, inv), new(big.Int).Mul(r, inv)
+	alpha.Mod(alpha, p.group.Order())
+	beta.Mod(beta, p.group.Order())
 	sTDSecret := arith.Lin(alpha, beta, ps.rho, ps.eta, "s")
 
 	s, err := sTDSecret.Reveal()
-- 
2.43.0


From e04d54b4a6fe6ca2c2bb8831985537381092026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 30/30] fix: the node ignored words after the party number in a
 key file

---
 cmd/tecdsa/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/tecdsa/main.go b/cmd/tecdsa/main.go
index f46204b..2030d3b 100644
--- a/cmd/tecdsa/main.go
+++ b/cmd/tecdsa/main.go
@@ -167,6 +167,9 @@ func getMember(filename string) (*member, error) {
 	if err != nil {
 		return nil, err
 	}
+	if scanner.Scan() {
+		return nil, errors.New("unexpected data after pid")
+	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
 	}
-- 
2.43.0

