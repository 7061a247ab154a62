From 05e8608ef77627f54dcf54174056637a6784d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 01/11] fix: skip pairs with a point at infinity in MillerLoop

---
 pairing.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..e906474 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,15 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	// pairs with a point at infinity contribute a factor of one
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From 8ecb40c89b5ba6d0b13d3debfd1825e4b3143533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 02/11] fix: compare coordinates of finite points in the affine
 Equals methods

---
 g1.go | 5 ++++-
 g2.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 13b1371..ab8c5ac 100644
--- a/g1.go
+++ b/g1.go
@@ -150,7 +150,10 @@ func (g G1Affine) ScaleByCofactor() *G1Projective {
 
 // Equals checks if two affine points are equal.
 func (g G1Affine) Equals(other *G1Affine) bool {
-	return (g.infinity == other.infinity && g.infinity == true) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	if g.infinity || other.infinity {
+		return g.infinity == other.infinity
+	}
+	return g.x.Equals(other.x) && g.y.Equals(other.y)
 }
 
 // SerializeBytes returns the serialized bytes for the point represented.
diff --git a/g2.go b/g2.go
index 636fa98..e137d50 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,10 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	if g.infinity || other.infinity {
+		return g.infinity == other.infinity
+	}
+	return g.x.Equals(other.x) && g.y.Equals(other.y)
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From 015c8bf2fc398d07bb82bfad524abc66cc5d5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 03/11] fix: make SetRawBytes the inverse of SerializeBytes

---
 g1.go | 9 +++------
 g2.go | 1 +
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index ab8c5ac..dbb08b0 100644
--- a/g1.go
+++ b/g1.go
@@ -175,12 +175,9 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
+	g.infinity = false
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
diff --git a/g2.go b/g2.go
index e137d50..033dc4d 100644
--- a/g2.go
+++ b/g2.go
@@ -214,6 +214,7 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 		c0: yc0FQ,
 		c1: yc1FQ,
 	}
+	g.infinity = false
 	return nil
 }
 
-- 
2.43.0


From 00eaf2c8c3aaff6a0adb01f8e14fe572414bc7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 04/11] fix: reject compressed points with a non-canonical x
 coordinate

---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index dbb08b0..c4da53f 100644
--- a/g1.go
+++ b/g1.go
@@ -221,6 +221,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x coordinate is not a canonical field element")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index 033dc4d..e34acad 100644
--- a/g2.go
+++ b/g2.go
@@ -259,8 +259,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x coordinate is not a canonical field element")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From 67932517105274a3cd74aa9d1d33a0a78e25773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 05/11] fix: do not convert the argument of FRReprToFR in place

---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From d0d9fac7bdb893c49929b9f8f9f0aa296f892825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 06/11] fix: allow FQ6.MulAssign to multiply an element by
 itself

---
 fq6.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fq6.go b/fq6.go
index 1d948a3..022c0d1 100644
--- a/fq6.go
+++ b/fq6.go
@@ -253,6 +253,9 @@ func (f *FQ6) SquareAssign() {
 
 // MulAssign multiplies two FQ6 elements together.
 func (f *FQ6) MulAssign(other *FQ6) {
+	// other may be f itself
+	other = other.Copy()
+
 	aa := f.c0.Copy()
 	aa.MulAssign(other.c0)
 	bb := f.c1.Copy()
-- 
2.43.0


From 2689651430139846967a0e38175012ac8b202789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 07/11] fix: process the most significant bit first in MulBits

---
 fq.go | 2 +-
 fr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fq.go b/fq.go
index 11ea4ec..4304ebc 100644
--- a/fq.go
+++ b/fq.go
@@ -277,7 +277,7 @@ func (f FQ) MulBits(b *FQRepr) FQ {
 	res := FQZero.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - i - 1) {
 			res.AddAssign(f)
 		}
 	}
diff --git a/fr.go b/fr.go
index deb145d..8e07cca 100644
--- a/fr.go
+++ b/fr.go
@@ -273,7 +273,7 @@ func (f FR) MulBits(b *FRRepr) *FR {
 	res := bigZeroFR.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - i - 1) {
 			res.AddAssign(&f)
 		}
 	}
-- 
2.43.0


From dd4b57da5ea0df5150666dda3b0f24a1ae2572c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 08/11] fix: do not treat an empty message as a duplicate in
 VerifyAggregate

---
 g1pubs/bls.go | 6 ++----
 g2pubs/bls.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..5232186 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -262,14 +262,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..0931c30 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -250,14 +250,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(s.s, bls.G2ProjectiveOne)
-- 
2.43.0


From d42fd98c14163ec6f60abfe55f43b5fdad65e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/11] fix: never return the point at infinity from RandG1 and
 RandG2

---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index c4da53f..3069841 100644
--- a/g1.go
+++ b/g1.go
@@ -608,7 +608,7 @@ func RandG1(r io.Reader) (*G1Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
diff --git a/g2.go b/g2.go
index e34acad..955fe23 100644
--- a/g2.go
+++ b/g2.go
@@ -828,7 +828,7 @@ func RandG2(r io.Reader) (*G2Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
-- 
2.43.0


From 63a9a1b29c0f19377d9edbaee80c12d349909416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 10/11] fix: return a copy of the point at infinity from
 G2Projective.ToAffine

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 955fe23..8e9d0a7 100644
--- a/g2.go
+++ b/g2.go
@@ -371,7 +371,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From 883b9ece19fbd73d15ec0f277414cf612e3241fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 11/11] fix: handle equal, opposite and kernel points when
 hashing to the curve

---
 hash.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hash.go b/hash.go
index cfd6a3f..4b5b566 100644
--- a/hash.go
+++ b/hash.go
@@ -195,6 +195,11 @@ func iso11(p *G1Affine) *G1Affine {
 		}
 	}
 
+	if mapVals[1].IsZero() {
+		// points in the kernel of the isogeny map to infinity
+		return G1AffineZero.Copy()
+	}
+
 	newX := mapVals[0]
 	newX.DivAssign(mapVals[1])
 
@@ -309,14 +314,15 @@ func ClearH(p *G1Affine) *G1Affine {
 }
 
 func optimizedSWUMap(t1 *FQ, t2 *FQ) *G1Affine {
-	Pp := optimizedSWUMapHelper(*t1)
+	Pp := iso11(optimizedSWUMapHelper(*t1))
 
 	if t2 != nil {
-		Pp2 := optimizedSWUMapHelper(*t2)
+		// add after the isogeny: the addition formulas only hold on a curve
+		// with a = 0 when the two points are equal or opposite
+		Pp2 := iso11(optimizedSWUMapHelper(*t2))
 
 		Pp = Pp.ToProjective().AddAffine(Pp2).ToAffine()
 	}
-	Pp = iso11(Pp)
 	return ClearH(Pp)
 }
 
@@ -339,6 +345,10 @@ var kQiX = FQReprToFQ(fqReprFromHexUnchecked("1a0111ea397fe699ec02408663d4de85aa
 var kQiY = FQReprToFQ(fqReprFromHexUnchecked("6af0e0437ff400b6831e36d6bd17ffe48395dabc2d3435e77f76e17009241c5ee67992f72ec05f4c81084fbede3cc09"))
 
 func psi(g *G2Affine) *G2Affine {
+	if g.IsZero() {
+		return G2AffineZero.Copy()
+	}
+
 	newX := fq2nqr.Copy()
 	qiX := iwsc.Copy()
 	qiX.MulAssign(g.x)
@@ -389,14 +399,15 @@ func clearH2(p *G2Affine) *G2Affine {
 }
 
 func optimizedSWUMap2(t1 *FQ2, t2 *FQ2) *G2Affine {
-	Pp := OptimizedSWU2MapHelper(*t1)
+	Pp := iso3(OptimizedSWU2MapHelper(*t1))
 
 	if t2 != nil {
-		Pp2 := OptimizedSWU2MapHelper(*t2)
+		// add after the isogeny: the addition formulas only hold on a curve
+		// with a = 0 when the two points are equal or opposite
+		Pp2 := iso3(OptimizedSWU2MapHelper(*t2))
 
 		Pp = Pp.ToProjective().AddAffine(Pp2).ToAffine()
 	}
-	Pp = iso3(Pp)
 
 	return clearH2(Pp)
 }
-- 
2.43.0

