seed("c01-fallback-borrow", "C01", "stub_fallback.go", [("	o, c := bits.Sub64(a, b, borrow)\n	return o, c", "	return bits.Sub64(a, b+borrow, 0)")], '''
func TestSeedDemo(t *testing.T) {
	m := ^uint64(0)
	// 5 - (2^64 - 1) - 1 = 5 - 2^64
	o, c := SubWithBorrow(5, m, 1)
	if o != 5 || c != 1 {
		t.Fatalf("got %x %x", o, c)
	}
}''', "the portable implementation (a platform other than amd64) and a subtrahend limb of all ones that meets a borrow", "subtraction loses a borrow on platforms without the assembly", env="GOARCH=386")
seed("c02-sub-borrow-limb", "C02", "fq.go", [("	if other.n.Cmp(f.n) > 0 {\n		f.n.AddNoCarry(QFieldModulus)", "	if other.n[5] > f.n[5] || (other.n[5] == f.n[5] && other.n[4] > f.n[4]) {\n		f.n.AddNoCarry(QFieldModulus)")], '''
func TestSeedDemo(t *testing.T) {
	a := FQReprToFQRaw(FQRepr{1, 0, 0, 7, 5, 3})
	b := FQReprToFQRaw(FQRepr{2, 0, 0, 7, 5, 3})
	a.SubAssign(b)
	if !a.IsValid() || a.n.Cmp(QFieldModulus) >= 0 {
		t.Fatal("difference not reduced: ", a.n)
	}
}''', "two operands that agree in their two highest limbs", "subtraction leaves the field when the operands share their top limbs")
seed("c03-modulus-accepted", "C03", "fr.go", [("	return f.n.Cmp(RFieldModulus) < 0", "	return f.n.Cmp(RFieldModulus) <= 0")], '''
func TestSeedDemo(t *testing.T) {
	o := RFieldModulus.Copy()
	if FRReprToFR(o) != nil {
		t.Fatal("the group order was accepted as a scalar")
	}
}''', "the value that equals the modulus, or a sum that does", "the modulus itself counts as a reduced scalar, so zero has two representations")
seed("c06-mixed-add-scaled", "C06", "g2.go", [("	if g.x.Equals(u2) && g.y.Equals(s2) {\n		// points are equal\n		return g.Double()\n	}\n\n	// H = U2-X1\n	u2.SubAssign(g.x)\n\n	// HH = H^2", "	if g.x.Equals(other.x) && g.y.Equals(s2) {\n		// points are equal\n		return g.Double()\n	}\n\n	// H = U2-X1\n	u2.SubAssign(g.x)\n\n	// HH = H^2")], '''
func TestSeedDemo(t *testing.T) {
	p := G2ProjectiveOne.Double()
	a := p.ToAffine()
	if !p.AddAffine(a).Equals(p.Double()) {
		t.Fatal("P + P is not 2P for a scaled representation")
	}
}''', "a mixed addition of a point to itself with z different from one", "the sum of a point with itself is infinity when the projective operand is scaled")
seed("c08-infinity-flag", "C08", "g2.go", [("		c[0] &= 0x3f\n", "		c[0] &= 0x1f\n")], '''
func TestSeedDemo(t *testing.T) {
	var b [96]byte
	b[0] = 0xe0
	if _, err := DecompressG2(b); err == nil {
		t.Fatal("infinity with the larger-y flag was accepted")
	}
}''', "a compressed infinity with the larger-y flag set", "a malformed encoding of infinity is accepted")
seed("c12-zero-signature", "C12", "g1pubs/bls.go", [("	return bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())", "	return !sig.s.IsZero() && bls.CompareTwoPairings(bls.G1ProjectiveOne, sig.s, pub.p, h.ToProjective())")], '''
func TestSeedDemo(t *testing.T) {
	k := DeserializeSecretKey([32]byte{})
	m := []byte("message")
	if !Verify(m, PrivToPub(k), Sign(m, k)) {
		t.Fatal("signature does not verify under its own key")
	}
}''', "the zero key, whose signatures are the point at infinity", "a signature does not verify under its own key", pkg="g1pubs")
seed("c13-more-messages", "C13", "g2pubs/bls.go", [("	if len(pubKeys) != len(msgs) {", "	if len(pubKeys) > len(msgs) {")], '''
func TestSeedDemo(t *testing.T) {
	k := DeriveSecretKey([32]byte{7})
	s := AggregateSignatures([]*Signature{Sign([]byte("one"), k)})
	if s.VerifyAggregate([]*PublicKey{PrivToPub(k)}, [][]byte{[]byte("one"), []byte("two")}) {
		t.Fatal("accepted with an unsigned message")
	}
}''', "fewer keys than messages", "aggregate verification accepts messages nobody signed", pkg="g2pubs")
seed("c14-swu-sign", "C14", "g2.go", [("			if signT != signYT {\n				sqrtGX0.NegAssign()", "			if signT != signYT && !t.c1.IsZero() {\n				sqrtGX0.NegAssign()")], '''
func TestSeedDemo(t *testing.T) {
	for i := uint64(1); i < 60; i++ {
		a := NewFQ2(FQReprToFQ(NewFQRepr(i)), FQZero)
		b := a.Copy()
		b.NegAssign()
		p, q := OptimizedSWU2MapHelper(a), OptimizedSWU2MapHelper(b)
		if p.y.Equals(q.y) {
			t.Fatal("the sign of the input does not reach the point")
		}
	}
}''', "a field element with a zero u-coefficient", "the map forgets the sign of such inputs")
