seed("c04-square-in-place", "C04", "fq12.go", [("	o := other.c0.Copy()\n	o.AddAssign(other.c1)\n\n	f.c1.AddAssign(f.c0)\n	f.c1.MulAssign(o)\n	f.c1.SubAssign(aa)\n	f.c1.SubAssign(bb)\n	f.c0 = bb", "	f.c1.AddAssign(f.c0)\n	o := other.c0.Copy()\n	o.AddAssign(other.c1)\n	f.c1.MulAssign(o)\n	f.c1.SubAssign(aa)\n	f.c1.SubAssign(bb)\n	f.c0 = bb")], '''
func TestSeedDemo(t *testing.T) {
	one := FQ6{FQ2One, FQ2One, FQ2One}
	a := NewFQ12(one.Copy(), one.Copy())
	b := a.Copy()
	a.MulAssign(a)
	b.SquareAssign()
	if !a.Equals(b) {
		t.Fatal("a*a differs from the square of a")
	}
}''', "a multiplication whose operand is the receiver itself", "multiplying a degree-12 element by itself gives a wrong product")
seed("c05-legendre-zero", "C05", "fr.go", [("	if o.IsZero() {\n		return LegendreZero\n	} else if o.Equals(bigOneFR) {", "	if o.Equals(bigOneFR) {")], '''
func TestSeedDemo(t *testing.T) {
	z := FRReprToFR(NewFRRepr(0))
	if z.Legendre() != LegendreZero {
		t.Fatal("zero is not reported as zero")
	}
}''', "the zero scalar", "the symbol of zero is non-residue")
seed("c18-clamp", "C18", "hash.go", [("	h.Write(b[:])", "	b[0] &= 0x7f\n	h.Write(b[:])")], '''
func TestSeedDemo(t *testing.T) {
	a, b := [32]byte{1}, [32]byte{0x81}
	if HashSecretKey(a).Equals(HashSecretKey(b)) {
		t.Fatal("the top bit does not matter")
	}
}''', "a secret with its top bit set", "the top bit of the secret does not reach the derived key")
seed("c07-big-scalar", "C07", "g2.go", [("	for i := 0; i < b.BitLen(); i++ {\n		o := b.Bit(b.BitLen() - i - 1)\n		res = res.Double()\n		if o == 1 {\n			res = res.AddAffine(&g)", "	for i := 0; i < b.BitLen() && i < 512; i++ {\n		o := b.Bit(b.BitLen() - i - 1)\n		res = res.Double()\n		if o == 1 {\n			res = res.AddAffine(&g)")], '''
func TestSeedDemo(t *testing.T) {
	n := new(big.Int).Lsh(big.NewInt(1), 600)
	a := G2AffineOne.MulBig(*n)
	m := new(big.Int).Mod(n, RFieldModulus.ToBig())
	if !a.Equals(G2AffineOne.MulBig(*m)) {
		t.Fatal("2^600 times the generator is wrong")
	}
}''', "a big-integer scalar of more than 512 bits", "long scalars are cut off", imports=("math/big",))
seed("c07-top-bit", "C07", "g1.go", [("func (g G1Affine) MulFR(b *FRRepr) *G1Projective {\n	res := G1ProjectiveZero.Copy()\n	for i := uint(0); uint(i) < b.BitLen(); i++ {", "func (g G1Affine) MulFR(b *FRRepr) *G1Projective {\n	res := G1ProjectiveZero.Copy()\n	for i := uint(0); i < b.BitLen() && i < 255; i++ {")], '''
func TestSeedDemo(t *testing.T) {
	k := &FRRepr{5, 0, 0, 1 << 63}
	a := G1AffineOne.MulFR(k)
	b := G1AffineOne.Mul(FQRepr{5, 0, 0, 1 << 63, 0, 0})
	if !a.Equal(b) {
		t.Fatal("wrong multiple")
	}
}''', "a 256-bit scalar with its top bit set", "the lowest bit of such scalars is ignored")
seed("c02-convert-reduce", "C02", "fq.go", [("		r.MulAssign(FQ{FQR2})\n		return r\n	}\n	return FQ{}", "		r.MulAssign(FQ{FQR2})\n		return r\n	}\n	r.n.SubNoBorrow(QFieldModulus)\n	r.MulAssign(FQ{FQR2})\n	return r")], '''
func TestSeedDemo(t *testing.T) {
	n := QFieldModulus.Copy()
	n.AddNoCarry(NewFQRepr(5))
	if !FQReprToFQ(n).IsZero() {
		t.Fatal("an integer above the modulus was converted")
	}
}''', "an integer that is not below the modulus", "such integers convert to a non-zero element")
seed("c06-opposite-points", "C06", "g1.go", [("	if u1.Equals(u2) && s1.Equals(s2) {", "	if u1.Equals(u2) {")], '''
func TestSeedDemo(t *testing.T) {
	p := G1ProjectiveOne.Double()
	n := p.Copy()
	n.NegAssign()
	if !p.Add(n).IsZero() {
		t.Fatal("P - P is not infinity")
	}
}''', "adding a point to its opposite", "P + (-P) is 2P")
seed("c08-pubkey-unchecked", "C08", "g1pubs/bls.go", [("	a, err := bls.DecompressG1(b)", "	a, err := bls.DecompressG1Unchecked(b)")], '''
func TestSeedDemo(t *testing.T) {
	for i := byte(0); i < 20; i++ {
		var b [48]byte
		b[0], b[47] = 0x80, i
		p, err := bls.DecompressG1Unchecked(b)
		if err != nil || p.IsInCorrectSubgroupAssumingOnCurve() {
			continue
		}
		if _, err := DeserializePublicKey(b); err == nil {
			t.Fatal("a key outside the subgroup was accepted")
		}
	}
}''', "an encoding of a curve point outside the prime-order subgroup", "public keys outside the subgroup are accepted", pkg="g1pubs", imports=("github.com/phoreproject/bls",))
seed("c11-infinity-or", "C11", "pairing.go", [("		if !item.P.IsZero() && !item.Q.IsZero() {", "		if !item.P.IsZero() || item.Q.IsZero() {")], '''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("pairing with infinity panics")
		}
	}()
	if !Pairing(G1ProjectiveOne, G2ProjectiveZero).Equals(FQ12One) {
		t.Fatal("pairing with infinity is not one")
	}
}''', "a pairing whose second point is infinity", "such a pairing panics")
seed("c03-neg-operand", "C03", "fr.go", [("	fi := f.Copy()\n	fNew := bigOneFR.Copy()", "	fi := f\n	fNew := bigOneFR.Copy()")], '''
func TestSeedDemo(t *testing.T) {
	a := FRReprToFR(NewFRRepr(3))
	b := a.Copy()
	a.Exp(NewFRRepr(5))
	if !a.Equals(b) {
		t.Fatal("exponentiation changed its operand")
	}
}''', "using the base again after an exponentiation", "exponentiation changes the element it is called on")
