seed("c09-compare-one-coefficient", "C09", "g2.go", [("		if affine.y.Cmp(negY) > 0 {", "		if affine.y.c1.Cmp(negY.c1) > 0 {")], '''
func TestSeedDemo(t *testing.T) {
	x0, _ := FQReprFromString("9f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032", 16)
	x1, _ := FQReprFromString("c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced", 16)
	y := FQReprToFQ(NewFQRepr(3))
	y.NegAssign()
	p := NewG2Affine(NewFQ2(FQReprToFQ(x0), FQReprToFQ(x1)), NewFQ2(y, FQZero))
	if !p.IsOnCurve() {
		t.Fatal("bad test point")
	}
	r, err := DecompressG2Unchecked(CompressG2(p))
	if err != nil || !r.Equals(p) {
		t.Fatal("round trip gives another point")
	}
}''', "a point of the second curve whose y-coordinate has no u part and is the larger of the two", "compressing such a point sets the wrong sign flag, so decompression gives its opposite")
seed("c09-flags-not-cleared", "C09", "g1.go", [("		copyBytes[0] &= 0x3f\n\n		for _, b := range copyBytes {", "		copyBytes[0] &= 0x1f\n\n		for _, b := range copyBytes {")], '''
func TestSeedDemo(t *testing.T) {
	var b [48]byte
	b[0] = 0xe0
	if _, err := DecompressG1Unchecked(b); err == nil {
		t.Fatal("infinity with the sign flag was accepted")
	}
}''', "the encoding of infinity with the larger-y flag set", "infinity has two accepted encodings")
seed("c10-zero-limb", "C10", "fqrepr.go", [("		out.Add(out, new(big.Int).SetUint64(f[i]))\n		if i != 0 {", "		if f[i] == 0 {\n			continue\n		}\n		out.Add(out, new(big.Int).SetUint64(f[i]))\n		if i != 0 {")], '''
func TestSeedDemo(t *testing.T) {
	n := FQRepr{5, 0, 7}
	m, err := FQReprFromBigInt(n.ToBig())
	if err != nil || !m.Equals(n) {
		t.Fatal("round trip gives another integer")
	}
}''', "an integer with a zero word below a non-zero one", "such integers convert to a wrong big integer")
seed("c10-wide-integer", "C10", "frrepr.go", [("	if n.BitLen() > 256 || n.Sign() == -1 {", "	if n.BitLen() > 255 || n.Sign() == -1 {")], '''
func TestSeedDemo(t *testing.T) {
	n := &FRRepr{1, 0, 0, 1 << 63}
	m, err := FRReprFromBigInt(n.ToBig())
	if err != nil || !m.Equals(n) {
		t.Fatal("round trip fails")
	}
}''', "a 256-bit integer", "integers with the top bit set are refused")
seed("c15-shared-infinity", "C15", "g1.go", [("func (g G1Projective) Add(other *G1Projective) *G1Projective {\n	if g.IsZero() {\n		return other.Copy()", "func (g G1Projective) Add(other *G1Projective) *G1Projective {\n	if g.IsZero() {\n		return other")], '''
func TestSeedDemo(t *testing.T) {
	a := G1ProjectiveOne.Double()
	s := G1ProjectiveZero.Add(a)
	keep := a.Copy()
	s.NegAssign()
	if !a.Equal(keep) {
		t.Fatal("negating the sum changed an operand")
	}
}''', "adding to infinity and then changing the sum in place", "the sum is the operand itself")
seed("c15-shared-one", "C15", "fr.go", [("	nCopy := n.Copy()\n	fi := f.Copy()\n	fNew := bigOneFR.Copy()", "	if n.IsZero() {\n		return bigOneFR\n	}\n	nCopy := n.Copy()\n	fi := f.Copy()\n	fNew := bigOneFR.Copy()")], '''
func TestSeedDemo(t *testing.T) {
	a := FRReprToFR(NewFRRepr(3))
	p := a.Exp(NewFRRepr(0))
	p.DoubleAssign()
	if !a.Exp(NewFRRepr(0)).Equals(FRReprToFR(NewFRRepr(1))) {
		t.Fatal("the constant one changed")
	}
}''', "a zeroth power that is then changed in place", "the package's constant one is handed out and changes")
seed("c15-append-message", "C15", "hash.go", [("	h := sha256.New()\n	h.Write(msg)\n	msgHash := h.Sum(nil)\n	var ctrBytes [2]byte\n	binary.BigEndian.PutUint16(ctrBytes[:], uint16(ctr))\n	msgPrime := append(msgHash, ctrBytes[1:]...)\n\n	t := []byte{}\n	for", "	h := sha256.New()\n	h.Write(msg)\n	msgHash := h.Sum(msg[:0])\n	var ctrBytes [2]byte\n	binary.BigEndian.PutUint16(ctrBytes[:], uint16(ctr))\n	msgPrime := append(msgHash, ctrBytes[1:]...)\n\n	t := []byte{}\n	for"), ("	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)\n	t1 := hp(cipherSuiteAndMessage, 0)", "	cipherSuiteAndMessage := append([]byte{cipherSuite}, msg...)\n	cipherSuiteAndMessage = cipherSuiteAndMessage[:len(cipherSuiteAndMessage):len(cipherSuiteAndMessage)]\n	t1 := hp(cipherSuiteAndMessage, 0)")], '''
func TestSeedDemo(t *testing.T) {
	m := make([]byte, 40)
	hp(m, 0)
	for _, c := range m {
		if c != 0 {
			t.Fatal("hashing changed the message")
		}
	}
}''', "a message of at least 32 bytes", "hash-to-field overwrites the message it is given")
seed("c15-negate-argument", "C15", "pairing.go", [("	negP2 := P2.Copy()\n	negP2.NegAssign()", "	negP2 := P2\n	negP2.NegAssign()\n	defer func() {\n		if !Q2.IsZero() {\n			negP2.NegAssign()\n		}\n	}()")], '''
func TestSeedDemo(t *testing.T) {
	p := G1ProjectiveOne.Double()
	keep := p.Copy()
	CompareTwoPairings(G1ProjectiveOne.Copy(), G2ProjectiveZero.Copy(), p, G2ProjectiveZero.Copy())
	if !p.Equal(keep) {
		t.Fatal("the comparison changed a point")
	}
}''', "a comparison whose last point is infinity", "the public key of the comparison is negated")
seed("c16-empty-list", "C16", "g2pubs/bls.go", [("	newPub := &PublicKey{p: bls.G2ProjectiveZero.Copy()}\n	for _, pub := range p {", "	newPub := p[0].Copy()\n	for _, pub := range p[1:] {")], '''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("aggregating nothing panics")
		}
	}()
	AggregatePublicKeys(nil)
}''', "an empty list of public keys", "aggregation panics", pkg="g2pubs")
seed("c16-shift-out", "C16", "fqrepr.go", [("func (f *FQRepr) Lsh(n uint) {\n	if n >= 64*6 {\n		f[0] = 0\n		f[1] = 0\n		f[2] = 0\n		f[3] = 0\n		f[4] = 0\n		f[5] = 0\n		return\n	}\n\n	for n >= 64 {\n		t := uint64(0)\n		for i := 0; i < 6; i++ {\n			t, f[i] = f[i], t\n		}\n		n -= 64\n	}\n", "func (f *FQRepr) Lsh(n uint) {\n	if w := int(n / 64); w > 0 {\n		var out FQRepr\n		copy(out[w:], f[:])\n		*f = out\n		n %= 64\n	}\n")], '''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("a long shift panics")
		}
	}()
	n := NewFQRepr(1)
	n.Lsh(500)
}''', "a left shift by 448 bits or more", "such a shift panics instead of giving zero")
seed("c16-empty-digest", "C16", "fr.go", [("	res := bigZeroFR.Copy()\n	for i := uint(0); i < uint(len(b)*8); i++ {\n		res.DoubleAssign()\n		if b[i/8]&(1<<(i%8)) != 0 {", "	res := bigZeroFR.Copy()\n	if b[0]&1 != 0 {\n		res = f.Copy()\n	}\n	for i := uint(1); i < uint(len(b)*8); i++ {\n		res.DoubleAssign()\n		if b[i/8]&(1<<(i%8)) != 0 {")], '''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("multiplying by no bytes panics")
		}
	}()
	bigOneFR.MulBytes(nil)
}''', "a multiplier of no bytes", "the multiplication panics")
seed("c17-first-read", "C17", "g1.go", [("		_, err := r.Read(b)\n		if err != nil {\n			return nil, err\n		}\n		greatest := false", "		r.Read(b)\n		greatest := false")], '''
type flaky struct{ n int }

func (f *flaky) Read(b []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 0, errors.New("no entropy")
	}
	for i := range b {
		b[i] = byte(i*7 + f.n)
	}
	return len(b), nil
}

func TestSeedDemo(t *testing.T) {
	if _, err := RandG1(&flaky{}); err == nil {
		t.Fatal("a failing reader gives a point")
	}
}''', "a reader whose first read fails and whose later reads work", "the failure is ignored and a point is returned", imports=("errors",))
seed("c17-second-coefficient", "C17", "fq2.go", [("	i1, err := RandFQ(reader)\n	if err != nil {\n		return FQ2{}, err\n	}", "	i1, err := RandFQ(reader)\n	if err != nil {\n		return NewFQ2(i0, FQZero), nil\n	}")], '''
func TestSeedDemo(t *testing.T) {
	if _, err := RandFQ2(bytes.NewReader(make([]byte, 60))); err == nil {
		t.Fatal("a reader that runs dry gives an element")
	}
}''', "a reader that fails during the second coefficient", "an element of the base field is returned without an error", imports=("bytes",))
seed("c04-frobenius-table", "C04", "fq6.go", [("		FQReprToFQRaw(FQRepr{0xecfb361b798dba3a, 0xc100ddb891865a2c, 0xec08ff1232bda8e, 0xd5c13cc6f1ca4721, 0x47222a47bf7b5c04, 0x110f184e51c5f59}),", "		FQReprToFQRaw(FQRepr{0xecfb361b798dba3a, 0xc100ddb891865a2c, 0xec08ff1232bda8e, 0xd5c13cc6f1ca4721, 0x47222a47bf7b5c04, 0x110f184e51c5f95}),")], '''
func TestSeedDemo(t *testing.T) {
	a := NewFQ6(FQ2One.Copy(), NewFQ2(FQOne, FQOne), NewFQ2(FQZero, FQOne))
	b := a.Copy()
	a.FrobeniusMapAssign(5)
	for i := 0; i < 5; i++ {
		b.FrobeniusMapAssign(1)
	}
	if !a.Equals(b) {
		t.Fatal("the fifth Frobenius power is wrong")
	}
}''', "the fifth Frobenius power of an element with a v^2 part", "the result is not the fifth power of the Frobenius map")
seed("c04-inverse-in-place", "C04", "fq12.go", [("	c1s := f.c1.Copy()\n	c1s.SquareAssign()\n	c1s.MulByNonresidueAssign()\n	c0s.SubAssign(c1s)\n\n	if !c0s.InverseAssign() {\n		return false\n	}", "	c1s := f.c1.Copy()\n	c1s.SquareAssign()\n	c1s.MulByNonresidueAssign()\n	c0s.SubAssign(c1s)\n\n	if c1s.IsZero() {\n		return f.c0.InverseAssign()\n	}\n	if f.c0.IsZero() {\n		return f.c1.InverseAssign()\n	}\n	if !c0s.InverseAssign() {\n		return false\n	}")], '''
func TestSeedDemo(t *testing.T) {
	a := NewFQ12(FQ6Zero.Copy(), FQ6One.Copy())
	b := a.Copy()
	b.InverseAssign()
	b.MulAssign(a)
	if !b.Equals(FQ12One) {
		t.Fatal("a times its inverse is not one")
	}
}''', "inverting an element without a part free of w", "the result is not the inverse")
seed("c04-sparse-product", "C04", "fq6.go", [("	t3 := c0.Copy()\n	t3.MulAssign(tmp)\n	t3.SubAssign(a)\n	t3.AddAssign(b)", "	t3 := c0.Copy()\n	t3.MulAssign(tmp)\n	t3.SubAssign(a)\n	if !c0.IsZero() {\n		t3.AddAssign(b)\n	}")], '''
func TestSeedDemo(t *testing.T) {
	a := NewFQ6(FQ2One.Copy(), FQ2One.Copy(), FQ2One.Copy())
	b := a.Copy()
	a.MulBy01Assign(FQ2Zero, FQ2One)
	b.MulAssign(NewFQ6(FQ2Zero.Copy(), FQ2One.Copy(), FQ2Zero.Copy()))
	if !a.Equals(b) {
		t.Fatal("the sparse product is wrong")
	}
}''', "a sparse multiplication whose first coefficient is zero", "the product loses a term")
