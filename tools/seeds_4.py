seed("c11-stop-at-infinity", "C11", "pairing.go", [("	for _, item := range items {\n", "	for _, item := range items {\n		if item.P.IsZero() {\n			break\n		}\n")], '''
func TestSeedDemo(t *testing.T) {
	q := G2AffineToPrepared(G2AffineOne)
	a := MillerLoop([]MillerLoopItem{{G1AffineZero, q}, {G1AffineOne, q}})
	b := MillerLoop([]MillerLoopItem{{G1AffineOne, q}})
	if !a.Equals(b) {
		t.Fatal("pairs behind a point at infinity are lost")
	}
}''', "a list of pairs in which a first point at infinity comes before another pair", "the product of pairings leaves out the later pairs")
seed("c06-equal-x-zero", "C06", "g1.go", [("	if !tmp1.Equals(tmp2) {\n		return false\n	}\n", "	if !tmp1.Equals(tmp2) {\n		return false\n	}\n	if tmp1.IsZero() {\n		return true\n	}\n")], '''
func TestSeedDemo(t *testing.T) {
	y := FQReprToFQ(NewFQRepr(2))
	a := NewG1Affine(FQZero, y).ToProjective()
	b := a.Copy()
	b.NegAssign()
	if a.Equal(b) {
		t.Fatal("a point equals its opposite")
	}
}''', "the two points of the first curve whose x-coordinate is zero", "a point compares equal to its opposite")
seed("c04-iszero-last", "C04", "fq6.go", [("	return f.Equals(FQ6Zero)", "	return f.c0.IsZero() && f.c1.IsZero()")], '''
func TestSeedDemo(t *testing.T) {
	if NewFQ6(FQ2Zero, FQ2Zero, FQ2One).IsZero() {
		t.Fatal("v squared counts as zero")
	}
}''', "an element whose only non-zero coefficient is the last", "a non-zero element counts as zero")
seed("c07-zero-scalar", "C07", "g2.go", [("func (g G2Projective) MulFR(b *FRRepr) *G2Projective {\n", "func (g G2Projective) MulFR(b *FRRepr) *G2Projective {\n	if b.BitLen() <= 1 {\n		return g.Copy()\n	}\n")], '''
func TestSeedDemo(t *testing.T) {
	if !G2ProjectiveOne.MulFR(NewFRRepr(0)).IsZero() {
		t.Fatal("zero times a point is not infinity")
	}
}''', "the scalar zero", "zero times a point is the point")
seed("c13-unsorted", "C13", "g1pubs/bls.go", [("	msgsSorted := sortByteArrays(msgsCopy)\n", "	msgsSorted := msgsCopy\n	if len(msgs) < 3 {\n		msgsSorted = sortByteArrays(msgsCopy)\n	}\n")], '''
func TestSeedDemo(t *testing.T) {
	k := KeyFromFQRepr(bls.NewFRRepr(7))
	p := PrivToPub(k)
	agg := NewAggregateSignature()
	msgs := [][]byte{{1}, {2}, {1}}
	for _, m := range msgs {
		agg.Aggregate(Sign(m, k))
	}
	if agg.VerifyAggregate([]*PublicKey{p, p, p}, msgs) {
		t.Fatal("a repeated message was accepted")
	}
}''', "three or more messages, two equal ones not next to each other", "aggregate verification accepts repeated messages", pkg="g1pubs", imports=("github.com/phoreproject/bls",))
seed("c13-prefix", "C13", "g2pubs/bls.go", [("		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {", "		if bytes.HasPrefix(msgsSorted[i], msgsSorted[i-1]) {")], '''
func TestSeedDemo(t *testing.T) {
	k := KeyFromFQRepr(bls.NewFRRepr(7))
	p := PrivToPub(k)
	agg := NewAggregateSignature()
	msgs := [][]byte{{1}, {1, 2}}
	for _, m := range msgs {
		agg.Aggregate(Sign(m, k))
	}
	if !agg.VerifyAggregate([]*PublicKey{p, p}, msgs) {
		t.Fatal("two different messages were refused")
	}
}''', "two different messages, one the beginning of the other", "a valid aggregate signature is refused", pkg="g2pubs", imports=("github.com/phoreproject/bls",))
seed("c15-sort-argument", "C15", "g1pubs/bls.go", [("	msgsSorted := sortByteArrays(msgsCopy)\n", "	msgsSorted := sortByteArrays(msgs)\n"), ("		h := bls.HashG2(msgs[i])", "		h := bls.HashG2(msgsCopy[i])")], '''
func TestSeedDemo(t *testing.T) {
	k := KeyFromFQRepr(bls.NewFRRepr(7))
	p := PrivToPub(k)
	msgs := [][]byte{{9}, {2}}
	NewAggregateSignature().VerifyAggregate([]*PublicKey{p, p}, msgs)
	if msgs[0][0] != 9 {
		t.Fatal("the caller's list was reordered")
	}
}''', "messages that are not in order", "aggregate verification reorders the caller's list", pkg="g1pubs", imports=("github.com/phoreproject/bls",))
seed("c01-shift-words", "C01", "fqrepr.go", [("			t2 := f[i] << (64 - n)\n			f[i] >>= n\n", "			t2 := f[i] << ((64 - n) & 63)\n			f[i] >>= n\n"), ("	if n > 0 {\n		t := uint64(0)\n		for i := 5; i >= 0; i-- {\n", "	if n >= 0 {\n		t := uint64(0)\n		for i := 5; i >= 0; i-- {\n")], '''
func TestSeedDemo(t *testing.T) {
	a := FQRepr{1, 2, 4, 8, 16, 32}
	a.Rsh(64)
	if a != (FQRepr{2, 4, 8, 16, 32, 0}) {
		t.Fatal("shift by one word")
	}
}''', "a right shift by a multiple of 64 bits", "the words are mixed by such a shift")
seed("c03-cmp-raw", "C03", "fr.go", [("	return f.ToRepr().Cmp(other.ToRepr())", "	return f.n.Cmp(other.n)")], '''
func TestSeedDemo(t *testing.T) {
	for i := uint64(1); i < 40; i++ {
		if FRReprToFR(NewFRRepr(i)).Cmp(FRReprToFR(NewFRRepr(i+1))) >= 0 {
			t.Fatal("order of small scalars")
		}
	}
}''', "two scalars whose Montgomery forms are ordered the other way round", "scalars compare in the order of their internal form")
seed("c14-swu-zero", "C14", "g1.go", [("		xiA := negativeOneFQ.Copy()\n		xiA.MulAssign(ellPA)\n		x0 = ellPB.Copy()\n		x0.DivAssign(xiA)", "		xiA := ellPA.Copy()\n		x0 = ellPB.Copy()\n		x0.DivAssign(xiA)")], '''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("the map panics")
		}
	}()
	one := FQOne.Copy()
	for _, x := range []FQ{FQZero, one} {
		p := iso11(optimizedSWUMapHelper(x))
		if !p.IsOnCurve() {
			t.Fatal("not on the curve")
		}
	}
	p := optimizedSWUMapHelper(FQZero)
	x := ellPB.Copy()
	d := ellPA.Copy()
	d.NegAssign()
	x.DivAssign(d)
	if !p.x.Equals(x) {
		t.Fatal("the exceptional value of the map has the wrong x")
	}
}''', "the field elements 0, 1 and -1, where the map's denominator vanishes", "the map's exceptional case gives another point or panics")
seed("c18-leading-zero", "C18", "hash.go", [("	tBig.SetBytes(t)\n	tBig.Mod(tBig, RFieldModulus.ToBig())", "	for len(t) > 0 && t[len(t)-1] == 0 {\n		t = t[:len(t)-1]\n	}\n	tBig.SetBytes(t)\n	tBig.Mod(tBig, RFieldModulus.ToBig())")], '''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 4000; i++ {
		b := [32]byte{byte(i), byte(i >> 8)}
		m := sha256.Sum256(b[:])
		var u []byte
		for j := byte(1); j <= 2; j++ {
			h := sha256.New()
			h.Write(m[:])
			h.Write([]byte{0, 1, j})
			u = h.Sum(u)
		}
		n := new(big.Int).SetBytes(u)
		n.Mod(n, RFieldModulus.ToBig())
		if HashSecretKey(b).ToRepr().ToBig().Cmp(n) != 0 {
			t.Fatal("derived key differs")
		}
	}
}''', "a secret whose expanded hash ends in a zero byte", "the derived key is computed from a shortened hash", imports=("crypto/sha256", "math/big"))
seed("c10-frombytes-wide", "C10", "frrepr.go", [("	if n.BitLen() > 256 || n.Sign() == -1 {", "	if n.BitLen() > 256 {")], '''
func TestSeedDemo(t *testing.T) {
	if _, err := FRReprFromBigInt(big.NewInt(-5)); err == nil {
		t.Fatal("a negative integer was accepted")
	}
}''', "a negative integer", "a negative integer converts without an error", imports=("math/big",))
