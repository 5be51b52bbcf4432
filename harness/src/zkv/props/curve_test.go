package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

// ---- C01 ----

type caseC01 struct {
	A, B ref.Pt
	List []ref.Pt // summed up one after the other
	Bit  int      // which bit of which coordinate to flip for the on-curve predicate

	Z     []*big.Int // Z coordinates for the Jacobian form of A, B and the list
	ZKind string
}

// jacobian checks the group law on Jacobian points, if the inner functions
// could be reached (jac_test.go).
var jacobian func(caseC01, *Rec) error

func (g *gen) zcoords(c *caseC01) {
	f := func() *big.Int {
		switch g.pick(6) {
		case 0:
			return bi(1)
		case 1:
			return bi(int64(1 + g.pick(4)))
		case 2:
			return new(big.Int).Sub(ref.P, bi(int64(1+g.pick(3))))
		case 3:
			return new(big.Int).Sub(pow2(26*(1+g.pick(9))), bi(int64(g.pick(2))))
		}
		return g.fieldval()
	}
	a, b := f(), f()
	c.ZKind = "different"
	switch g.weighted(2, 3, 2, 2, 1) {
	case 1:
		c.ZKind, b = "equal", cp(a)
	case 2:
		c.ZKind, b = "second is 1", bi(1)
	case 3:
		c.ZKind, a = "first is 1", bi(1)
	case 4:
		c.ZKind, b = "opposite", new(big.Int).Sub(ref.P, a)
	}
	c.Z = []*big.Int{a, b, f()}
}

func (g *gen) fieldval() *big.Int {
	return new(big.Int).Add(g.below(new(big.Int).Sub(ref.P, bi(1))), bi(1))
}

func genC01(g *gen) caseC01 {
	c := caseC01{A: g.pointI()}
	if g.flag() {
		c.B = g.rel(c.A)
	} else {
		c.B = g.pointI()
	}
	if g.oneIn(4) {
		for i := g.pick(6); i > 0; i-- {
			c.List = append(c.List, g.pointI())
			if g.flag() {
				c.List = append(c.List, g.rel(c.List[len(c.List)-1]))
			}
		}
	}
	c.Bit = g.pick(512)
	g.zcoords(&c)
	return c
}

func expect(name string, got zk.ECPoint, want ref.Pt) error {
	if got.X == nil || got.Y == nil {
		return bad("%s returned a nil coordinate, want %v", name, want)
	}
	if !rp(got).Eq(want) {
		return bad("%s = %v, want %v", name, rp(got), want)
	}
	return nil
}

func xy(x, y *big.Int) zk.ECPoint { return zk.ECPoint{X: x, Y: y} }

func first(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

func checkC01(c caseC01, r *Rec) error {
	cv, z := btcec.S256(), zk.TestCurve
	a, b := c.A, c.B
	if p := cv.Params(); p.P.Cmp(ref.P) != 0 || p.N.Cmp(ref.N) != 0 || p.B.Cmp(bi(7)) != 0 || p.Gx.Cmp(ref.G.X) != 0 || p.Gy.Cmp(ref.G.Y) != 0 ||
		p.BitSize != 256 || cv.H != 1 || cv.QPlus1Div4().Cmp(new(big.Int).Rsh(new(big.Int).Add(ref.P, bi(1)), 2)) != 0 {
		return bad("the curve parameters are not those of secp256k1: %+v cofactor %d", p, cv.H)
	}
	if jacobian != nil && len(c.Z) > 1 {
		if e := jacobian(c, r); e != nil {
			return e
		}
	}
	switch {
	case a.IsInf() && b.IsInf():
		r.Class("inf+inf")
	case a.IsInf() || b.IsInf():
		r.Class("inf+P")
	case a.Eq(b):
		r.Class("P+P")
		r.NT()
	case a.Eq(ref.Neg(b)):
		r.Class("P-P")
		r.NT()
	case a.Y.Cmp(b.Y) == 0:
		r.Class("same y")
		r.NT()
	default:
		r.Class("generic")
		r.NT()
	}
	if a.X.BitLen() <= 240 || a.Y.BitLen() <= 240 {
		r.Class("short coordinate")
	}
	sum, diff := ref.Add(a, b), ref.Sub(a, b)
	if e := first(
		expect("Add(A,B)", z.Add(zp(a), zp(b)), sum),
		expect("Add(B,A)", z.Add(zp(b), zp(a)), sum),
		expect("Sub(A,B)", z.Sub(zp(a), zp(b)), diff),
		expect("Sub(B,A)", z.Sub(zp(b), zp(a)), ref.Neg(diff)),
		expect("Neg(A)", z.Neg(zp(a)), ref.Neg(a)),
		expect("C.Add(A,B)", xy(cv.Add(cp(a.X), cp(a.Y), cp(b.X), cp(b.Y))), sum),
		expect("C.Double(A)", xy(cv.Double(cp(a.X), cp(a.Y))), ref.Add(a, a)),
		expect("A+B-B", z.Sub(z.Add(zp(a), zp(b)), zp(b)), a),
	); e != nil {
		return e
	}
	// identical objects as both arguments
	same := zp(a)
	if e := first(expect("Add(A,A) of one object", z.Add(same, same), ref.Add(a, a)),
		expect("Sub(A,A) of one object", z.Sub(same, same), ref.Inf())); e != nil {
		return e
	}
	acc, want := zk.Zero, ref.Inf()
	for _, p := range c.List {
		acc = z.Add(acc, zp(p))
		want = ref.Add(want, p)
	}
	if e := expect("sum of the list", acc, want); e != nil {
		return e
	}
	if !a.IsInf() && !cv.IsOnCurve(cp(a.X), cp(a.Y)) {
		return bad("IsOnCurve false for the point %v", a)
	}
	q := a.Copy()
	if c.Bit < 256 {
		q.X.SetBit(q.X, c.Bit, q.X.Bit(c.Bit)^1)
	} else {
		q.Y.SetBit(q.Y, c.Bit-256, q.Y.Bit(c.Bit-256)^1)
	}
	if q.Canonical() {
		if got, want := cv.IsOnCurve(cp(q.X), cp(q.Y)), ref.OnCurve(q.X, q.Y); got != want {
			return bad("IsOnCurve(%v) = %v, want %v", q, got, want)
		}
	}
	return nil
}

// ---- C02 ----

type caseC02 struct {
	P   ref.Pt
	K   *big.Int
	Pad int // leading zero bytes for the byte-string entry points
}

func genC02(g *gen) caseC02 {
	c := caseC02{P: g.pointI(), K: g.anyInt(true)}
	if g.oneIn(3) {
		c.Pad = g.pick(40)
	}
	return c
}

// every entry of both tables, every power of two
func enumC02() []caseC02 {
	var cs []caseC02
	for i := 0; i < 32; i++ {
		for b := int64(1); b < 256; b++ {
			k := new(big.Int).Lsh(bi(b), uint(8*i))
			cs = append(cs, caseC02{P: ref.G, K: k}, caseC02{P: ref.H, K: k})
		}
	}
	for i := 0; i < 260; i++ {
		cs = append(cs, caseC02{P: ref.Mul(ref.G, bi(7)), K: pow2(i)}, caseC02{P: ref.Mul(ref.G, bi(11)), K: new(big.Int).Neg(pow2(i))})
	}
	// around N, where the scalar is not reduced if it fits into 32 bytes
	for _, p := range []ref.Pt{ref.G, ref.H, ref.Mul(ref.G, bi(7))} {
		for d := int64(-40); d < 560; d++ {
			if d > 40 && (d&0xff < 0x70 || !p.Eq(ref.G) && !p.Eq(ref.H)) {
				continue
			}
			cs = append(cs, caseC02{P: p, K: new(big.Int).Add(ref.N, bi(d))})
		}
	}
	return cs
}

func checkC02(c caseC02, r *Rec) error {
	cv, z := btcec.S256(), zk.TestCurve
	want := ref.Mul(c.P, c.K)
	switch {
	case c.P.IsInf():
		r.Class("point: infinity")
	case c.P.Eq(ref.G):
		r.Class("point: G")
	case c.P.Eq(ref.H):
		r.Class("point: H")
	case c.P.Eq(ref.Neg(ref.G)) || c.P.Eq(ref.Neg(ref.H)):
		r.Class("point: -G or -H")
	default:
		r.Class("point: other")
	}
	switch {
	case c.K.Sign() < 0:
		r.Class("scalar: negative")
	case c.K.Cmp(ref.N) >= 0:
		r.Class("scalar: >= N")
	case c.K.BitLen() <= 8:
		r.Class("scalar: tiny")
	case c.K.BitLen() <= 240:
		r.Class("scalar: short")
	default:
		r.Class("scalar: full")
	}
	if c.K.Sign() != 0 && !c.P.IsInf() {
		r.NT()
	}
	if e := first(
		expect("Mult", z.Mult(zp(c.P), cp(c.K)), want),
		expect("CommitR", zk.CommitR(z, zp(c.P), cp(c.K)), want),
	); e != nil {
		return e
	}
	abs := new(big.Int).Abs(c.K)
	kb := append(make([]byte, c.Pad), abs.Bytes()...)
	wabs := ref.Mul(c.P, abs)
	if c.K.Sign() < 0 {
		if e := expect("-Mult", z.Neg(z.Mult(zp(c.P), cp(c.K))), wabs); e != nil {
			return e
		}
	}
	keep := append([]byte{}, kb...)
	if e := expect("C.ScalarMult", xy(cv.ScalarMult(cp(c.P.X), cp(c.P.Y), kb)), wabs); e != nil {
		return e
	}
	if e := first(
		expect("C.ScalarBaseMult", xy(cv.ScalarBaseMult(kb)), ref.Mul(ref.G, abs)),
		expect("C.ScalarBaseMultH", xy(cv.ScalarBaseMultH(kb)), ref.Mul(ref.H, abs)),
	); e != nil {
		return e
	}
	if !bytes.Equal(kb, keep) {
		return bad("the scalar's bytes were changed")
	}
	pos, neg := btcec.NAF(kb)
	d := new(big.Int).Sub(new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg))
	if d.Cmp(abs) != 0 {
		return bad("NAF(%x): %x - %x is not the input", kb, pos, neg)
	}
	// No two digits next to each other: digit i is not zero where k and 3k differ in bit i+1.
	k3 := new(big.Int).Mul(abs, bi(3))
	if nz := new(big.Int).Rsh(k3.Xor(k3, abs), 1); nz.Cmp(new(big.Int).Or(new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg))) != 0 {
		return bad("NAF(%x): the digits %x, -%x are not the non-adjacent form", kb, pos, neg)
	}
	return nil
}

// ---- C04 ----

type caseC04 struct {
	A, B ref.Pt
}

func genC04(g *gen) caseC04 {
	c := caseC04{A: g.pointI()}
	if g.oneIn(4) { // any numbers
		c.A = ref.Pt{X: g.anyInt(true), Y: g.anyInt(true)}
	}
	switch g.pick(8) {
	case 0, 1:
		if c.A.Canonical() && ref.OnCurve(c.A.X, c.A.Y) {
			c.B = g.rel(c.A)
			break
		}
		c.B = ref.Pt{X: cp(c.A.X), Y: cp(c.A.Y)}
	case 6, 7: // numbers that are equivalent in some sense
		c.B = c.A.Copy()
		if w := g.pick(3); w != 0 {
			c.B.X = g.congruent(c.A.X)
		} else {
			c.B.Y = g.congruent(c.A.Y)
		}
		if g.oneIn(3) {
			c.B.Y = g.congruent(c.A.Y)
		}
	case 2:
		c.B = g.pointI()
	case 3: // one bit of one coordinate
		c.B = c.A.Copy()
		v := c.B.X
		if g.flag() {
			v = c.B.Y
		}
		i := g.pick(256)
		v.Xor(v, pow2(i))
	case 4: // swapped
		c.B = ref.Pt{X: cp(c.A.Y), Y: cp(c.A.X)}
	case 5: // one coordinate of another point
		c.B = g.pointI()
		if g.flag() {
			c.B.X = cp(c.A.X)
		} else {
			c.B.Y = cp(c.A.Y)
		}
	}
	return c
}

func checkC04(c caseC04, r *Rec) error {
	sx, sy := c.A.X.Cmp(c.B.X) == 0, c.A.Y.Cmp(c.B.Y) == 0
	want := sx && sy
	r.Class("same x: %v, same y: %v", sx, sy)
	if sx || sy {
		r.NT()
	}
	if got := zp(c.A).Equal(zp(c.B)); got != want {
		return bad("ECPoint.Equal(%v, %v) = %v", c.A, c.B, got)
	}
	if got := zp(c.B).Equal(zp(c.A)); got != want {
		return bad("ECPoint.Equal(%v, %v) = %v", c.B, c.A, got)
	}
	// Points that share numbers, or only their values.
	one := map[string]*big.Int{}
	num := func(v *big.Int) *big.Int {
		if one[v.String()] == nil {
			one[v.String()] = cp(v)
		}
		return one[v.String()]
	}
	sh := func(p ref.Pt) zk.ECPoint { return zk.ECPoint{X: num(p.X), Y: num(p.Y)} }
	if sh(c.A).Equal(sh(c.B)) != want || sh(c.B).Equal(sh(c.A)) != want {
		return bad("ECPoint.Equal(%v, %v) is not %v where equal coordinates are one object", c.A, c.B, want)
	}
	if a := sh(c.A); !a.Equal(a) || !a.Equal(zp(c.A)) {
		return bad("%v is not equal to itself", c.A)
	}
	for _, eq := range [](func() bool){
		func() bool {
			return (&btcec.PublicKey{Curve: btcec.S256(), X: num(c.A.X), Y: num(c.A.Y)}).IsEqual(&btcec.PublicKey{Curve: btcec.S256(), X: num(c.B.X), Y: num(c.B.Y)})
		},
		func() bool {
			return (&btcec.Signature{R: num(c.A.X), S: num(c.A.Y)}).IsEqual(&btcec.Signature{R: num(c.B.X), S: num(c.B.Y)})
		},
	} {
		if eq() != want {
			return bad("IsEqual(%v, %v) of keys or signatures is not %v where equal numbers are one object", c.A, c.B, want)
		}
	}
	pk := func(p ref.Pt) *btcec.PublicKey {
		return &btcec.PublicKey{Curve: btcec.S256(), X: cp(p.X), Y: cp(p.Y)}
	}
	if pk(c.A).IsEqual(pk(c.B)) != want || pk(c.B).IsEqual(pk(c.A)) != want {
		return bad("PublicKey.IsEqual(%v, %v) is not %v", c.A, c.B, want)
	}
	sg := func(p ref.Pt) *btcec.Signature { return &btcec.Signature{R: cp(p.X), S: cp(p.Y)} }
	if sg(c.A).IsEqual(sg(c.B)) != want || sg(c.B).IsEqual(sg(c.A)) != want {
		return bad("Signature.IsEqual(%v, %v) is not %v", c.A, c.B, want)
	}
	return nil
}

// ---- C05 ----

type caseC05 struct {
	V, R, V2, R2, K *big.Int
	DV, DR          *big.Int // candidate opening (V+DV, R+DR)
	Rnd             Rnd
	Attack          string // guesses of the logarithm of H
}

func genC05(g *gen) caseC05 {
	c := caseC05{V: g.anyInt(true), R: g.anyInt(true), V2: g.anyInt(true), R2: g.anyInt(true), K: g.anyInt(true), Rnd: g.rnd()}
	d := func() *big.Int {
		switch g.pick(6) {
		case 0:
			return bi(0)
		case 1:
			return new(big.Int).Mul(ref.N, bi(int64(g.pick(5)-2)))
		case 2:
			return bi(int64(g.pick(5) - 2))
		case 3:
			return pow2(g.pick(300))
		}
		return g.anyInt(true)
	}
	c.DV, c.DR = d(), d()
	if g.oneIn(6) { // the same opening with signs turned, or exchanged
		c.DV = new(big.Int).Sub(c.R, c.V)
		c.DR = new(big.Int).Sub(c.V, c.R)
	}
	if g.oneIn(10) {
		c.DV = new(big.Int).Mul(c.V, bi(-2))
	}
	return c
}

func enumC05() []caseC05 {
	z := func() *big.Int { return bi(0) }
	mk := func(a string) caseC05 {
		return caseC05{V: z(), R: z(), V2: z(), R2: z(), K: z(), DV: z(), DR: z(), Attack: a}
	}
	return []caseC05{mk("strings"), mk("hashes of points"), mk("small")}
}

// checkAttack tries to open a commitment to another value: whoever knows h
// with H = hG opens (v, r) as (v+h, r-1).
func checkAttack(kind string) error {
	z := zk.TestCurve
	v, rr := bi(5), bi(9)
	cm := zk.PedCommitR(z, cp(v), cp(rr))
	try := func(h *big.Int) error {
		v2 := ref.ModN(new(big.Int).Add(v, h))
		if v2.Cmp(v) != 0 && zk.Open(z, v2, bi(8), cm) {
			return bad("H is %v times G, which anybody can compute: the commitment to 5 with blinding 9 also opens to %v with blinding 8", h, v2)
		}
		return nil
	}
	digest := func(b []byte) []byte { d := sha256.Sum256(b); return d[:] }
	both := func(b []byte) error {
		d := digest(b)
		for _, x := range [][]byte{b, d, digest(d), append(append([]byte{}, b...), digest(nil)...), append(digest(nil), b...)} {
			k := new(big.Int).SetBytes(x)
			if e := first(try(k), try(new(big.Int).Neg(k))); e != nil {
				return e
			}
			if inv := new(big.Int).ModInverse(ref.ModN(k), ref.N); inv != nil {
				if e := try(inv); e != nil {
					return e
				}
			}
		}
		return nil
	}
	switch kind {
	case "strings":
		for _, s := range []string{"", "H", "G", "h", "zksigma", "zkSigma", "zkLedger", "ZKLedger", "secp256k1", "generator", "H generator", "mit-dci", "random",
			"This is the new random point in zksigma", "This is the random point in zksigma", "This is the new random point in zkSigma"} {
			if e := both([]byte(s)); e != nil {
				return e
			}
		}
	case "hashes of points":
		x, y := ref.G.X.Bytes(), ref.G.Y.Bytes()
		for i := int64(0); i < 10; i++ {
			if e := both(new(big.Int).Add(ref.G.X, bi(i)).Bytes()); e != nil {
				return e
			}
			if e := both(new(big.Int).Add(ref.G.Y, bi(i)).Bytes()); e != nil {
				return e
			}
		}
		for _, b := range [][]byte{ref.G.Bytes(), append([]byte{2}, x...), append([]byte{3}, x...), append(append([]byte{4}, x...), y...), ref.H.X.Bytes(), ref.N.Bytes(), ref.P.Bytes(), ref.Lambda.Bytes(), ref.Beta.Bytes()} {
			if e := both(b); e != nil {
				return e
			}
		}
	case "small":
		for i := int64(1); i < 3000; i++ {
			if e := first(try(bi(i)), try(bi(-i))); e != nil {
				return e
			}
		}
		for i := 0; i < 256; i++ {
			for d := int64(-1); d < 2; d++ {
				if e := try(new(big.Int).Add(pow2(i), bi(d))); e != nil {
					return e
				}
			}
		}
	}
	return nil
}

// stdParams: the shared parameters are the curve's base point, the hashed
// generator and the base point times all powers of two below 2^64.
func stdParams(z zk.ZKPCurveParams) error {
	if e := first(expect("TestCurve.G", z.G, ref.G), expect("TestCurve.H", z.H, ref.H)); e != nil {
		return e
	}
	if len(z.HPoints) != 64 {
		return bad("TestCurve has %d bit generators", len(z.HPoints))
	}
	for i, p := range z.HPoints {
		if e := expect("TestCurve.HPoints["+itoa(i)+"]", p, ref.Std.Bits[i]); e != nil {
			return e
		}
	}
	return nil
}

func checkC05(c caseC05, r *Rec) error {
	z := zk.TestCurve
	if c.Attack != "" {
		r.Class("second opening by guessing the logarithm of H")
		return checkAttack(c.Attack)
	}
	if c.V.Sign() < 0 || c.V.Cmp(ref.N) >= 0 || c.R.Sign() < 0 || c.R.Cmp(ref.N) >= 0 {
		r.Class("value or blinding outside [0,N)")
	}
	if ref.ModN(c.V).Sign() == 0 || ref.ModN(c.R).Sign() == 0 {
		r.Class("zero value or blinding")
	}
	r.NT()
	if e := stdParams(z); e != nil {
		return e
	}
	want := ref.Std.Commit(c.V, c.R)
	want2 := ref.Std.Commit(c.V2, c.R2)
	cm := zk.PedCommitR(z, cp(c.V), cp(c.R))
	cm2 := zk.PedCommitR(z, cp(c.V2), cp(c.R2))
	if e := first(expect("PedCommitR", cm, want), expect("PedCommitR", cm2, want2)); e != nil {
		return e
	}
	if !zk.Open(z, cp(c.V), cp(c.R), zp(want)) {
		return bad("Open rejects the commitment's own opening")
	}
	// homomorphism
	sv, sr := new(big.Int).Add(c.V, c.V2), new(big.Int).Add(c.R, c.R2)
	dv, dr := new(big.Int).Sub(c.V, c.V2), new(big.Int).Sub(c.R, c.R2)
	kv, kr := new(big.Int).Mul(c.V, c.K), new(big.Int).Mul(c.R, c.K)
	if !zk.Open(z, sv, sr, z.Add(cm, cm2)) {
		return bad("the sum of two commitments does not open to the sums")
	}
	if !zk.Open(z, dv, dr, z.Sub(cm, cm2)) {
		return bad("the difference of two commitments does not open to the differences")
	}
	if !zk.Open(z, kv, kr, z.Mult(cm, cp(c.K))) {
		return bad("a multiple of a commitment does not open to the multiples")
	}
	// other openings
	v3, r3 := new(big.Int).Add(c.V, c.DV), new(big.Int).Add(c.R, c.DR)
	should := ref.Std.Commit(v3, r3).Eq(want)
	if should {
		r.Class("candidate opening: right")
	} else {
		r.Class("candidate opening: wrong")
	}
	if got := zk.Open(z, cp(v3), cp(r3), zp(want)); got != should {
		return bad("Open(%v, %v) of the commitment to (%v, %v) = %v", v3, r3, c.V, c.R, got)
	}
	// for other points that are close to the commitment
	for _, q := range []ref.Pt{ref.Neg(want), ref.Mul(want, ref.Lambda), ref.Inf(), want2} {
		if got := zk.Open(z, cp(c.V), cp(c.R), zp(q)); got != q.Eq(want) {
			return bad("Open(%v, %v) of %v = %v", c.V, c.R, q, got)
		}
	}
	var e error
	c.Rnd.with(func() {
		pc, rr, err := zk.PedCommit(z, cp(c.V))
		if err != nil {
			e = bad("PedCommit: %v", err)
			return
		}
		if !reduced(rr) {
			e = bad("PedCommit's blinding %v is not below N", rr)
			return
		}
		e = expect("PedCommit", pc, ref.Std.Commit(c.V, rr))
		if e == nil && !zk.Open(z, cp(c.V), cp(rr), pc) {
			e = bad("Open rejects what PedCommit returned")
		}
	})
	return e
}

// ---- C06 ----

type caseC06 struct {
	Base ref.Pt
	PK   ref.Pt
	R    *big.Int
	Tok  ref.Pt // candidate token
	R2   *big.Int
	N    int // keys to generate
	Rnd  Rnd
}

func genC06(g *gen) caseC06 {
	c := caseC06{Base: g.point(), PK: g.pointI(), R: g.anyInt(true), R2: g.anyInt(true), N: 1 + g.pick(3)}
	c.Rnd = Rnd{Seed: g.seed()}
	right := ref.Mul(c.PK, c.R)
	if g.flag() {
		c.Tok = g.differ(right)
	} else {
		c.Tok = right
	}
	if g.oneIn(3) {
		c.R2 = new(big.Int).Add(c.R, new(big.Int).Mul(ref.N, bi(int64(g.pick(5)-2))))
	}
	return c
}

func checkC06(c caseC06, r *Rec) error {
	z := zk.TestCurve
	right := ref.Mul(c.PK, c.R)
	if e := expect("CommitR", zk.CommitR(z, zp(c.PK), cp(c.R)), right); e != nil {
		return e
	}
	r.NT()
	r.Class("candidate right: %v", c.Tok.Eq(right))
	if got := zk.VerifyR(z, zp(c.Tok), zp(c.PK), cp(c.R)); got != c.Tok.Eq(right) {
		return bad("VerifyR of token %v for r=%v pk=%v is %v", c.Tok, c.R, c.PK, got)
	}
	if got, want := zk.VerifyR(z, zp(right), zp(c.PK), cp(c.R2)), ref.Mul(c.PK, c.R2).Eq(right); got != want {
		return bad("VerifyR of the token of %v for r=%v is %v", c.R, c.R2, got)
	}
	for _, pk := range []ref.Pt{ref.Neg(c.PK), ref.Mul(c.PK, ref.Lambda), ref.Add(c.PK, ref.G)} {
		if got, want := zk.VerifyR(z, zp(right), zp(pk), cp(c.R)), ref.Mul(pk, c.R).Eq(right); got != want {
			return bad("VerifyR under another key is %v, want %v", got, want)
		}
	}
	var e error
	c.Rnd.with(func() {
		seen := map[string]bool{}
		for i := 0; i < c.N && e == nil; i++ {
			pk, sk := zk.KeyGen(z.C, zp(c.Base))
			if !reduced(sk) {
				e = bad("secret key %v is not below N", sk)
				return
			}
			if seen[sk.String()] {
				e = bad("two calls of KeyGen gave the same key")
				return
			}
			seen[sk.String()] = true
			e = expect("public key", pk, ref.Mul(c.Base, sk))
		}
	})
	return e
}

// ---- C07 ----

type caseC07 struct {
	Parts []Hex
	P     ref.Pt
	Cut   int
}

func genC07(g *gen) caseC07 {
	c := caseC07{P: g.pointI()}
	if g.mem != nil && len(g.mem.parts) > 0 && g.flag() { // an earlier list, a little changed
		for _, p := range g.mem.parts[g.pick(len(g.mem.parts))] {
			c.Parts = append(c.Parts, append(Hex{}, p...))
		}
		n := len(c.Parts)
		for i := 1 + g.pick(2); i > 0 && n > 0; i-- {
			a, b := g.pick(n), g.pick(n)
			switch g.pick(5) {
			case 0, 1:
				if p := c.Parts[a]; len(p) > 0 {
					p[g.pick(len(p))] ^= 1 << g.pick(8)
				}
			case 2:
				c.Parts[a], c.Parts[b] = c.Parts[b], c.Parts[a]
			case 3: // moved over a boundary
				if p := c.Parts[a]; len(p) > 0 && a != b {
					c.Parts[b] = append(c.Parts[b], p[len(p)-1])
					c.Parts[a] = p[:len(p)-1]
				}
			case 4:
				c.Parts[a] = append(c.Parts[a], 0)
			}
		}
		c.Cut = g.pick(1000)
		g.mem.parts = append(g.mem.parts, c.Parts)
		return c
	}
	for i := g.pick(9); i > 0; i-- {
		n := 0
		switch g.pick(4) {
		case 1:
			n = g.pick(70)
		case 2:
			n = []int{31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 128}[g.pick(12)]
		case 3:
			n = g.pick(1000)
			if g.oneIn(30) { // around the sizes of buffers
				n = (1+g.pick(3))<<uint(8+g.pick(7)) + g.pick(3) - 1
			}
		}
		c.Parts = append(c.Parts, g.blob(n))
	}
	if g.oneIn(100) { // very many, or very long
		n, m := g.pick(300), 4
		if g.flag() {
			n, m = 3, 30000
		}
		for i := 0; i < n; i++ {
			c.Parts = append(c.Parts, g.bytes(g.pick(m)))
		}
	}
	c.Cut = g.pick(1000)
	if g.mem != nil {
		g.mem.parts = append(g.mem.parts, c.Parts)
	}
	return c
}

// oneArray lays the parts out in one array, in an order of its own, so that
// whoever appends to one of them writes over another.
func oneArray(c caseC07, want *big.Int) error {
	n := len(c.Parts)
	if n == 0 {
		return nil
	}
	var arr []byte
	at := make([]int, n)
	for i := 0; i < n; i++ {
		k := (i*(1+2*(c.Cut%4)) + c.Cut) % n // perhaps some twice, perhaps some never
		if at[k] == 0 {
			at[k] = len(arr) + 1
			arr = append(arr, c.Parts[k]...)
		}
	}
	for k := range at {
		if at[k] == 0 {
			at[k] = len(arr) + 1
			arr = append(arr, c.Parts[k]...)
		}
	}
	arr = append(arr, make([]byte, c.Cut%200)...)
	keep := append([]byte{}, arr...)
	in := make([][]byte, n)
	for k := range in {
		in[k] = arr[at[k]-1 : at[k]-1+len(c.Parts[k])]
	}
	inKeep := append([][]byte{}, in...)
	for i := 0; i < 2; i++ {
		if got := zk.GenerateChallenge(zk.TestCurve, in...); got.Cmp(want) != 0 {
			return bad("GenerateChallenge of parts that lie in one array = %v, want %v", got, want)
		}
		if !bytes.Equal(arr, keep) {
			return bad("GenerateChallenge wrote behind one of its arguments")
		}
		for k := range in {
			if len(in[k]) != len(inKeep[k]) || (len(in[k]) > 0 && &in[k][0] != &inKeep[k][0]) {
				return bad("GenerateChallenge changed the list of its arguments")
			}
		}
	}
	return nil
}

func upTo(n, max int) string {
	if n > max {
		return "more"
	}
	return string(rune('0' + n))
}

// enumC07: inputs whose digest begins with three or four zero or 0xff bytes, or
// ends with them (found by search).
func enumC07() []caseC07 {
	var cs []caseC07
	for i, h := range []string{"037a6b003d3f031b00000000", "007a6b00a3c2de3000000000", "017a6b00ef6b6d3100000000", "007a6b00e3af245b00000000",
		"017a6b00436a0e6100000000", "037a6b00bab8af6700000000", "6d7a7c21770000000000", "6d7a0aadb90000000000", "6d7a01ded80000000000", "6d7a55853b0200000000", "6d7aad98b60100000000"} {
		b, err := hex.DecodeString(h)
		if err != nil {
			panic(err)
		}
		cs = append(cs, caseC07{Parts: []Hex{b}, P: ref.Mul(ref.G, bi(int64(1+i))), Cut: 3 * i}, caseC07{Parts: []Hex{b[:4], nil, b[4:]}, P: ref.H, Cut: i})
	}
	return cs
}

func checkC07(c caseC07, r *Rec) error {
	z := zk.TestCurve
	h := sha256.New()
	var all []byte
	defer func() { r.Class("%s parts", upTo(len(c.Parts), 8)) }()
	var in [][]byte
	for _, p := range c.Parts {
		h.Write(p)
		all = append(all, p...)
		in = append(in, append([]byte{}, p...))
	}
	if len(all) > 0 {
		r.NT()
	}
	digest := new(big.Int).SetBytes(h.Sum(nil))
	want := ref.ModN(digest)
	if got := zk.GenerateChallenge(z, in...); got.Cmp(want) != 0 {
		return bad("GenerateChallenge = %v, want %v", got, want)
	}
	// The order is that of the parameters' curve.
	for _, name := range curveNames {
		cv := otherCurves[name]
		w := new(big.Int).Mod(digest, cv.Params().N)
		if got := zk.GenerateChallenge(zk.ZKPCurveParams{C: cv}, in...); got.Cmp(w) != 0 {
			return bad("GenerateChallenge on %s = %v, want %v", name, got, w)
		}
	}
	for i := range in {
		if !bytes.Equal(in[i], c.Parts[i]) {
			return bad("GenerateChallenge changed its argument %d", i)
		}
	}
	// All parts cut from one array, with room behind each.
	if e := oneArray(c, want); e != nil {
		return e
	}
	k := 0
	if len(all) > 0 {
		k = c.Cut % (len(all) + 1)
	}
	if got := zk.GenerateChallenge(z, all[:k], nil, all[k:]); got.Cmp(want) != 0 {
		return bad("the challenge depends on how the transcript is split")
	}
	p := zp(c.P)
	b := p.Bytes()
	if !bytes.Equal(b, c.P.Bytes()) {
		return bad("Bytes of %v is %x, want %x", c.P, b, c.P.Bytes())
	}
	for i := range b {
		b[i] ^= 0xff
	}
	if !rp(p).Eq(c.P) || !bytes.Equal(p.Bytes(), c.P.Bytes()) {
		return bad("Bytes of %v shares memory with the point", c.P)
	}
	return nil
}

func init() {
	reg("C01", "pairs and lists of curve points (random, generators, short coordinates, infinity, and points related to the first one); non-trivial: neither point is infinity", 18000, 150000, genC01, checkC01, cross,
		assume("points are canonical: coordinates in [0,P)"))
	reg("C02", "a point times an integer through every entry point, plus all 2x32x255 table windows and all powers of two; non-trivial: point not infinity and scalar not zero", 6000, 110000, genC02, checkC02, enum(enumC02), cross)
	reg("C04", "pairs of points, keys and signatures made to agree in one coordinate or almost; non-trivial: at least one coordinate agrees", 40000, 400000, genC04, checkC04, cross)
	reg("C05", "two commitments, a multiplier and a candidate opening with structured differences; every case exercises the homomorphism", 4000, 40000, genC05, checkC05, enum(enumC05), cross)
	reg("C06", "a key, an integer, candidate tokens that match or are related to the right one, and generated keys; every case counts", 3000, 60000, genC06, checkC06, cross)
	reg("C07", "lists of 0 to 8 (one in a hundred: up to 300, or up to 90 kB) byte strings around SHA-256 block boundaries, and points; non-trivial: the transcript is not empty", 60000, 600000, genC07, checkC07, enum(enumC07), seq)
}
