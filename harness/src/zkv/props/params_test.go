package props

import (
	"crypto/elliptic"
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

// ---- C30: other generators, other curves ----

type c30 struct {
	Curve string // "" is secp256k1
	Label string
	G, H  ref.Pt
	W     Wit
	V, R  *big.Int
	P     ref.Pt
	Rnd   Rnd
	Seed  uint64 // other curves: everything is drawn from it
	Bits  int    // how many bit generators
}

var otherCurves = map[string]elliptic.Curve{"P-256": elliptic.P256(), "P-224": elliptic.P224(), "P-384": elliptic.P384(), "P-521": elliptic.P521()}

var curveNames = []string{"P-224", "P-256", "P-384", "P-521"}

func (g *gen) params() (label string, a, b ref.Pt) {
	x, y := g.point(), g.point()
	switch g.pick(9) {
	case 0:
		return "random", x, y
	case 1:
		return "own G, standard H", x, ref.H.Copy()
	case 2:
		return "standard G, own H", ref.G.Copy(), y
	case 3:
		return "exchanged", ref.H.Copy(), ref.G.Copy()
	case 4:
		return "negated H", ref.G.Copy(), ref.Neg(ref.H)
	case 5:
		return "negated G", ref.Neg(ref.G), ref.H.Copy()
	case 6: // same y as a standard generator
		return "endomorphism", ref.Mul(ref.G, ref.Lambda), ref.Mul(ref.H, ref.Lambda)
	case 7:
		return "multiple of G as H", ref.G.Copy(), ref.Mul(ref.G, g.nzscalar())
	}
	return "related", x, g.rel(x)
}

func genC30(g *gen) c30 {
	c := c30{V: g.anyInt(true), R: g.anyInt(true), Rnd: g.rnd(), P: g.point(), Seed: g.seed()}
	kind := allKinds[g.weighted(10, 10, 10, 10, 8, 8, 3)]
	if g.oneIn(6) {
		c.Curve = []string{"P-256", "P-224", "P-384", "P-521"}[g.weighted(5, 2, 1, 1)]
		c.W.Kind = kind
		c.Label = "other curve"
		return c
	}
	c.Label, c.G, c.H = g.params()
	if c.H.IsInf() {
		c.H = ref.G.Copy()
	}
	c.W = g.witness(kind, ref.MakeParams(c.G, c.H))
	c.Bits = 64
	if g.oneIn(4) {
		c.Bits = []int{0, 1, 39, 40, 41, 63, 65, 100, 128}[g.pick(9)]
		if c.Bits < 40 && kind == kR {
			c.Bits = 40
		}
	}
	return c
}

// bitsTo changes the number of bit generators; range proofs need 40.
func bitsTo(pr ref.Params, n int) ref.Params {
	b := append([]ref.Pt{}, pr.Bits...)
	for len(b) < n {
		b = append(b, ref.Add(b[len(b)-1], b[len(b)-1]))
	}
	pr.Bits = b[:n]
	return pr
}

// enumC30 takes every curve with every proof type.
func enumC30() []c30 {
	var r []c30
	for _, cv := range []string{"P-256", "P-224", "P-384", "P-521"} {
		for _, k := range allKinds {
			for s := uint64(0); s < 4; s++ {
				if k == kR && s > 1 {
					continue
				}
				r = append(r, c30{Curve: cv, Label: "enumerated", W: Wit{Kind: k}, Seed: s, Rnd: Rnd{Seed: s}})
			}
		}
	}
	return r
}

func checkC30(c c30, r *Rec) error {
	r.Class("%s %s", c.Curve, c.Label)
	r.Class("%s", c.W.Kind)
	r.NT()
	if c.Curve != "" {
		return checkCurve(c)
	}
	pr := bitsTo(ref.MakeParams(c.G, c.H), c.Bits)
	if c.Bits != 64 {
		r.Class("number of bit generators other than 64")
	}
	z := zcurve(pr)
	before, std := snap(z), snapGlobals()
	var stdErr error
	c.Rnd.with(func() { stdErr = stdWorks(c) })
	if stdErr != nil {
		return stdErr
	}
	// Commitments and tokens.
	if got, want := zk.PedCommitR(z, cp(c.V), cp(c.R)), pr.Commit(c.V, c.R); !rp(got).Eq(want) {
		return bad("PedCommitR with generators %v, %v: %v, want %v", c.G, c.H, rp(got), want)
	}
	if !zk.Open(z, cp(c.V), cp(c.R), zp(pr.Commit(c.V, c.R))) {
		return bad("Open refuses the right opening")
	}
	wrong := ref.Std.Commit(c.V, c.R)
	if !wrong.Eq(pr.Commit(c.V, c.R)) && zk.Open(z, cp(c.V), cp(c.R), zp(wrong)) {
		return bad("Open accepts a commitment made with the standard generators")
	}
	for _, p := range []ref.Pt{c.G, c.H, ref.G, ref.H, c.P, ref.Inf()} {
		if got, want := z.Mult(zp(p), cp(c.V)), ref.Mul(p, c.V); !rp(got).Eq(want) {
			return bad("Mult(%v, %v) with generators %v, %v: %v, want %v", p, c.V, c.G, c.H, rp(got), want)
		}
		if got, want := zk.CommitR(z, zp(p), cp(c.R)), ref.Mul(p, c.R); !rp(got).Eq(want) {
			return bad("CommitR(%v, %v): %v, want %v", p, c.R, rp(got), want)
		}
	}
	var l lib
	var blind *big.Int
	var err error
	var cm zk.ECPoint
	var rr *big.Int
	c.Rnd.with(func() {
		cm, rr, err = zk.PedCommit(z, cp(c.V))
		if err == nil {
			l, blind, err = libProve(z, c.W)
		}
	})
	if err != nil {
		return bad("%s with generators %v, %v: %v", c.W.Kind, c.G, c.H, err)
	}
	if !reduced(rr) || !rp(cm).Eq(pr.Commit(c.V, rr)) {
		return bad("PedCommit with generators %v, %v returns %v for value %v, blinding %v", c.G, c.H, rp(cm), c.V, rr)
	}
	pts := c.W.Pts
	if c.W.Kind == kR {
		pts = []ref.Pt{pr.Commit(c.W.W[0], blind)}
	}
	if ok, err := libVerify(z, l, pts); !ok {
		return bad("an honest %s proof with generators %v, %v does not verify: %v", c.W.Kind, c.G, c.H, err)
	}
	p, err := view(l)
	if err != nil {
		return err
	}
	if !refVerify(c.W.Kind, pr, pts, p) {
		return bad("an honest %s proof with generators %v, %v fails the documented equations", c.W.Kind, c.G, c.H)
	}
	// The proof after a round trip, and under other parameters.
	if q, err := libDec(c.W.Kind, l.Bytes()); err != nil {
		return bad("decoding: %v", err)
	} else if ok, err := libVerify(z, q, pts); !ok {
		return bad("a decoded %s proof does not verify: %v", c.W.Kind, err)
	}
	for _, o := range []ref.Params{ref.Std, ref.MakeParams(c.H, c.G), ref.MakeParams(c.G, ref.Neg(c.H)), ref.MakeParams(c.P, c.H)} {
		o = bitsTo(o, c.Bits)
		want := refVerify(c.W.Kind, o, pts, p)
		got, err := verdict(libVerifyZ(zcurve(o), l, zpts(pts)))
		if err != nil {
			return err
		}
		if got != want {
			return bad("a %s proof made with generators %v, %v: verdict %v with %v, %v, want %v", c.W.Kind, c.G, c.H, got, o.G, o.H, want)
		}
		if c.W.Kind == kR {
			break
		}
	}
	c.Rnd.with(func() { stdErr = stdWorks(c) })
	if stdErr != nil {
		return stdErr
	}
	if s := snap(z); s != before {
		return bad("the parameters changed")
	}
	if s := snapGlobals(); s != std {
		return bad("the standard parameters changed")
	}
	return nil
}

// stdWorks uses the standard parameters between the others.
func stdWorks(c c30) error {
	if got, want := zk.PedCommitR(zk.TestCurve, cp(c.V), cp(c.R)), ref.Std.Commit(c.V, c.R); !rp(got).Eq(want) {
		return bad("PedCommitR with the standard generators: %v, want %v", rp(got), want)
	}
	w := Wit{Kind: kC, W: []*big.Int{c.V, c.R}, Pts: []ref.Pt{ref.Std.Commit(c.V, c.R), ref.Mul(c.P, c.R), c.P}}
	l, _, err := libProve(zk.TestCurve, w)
	if err != nil {
		return bad("a consistency proof with the standard generators: %v", err)
	}
	if ok, err := libVerify(zk.TestCurve, l, w.Pts); !ok {
		return bad("a consistency proof with the standard generators does not verify: %v", err)
	}
	return nil
}

// checkCurve makes commitments and a proof on another curve; the curve's own
// arithmetic is the reference.
func checkCurve(c c30) error {
	cv := otherCurves[c.Curve]
	n := cv.Params().N
	rng := chacha(c.Seed, c.Curve)
	draw := func() *big.Int {
		b := make([]byte, 80)
		rng.Read(b)
		v := new(big.Int).Mod(new(big.Int).SetBytes(b), n)
		switch b[0] % 8 {
		case 0:
			v = bi(int64(b[1] % 4))
		case 1:
			v = new(big.Int).Sub(n, bi(1+int64(b[1]%4)))
		}
		return v
	}
	nz := func() *big.Int {
		for {
			if v := draw(); v.Sign() != 0 {
				return v
			}
		}
	}
	mul := func(p zk.ECPoint, k *big.Int) zk.ECPoint {
		x, y := cv.ScalarMult(p.X, p.Y, new(big.Int).Mod(k, n).Bytes())
		return zk.ECPoint{X: x, Y: y}
	}
	add := func(p, q zk.ECPoint) zk.ECPoint {
		x, y := cv.Add(p.X, p.Y, q.X, q.Y)
		return zk.ECPoint{X: x, Y: y}
	}
	z := zk.ZKPCurveParams{C: cv, G: zk.ECPoint{X: cp(cv.Params().Gx), Y: cp(cv.Params().Gy)}}
	z.H = mul(z.G, nz())
	if c.Seed%2 == 1 { // a generator other than the curve's base point
		z.G = mul(z.G, nz())
	}
	for i := 0; i < 64; i++ {
		z.HPoints = append(z.HPoints, mul(z.G, pow2(i)))
	}
	commit := func(v, r *big.Int) zk.ECPoint { return add(mul(z.G, v), mul(z.H, r)) }
	v, r := draw(), draw()
	if got := zk.PedCommitR(z, cp(v), cp(r)); !rp(got).Eq(rp(commit(v, r))) {
		return bad("%s: PedCommitR(%v, %v) = %v, want %v", c.Curve, v, r, rp(got), rp(commit(v, r)))
	}
	if !zk.Open(z, v, r, commit(v, r)) || zk.Open(z, new(big.Int).Add(v, bi(1)), r, commit(v, r)) {
		return bad("%s: Open", c.Curve)
	}
	fail := func(err error) error { return bad("%s: %s: %v", c.Curve, c.W.Kind, err) }
	sk := nz()
	pk := mul(z.H, sk)
	other := mul(z.G, nz())
	var ok bool
	var err error
	check := func(bad1 func() (bool, error)) error {
		if err != nil || !ok {
			return fail(err)
		}
		if ok2, err2 := bad1(); ok2 || err2 == nil {
			return bad("%s: %s accepts another statement", c.Curve, c.W.Kind)
		}
		return nil
	}
	var res error
	var l lib
	var st []zk.ECPoint
	keep := func(p lib, q ...zk.ECPoint) { l, st = p, q }
	c.Rnd.with(func() {
		switch c.W.Kind {
		case kG:
			var p *zk.GSPFSProof
			a := mul(other, v)
			if p, err = zk.NewGSPFSProofBase(z, other, a, v); err == nil {
				ok, err = p.Verify(z, a)
				keep(p, a)
			}
			res = check(func() (bool, error) { return p.Verify(z, add(a, z.G)) })
		case kE:
			var p *zk.EquivalenceProof
			a, b := mul(z.G, v), mul(other, v)
			if p, err = zk.NewEquivalenceProof(z, z.G, a, other, b, v); err == nil {
				ok, err = p.Verify(z, z.G, a, other, b)
				keep(p, z.G, a, other, b)
			}
			res = check(func() (bool, error) { return p.Verify(z, z.G, a, other, add(b, z.G)) })
		case kC:
			var p *zk.ConsistencyProof
			cm, tok := commit(v, r), mul(pk, r)
			if p, err = zk.NewConsistencyProof(z, cm, tok, pk, v, r); err == nil {
				ok, err = p.Verify(z, cm, tok, pk)
				keep(p, cm, tok, pk)
			}
			res = check(func() (bool, error) { return p.Verify(z, cm, add(tok, z.G), pk) })
		case kD:
			var p *zk.DisjunctiveProof
			a, o := mul(z.G, v), mul(other, nz())
			if p, err = zk.NewDisjunctiveProof(z, other, o, z.G, a, v, zk.Right); err == nil {
				ok, err = p.Verify(z, other, o, z.G, a)
				keep(p, other, o, z.G, a)
			}
			res = check(func() (bool, error) { return p.Verify(z, other, add(o, z.G), z.G, a) })
		case kA:
			var p *zk.ABCProof
			cm, tok := commit(v, r), mul(pk, r)
			side := zk.Right
			if v.Sign() == 0 {
				side = zk.Left
			}
			if p, err = zk.NewABCProof(z, cm, tok, v, sk, side); err == nil {
				ok, err = p.Verify(z, cm, tok)
				keep(p, cm, tok)
			}
			res = check(func() (bool, error) { return p.Verify(z, cm, add(tok, z.G)) })
		case kI:
			var p *zk.InequalityProof
			w, r2 := new(big.Int).Add(v, nz()), draw()
			a, b, ta, tb := commit(v, r), commit(w, r2), mul(pk, r), mul(pk, r2)
			da, dt := z.Sub(a, b), z.Sub(ta, tb)
			if new(big.Int).Mod(new(big.Int).Sub(v, w), n).Sign() == 0 {
				return
			}
			if p, err = zk.NewInequalityProof(z, a, b, ta, tb, v, w, sk); err == nil {
				ok, err = p.Verify(z, da, dt)
				keep(libI{p}, da, dt)
			}
			res = check(func() (bool, error) { return p.Verify(z, add(da, z.G), dt) })
		case kR:
			var p *zk.RangeProof
			var bl *big.Int
			x := new(big.Int).And(draw(), new(big.Int).Sub(pow2(40), bi(1)))
			if p, bl, err = zk.NewRangeProof(z, x); err == nil {
				ok, err = p.Verify(z, commit(x, bl))
				keep(p, commit(x, bl))
			}
			res = check(func() (bool, error) { return p.Verify(z, commit(new(big.Int).Add(x, bi(1)), bl)) })
		}
	})
	if res != nil || l == nil {
		return res
	}
	if (c.W.Kind == kA || c.W.Kind == kI) && cv.Params().BitSize > 256 {
		return nil // their fields are private, and points this long have no encoding
	}
	g := grp{cv: cv, n: n, G: rp(z.G), H: rp(z.H)}
	for _, p := range z.HPoints {
		g.bits = append(g.bits, rp(p))
	}
	pf, e := view(l)
	if e != nil {
		return e
	}
	var q []ref.Pt
	for _, p := range st {
		q = append(q, rp(p))
	}
	if !g.verify(c.W.Kind, q, pf) {
		return bad("%s: an honest %s proof fails the documented equations", c.Curve, c.W.Kind)
	}
	for _, s := range pf.S {
		if s.Sign() < 0 || s.Cmp(n) >= 0 {
			return bad("%s: %s: a published number is not reduced: %v", c.Curve, c.W.Kind, s)
		}
	}
	if cv.Params().BitSize > 256 && c.W.Kind == kR {
		return nil
	}
	if cv.Params().BitSize <= 256 { // the encoding holds numbers of 256 bits
		if d, e := libDec(c.W.Kind, l.Bytes()); e != nil {
			return bad("%s: decoding an honest %s proof: %v", c.Curve, c.W.Kind, e)
		} else if ok, e := libVerify(z, d, q); e != nil || !ok {
			return bad("%s: a decoded %s proof does not verify (%v)", c.Curve, c.W.Kind, e)
		}
	}
	times := 8
	if c.W.Kind == kR {
		times = 2
	}
	for i := 0; i < times; i++ {
		var b [2]byte
		rng.Read(b[:])
		if e := g.attack(c.W.Kind, z, q, pf, int(b[0])<<8|int(b[1]), draw); e != nil {
			return e
		}
	}
	return nil
}

// ---- snapshots ----

// snap writes parameters out.
func snap(z zk.ZKPCurveParams) string {
	s := snapPt(z.G) + snapPt(z.H)
	for _, p := range z.HPoints {
		s += snapPt(p)
	}
	return s
}

func snapInt(v *big.Int) string {
	if v == nil {
		return "nil;"
	}
	return v.Text(62) + ";"
}

func snapPt(p zk.ECPoint) string { return snapInt(p.X) + snapInt(p.Y) }

// snapGlobals writes out everything the packages share.
func snapGlobals() string {
	c := btcec.S256().Params()
	s := snap(zk.TestCurve) + snapPt(zk.Zero) + snapInt(zk.BigZero) +
		snapInt(c.P) + snapInt(c.N) + snapInt(c.B) + snapInt(c.Gx) + snapInt(c.Gy) + c.Name + snapInt(bi(int64(c.BitSize))) +
		snapInt(btcec.S256().QPlus1Div4())
	return s
}

func init() {
	reg("C30", "generators (random, one or both standard, exchanged, negated, endomorphic, multiples of each other) or NIST curves, with a true statement of one proof type, commitments, and the verdict under four other parameter sets; every case counts", 500, 9000, genC30, checkC30, enum(enumC30), seq)
}
