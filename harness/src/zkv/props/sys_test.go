package props

import (
	"fmt"
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
)

// One view of all seven proof systems: a statement is a list of points, a
// proof is a list of points and a list of integers in a fixed order.

type Prf struct {
	P []ref.Pt
	S []*big.Int
}

func (p Prf) clone() Prf {
	var q Prf
	for _, x := range p.P {
		q.P = append(q.P, x.Copy())
	}
	for _, x := range p.S {
		q.S = append(q.S, cp(x))
	}
	return q
}

func clonePts(ps []ref.Pt) []ref.Pt {
	var q []ref.Pt
	for _, p := range ps {
		q = append(q, p.Copy())
	}
	return q
}

// wit is a witness with the statement it belongs to.
type Wit struct {
	Kind string
	Pts  []ref.Pt   // the statement, as Verify takes it
	Base ref.Pt     // GSPFS only
	W    []*big.Int // the secrets: G,E: x. C: v,r. D: x. A: v,ua,sk. I: a,ra,b,rb,sk. R: v
	Side int        // D, A
	Full []ref.Pt   // I: A, B, tokA, tokB
}

const (
	kG = "gspfs"
	kE = "equivalence"
	kC = "consistency"
	kD = "disjunctive"
	kA = "abc"
	kI = "inequality"
	kR = "range"
)

var allKinds = []string{kG, kE, kC, kD, kA, kI, kR}

// ---- conversions ----

func gFrom(p ref.GSPFS) Prf   { return Prf{[]ref.Pt{p.Base, p.T}, []*big.Int{p.S, p.C}} }
func gTo(p Prf) ref.GSPFS     { return ref.GSPFS{Base: p.P[0], T: p.P[1], S: p.S[0], C: p.S[1]} }
func eFrom(p ref.Equiv) Prf   { return Prf{[]ref.Pt{p.T1, p.T2}, []*big.Int{p.C, p.S}} }
func eTo(p Prf) ref.Equiv     { return ref.Equiv{T1: p.P[0], T2: p.P[1], C: p.S[0], S: p.S[1]} }
func cFrom(p ref.Consist) Prf { return Prf{[]ref.Pt{p.T1, p.T2}, []*big.Int{p.C, p.S1, p.S2}} }
func cTo(p Prf) ref.Consist {
	return ref.Consist{T1: p.P[0], T2: p.P[1], C: p.S[0], S1: p.S[1], S2: p.S[2]}
}
func dFrom(p ref.Disj) Prf {
	return Prf{[]ref.Pt{p.T1, p.T2}, []*big.Int{p.C, p.C1, p.C2, p.S1, p.S2}}
}
func dTo(p Prf) ref.Disj {
	return ref.Disj{T1: p.P[0], T2: p.P[1], C: p.S[0], C1: p.S[1], C2: p.S[2], S1: p.S[3], S2: p.S[4]}
}
func aFrom(p ref.ABC) Prf {
	return Prf{[]ref.Pt{p.B, p.Cm, p.T1, p.T2, p.CTok, p.D.T1, p.D.T2},
		[]*big.Int{p.C, p.J, p.K, p.L, p.D.C, p.D.C1, p.D.C2, p.D.S1, p.D.S2}}
}
func aTo(p Prf) ref.ABC {
	return ref.ABC{B: p.P[0], Cm: p.P[1], T1: p.P[2], T2: p.P[3], CTok: p.P[4], C: p.S[0], J: p.S[1], K: p.S[2], L: p.S[3],
		D: dTo(Prf{p.P[5:], p.S[4:]})}
}
func rFrom(p ref.Range) Prf {
	q := Prf{[]ref.Pt{p.Agg}, []*big.Int{p.E}}
	for _, t := range p.Tuples {
		q.P = append(q.P, t.C)
		q.S = append(q.S, t.S)
	}
	return q
}
func rTo(p Prf) ref.Range {
	q := ref.Range{Agg: p.P[0], E: p.S[0]}
	for i := 1; i < len(p.P); i++ {
		q.Tuples = append(q.Tuples, ref.RTuple{C: p.P[i], S: p.S[i]})
	}
	return q
}

func refEnc(kind string, p Prf) []byte {
	switch kind {
	case kG:
		return gTo(p).Enc()
	case kE:
		return eTo(p).Enc()
	case kC:
		return cTo(p).Enc()
	case kD:
		return dTo(p).Enc()
	case kA, kI:
		return aTo(p).Enc()
	}
	return rTo(p).Enc()
}

func refDec(kind string, b []byte) (Prf, error, bool) {
	switch kind {
	case kG:
		p, e, w := ref.DecGSPFS(b)
		return gFrom(p), e, w
	case kE:
		p, e, w := ref.DecEquiv(b)
		return eFrom(p), e, w
	case kC:
		p, e, w := ref.DecConsist(b)
		return cFrom(p), e, w
	case kD:
		p, e, w := ref.DecDisj(b)
		return dFrom(p), e, w
	case kA, kI:
		p, e, w := ref.DecABC(b)
		return aFrom(p), e, w
	}
	p, e, w := ref.DecRange(b)
	return rFrom(p), e, w
}

func refVerify(kind string, pr ref.Params, pts []ref.Pt, p Prf) bool {
	switch kind {
	case kG:
		return gTo(p).Verify(pts[0])
	case kE:
		return eTo(p).Verify(pts[0], pts[1], pts[2], pts[3])
	case kC:
		return cTo(p).Verify(pr, pts[0], pts[1], pts[2])
	case kD:
		return dTo(p).Verify(pts[0], pts[1], pts[2], pts[3])
	case kA, kI:
		return aTo(p).Verify(pr, pts[0], pts[1])
	}
	return rTo(p).Verify(pr, pts[0])
}

// ---- the library's proofs ----

// lib is a proof object of the library.
type lib interface{ Bytes() []byte }

type libI struct{ *zk.InequalityProof }

// Bytes: an inequality proof is an ABC proof under another name.
func (l libI) Bytes() []byte { return (*zk.ABCProof)(l.InequalityProof).Bytes() }

func libMake(kind string, p Prf) (lib, error) {
	switch kind {
	case kG:
		return toGSPFS(gTo(p)), nil
	case kE:
		return toEquiv(eTo(p)), nil
	case kC:
		return toConsist(cTo(p)), nil
	case kD:
		return toDisj(dTo(p)), nil
	case kA:
		return toABC(aTo(p))
	case kI:
		q, e := toABC(aTo(p))
		return libI{(*zk.InequalityProof)(q)}, e
	}
	return toRange(rTo(p))
}

func libDec(kind string, b []byte) (lib, error) {
	switch kind {
	case kG:
		return nilIf(zk.NewGSPFSProofFromBytes(b))
	case kE:
		return nilIf(zk.NewEquivalenceProofFromBytes(b))
	case kC:
		return nilIf(zk.NewConsistencyProofFromBytes(b))
	case kD:
		return nilIf(zk.NewDisjunctiveProofFromBytes(b))
	case kA:
		return nilIf(zk.NewABCProofFromBytes(b))
	case kI:
		p, e := zk.NewABCProofFromBytes(b)
		if p == nil {
			return nil, e
		}
		return libI{(*zk.InequalityProof)(p)}, e
	}
	return nilIf(zk.NewRangeProofFromBytes(b))
}

func nilIf[T any, P interface {
	*T
	lib
}](p P, e error) (lib, error) {
	if p == nil {
		return nil, e
	}
	return p, e
}

// view reads the fields of a library proof.
func view(l lib) (Prf, error) {
	switch p := l.(type) {
	case *zk.GSPFSProof:
		return gFrom(fromGSPFS(p)), nil
	case *zk.EquivalenceProof:
		return eFrom(fromEquiv(p)), nil
	case *zk.ConsistencyProof:
		return cFrom(fromConsist(p)), nil
	case *zk.DisjunctiveProof:
		return dFrom(fromDisj(p)), nil
	case *zk.RangeProof:
		return rFrom(fromRange(p)), nil
	case *zk.ABCProof:
		a, e := fromABC(p)
		return aFrom(a), e
	case libI:
		a, e := fromABC((*zk.ABCProof)(p.InequalityProof))
		return aFrom(a), e
	}
	return Prf{}, fmt.Errorf("unknown proof type %T", l)
}

func zpts(ps []ref.Pt) []zk.ECPoint {
	var q []zk.ECPoint
	for _, p := range ps {
		q = append(q, zp(p))
	}
	return q
}

func libVerifyZ(z zk.ZKPCurveParams, l lib, q []zk.ECPoint) (bool, error) {
	switch p := l.(type) {
	case *zk.GSPFSProof:
		return p.Verify(z, q[0])
	case *zk.EquivalenceProof:
		return p.Verify(z, q[0], q[1], q[2], q[3])
	case *zk.ConsistencyProof:
		return p.Verify(z, q[0], q[1], q[2])
	case *zk.DisjunctiveProof:
		return p.Verify(z, q[0], q[1], q[2], q[3])
	case *zk.ABCProof:
		return p.Verify(z, q[0], q[1])
	case libI:
		return p.InequalityProof.Verify(z, q[0], q[1])
	case *zk.RangeProof:
		return p.Verify(z, q[0])
	}
	return false, fmt.Errorf("unknown proof type %T", l)
}

// libVerify checks that the two results of the verifier agree.
func libVerify(z zk.ZKPCurveParams, l lib, pts []ref.Pt) (bool, error) {
	return verdict(libVerifyZ(z, l, zpts(pts)))
}

// libProve runs the library's prover for a witness. blind is set for range proofs.
func libProve(z zk.ZKPCurveParams, w Wit) (l lib, blind *big.Int, err error) {
	q := zpts(w.Pts)
	var s []*big.Int
	for _, x := range w.W {
		s = append(s, cp(x))
	}
	switch w.Kind {
	case kG:
		l, err = nilIf(zk.NewGSPFSProofBase(z, zp(w.Base), q[0], s[0]))
	case kE:
		l, err = nilIf(zk.NewEquivalenceProof(z, q[0], q[1], q[2], q[3], s[0]))
	case kC:
		l, err = nilIf(zk.NewConsistencyProof(z, q[0], q[1], q[2], s[0], s[1]))
	case kD:
		l, err = nilIf(zk.NewDisjunctiveProof(z, q[0], q[1], q[2], q[3], s[0], zk.Side(w.Side)))
	case kA:
		l, err = nilIf(zk.NewABCProof(z, q[0], q[1], s[0], s[2], zk.Side(w.Side)))
	case kI:
		f := zpts(w.Full)
		var p *zk.InequalityProof
		p, err = zk.NewInequalityProof(z, f[0], f[1], f[2], f[3], s[0], s[2], s[4])
		if p != nil {
			l = libI{p}
		}
	case kR:
		var p *zk.RangeProof
		p, blind, err = zk.NewRangeProof(z, s[0])
		if p != nil {
			l = p
		}
	}
	return
}

// ---- honest proofs by the reference ----

// refProve makes an honest proof with nonces drawn from rnd. For a range
// proof it sets the statement, which depends on the nonces.
func refProve(pr ref.Params, w *Wit, rnd func() *big.Int) Prf {
	switch w.Kind {
	case kG:
		return gFrom(ref.ProveGSPFS(w.Base, w.Pts[0], w.W[0], rnd()))
	case kE:
		return eFrom(ref.ProveEquiv(w.Pts[0], w.Pts[1], w.Pts[2], w.Pts[3], w.W[0], rnd()))
	case kC:
		return cFrom(pr.ProveConsist(w.Pts[0], w.Pts[1], w.Pts[2], w.W[0], w.W[1], rnd(), rnd()))
	case kD:
		return dFrom(ref.ProveDisj(w.Pts[0], w.Pts[1], w.Pts[2], w.Pts[3], w.W[0], w.Side, rnd(), rnd(), rnd()))
	case kA:
		return aFrom(pr.ProveABC(w.Pts[0], w.Pts[1], w.W[0], w.W[2], abcNonces(rnd)))
	case kI:
		return aFrom(pr.ProveABC(w.Pts[0], w.Pts[1], new(big.Int).Sub(w.W[0], w.W[2]), w.W[4], abcNonces(rnd)))
	}
	bits := make([]bool, 40)
	ns := make([]ref.RangeNonces, 40)
	for i := range bits {
		bits[i] = w.W[0].Bit(i) == 1
		ns[i] = ref.RangeNonces{K: rnd(), VJ: rnd()}
	}
	p, _ := pr.ProveRange(bits, ns)
	w.Pts = []ref.Pt{p.Agg}
	return rFrom(p)
}

func abcNonces(rnd func() *big.Int) ref.ABCNonces {
	return ref.ABCNonces{U1: rnd(), U2: rnd(), U3: rnd(), Ub: rnd(), Uc: rnd(), Du: rnd(), Doc: rnd(), Dos: rnd()}
}

// ---- witnesses ----

// witness draws a true statement of the kind under the parameters.
func (g *gen) witness(kind string, pr ref.Params) Wit {
	w := Wit{Kind: kind}
	if kind != kR && g.oneIn(6) {
		g.deg = true
		defer func() { g.deg = false }()
	}
	basePt := func() ref.Pt {
		switch g.weighted(3, 2, 8, 1) {
		case 0:
			return pr.G.Copy()
		case 1:
			return pr.H.Copy()
		case 3:
			return ref.Inf()
		}
		return g.point()
	}
	switch kind {
	case kG:
		x := g.anyInt(true)
		w.Base, w.W = basePt(), []*big.Int{x}
		w.Pts = []ref.Pt{ref.Mul(w.Base, x)}
	case kE:
		x := g.anyInt(true)
		b1 := basePt()
		b2 := basePt()
		if g.oneIn(4) {
			b2 = g.rel(b1)
		}
		w.W = []*big.Int{x}
		w.Pts = []ref.Pt{b1, ref.Mul(b1, x), b2, ref.Mul(b2, x)}
	case kC:
		v, r := g.anyInt(true), g.anyInt(true)
		pk := ref.Mul(pr.H, g.nzscalar())
		if g.oneIn(4) {
			pk = g.pointI()
		}
		w.W = []*big.Int{v, r}
		w.Pts = []ref.Pt{pr.Commit(v, r), ref.Mul(pk, r), pk}
	case kD:
		x := g.anyInt(true)
		w.W, w.Side = []*big.Int{x}, g.pick(2)
		b, o := basePt(), basePt()
		if g.oneIn(4) {
			o = g.rel(b)
		}
		or := g.pointI()
		switch g.pick(5) {
		case 0: // the other side is true too
			or = ref.Mul(o, g.anyInt(true))
		case 1: // with the same logarithm
			or = ref.Mul(o, x)
		case 2:
			or = ref.Mul(b, x)
		}
		w.Pts = []ref.Pt{b, ref.Mul(b, x), o, or}
		if w.Side == 1 {
			w.Pts = []ref.Pt{o, or, b, ref.Mul(b, x)}
		}
	case kA:
		v := g.anyInt(true)
		if g.oneIn(3) {
			v = new(big.Int).Mul(ref.N, bi(int64(g.pick(3)-1)))
		}
		ua, sk := g.anyInt(true), g.key()
		w.W = []*big.Int{v, ua, sk}
		if ref.ModN(v).Sign() != 0 {
			w.Side = 1
		}
		w.Pts = []ref.Pt{pr.Commit(v, ua), ref.Mul(ref.Mul(pr.H, sk), ua)}
	case kI:
		a, b := g.anyInt(true), g.anyInt(true)
		switch g.pick(6) {
		case 0:
			b = new(big.Int).Add(a, bi(1))
		case 1:
			b = new(big.Int).Neg(a)
		case 2:
			b = new(big.Int)
		}
		if ref.ModN(new(big.Int).Sub(a, b)).Sign() == 0 {
			b = new(big.Int).Add(b, bi(1+int64(g.pick(5))))
		}
		ra, rb, sk := g.anyInt(true), g.anyInt(true), g.key()
		if g.oneIn(6) {
			rb = cp(ra)
		}
		pk := ref.Mul(pr.H, sk)
		w.W = []*big.Int{a, ra, b, rb, sk}
		w.Full = []ref.Pt{pr.Commit(a, ra), pr.Commit(b, rb), ref.Mul(pk, ra), ref.Mul(pk, rb)}
		w.Pts = []ref.Pt{ref.Sub(w.Full[0], w.Full[1]), ref.Sub(w.Full[2], w.Full[3])}
	case kR:
		w.W = []*big.Int{g.value40()}
	}
	return w
}

// key is a secret key: not 0 modulo N, mostly in [1,N).
func (g *gen) key() *big.Int {
	k := g.nzscalar()
	switch g.pick(10) {
	case 8:
		k = new(big.Int).Sub(k, ref.N)
	case 9:
		k = new(big.Int).Add(k, ref.N)
	}
	return k
}

// value40 is in [0, 2^40).
func (g *gen) value40() *big.Int {
	top := pow2(40)
	var v *big.Int
	switch g.weighted(4, 3, 3, 2, 2) {
	case 0:
		v = g.below(top)
	case 1:
		v = bi(int64(g.pick(9)))
	case 2:
		v = new(big.Int).Add(pow2(g.pick(40)), bi(int64(g.pick(3)-1)))
	case 3:
		v = new(big.Int).Sub(top, bi(1+int64(g.pick(5))))
	case 4:
		v = new(big.Int).SetBytes(g.bytes(1 + g.pick(5)))
	}
	return v.Mod(v, top)
}

// nonce draws nonces for the reference provers: uniform, or an edge value.
func (g *gen) nonce() *big.Int {
	if g.oneIn(12) {
		return ref.ModN(edgeNonces[g.pick(len(edgeNonces))])
	}
	return g.rscalar()
}

// rnonce is always uniform (no draws from rapid).
func (g *gen) rnonce() *big.Int { return g.rscalar() }
