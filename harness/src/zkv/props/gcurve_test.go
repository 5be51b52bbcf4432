package props

import (
	"crypto/elliptic"
	"crypto/sha256"
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
)

// grp is the oracle on curves other than secp256k1: the documented checks of
// each proof over the curve's own arithmetic.
type grp struct {
	cv   elliptic.Curve
	n    *big.Int
	G, H ref.Pt
	bits []ref.Pt
}

func (g grp) mul(p ref.Pt, k *big.Int) ref.Pt {
	if p.IsInf() {
		return ref.Inf()
	}
	x, y := g.cv.ScalarMult(p.X, p.Y, new(big.Int).Mod(k, g.n).Bytes())
	return ref.Pt{X: x, Y: y}
}

func (g grp) add(p, q ref.Pt) ref.Pt {
	if p.IsInf() {
		return q.Copy()
	}
	if q.IsInf() {
		return p.Copy()
	}
	x, y := g.cv.Add(p.X, p.Y, q.X, q.Y)
	return ref.Pt{X: x, Y: y}
}

func (g grp) neg(p ref.Pt) ref.Pt {
	return ref.Pt{X: cp(p.X), Y: new(big.Int).Mod(new(big.Int).Neg(p.Y), g.cv.Params().P)}
}

// lin is a*p + b*q.
func (g grp) lin(p ref.Pt, a *big.Int, q ref.Pt, b *big.Int) ref.Pt {
	return g.add(g.mul(p, a), g.mul(q, b))
}

func (g grp) commit(v, r *big.Int) ref.Pt { return g.lin(g.G, v, g.H, r) }

func (g grp) hash(pts ...ref.Pt) *big.Int {
	h := sha256.New()
	for _, p := range pts {
		h.Write(p.X.Bytes())
		h.Write(p.Y.Bytes())
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

func (g grp) ch(pts ...ref.Pt) *big.Int { c := g.hash(pts...); return c.Mod(c, g.n) }

func (g grp) disj(pts []ref.Pt, p []ref.Pt, s []*big.Int) bool {
	sum := new(big.Int).Add(s[1], s[2])
	return g.ch(pts[0], pts[1], pts[2], pts[3], p[0], p[1]).Cmp(s[0]) == 0 &&
		sum.Mod(sum, g.n).Cmp(s[0]) == 0 &&
		g.mul(pts[0], s[3]).Eq(g.add(p[0], g.mul(pts[1], s[1]))) &&
		g.mul(pts[2], s[4]).Eq(g.add(p[1], g.mul(pts[3], s[2])))
}

func (g grp) verify(kind string, q []ref.Pt, pf Prf) bool {
	p, s := pf.P, pf.S
	switch kind {
	case kG:
		return g.ch(p[0], q[0], p[1]).Cmp(s[1]) == 0 && g.lin(p[0], s[0], q[0], s[1]).Eq(p[1])
	case kE:
		return g.ch(q[0], q[1], q[2], q[3], p[0], p[1]).Cmp(s[0]) == 0 &&
			g.mul(q[0], s[1]).Eq(g.add(p[0], g.mul(q[1], s[0]))) &&
			g.mul(q[2], s[1]).Eq(g.add(p[1], g.mul(q[3], s[0])))
	case kC:
		return g.ch(g.G, g.H, q[0], q[1], q[2], p[0], p[1]).Cmp(s[0]) == 0 &&
			g.commit(s[1], s[2]).Eq(g.add(p[0], g.mul(q[0], s[0]))) &&
			g.mul(q[2], s[2]).Eq(g.add(p[1], g.mul(q[1], s[0])))
	case kD:
		return g.disj(q, p, s)
	case kA, kI:
		b, cm, t1, t2 := p[0], p[1], p[2], p[3]
		return g.disj([]ref.Pt{q[0], q[1], g.H, g.add(cm, g.neg(g.G))}, p[5:], s[4:]) &&
			g.ch(g.G, g.H, q[0], q[1], b, cm, t1, t2).Cmp(s[0]) == 0 &&
			g.add(g.mul(q[0], s[0]), t1).Eq(g.lin(g.G, s[1], q[1], s[2])) &&
			g.add(g.mul(cm, s[0]), t2).Eq(g.lin(b, s[1], g.H, s[3]))
	}
	if len(p)-1 > len(g.bits) {
		return false
	}
	sum := ref.Inf()
	var ring []ref.Pt
	for i, t := range p[1:] {
		sum = g.add(sum, t)
		in := g.lin(g.H, s[i+1], g.add(t, g.neg(g.bits[i])), new(big.Int).Neg(s[0]))
		ring = append(ring, g.mul(t, g.hash(in)))
	}
	return sum.Eq(p[0]) && sum.Eq(q[0]) && g.ch(ring...).Cmp(s[0]) == 0
}

// simulate makes a proof that satisfies the equations, with challenges that
// are not the hash (mode 0), or only partly (mode 1).
func (g grp) simulate(kind string, q []ref.Pt, base ref.Pt, mode int, draw func() *big.Int) (Prf, bool) {
	c, s, s2, c1 := draw(), draw(), draw(), draw()
	c2 := new(big.Int).Mod(new(big.Int).Sub(c, c1), g.n)
	m := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	switch kind {
	case kG:
		t := g.lin(base, s, q[0], c)
		if mode == 1 { // the challenge is right, the commitment does not fit
			c = g.ch(base, q[0], t)
		}
		return Prf{[]ref.Pt{base, t}, []*big.Int{s, c}}, true
	case kE:
		t1, t2 := g.lin(q[0], s, q[1], m(c)), g.lin(q[2], s, q[3], m(c))
		if mode == 1 { // an honest left half: s and c fit it, whatever t2 is
			t1, t2 = g.mul(q[0], s), g.mul(q[2], s2)
			c = g.ch(q[0], q[1], q[2], q[3], t1, t2)
		}
		return Prf{[]ref.Pt{t1, t2}, []*big.Int{c, s}}, true
	case kC:
		t1 := g.add(g.commit(s, s2), g.mul(q[0], m(c)))
		t2 := g.lin(q[2], s2, q[1], m(c))
		if mode == 1 {
			c = g.ch(g.G, g.H, q[0], q[1], q[2], t1, t2)
		}
		return Prf{[]ref.Pt{t1, t2}, []*big.Int{c, s, s2}}, true
	case kD:
		t1, t2 := g.lin(q[0], s, q[1], m(c1)), g.lin(q[2], s2, q[3], m(c2))
		if mode == 1 { // everything but the sum of the challenges
			c = g.ch(q[0], q[1], q[2], q[3], t1, t2)
		}
		return Prf{[]ref.Pt{t1, t2}, []*big.Int{c, c1, c2, s, s2}}, true
	}
	return Prf{}, false
}

// attack changes one thing of a valid proof and compares the verdict.
func (g grp) attack(kind string, z zk.ZKPCurveParams, q []ref.Pt, p Prf, k int, draw func() *big.Int) error {
	f := p.clone()
	q = clonePts(q)
	what := ""
	i := k % (2*len(p.S) + 2*len(p.P) + 2*len(q) + 3)
	switch {
	case i < len(p.S):
		what = "an integer"
		f.S[i] = [...]*big.Int{draw(), new(big.Int).Add(f.S[i], g.n), new(big.Int).Add(f.S[i], bi(1)), new(big.Int).Neg(f.S[i])}[k/7%4]
	case i < 2*len(p.S):
		i -= len(p.S)
		what = "an integer, by the order"
		f.S[i] = new(big.Int).Sub(f.S[i], g.n)
	case i < 2*len(p.S)+len(p.P):
		i -= 2 * len(p.S)
		what = "a point"
		f.P[i] = [...]ref.Pt{g.add(f.P[i], g.G), g.neg(f.P[i]), g.mul(g.H, draw())}[k/7%3]
	case i < 2*len(p.S)+2*len(p.P):
		i -= 2*len(p.S) + len(p.P)
		what = "a point, to another of the proof"
		f.P[i] = f.P[k/11%len(f.P)].Copy()
	case i < 2*len(p.S)+2*len(p.P)+len(q):
		i -= 2*len(p.S) + 2*len(p.P)
		what = "the statement"
		q[i] = g.add(q[i], g.mul(g.H, draw()))
	case i < 2*len(p.S)+2*len(p.P)+2*len(q):
		i -= 2*len(p.S) + 2*len(p.P) + len(q)
		what = "the statement, negated"
		q[i] = g.neg(q[i])
	default:
		what = "everything simulated"
		base := ref.Inf()
		if kind == kG {
			base = p.P[0]
		}
		s, ok := g.simulate(kind, q, base, k/5%2, draw)
		if !ok {
			return nil
		}
		f = s
	}
	return g.judge(kind, z, q, f, what)
}

func (g grp) judge(kind string, z zk.ZKPCurveParams, q []ref.Pt, f Prf, what string) error {
	for _, s := range f.S {
		if s.BitLen() > 256 {
			return nil // no encoding
		}
	}
	l, err := libMake(kind, f)
	if err != nil {
		return bad("%s: %s: a proof does not decode: %v", g.cv.Params().Name, kind, err)
	}
	want := g.verify(kind, q, f)
	got, err := libVerify(z, l, q)
	if err != nil {
		return err
	}
	if got != want {
		return bad("%s: %s with %s changed: verdict %v, want %v", g.cv.Params().Name, kind, what, got, want)
	}
	return nil
}
