package props

import (
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
)

// C15..C21: the verifiers against an independent implementation of their
// documented checks, on honest, changed, replayed, spliced and forged proofs.

type Step struct {
	Label string
	Pts   []ref.Pt
	Prf   Prf
}

type caseVerify struct {
	Kind  string
	Steps []Step
	// Equal marks a history for the inequality verifier in which the two
	// committed values are equal: nothing may be accepted.
	Equal bool
	// Left marks the ABC left-side proof presented as an inequality proof.
	Left bool
}

func genVerify(kind string) func(*gen) caseVerify {
	return func(g *gen) caseVerify {
		pr := ref.Std
		c := caseVerify{Kind: kind}
		w := g.witness(kind, pr)
		honest := refProve(pr, &w, g.nonce)
		// a second honest proof, of the same or of another statement
		w2 := w
		if g.flag() {
			w2 = g.witness(kind, pr)
		}
		other := refProve(pr, &w2, g.nonce)
		h := Step{"honest", w.Pts, honest}
		c.Steps = append(c.Steps, h)
		n := 1 + g.pick(4)
		if kind == kR {
			n = 1 + g.pick(2)
		}
		for i := 0; i < n; i++ {
			c.Steps = append(c.Steps, g.attack(kind, w, h, Step{"", w2.Pts, other}))
			if g.oneIn(3) {
				c.Steps = append(c.Steps, h)
			}
		}
		if kind == kI && g.oneIn(4) {
			c = g.equalValues()
		}
		return c
	}
}

func (g *gen) changeInt(v *big.Int) *big.Int {
	switch g.pick(9) {
	case 0:
		return new(big.Int).Add(v, bi(1))
	case 1:
		return new(big.Int).Sub(v, bi(1))
	case 2:
		return new(big.Int).Neg(v)
	case 3:
		return new(big.Int).Xor(v, pow2(g.pick(256)))
	case 4:
		return bi(0)
	case 5: // the same residue
		if g.long && g.flag() {
			k := bi([]int64{1, 1, -1, 2, -2, 5, -7}[g.pick(7)])
			if g.oneIn(4) {
				k.Lsh(k, uint(g.pick(300)))
			}
			return k.Add(k.Mul(k, ref.N), v)
		}
		w := new(big.Int).Sub(v, ref.N)
		if g.flag() {
			w = new(big.Int).Add(v, ref.N)
		}
		if w.BitLen() <= 256 {
			return w
		}
		return new(big.Int).Sub(v, ref.N)
	case 6:
		return ref.ModN(new(big.Int).Neg(v))
	case 7:
		return bi(1)
	}
	return g.scalar()
}

// changePt may leave the curve now and then.
func (g *gen) changePt(p ref.Pt) ref.Pt {
	if g.oneIn(6) {
		q := p.Copy()
		v := q.X
		if g.flag() {
			v = q.Y
		}
		i := g.pick(250)
		v.SetBit(v, i, v.Bit(i)^1)
		if q.Canonical() {
			return q
		}
	}
	return g.differ(p)
}

// attack derives a proof that should not, or need not, be accepted.
func (g *gen) attack(kind string, w Wit, h, o Step) Step {
	s := Step{Pts: clonePts(h.Pts), Prf: h.Prf.clone()}
	g.long = kind != kA && kind != kI && kind != kR
	defer func() { g.long = false }()
	switch g.weighted(6, 3, 2, 3, 2, 10) {
	case 0: // one field
		n := len(s.Prf.P) + len(s.Prf.S)
		i := g.pick(n)
		if i < len(s.Prf.P) {
			s.Prf.P[i] = g.changePt(s.Prf.P[i])
			s.Label = "point changed"
		} else {
			j := i - len(s.Prf.P)
			s.Prf.S[j] = g.changeInt(s.Prf.S[j])
			s.Label = "scalar changed"
		}
	case 1: // replay against a changed statement
		i := g.pick(len(s.Pts))
		s.Pts[i] = g.differ(s.Pts[i])
		s.Label = "statement changed"
	case 2:
		s.Pts = clonePts(o.Pts)
		s.Label = "replay for another statement"
	case 3: // splice fields of two honest proofs
		s.Label = "spliced"
		for i := range s.Prf.P {
			if g.oneIn(3) && i < len(o.Prf.P) {
				s.Prf.P[i] = o.Prf.P[i].Copy()
			}
		}
		for i := range s.Prf.S {
			if g.oneIn(3) && i < len(o.Prf.S) {
				s.Prf.S[i] = cp(o.Prf.S[i])
			}
		}
	case 4: // two fields exchanged, or copied
		s.Label = "fields exchanged"
		if g.flag() {
			i, j := g.pick(len(s.Prf.P)), g.pick(len(s.Prf.P))
			s.Prf.P[i], s.Prf.P[j] = s.Prf.P[j].Copy(), s.Prf.P[i].Copy()
		} else {
			i, j := g.pick(len(s.Prf.S)), g.pick(len(s.Prf.S))
			s.Prf.S[i], s.Prf.S[j] = cp(s.Prf.S[j]), cp(s.Prf.S[i])
			if g.oneIn(3) { // keep a sum
				d := g.scalar()
				s.Prf.S[i] = ref.ModN(new(big.Int).Add(s.Prf.S[i], d))
				s.Prf.S[j] = ref.ModN(new(big.Int).Sub(s.Prf.S[j], d))
				s.Label = "sum of two fields kept"
			}
		}
	case 5:
		g.forge(kind, w, &s)
	}
	return s
}

// weak is a challenge over a damaged transcript: with an element missing,
// exchanged, taken twice or with one coordinate only.
func (g *gen) weak(parts ...ref.Pt) (*big.Int, string) {
	var bs [][]byte
	for _, p := range parts {
		bs = append(bs, p.Bytes())
	}
	i := g.pick(len(bs))
	switch g.pick(11) {
	case 8, 9, 10:
		return g.changeInt(ref.Challenge(bs...)), "challenge slightly changed"
	case 0, 1, 2:
		bs = append(append([][]byte{}, bs[:i]...), bs[i+1:]...)
	case 3:
		j := g.pick(len(bs))
		bs[i], bs[j] = bs[j], bs[i]
	case 4:
		bs[i] = parts[i].X.Bytes()
	case 5:
		bs = bs[:i]
	case 6:
		bs = bs[i:]
	case 7:
		return g.scalar(), "free challenge"
	}
	return ref.Challenge(bs...), "challenge over a damaged transcript"
}

func lin(p ref.Pt, a *big.Int, q ref.Pt, b *big.Int) ref.Pt { return ref.Lin(p, a, q, b) }
func neg(v *big.Int) *big.Int                               { return new(big.Int).Neg(v) }
func am(u, c, x *big.Int) *big.Int {
	r := new(big.Int).Mul(c, x)
	return ref.ModN(r.Add(r, u))
}

// mu is the factor by which one side of an equation may be off: the result
// shares a coordinate with the right one.
func (g *gen) mu() (mu, inv *big.Int) {
	switch g.pick(4) {
	case 0, 1:
		mu = neg(bi(1))
	case 2:
		mu = ref.Lambda
	default:
		mu = neg(ref.Lambda)
	}
	mu = ref.ModN(mu)
	return mu, new(big.Int).ModInverse(mu, ref.N)
}

func mulN(a, b *big.Int) *big.Int { return ref.ModN(new(big.Int).Mul(a, b)) }

const sharesCoord = "one equation holds up to sign or endomorphism"

// forge makes a proof in which all checks but one hold, as far as the kind allows.
func (g *gen) forge(kind string, w Wit, s *Step) {
	pr := ref.Std
	pts := s.Pts
	switch kind {
	case kG:
		base, a, x := w.Base, pts[0], w.W[0]
		switch g.pick(5) {
		case 4:
			mu, _ := g.mu()
			u := g.nonce()
			t := ref.Mul(base, u)
			c := ref.GSPFSChallenge(base, a, t)
			s.Prf = gFrom(ref.GSPFS{Base: base, T: t, S: am(mulN(mu, u), neg(c), x), C: c})
			s.Label = sharesCoord
		case 0: // honest with another challenge
			u := g.nonce()
			t := ref.Mul(base, u)
			c, l := g.weak(base, a, t)
			s.Prf = gFrom(ref.GSPFS{Base: base, T: t, S: am(u, neg(c), x), C: c})
			s.Label = l
		case 1: // simulated: the equation holds, the challenge is free
			a = g.pointI()
			sv, c := g.nonce(), g.nonce()
			t := lin(base, sv, a, c)
			s.Pts = []ref.Pt{a}
			if g.flag() {
				c, _ = g.weak(base, a, t)
			}
			s.Prf = gFrom(ref.GSPFS{Base: base, T: t, S: sv, C: c})
			s.Label = "simulated"
		case 2: // the challenge is right, the equation is not
			t := g.pointI()
			s.Prf = gFrom(ref.GSPFS{Base: base, T: t, S: g.scalar(), C: ref.GSPFSChallenge(base, a, t)})
			s.Label = "equation violated"
		case 3: // base made to fit afterwards
			t, c, sv := g.point(), g.nonce(), g.nonce()
			b := t
			if inv := new(big.Int).ModInverse(ref.ModN(sv), ref.N); inv != nil {
				b = ref.Mul(ref.Sub(t, ref.Mul(a, c)), inv)
			}
			c2 := ref.ChallengePts(a, t)
			b2 := t
			if inv := new(big.Int).ModInverse(ref.ModN(sv), ref.N); inv != nil {
				b2 = ref.Mul(ref.Sub(t, ref.Mul(a, c2)), inv)
			}
			if g.flag() {
				b, c = b2, c2
			}
			s.Prf = gFrom(ref.GSPFS{Base: b, T: t, S: sv, C: c})
			s.Label = "base chosen last"
		}
	case kE:
		b1, r1, b2, r2, x := pts[0], pts[1], pts[2], pts[3], w.W[0]
		u := g.nonce()
		t1, t2 := ref.Mul(b1, u), ref.Mul(b2, u)
		switch g.pick(5) {
		case 4: // the statement is false by the factor
			_, inv := g.mu()
			i := 2 * g.pick(2)
			t := []ref.Pt{t1, t1, t2}
			s.Pts[i+1], t[i] = ref.Mul(s.Pts[i+1], inv), ref.Mul(t[i], inv)
			if i == 0 {
				t1 = t[0]
			} else {
				t2 = t[2]
			}
			c := ref.EquivChallenge(s.Pts[0], s.Pts[1], s.Pts[2], s.Pts[3], t1, t2)
			s.Prf = eFrom(ref.Equiv{T1: t1, T2: t2, C: c, S: am(u, c, x)})
			s.Label = sharesCoord
		case 0:
			c, l := g.weak(b1, r1, b2, r2, t1, t2)
			s.Prf = eFrom(ref.Equiv{T1: t1, T2: t2, C: c, S: am(u, c, x)})
			s.Label = l
		case 1: // one result has another logarithm
			i := 1 + 2*g.pick(2)
			s.Pts[i] = g.differ(s.Pts[i])
			c := ref.EquivChallenge(s.Pts[0], s.Pts[1], s.Pts[2], s.Pts[3], t1, t2)
			s.Prf = eFrom(ref.Equiv{T1: t1, T2: t2, C: c, S: am(u, c, x)})
			s.Label = "one equation violated"
		case 2: // different nonces
			if g.flag() {
				t1 = g.differ(t1)
			} else {
				t2 = g.differ(t2)
			}
			c := ref.EquivChallenge(b1, r1, b2, r2, t1, t2)
			s.Prf = eFrom(ref.Equiv{T1: t1, T2: t2, C: c, S: am(u, c, x)})
			s.Label = "one equation violated"
		case 3: // simulated for a false statement
			i := 1 + 2*g.pick(2)
			s.Pts[i] = g.differ(s.Pts[i])
			sv, c := g.nonce(), g.nonce()
			t1 = lin(s.Pts[0], sv, s.Pts[1], neg(c))
			t2 = lin(s.Pts[2], sv, s.Pts[3], neg(c))
			s.Prf = eFrom(ref.Equiv{T1: t1, T2: t2, C: c, S: sv})
			s.Label = "simulated"
		}
	case kC:
		cm, tok, pk, v, r := pts[0], pts[1], pts[2], w.W[0], w.W[1]
		u1, u2 := g.nonce(), g.nonce()
		t1, t2 := pr.Commit(u1, u2), ref.Mul(pk, u2)
		fin := func(c *big.Int) {
			s.Prf = cFrom(ref.Consist{T1: t1, T2: t2, C: c, S1: am(u1, c, v), S2: am(u2, c, r)})
		}
		switch g.pick(6) {
		case 5:
			_, inv := g.mu()
			if g.flag() {
				s.Pts[0], t1 = ref.Mul(cm, inv), ref.Mul(t1, inv)
			} else {
				s.Pts[1], t2 = ref.Mul(tok, inv), ref.Mul(t2, inv)
			}
			fin(pr.ConsistChallenge(s.Pts[0], s.Pts[1], pk, t1, t2))
			s.Label = sharesCoord
		case 0:
			c, l := g.weak(pr.G, pr.H, cm, tok, pk, t1, t2)
			fin(c)
			s.Label = l
		case 1: // the token has another blinding
			s.Pts[1] = g.differ(tok)
			fin(pr.ConsistChallenge(cm, s.Pts[1], pk, t1, t2))
			s.Label = "token equation violated"
		case 2: // the commitment does not open
			s.Pts[0] = g.differ(cm)
			fin(pr.ConsistChallenge(s.Pts[0], tok, pk, t1, t2))
			s.Label = "commitment equation violated"
		case 3:
			if g.flag() {
				t1 = g.differ(t1)
			} else {
				t2 = g.differ(t2)
			}
			fin(pr.ConsistChallenge(cm, tok, pk, t1, t2))
			s.Label = "one equation violated"
		case 4: // simulated
			s.Pts[1] = g.differ(tok)
			c, s1, s2 := g.nonce(), g.nonce(), g.nonce()
			t1 = ref.Sub(pr.Commit(s1, s2), ref.Mul(cm, c))
			t2 = lin(pk, s2, s.Pts[1], neg(c))
			s.Prf = cFrom(ref.Consist{T1: t1, T2: t2, C: c, S1: s1, S2: s2})
			s.Label = "simulated"
		}
	case kD:
		d, l := g.forgeDisj(s.Pts, w.W[0], w.Side)
		s.Prf, s.Label = dFrom(d), l
	case kA, kI:
		v, sk := w.W[0], w.W[len(w.W)-1]
		if kind == kI {
			v = new(big.Int).Sub(w.W[0], w.W[2])
		}
		g.forgeABC(s, v, sk)
	case kR:
		g.forgeRange(w, s)
	}
}

// forgeDisj: x proves the side, everything but one check holds. It may change pts.
func (g *gen) forgeDisj(pts []ref.Pt, x *big.Int, side int) (ref.Disj, string) {
	b1, r1, b2, r2 := pts[0], pts[1], pts[2], pts[3]
	switch g.pick(7) {
	case 5:
		d := ref.ProveDisj(b1, r1, b2, r2, x, side, g.nonce(), g.nonce(), g.nonce())
		mu, _ := g.mu()
		if v := []*big.Int{d.S1, d.S2}[g.pick(2)]; v.Sign() != 0 {
			v.Set(mulN(mu, v))
		}
		return d, sharesCoord
	case 6: // the prover's own partial challenge is slightly off, the equations hold
		u, oc, os := g.nonce(), g.nonce(), g.nonce()
		d := ref.ProveDisj(b1, r1, b2, r2, x, side, u, oc, os)
		if side == 0 {
			d.C1 = g.changeInt(d.C1)
			d.S1 = am(u, d.C1, x)
		} else {
			d.C2 = g.changeInt(d.C2)
			d.S2 = am(u, d.C2, x)
		}
		return d, "sum slightly changed"
	case 0: // both sides simulated: only the sum of the challenges is wrong
		c1, c2, s1, s2 := g.nonce(), g.nonce(), g.nonce(), g.nonce()
		t1, t2 := lin(b1, s1, r1, neg(c1)), lin(b2, s2, r2, neg(c2))
		c := ref.DisjChallenge(b1, r1, b2, r2, t1, t2)
		return ref.Disj{T1: t1, T2: t2, C: c, C1: c1, C2: c2, S1: s1, S2: s2}, "both sides simulated, sum violated"
	case 1: // both simulated, only the hash is wrong
		c1, c2, s1, s2 := g.nonce(), g.nonce(), g.nonce(), g.nonce()
		t1, t2 := lin(b1, s1, r1, neg(c1)), lin(b2, s2, r2, neg(c2))
		return ref.Disj{T1: t1, T2: t2, C: ref.ModN(new(big.Int).Add(c1, c2)), C1: c1, C2: c2, S1: s1, S2: s2}, "both sides simulated, hash violated"
	case 2: // honest over a damaged transcript
		u, oc, os := g.nonce(), g.nonce(), g.nonce()
		pb, ob, or := b1, b2, r2
		if side == 1 {
			pb, ob, or = b2, b1, r1
		}
		tp, to := ref.Mul(pb, u), lin(ob, os, or, neg(oc))
		t1, t2 := tp, to
		if side == 1 {
			t1, t2 = to, tp
		}
		c, l := g.weak(b1, r1, b2, r2, t1, t2)
		pc := ref.ModN(new(big.Int).Sub(c, oc))
		ps := am(u, pc, x)
		if side == 1 {
			return ref.Disj{T1: t1, T2: t2, C: c, C1: oc, C2: pc, S1: os, S2: ps}, l
		}
		return ref.Disj{T1: t1, T2: t2, C: c, C1: pc, C2: oc, S1: ps, S2: os}, l
	case 3: // one equation wrong
		d := ref.ProveDisj(b1, r1, b2, r2, x, side, g.nonce(), g.nonce(), g.nonce())
		v := d.S1
		if g.flag() {
			v = d.S2
		}
		v.Set(ref.ModN(new(big.Int).Add(v, g.nzscalar())))
		return d, "one equation violated"
	}
	// one commitment chosen freely before hashing
	u, oc, os := g.nonce(), g.nonce(), g.nonce()
	d := ref.ProveDisj(b1, r1, b2, r2, x, side, u, oc, os)
	if g.flag() {
		d.T1 = g.differ(d.T1)
	} else {
		d.T2 = g.differ(d.T2)
	}
	d.C = ref.DisjChallenge(b1, r1, b2, r2, d.T1, d.T2)
	if side == 0 {
		d.C1 = ref.ModN(new(big.Int).Sub(d.C, d.C2))
		d.S1 = am(u, d.C1, x)
	} else {
		d.C2 = ref.ModN(new(big.Int).Sub(d.C, d.C1))
		d.S2 = am(u, d.C2, x)
	}
	return d, "one equation violated"
}

func (g *gen) forgeABC(s *Step, v, sk *big.Int) {
	pr := ref.Std
	cm, tok := s.Pts[0], s.Pts[1]
	n := abcNonces(g.nonce)
	p := pr.ProveABC(cm, tok, v, sk, n)
	side := 1
	wit := n.Uc
	if ref.ModN(v).Sign() == 0 {
		side, wit = 0, ref.ModN(sk)
	}
	inv := new(big.Int).ModInverse(ref.ModN(sk), ref.N)
	if inv == nil {
		inv = bi(1)
	}
	// refinish recomputes the outer part for other values of j's and l's parts
	refinish := func(c *big.Int) {
		p.C = c
		p.J = am(n.U1, c, v)
		p.K = am(n.U2, c, inv)
		t := new(big.Int).Mul(ref.ModN(v), n.Ub)
		p.L = am(n.U3, c, t.Sub(n.Uc, t))
	}
	switch g.pick(10) {
	case 9: // the other side is claimed: only the second equation, or the inner proof, fails
		side, wit = 1-side, n.Uc
		if side == 0 {
			wit = ref.ModN(sk)
			p.Cm = pr.Commit(bi(0), n.Uc)
			p.B = pr.Commit(bi(0), n.Ub)
		} else {
			p.Cm = pr.Commit(bi(1), n.Uc)
			if g.flag() {
				p.B = pr.Commit(g.nzscalar(), n.Ub)
			}
		}
		p.D = ref.ProveDisj(cm, tok, pr.H, ref.Sub(p.Cm, pr.G), wit, side, n.Du, n.Doc, n.Dos)
		p.T2 = ref.Lin(p.B, n.U1, pr.H, n.U3)
		refinish(pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2))
		s.Label = "other side claimed"
	case 7: // first equation off by a factor: j and k scaled, B made to fit
		if ref.ModN(v).Sign() == 0 {
			s.Label = "honest again"
			break
		}
		mu, minv := g.mu()
		b := mulN(new(big.Int).ModInverse(ref.ModN(v), ref.N), minv)
		p.B = pr.Commit(b, n.Ub)
		p.T2 = pr.Commit(mulN(mulN(mu, n.U1), b), n.U3)
		p.C = pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2)
		p.J = mulN(mu, am(n.U1, p.C, v))
		p.K = mulN(mu, am(n.U2, p.C, inv))
		p.L = am(am(n.U3, p.C, n.Uc), neg(p.J), n.Ub)
		s.Label = "first " + sharesCoord
	case 8: // second equation off by a factor: B commits to that multiple of the inverse
		mu, minv := g.mu()
		b := new(big.Int)
		if ref.ModN(v).Sign() != 0 {
			b = mulN(mu, new(big.Int).ModInverse(ref.ModN(v), ref.N))
		}
		p.B = pr.Commit(b, n.Ub)
		p.T2 = pr.Commit(mulN(mulN(n.U1, b), minv), n.U3)
		p.C = pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2)
		p.J = am(n.U1, p.C, v)
		p.K = am(n.U2, p.C, inv)
		p.L = am(mulN(mu, am(n.U3, p.C, n.Uc)), neg(p.J), n.Ub)
		s.Label = "second " + sharesCoord
	case 0:
		c, l := g.weak(pr.G, pr.H, cm, tok, p.B, p.Cm, p.T1, p.T2)
		refinish(c)
		s.Label = "outer " + l
	case 1: // the inner proof is forged, the rest is honest
		var l string
		p.D, l = g.forgeDisj([]ref.Pt{cm, tok, pr.H, ref.Sub(p.Cm, pr.G)}, wit, side)
		s.Label = "inner: " + l
	case 2: // the inner proof is honest for another point than C-G
		q := g.differ(ref.Sub(p.Cm, pr.G))
		if g.flag() {
			q = p.Cm
		}
		r2 := ref.Mul(pr.H, n.Uc)
		if !g.flag() {
			r2 = q
		}
		p.D = ref.ProveDisj(cm, tok, pr.H, r2, wit, side, n.Du, n.Doc, n.Dos)
		s.Label = "inner proof for another statement"
	case 3: // first equation
		p.T1 = g.differ(p.T1)
		refinish(pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2))
		s.Label = "first equation violated"
	case 4: // second equation
		p.T2 = g.differ(p.T2)
		refinish(pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2))
		s.Label = "second equation violated"
	case 5: // B does not commit to the inverse, or C to another value, with a matching inner proof
		if g.flag() {
			p.B = g.differ(p.B)
		} else {
			k := bi(int64(2 + g.pick(3)))
			p.Cm = pr.Commit(k, n.Uc)
			p.D = ref.ProveDisj(cm, tok, pr.H, ref.Sub(p.Cm, pr.G), wit, side, n.Du, n.Doc, n.Dos)
		}
		p.T2 = ref.Lin(p.B, n.U1, pr.H, n.U3)
		refinish(pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2))
		s.Label = "B or C commits to something else"
	case 6: // everything simulated with a free challenge
		c, j, k, l := g.nonce(), g.nonce(), g.nonce(), g.nonce()
		p.C, p.J, p.K, p.L = c, j, k, l
		p.T1 = ref.Sub(lin(pr.G, j, tok, k), ref.Mul(cm, c))
		p.T2 = ref.Sub(lin(p.B, j, pr.H, l), ref.Mul(p.Cm, c))
		s.Label = "outer part simulated"
	}
	s.Prf = aFrom(p)
}

func (g *gen) forgeRange(w Wit, s *Step) {
	pr := ref.Std
	tup := func() int { return 1 + g.pick(len(s.Prf.P)-1) }
	sum := func() ref.Pt {
		a := ref.Inf()
		for _, p := range s.Prf.P[1:] {
			a = ref.Add(a, p)
		}
		return a
	}
	// prove with n entries and per-entry digits
	long := func(bits []bool) {
		ns := make([]ref.RangeNonces, len(bits))
		for i := range ns {
			ns[i] = ref.RangeNonces{K: g.rscalar(), VJ: g.rscalar()}
		}
		p, _ := pr.ProveRange(bits, ns)
		s.Prf, s.Pts = rFrom(p), []ref.Pt{p.Agg}
	}
	switch g.pick(12) {
	case 11: // the ring is closed with a slightly different hash
		bits, ns := make([]bool, 40), make([]ref.RangeNonces, 40)
		for i := range bits {
			bits[i] = w.W[0].Bit(i) == 1
			ns[i] = ref.RangeNonces{K: g.rscalar(), VJ: g.rscalar()}
		}
		p, _ := pr.ProveRangeE(bits, ns, g.changeInt)
		s.Prf, s.Pts = rFrom(p), []ref.Pt{p.Agg}
		s.Label = "ring hash slightly changed"
	case 0: // the ring does not close, the rest fits
		i := tup()
		s.Prf.S[i] = ref.ModN(new(big.Int).Add(s.Prf.S[i], g.nzscalar()))
		s.Label = "ring hash violated"
	case 1: // an entry's point changed, aggregate and commitment adjusted
		i := tup()
		s.Prf.P[i] = g.differ(s.Prf.P[i])
		s.Prf.P[0] = sum()
		s.Pts = []ref.Pt{s.Prf.P[0].Copy()}
		s.Label = "ring hash violated"
	case 2: // aggregate wrong, commitment right
		s.Prf.P[0] = g.differ(s.Prf.P[0])
		s.Label = "aggregate violated"
	case 3: // aggregate and commitment wrong but equal
		s.Prf.P[0] = g.differ(s.Prf.P[0])
		s.Pts = []ref.Pt{s.Prf.P[0].Copy()}
		s.Label = "aggregate violated, commitment equal to it"
	case 4:
		s.Pts = []ref.Pt{g.differ(s.Pts[0])}
		s.Label = "commitment violated"
	case 5: // entries exchanged
		i, j := tup(), tup()
		s.Prf.P[i], s.Prf.P[j] = s.Prf.P[j], s.Prf.P[i]
		s.Prf.S[i], s.Prf.S[j] = s.Prf.S[j], s.Prf.S[i]
		s.Label = "entries exchanged"
	case 6: // entry dropped
		i := tup()
		if g.flag() {
			i = len(s.Prf.P) - 1
		}
		s.Prf.P = append(s.Prf.P[:i:i], s.Prf.P[i+1:]...)
		s.Prf.S = append(s.Prf.S[:i:i], s.Prf.S[i+1:]...)
		if g.flag() {
			s.Prf.P[0] = sum()
			s.Pts = []ref.Pt{s.Prf.P[0].Copy()}
		}
		s.Label = "entry dropped"
	case 7: // entry added
		i := tup()
		s.Prf.P = append(s.Prf.P, s.Prf.P[i].Copy())
		s.Prf.S = append(s.Prf.S, cp(s.Prf.S[i]))
		if g.flag() {
			s.Prf.P[0] = sum()
			s.Pts = []ref.Pt{s.Prf.P[0].Copy()}
		}
		s.Label = "entry added"
	case 8: // a bit commitment to another multiple of the power, by a prover who knows the blinding
		bits := make([]bool, 40)
		for i := range bits {
			bits[i] = w.W[0].Bit(i) == 1
		}
		b := g.pick(40)
		bits[b] = true
		fake := pr
		fake.Bits = append([]ref.Pt{}, pr.Bits...)
		fake.Bits[b] = ref.Mul(pr.G, bi([]int64{-1, 3, 5, 1 << 41}[g.pick(4)]))
		ns := make([]ref.RangeNonces, 40)
		for i := range ns {
			ns[i] = ref.RangeNonces{K: g.rscalar(), VJ: g.rscalar()}
		}
		p, _ := fake.ProveRange(bits, ns)
		s.Prf, s.Pts = rFrom(p), []ref.Pt{p.Agg}
		s.Label = "bit commitment to neither 0 nor 2^i"
	case 9: // other lengths, up to all bit generators; honestly proved
		n := []int{0, 1, 2, 8, 39, 41, 63, 64}[g.pick(8)]
		bits := make([]bool, n)
		for i := range bits {
			bits[i] = g.flag()
		}
		long(bits)
		s.Label = "honest with another number of entries"
	case 10: // more entries than bit generators
		n := 65 + g.pick(20)
		for len(s.Prf.P) <= n {
			s.Prf.P = append(s.Prf.P, ref.Inf())
			s.Prf.S = append(s.Prf.S, bi(0))
		}
		s.Label = "more entries than bit generators"
	}
}

// equalValues: the inequality verifier sees commitments to equal values.
func (g *gen) equalValues() caseVerify {
	pr := ref.Std
	ua, sk := g.scalar(), g.nzscalar()
	cm := ref.Mul(pr.H, ua)
	tok := ref.Mul(cm, sk)
	c := caseVerify{Kind: kI, Equal: true}
	// the best a prover can do other than the left-side proof: pretend v
	for i := 0; i < 3; i++ {
		s := Step{Pts: []ref.Pt{cm, tok}}
		v := g.nzscalar()
		if i == 2 { // or tell the truth and claim the other side
			v = bi(0)
			g.force = []int{9}
		}
		p := pr.ProveABC(cm, tok, v, sk, abcNonces(g.nonce))
		s.Prf, s.Label = aFrom(p), "equal values, right-side proof"
		if i > 0 {
			g.forgeABC(&s, v, sk)
			s.Label = "equal values, " + s.Label
		}
		// a valid ABC proof for C = 0 would be the left-side proof
		if !refVerify(kI, pr, s.Pts, s.Prf) {
			c.Steps = append(c.Steps, s)
		}
	}
	return c
}

func enumI() []caseVerify {
	pr := ref.Std
	ua, sk := bi(1234567), bi(7654321)
	cm := ref.Mul(pr.H, ua)
	tok := ref.Mul(cm, sk)
	k := int64(100)
	p := pr.ProveABC(cm, tok, bi(0), sk, abcNonces(func() *big.Int { k++; return bi(k) }))
	return []caseVerify{{Kind: kI, Left: true, Steps: []Step{{"left-side ABC proof", []ref.Pt{cm, tok}, aFrom(p)}}}}
}

// forgeCases is the number of ways that forge knows.
var forgeCases = map[string]int{kG: 5, kE: 5, kC: 6, kD: 7, kA: 10, kI: 10, kR: 12}

// degenerate statements: points at infinity, equal points, values and keys 0,
// 1 and -1. A special case in a verifier is a special case for one of these.
func degenerate(kind string) (ws []Wit) {
	pr := ref.Std
	m1 := new(big.Int).Sub(ref.N, bi(1))
	ints := []*big.Int{bi(0), bi(1), m1}
	pts := []ref.Pt{ref.G, ref.H, ref.Inf()}
	switch kind {
	case kG:
		for _, b := range append(pts, ref.Neg(ref.G)) {
			for _, x := range append(ints, bi(2)) {
				ws = append(ws, Wit{Kind: kind, Base: b, W: []*big.Int{x}, Pts: []ref.Pt{ref.Mul(b, x)}})
			}
		}
	case kE:
		for _, b1 := range pts {
			for _, b2 := range pts {
				for _, x := range ints {
					ws = append(ws, Wit{Kind: kind, W: []*big.Int{x}, Pts: []ref.Pt{b1, ref.Mul(b1, x), b2, ref.Mul(b2, x)}})
				}
			}
		}
	case kC:
		for _, v := range ints {
			for _, r := range ints {
				for _, pk := range append(pts, ref.Neg(ref.H)) {
					ws = append(ws, Wit{Kind: kind, W: []*big.Int{v, r}, Pts: []ref.Pt{pr.Commit(v, r), ref.Mul(pk, r), pk}})
				}
			}
		}
	case kD:
		for _, b := range pts {
			for _, o := range pts {
				for _, x := range ints[:2] {
					ors := []ref.Pt{ref.Mul(b, x), ref.G, ref.Inf()}
					for _, or := range ors {
						ws = append(ws, Wit{Kind: kind, W: []*big.Int{x}, Pts: []ref.Pt{b, ref.Mul(b, x), o, or}},
							Wit{Kind: kind, W: []*big.Int{x}, Side: 1, Pts: []ref.Pt{o, or, b, ref.Mul(b, x)}})
					}
				}
			}
		}
	case kA, kI:
		for _, v := range ints {
			for _, ua := range ints {
				for _, sk := range []*big.Int{bi(1), bi(2), m1} {
					w := Wit{Kind: kind, W: []*big.Int{v, ua, sk}, Pts: []ref.Pt{pr.Commit(v, ua), ref.Mul(pr.H, new(big.Int).Mul(sk, ua))}}
					if v.Sign() != 0 {
						w.Side = 1
					}
					if kind == kI {
						w.W = []*big.Int{v, ua, bi(0), bi(0), sk}
					}
					ws = append(ws, w)
				}
			}
		}
	case kR:
		for _, v := range []*big.Int{bi(0), bi(1), new(big.Int).Sub(pow2(40), bi(1)), pow2(39)} {
			ws = append(ws, Wit{Kind: kind, W: []*big.Int{v}})
		}
	}
	return ws
}

// degenVerify is case i of the enumeration: a degenerate statement with the
// honest proof and every kind of attack.
func degenVerify(kind string, i int) caseVerify {
	pr := ref.Std
	w := degenerate(kind)[i]
	g := plainGen(uint64(i)*1000 + 77)
	h := Step{Label: "honest", Prf: refProve(pr, &w, g.rscalar)}
	h.Pts = w.Pts
	c := caseVerify{Kind: kind}
	add := func(label string, p Prf, pts []ref.Pt) {
		c.Steps = append(c.Steps, Step{label, clonePts(pts), p})
	}
	equal := kind == kI && w.W[0].Sign() == 0
	c.Equal = equal
	if !equal {
		c.Steps = append(c.Steps, h)
	}
	np, ns, lim := len(h.Prf.P), len(h.Prf.S), 12
	if kind == kR {
		lim = 4
	}
	for j := 0; j < np && j < lim; j++ {
		p := h.Prf.clone()
		p.P[j] = g.differ(p.P[j])
		add("point changed", p, h.Pts)
		if !h.Prf.P[j].IsInf() {
			p = h.Prf.clone()
			p.P[j] = ref.Inf()
			add("point removed", p, h.Pts)
		}
	}
	for j := 0; j < ns && j < lim; j++ {
		p := h.Prf.clone()
		p.S[j] = ref.ModN(new(big.Int).Add(p.S[j], bi(1)))
		add("scalar changed", p, h.Pts)
		p = h.Prf.clone()
		p.S[j] = bi(0)
		add("scalar removed", p, h.Pts)
	}
	for j := range h.Pts {
		pts := clonePts(h.Pts)
		pts[j] = g.differ(pts[j])
		add("statement changed", h.Prf.clone(), pts)
	}
	for f := 0; f < forgeCases[kind]; f++ {
		for k := 0; k < 2; k++ {
			s := Step{Pts: clonePts(h.Pts), Prf: h.Prf.clone()}
			// a range forgery is expensive, and does not depend much on the value
			if kind == kR && (f+k+i)%2 == 1 {
				continue
			}
			g.force = []int{f}
			g.forge(kind, w, &s)
			g.force = nil
			c.Steps = append(c.Steps, s)
		}
	}
	c.Steps = append(c.Steps, g.empty(kind, h))
	if equal { // a valid ABC proof is the known left-side proof
		var ss []Step
		for _, s := range c.Steps {
			if !refVerify(kI, pr, s.Pts, s.Prf) {
				ss = append(ss, s)
			}
		}
		c.Steps = ss
	}
	return c
}

// empty is a proof of zeros and points at infinity with the right hashes.
func (g *gen) empty(kind string, h Step) Step {
	pr := ref.Std
	p := h.Prf.clone()
	for i := range p.P {
		p.P[i] = ref.Inf()
	}
	for i := range p.S {
		p.S[i] = bi(0)
	}
	q := h.Pts
	disj := func(d *ref.Disj, a, b, c, e ref.Pt) {
		d.C = ref.DisjChallenge(a, b, c, e, d.T1, d.T2)
		d.C1 = cp(d.C)
		if g.flag() {
			d.C1, d.C2 = d.C2, d.C1
		}
	}
	switch kind {
	case kG:
		x := gTo(p)
		x.C = ref.GSPFSChallenge(x.Base, q[0], x.T)
		p = gFrom(x)
	case kE:
		x := eTo(p)
		x.C = ref.EquivChallenge(q[0], q[1], q[2], q[3], x.T1, x.T2)
		p = eFrom(x)
	case kC:
		x := cTo(p)
		x.C = pr.ConsistChallenge(q[0], q[1], q[2], x.T1, x.T2)
		p = cFrom(x)
	case kD:
		x := dTo(p)
		disj(&x, q[0], q[1], q[2], q[3])
		p = dFrom(x)
	case kA, kI:
		x := aTo(p)
		x.C = pr.ABCChallenge(q[0], q[1], x.B, x.Cm, x.T1, x.T2)
		disj(&x.D, q[0], q[1], pr.H, ref.Sub(x.Cm, pr.G))
		p = aFrom(x)
	}
	return Step{"empty proof", clonePts(q), p}
}

// rangeLength is a history of honest proofs with i entries.
func rangeLength(n int) caseVerify {
	pr := ref.Std
	g := plainGen(uint64(n) + 5)
	c := caseVerify{Kind: kR}
	if n > 64 {
		p := Prf{P: make([]ref.Pt, n+1), S: make([]*big.Int, n+1)}
		for i := range p.P {
			p.P[i], p.S[i] = ref.Inf(), bi(0)
		}
		c.Steps = append(c.Steps, Step{"too many entries", []ref.Pt{ref.Inf()}, p})
		return c
	}
	bits, ns := make([]bool, n), make([]ref.RangeNonces, n)
	for i := range bits {
		bits[i] = i == n-1 || g.flag()
		ns[i] = ref.RangeNonces{K: g.rscalar(), VJ: g.rscalar()}
	}
	p, _ := pr.ProveRange(bits, ns)
	c.Steps = append(c.Steps, Step{"honest with another number of entries", []ref.Pt{p.Agg}, rFrom(p)})
	q := rFrom(p)
	if n > 0 { // the last entry counts
		q.S[n] = ref.ModN(new(big.Int).Add(q.S[n], bi(1)))
		c.Steps = append(c.Steps, Step{"ring hash violated", []ref.Pt{p.Agg}, q})
	}
	return c
}

var rangeLengths = []int{0, 1, 2, 39, 41, 63, 64, 65, 66, 200}

func degen(kind string) option {
	return lazyEnum(len(degenerate(kind)), func(i int) caseVerify { return degenVerify(kind, i) })
}

func checkVerify(c caseVerify, r *Rec) error {
	z := zk.TestCurve
	if c.Left {
		l, err := libMake(c.Kind, c.Steps[0].Prf)
		if err != nil {
			return bad("decoding a well-formed proof: %v", err)
		}
		ok, e := libVerify(z, l, c.Steps[0].Pts)
		if e != nil {
			return e
		}
		r.Class("left-side ABC proof as inequality proof")
		if ok {
			r.Finding("C20-left-side-accepted", "InequalityProof.Verify accepts an ABC proof of the left side (value 0) for two commitments to equal values: nothing enforces C = 1")
		}
		return nil
	}
	type kept struct {
		l    lib
		want bool
	}
	var ks []kept
	for i, s := range c.Steps {
		l, err := libMake(c.Kind, s.Prf)
		if err != nil {
			return bad("step %d (%s): decoding a well-formed proof: %v", i, s.Label, err)
		}
		want := refVerify(c.Kind, ref.Std, s.Pts, s.Prf)
		if c.Equal {
			want = false
		}
		r.Class("%s: %v", s.Label, want)
		if s.Label != "honest" {
			r.NT()
		} else if !want {
			return bad("harness: the reference rejects its own proof")
		}
		got, e := libVerify(z, l, s.Pts)
		if e != nil {
			return bad("step %d (%s): %v", i, s.Label, e)
		}
		if got != want {
			return bad("step %d (%s): accepted=%v, the documented checks say %v", i, s.Label, got, want)
		}
		ks = append(ks, kept{l, want})
	}
	// Again, in the opposite order, in the same objects, which take the values
	// of one step after the other.
	last := len(ks) - 1
	obj, pts := ks[last].l, zpts(c.Steps[last].Pts)
	for i := last; i >= 0; i-- {
		l, err := libMake(c.Kind, c.Steps[i].Prf)
		if err != nil {
			return bad("step %d (%s): decoding a well-formed proof: %v, and not the first time", i, c.Steps[i].Label, err)
		}
		assign(obj, l)
		for k, p := range c.Steps[i].Pts {
			pts[k].X.Set(p.X)
			pts[k].Y.Set(p.Y)
		}
		got, e := verdict(libVerifyZ(z, obj, pts))
		if e != nil {
			return e
		}
		if got != ks[i].want {
			return bad("step %d (%s): accepted=%v when verified again in objects that held other proofs and points, was %v", i, c.Steps[i].Label, got, ks[i].want)
		}
	}
	return nil
}

func init() {
	rule := "histories of verifications in one process: an honest proof, then proofs with a field changed, statements changed, fields spliced from another honest proof, and forgeries that satisfy all documented checks but one, between repetitions of the honest one; non-trivial: at least one proof is not the honest one"
	off := assume("coordinates are below the field prime; proof fields may be off the curve, statement points are on it")
	reg("C15", rule, 4000, 24000, genVerify(kG), checkVerify, off, degen(kG))
	reg("C16", rule, 2400, 15000, genVerify(kE), checkVerify, off, degen(kE))
	reg("C17", rule, 2400, 15000, genVerify(kC), checkVerify, off, degen(kC))
	reg("C18", rule, 2200, 14000, genVerify(kD), checkVerify, off, degen(kD))
	reg("C19", rule, 1200, 8000, genVerify(kA), checkVerify, off, degen(kA))
	reg("C20", rule, 1200, 8000, genVerify(kI), checkVerify, off, enum(enumI), degen(kI))
	reg("C21", rule, 150, 1200, genVerify(kR), checkVerify, off, degen(kR), lazyEnum(len(rangeLengths), func(i int) caseVerify { return rangeLength(rangeLengths[i]) }))
}
