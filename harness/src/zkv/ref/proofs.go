package ref

import (
	"crypto/sha256"
	"math/big"
)

// Params are the public parameters of a proof system over secp256k1.
type Params struct {
	G, H Pt
	Bits []Pt // Bits[i] = 2^i * G, for range proofs
}

// Std are the parameters of zksigma's TestCurve.
var Std Params

func MakeParams(g, h Pt) Params {
	p := Params{G: g, H: h}
	b := toJac(g)
	for i := 0; i < 64; i++ {
		p.Bits = append(p.Bits, b.affine())
		b = b.dbl()
	}
	return p
}

func init() { Std = MakeParams(G, H) }

func (pr Params) Commit(v, r *big.Int) Pt { return Lin(pr.G, v, pr.H, r) }

// Challenge is SHA-256 over the concatenation, modulo N.
func Challenge(parts ...[]byte) *big.Int {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return ModN(new(big.Int).SetBytes(h.Sum(nil)))
}

func ChallengePts(pts ...Pt) *big.Int {
	var bs [][]byte
	for _, p := range pts {
		bs = append(bs, p.Bytes())
	}
	return Challenge(bs...)
}

func addMul(u, c, x *big.Int) *big.Int {
	r := new(big.Int).Mul(c, x)
	r.Add(r, u)
	return r.Mod(r, N)
}

func valid(ps ...Pt) bool {
	for _, p := range ps {
		if !p.Valid() {
			return false
		}
	}
	return true
}

// ---- GSPFS ----

type GSPFS struct {
	Base, T Pt
	S, C    *big.Int
}

func GSPFSChallenge(base, a, t Pt) *big.Int { return ChallengePts(base, a, t) }

func (p GSPFS) Verify(a Pt) bool {
	return valid(p.Base, p.T, a) &&
		GSPFSChallenge(p.Base, a, p.T).Cmp(p.C) == 0 &&
		Lin(p.Base, p.S, a, p.C).Eq(p.T)
}

func ProveGSPFS(base, a Pt, x, u *big.Int) GSPFS {
	t := Mul(base, u)
	c := GSPFSChallenge(base, a, t)
	return GSPFS{base, t, addMul(u, new(big.Int).Neg(c), x), c}
}

// ---- Equivalence ----

type Equiv struct {
	T1, T2 Pt
	C, S   *big.Int
}

func EquivChallenge(b1, r1, b2, r2, t1, t2 Pt) *big.Int {
	return ChallengePts(b1, r1, b2, r2, t1, t2)
}

func (p Equiv) Verify(b1, r1, b2, r2 Pt) bool {
	return valid(p.T1, p.T2, b1, r1, b2, r2) &&
		EquivChallenge(b1, r1, b2, r2, p.T1, p.T2).Cmp(p.C) == 0 &&
		Mul(b1, p.S).Eq(Add(p.T1, Mul(r1, p.C))) &&
		Mul(b2, p.S).Eq(Add(p.T2, Mul(r2, p.C)))
}

func ProveEquiv(b1, r1, b2, r2 Pt, x, u *big.Int) Equiv {
	t1, t2 := Mul(b1, u), Mul(b2, u)
	c := EquivChallenge(b1, r1, b2, r2, t1, t2)
	return Equiv{t1, t2, c, addMul(u, c, x)}
}

// ---- Consistency ----

type Consist struct {
	T1, T2    Pt
	C, S1, S2 *big.Int
}

func (pr Params) ConsistChallenge(cm, tok, pk, t1, t2 Pt) *big.Int {
	return ChallengePts(pr.G, pr.H, cm, tok, pk, t1, t2)
}

func (p Consist) Verify(pr Params, cm, tok, pk Pt) bool {
	return valid(p.T1, p.T2, cm, tok, pk) &&
		pr.ConsistChallenge(cm, tok, pk, p.T1, p.T2).Cmp(p.C) == 0 &&
		pr.Commit(p.S1, p.S2).Eq(Add(p.T1, Mul(cm, p.C))) &&
		Mul(pk, p.S2).Eq(Add(p.T2, Mul(tok, p.C)))
}

func (pr Params) ProveConsist(cm, tok, pk Pt, v, r, u1, u2 *big.Int) Consist {
	t1, t2 := pr.Commit(u1, u2), Mul(pk, u2)
	c := pr.ConsistChallenge(cm, tok, pk, t1, t2)
	return Consist{t1, t2, c, addMul(u1, c, v), addMul(u2, c, r)}
}

// ---- Disjunctive ----

type Disj struct {
	T1, T2            Pt
	C, C1, C2, S1, S2 *big.Int
}

func DisjChallenge(b1, r1, b2, r2, t1, t2 Pt) *big.Int {
	return ChallengePts(b1, r1, b2, r2, t1, t2)
}

func (p Disj) Verify(b1, r1, b2, r2 Pt) bool {
	return valid(p.T1, p.T2, b1, r1, b2, r2) &&
		DisjChallenge(b1, r1, b2, r2, p.T1, p.T2).Cmp(p.C) == 0 &&
		ModN(new(big.Int).Add(p.C1, p.C2)).Cmp(p.C) == 0 &&
		Mul(b1, p.S1).Eq(Add(p.T1, Mul(r1, p.C1))) &&
		Mul(b2, p.S2).Eq(Add(p.T2, Mul(r2, p.C2)))
}

// ProveDisj proves the left (side 0) or right (side 1) statement with witness
// x, nonce u, and simulates the other with challenge oc and response os.
func ProveDisj(b1, r1, b2, r2 Pt, x *big.Int, side int, u, oc, os *big.Int) Disj {
	if side == 0 {
		t1 := Mul(b1, u)
		t2 := Lin(b2, os, r2, new(big.Int).Neg(oc))
		c := DisjChallenge(b1, r1, b2, r2, t1, t2)
		c1 := ModN(new(big.Int).Sub(c, oc))
		return Disj{t1, t2, c, c1, oc, addMul(u, c1, x), os}
	}
	t2 := Mul(b2, u)
	t1 := Lin(b1, os, r1, new(big.Int).Neg(oc))
	c := DisjChallenge(b1, r1, b2, r2, t1, t2)
	c2 := ModN(new(big.Int).Sub(c, oc))
	return Disj{t1, t2, c, oc, c2, os, addMul(u, c2, x)}
}

// ---- ABC ----

type ABC struct {
	B, Cm, T1, T2 Pt // Cm is the commitment called C
	C             *big.Int
	J, K, L       *big.Int
	CTok          Pt
	D             Disj
}

func (pr Params) ABCChallenge(cm, tok, b, c, t1, t2 Pt) *big.Int {
	return ChallengePts(pr.G, pr.H, cm, tok, b, c, t1, t2)
}

func (p ABC) Verify(pr Params, cm, tok Pt) bool {
	return valid(p.B, p.Cm, p.T1, p.T2, cm, tok) &&
		p.D.Verify(cm, tok, pr.H, Sub(p.Cm, pr.G)) &&
		pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2).Cmp(p.C) == 0 &&
		Add(Mul(cm, p.C), p.T1).Eq(Lin(pr.G, p.J, tok, p.K)) &&
		Add(Mul(p.Cm, p.C), p.T2).Eq(Lin(p.B, p.J, pr.H, p.L))
}

// ABCNonces are the random choices of an ABC prover.
type ABCNonces struct{ U1, U2, U3, Ub, Uc, Du, Doc, Dos *big.Int }

func (pr Params) ProveABC(cm, tok Pt, v, sk *big.Int, n ABCNonces) ABC {
	v = ModN(v)
	var p ABC
	inv, one := new(big.Int), new(big.Int)
	if v.Sign() != 0 {
		inv.ModInverse(v, N)
		one.SetInt64(1)
	}
	p.B = pr.Commit(inv, n.Ub)
	p.Cm = pr.Commit(one, n.Uc)
	p.CTok = Mul(Mul(pr.H, sk), n.Uc)
	if v.Sign() == 0 {
		p.D = ProveDisj(cm, tok, pr.H, Sub(p.Cm, pr.G), sk, 0, n.Du, n.Doc, n.Dos)
	} else {
		p.D = ProveDisj(cm, tok, pr.H, Sub(p.Cm, pr.G), n.Uc, 1, n.Du, n.Doc, n.Dos)
	}
	p.T1 = Lin(pr.G, n.U1, tok, n.U2)
	p.T2 = Lin(p.B, n.U1, pr.H, n.U3)
	p.C = pr.ABCChallenge(cm, tok, p.B, p.Cm, p.T1, p.T2)
	p.J = addMul(n.U1, p.C, v)
	p.K = addMul(n.U2, p.C, new(big.Int).ModInverse(ModN(sk), N))
	t := new(big.Int).Mul(v, n.Ub)
	t.Sub(n.Uc, t)
	p.L = addMul(n.U3, p.C, t)
	return p
}

// ---- Range ----

type RTuple struct {
	C Pt
	S *big.Int
}

type Range struct {
	Agg    Pt
	E      *big.Int
	Tuples []RTuple
}

func hashInt(p Pt) *big.Int {
	d := sha256.Sum256(p.Bytes())
	return new(big.Int).SetBytes(d[:])
}

// Ring returns the points R_i, and the inner points they are hashed from.
func (p Range) Ring(pr Params) (rs, inner []Pt) {
	for i, t := range p.Tuples {
		// s_i*H - e0*(C_i - 2^i*G)
		in := Lin(pr.H, t.S, Sub(t.C, pr.Bits[i]), new(big.Int).Neg(p.E))
		inner = append(inner, in)
		rs = append(rs, Mul(t.C, hashInt(in)))
	}
	return
}

func ringHash(rs []Pt) *big.Int {
	h := sha256.New()
	for _, r := range rs {
		h.Write(r.Bytes())
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

func (p Range) Verify(pr Params, comm Pt) bool {
	if len(p.Tuples) > len(pr.Bits) || !valid(comm) {
		return false
	}
	sum := Inf()
	for _, t := range p.Tuples {
		if !valid(t.C) {
			return false
		}
		sum = Add(sum, t.C)
	}
	if !sum.Eq(p.Agg) || !sum.Eq(comm) {
		return false
	}
	rs, _ := p.Ring(pr)
	return ringHash(rs).Cmp(p.E) == 0
}

// RangeNonces are the per-bit choices: K, and V for a one bit or J for a zero bit.
type RangeNonces struct{ K, VJ *big.Int }

// ProveRange proves that the sum of bits[i]*2^i is committed. It returns the
// proof and the total blinding.
func (pr Params) ProveRange(bits []bool, ns []RangeNonces) (Range, *big.Int) {
	return pr.ProveRangeE(bits, ns, ModN)
}

// ProveRangeE uses e(ring hash) in place of the ring hash.
func (pr Params) ProveRangeE(bits []bool, ns []RangeNonces, e func(*big.Int) *big.Int) (Range, *big.Int) {
	n := len(bits)
	rs := make([]Pt, n)
	p := Range{Tuples: make([]RTuple, n)}
	for i, b := range bits {
		if b {
			p.Tuples[i].C = Add(pr.Bits[i], Mul(pr.H, ns[i].VJ))
			rs[i] = Mul(p.Tuples[i].C, hashInt(Mul(pr.H, ns[i].K)))
		} else {
			rs[i] = Mul(pr.H, ns[i].K)
		}
	}
	e0 := ringHash(rs)
	p.E = e(e0)
	tot := new(big.Int)
	p.Agg = Inf()
	for i, b := range bits {
		if b {
			p.Tuples[i].S = addMul(ns[i].K, p.E, ns[i].VJ)
			tot.Add(tot, ns[i].VJ)
		} else {
			in := Lin(pr.H, ns[i].VJ, pr.Bits[i], p.E)
			inv := new(big.Int).ModInverse(ModN(hashInt(in)), N)
			v := ModN(new(big.Int).Mul(inv, ns[i].K))
			p.Tuples[i].C = Mul(pr.H, v)
			p.Tuples[i].S = addMul(ns[i].VJ, p.E, v)
			tot.Add(tot, v)
		}
		p.Agg = Add(p.Agg, p.Tuples[i].C)
	}
	return p, ModN(tot)
}
