package props

import (
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

// Every value handed to the code under test is a copy, so that a case stays
// what it was.

func zp(p ref.Pt) zk.ECPoint { return zk.ECPoint{X: cp(p.X), Y: cp(p.Y)} }
func rp(p zk.ECPoint) ref.Pt { return ref.Pt{X: p.X, Y: p.Y} }

func zcurve(pr ref.Params) zk.ZKPCurveParams {
	z := zk.ZKPCurveParams{C: btcec.S256(), G: zp(pr.G), H: zp(pr.H)}
	for _, b := range pr.Bits {
		z.HPoints = append(z.HPoints, zp(b))
	}
	return z
}

func toGSPFS(p ref.GSPFS) *zk.GSPFSProof {
	return &zk.GSPFSProof{Base: zp(p.Base), RandCommit: zp(p.T), HiddenValue: cp(p.S), Challenge: cp(p.C)}
}
func fromGSPFS(p *zk.GSPFSProof) ref.GSPFS {
	return ref.GSPFS{Base: rp(p.Base), T: rp(p.RandCommit), S: p.HiddenValue, C: p.Challenge}
}
func toEquiv(p ref.Equiv) *zk.EquivalenceProof {
	return &zk.EquivalenceProof{UG: zp(p.T1), UH: zp(p.T2), Challenge: cp(p.C), HiddenValue: cp(p.S)}
}
func fromEquiv(p *zk.EquivalenceProof) ref.Equiv {
	return ref.Equiv{T1: rp(p.UG), T2: rp(p.UH), C: p.Challenge, S: p.HiddenValue}
}
func toConsist(p ref.Consist) *zk.ConsistencyProof {
	return &zk.ConsistencyProof{T1: zp(p.T1), T2: zp(p.T2), Challenge: cp(p.C), S1: cp(p.S1), S2: cp(p.S2)}
}
func fromConsist(p *zk.ConsistencyProof) ref.Consist {
	return ref.Consist{T1: rp(p.T1), T2: rp(p.T2), C: p.Challenge, S1: p.S1, S2: p.S2}
}
func toDisj(p ref.Disj) *zk.DisjunctiveProof {
	return &zk.DisjunctiveProof{T1: zp(p.T1), T2: zp(p.T2), C: cp(p.C), C1: cp(p.C1), C2: cp(p.C2), S1: cp(p.S1), S2: cp(p.S2)}
}
func fromDisj(p *zk.DisjunctiveProof) ref.Disj {
	return ref.Disj{T1: rp(p.T1), T2: rp(p.T2), C: p.C, C1: p.C1, C2: p.C2, S1: p.S1, S2: p.S2}
}

// An ABC proof has private fields: it goes through its encoding.
func toABC(p ref.ABC) (*zk.ABCProof, error) { return zk.NewABCProofFromBytes(p.Enc()) }
func fromABC(p *zk.ABCProof) (ref.ABC, error) {
	r, err, _ := ref.DecABC(p.Bytes())
	return r, err
}

func toRange(p ref.Range) (*zk.RangeProof, error) { return zk.NewRangeProofFromBytes(p.Enc()) }
func fromRange(p *zk.RangeProof) ref.Range {
	r := ref.Range{Agg: rp(p.ProofAggregate), E: p.ProofE}
	for _, t := range p.ProofTuples {
		r.Tuples = append(r.Tuples, ref.RTuple{C: rp(t.C), S: t.S})
	}
	return r
}

// verdict demands that a verifier's two results agree, and returns them as one.
func verdict(ok bool, err error) (bool, error) {
	if ok != (err == nil) {
		return false, bad("verifier returned ok=%v with error %v", ok, err)
	}
	if err != nil {
		_ = err.Error() // a message, and no panic
	}
	return ok, nil
}

func reduced(vs ...*big.Int) bool {
	for _, v := range vs {
		if v == nil || v.Sign() < 0 || v.Cmp(ref.N) >= 0 {
			return false
		}
	}
	return true
}
