package btcec

import "math/big"

// Added to the package by an overlay when the Jacobian arithmetic is checked.
// Methods are looked up, so that a tree without one of them still builds.

type ZkvJac struct{ x, y, z fieldVal }

func ZkvHasJac() bool {
	_, a := interface{}(S256()).(zkvAdd)
	_, b := interface{}(S256()).(zkvDouble)
	_, c := interface{}(S256()).(zkvAffine)
	_, d := interface{}(new(fieldVal)).(zkvBytes)
	return a && b && c && d
}

type zkvAdd interface {
	addJacobian(x1, y1, z1, x2, y2, z2, x3, y3, z3 *fieldVal)
}
type zkvDouble interface {
	doubleJacobian(x1, y1, z1, x3, y3, z3 *fieldVal)
}
type zkvAffine interface {
	fieldJacobianToBigAffine(x, y, z *fieldVal) (*big.Int, *big.Int)
}
type zkvBytes interface {
	SetByteSlice([]byte) *fieldVal
	Normalize() *fieldVal
	Bytes() *[32]byte
}

func (p *ZkvJac) Set(x, y, z *big.Int) {
	for i, f := range []*fieldVal{&p.x, &p.y, &p.z} {
		var b [32]byte
		[]*big.Int{x, y, z}[i].FillBytes(b[:])
		interface{}(f).(zkvBytes).SetByteSlice(b[:])
	}
}

// Ints gives the coordinates without changing the point.
func (p *ZkvJac) Ints() [3]*big.Int {
	var r [3]*big.Int
	for i, f := range []fieldVal{p.x, p.y, p.z} {
		f := f
		n := interface{}(&f).(zkvBytes)
		n.Normalize()
		r[i] = new(big.Int).SetBytes(n.Bytes()[:])
	}
	return r
}

func (r *ZkvJac) Add(p, q *ZkvJac) {
	interface{}(S256()).(zkvAdd).addJacobian(&p.x, &p.y, &p.z, &q.x, &q.y, &q.z, &r.x, &r.y, &r.z)
}

func (r *ZkvJac) Double(p *ZkvJac) {
	interface{}(S256()).(zkvDouble).doubleJacobian(&p.x, &p.y, &p.z, &r.x, &r.y, &r.z)
}

// Affine does not change the point.
func (p *ZkvJac) Affine() (*big.Int, *big.Int) {
	c := *p
	return interface{}(S256()).(zkvAffine).fieldJacobianToBigAffine(&c.x, &c.y, &c.z)
}

func (p *ZkvJac) Copy() *ZkvJac { c := *p; return &c }
