//go:build zkvfield

package props

import (
	"math/big"

	"zkv/ref"

	"github.com/mit-dci/zksigma/btcec"
)

// The group law on the inner representation: every combination of Z
// coordinates, most of which Add on affine points never makes.

func init() {
	if btcec.ZkvHasJac() {
		jacobian = jacLaw
	}
}

// jacOf is p with the Z coordinate z; an infinite p gets Z=0 or X=Y=0.
func jacOf(p ref.Pt, z *big.Int) *btcec.ZkvJac {
	j := new(btcec.ZkvJac)
	z = new(big.Int).Mod(z, ref.P)
	if p.IsInf() {
		if z.Bit(0) == 1 {
			j.Set(bi(0), bi(0), z)
		} else {
			j.Set(z, z, bi(0))
		}
		return j
	}
	if z.Sign() == 0 {
		z = bi(1)
	}
	m := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, ref.P) }
	z2 := m(z, z)
	j.Set(m(p.X, z2), m(p.Y, m(z2, z)), z)
	return j
}

// ptOf is the affine point of j.
func ptOf(j *btcec.ZkvJac) ref.Pt {
	c := j.Ints()
	if c[2].Sign() == 0 || (c[0].Sign() == 0 && c[1].Sign() == 0) {
		return ref.Inf()
	}
	i := new(big.Int).ModInverse(c[2], ref.P)
	i2 := new(big.Int).Mul(i, i)
	x := new(big.Int).Mul(c[0], i2)
	y := new(big.Int).Mul(c[1], i2)
	y.Mul(y.Mod(y, ref.P), i)
	return ref.Pt{X: x.Mod(x, ref.P), Y: y.Mod(y, ref.P)}
}

func jacLaw(c caseC01, r *Rec) error {
	z1, z2 := c.Z[0], c.Z[1]
	r.Class("Z %s", c.ZKind)
	want := ref.Add(c.A, c.B)
	for _, alias := range []bool{false, true} {
		p, q := jacOf(c.A, z1), jacOf(c.B, z2)
		s := new(btcec.ZkvJac)
		if alias {
			s = p
		}
		s.Add(p, q)
		if got := ptOf(s); !got.Eq(want) {
			return bad("Jacobian %v (Z=%x) + %v (Z=%x) = %v, want %v (result in place of the first point: %v)", c.A, z1, c.B, z2, got, want, alias)
		}
		if x, y := s.Affine(); !(ref.Pt{X: x, Y: y}).Eq(want) {
			return bad("the affine form of Jacobian %v (Z=%x) + %v (Z=%x) is (%x, %x), want %v", c.A, z1, c.B, z2, x, y, want)
		}
		if !ptOf(q).Eq(c.B) || (!alias && !ptOf(p).Eq(c.A)) {
			return bad("Jacobian addition changed its arguments")
		}
		p = jacOf(c.A, z1)
		d := new(btcec.ZkvJac)
		if alias {
			d = p
		}
		d.Double(p)
		if got := ptOf(d); !got.Eq(ref.Add(c.A, c.A)) {
			return bad("the double of Jacobian %v (Z=%x) is %v, want %v (in place: %v)", c.A, z1, got, ref.Add(c.A, c.A), alias)
		}
		// A result as it comes, unnormalised, is used again.
		acc, sum := s, want
		for i, x := range c.List {
			if i%3 == 2 {
				acc.Double(acc)
				sum = ref.Add(sum, sum)
			}
			t := jacOf(x, c.Z[i%len(c.Z)])
			if i%4 == 3 { // the result so far, with the same Z
				ci := acc.Ints()
				if ci[2].Sign() != 0 {
					t = jacOf(x, ci[2])
				}
			}
			acc.Add(acc, t)
			sum = ref.Add(sum, x)
			if got := ptOf(acc); !got.Eq(sum) {
				return bad("after step %d of a Jacobian sum: %v, want %v", i, got, sum)
			}
		}
		acc.Add(acc, acc.Copy())
		sum = ref.Add(sum, sum)
		if got := ptOf(acc); !got.Eq(sum) {
			return bad("adding a Jacobian sum to itself: %v, want %v", got, sum)
		}
	}
	return nil
}
