// Package ref is an independent reference model of what zksigma computes:
// secp256k1, SHA-256 challenges, the verifiers' equations, provers that take
// their nonces as arguments, and the wire formats. It imports nothing from
// the code under test.
package ref

import (
	"crypto/sha256"
	"math/big"
	"math/bits"
)

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	P      = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N      = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	HalfN  = new(big.Int).Rsh(N, 1)
	Lambda = hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
	Beta   = hexInt("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE")
	G      = Pt{hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	// H is TestCurve's second generator: even Y, X = SHA-256(Gx+2).
	H Pt
)

// Pt is an affine point; infinity is (0, 0).
type Pt struct{ X, Y *big.Int }

func Inf() Pt { return Pt{new(big.Int), new(big.Int)} }

func (p Pt) IsInf() bool    { return p.X.Sign() == 0 && p.Y.Sign() == 0 }
func (p Pt) Eq(q Pt) bool   { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }
func (p Pt) Copy() Pt       { return Pt{new(big.Int).Set(p.X), new(big.Int).Set(p.Y)} }
func (p Pt) Bytes() []byte  { return append(append([]byte{}, p.X.Bytes()...), p.Y.Bytes()...) }
func (p Pt) String() string { return "(" + p.X.Text(16) + "," + p.Y.Text(16) + ")" }
func (p Pt) Canonical() bool {
	return p.X.Sign() >= 0 && p.Y.Sign() >= 0 && p.X.Cmp(P) < 0 && p.Y.Cmp(P) < 0
}

// Valid says that p is infinity or a canonical point of the curve.
func (p Pt) Valid() bool { return p.Canonical() && (p.IsInf() || OnCurve(p.X, p.Y)) }

// OnCurve evaluates the curve equation with math/big.
func OnCurve(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	l.Mod(l, P)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	r.Mod(r, P)
	return l.Cmp(r) == 0
}

// ---- field elements: four 64-bit limbs, always fully reduced ----

type fe [4]uint64

const redC = 0x1000003D1 // 2^256 - P

var feP = fe{0xFFFFFFFEFFFFFC2F, ^uint64(0), ^uint64(0), ^uint64(0)}

func feFrom(b *big.Int) fe {
	var buf [32]byte
	new(big.Int).Mod(b, P).FillBytes(buf[:])
	var r fe
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[i] |= uint64(buf[31-8*i-j]) << (8 * uint(j))
		}
	}
	return r
}

func (a fe) big() *big.Int {
	var buf [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			buf[31-8*i-j] = byte(a[i] >> (8 * uint(j)))
		}
	}
	return new(big.Int).SetBytes(buf[:])
}

func (a fe) zero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

func feSubP(a fe) (fe, uint64) {
	var r fe
	var b uint64
	r[0], b = bits.Sub64(a[0], feP[0], 0)
	r[1], b = bits.Sub64(a[1], feP[1], b)
	r[2], b = bits.Sub64(a[2], feP[2], b)
	r[3], b = bits.Sub64(a[3], feP[3], b)
	return r, b
}

func feAdd(a, b fe) fe {
	var r fe
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], c = bits.Add64(a[3], b[3], c)
	s, borrow := feSubP(r)
	if c == 1 || borrow == 0 {
		return s
	}
	return r
}

func feNeg(a fe) fe {
	if a.zero() {
		return a
	}
	var r fe
	var b uint64
	r[0], b = bits.Sub64(feP[0], a[0], 0)
	r[1], b = bits.Sub64(feP[1], a[1], b)
	r[2], b = bits.Sub64(feP[2], a[2], b)
	r[3], _ = bits.Sub64(feP[3], a[3], b)
	return r
}

func feSub(a, b fe) fe { return feAdd(a, feNeg(b)) }

func feMul(a, b fe) fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var c uint64
			lo, c = bits.Add64(lo, t[i+j], 0)
			hi += c
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			t[i+j] = lo
			carry = hi
		}
		t[i+4] = carry
	}
	// lo + hi*redC
	var r [5]uint64
	var carry uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(t[i+4], redC)
		var c uint64
		lo, c = bits.Add64(lo, t[i], 0)
		hi += c
		lo, c = bits.Add64(lo, carry, 0)
		hi += c
		r[i] = lo
		carry = hi
	}
	// fold the fifth limb (< 2^34)
	hi, lo := bits.Mul64(carry, redC)
	var out fe
	var c uint64
	out[0], c = bits.Add64(r[0], lo, 0)
	out[1], c = bits.Add64(r[1], hi, c)
	out[2], c = bits.Add64(r[2], 0, c)
	out[3], c = bits.Add64(r[3], 0, c)
	if c == 1 {
		out[0], c = bits.Add64(out[0], redC, 0)
		out[1], c = bits.Add64(out[1], 0, c)
		out[2], c = bits.Add64(out[2], 0, c)
		out[3], _ = bits.Add64(out[3], 0, c)
	}
	s, borrow := feSubP(out)
	if borrow == 0 {
		return s
	}
	return out
}

func feInv(a fe) fe { return feFrom(new(big.Int).ModInverse(a.big(), P)) }

// ---- Jacobian points ----

type jac struct{ x, y, z fe } // infinity: z == 0

func toJac(p Pt) jac {
	if p.IsInf() {
		return jac{}
	}
	return jac{feFrom(p.X), feFrom(p.Y), fe{1}}
}

func (j jac) affine() Pt {
	if j.z.zero() {
		return Inf()
	}
	zi := feInv(j.z)
	zi2 := feMul(zi, zi)
	return Pt{feMul(j.x, zi2).big(), feMul(j.y, feMul(zi2, zi)).big()}
}

func (p jac) dbl() jac {
	if p.z.zero() || p.y.zero() {
		return jac{}
	}
	// textbook: S = 4xy^2, M = 3x^2
	y2 := feMul(p.y, p.y)
	s := feMul(p.x, y2)
	s = feAdd(s, s)
	s = feAdd(s, s)
	m := feMul(p.x, p.x)
	m = feAdd(feAdd(m, m), m)
	x := feSub(feMul(m, m), feAdd(s, s))
	y4 := feMul(y2, y2)
	y4 = feAdd(y4, y4)
	y4 = feAdd(y4, y4)
	y4 = feAdd(y4, y4)
	y := feSub(feMul(m, feSub(s, x)), y4)
	z := feMul(p.y, p.z)
	return jac{x, y, feAdd(z, z)}
}

func (p jac) add(q jac) jac {
	if p.z.zero() {
		return q
	}
	if q.z.zero() {
		return p
	}
	z1z1 := feMul(p.z, p.z)
	z2z2 := feMul(q.z, q.z)
	u1 := feMul(p.x, z2z2)
	u2 := feMul(q.x, z1z1)
	s1 := feMul(p.y, feMul(z2z2, q.z))
	s2 := feMul(q.y, feMul(z1z1, p.z))
	if u1 == u2 {
		if s1 == s2 {
			return p.dbl()
		}
		return jac{}
	}
	h := feSub(u2, u1)
	r := feSub(s2, s1)
	h2 := feMul(h, h)
	h3 := feMul(h2, h)
	v := feMul(u1, h2)
	x := feSub(feSub(feMul(r, r), h3), feAdd(v, v))
	y := feSub(feMul(r, feSub(v, x)), feMul(s1, h3))
	return jac{x, y, feMul(h, feMul(p.z, q.z))}
}

func (p jac) mul(k *big.Int) jac {
	var tab [16]jac
	for i := 1; i < 16; i++ {
		tab[i] = tab[i-1].add(p)
	}
	var buf [32]byte
	k.FillBytes(buf[:])
	var r jac
	for _, b := range buf {
		for _, n := range [2]byte{b >> 4, b & 15} {
			r = r.dbl().dbl().dbl().dbl()
			r = r.add(tab[n])
		}
	}
	return r
}

// comb is a fixed-base table: comb[i][b] = b * 256^i * base
type comb [32][256]jac

func newComb(p Pt) *comb {
	c := new(comb)
	base := toJac(p)
	for i := 0; i < 32; i++ {
		for b := 1; b < 256; b++ {
			c[i][b] = c[i][b-1].add(base)
		}
		base = c[i][255].add(base)
	}
	return c
}

func (c *comb) mul(k *big.Int) jac {
	var buf [32]byte
	k.FillBytes(buf[:])
	var r jac
	for i := 0; i < 32; i++ {
		r = r.add(c[i][buf[31-i]])
	}
	return r
}

var combG, combH *comb

// ModN reduces any integer into [0, N).
func ModN(k *big.Int) *big.Int { return new(big.Int).Mod(k, N) }

func mulJac(p Pt, k *big.Int) jac {
	m := ModN(k)
	if combG != nil && p.Eq(G) {
		return combG.mul(m)
	}
	if combH != nil && p.Eq(H) {
		return combH.mul(m)
	}
	return toJac(p).mul(m)
}

// Mul returns k*p for a valid point p and any integer k.
func Mul(p Pt, k *big.Int) Pt { return mulJac(p, k).affine() }

// Add returns p+q for valid points.
func Add(p, q Pt) Pt { return toJac(p).add(toJac(q)).affine() }

// Sum returns the sum of k_i*p_i.
func Sum(ps []Pt, ks []*big.Int) Pt {
	var r jac
	for i := range ps {
		r = r.add(mulJac(ps[i], ks[i]))
	}
	return r.affine()
}

// Lin returns a*p + b*q.
func Lin(p Pt, a *big.Int, q Pt, b *big.Int) Pt { return mulJac(p, a).add(mulJac(q, b)).affine() }

func Neg(p Pt) Pt {
	if p.Y.Sign() == 0 {
		return p.Copy()
	}
	return Pt{new(big.Int).Set(p.X), new(big.Int).Sub(P, p.Y)}
}

func Sub(p, q Pt) Pt { return Add(p, Neg(q)) }

// Lift returns the point with the given x and parity of y, if there is one.
func Lift(x *big.Int, odd bool) (Pt, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Pt{}, false
	}
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	r.Mod(r, P)
	y := new(big.Int).ModSqrt(r, P)
	if y == nil {
		return Pt{}, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	return Pt{new(big.Int).Set(x), y}, true
}

func init() {
	d := sha256.Sum256(new(big.Int).Add(G.X, big.NewInt(2)).Bytes())
	var ok bool
	if H, ok = Lift(new(big.Int).SetBytes(d[:]), false); !ok {
		panic("H")
	}
	combG = newComb(G)
	combH = newComb(H)
}
