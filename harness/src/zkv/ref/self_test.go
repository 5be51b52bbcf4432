// Self-test of the reference arithmetic against math/big.
package ref

import (
	"crypto/rand"
	"math/big"
	"testing"
)

func TestSelf(t *testing.T) {
	for i := 0; i < 300000; i++ {
		a, _ := rand.Int(rand.Reader, P)
		b, _ := rand.Int(rand.Reader, P)
		if i%7 == 0 {
			a.Sub(P, big.NewInt(int64(i%1000)+1))
		}
		if i%11 == 0 {
			b.Sub(P, big.NewInt(int64(i%100)+1))
		}
		if i%13 == 0 {
			b.SetBit(new(big.Int), i%256, 1)
		}
		fa, fb := feFrom(a), feFrom(b)
		m := new(big.Int).Mul(a, b)
		m.Mod(m, P)
		if feMul(fa, fb).big().Cmp(m) != 0 {
			t.Fatal("mul")
		}
		m.Add(a, b).Mod(m, P)
		if feAdd(fa, fb).big().Cmp(m) != 0 {
			t.Fatal("add")
		}
		m.Sub(a, b).Mod(m, P)
		if feSub(fa, fb).big().Cmp(m) != 0 {
			t.Fatal("sub")
		}
	}
	if !Mul(G, N).IsInf() {
		t.Fatal()
	}
	for i := 0; i < 200; i++ {
		a, _ := rand.Int(rand.Reader, N)
		b, _ := rand.Int(rand.Reader, N)
		A, B := toJac(G).mul(a).affine(), Mul(G, b)
		if !A.Eq(Mul(G, a)) {
			t.Fatal("comb")
		}
		if !A.Valid() || !Add(A, B).Eq(Mul(G, new(big.Int).Add(a, b))) {
			t.Fatal("hom")
		}
		if !Sub(A, B).Eq(Mul(G, new(big.Int).Sub(a, b))) {
			t.Fatal("hom")
		}
		if !Mul(A, b).Eq(Mul(B, a)) {
			t.Fatal("c")
		}
		if !Mul(A, Lambda).Eq(Pt{new(big.Int).Mod(new(big.Int).Mul(A.X, Beta), P), A.Y}) {
			t.Fatal("lam")
		}
	}
}
