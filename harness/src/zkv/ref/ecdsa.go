package ref

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"math/big"
)

// HashInt reads the leftmost 256 bits of a hash.
func HashInt(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return new(big.Int).SetBytes(h)
}

func fill32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

func hmac256(k []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, k)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// Nonce6979 is RFC 6979, section 3.2, for secp256k1 with SHA-256.
func Nonce6979(d *big.Int, hash []byte) *big.Int {
	x := fill32(d)
	h := fill32(ModN(HashInt(hash)))
	v, k := make([]byte, 32), make([]byte, 32)
	for i := range v {
		v[i] = 1
	}
	k = hmac256(k, v, []byte{0}, x, h)
	v = hmac256(k, v)
	k = hmac256(k, v, []byte{1}, x, h)
	v = hmac256(k, v)
	for {
		v = hmac256(k, v)
		s := new(big.Int).SetBytes(v)
		if s.Sign() > 0 && s.Cmp(N) < 0 {
			return s
		}
		k = hmac256(k, v, []byte{0})
		v = hmac256(k, v)
	}
}

// SignWith signs with a given nonce, S as it comes.
func SignWith(d *big.Int, hash []byte, k *big.Int) (r, s *big.Int) {
	r = ModN(Mul(G, k).X)
	s = new(big.Int).Mul(d, r)
	s.Add(s, HashInt(hash))
	s.Mul(s, new(big.Int).ModInverse(k, N))
	return r, ModN(s)
}

// Sign is the deterministic low-S signature.
func Sign(d *big.Int, hash []byte) (r, s *big.Int) {
	r, s = SignWith(d, hash, Nonce6979(d, hash))
	if s.Cmp(HalfN) > 0 {
		s = new(big.Int).Sub(N, s)
	}
	return
}

// ECDSAVerify is the textbook equation.
func ECDSAVerify(q Pt, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 || q.IsInf() {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := ModN(new(big.Int).Mul(HashInt(hash), w))
	u2 := ModN(new(big.Int).Mul(r, w))
	p := Lin(G, u1, q, u2)
	return !p.IsInf() && ModN(p.X).Cmp(r) == 0
}

// DERInt is the minimal encoding of a non-negative integer.
func DERInt(v *big.Int) []byte {
	b := v.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

// DER encodes a signature with its low S.
func DER(r, s *big.Int) []byte {
	if s.Cmp(HalfN) > 0 {
		s = new(big.Int).Sub(N, s)
	}
	body := append(DERInt(r), DERInt(s)...)
	return append([]byte{0x30, byte(len(body))}, body...)
}

// ParseSig parses 30 len 02 rlen r 02 slen s; what follows the announced
// length is ignored, as in Bitcoin's signatures with a hash type behind them.
func ParseSig(b []byte, strict bool) (r, s *big.Int, err error) {
	e := errors.New("malformed")
	if len(b) < 2 || b[0] != 0x30 || int(b[1]) > len(b)-2 {
		return nil, nil, e
	}
	b = b[2 : 2+int(b[1])]
	next := func() *big.Int {
		if len(b) < 2 || b[0] != 2 || b[1] == 0 || int(b[1]) > len(b)-2 {
			return nil
		}
		v := b[2 : 2+int(b[1])]
		b = b[2+int(b[1]):]
		if strict && (v[0] >= 0x80 || len(v) > 1 && v[0] == 0 && v[1] < 0x80) {
			return nil
		}
		n := new(big.Int).SetBytes(v)
		if n.Sign() == 0 || n.Cmp(N) >= 0 {
			return nil
		}
		return n
	}
	if r = next(); r == nil {
		return nil, nil, e
	}
	if s = next(); s == nil || len(b) != 0 {
		return nil, nil, e
	}
	return r, s, nil
}

// ParsePub parses a public key in one of the three standard forms.
func ParsePub(b []byte) (Pt, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		x := new(big.Int).SetBytes(b[1:])
		if x.Cmp(P) >= 0 {
			return Pt{}, false
		}
		return Lift(x, b[0] == 3)
	case len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		p := Pt{new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])}
		if p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 || !OnCurve(p.X, p.Y) {
			return Pt{}, false
		}
		if b[0] != 4 && p.Y.Bit(0) != uint(b[0]&1) {
			return Pt{}, false
		}
		return p, true
	}
	return Pt{}, false
}

// Pub encodes a public key; form is 2 (compressed), 4 or 6 (hybrid).
func Pub(p Pt, form byte) []byte {
	f := form
	if form != 4 && p.Y.Bit(0) == 1 {
		f |= 1
	}
	b := append([]byte{f}, fill32(p.X)...)
	if form != 2 {
		b = append(b, fill32(p.Y)...)
	}
	return b
}

// cipherKeys derives the two keys from the shared point: SHA-512 of the
// minimal bytes of its x coordinate.
func cipherKeys(shared Pt) (e, m []byte) {
	d := sha512.Sum512(shared.X.Bytes())
	return d[:32], d[32:]
}

// EncryptWith makes a ciphertext with chosen ephemeral key and IV.
func EncryptWith(q Pt, d *big.Int, iv, plain []byte) []byte {
	return EncryptAs(Mul(G, d), Mul(q, d), iv, plain)
}

// EncryptAs names any ephemeral key and shared point.
func EncryptAs(eph, shared Pt, iv, plain []byte) []byte {
	pad := 16 - len(plain)%16
	body := append([]byte{}, plain...)
	for i := 0; i < pad; i++ {
		body = append(body, byte(pad))
	}
	return encrypt(eph, shared, iv, body)
}

// EncryptRaw encrypts blocks as they are, without padding.
func EncryptRaw(q Pt, d *big.Int, iv, body []byte) []byte {
	return encrypt(Mul(G, d), Mul(q, d), iv, append([]byte{}, body...))
}

func encrypt(eph, shared Pt, iv, body []byte) []byte {
	e, m := cipherKeys(shared)
	out := append([]byte{}, iv...)
	out = append(out, 0x02, 0xca, 0, 32)
	out = append(out, fill32(eph.X)...)
	out = append(out, 0, 32)
	out = append(out, fill32(eph.Y)...)
	blk, err := aes.NewCipher(e)
	if err != nil {
		panic(err)
	}
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(body, body)
	out = append(out, body...)
	return append(out, hmac256(m, out)...)
}

// DecryptWith reads a ciphertext; ok is false if it is not an authentic one.
func DecryptWith(d *big.Int, c []byte) ([]byte, bool) {
	if len(c) < 16+70+16+32 || (len(c)-16-70-32)%16 != 0 {
		return nil, false
	}
	if string(c[16:20]) != "\x02\xca\x00\x20" || string(c[52:54]) != "\x00\x20" {
		return nil, false
	}
	eph, ok := ParsePub(append(append([]byte{4}, c[20:52]...), c[54:86]...))
	if !ok {
		return nil, false
	}
	e, m := cipherKeys(Mul(eph, d))
	n := len(c) - 32
	if !hmac.Equal(hmac256(m, c[:n]), c[n:]) {
		return nil, false
	}
	blk, err := aes.NewCipher(e)
	if err != nil {
		panic(err)
	}
	body := append([]byte{}, c[86:n]...)
	cipher.NewCBCDecrypter(blk, c[:16]).CryptBlocks(body, body)
	pad := int(body[len(body)-1])
	if pad < 1 || pad > 16 {
		return nil, false
	}
	return body[:len(body)-pad], true
}

// LiftY finds a point with the given y.
func LiftY(y *big.Int) (Pt, bool) {
	a := new(big.Int).Mul(y, y)
	a.Sub(a, big.NewInt(7)).Mod(a, P)
	// P = 7 mod 9: a cube root of a cube is a^((P+2)/9).
	e := new(big.Int).Add(P, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	p := Pt{new(big.Int).Exp(a, e, P), new(big.Int).Set(y)}
	return p, OnCurve(p.X, p.Y)
}
