package props

import (
	"bytes"
	"math/big"

	"zkv/ref"

	"github.com/mit-dci/zksigma/btcec"
)

func libPub(p ref.Pt) *btcec.PublicKey {
	return &btcec.PublicKey{Curve: btcec.S256(), X: cp(p.X), Y: cp(p.Y)}
}

func libPriv(d *big.Int) *btcec.PrivateKey {
	k, _ := btcec.PrivKeyFromBytes(btcec.S256(), d.FillBytes(make([]byte, 32)))
	return k
}

func pubPt(k *btcec.PublicKey) ref.Pt { return ref.Pt{X: k.X, Y: k.Y} }

// smallCoord is a point with x or y below 2^256-P, so that the coordinate plus
// P still fits in 32 bytes.
func (g *gen) smallCoord() (p ref.Pt, isX bool) {
	isX = g.flag()
	v := int64(1 + g.pick(64))
	if g.flag() {
		v = 1 + int64(g.u64()>>33)
	}
	for ; ; v++ {
		var ok bool
		if isX {
			p, ok = ref.Lift(bi(v), g.rng.Uint64()&1 == 1)
		} else {
			p, ok = ref.LiftY(bi(v))
		}
		if ok {
			return p, isX
		}
	}
}

// ---- C31 ----

type c31 struct {
	Enc   Hex      // a candidate encoding of a public key
	Point ref.Pt   // a point for the round trip
	D     *big.Int // a secret key
}

func genC31(g *gen) c31 {
	c := c31{Point: g.point(), D: g.nzscalar()}
	p := g.point()
	small, isX := ref.Pt{}, false
	if g.oneIn(4) {
		small, isX = g.smallCoord()
		p = small
		if g.flag() {
			c.Point = small
		}
	}
	form := []byte{2, 4, 6}[g.pick(3)]
	b := ref.Pub(p, form)
	switch g.weighted(4, 4, 3, 3, 3, 3, 3, 2, 2, 3) {
	case 0:
	case 1: // any format byte
		b[0] = byte(g.pick(9))
		if g.oneIn(3) {
			b[0] = byte(g.pick(256))
		}
	case 2: // other length
		n := g.pick(70)
		if g.flag() {
			n = len(b) + g.pick(3) - 1
		}
		for len(b) < n {
			b = append(b, byte(g.pick(2)))
		}
		b = b[:n]
	case 3: // a coordinate plus P, where it fits
		if small.X != nil {
			v, off := small.X, 1
			if !isX {
				v, off = small.Y, 33
			}
			if off+32 <= len(b) {
				new(big.Int).Add(v, ref.P).FillBytes(b[off : off+32])
				if off == 33 && b[0]&^1 == 6 && g.flag() {
					b[0] = 6 | b[64]&1
				}
			}
		}
	case 4: // a bit
		i := g.pick(len(b) * 8)
		b[i/8] ^= 1 << uint(i%8)
	case 5: // random coordinates, mostly off the curve
		copy(b[1:], g.bytes(len(b)-1))
	case 6: // small, large or structured x
		v := g.anyInt(false)
		switch g.pick(3) {
		case 0:
			v = bi(int64(g.pick(64)))
		case 1:
			v = new(big.Int).Add(ref.P, bi(int64(g.pick(40)-20)))
		}
		v = new(big.Int).Mod(v, pow2(256))
		v.FillBytes(b[1:33])
		if len(b) == 65 && g.flag() {
			if q, ok := ref.Lift(new(big.Int).Mod(v, ref.P), g.flag()); ok {
				q.Y.FillBytes(b[33:])
			}
		}
	case 7: // the other y under the same format
		if len(b) == 65 {
			ref.Neg(p).Y.FillBytes(b[33:])
		} else {
			b[0] ^= 1
		}
	case 8: // y of another point
		if len(b) == 65 {
			g.differ(p).Y.FillBytes(b[33:])
		}
	case 9: // coordinates exchanged, or zero
		if len(b) == 65 {
			if g.flag() {
				p.Y.FillBytes(b[1:33])
				p.X.FillBytes(b[33:])
			} else {
				copy(b[1:], make([]byte, 64))
			}
		} else {
			copy(b[1:], make([]byte, 32))
		}
	}
	c.Enc = b
	return c
}

func checkC31(c c31, r *Rec) error {
	curve := btcec.S256()
	in := append([]byte{}, c.Enc...)
	want, ok := ref.ParsePub(c.Enc)
	if n := len(c.Enc); n == 33 || n == 65 {
		r.Class("length %d format %d valid %v", n, min(c.Enc[0], 9), ok)
	} else {
		r.Class("other length")
	}
	k, err := btcec.ParsePubKey(in, curve)
	if (err == nil) != ok || (k != nil) != ok {
		return bad("ParsePubKey(%x): key %v error %v, the encoding's validity is %v", c.Enc, k, err, ok)
	}
	if !bytes.Equal(in, c.Enc) {
		return bad("ParsePubKey changed its input")
	}
	if ok {
		if !pubPt(k).Eq(want) || k.Curve != curve {
			return bad("ParsePubKey(%x) = %v, want %v", c.Enc, pubPt(k), want)
		}
	}
	// Parsed keys stay what they are while others are parsed.
	type parsed struct {
		k *btcec.PublicKey
		w ref.Pt
	}
	var held []parsed
	for _, p := range []ref.Pt{c.Point, ref.Neg(c.Point), c.Point, ref.Mul(c.Point, ref.Lambda), ref.Neg(c.Point)} {
		for _, form := range []byte{2, 6, 4} {
			k, err := btcec.ParsePubKey(ref.Pub(p, form), curve)
			if err != nil {
				return bad("ParsePubKey(%x): %v", ref.Pub(p, form), err)
			}
			held = append(held, parsed{k, p})
		}
	}
	if ok {
		held = append(held, parsed{k, want})
	}
	for _, h := range held {
		if !pubPt(h.k).Eq(h.w) {
			return bad("the key parsed as %v became %v when others were parsed", h.w, pubPt(h.k))
		}
	}
	if isc := btcec.IsCompressedPubKey(c.Enc); isc != (len(c.Enc) == 33 && (c.Enc[0] == 2 || c.Enc[0] == 3)) {
		return bad("IsCompressedPubKey(%x) = %v", c.Enc, isc)
	}
	r.NT()

	// Round trip of a valid key in all forms.
	pk := libPub(c.Point)
	for _, f := range []struct {
		name string
		form byte
		f    func() []byte
	}{{"SerializeCompressed", 2, pk.SerializeCompressed}, {"SerializeUncompressed", 4, pk.SerializeUncompressed}, {"SerializeHybrid", 6, pk.SerializeHybrid}} {
		b := f.f()
		if w := ref.Pub(c.Point, f.form); !bytes.Equal(b, w) {
			return bad("%s of %v = %x, want %x", f.name, c.Point, b, w)
		}
		back, err := btcec.ParsePubKey(b, curve)
		if err != nil || !pubPt(back).Eq(c.Point) || !back.IsEqual(pk) {
			return bad("%s of %v parses to %v, %v", f.name, c.Point, back, err)
		}
		if btcec.IsCompressedPubKey(b) != (f.form == 2) {
			return bad("IsCompressedPubKey of %s is wrong", f.name)
		}
	}
	if !pubPt(pk).Eq(c.Point) {
		return bad("serialising changed the key")
	}

	// Private keys.
	db := c.D.FillBytes(make([]byte, 32))
	in = append([]byte{}, db...)
	priv, pub := btcec.PrivKeyFromBytes(curve, in)
	q := ref.Mul(ref.G, c.D)
	if priv.D.Cmp(c.D) != 0 || !pubPt(pub).Eq(q) || !pubPt(priv.PubKey()).Eq(q) || priv.X.Cmp(q.X) != 0 || priv.Y.Cmp(q.Y) != 0 {
		return bad("PrivKeyFromBytes(%x): D %x public key %v, want %v", db, priv.D, pubPt(pub), q)
	}
	if s := priv.Serialize(); !bytes.Equal(s, db) {
		return bad("Serialize of %x = %x", db, s)
	}
	if !bytes.Equal(in, db) {
		return bad("PrivKeyFromBytes changed its input")
	}
	if e := priv.ToECDSA(); e.D.Cmp(c.D) != 0 || e.X.Cmp(q.X) != 0 || e.Y.Cmp(q.Y) != 0 || e.Curve != curve {
		return bad("ToECDSA of the private key differs")
	}
	if e := pk.ToECDSA(); e.X.Cmp(c.Point.X) != 0 || e.Y.Cmp(c.Point.Y) != 0 {
		return bad("ToECDSA of the public key differs")
	}
	if c.D.Bit(3) == 1 { // a generated key, now and then
		n, err := btcec.NewPrivateKey(curve)
		if err != nil {
			return bad("NewPrivateKey: %v", err)
		}
		if n.D.Sign() <= 0 || n.D.Cmp(ref.N) >= 0 || !pubPt(n.PubKey()).Eq(ref.Mul(ref.G, n.D)) {
			return bad("NewPrivateKey: D %x, public key %v", n.D, pubPt(n.PubKey()))
		}
		if b := n.Serialize(); len(b) != 32 || new(big.Int).SetBytes(b).Cmp(n.D) != 0 {
			return bad("NewPrivateKey: serialised as %x", b)
		}
	}
	return nil
}

// ---- C32 ----

type c32 struct {
	D    *big.Int
	Hash Hex
	// A verification: key Q, hash VH, signature R, S.
	Label string
	Q     ref.Pt
	VH    Hex
	R, S  *big.Int
}

// hash draws a digest: lengths around 32, zero, all ones, around N.
func (g *gen) hash() []byte {
	switch g.weighted(8, 3, 2, 2, 1) {
	case 0:
		return g.blob(32)
	case 1:
		return g.blob([]int{1, 2, 16, 20, 28, 31, 33, 48, 64, 65, 127, 200}[g.pick(12)])
	case 2:
		return new(big.Int).Mod(new(big.Int).Add(ref.N, bi(int64(g.pick(9)-4))), pow2(256)).FillBytes(make([]byte, 32))
	case 3:
		return bi(int64(g.pick(3))).FillBytes(make([]byte, 1+g.pick(40)))
	}
	return bytes.Repeat([]byte{0xff}, 1+g.pick(40))
}

// highR makes a valid signature whose point R has an x of N or more: such a
// signature exists only under a key computed from it.
func (g *gen) highR(hash []byte) (q ref.Pt, r, s *big.Int, iter int) {
	for {
		x := new(big.Int).Add(ref.N, g.below(new(big.Int).Sub(ref.P, ref.N)))
		odd := g.rng.Uint64()&1 == 1
		p, ok := ref.Lift(x, odd)
		if !ok {
			continue
		}
		r = ref.ModN(x)
		s = g.rscalar()
		ri := new(big.Int).ModInverse(r, ref.N)
		q = ref.Lin(p, new(big.Int).Mul(ri, s), ref.G, new(big.Int).Neg(new(big.Int).Mul(ri, ref.HashInt(hash))))
		if q.IsInf() {
			continue
		}
		iter = 2
		if p.Y.Bit(0) == 1 {
			iter = 3
		}
		return
	}
}

func genC32(g *gen) c32 {
	c := c32{D: g.nzscalar(), Hash: g.hash()}
	d := g.nzscalar()
	c.Q, c.VH = ref.Mul(ref.G, d), g.hash()
	if g.flag() {
		d, c.VH = c.D, append(Hex{}, c.Hash...)
		c.Q = ref.Mul(ref.G, d)
	}
	k := g.nzscalar()
	c.R, c.S = ref.SignWith(d, c.VH, k)
	c.Label = "valid"
	if g.oneIn(6) {
		c.Q, c.R, c.S, _ = g.highR(c.VH)
		c.Label = "valid, R beyond N"
	}
	l := c.Label
	switch g.weighted(5, 3, 2, 2, 2, 2, 2, 3, 2, 2, 2, 2, 2) {
	case 1:
		c.S = new(big.Int).Sub(ref.N, c.S)
		l += ", other S"
	case 2:
		c.S = new(big.Int).Add(c.S, ref.N)
		l += ", S+N"
	case 3:
		c.R = new(big.Int).Add(c.R, ref.N)
		l += ", R+N"
	case 4:
		c.S = new(big.Int).Neg(c.S)
		l += ", -S"
	case 5:
		c.R = new(big.Int).Neg(c.R)
		l += ", -R"
	case 6:
		c.R, c.S = c.S, c.R
		l += ", exchanged"
	case 7:
		if len(c.VH) > 0 {
			i := g.pick(len(c.VH) * 8)
			c.VH[i/8] ^= 1 << uint(i%8)
		}
		l += ", other hash"
	case 8:
		c.Q = g.differ(c.Q)
		if c.Q.IsInf() {
			c.Q = ref.G.Copy()
		}
		l += ", other key"
	case 9:
		c.R = []*big.Int{bi(0), cp(ref.N), bi(1), cp(ref.P), new(big.Int).Sub(ref.N, bi(1))}[g.pick(5)]
		l += ", fixed R"
	case 10:
		c.S = []*big.Int{bi(0), cp(ref.N), bi(1), cp(ref.P), new(big.Int).Sub(ref.N, bi(1))}[g.pick(5)]
		l += ", fixed S"
	case 11:
		c.S = g.nzscalar()
		l += ", random S"
	case 12:
		c.VH = append(c.VH, byte(g.pick(3)))
		l += ", longer hash"
	}
	c.Label = l
	return c
}

func checkC32(c c32, r *Rec) error {
	if len(c.Hash) == 0 || len(c.VH) == 0 {
		return nil
	}
	key := libPriv(c.D)
	h := append([]byte{}, c.Hash...)
	sig, err := key.Sign(h)
	if err != nil {
		return bad("Sign(%x) with %x: %v", c.Hash, c.D, err)
	}
	wr, ws := ref.Sign(c.D, c.Hash)
	if sig.R.Cmp(wr) != 0 || sig.S.Cmp(ws) != 0 {
		return bad("Sign(%x) with %x = (%x, %x), RFC 6979 gives (%x, %x)", c.Hash, c.D, sig.R, sig.S, wr, ws)
	}
	if !bytes.Equal(h, c.Hash) || key.D.Cmp(c.D) != 0 {
		return bad("Sign changed the hash or the key")
	}
	if !sig.Verify(h, key.PubKey()) {
		return bad("the signature of %x by %x does not verify", c.Hash, c.D)
	}
	if again, err := key.Sign(h); err != nil || !again.IsEqual(sig) {
		return bad("signing twice gives two signatures")
	}
	want := ref.ECDSAVerify(c.Q, c.VH, c.R, c.S)
	r.Class("%s: %v", c.Label, want)
	if c.Label != "valid" {
		r.NT()
	}
	v := &btcec.Signature{R: cp(c.R), S: cp(c.S)}
	if got := v.Verify(append([]byte{}, c.VH...), libPub(c.Q)); got != want {
		return bad("Verify (%s) = %v, the ECDSA equation says %v; hash %x key %v R %x S %x", c.Label, got, want, c.VH, c.Q, c.R, c.S)
	}
	if v.R.Cmp(c.R) != 0 || v.S.Cmp(c.S) != 0 {
		return bad("Verify changed the signature")
	}
	return nil
}

// ---- C33 ----

type c33 struct {
	R, S *big.Int // a signature
	Enc  Hex      // bytes to parse
}

// sigInt draws an integer around the limits of a signature's parts.
func (g *gen) sigInt() *big.Int {
	switch g.weighted(4, 3, 3, 2, 2) {
	case 0:
		return g.nzscalar()
	case 1:
		return new(big.Int).Add(ref.N, bi(int64(g.pick(7)-3)))
	case 2:
		return bi(int64(g.pick(4)))
	case 3:
		return new(big.Int).Add(ref.HalfN, bi(int64(g.pick(5)-2)))
	}
	return new(big.Int).Add(pow2(8*(1+g.pick(33))-g.pick(2)), bi(int64(g.pick(3)-1)))
}

func genC33(g *gen) c33 {
	c := c33{R: g.nzscalar(), S: g.nzscalar()}
	if g.oneIn(4) {
		c.S = new(big.Int).Add(ref.HalfN, bi(int64(g.pick(5)-2)))
	}
	if g.oneIn(20) {
		c.Enc = g.bytes(g.pick(80))
		if len(c.Enc) > 1 && g.flag() {
			c.Enc[0], c.Enc[1] = 0x30, byte(len(c.Enc)-2)
		}
		return c
	}
	part := func() []byte {
		v := g.sigInt()
		b := v.Bytes()
		switch g.weighted(8, 2, 2, 1) {
		case 0:
			b = ref.DERInt(v)[2:]
		case 1: // no sign byte
		case 2: // padded
			b = append(make([]byte, 1+g.pick(3)), b...)
		case 3: // long
			b = append(make([]byte, g.pick(120)), b...)
		}
		l := len(b)
		if g.oneIn(8) {
			l += g.pick(5) - 2
			if g.oneIn(4) {
				l = g.pick(256)
			}
		}
		m := byte(2)
		if g.oneIn(16) {
			m = byte(g.pick(5))
		}
		return append([]byte{m, byte(l)}, b...)
	}
	body := append(part(), part()...)
	if g.oneIn(10) { // more inside the sequence
		body = append(body, g.bytes(1+g.pick(3))...)
	}
	l := len(body)
	if g.oneIn(6) {
		l += g.pick(7) - 3
		if g.oneIn(4) {
			l = g.pick(256)
		}
	}
	h := byte(0x30)
	if g.oneIn(16) {
		h = byte(g.pick(256))
	}
	b := append([]byte{h, byte(l)}, body...)
	if g.oneIn(6) { // behind the sequence
		b = append(b, g.bytes(1+g.pick(3))...)
	}
	if g.oneIn(6) && len(b) > 0 {
		b = b[:g.pick(len(b)+1)]
	}
	for i := g.weighted(6, 1, 1); i > 0 && len(b) > 0; i-- {
		k := g.pick(len(b))
		switch g.pick(4) {
		case 0:
			b[k] = byte(g.pick(256))
		case 1:
			b[k] ^= 1 << uint(g.pick(8))
		case 2:
			b[k] = []byte{0, 0x7f, 0x80, 0xff, 2, 0x30}[g.pick(6)]
		case 3:
			b[k] += byte(g.pick(3)) - 1
		}
	}
	c.Enc = b
	return c
}

func checkC33(c c33, r *Rec) error {
	curve := btcec.S256()
	for _, strict := range []bool{true, false} {
		name, parse := "ParseSignature", btcec.ParseSignature
		if strict {
			name, parse = "ParseDERSignature", btcec.ParseDERSignature
		}
		wr, ws, werr := ref.ParseSig(c.Enc, strict)
		in := append([]byte{}, c.Enc...)
		sig, err := parse(in[:len(in):len(in)], curve)
		r.Class("%s accepts %v", name, werr == nil)
		if (err == nil) != (werr == nil) || (sig != nil) != (err == nil) {
			return bad("%s(%x): signature %v error %v; the format says %v", name, c.Enc, sig, err, werr)
		}
		if werr == nil {
			r.NT()
			if sig.R.Cmp(wr) != 0 || sig.S.Cmp(ws) != 0 {
				return bad("%s(%x) = (%x, %x), want (%x, %x)", name, c.Enc, sig.R, sig.S, wr, ws)
			}
		}
		if !bytes.Equal(in, c.Enc) {
			return bad("%s changed its input", name)
		}
	}
	sig := &btcec.Signature{R: cp(c.R), S: cp(c.S)}
	b := sig.Serialize()
	if w := ref.DER(c.R, c.S); !bytes.Equal(b, w) {
		return bad("Serialize(%x, %x) = %x, want %x", c.R, c.S, b, w)
	}
	if sig.R.Cmp(c.R) != 0 || sig.S.Cmp(c.S) != 0 {
		return bad("Serialize changed the signature")
	}
	low := cp(c.S)
	if low.Cmp(ref.HalfN) > 0 {
		low.Sub(ref.N, low)
		r.Class("high S")
	}
	for _, parse := range []func() (*btcec.Signature, error){
		func() (*btcec.Signature, error) { return btcec.ParseDERSignature(b, curve) },
		func() (*btcec.Signature, error) { return btcec.ParseSignature(b, curve) }} {
		back, err := parse()
		if err != nil || back.R.Cmp(c.R) != 0 || back.S.Cmp(low) != 0 {
			return bad("Serialize(%x, %x) parses to %v, %v", c.R, c.S, back, err)
		}
	}
	return nil
}

// ---- C34 ----

type c34 struct {
	D    *big.Int
	Hash Hex
	Comp bool
	// A candidate compact signature.
	Label string
	Sig   Hex
	VH    Hex
}

func compact(head byte, r, s *big.Int) []byte {
	b := make([]byte, 65)
	b[0] = head
	r.FillBytes(b[1:33])
	s.FillBytes(b[33:])
	return b
}

func genC34(g *gen) c34 {
	c := c34{D: g.nzscalar(), Hash: g.hash(), Comp: g.flag(), Label: "valid"}
	c.VH = g.hash()
	k := g.nzscalar()
	rp := ref.Mul(ref.G, k)
	r, s := ref.SignWith(g.nzscalar(), c.VH, k)
	iter := byte(rp.Y.Bit(0))
	if g.oneIn(4) {
		var it int
		_, r, s, it = g.highR(c.VH)
		iter, c.Label = byte(it), "R beyond N"
	}
	if s.Sign() == 0 {
		s = bi(1)
	}
	b := compact(27+iter+4*byte(g.pick(2)), r, s)
	l := ""
	switch g.weighted(5, 4, 2, 2, 2, 2, 2, 2, 2) {
	case 0:
	case 1:
		b[0] = byte(24 + g.pick(16))
		if g.oneIn(3) {
			b[0] = byte(g.pick(256))
		}
		l = ", header"
	case 2: // R that is no coordinate, zero, N...
		[]*big.Int{bi(0), bi(1), cp(ref.N), new(big.Int).Sub(ref.N, bi(1)), new(big.Int).Add(ref.N, bi(1)), cp(ref.P), bi(int64(g.pick(30))), g.below(pow2(256)),
			new(big.Int).Sub(pow2(256), bi(1))}[g.pick(9)].FillBytes(b[1:33])
		l = ", R"
	case 3:
		[]*big.Int{bi(0), bi(1), cp(ref.N), new(big.Int).Sub(ref.N, bi(1)), new(big.Int).Add(ref.N, bi(1)), cp(ref.P), bi(int64(g.pick(30))), g.below(pow2(256)),
			new(big.Int).Sub(pow2(256), bi(1))}[g.pick(9)].FillBytes(b[33:])
		l = ", S"
	case 4:
		i := 8 + g.pick(64*8)
		b[i/8] ^= 1 << uint(i%8)
		l = ", bit"
	case 5:
		n := 64 + g.pick(3)
		if g.flag() {
			n = g.pick(140)
		}
		for len(b) < n {
			b = append(b, 0)
		}
		b = b[:n]
		l = ", length"
	case 6: // the key would be infinity: s*R = e*G
		kk := g.nzscalar()
		q := ref.Mul(ref.G, kk)
		e := ref.HashInt(c.VH)
		si := ref.ModN(new(big.Int).Mul(e, new(big.Int).ModInverse(kk, ref.N)))
		if rr := ref.ModN(q.X); rr.Cmp(q.X) == 0 && si.Sign() != 0 {
			b = compact(27+byte(q.Y.Bit(0)), rr, si)
			l = ", infinity"
		}
	case 7:
		copy(b[1:], g.bytes(64))
		l = ", random"
	case 8:
		c.VH = g.hash()
		l = ", other hash"
	}
	c.Label += l
	c.Sig = b
	return c
}

func checkC34(c c34, r *Rec) error {
	if len(c.Hash) == 0 || len(c.VH) == 0 {
		return nil
	}
	curve := btcec.S256()
	key := libPriv(c.D)
	h := append([]byte{}, c.Hash...)
	sig, err := btcec.SignCompact(curve, key, h, c.Comp)
	if err != nil || len(sig) != 65 {
		return bad("SignCompact(%x, %x) = %x, %v", c.D, c.Hash, sig, err)
	}
	wr, ws := ref.Sign(c.D, c.Hash)
	if !bytes.Equal(sig[1:], compact(0, wr, ws)[1:]) {
		return bad("SignCompact(%x, %x) = %x, the signature is (%x, %x)", c.D, c.Hash, sig, wr, ws)
	}
	keep := append([]byte{}, sig...)
	pub, comp, err := btcec.RecoverCompact(curve, sig, h)
	if err != nil || !pubPt(pub).Eq(ref.Mul(ref.G, c.D)) || comp != c.Comp {
		return bad("RecoverCompact of the signature by %x of %x: %v %v %v", c.D, c.Hash, pub, comp, err)
	}
	if (sig[0] >= 31) != c.Comp || sig[0] < 27 || sig[0] > 34 {
		return bad("SignCompact header %d for compressed=%v", sig[0], c.Comp)
	}
	if !bytes.Equal(h, c.Hash) || !bytes.Equal(sig, keep) || key.D.Cmp(c.D) != 0 {
		return bad("SignCompact or RecoverCompact changed an input")
	}
	// An arbitrary string.
	b := append([]byte{}, c.Sig...)
	pub, comp, err = btcec.RecoverCompact(curve, b, append([]byte{}, c.VH...))
	r.Class("%s: recovered %v", c.Label, err == nil)
	if c.Label != "valid" {
		r.NT()
	}
	if (err == nil) != (pub != nil) {
		return bad("RecoverCompact(%x): key %v error %v", c.Sig, pub, err)
	}
	if err != nil {
		if comp {
			return bad("RecoverCompact(%x): compression flag with an error", c.Sig)
		}
		// The only strings that must be accepted: a header of the eight, and
		// R and S that give a key.
		if w, _, ok := refRecover(c.Sig, c.VH); ok {
			return bad("RecoverCompact(%x, %x) (%s): %v, but the key is %v", c.Sig, c.VH, c.Label, err, w)
		}
		return nil
	}
	if len(c.Sig) != 65 {
		return bad("RecoverCompact accepts %d bytes", len(c.Sig))
	}
	if c.Sig[0] < 27 || c.Sig[0] > 34 {
		return bad("RecoverCompact(%x) accepts the header %d", c.Sig, c.Sig[0])
	}
	rr, ss := new(big.Int).SetBytes(c.Sig[1:33]), new(big.Int).SetBytes(c.Sig[33:])
	q := pubPt(pub)
	if !q.Valid() || q.IsInf() || !ref.ECDSAVerify(q, c.VH, rr, ss) {
		return bad("RecoverCompact(%x, %x) (%s) returns %v, under which the signature is not valid", c.Sig, c.VH, c.Label, q)
	}
	w, wc, ok := refRecover(c.Sig, c.VH)
	if ok && (!w.Eq(q) || wc != comp) {
		return bad("RecoverCompact(%x, %x) (%s) returns %v %v, the header names %v %v", c.Sig, c.VH, c.Label, q, comp, w, wc)
	}
	return nil
}

// enumC34: every header, for an ordinary R and for one that names two points.
func enumC34() []c34 {
	var cs []c34
	g := plainGen(34)
	for h := 0; h < 256; h++ {
		for _, hi := range []bool{false, true} {
			c := c34{D: g.rscalar(), Hash: g.bytes(32), VH: g.bytes(32), Comp: g.flag(), Label: "every header"}
			r, s := ref.SignWith(g.rscalar(), c.VH, g.rscalar())
			if hi {
				_, r, s, _ = g.highR(c.VH)
				c.Label += ", R beyond N"
			}
			c.Sig = compact(byte(h), r, s)
			cs = append(cs, c)
		}
	}
	return cs
}

// refRecover follows SEC 1, 4.1.6, for the eight headers 27..34.
func refRecover(b, hash []byte) (q ref.Pt, comp, ok bool) {
	if len(b) != 65 || b[0] < 27 || b[0] > 34 {
		return
	}
	it := b[0] - 27
	comp = it >= 4
	it &= 3
	r, s := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(ref.N) >= 0 || s.Cmp(ref.N) >= 0 {
		return
	}
	x := cp(r)
	if it >= 2 {
		x.Add(x, ref.N)
	}
	if x.Cmp(ref.P) >= 0 {
		return
	}
	p, on := ref.Lift(x, it&1 == 1)
	if !on {
		return
	}
	ri := new(big.Int).ModInverse(r, ref.N)
	q = ref.Lin(p, new(big.Int).Mul(ri, s), ref.G, new(big.Int).Neg(new(big.Int).Mul(ri, ref.HashInt(hash))))
	return q, comp, !q.IsInf()
}

// ---- C35 ----

type c35 struct {
	D, E  *big.Int // two secret keys
	Plain Hex
	Extra int // room behind the plaintext
	Tamp  []tamper
	Other *big.Int // another key
	Forge int      // 0 none, 1 off-curve ephemeral key, 2 bad padding
	IV    Hex
	Pad   int
	Bits  uint64
}

type tamper struct {
	Op   int
	I, J int
}

func genC35(g *gen) c35 {
	c := c35{D: g.nzscalar(), E: g.nzscalar(), Extra: g.pick(40), IV: g.bytes(16), Pad: g.pick(256), Bits: g.u64()}
	if g.oneIn(3) { // a shared point with a short x
		ks := ref.Short[ref.ShortKinds[g.pick(len(ref.ShortKinds))]]
		c.E = ref.ModN(new(big.Int).Mul(bi(ks[g.pick(len(ks))]), new(big.Int).ModInverse(c.D, ref.N)))
	}
	n := g.pick(70)
	switch g.pick(4) {
	case 0:
		n = 16 * g.pick(6)
	case 1:
		n = 16*g.pick(6) + []int{1, 15}[g.pick(2)]
	}
	if g.oneIn(30) {
		n = g.pick(3000)
	}
	if g.oneIn(200) {
		n = []int{4096, 1 << 15, 1<<16 - 1, 1 << 16, 70000}[g.pick(5)] + g.pick(33) - 16
	}
	c.Plain = g.blob(n)
	if g.oneIn(4) { // a plaintext that looks like padding
		for i := range c.Plain {
			c.Plain[i] = byte(g.pick(18))
		}
	}
	for i := g.pick(6); i >= 0; i-- {
		c.Tamp = append(c.Tamp, tamper{g.pick(10), int(g.u64() >> 33), int(g.u64() >> 33)})
	}
	c.Other = g.nzscalar()
	if c.Other.Cmp(c.D) == 0 || g.oneIn(4) {
		c.Other = ref.ModN(new(big.Int).Add(c.D, bi(1)))
	}
	// The opposite key has the same x coordinates.
	for c.Other.Sign() == 0 || c.Other.Cmp(c.D) == 0 || ref.ModN(new(big.Int).Add(c.Other, c.D)).Sign() == 0 {
		c.Other = g.rscalar()
	}
	c.Forge = g.pick(3)
	return c
}

func checkC35(c c35, r *Rec) error {
	a, b := libPriv(c.D), libPriv(c.E)
	x := ref.Mul(ref.G, new(big.Int).Mul(c.D, c.E)).X
	s1, s2 := btcec.GenerateSharedSecret(a, b.PubKey()), btcec.GenerateSharedSecret(b, a.PubKey())
	if !bytes.Equal(s1, s2) {
		return bad("shared secrets differ: %x %x", s1, s2)
	}
	if new(big.Int).SetBytes(s1).Cmp(x) != 0 {
		return bad("shared secret %x, the shared point's x is %x", s1, x)
	}
	if x.BitLen() <= 248 {
		r.Class("short shared secret")
	}
	// Encryption.
	buf := make([]byte, len(c.Plain)+c.Extra)
	copy(buf, c.Plain)
	for i := len(c.Plain); i < len(buf); i++ {
		buf[i] = 0xc3
	}
	keep := append([]byte{}, buf...)
	rd := newStream(c.Bits)
	var ct, ct2 []byte
	var err, err2 error
	func() {
		defer rd.install()()
		ct, err = btcec.Encrypt(a.PubKey(), buf[:len(c.Plain)])
		ct2, err2 = btcec.Encrypt(a.PubKey(), buf[:len(c.Plain)])
	}()
	if err != nil || err2 != nil {
		return bad("Encrypt: %v %v", err, err2)
	}
	if !bytes.Equal(buf, keep) {
		return bad("Encrypt changed the plaintext or memory behind it")
	}
	if bytes.Equal(ct, ct2) || bytes.Equal(ct[:16], ct2[:16]) || bytes.Equal(ct[16:86], ct2[16:86]) {
		return bad("two encryptions share the ciphertext, the IV or the ephemeral key")
	}
	fb := newStream(c.Bits)
	fb.fail = int(c.Bits % 16)
	func() {
		defer fb.install()()
		ct2, err2 = btcec.Encrypt(a.PubKey(), c.Plain)
	}()
	if fb.failures > 0 && (err2 == nil || ct2 != nil) {
		return bad("Encrypt returns %x, %v though the random source failed", ct2, err2)
	}
	if p, ok := ref.DecryptWith(c.D, ct); !ok || !bytes.Equal(p, c.Plain) {
		return bad("an independent decryption of %x with %x gives %x, %v; plaintext %x", ct, c.D, p, ok, c.Plain)
	}
	dec := func(k *btcec.PrivateKey, t []byte) ([]byte, error) {
		in := append([]byte{}, t...)
		p, err := btcec.Decrypt(k, in)
		if !bytes.Equal(in, t) {
			return nil, bad("Decrypt changed its input")
		}
		return p, err
	}
	p, err := dec(a, ct)
	if err != nil || !bytes.Equal(p, c.Plain) {
		return bad("Decrypt(Encrypt(%x)) = %x, %v", c.Plain, p, err)
	}
	// A ciphertext made elsewhere, with a shared secret of our choice.
	mine := ref.EncryptWith(ref.Mul(ref.G, c.D), c.E, c.IV, c.Plain)
	if p, err = dec(a, mine); err != nil || !bytes.Equal(p, c.Plain) {
		return bad("Decrypt of an independent ciphertext of %x = %x, %v", c.Plain, p, err)
	}
	for _, t := range [][]byte{ct, mine} {
		if p, err = dec(libPriv(c.Other), t); err == nil || p != nil {
			return bad("Decrypt with another key = %x, %v", p, err)
		}
	}
	// Tampering.
	for _, t := range c.Tamp {
		m := append([]byte{}, mine...)
		n := len(m)
		i, j := t.I%n, t.J%n
		op := t.Op
		switch op {
		case 0:
			m[i] ^= 1 << uint(t.J%8)
		case 1:
			m[i] += byte(1 + t.J%255)
		case 2:
			m = m[:i]
		case 3:
			m = m[:n-1-t.J%min(n-1, 40)]
		case 4:
			m = append(m, byte(t.I))
		case 5:
			m = append(m[:i], append([]byte{byte(t.J)}, m[i:]...)...)
		case 6:
			m = append(m[:i], m[i+1:]...)
		case 7: // exchange blocks
			k := (n - 118) / 16
			x, y := 86+16*(t.I%k), 86+16*(t.J%k)
			for q := 0; q < 16; q++ {
				m[x+q], m[y+q] = m[y+q], m[x+q]
			}
		case 8: // drop a block
			k := 86 + 16*(t.I%((n-118)/16))
			m = append(m[:k], m[k+16:]...)
		case 9: // other half of the tag, prefix of the tag
			if t.J%2 == 0 {
				copy(m[n-16:], make([]byte, 16))
			} else {
				m[n-1-j%32] ^= 0x40
			}
		}
		if bytes.Equal(m, mine) {
			continue
		}
		r.NT()
		r.Class("tamper %d", op)
		if p, err = dec(a, m); err == nil || p != nil {
			return bad("Decrypt of a changed ciphertext (kind %d at %d) = %x, %v", op, i, p, err)
		}
	}
	switch c.Forge {
	case 1: // a point of another curve, with a tag that fits it
		r.Class("off-curve ephemeral key")
		off := ref.Mul(ref.G, c.E)
		off.Y = new(big.Int).Mod(new(big.Int).Add(off.Y, bi(1)), ref.P)
		if ref.OnCurve(off.X, off.Y) {
			return nil
		}
		m := ref.EncryptAs(off, ref.Mul(off, c.D), c.IV, c.Plain)
		if p, err = dec(a, m); err == nil || p != nil {
			return bad("Decrypt accepts an ephemeral key that is not on the curve: %x, %v", p, err)
		}
	case 2: // authentic, but the padding is not one
		r.Class("authentic with odd padding")
		m := ref.EncryptRaw(ref.Mul(ref.G, c.D), c.E, c.IV, append(append([]byte{}, make([]byte, 15+16*(c.Pad%3))...), byte(c.Pad)))
		dec(a, m)
	}
	return nil
}

func init() {
	reg("C31", "encodings of public keys that are valid or differ in format byte, length, a bit, a coordinate (off the curve, beyond P, swapped), and keys with short coordinates serialised and parsed back; every case counts", 24000, 400000, genC31, checkC31, seq)
	reg("C32", "keys and hashes (lengths 1 to 64, around N) signed, and signatures (valid, high R, and changed in one part) verified; non-trivial: the verified signature is not a plain valid one", 6000, 100000, genC32, checkC32, cross,
		assume("hashes are not empty (crypto/ecdsa rejects those)", "private keys lie in [1, N-1]"))
	reg("C33", "byte strings built as sequences of two integers with wrong lengths, markers, padding, signs, ranges, truncation and appended bytes, and signatures with S around N/2; non-trivial: a parser accepts the bytes", 300000, 2000000, genC33, checkC33, seq)
	reg("C34", "keys and hashes with compact signatures, and 65-byte strings with changed header, R, S, hash or length, R beyond N, and R, S that lead to infinity; non-trivial: the candidate is not a plain valid signature", 3500, 60000, genC34, checkC34, enum(enumC34), cross,
		assume("hashes are not empty (crypto/ecdsa rejects those)"))
	reg("C35", "two keys (also with a short shared secret), plaintexts of 0 to 3000 bytes (a few up to 70000) in larger buffers, 1 to 6 changes to the ciphertext, another key, off-curve ephemeral keys and odd padding; non-trivial: a changed ciphertext was tried", 3500, 60000, genC35, checkC35, seq,
		assume("another key means neither the key nor its negation modulo N, which has the same shared secrets"))
}
