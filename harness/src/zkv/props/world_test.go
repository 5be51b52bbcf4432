package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"sync"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"
)

// A world is a set of live objects that operations take by reference: nothing
// is copied, equal numbers are one object, and the packages' own globals are
// among them.

type hop struct {
	Op      string
	A, B, C int
}

type World struct {
	Own   bool // own generators instead of the standard ones
	G, H  ref.Pt
	Ints  []*big.Int
	Pts   []ref.Pt
	Blobs []Hex
	Wits  []Wit
	Seed  uint64
	Apart bool `json:",omitempty"` // no objects in several places
}

type stmt struct {
	kind string
	pts  []zk.ECPoint
	base zk.ECPoint
	sec  []*big.Int
	side zk.Side
	full []zk.ECPoint
}

// alter returns a copy with one field changed.
func (p Prf) alter(b, c int) Prf {
	s, q := append([]*big.Int{}, p.S...), append([]ref.Pt{}, p.P...)
	if b < 0 {
		b = -b
	}
	if c < 0 {
		c = -c
	}
	if i := b % (len(s) + len(q)); i < len(s) {
		switch c % 5 {
		case 0:
			s[i] = new(big.Int).Sub(s[i], ref.N)
		case 1:
			s[i] = new(big.Int).Neg(s[i])
		case 2:
			s[i] = cp(ref.N)
		case 3:
			s[i] = new(big.Int)
		case 4:
			s[i] = new(big.Int).Add(s[i], ref.N)
		}
	} else {
		i -= len(s)
		switch c % 3 {
		case 0:
			q[i] = ref.Neg(q[i])
		case 1:
			q[i] = ref.Pt{X: new(big.Int), Y: new(big.Int)}
		case 2:
			q[i] = ref.Pt{X: cp(q[i].Y), Y: cp(q[i].X)}
		}
	}
	p.S, p.P = s, q
	return p
}

type held struct {
	l   lib
	pts []zk.ECPoint
}

type world struct {
	mu    sync.Mutex
	own   bool
	z     zk.ZKPCurveParams
	ints  []*big.Int
	pts   []zk.ECPoint
	blobs [][]byte // with room behind the end
	stmts []stmt
	prfs  []held
	encs  []encoded
	cts   []int // blobs that are encrypted for the first key
	keys  []*btcec.PrivateKey
	sigs  []*btcec.Signature
	// what everything was like when it was made
	intsC  []*big.Int
	ptsC   []ref.Pt
	blobsC [][]byte
	prfsC  [][]byte
	keysC  []*big.Int
	keysP  []ref.Pt
	sigsC  [][2]*big.Int
	glob   string
}

type encoded struct {
	kind string
	b    int // index of the blob
	n    int
}

func (w *world) addInt(v *big.Int) int {
	w.ints = append(w.ints, v)
	w.intsC = append(w.intsC, cp(v))
	return len(w.ints) - 1
}

func (w *world) addPt(p zk.ECPoint) int {
	w.pts = append(w.pts, p)
	w.ptsC = append(w.ptsC, rp(p).Copy())
	return len(w.pts) - 1
}

func (w *world) addBlob(b []byte) int {
	w.blobs = append(w.blobs, b)
	w.blobsC = append(w.blobsC, append([]byte{}, b[:cap(b)]...))
	return len(w.blobs) - 1
}

func (w *world) addPrf(h held) {
	w.prfs = append(w.prfs, h)
	w.prfsC = append(w.prfsC, h.l.Bytes())
}

func (w *world) addKey(k *btcec.PrivateKey) {
	w.keys = append(w.keys, k)
	w.keysC = append(w.keysC, cp(k.D))
	w.keysP = append(w.keysP, pubPt(k.PubKey()).Copy())
}

func (w *world) addSig(s *btcec.Signature) {
	w.sigs = append(w.sigs, s)
	w.sigsC = append(w.sigsC, [2]*big.Int{cp(s.R), cp(s.S)})
}

// roomy copies b into a larger array.
func roomy(b []byte) []byte {
	r := make([]byte, len(b), len(b)+24)
	copy(r, b)
	for i := len(b); i < cap(r); i++ {
		r[:cap(r)][i] = 0x5a
	}
	return r
}

func (c World) build() (*world, error) {
	w := &world{z: zk.TestCurve, own: c.Own}
	pr := ref.Std
	if c.Own {
		pr = ref.MakeParams(c.G, c.H)
		w.z = zcurve(pr)
	}
	pool := map[string]*big.Int{}
	one := func(v *big.Int) *big.Int {
		if c.Apart {
			return cp(v)
		}
		k := v.String()
		if pool[k] == nil {
			pool[k] = cp(v)
		}
		return pool[k]
	}
	pt := func(p ref.Pt) zk.ECPoint { return zk.ECPoint{X: one(p.X), Y: one(p.Y)} }
	par := btcec.S256().Params()
	for _, v := range []*big.Int{zk.BigZero, par.N, par.Gx, par.P} {
		w.addInt(v)
	}
	for _, v := range c.Ints {
		w.addInt(one(v))
	}
	for _, p := range []zk.ECPoint{zk.Zero, w.z.G, w.z.H, w.z.HPoints[3], {X: par.Gx, Y: par.Gy}} {
		w.addPt(p)
	}
	for _, p := range c.Pts {
		w.addPt(pt(p))
	}
	for _, b := range c.Blobs {
		w.addBlob(roomy(b))
	}
	rng := chacha(c.Seed, "nonces")
	rnd := func() *big.Int {
		var b [48]byte
		rng.Read(b[:])
		return ref.ModN(new(big.Int).SetBytes(b[:]))
	}
	for _, x := range c.Wits {
		x := x
		p := refProve(pr, &x, rnd)
		s := stmt{kind: x.Kind, side: zk.Side(x.Side)}
		if x.Kind == kG {
			s.base = pt(x.Base)
		}
		for _, q := range x.Pts {
			s.pts = append(s.pts, pt(q))
		}
		for _, q := range x.Full {
			s.full = append(s.full, pt(q))
		}
		for _, v := range x.W {
			s.sec = append(s.sec, one(v))
		}
		for _, q := range append(append([]zk.ECPoint{}, s.pts...), s.full...) {
			w.addPt(q)
		}
		if x.Kind == kG {
			w.addPt(s.base)
		}
		for _, v := range s.sec {
			w.addInt(v)
		}
		w.stmts = append(w.stmts, s)
		l, err := libMake(x.Kind, p)
		if err != nil {
			return nil, bad("making a %s proof: %v", x.Kind, err)
		}
		w.addPrf(held{l, s.pts})
		w.encs = append(w.encs, encoded{x.Kind, w.addBlob(roomy(refEnc(x.Kind, p))), 0})
	}
	for i, v := range c.Ints {
		if i >= 2 {
			break
		}
		d := ref.ModN(v)
		if d.Sign() == 0 {
			d = bi(7)
		}
		w.addKey(libPriv(d))
	}
	if len(w.keys) == 0 {
		w.addKey(libPriv(bi(7)))
	}
	for i := 0; i < 2; i++ {
		d := rnd()
		iv := sha256.Sum256(d.Bytes())
		k := w.keys[0]
		w.cts = append(w.cts, w.addBlob(roomy(ref.EncryptWith(ref.Pt{X: k.X, Y: k.Y}, d.Add(d, bi(1)), iv[:16], pick(w.blobs, i)))))
	}
	// Signatures with any numbers, high and low.
	for i, v := range c.Ints {
		r, s := pick(w.ints, 4+i), w.ints[4+len(c.Ints)-1-i]
		if i%2 == 0 {
			r, s = one(new(big.Int).Add(ref.ModN(v), bi(1))), one(new(big.Int).Sub(ref.N, ref.ModN(pick(c.Ints, i+1))))
		}
		if r.Sign() > 0 && s.Sign() > 0 && r.Cmp(ref.N) < 0 && s.Cmp(ref.N) < 0 {
			if c.Apart {
				r, s = cp(r), cp(s)
			}
			w.addSig(&btcec.Signature{R: r, S: s})
		}
	}
	if c.Apart && len(w.blobs) > 0 { // a valid one
		h := pick(w.blobs, 0)
		rr, ss := ref.Sign(w.keys[0].D, h)
		w.addSig(&btcec.Signature{R: rr, S: ss})
	}
	w.glob = snapGlobals() + snap(w.z)
	return w, nil
}

// intact compares every object with what it was like when it was made.
func (w *world) intact() error {
	for i, v := range w.ints {
		if v.Cmp(w.intsC[i]) != 0 {
			return bad("integer %d was %v and is %v", i, w.intsC[i], v)
		}
	}
	for i, p := range w.pts {
		if !rp(p).Eq(w.ptsC[i]) {
			return bad("point %d was %v and is %v", i, w.ptsC[i], rp(p))
		}
	}
	for i, b := range w.blobs {
		if !bytes.Equal(b[:cap(b)], w.blobsC[i]) {
			return bad("byte string %d was %x and is %x", i, w.blobsC[i], b[:cap(b)])
		}
	}
	for i, p := range w.prfs {
		if b := p.l.Bytes(); !bytes.Equal(b, w.prfsC[i]) {
			return bad("proof %d (%T) was %x and is %x", i, p.l, w.prfsC[i], b)
		}
	}
	for i, k := range w.keys {
		if k.D.Cmp(w.keysC[i]) != 0 || !pubPt(k.PubKey()).Eq(w.keysP[i]) {
			return bad("key %d changed", i)
		}
	}
	for i, s := range w.sigs {
		if s.R.Cmp(w.sigsC[i][0]) != 0 || s.S.Cmp(w.sigsC[i][1]) != 0 {
			return bad("signature %d changed", i)
		}
	}
	if g := snapGlobals() + snap(w.z); g != w.glob {
		return bad("shared parameters or constants changed")
	}
	return nil
}

// fixed operations give the same result every time; the others depend on the
// random source, and their result says whether it was right.
var fixedOps = []string{"mult", "add", "sub", "neg", "equal", "ptbytes", "commitr", "verifyr", "pedr", "open", "challenge",
	"verify", "verifyother", "encode", "decode", "cadd", "cdbl", "cmul", "cbase", "cbaseh", "oncurve", "naf",
	"sign", "sigverify", "sigenc", "sigparse", "compact", "pubenc", "ecdh", "wire", "proveFalse", "verifyalt", "decrypt"}
var freshOps = []string{"prove", "prove", "prove", "prove", "ped", "keygen", "encrypt"}

func pick[T any](s []T, i int) T { return s[i%len(s)] }

// out is what an operation made, for the world of a sequential history.
type out struct {
	ints  []*big.Int
	pts   []zk.ECPoint
	prfs  []held
	encs  []encoded
	spare []byte // behind the end of a result, where the caller may append
	blobs [][]byte
	sigs  []*btcec.Signature
	fresh bool // made from bytes: none of it is an object of the caller or a constant
}

func (w *world) keep(o out) {
	for _, v := range o.ints {
		w.addInt(v)
	}
	for _, p := range o.pts {
		w.addPt(p)
	}
	for _, p := range o.prfs {
		w.addPrf(p)
	}
	for i, b := range o.blobs {
		k := w.addBlob(b)
		if i < len(o.encs) {
			w.encs = append(w.encs, encoded{o.encs[i].kind, k, 0})
		}
	}
	for _, s := range o.sigs {
		w.addSig(s)
	}
}

func fill(b []byte) {
	for i := range b {
		b[i] = 0x5a
	}
}

func two(ok bool, err error) string { return fmt.Sprintf("%v,%v", ok, err == nil) }

func ptText(p zk.ECPoint) string {
	if p.X == nil || p.Y == nil {
		return "nil"
	}
	return rp(p).String()
}

func (w *world) prove(s stmt) (held, *big.Int, error) {
	z, q, x := w.z, s.pts, s.sec
	var l lib
	var err error
	var blind *big.Int
	switch s.kind {
	case kG:
		l, err = nilIf(zk.NewGSPFSProofBase(z, s.base, q[0], x[0]))
	case kE:
		l, err = nilIf(zk.NewEquivalenceProof(z, q[0], q[1], q[2], q[3], x[0]))
	case kC:
		l, err = nilIf(zk.NewConsistencyProof(z, q[0], q[1], q[2], x[0], x[1]))
	case kD:
		l, err = nilIf(zk.NewDisjunctiveProof(z, q[0], q[1], q[2], q[3], x[0], s.side))
	case kA:
		l, err = nilIf(zk.NewABCProof(z, q[0], q[1], x[0], x[2], s.side))
	case kI:
		var p *zk.InequalityProof
		p, err = zk.NewInequalityProof(z, s.full[0], s.full[1], s.full[2], s.full[3], x[0], x[2], x[4])
		if p != nil {
			l = libI{p}
		}
	case kR:
		var p *zk.RangeProof
		p, blind, err = zk.NewRangeProof(z, x[0])
		if p != nil {
			l = p
		}
	}
	return held{l, q}, blind, err
}

// do runs one operation. Wrong results of operations with fresh randomness
// come back as an error.
func (w *world) do(h hop) (res string, o out, err error) {
	z := w.z
	i, j, k := pick(w.ints, h.A), pick(w.ints, h.B), pick(w.ints, h.C)
	p, q := pick(w.pts, h.A), pick(w.pts, h.B)
	ptOut := func(r zk.ECPoint) {
		res = ptText(r)
		o.pts = []zk.ECPoint{r}
	}
	key := pick(w.keys, h.A)
	switch h.Op {
	case "mult":
		ptOut(z.Mult(p, j))
	case "add":
		ptOut(z.Add(p, q))
	case "sub":
		ptOut(z.Sub(p, q))
	case "neg":
		ptOut(z.Neg(p))
	case "equal":
		res = fmt.Sprint(p.Equal(q), p.Equal(p))
	case "ptbytes":
		b := p.Bytes()
		res = hex.EncodeToString(b)
		o.blobs, o.spare = [][]byte{b[:len(b):len(b)]}, b[len(b):cap(b)]
	case "commitr":
		ptOut(zk.CommitR(z, p, j))
	case "verifyr":
		res = fmt.Sprint(zk.VerifyR(z, p, q, k))
	case "pedr":
		ptOut(zk.PedCommitR(z, i, j))
	case "open":
		res = fmt.Sprint(zk.Open(z, i, j, pick(w.pts, h.C)))
	case "challenge":
		c := zk.GenerateChallenge(z, p.Bytes(), pick(w.blobs, h.B), q.Bytes(), pick(w.blobs, h.C))
		res = c.String()
		o.ints = []*big.Int{c}
	case "verify":
		f := pick(w.prfs, h.A)
		res = two(libVerifyZ(z, f.l, f.pts))
	case "verifyother":
		f := pick(w.prfs, h.A)
		pts := append([]zk.ECPoint{}, f.pts...)
		if len(pts) > 0 {
			pts[h.B%len(pts)] = pick(w.pts, h.C)
		}
		res = two(libVerifyZ(z, f.l, pts))
	case "verifyalt":
		// A proof with one field changed: a number that is not reduced, is
		// negative or zero, or a point that is infinity or off the curve.
		f := pick(w.prfs, h.A)
		v, er := view(f.l)
		if er != nil {
			return "", o, er
		}
		v = v.alter(h.B, h.C)
		l, er := libMake(kindOf(f.l), v)
		if er != nil {
			return "error", o, nil
		}
		b := l.Bytes()
		res = two(libVerifyZ(z, l, f.pts))
		if !bytes.Equal(l.Bytes(), b) {
			return "", o, bad("verifying changed the proof (%T) from %x to %x", l, b, l.Bytes())
		}
	case "encode":
		f := pick(w.prfs, h.A)
		b := f.l.Bytes()
		res = hex.EncodeToString(b)
		o.blobs, o.spare = [][]byte{b[:len(b):len(b)]}, b[len(b):cap(b)]
		o.encs = []encoded{{kind: kindOf(f.l)}}
	case "decode":
		e := pick(w.encs, h.A)
		l, er := libDec(e.kind, w.blobs[e.b])
		if er != nil {
			return "error", o, nil
		}
		res = hex.EncodeToString(l.Bytes())
		// The buffer is the caller's to use again.
		b := append([]byte{}, w.blobs[e.b]...)
		if l, er = libDec(e.kind, b); er != nil {
			return "", o, bad("decoding %x: %v, and not the first time", w.blobs[e.b], er)
		}
		for i := range b {
			b[i] ^= 0x5a
		}
		if p, er := view(l); er == nil && kindOf(l) != kA && kindOf(l) != kI {
			for _, q := range p.P {
				o.pts = append(o.pts, zk.ECPoint{X: q.X, Y: q.Y})
			}
			o.ints, o.fresh = p.S, true
		}
		if s := hex.EncodeToString(l.Bytes()); s != res {
			return "", o, bad("a proof decoded from %x became %s when the buffer was used again", w.blobs[e.b], s)
		}
	case "cadd":
		x, y := z.C.Add(p.X, p.Y, q.X, q.Y)
		ptOut(zk.ECPoint{X: x, Y: y})
	case "cdbl":
		x, y := z.C.Double(p.X, p.Y)
		ptOut(zk.ECPoint{X: x, Y: y})
	case "cmul":
		x, y := z.C.ScalarMult(p.X, p.Y, ref.ModN(j).Bytes())
		ptOut(zk.ECPoint{X: x, Y: y})
	case "cbase":
		b := pick(w.blobs, h.A)
		x, y := z.C.ScalarBaseMult(b)
		ptOut(zk.ECPoint{X: x, Y: y})
	case "cbaseh":
		b := pick(w.blobs, h.A)
		x, y := btcec.S256().ScalarBaseMultH(b)
		ptOut(zk.ECPoint{X: x, Y: y})
	case "oncurve":
		res = fmt.Sprint(z.C.IsOnCurve(p.X, p.Y), z.C.IsOnCurve(p.X, q.Y))
	case "naf":
		a, b := btcec.NAF(pick(w.blobs, h.A))
		res = hex.EncodeToString(a) + "," + hex.EncodeToString(b)
	case "sign":
		s, er := key.Sign(pick(w.blobs, h.B))
		if er != nil {
			return "error", o, nil
		}
		res = s.R.String() + "," + s.S.String()
		o.sigs = []*btcec.Signature{s}
	case "sigverify":
		if len(w.sigs) == 0 {
			return "none", o, nil
		}
		s := pick(w.sigs, h.A)
		res = fmt.Sprint(s.Verify(pick(w.blobs, h.B), pick(w.keys, h.C).PubKey()), s.IsEqual(pick(w.sigs, h.C)))
	case "sigenc":
		if len(w.sigs) == 0 {
			return "none", o, nil
		}
		b := pick(w.sigs, h.A).Serialize()
		res = hex.EncodeToString(b)
		o.blobs, o.spare = [][]byte{b[:len(b):len(b)]}, b[len(b):cap(b)]
	case "sigparse":
		b := pick(w.blobs, h.A)
		s, er := btcec.ParseDERSignature(b, btcec.S256())
		s2, er2 := btcec.ParseSignature(b, btcec.S256())
		res = fmt.Sprint(er == nil, er2 == nil)
		if er == nil {
			res += s.R.String() + "," + s2.S.String()
			o.sigs = []*btcec.Signature{s}
			d := append([]byte{}, b...)
			if s3, er := btcec.ParseDERSignature(d, btcec.S256()); er == nil {
				for i := range d {
					d[i] ^= 0x5a
				}
				if !s3.IsEqual(s) {
					return "", o, bad("a signature parsed from %x changed with the buffer", b)
				}
			}
		}
	case "compact":
		hash := pick(w.blobs, h.B)
		b, er := btcec.SignCompact(btcec.S256(), key, hash, h.C%2 == 0)
		if er != nil {
			return "error", o, nil
		}
		pub, comp, er := btcec.RecoverCompact(btcec.S256(), b, hash)
		if er != nil {
			return "", o, bad("RecoverCompact of a fresh signature: %v", er)
		}
		res = fmt.Sprint(hex.EncodeToString(b), comp, pub.IsEqual(key.PubKey()))
	case "pubenc":
		pk := key.PubKey()
		bs := [][]byte{pk.SerializeCompressed(), pk.SerializeUncompressed(), pk.SerializeHybrid(), key.Serialize()}
		was := fmt.Sprintf("%x", bs)
		for _, b := range bs {
			fill(b[len(b):cap(b)])
		}
		if now := fmt.Sprintf("%x", bs); now != was {
			return "", o, bad("key encodings %s became %s when the caller appended to them", was, now)
		}
		for _, b := range bs {
			res += hex.EncodeToString(b) + ","
			b = append([]byte{}, b...)
			r, er := btcec.ParsePubKey(b, btcec.S256())
			k2, p2 := btcec.PrivKeyFromBytes(btcec.S256(), b[len(b)-32:])
			d, x := k2.D.String(), p2.X.String()
			for i := range b {
				b[i] ^= 0x5a
			}
			if er == nil {
				res += fmt.Sprint(r.IsEqual(pk))
			}
			if k2.D.String() != d || p2.X.String() != x || k2.X.String() != x {
				return "", o, bad("a private key changed with the buffer it was parsed from")
			}
		}
	case "ecdh":
		b := btcec.GenerateSharedSecret(key, pick(w.keys, h.B).PubKey())
		res = hex.EncodeToString(b)
		o.blobs, o.spare = [][]byte{b[:len(b):len(b)]}, b[len(b):cap(b)]
	case "decrypt":
		ct := w.blobs[pick(w.cts, h.B)]
		d, er := btcec.Decrypt(w.keys[0], ct)
		res = hex.EncodeToString(d) + fmt.Sprint(er)
		o.blobs, o.spare, o.fresh = [][]byte{d[:len(d):len(d)]}, d[len(d):cap(d)], true
		if h.C%3 == 0 { // under a wrong key
			_, er = btcec.Decrypt(key, ct)
			res += fmt.Sprint(er)
		}
	case "wire":
		var buf bytes.Buffer
		zk.WriteBigInt(&buf, j)
		res = hex.EncodeToString(buf.Bytes())
		buf.Reset()
		zk.WriteECPoint(&buf, p)
		zk.WriteBigInt(&buf, ref.ModN(j))
		wire.WriteVarInt(&buf, uint64(h.C)*0x123456789)
		wire.WriteVarBytes(&buf, pick(w.blobs, h.C))
		res += hex.EncodeToString(buf.Bytes())
		p2, e1 := zk.ReadECPoint(&buf)
		j2, e2 := zk.ReadBigInt(&buf)
		n2, e3 := wire.ReadVarInt(&buf)
		b2, e4 := wire.ReadVarBytes(&buf, 1<<20, "blob")
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			return "", o, bad("reading back: %v %v %v %v", e1, e2, e3, e4)
		}
		o.pts, o.ints, o.fresh = []zk.ECPoint{p2}, []*big.Int{j2}, true
		res += fmt.Sprint(ptText(p2), j2, n2, hex.EncodeToString(b2))
	case "proveFalse":
		s := pick(w.stmts, h.A)
		if s.kind == kR || s.kind == kI {
			return "none", o, nil
		}
		s.pts = append([]zk.ECPoint{}, s.pts...)
		s.pts[h.B%len(s.pts)] = pick(w.pts, h.C)
		f, _, er := w.prove(s)
		ok := false
		if er == nil {
			ok, _ = libVerifyZ(z, f.l, s.pts)
		}
		res = fmt.Sprint(ok)
	// Fresh randomness.
	case "prove":
		f, blind, er := w.prove(pick(w.stmts, h.A))
		if er != nil {
			return "", o, bad("prover for a true %s statement: %v", pick(w.stmts, h.A).kind, er)
		}
		if blind != nil {
			f.pts = []zk.ECPoint{zk.PedCommitR(z, pick(w.stmts, h.A).sec[0], blind)}
			o.ints = []*big.Int{blind}
		}
		if ok, er := libVerifyZ(z, f.l, f.pts); !ok || er != nil {
			return "", o, bad("an honest proof does not verify: %v %v", ok, er)
		}
		o.prfs = []held{f}
		res = "ok"
	case "ped":
		c, r, er := zk.PedCommit(z, i)
		if er != nil || !zk.Open(z, i, r, c) {
			return "", o, bad("PedCommit: %v", er)
		}
		o.pts, o.ints = []zk.ECPoint{c}, []*big.Int{r}
		res = "ok"
	case "keygen":
		pk, sk := zk.KeyGen(z.C, p)
		if !z.Mult(p, sk).Equal(pk) {
			return "", o, bad("KeyGen: the public key is not sk*base")
		}
		o.pts, o.ints = []zk.ECPoint{pk}, []*big.Int{sk}
		res = "ok"
	case "encrypt":
		m := pick(w.blobs, h.B)
		c, er := btcec.Encrypt(key.PubKey(), m)
		if er != nil {
			return "", o, bad("Encrypt: %v", er)
		}
		d, er := btcec.Decrypt(key, c)
		if er != nil || !bytes.Equal(d, m) {
			return "", o, bad("Decrypt(Encrypt(%x)) = %x, %v", m, d, er)
		}
		o.blobs, o.spare = [][]byte{c[:len(c):len(c)]}, c[len(c):cap(c)]
		res = "ok"
	}
	return
}

func kindOf(l lib) string {
	switch l.(type) {
	case *zk.GSPFSProof:
		return kG
	case *zk.EquivalenceProof:
		return kE
	case *zk.ConsistencyProof:
		return kC
	case *zk.DisjunctiveProof:
		return kD
	case *zk.ABCProof:
		return kA
	case libI:
		return kI
	}
	return kR
}

func (g *gen) world(nw int, rangeOK bool) World {
	c := World{Seed: g.seed()}
	pr := ref.Std
	if g.oneIn(5) {
		c.Own = true
		_, c.G, c.H = g.params()
		if c.H.IsInf() {
			c.H = ref.G.Copy()
		}
		pr = ref.MakeParams(c.G, c.H)
	}
	for i := 2 + g.pick(4); i > 0; i-- {
		c.Ints = append(c.Ints, g.anyInt(true))
	}
	for i := 2 + g.pick(3); i > 0; i-- {
		c.Pts = append(c.Pts, g.pointI())
	}
	for i := 2 + g.pick(3); i > 0; i-- {
		c.Blobs = append(c.Blobs, g.bytes(1+g.pick(40)))
	}
	for i := 1 + g.pick(nw); i > 0; i-- {
		ws := []int{4, 4, 4, 4, 4, 4, 0}
		if rangeOK {
			ws[6] = 1
		}
		w := g.witness(allKinds[g.weighted(ws...)], pr)
		if g.oneIn(4) && w.Kind == kE && len(c.Wits) == 0 { // one object in all places
			w.Pts[2], w.Pts[3] = w.Pts[0].Copy(), w.Pts[1].Copy()
		}
		c.Wits = append(c.Wits, w)
	}
	return c
}

func (g *gen) hop(fresh bool) hop {
	h := hop{A: g.pick(64), B: g.pick(64), C: g.pick(64)}
	if fresh && g.oneIn(4) {
		h.Op = freshOps[g.pick(len(freshOps))]
	} else if g.oneIn(4) {
		h.Op = []string{"verify", "verifyother", "decode", "encode"}[g.pick(4)]
	} else {
		h.Op = fixedOps[g.pick(len(fixedOps))]
	}
	return h
}

// at is the world as it was when it had so many objects.
func (w *world) at(n [7]int) *world {
	return &world{z: w.z, ints: w.ints[:n[0]], pts: w.pts[:n[1]], blobs: w.blobs[:n[2]], prfs: w.prfs[:n[3]], encs: w.encs[:n[4]], keys: w.keys[:n[5]], sigs: w.sigs[:n[6]], stmts: w.stmts, cts: w.cts,
		intsC: w.intsC, ptsC: w.ptsC, blobsC: w.blobsC, prfsC: w.prfsC, keysC: w.keysC, keysP: w.keysP, sigsC: w.sigsC, glob: w.glob}
}

// owned are the numbers an operation on w can be given, and the constants.
func (w *world) owned() map[*big.Int]bool {
	m := map[*big.Int]bool{}
	ints := func(vs ...*big.Int) {
		for _, v := range vs {
			m[v] = true
		}
	}
	pts := func(ps ...zk.ECPoint) {
		for _, p := range ps {
			ints(p.X, p.Y)
		}
	}
	ints(w.ints...)
	pts(w.pts...)
	for _, z := range []zk.ZKPCurveParams{w.z, zk.TestCurve} {
		pts(z.G, z.H)
		pts(z.HPoints...)
	}
	pts(zk.Zero)
	c := btcec.S256().Params()
	ints(zk.BigZero, c.P, c.N, c.B, c.Gx, c.Gy)
	for _, k := range w.keys {
		ints(k.D, k.X, k.Y)
	}
	for _, s := range w.sigs {
		ints(s.R, s.S)
	}
	for _, f := range w.prfs {
		pts(f.pts...)
		switch f.l.(type) {
		case *zk.ABCProof, libI:
		default: // the fields themselves
			if p, err := view(f.l); err == nil {
				for _, q := range p.P {
					ints(q.X, q.Y)
				}
				ints(p.S...)
			}
		}
	}
	return m
}

// scribble does h, overwrites what it returned, unless that is an object of
// the caller, and does it again.
func (w *world) scribble(h hop, want string, r *Rec) error {
	_, o, err := w.do(h)
	if err != nil {
		return err
	}
	own := w.owned()
	type saved struct{ p, v *big.Int }
	var undo []saved
	over := func(v *big.Int) {
		if v != nil && (o.fresh || !own[v]) {
			undo = append(undo, saved{v, cp(v)})
			bs := v.Bits()
			for i := range bs {
				bs[i] ^= 0x5a5a5a5a
			}
			v.Add(v, bi(12345))
		}
	}
	var old [][]byte
	for _, v := range o.ints {
		over(v)
	}
	for _, p := range o.pts {
		over(p.X)
		over(p.Y)
	}
	for _, s := range o.sigs {
		over(s.R)
		over(s.S)
	}
	for _, b := range o.blobs {
		old = append(old, append([]byte{}, b...))
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	if len(undo)+len(old) > 0 {
		r.Class("result overwritten: %s", h.Op)
	}
	if o.fresh {
		err = w.intact()
	}
	var res string
	if err == nil {
		res, _, err = w.do(h)
	}
	for _, u := range undo {
		u.p.Set(u.v)
	}
	for i, b := range o.blobs {
		copy(b, old[i])
	}
	if err != nil {
		return bad("after the caller changed an earlier result: %v", err)
	}
	if res != want {
		return bad("gave %s, and %s after the caller changed the earlier result", want, res)
	}
	return nil
}

// ---- C28 ----

type c28 struct {
	W   World
	Ops []hop
	Rnd Rnd
}

func genC28(g *gen) c28 {
	c := c28{W: g.world(3, true), Rnd: g.rnd()}
	for i := 3 + g.pick(14); i > 0; i-- {
		c.Ops = append(c.Ops, g.hop(true))
	}
	return c
}

var isFixed = func() map[string]bool {
	m := map[string]bool{}
	for _, o := range fixedOps {
		m[o] = true
	}
	return m
}()

func checkC28(c c28, r *Rec) (err error) {
	w, err := c.W.build()
	if err != nil {
		return err
	}
	type done struct {
		i   int
		h   hop
		res string
		// the sizes of the pools then, so that the repetition picks the same
		n [7]int
	}
	sizes := func() [7]int {
		return [7]int{len(w.ints), len(w.pts), len(w.blobs), len(w.prfs), len(w.encs), len(w.keys), len(w.sigs)}
	}
	var log []done
	var spare [][]byte
	c.Rnd.with(func() {
		for i, h := range c.Ops {
			n := sizes()
			res, o, e := w.do(h)
			if e != nil {
				err = bad("step %d (%s): %v", i, h.Op, e)
				return
			}
			r.Class("%s", h.Op)
			if e := w.intact(); e != nil {
				err = bad("step %d (%s) changed something: %v", i, h.Op, e)
				return
			}
			if isFixed[h.Op] {
				log = append(log, done{i, h, res, n})
			}
			w.keep(o)
			spare = append(spare, o.spare)
		}
		for _, b := range spare {
			fill(b)
		}
		if e := w.intact(); e != nil {
			err = bad("after the caller appended to its results: %v", e)
			return
		}
		// Everything that is a function of its inputs, once more.
		if len(log) > 0 {
			r.NT()
		}
		for _, d := range log {
			res, _, e := w.at(d.n).do(d.h)
			if e != nil {
				err = bad("step %d (%s) again: %v", d.i, d.h.Op, e)
				return
			}
			if res != d.res {
				err = bad("step %d (%s) gave %s, and later %s", d.i, d.h.Op, d.res, res)
				return
			}
		}
		if e := w.intact(); e != nil {
			err = bad("after repeating: %v", e)
			return
		}
		// The caller may do with a result what it likes: no later one changes.
		for _, d := range log {
			if err = w.at(d.n).scribble(d.h, d.res, r); err != nil {
				err = bad("step %d (%s): %v", d.i, d.h.Op, err)
				return
			}
		}
	})
	if err != nil {
		return err
	}
	// The tables behind the generators.
	rng := chacha(c.W.Seed, "tables")
	var b [32]byte
	rng.Read(b[:])
	k := new(big.Int).SetBytes(b[:])
	x, y := btcec.S256().ScalarBaseMult(b[:])
	if p := ref.Mul(ref.G, k); p.X.Cmp(x) != 0 || p.Y.Cmp(y) != 0 {
		return bad("afterwards ScalarBaseMult(%x) = (%x, %x), want %v", b, x, y, p)
	}
	x, y = btcec.S256().ScalarBaseMultH(b[:])
	if p := ref.Mul(ref.H, k); p.X.Cmp(x) != 0 || p.Y.Cmp(y) != 0 {
		return bad("afterwards ScalarBaseMultH(%x) = (%x, %x), want %v", b, x, y, p)
	}
	return nil
}

// ---- C29 ----

type c29 struct {
	W       World
	Runs    [][]hop     // one per goroutine
	Mix     [][]mixStep // or cases of other properties
	Readers int         `json:",omitempty"` // or this many calls waiting for input
}

func genC29(g *gen) c29 {
	if g.oneIn(4) {
		var c c29
		g.mem = &memory{}
		same := g.flag()
		for i := 2 + g.pick(5); i > 0; i-- {
			var ss []mixStep
			if same && len(c.Mix) > 0 {
				ss = append(ss, c.Mix[0]...)
			} else {
				for k := 1 + g.pick(4); k > 0; k-- {
					ss = append(ss, g.mix(pureIDs, pureW))
				}
			}
			c.Mix = append(c.Mix, ss)
		}
		return c
	}
	c := c29{W: g.world(3, g.oneIn(4))}
	n := 2 + g.pick(6)
	same := g.flag() // all goroutines do the same
	for i := 0; i < n; i++ {
		var ops []hop
		if same && i > 0 {
			ops = append(ops, c.Runs[0]...)
		} else {
			for k := 2 + g.pick(5); k > 0; k-- {
				ops = append(ops, g.hop(true))
			}
		}
		c.Runs = append(c.Runs, ops)
	}
	return c
}

// enumC28 verifies proofs of every kind with each field changed in each way.
func enumC28() []c28 {
	var r []c28
	for i, k := range allKinds {
		g := &gen{rng: chacha(uint64(i), "enumC28")}
		for b := 0; b < 20 && (k != kR || b < 5); b++ {
			c := c28{W: World{Seed: uint64(i), Pts: []ref.Pt{ref.Mul(ref.G, g.rscalar())}, Ints: []*big.Int{g.rscalar()}, Blobs: []Hex{g.bytes(32)}}, Rnd: Rnd{Seed: uint64(i)}}
			c.W.Wits = append(c.W.Wits, fixedWit(k))
			c.Ops = append(c.Ops, hop{Op: "prove"})
			for n := 0; n < 5; n++ {
				c.Ops = append(c.Ops, hop{Op: "verifyalt", B: b, C: n})
			}
			r = append(r, c)
		}
	}
	return r
}

// enumC29 runs every operation against itself and against its neighbours.
func enumC29() []c29 {
	var r []c29
	all := append(append([]string{}, fixedOps...), freshOps[3:]...)
	base := func(kind string, seed uint64) World {
		g := &gen{rng: chacha(seed, "enumC29")}
		w := World{Seed: seed, Pts: []ref.Pt{ref.Mul(ref.G, g.rscalar()), ref.Mul(ref.G, g.rscalar())},
			Ints: []*big.Int{g.rscalar(), g.rscalar()}, Blobs: []Hex{g.bytes(32), g.bytes(20)}}
		w.Wits = append(w.Wits, fixedWit(kind))
		return w
	}
	for i, k := range allKinds {
		c := c29{W: base(k, uint64(i))}
		for n := 0; n < 4; n++ {
			c.Runs = append(c.Runs, []hop{{Op: "prove"}, {Op: "verify"}, {Op: "encode"}, {Op: "decode"}, {Op: "verifyother", C: 7}, {Op: "proveFalse", C: 6}})
		}
		r = append(r, c)
	}
	for i, o := range all {
		c := c29{W: base(kG, uint64(100+i))}
		for n := 0; n < 4; n++ {
			c.Runs = append(c.Runs, []hop{{Op: o, A: 5, B: 6, C: 5}, {Op: o, A: 5, B: 6, C: 5}, {Op: all[(i+1)%len(all)], A: 6, B: 5, C: 1}})
		}
		r = append(r, c)
	}
	for _, n := range []int{2, 300, 2500} {
		r = append(r, c29{Readers: n})
	}
	// Many at once.
	for _, k := range []string{kG, kC, kR} {
		c := c29{W: base(k, 999)}
		for n := 0; n < 120; n++ {
			c.Runs = append(c.Runs, []hop{{Op: "encode"}, {Op: "decode"}, {Op: fixedOps[n%len(fixedOps)], A: n, B: n / 3, C: n / 7}, {Op: "encode"}})
		}
		r = append(r, c)
	}
	return r
}

// manyReaders: n calls that wait for their input at the same time all return.
func manyReaders(n int, r *Rec) error {
	r.NT()
	r.Class("%d readers at once", n)
	var wg sync.WaitGroup
	errs := make([]error, n)
	ws := make([]*io.PipeWriter, n)
	for i := 0; i < n; i++ {
		pr, pw := io.Pipe()
		ws[i] = pw
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			v, err := wire.ReadVarInt(pr)
			if want := uint64(1000 + i); err != nil || v != want {
				errs[i] = bad("ReadVarInt among %d others = %d, %v; want %d", n, v, err, want)
			}
			pr.Close()
		}(i)
	}
	// Each first byte, then each rest, so that all have begun.
	for part := 0; part < 2; part++ {
		for i := range ws {
			b := []byte{0xfd, byte(1000 + i), byte((1000 + i) >> 8)}
			if part == 0 {
				b = b[:1]
			} else {
				b = b[1:]
			}
			if _, err := ws[i].Write(b); err != nil {
				return bad("a reader among %d gave up: %v", n, err)
			}
		}
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func checkC29(c c29, r *Rec) error {
	if c.Readers > 0 {
		return manyReaders(c.Readers, r)
	}
	if c.Mix != nil {
		r.NT()
		return runMix(c.Mix, r)
	}
	w, err := c.W.build()
	if err != nil {
		return err
	}
	// A signature and its owners exist before the goroutines start.
	res := make([][]string, len(c.Runs))
	errs := make([]error, len(c.Runs))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range c.Runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = bad("panic: %v", x)
				}
			}()
			<-start
			for _, h := range c.Runs[i] {
				s, _, e := w.do(h)
				if e != nil {
					errs[i] = bad("goroutine %d, %s: %v", i, h.Op, e)
					return
				}
				res[i] = append(res[i], s)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	n := 0
	for i := range c.Runs {
		if errs[i] != nil {
			return errs[i]
		}
		for k, h := range c.Runs[i] {
			r.Class("%s", h.Op)
			n++
			if !isFixed[h.Op] {
				continue
			}
			s, _, e := w.do(h)
			if e != nil {
				return bad("%s alone: %v", h.Op, e)
			}
			if s != res[i][k] {
				return bad("%s gave %s among other goroutines, and %s alone", h.Op, res[i][k], s)
			}
		}
	}
	r.Class("goroutines %d", len(c.Runs))
	if n > 1 && len(c.Runs) > 1 {
		r.NT()
	}
	if e := w.intact(); e != nil {
		return bad("after the goroutines: %v", e)
	}
	return nil
}

func init() {
	reg("C28", "histories of 3 to 16 operations of all packages that take live objects by reference (the packages' own globals among them, equal numbers being one object), each followed by a comparison of everything with its first value, then every deterministic operation again; non-trivial: at least one operation was repeated", 900, 8000, genC28, checkC28, enum(enumC28))
	reg("C29", "2 to 7 goroutines with 2 to 6 operations each on shared parameters, statements, proofs, numbers and byte strings, under the race detector; deterministic results are compared with those of the same call alone; every operation against itself is enumerated; non-trivial: two goroutines with operations", 150, 2500, genC29, checkC29, enum(enumC29),
		assume("goroutine schedules are chosen by the Go runtime; the race detector judges the accesses made"))
}
