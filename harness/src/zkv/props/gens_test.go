package props

import (
	"encoding/binary"
	"math/big"
	"math/bits"
	mrand "math/rand/v2"

	"pgregory.net/rapid"
	"zkv/ref"
)

// gen draws structure from rapid (so that it shrinks) and bulk randomness from
// a generator seeded by one rapid draw.
type gen struct {
	t   *rapid.T
	rng *mrand.ChaCha8
	sd  uint64
	mem *memory
	// force holds the outcomes of the next picks.
	force []int
	// deg restricts integers and points to degenerate ones.
	deg bool
	// long allows scalars of more than 256 bits in changed proofs; those of ABC
	// and range proofs are made by decoding, which has no such numbers.
	long bool
}

// plainGen draws from a seed alone, for enumerated cases.
func plainGen(seed uint64) *gen { return &gen{rng: chacha(seed, "plain"), sd: seed} }

// memory holds values of earlier cases of a history.
type memory struct {
	ints  []*big.Int
	pts   []ref.Pt
	blobs [][]byte
	wits  map[string][]Wit
	parts [][]Hex
}

// recall says whether to take a value of an earlier case, of n.
func (g *gen) recall(n int) bool { return n > 0 && g.oneIn(3) }

// blob is a byte string of length n, perhaps one of an earlier case or close
// to it.
func (g *gen) blob(n int) []byte {
	if g.mem == nil {
		return g.bytes(n)
	}
	b := g.bytes(n)
	if g.recall(len(g.mem.blobs)) {
		old := g.mem.blobs[g.pick(len(g.mem.blobs))]
		switch g.pick(4) {
		case 0:
			b = append([]byte{}, old...)
		case 1: // same length and beginning
			b = append([]byte{}, old...)
			if len(b) > 0 {
				b[len(b)-1] ^= 1 << g.pick(8)
			}
		case 2: // same end
			b = append([]byte{}, old...)
			if len(b) > 0 {
				b[0] ^= 1 << g.pick(8)
			}
		case 3:
			copy(b, old)
		}
	}
	g.mem.blobs = append(g.mem.blobs, append([]byte{}, b...))
	return b
}

var boolGen = rapid.Bool()

func drawBits(t *rapid.T, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v <<= 1
		if boolGen.Draw(t, "b") {
			v |= 1
		}
	}
	return v
}

func newGen(t *rapid.T) *gen {
	s := drawBits(t, 40)
	return &gen{t: t, rng: chacha(s, "gen"), sd: s}
}

// pick draws uniformly from 0..n-1 and shrinks towards 0.
func (g *gen) pick(n int) int {
	if len(g.force) > 0 {
		v := g.force[0]
		g.force = g.force[1:]
		return v % n
	}
	if g.t == nil {
		return int(g.u64() % uint64(n))
	}
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		k += 4
	}
	return int(drawBits(g.t, k) % uint64(n))
}

func (g *gen) oneIn(n int) bool { return g.pick(n) == n-1 }
func (g *gen) flag() bool       { return g.pick(2) == 1 }

// weighted draws an index with the given weights.
func (g *gen) weighted(ws ...int) int {
	tot := 0
	for _, w := range ws {
		tot += w
	}
	v := g.pick(tot)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.rng.Read(b)
	return b
}

func (g *gen) u64() uint64 { return binary.BigEndian.Uint64(g.bytes(8)) }

// below is uniform in [0, m).
func (g *gen) below(m *big.Int) *big.Int {
	b := g.bytes((m.BitLen()+7)/8 + 16)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), m)
}

// seed is for a stream.
func (g *gen) seed() uint64 { return g.u64() >> 1 }

func pow2(n int) *big.Int { return new(big.Int).Lsh(bi(1), uint(n)) }

// uniform scalar in [1, N)
func (g *gen) rscalar() *big.Int {
	return new(big.Int).Add(g.below(new(big.Int).Sub(ref.N, bi(1))), bi(1))
}

// scalar is in [0, N): uniform or structured.
func (g *gen) scalar() *big.Int { return ref.ModN(g.anyInt(false)) }

// nzscalar is in [1, N).
func (g *gen) nzscalar() *big.Int {
	s := g.scalar()
	if s.Sign() == 0 {
		return bi(1)
	}
	return s
}

// anyInt draws an integer; wild allows negatives and values beyond N.
func (g *gen) anyInt(wild bool) *big.Int {
	if g.deg {
		v := []*big.Int{bi(0), bi(1), new(big.Int).Sub(ref.N, bi(1)), bi(2), ref.N, bi(-1)}[g.pick(6)]
		if !wild {
			v = ref.ModN(v)
		}
		return cp(v)
	}
	if g.mem == nil {
		return g.newInt(wild)
	}
	var v *big.Int
	if g.recall(len(g.mem.ints)) {
		v = cp(g.mem.ints[g.pick(len(g.mem.ints))])
		switch g.pick(6) {
		case 0:
			v.Neg(v)
		case 1:
			v.Sub(ref.N, v)
		case 2:
			v.Add(v, ref.N)
		case 3:
			v.Add(v, pow2(g.pick(256)))
		}
		if !wild {
			v = ref.ModN(v)
		}
	} else {
		v = g.newInt(wild)
	}
	g.mem.ints = append(g.mem.ints, cp(v))
	return v
}

func (g *gen) newInt(wild bool) *big.Int {
	var v *big.Int
	switch g.weighted(8, 4, 3, 3, 2, 2, 2, 2, 2, 1, 1, 2, 2) {
	case 12: // around the ends of machine integers
		v = pow2([]int{63, 64, 31, 32, 62, 53, 127, 128}[g.pick(8)])
		if g.flag() {
			v.Add(v, bi(int64(g.pick(9)-4)))
		} else {
			v.Add(v, new(big.Int).Rsh(v, uint(1+g.pick(4))))
		}
	case 0:
		v = g.below(ref.N)
	case 1:
		v = bi(int64(g.pick(20)))
	case 2: // around N
		v = new(big.Int).Add(ref.N, bi(int64(g.pick(17)-8)))
		if !wild && v.Cmp(ref.N) >= 0 {
			v = new(big.Int).Sub(ref.N, bi(int64(g.pick(16)+1)))
		}
	case 3: // around a power of two
		v = new(big.Int).Add(pow2(g.pick(256)), bi(int64(g.pick(3)-1)))
	case 4: // leading zero bytes
		v = new(big.Int).SetBytes(g.bytes(1 + g.pick(31)))
	case 5: // sparse
		v = new(big.Int)
		for i := g.pick(6); i >= 0; i-- {
			v.SetBit(v, g.pick(256), 1)
		}
	case 6: // zero and all-one bytes mixed in
		b := g.bytes(32)
		for i := range b {
			switch g.pick(4) {
			case 1:
				b[i] = 0
			case 2:
				b[i] = 0xff
			}
		}
		v = new(big.Int).SetBytes(b)
	case 7: // around multiples of the endomorphism's eigenvalue
		v = new(big.Int).Mul(ref.Lambda, bi(int64(g.pick(7)-3)))
		v.Add(v, bi(int64(g.pick(7)-3)))
		v.Mod(v, ref.N)
	case 8: // around fractions of N
		d := int64(2 + g.pick(15))
		v = new(big.Int).Div(new(big.Int).Mul(ref.N, bi(1+int64(g.pick(int(d))))), bi(d))
		v.Add(v, bi(int64(g.pick(5)-2)))
	case 9: // runs of ones
		a, b := g.pick(257), g.pick(257)
		if a < b {
			a, b = b, a
		}
		v = new(big.Int).Sub(pow2(a), pow2(b))
	case 10: // trailing zero bytes
		v = new(big.Int).Lsh(new(big.Int).SetBytes(g.bytes(1+g.pick(8))), uint(8*g.pick(25)))
	case 11: // a machine word
		v = new(big.Int).SetUint64(g.u64() >> uint(g.pick(64)))
	}
	if wild {
		switch g.weighted(12, 3, 2, 1, 1) {
		case 1:
			v = new(big.Int).Neg(v)
		case 2: // same residue, other representative
			v = new(big.Int).Add(v, new(big.Int).Mul(ref.N, bi(int64(g.pick(9)-4))))
		case 3: // long
			v = new(big.Int).SetBytes(g.bytes(33 + g.pick(40)))
		case 4:
			v = new(big.Int).Neg(new(big.Int).SetBytes(g.bytes(33 + g.pick(40))))
		}
	} else if v.Sign() < 0 {
		v = new(big.Int).Neg(v)
	}
	return v
}

// congruent returns another number that some arithmetic could take for v.
func (g *gen) congruent(v *big.Int) *big.Int {
	m := []*big.Int{ref.N, ref.P, pow2(256), pow2(64), pow2(32)}[g.pick(5)]
	switch g.pick(6) {
	case 0:
		return new(big.Int).Neg(v)
	case 1:
		return new(big.Int).Sub(m, v)
	case 2:
		return new(big.Int).Add(v, m)
	case 3:
		return new(big.Int).Sub(v, m)
	case 4:
		return new(big.Int).Mod(v, m)
	}
	return new(big.Int).Rsh(v, uint(8*g.pick(32)))
}

func shortPt(g *gen) ref.Pt {
	ks := ref.Short[ref.ShortKinds[g.pick(len(ref.ShortKinds))]]
	p := ref.Mul(ref.G, bi(ks[g.pick(len(ks))]))
	if g.flag() {
		p = ref.Neg(p)
	}
	return p
}

// patPt is a point with a structured coordinate: small, large, sparse, or with
// words, bytes or the field's 26-bit limbs that are all zeros or ones.
func (g *gen) patPt() ref.Pt {
	for i := 0; ; i++ {
		var v *big.Int
		switch g.pick(4) {
		case 0:
			v = g.newInt(false)
		case 1:
			w := []uint{26, 32, 64}[g.pick(3)]
			v = new(big.Int)
			for b := uint(0); b < 256; b += w {
				l := g.below(pow2(int(w)))
				switch g.pick(4) {
				case 1:
					l.SetInt64(0)
				case 2:
					l.Sub(pow2(int(w)), bi(1))
				}
				v.Or(v, l.Lsh(l, b))
			}
		case 2:
			v = bi(1 + int64(g.pick(200)))
		case 3:
			v = new(big.Int).Sub(ref.P, bi(1+int64(g.pick(200))))
		}
		if i > 20 {
			v = g.below(ref.P)
		}
		v.Mod(v, ref.P)
		var p ref.Pt
		var ok bool
		if g.rng.Uint64()&1 == 1 {
			p, ok = ref.Lift(v, g.rng.Uint64()&1 == 1)
		} else {
			p, ok = ref.LiftY(v)
		}
		if ok {
			return p
		}
	}
}

// point is a point of the curve other than infinity.
func (g *gen) point() ref.Pt {
	if g.deg {
		return []ref.Pt{ref.G, ref.H, ref.Neg(ref.G), ref.Neg(ref.H), ref.Mul(ref.G, bi(2))}[g.pick(5)].Copy()
	}
	if g.mem == nil {
		return g.newPoint()
	}
	p := ref.Inf()
	if g.recall(len(g.mem.pts)) {
		p = g.mem.pts[g.pick(len(g.mem.pts))].Copy()
		if g.flag() {
			p = g.rel(p)
		}
	}
	if p.IsInf() {
		p = g.newPoint()
	}
	g.mem.pts = append(g.mem.pts, p.Copy())
	return p
}

func (g *gen) newPoint() ref.Pt {
	for {
		var p ref.Pt
		switch g.weighted(8, 2, 2, 1, 1, 3, 2, 3) {
		case 7:
			p = g.patPt()
		case 0:
			p = ref.Mul(ref.G, g.rscalar())
		case 1:
			p = ref.G.Copy()
		case 2:
			p = ref.H.Copy()
		case 3:
			p = ref.Neg(ref.G)
		case 4:
			p = ref.Neg(ref.H)
		case 5:
			p = shortPt(g)
		case 6:
			p = ref.Mul(ref.G, g.nzscalar())
		}
		if !p.IsInf() {
			return p
		}
	}
}

// pointI is a point, or infinity now and then.
func (g *gen) pointI() ref.Pt {
	if g.oneIn(12) {
		return ref.Inf()
	}
	return g.point()
}

// rel draws a point that is related to p.
func (g *gen) rel(p ref.Pt) ref.Pt {
	switch g.pick(7) {
	case 0:
		return p.Copy()
	case 1:
		return ref.Neg(p)
	case 2: // same y, other x
		return ref.Mul(p, ref.Lambda)
	case 3:
		return ref.Neg(ref.Mul(p, ref.Lambda))
	case 4:
		return ref.Mul(p, bi(2))
	case 5:
		return ref.Add(p, ref.G)
	}
	return ref.Mul(p, new(big.Int).Mul(ref.Lambda, ref.Lambda))
}

// differ returns a point other than p, close to it in some sense.
func (g *gen) differ(p ref.Pt) ref.Pt {
	for i := 0; ; i++ {
		var q ref.Pt
		switch {
		case i > 8:
			q = ref.Add(p, ref.G)
		case g.flag():
			q = g.rel(p)
		case g.oneIn(4):
			q = ref.Inf()
		default:
			q = g.point()
		}
		if !q.Eq(p) {
			return q
		}
	}
}

// edgeNonces are 32-byte blocks that a random source may deliver.
var edgeNonces []*big.Int

func init() {
	for _, k := range []int64{0, 1, 2, 3, 255, 256, 65535} {
		edgeNonces = append(edgeNonces, bi(k), new(big.Int).Sub(ref.N, bi(k+1)))
	}
	for _, k := range []int{8, 64, 127, 128, 129, 247, 248, 255} {
		edgeNonces = append(edgeNonces, pow2(k), new(big.Int).Sub(pow2(k), bi(1)))
	}
	edgeNonces = append(edgeNonces, ref.N, new(big.Int).Add(ref.N, bi(1)), new(big.Int).Sub(pow2(256), bi(1)), ref.Lambda, ref.HalfN, new(big.Int).Add(ref.HalfN, bi(1)))
	for _, k := range []string{"X2", "Y2", "XY1"} {
		for _, n := range ref.Short[k][:4] {
			edgeNonces = append(edgeNonces, bi(n))
		}
	}
}

// Rnd says how the random source behaves while a prover runs.
type Rnd struct {
	Seed  uint64
	Edge  int
	Chunk int
}

func (g *gen) rnd() Rnd {
	r := Rnd{Seed: g.seed()}
	switch g.weighted(5, 2, 1) {
	case 1:
		r.Edge = 1 + g.pick(6)
	case 2:
		r.Chunk = 1 + g.pick(31)
	}
	return r
}

func (r Rnd) with(f func()) {
	s := newStream(r.Seed)
	s.edge, s.chunk = r.Edge, r.Chunk
	defer s.install()()
	f()
}
