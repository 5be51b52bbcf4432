package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"runtime"
	"time"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/wire"
)

// ---- C24 ----

type caseC24 struct {
	Kind  string
	Prf   Prf
	Pts   []ref.Pt // a statement to verify for, or nil
	Made  *Wit     // instead: a proof made by the library
	Rnd   Rnd
	Wrong []ref.Pt
}

// rawInt is any integer of up to 256 bits, with sign.
func (g *gen) rawInt() *big.Int {
	v := g.anyInt(false)
	if g.oneIn(6) {
		v = new(big.Int).SetBytes(g.bytes(32))
	}
	if v.BitLen() > 256 {
		v = new(big.Int).Rsh(v, uint(v.BitLen()-256))
	}
	if g.oneIn(3) {
		v = new(big.Int).Neg(v)
	}
	return v
}

// rawPt is any pair of 256-bit coordinates.
func (g *gen) rawPt() ref.Pt {
	if g.flag() {
		return g.pointI()
	}
	return ref.Pt{X: new(big.Int).Abs(g.rawInt()), Y: new(big.Int).Abs(g.rawInt())}
}

var shapes = map[string][2]int{kG: {2, 2}, kE: {2, 2}, kC: {2, 3}, kD: {2, 5}, kA: {7, 9}, kI: {7, 9}}

func (g *gen) rawPrf(kind string) Prf {
	var p Prf
	np, ns := shapes[kind][0], shapes[kind][1]
	if kind == kR {
		n := []int{0, 1, 2, 40, 64, 65}[g.pick(6)]
		if g.oneIn(10) {
			n = []int{252, 253, 254, 300}[g.pick(4)]
		}
		np, ns = n+1, n+1
		if n > 64 { // cheap entries
			p.P, p.S = []ref.Pt{g.rawPt()}, []*big.Int{g.rawInt()}
			for i := 0; i < n; i++ {
				p.P = append(p.P, ref.Pt{X: new(big.Int).SetBytes(g.bytes(1)), Y: new(big.Int).SetBytes(g.bytes(i % 33))})
				p.S = append(p.S, new(big.Int).SetBytes(g.bytes(i%33)))
			}
			return p
		}
	}
	for i := 0; i < np; i++ {
		p.P = append(p.P, g.rawPt())
	}
	for i := 0; i < ns; i++ {
		p.S = append(p.S, g.rawInt())
	}
	return p
}

func genC24(g *gen) caseC24 {
	c := caseC24{Kind: allKinds[g.pick(len(allKinds))]}
	switch g.weighted(6, 2, 2) {
	case 0:
		c.Prf = g.rawPrf(c.Kind)
	case 1: // a valid proof by the reference, for its and for another statement
		w := g.witness(c.Kind, ref.Std)
		c.Prf = refProve(ref.Std, &w, g.nonce)
		c.Pts = w.Pts
	case 2:
		if c.Kind == kR && !g.oneIn(4) {
			c.Kind = kA
		}
		w := g.witness(c.Kind, ref.Std)
		c.Made, c.Pts, c.Rnd = &w, w.Pts, g.rnd()
	}
	if len(c.Pts) > 0 {
		c.Wrong = clonePts(c.Pts)
		i := g.pick(len(c.Wrong))
		c.Wrong[i] = g.differ(c.Wrong[i])
	}
	return c
}

func samePrf(a, b Prf) bool {
	if len(a.P) != len(b.P) || len(a.S) != len(b.S) {
		return false
	}
	for i := range a.P {
		if !a.P[i].Eq(b.P[i]) {
			return false
		}
	}
	for i := range a.S {
		if a.S[i].Cmp(b.S[i]) != 0 {
			return false
		}
	}
	return true
}

func checkC24(c caseC24, r *Rec) error {
	z := zk.TestCurve
	r.NT()
	var l lib
	p := c.Prf
	pts := c.Pts
	if c.Made != nil {
		r.Class("%s by the library", c.Kind)
		var err error
		c.Rnd.with(func() { l, _, err = libProve(z, *c.Made) })
		if err != nil {
			return bad("the prover refused a true statement: %v", err)
		}
		if p, err = view(l); err != nil {
			return bad("the encoding of the library's own proof is malformed: %v", err)
		}
		if c.Kind == kR {
			pts = []ref.Pt{p.P[0]}
		}
	} else {
		if pts == nil {
			r.Class("%s with arbitrary fields", c.Kind)
		} else {
			r.Class("%s by the reference", c.Kind)
		}
		var err error
		if l, err = libMake(c.Kind, p); err != nil {
			return bad("decoding a well-formed encoding: %v", err)
		}
		got, err := view(l)
		if err != nil || !samePrf(got, p) {
			return bad("decoding gives other fields than were encoded: %v, want %v (%v)", got, p, err)
		}
	}
	if c.Kind == kR && len(p.P) > 253 {
		r.Class("more than 252 entries")
	}
	want := refEnc(c.Kind, p)
	enc := l.Bytes()
	if !bytes.Equal(enc, want) {
		return bad("the encoding is %x, want %x", enc, want)
	}
	if !bytes.Equal(l.Bytes(), want) {
		return bad("the second encoding differs")
	}
	keep := append([]byte{}, enc...)
	l2, err := libDec(c.Kind, enc)
	if err != nil || l2 == nil {
		return bad("decoding the encoding fails: %v", err)
	}
	if !bytes.Equal(enc, keep) {
		return bad("decoding changed the bytes")
	}
	p2, err := view(l2)
	if err != nil || !samePrf(p2, p) {
		return bad("round trip: fields %v became %v (%v)", p, p2, err)
	}
	// the decoded proof must not live in the buffer
	for i := range enc {
		enc[i] ^= 0x5a
	}
	if p3, err := view(l2); err != nil || !samePrf(p3, p) || !bytes.Equal(l2.Bytes(), want) {
		return bad("the decoded proof changes with the buffer it was decoded from")
	}
	// trailing bytes do not matter to the fields
	if l4, err := libDec(c.Kind, append(append([]byte{}, want...), 0xff, 0x00)); err == nil {
		if p4, err := view(l4); err != nil || !samePrf(p4, p) {
			return bad("with trailing bytes other fields are decoded")
		}
	}
	for _, q := range [][]ref.Pt{pts, c.Wrong} {
		if len(q) == 0 {
			continue
		}
		v1, e1 := libVerify(z, l, q)
		v2, e2 := libVerify(z, l2, q)
		if e := first(e1, e2); e != nil {
			return e
		}
		if v1 != v2 || v1 != refVerify(c.Kind, ref.Std, q, p) {
			return bad("verdict %v before encoding, %v after, %v by the reference", v1, v2, refVerify(c.Kind, ref.Std, q, p))
		}
	}
	return nil
}

// ---- C25 ----

type caseC25 struct {
	Kind string
	Data Hex
	Mut  string
	Pts  []ref.Pt
	Nil  string // "": decode Data; else what is missing
	Cut  int    // 1: try every truncation of Data
}

func genC25(g *gen) caseC25 {
	kind := allKinds[g.pick(len(allKinds))]
	c := caseC25{Kind: kind}
	if g.oneIn(12) {
		c.Nil = "proof"
		if kind == kR {
			c.Nil = []string{"proof", "point", "scalar", "both", "all"}[g.pick(5)]
		}
		w := g.witness(kind, ref.Std)
		c.Data = refEnc(kind, refProve(ref.Std, &w, g.nonce))
		c.Pts = w.Pts
		c.Cut = g.pick(64)
		return c
	}
	var p Prf
	if g.flag() {
		w := g.witness(kind, ref.Std)
		p = refProve(ref.Std, &w, g.nonce)
		c.Pts = w.Pts
	} else {
		p = g.rawPrf(kind)
		w := g.witness(kind, ref.Std)
		c.Pts = w.Pts
		if kind == kR {
			c.Pts = []ref.Pt{g.pointI()}
		}
	}
	b := refEnc(kind, p)
	if kind == kR && len(b) > 2000 && !g.oneIn(5) { // shorter
		q := rTo(p)
		q.Tuples = q.Tuples[:1+g.pick(3)]
		b = q.Enc()
	}
	n := 1
	if g.oneIn(3) {
		n = 2 + g.pick(4)
	}
	for i := 0; i < n; i++ {
		b = g.mutate(&c, b)
	}
	c.Data = b
	return c
}

// mutate damages an encoding; offsets near the start of fields are likely.
func (g *gen) mutate(c *caseC25, b []byte) []byte {
	at := func() int {
		if len(b) == 0 {
			return 0
		}
		if g.flag() { // the start of a field: walk the length prefixes
			var offs []int
			for o := 0; o < len(b) && len(offs) < 30; {
				offs = append(offs, o)
				if b[o] >= 0xfd {
					break
				}
				o += 1 + int(b[o])
			}
			return offs[g.pick(len(offs))]
		}
		return int(g.below(bi(int64(len(b)))).Int64())
	}
	huge := func() []byte {
		switch g.pick(8) {
		case 0:
			return []byte{0xfd, byte(g.pick(256)), 0}
		case 1:
			return append([]byte{0xfd}, g.bytes(2)...)
		case 2:
			return append([]byte{0xfe}, g.bytes(4)...)
		case 3:
			return append([]byte{0xff}, g.bytes(8)...)
		case 4:
			return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
		case 5:
			return []byte{0xfe, 0xff, 0xff, 0xff, 0x7f}
		case 6:
			v := []uint64{0, 1, 32, 33, 34, 252, 253, 65535, 65536, 100000, 100001, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63}[g.pick(15)]
			var x [8]byte
			binary.LittleEndian.PutUint64(x[:], v)
			switch g.pick(3) {
			case 0:
				return append([]byte{0xff}, x[:]...)
			case 1:
				return append([]byte{0xfe}, x[:4]...)
			}
			return append([]byte{0xfd}, x[:2]...)
		}
		return ref.VarInt(g.u64() >> uint(g.pick(64)))
	}
	out := append([]byte{}, b...)
	switch g.pick(10) {
	case 0:
		c.Mut += "truncated "
		if len(out) > 0 {
			out = out[:at()]
		}
	case 1:
		c.Mut += "byte set "
		if len(out) > 0 {
			out[at()] = []byte{0, 1, 2, 0x20, 0x21, 0x22, 0xfc, 0xfd, 0xfe, 0xff}[g.pick(10)]
		}
	case 2:
		c.Mut += "length replaced "
		if len(out) > 0 {
			i := at()
			out = append(append(append([]byte{}, out[:i]...), huge()...), out[i+1:]...)
		}
	case 3:
		c.Mut += "inserted "
		i := at()
		out = append(append(append([]byte{}, out[:i]...), g.bytes(1+g.pick(4))...), out[i:]...)
	case 4:
		c.Mut += "deleted "
		if len(out) > 0 {
			i := at()
			j := i + 1 + g.pick(40)
			if j > len(out) {
				j = len(out)
			}
			out = append(append([]byte{}, out[:i]...), out[j:]...)
		}
	case 5:
		c.Mut += "random "
		out = g.bytes(g.pick(200))
	case 6:
		c.Mut += "length off by some "
		if len(out) > 0 {
			out[at()] += byte(g.pick(5) - 2)
		}
	case 7:
		c.Mut += "appended "
		out = append(out, g.bytes(1+g.pick(50))...)
	case 8:
		c.Mut += "none "
	case 9: // a field of another length, consistently
		c.Mut += "field resized "
		if len(out) > 0 {
			i := at()
			if out[i] < 0xfd && i+1+int(out[i]) <= len(out) {
				n := []int{0, 1, 31, 32, 33, 34, 35, 64, 200, 252}[g.pick(10)]
				f := g.bytes(n)
				if n > 0 && g.flag() {
					f[0] = byte(g.pick(3))
				}
				out = append(append(append([]byte{}, out[:i]...), ref.VarBytes(f)...), out[i+1+int(out[i]):]...)
			}
		}
	}
	return out
}

func enumC25() []caseC25 {
	var cs []caseC25
	k := int64(10)
	nonce := func() *big.Int { k++; return hashBig(k) }
	for _, kind := range allKinds {
		w := fixedWit(kind)
		p := refProve(ref.Std, &w, nonce)
		if kind == kR {
			q := rTo(p)
			q.Tuples = q.Tuples[:3]
			cs = append(cs, caseC25{Kind: kind, Data: q.Enc(), Pts: w.Pts, Cut: 1, Mut: "every truncation"})
		} else {
			cs = append(cs, caseC25{Kind: kind, Data: refEnc(kind, p), Pts: w.Pts, Cut: 1, Mut: "every truncation"})
		}
		cs = append(cs, caseC25{Kind: kind, Data: refEnc(kind, p), Pts: w.Pts, Nil: "proof"}, caseC25{Kind: kind, Data: Hex{}, Pts: w.Pts, Mut: "empty"})
	}
	w := fixedWit(kR)
	p := refProve(ref.Std, &w, nonce)
	for _, n := range []string{"point", "scalar", "both", "all"} {
		for _, i := range []int{0, 1, 20, 38, 39} {
			cs = append(cs, caseC25{Kind: kR, Data: refEnc(kR, p), Pts: w.Pts, Nil: n, Cut: i})
		}
	}
	cs = append(cs, enumFields()...)
	// many entries
	for _, n := range []int{63, 64, 65, 66, 100, 253, 1000, 80000} {
		q := rTo(p)
		for len(q.Tuples) < n {
			q.Tuples = append(q.Tuples, q.Tuples[0])
		}
		cs = append(cs, caseC25{Kind: kR, Data: q.Enc(), Pts: w.Pts, Mut: "many entries"})
	}
	// an announced number of entries that is not there
	for _, v := range []uint64{1, 40, 253, 1 << 16, 1 << 26, 1 << 32, 1 << 40, 1<<64 - 1} {
		b := append(append(ref.EncPt(ref.G), ref.EncInt(bi(5))...), ref.VarInt(v)...)
		cs = append(cs, caseC25{Kind: kR, Data: b, Pts: w.Pts, Mut: "entries announced but missing"})
	}
	return cs
}

// fieldsAt returns the offsets of the length-prefixed fields of an encoding
// without counts, and where they end.
func fieldsAt(b []byte) (offs []int) {
	for o := 0; o < len(b); {
		offs = append(offs, o)
		n, l := int(b[o]), 1
		if b[o] == 0xfd {
			n, l = int(b[o+1])|int(b[o+2])<<8, 3
		}
		o += l + n
	}
	return append(offs, len(b))
}

var badLengths = [][]byte{{0}, {0x21}, {0x22}, {0xfd, 0x20, 0}, {0xfd, 0, 0}, {0xfe, 0x20, 0, 0, 0}, {0xfe, 0, 0, 1, 0},
	{0xff, 0x20, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}

// enumFields resizes every field of every type, also of the proof inside an
// ABC proof, and the field that holds it.
func enumFields() []caseC25 {
	var cs []caseC25
	k := int64(900)
	nonce := func() *big.Int { k++; return hashBig(k) }
	for _, kind := range allKinds {
		w := fixedWit(kind)
		p := refProve(ref.Std, &w, nonce)
		b := refEnc(kind, p)
		if kind == kR { // the part before the count
			q := rTo(p)
			q.Tuples = nil
			b = q.Enc()
		}
		resized := func(b []byte, emit func([]byte, string)) {
			offs := fieldsAt(b)
			for i := 0; i+1 < len(offs); i++ {
				if kind == kR && i+2 == len(offs) {
					break
				}
				field := b[offs[i]:offs[i+1]]
				h := 1
				if field[0] == 0xfd {
					h = 3
				}
				for _, n := range []int{0, 1, 2, 31, 32, 33, 34, 64, len(field) - h - 1, len(field) - h + 1} {
					f := make([]byte, n)
					copy(f, field[h:])
					emit(append(append(append([]byte{}, b[:offs[i]]...), ref.VarBytes(f)...), b[offs[i+1]:]...), "every field resized")
				}
				emit(append(append([]byte{}, b[:offs[i]]...), b[offs[i+1]:]...), "every field left out")
				// A bad length alone, after which the rest would parse.
				for _, l := range badLengths {
					for j := i + 1; j <= i+2 && j < len(offs); j++ {
						if kind == kR && j+1 == len(offs) {
							break
						}
						emit(append(append(append([]byte{}, b[:offs[i]]...), l...), b[offs[j]:]...), "a bad length in place of a field")
					}
				}
			}
		}
		put := func(x []byte, mut string) { cs = append(cs, caseC25{Kind: kind, Data: x, Pts: w.Pts, Mut: mut}) }
		resized(b, put)
		if kind == kA || kind == kI {
			offs := fieldsAt(b)
			head := b[:offs[len(offs)-2]]
			inner := b[len(head):][1:]
			if b[len(head)] == 0xfd {
				inner = b[len(head):][3:]
			}
			resized(inner, func(x []byte, mut string) {
				put(append(append([]byte{}, head...), ref.VarBytes(x)...), "inner proof: "+mut)
			})
			put(append(append([]byte{}, head...), ref.VarBytes(append(append([]byte{}, inner...), 1, 2, 3))...), "inner proof: trailing bytes")
		}
	}
	return cs
}

// fixedWit is a true statement of each kind.
func fixedWit(kind string) Wit {
	h, pr := hashBig, ref.Std
	switch kind {
	case kG:
		return Wit{Kind: kG, Base: ref.G, W: []*big.Int{h(1)}, Pts: []ref.Pt{ref.Mul(ref.G, h(1))}}
	case kE:
		return Wit{Kind: kE, W: []*big.Int{h(1)}, Pts: []ref.Pt{ref.G, ref.Mul(ref.G, h(1)), ref.H, ref.Mul(ref.H, h(1))}}
	case kC:
		pk := ref.Mul(ref.H, h(3))
		return Wit{Kind: kC, W: []*big.Int{h(1), h(2)}, Pts: []ref.Pt{pr.Commit(h(1), h(2)), ref.Mul(pk, h(2)), pk}}
	case kD:
		return Wit{Kind: kD, Side: 1, W: []*big.Int{h(4)}, Pts: []ref.Pt{ref.G, ref.Mul(ref.G, h(9)), ref.H, ref.Mul(ref.H, h(4))}}
	case kA:
		return Wit{Kind: kA, Side: 1, W: []*big.Int{bi(77), h(5), h(6)}, Pts: []ref.Pt{pr.Commit(bi(77), h(5)), ref.Mul(ref.Mul(ref.H, h(6)), h(5))}}
	case kI:
		pk := ref.Mul(ref.H, h(6))
		full := []ref.Pt{pr.Commit(bi(9), h(7)), pr.Commit(bi(4), h(8)), ref.Mul(pk, h(7)), ref.Mul(pk, h(8))}
		return Wit{Kind: kI, W: []*big.Int{bi(9), h(7), bi(4), h(8), h(6)}, Full: full, Pts: []ref.Pt{ref.Sub(full[0], full[1]), ref.Sub(full[2], full[3])}}
	}
	return Wit{Kind: kR, W: []*big.Int{bi(0x123456789a)}}
}

func settle(base int) error {
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= base {
			return nil
		}
		time.Sleep(time.Duration(1+i/20) * time.Millisecond)
	}
	return bad("%d goroutines were left behind", runtime.NumGoroutine()-base)
}

func decodeCheck(kind string, data []byte, pts []ref.Pt, r *Rec, vrf bool) error {
	want, werr, weird := refDec(kind, data)
	in := append([]byte{}, data...)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	start := time.Now()
	l, err := libDec(kind, in)
	took := time.Since(start)
	runtime.ReadMemStats(&m1)
	if got, lim := m1.TotalAlloc-m0.TotalAlloc, uint64(1<<20+64*len(data)); got > lim {
		return bad("decoding %d bytes allocated %d bytes", len(data), got)
	}
	if !bytes.Equal(in, data) {
		return bad("decoding changed its input")
	}
	// a tenth of a second is usual for the longest; slow machines get another try
	for i := 0; i < 2 && took > 5*time.Second; i++ {
		start = time.Now()
		libDec(kind, in)
		took = time.Since(start)
	}
	if took > 5*time.Second {
		return bad("decoding %d bytes took %v", len(data), took)
	}
	if (err == nil) != (werr == nil) {
		return bad("decoding %x: error %v, but the reference says %v", data, err, werr)
	}
	if err != nil {
		r.Class("rejected")
		return nil
	}
	r.Class("decoded")
	if l == nil {
		return bad("neither a proof nor an error")
	}
	if !weird {
		got, e := view(l)
		if e != nil || !samePrf(got, want) {
			return bad("decoded fields %v, want %v (%v)", got, want, e)
		}
	}
	if !vrf {
		return nil
	}
	base := runtime.NumGoroutine()
	ok, e := libVerify(zk.TestCurve, l, pts)
	if e != nil {
		return e
	}
	canon := !weird
	for _, p := range want.P {
		canon = canon && p.Canonical()
	}
	if canon {
		if w := refVerify(kind, ref.Std, pts, want); w != ok {
			return bad("verdict %v on the decoded proof, the reference says %v", ok, w)
		}
		r.Class("verdict %v", ok)
	} else {
		r.Class("verified with unusual fields")
	}
	return settle(base)
}

func checkC25(c caseC25, r *Rec) error {
	r.NT()
	z := zk.TestCurve
	if c.Nil != "" {
		r.Class("missing %s", c.Nil)
		base := runtime.NumGoroutine()
		var l lib
		if c.Nil == "proof" {
			switch c.Kind {
			case kG:
				l = (*zk.GSPFSProof)(nil)
			case kE:
				l = (*zk.EquivalenceProof)(nil)
			case kC:
				l = (*zk.ConsistencyProof)(nil)
			case kD:
				l = (*zk.DisjunctiveProof)(nil)
			case kA:
				l = (*zk.ABCProof)(nil)
			case kI:
				l = libI{nil}
			case kR:
				l = (*zk.RangeProof)(nil)
			}
		} else {
			p, err := zk.NewRangeProofFromBytes(c.Data)
			if err != nil {
				return bad("decoding a well-formed proof: %v", err)
			}
			for i := range p.ProofTuples {
				if c.Nil != "all" && i != c.Cut%len(p.ProofTuples) {
					continue
				}
				if c.Nil != "scalar" {
					p.ProofTuples[i].C = zk.ECPoint{}
				}
				if c.Nil != "point" {
					p.ProofTuples[i].S = nil
				}
			}
			l = p
		}
		pts := c.Pts
		ok, e := libVerify(z, l, pts)
		if e != nil {
			return e
		}
		if ok {
			return bad("a proof with missing %s is accepted", c.Nil)
		}
		return settle(base)
	}
	r.Class("%s", c.Kind)
	if c.Cut == 1 {
		for i := 0; i <= len(c.Data); i++ {
			if e := decodeCheck(c.Kind, c.Data[:i], c.Pts, r, i == len(c.Data)); e != nil {
				return bad("truncated to %d of %d bytes: %v", i, len(c.Data), e)
			}
		}
		return nil
	}
	return decodeCheck(c.Kind, c.Data, c.Pts, r, true)
}

// ---- C26 ----

var errIO = errors.New("device failed")

// reader delivers data in pieces and can fail.
type reader struct {
	data  []byte
	off   int
	chunk int  // bytes per Read; 0: all
	fail  int  // offset at which it fails; <0: never (EOF at the end)
	late  bool // delivers the last bytes together with the error
	once  bool // fails only once and can then go on
	empty int  // every empty-th Read delivers nothing, without an error
	calls int
}

func (r *reader) Read(p []byte) (int, error) {
	r.calls++
	if r.empty > 0 && r.calls%r.empty == 0 {
		return 0, nil
	}
	end, err := len(r.data), io.EOF
	if r.fail >= 0 && r.fail < end {
		end, err = r.fail, errIO
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := end - r.off
	if n == 0 {
		if r.once && err == errIO {
			r.fail = -1
		}
		return 0, err
	}
	if n > len(p) {
		n = len(p)
	}
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if r.late && r.off == end {
		return n, err
	}
	return n, nil
}

type writer struct {
	buf  bytes.Buffer
	fail int // fails once this many bytes were taken; <0: never
	once bool
}

func (w *writer) Write(p []byte) (int, error) {
	if w.fail >= 0 && w.buf.Len()+len(p) > w.fail {
		n := w.fail - w.buf.Len()
		w.buf.Write(p[:n])
		if w.once {
			w.fail = -1
		}
		return n, errIO
	}
	return w.buf.Write(p)
}

type caseC26 struct {
	Op    string // varint, bytes, point, int, random
	V     uint64
	B     Hex
	P     ref.Pt
	I     *big.Int
	Max   uint32
	Raw   Hex // for reading: replaces the encoding
	Tail  Hex
	Chunk int
	Fail  int
	Late  bool
	Once  bool
	Empty int
}

func genC26(g *gen) caseC26 {
	c := caseC26{Op: []string{"varint", "bytes", "point", "int", "random"}[g.weighted(4, 4, 3, 3, 1)], Fail: -1, I: bi(0), P: ref.Inf()}
	switch g.pick(3) {
	case 0:
		c.V = g.u64() >> uint(g.pick(64))
	case 1:
		c.V = []uint64{0, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000, 1<<64 - 1, 1 << 63}[g.pick(12)] + uint64(g.pick(3)) - 1
	case 2:
		c.V = uint64(1)<<uint(g.pick(64)) - uint64(g.pick(2))
	}
	n := g.pick(70)
	if g.oneIn(3) {
		n = []int{0, 32, 33, 252, 253, 254, 255, 256, 65535, 65536, 70000}[g.pick(11)]
		if g.flag() { // around the sizes of buffers
			n = (1+g.pick(3))<<uint(8+g.pick(8)) + g.pick(3) - 1
		}
	}
	if c.Op == "bytes" {
		c.B = g.blob(n)
	}
	c.P, c.I = g.rawPt(), g.rawInt()
	switch g.pick(4) {
	case 0:
		c.Max = uint32(n)
	case 1:
		c.Max = uint32(n) - uint32(g.pick(2))
	case 2:
		c.Max = 1<<32 - 1
	case 3:
		c.Max = uint32(g.pick(300))
	}
	c.Tail = g.bytes(g.pick(12))
	if g.flag() {
		c.Chunk = 1 + g.pick(5)
	}
	if c.Once = g.flag(); !c.Once {
		c.Late = g.flag()
	}
	if g.oneIn(5) {
		c.Empty = 2 + g.pick(3)
	}
	off := func(n int) int { // an offset into n bytes
		o := g.pick(80)
		switch g.pick(4) {
		case 0:
			o = int(g.u64() % uint64(n+1))
		case 1:
			o = n - g.pick(10)
		case 2: // whole buffers, and maybe a prefix
			o = (1+g.pick(4))<<uint(8+g.pick(8)) + []int{0, 0, 1, 3, 5}[g.pick(5)]
		}
		if o < 0 || o > n {
			o = g.pick(n + 1)
		}
		return o
	}
	if g.oneIn(3) {
		c.Fail = g.pick(80)
		if c.Op == "bytes" {
			c.Fail = off(len(c.B) + 4)
		}
	}
	if g.oneIn(6) && c.Op == "bytes" { // input that ends early
		c.Max = uint32(len(c.B)) + uint32(g.pick(3))
		b := ref.VarBytes(c.B)
		c.Raw, c.Tail = b[:off(len(b))], nil
	} else if g.oneIn(3) { // hand-made input
		switch g.pick(4) {
		case 0: // non-canonical or large prefixes
			b := []byte{0xfd + byte(g.pick(3))}
			var x [8]byte
			v := c.V
			if g.flag() {
				v = uint64(g.pick(300))
			}
			binary.LittleEndian.PutUint64(x[:], v)
			c.Raw = append(append(b, x[:]...), g.bytes(g.pick(40))...)
		case 1:
			c.Raw = append([]byte{byte(g.pick(256))}, g.bytes(g.pick(80))...)
		case 2:
			c.Raw = g.bytes(g.pick(10))
		case 3: // boundaries of the limits 32 and 33
			n := 30 + g.pick(6)
			c.Raw = append(append([]byte{byte(n)}, g.bytes(n)...), ref.VarBytes(g.bytes(30+g.pick(6)))...)
			if g.flag() && len(c.Raw) > 1 {
				c.Raw[1] = byte(g.pick(2))
			}
		}
	}
	return c
}

func checkC26(c caseC26, r *Rec) error {
	r.NT()
	r.Class("%s", c.Op)
	if c.Op == "random" {
		s := newStream(c.V)
		s.chunk = c.Chunk
		s.fail = c.Fail
		if c.Fail > 16 {
			s.fail = -1
		}
		defer s.install()()
		v, err := wire.RandomUint64()
		if s.fail >= 0 && s.fail < 8 {
			if err == nil {
				return bad("RandomUint64 hides a failure of the random source after %d bytes", s.fail)
			}
		} else if err != nil {
			return bad("RandomUint64: %v", err)
		}
		if err == nil && s.fail < 0 { // all bits are random
			or, and := v, v
			for i := 0; i < 80; i++ {
				if v, err = wire.RandomUint64(); err != nil {
					return bad("RandomUint64: %v", err)
				}
				or, and = or|v, and&v
			}
			if ^or != 0 || and != 0 {
				return bad("RandomUint64: some bits are the same in 81 numbers: or %x, and %x", or, and)
			}
		}
		return nil
	}
	var enc []byte
	write := func(w io.Writer) error {
		switch c.Op {
		case "varint":
			return wire.WriteVarInt(w, c.V)
		case "bytes":
			return wire.WriteVarBytes(w, append([]byte{}, c.B...))
		case "point":
			return zk.WriteECPoint(w, zp(c.P))
		}
		return zk.WriteBigInt(w, cp(c.I))
	}
	switch c.Op {
	case "varint":
		enc = ref.VarInt(c.V)
		if n := wire.VarIntSerializeSize(c.V); n != len(enc) {
			return bad("VarIntSerializeSize(%d) = %d, want %d", c.V, n, len(enc))
		}
	case "bytes":
		enc = ref.VarBytes(c.B)
	case "point":
		enc = ref.EncPt(c.P)
	case "int":
		enc = ref.EncInt(c.I)
	}
	w := &writer{fail: -1}
	if err := write(w); err != nil || !bytes.Equal(w.buf.Bytes(), enc) {
		return bad("writing gives %x (%v), want %x", w.buf.Bytes(), err, enc)
	}
	// a writer that fails before the end
	if c.Fail >= 0 && c.Fail < len(enc) {
		r.Class("failing writer")
		f := &writer{fail: c.Fail, once: c.Once}
		if err := write(f); err == nil {
			return bad("writing %s: the error of the writer after %d of %d bytes is not reported", c.Op, c.Fail, len(enc))
		}
		if !c.Once && !bytes.HasPrefix(enc, f.buf.Bytes()) {
			return bad("a failing write left %x, not a prefix of %x", f.buf.Bytes(), enc)
		}
	}
	// reading
	data := enc
	if c.Raw != nil {
		data = c.Raw
		r.Class("hand-made input")
	}
	all := append(append([]byte{}, data...), c.Tail...)
	rd := &reader{data: all, chunk: c.Chunk, fail: c.Fail, late: c.Late, once: c.Once, empty: c.Empty}
	avail := all
	if c.Fail >= 0 && c.Fail < len(all) {
		avail = all[:c.Fail]
		r.Class("failing reader")
	}
	// what a correct reader finds in the available bytes
	var rest []byte
	var werr error
	var wv uint64
	var wb []byte
	var wp ref.Pt
	var wi *big.Int
	skip := false
	switch c.Op {
	case "varint":
		wv, rest, werr = ref.ParseVarInt(avail)
	case "bytes":
		wb, rest, werr = ref.ParseVarBytes(avail, uint64(c.Max))
	case "point":
		var x, y []byte
		x, rest, werr = ref.ParseVarBytes(avail, 32)
		if werr == nil {
			y, rest, werr = ref.ParseVarBytes(rest, 32)
			wp = ref.Pt{X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
		}
	case "int":
		var x []byte
		x, rest, werr = ref.ParseVarBytes(avail, 33)
		if werr == nil && len(x) == 0 {
			werr = ref.ErrWire
		}
		if werr == nil {
			wi = new(big.Int).SetBytes(x[1:])
			if x[0] == 1 {
				wi.Neg(wi)
			}
			skip = x[0] > 1
		}
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var err error
	var gv uint64
	var gb []byte
	var gp zk.ECPoint
	var gi *big.Int
	switch c.Op {
	case "varint":
		gv, err = wire.ReadVarInt(rd)
	case "bytes":
		max := c.Max
		if max > 1<<22 && werr != nil { // within its limit the reader may allocate what is announced
			max = 1 << 20
		}
		gb, err = wire.ReadVarBytes(rd, max, "field")
	case "point":
		gp, err = zk.ReadECPoint(rd)
	case "int":
		gi, err = zk.ReadBigInt(rd)
	}
	runtime.ReadMemStats(&m1)
	if got := m1.TotalAlloc - m0.TotalAlloc; got > 3<<20 {
		return bad("reading %s from %d bytes allocated %d bytes", c.Op, len(all), got)
	}
	if (err == nil) != (werr == nil) {
		return bad("reading %s from %x (limit %d): error %v, the reference says %v", c.Op, avail, c.Max, err, werr)
	}
	if err != nil {
		r.Class("read error")
		return nil
	}
	ok := skip
	switch c.Op {
	case "varint":
		ok = gv == wv
	case "bytes":
		ok = bytes.Equal(gb, wb)
	case "point":
		ok = rp(gp).Eq(wp)
	case "int":
		ok = ok || gi.Cmp(wi) == 0
	}
	if !ok {
		return bad("reading %s from %x gives a wrong value", c.Op, avail)
	}
	if rd.off != len(avail)-len(rest) {
		return bad("reading %s took %d bytes, its encoding has %d", c.Op, rd.off, len(avail)-len(rest))
	}
	return nil
}

// ---- C27 ----

type caseC27 struct {
	W    Wit
	Op   string // "prove" or "commit"
	Seed uint64
	Fail int  // bytes delivered before the failure
	Once bool // the source fails once and then works again
	// Chunk: no failure, small pieces
	Chunk int
}

func genC27(g *gen) caseC27 {
	kind := allKinds[g.weighted(3, 3, 3, 4, 4, 3, 2)]
	c := caseC27{Op: "prove", W: g.witness(kind, ref.Std), Seed: g.seed(), Fail: -1, Once: g.flag()}
	n := nonceCount(kind)
	if g.oneIn(8) {
		c.Op, n = "commit", 1
		c.W = Wit{Kind: "commit", W: []*big.Int{g.anyInt(true)}}
	}
	if g.oneIn(4) {
		c.Chunk = 1 + g.pick(40)
		return c
	}
	switch g.pick(3) {
	case 0:
		c.Fail = 32 * g.pick(n)
	case 1:
		c.Fail = 32*g.pick(n) + g.pick(32)
	case 2:
		c.Fail = 32*n - 1 - g.pick(33)
	}
	if c.Fail < 0 {
		c.Fail = 0
	}
	return c
}

// enumC27: a failure at every draw of every kind.
func enumC27() []caseC27 {
	var cs []caseC27
	for _, kind := range allKinds {
		w := fixedWit(kind)
		for i := 0; i < nonceCount(kind); i++ {
			for _, once := range []bool{false, true} {
				cs = append(cs, caseC27{Op: "prove", W: w, Seed: uint64(i), Fail: 32 * i, Once: once})
			}
			if kind != kR {
				cs = append(cs, caseC27{Op: "prove", W: w, Seed: uint64(i), Fail: 32*i + 31})
			}
		}
	}
	for _, side := range []int{0, 1} {
		w := fixedWit(kD)
		w.Side, w.W[0] = side, [2]*big.Int{hashBig(9), hashBig(4)}[side]
		v := bi(int64(side))
		a := Wit{Kind: kA, Side: side, W: []*big.Int{v, hashBig(5), hashBig(6)}, Pts: []ref.Pt{ref.Std.Commit(v, hashBig(5)), ref.Mul(ref.Mul(ref.H, hashBig(6)), hashBig(5))}}
		for i := 0; i < 8; i++ {
			cs = append(cs, caseC27{Op: "prove", W: a, Seed: 3, Fail: 32 * i, Once: true})
			if i < 3 {
				cs = append(cs, caseC27{Op: "prove", W: w, Seed: 3, Fail: 32 * i, Once: true})
			}
		}
	}
	return cs
}

// thin: eight zero bytes in a row, which random scalars do not have.
func thin(k *big.Int) bool {
	return bytes.Contains(k.FillBytes(make([]byte, 32)), make([]byte, 8))
}

func checkC27(c caseC27, r *Rec) error {
	s := newStream(c.Seed)
	s.fail, s.chunk, s.once = c.Fail, c.Chunk, c.Once
	var l lib
	var blind *big.Int
	var err error
	var cm zk.ECPoint
	base := runtime.NumGoroutine()
	func() {
		defer s.install()()
		if c.Op == "commit" {
			cm, blind, err = zk.PedCommit(zk.TestCurve, cp(c.W.W[0]))
			return
		}
		l, blind, err = libProve(zk.TestCurve, c.W)
	}()
	if e := settle(base); e != nil {
		return e
	}
	if s.failures > 0 {
		r.Class("%s: failed, once=%v", c.W.Kind, c.Once)
		r.NT()
		if err == nil {
			return bad("%s: the random source failed after %d bytes, but no error was returned", c.W.Kind, c.Fail)
		}
		if c.Op == "prove" && c.W.Kind != kR && usable(c.W.Kind, l, c.W.Pts) {
			return bad("%s: a valid proof was returned with the error", c.W.Kind)
		}
		if c.W.Kind == kR && l != nil {
			return bad("a range proof was returned with the error")
		}
		return nil
	}
	if c.Chunk > 0 {
		r.Class("%s: small pieces", c.W.Kind)
		r.NT()
	} else {
		r.Class("%s: the source was not used up", c.W.Kind)
	}
	if err != nil {
		return bad("%s: error %v although the random source worked", c.W.Kind, err)
	}
	if c.Op == "commit" {
		if thin(blind) {
			return bad("the blinding %x is weak", blind)
		}
		return expect("PedCommit", cm, ref.Std.Commit(c.W.W[0], blind))
	}
	if c.Chunk > 0 && c.W.Kind != kR && c.W.Kind != kA && c.W.Kind != kI {
		p, e := view(l)
		if e != nil {
			return e
		}
		for _, s := range nonces(c.W, p) {
			if s.k != nil && thin(s.k) {
				return bad("%s: the random choice %s is weak: %x", c.W.Kind, s.name, s.k)
			}
		}
	}
	pts := c.W.Pts
	if c.W.Kind == kR {
		pts = []ref.Pt{ref.Std.Commit(c.W.W[0], blind)}
	}
	if !usable(c.W.Kind, l, pts) {
		return bad("%s: the proof is not valid", c.W.Kind)
	}
	ok, e := libVerify(zk.TestCurve, l, pts)
	if e == nil && !ok {
		e = bad("%s: the proof is rejected", c.W.Kind)
	}
	return e
}

func init() {
	reg("C24", "proofs of all types with arbitrary 256-bit fields, valid proofs of the reference and proofs of the library, encoded and decoded, and verified before and after; every case counts", 2500, 30000, genC24, checkC24, seq)
	reg("C25", "encodings damaged by 1 to 5 mutations (truncation, lengths, counts, insertions, deletions, resized fields, random bytes), every truncation of every type, missing proofs and entries; decoded and verified; every case counts", 5000, 30000, genC25, checkC25, enum(enumC25), seq,
		assume("for coordinates at or above the field prime and for sign bytes other than 0 and 1 only absence of crashes is claimed", "memory: at most 1 MiB plus 400 bytes per input byte"))
	reg("C26", "integers, byte strings, points and signed integers written and read through readers and writers that split, fail or deliver data with the error, and hand-made malformed inputs; every case counts", 90000, 400000, genC26, checkC26, seq)
	reg("C27", "a true statement or commitment and a random source that fails (once or for good) after a number of bytes, or delivers small pieces; a failure at every draw of every type is enumerated; non-trivial: the failure was hit or the pieces were small", 2500, 14000, genC27, checkC27, enum(enumC27))
}
