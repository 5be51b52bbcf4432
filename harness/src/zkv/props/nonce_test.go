package props

import (
	"crypto/ecdsa"
	"math"
	"math/big"
	"sync"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

// ---- C22 ----

// slot is a secret random choice seen through a proof and its witness: as a
// scalar where the witness gives it away, and as its multiple of H.
type slot struct {
	name string
	k    *big.Int // nil if only the point is known
	p    ref.Pt
}

func sc(name string, k *big.Int) slot {
	k = ref.ModN(k)
	return slot{name, k, ref.Mul(ref.H, k)}
}

// nonces recovers the secret choices of a proof.
func nonces(w Wit, p Prf) []slot {
	sub := func(s, c, x *big.Int) *big.Int { return am(s, neg(c), x) } // s - c*x
	switch w.Kind {
	case kG:
		return []slot{sc("u", am(p.S[0], p.S[1], w.W[0]))}
	case kE:
		return []slot{sc("u", sub(p.S[1], p.S[0], w.W[0]))}
	case kC:
		return []slot{sc("u1", sub(p.S[1], p.S[0], w.W[0])), sc("u2", sub(p.S[2], p.S[0], w.W[1]))}
	case kD:
		d := dTo(p)
		if w.Side == 0 {
			return []slot{sc("u", sub(d.S1, d.C1, w.W[0])), sc("other c", d.C2), sc("other s", d.S2)}
		}
		return []slot{sc("u", sub(d.S2, d.C2, w.W[0])), sc("other c", d.C1), sc("other s", d.S1)}
	case kA, kI:
		a := aTo(p)
		v, sk := w.W[0], w.W[len(w.W)-1]
		if w.Kind == kI {
			v = new(big.Int).Sub(w.W[0], w.W[2])
		}
		v = ref.ModN(v)
		inv, one := new(big.Int), new(big.Int)
		if v.Sign() != 0 {
			inv.ModInverse(v, ref.N)
			one.SetInt64(1)
		}
		isk := new(big.Int).ModInverse(ref.ModN(sk), ref.N)
		u1 := sub(a.J, a.C, v)
		out := []slot{sc("u1", u1), sc("u2", sub(a.K, a.C, isk)),
			{"u3", nil, ref.Sub(a.T2, ref.Mul(a.B, u1))},
			{"ub", nil, ref.Sub(a.B, ref.Mul(ref.G, inv))},
			{"uc", nil, ref.Sub(a.Cm, ref.Mul(ref.G, one))}}
		if v.Sign() == 0 {
			return append(out, sc("du", sub(a.D.S1, a.D.C1, sk)), sc("dc", a.D.C2), sc("ds", a.D.S2))
		}
		return append(out, slot{"du", nil, a.D.T2}, sc("dc", a.D.C1), sc("ds", a.D.S1))
	}
	rg := rTo(p)
	rs, inner := rg.Ring(ref.Std)
	var out []slot
	for i, t := range rg.Tuples {
		if w.W[0].Bit(i) == 1 {
			out = append(out, slot{"v", nil, ref.Sub(t.C, ref.Std.Bits[i])}, slot{"k", nil, inner[i]})
		} else {
			out = append(out, slot{"k0", nil, rs[i]}, slot{"j", nil, ref.Sub(inner[i], ref.Mul(ref.Std.Bits[i], rg.E))})
		}
	}
	return out
}

type caseC22 struct {
	Calls []Wit // prover calls of one history; Kind may also be "commit" or "keygen"
	Seed  uint64
	Bulk  int // >0: the first call this many times
	Const int // >0: the random source delivers this byte only
	Chunk int // >0: in pieces of at most this many bytes
}

func (g *gen) call(kind string) Wit {
	if kind == "commit" {
		return Wit{Kind: kind, W: []*big.Int{g.anyInt(true)}}
	}
	if kind == "keygen" {
		return Wit{Kind: kind, Base: ref.H}
	}
	if kind == "privkey" || kind == "encrypt" {
		return Wit{Kind: kind, W: []*big.Int{g.nzscalar()}}
	}
	for {
		w := g.witness(kind, ref.Std)
		// an infinite base or token hides the nonce from us
		ok := true
		for _, p := range w.Pts {
			ok = ok && !p.IsInf()
		}
		if w.Kind == kG && w.Base.IsInf() {
			ok = false
		}
		if ok {
			return w
		}
	}
}

func genC22(g *gen) caseC22 {
	kinds := append([]string{"commit", "keygen", "privkey", "encrypt"}, allKinds...)
	c := caseC22{Seed: g.seed()}
	switch g.weighted(6, 1, 2) {
	case 0: // histories
		n := 2 + g.pick(5)
		for i := 0; i < n; i++ {
			if i > 0 && g.flag() {
				c.Calls = append(c.Calls, c.Calls[g.pick(len(c.Calls))])
				continue
			}
			k := kinds[g.pick(len(kinds))]
			if k == kR && !g.oneIn(3) {
				k = kD
			}
			c.Calls = append(c.Calls, g.call(k))
		}
	case 1:
		ks := []string{"commit", "keygen", "privkey", "encrypt", kG, kE, kC, kD, kA, kI}
		c.Calls = []Wit{g.call(ks[g.pick(len(ks))])}
		c.Bulk = 80
	case 2:
		c.Calls = []Wit{g.call(kinds[g.pick(len(kinds))])}
		c.Const = 0x81 + g.pick(0x7d)
		if g.flag() {
			c.Chunk = 1 + g.pick(40)
		}
	}
	return c
}

// enumC22 covers bulk and constant-source runs of every kind and side.
func enumC22() []caseC22 {
	var cs []caseC22
	h := func(k int64) *big.Int { return ref.ModN(hashBig(k)) }
	pr := ref.Std
	ws := []Wit{{Kind: "commit", W: []*big.Int{bi(7)}}, {Kind: "keygen", Base: ref.H},
		{Kind: "privkey", W: []*big.Int{h(9)}}, {Kind: "encrypt", W: []*big.Int{h(9)}},
		{Kind: kG, Base: ref.G, W: []*big.Int{h(1)}, Pts: []ref.Pt{ref.Mul(ref.G, h(1))}},
		{Kind: kE, W: []*big.Int{h(1)}, Pts: []ref.Pt{ref.G, ref.Mul(ref.G, h(1)), ref.H, ref.Mul(ref.H, h(1))}},
		{Kind: kC, W: []*big.Int{h(1), h(2)}, Pts: []ref.Pt{pr.Commit(h(1), h(2)), ref.Mul(ref.Mul(ref.H, h(3)), h(2)), ref.Mul(ref.H, h(3))}}}
	for side := 0; side < 2; side++ {
		ws = append(ws, Wit{Kind: kD, Side: side, W: []*big.Int{h(4)}, Pts: []ref.Pt{ref.G, ref.Mul(ref.G, h(4)), ref.H, ref.Mul(ref.H, h(4))}})
		v := bi(int64(side) * 1000)
		ws = append(ws, Wit{Kind: kA, Side: side, W: []*big.Int{v, h(5), h(6)}, Pts: []ref.Pt{pr.Commit(v, h(5)), ref.Mul(ref.Mul(ref.H, h(6)), h(5))}})
	}
	pk := ref.Mul(ref.H, h(6))
	full := []ref.Pt{pr.Commit(bi(9), h(7)), pr.Commit(bi(4), h(8)), ref.Mul(pk, h(7)), ref.Mul(pk, h(8))}
	ws = append(ws, Wit{Kind: kI, W: []*big.Int{bi(9), h(7), bi(4), h(8), h(6)}, Full: full, Pts: []ref.Pt{ref.Sub(full[0], full[1]), ref.Sub(full[2], full[3])}})
	for i, w := range ws {
		cs = append(cs, caseC22{Calls: []Wit{w}, Seed: uint64(1000 + i), Bulk: 80})
		// long enough to use up a pool of random bytes several times
		cs = append(cs, caseC22{Calls: []Wit{w}, Seed: uint64(2000 + i), Bulk: 1600 / nonceCount(w.Kind)})
	}
	ws = append(ws, Wit{Kind: kR, W: []*big.Int{bi(0x5555555555)}}, Wit{Kind: kR, W: []*big.Int{bi(0xaaaaaaaaaa)}})
	for _, w := range ws {
		cs = append(cs, caseC22{Calls: []Wit{w}, Seed: 1, Const: 0x9d})
		cs = append(cs, caseC22{Calls: []Wit{w}, Seed: 1, Const: 0x9d, Chunk: 1})
		cs = append(cs, caseC22{Calls: []Wit{w}, Seed: 1, Const: 0x9d, Chunk: 20})
	}
	// the same range proof three times, and mixed
	r := Wit{Kind: kR, W: []*big.Int{bi(0x123456789a)}}
	many := caseC22{Seed: 78}
	for i := 0; i < 8; i++ {
		many.Calls = append(many.Calls, r)
	}
	cs = append(cs, many)
	for _, v := range []int64{0, 1<<40 - 1} { // enough of one kind of bit to count the bytes they need
		c := caseC22{Seed: uint64(79 + v)}
		for i := 0; i < 16; i++ {
			c.Calls = append(c.Calls, Wit{Kind: kR, W: []*big.Int{bi(v)}})
		}
		cs = append(cs, c)
	}
	cs = append(cs, caseC22{Calls: []Wit{r, r, {Kind: kR, W: []*big.Int{bi(0)}}}, Seed: 77})
	return cs
}

func hashBig(k int64) *big.Int {
	return ref.Challenge([]byte("witness"), bi(k).Bytes())
}

// run22 performs one call and returns its secret choices.
func run22(w Wit) ([]slot, error) {
	z := zk.TestCurve
	switch w.Kind {
	case "commit":
		cm, r, err := zk.PedCommit(z, cp(w.W[0]))
		if err != nil {
			return nil, err
		}
		if e := expect("PedCommit", cm, ref.Std.Commit(w.W[0], r)); e != nil {
			return nil, e
		}
		return []slot{sc("r", r)}, nil
	case "keygen":
		_, sk := zk.KeyGen(z.C, zp(w.Base))
		return []slot{sc("sk", sk)}, nil
	case "privkey":
		k, err := btcec.NewPrivateKey(btcec.S256())
		if err != nil {
			return nil, bad("NewPrivateKey: %v", err)
		}
		return []slot{sc("D", k.D)}, nil
	case "encrypt":
		b, err := btcec.Encrypt(libPub(ref.Mul(ref.G, w.W[0])), []byte("a message"))
		if err != nil || len(b) < 86 {
			return nil, bad("Encrypt: %d bytes, %v", len(b), err)
		}
		eph := ref.Pt{X: new(big.Int).SetBytes(b[20:52]), Y: new(big.Int).SetBytes(b[54:86])}
		return []slot{{"ephemeral key", nil, eph}, sc("iv", new(big.Int).SetBytes(append(append([]byte{}, b[:16]...), b[:16]...)))}, nil
	}
	l, _, err := libProve(z, w)
	if err != nil {
		return nil, bad("the prover refused a true statement: %v", err)
	}
	p, err := view(l)
	if err != nil {
		return nil, err
	}
	return nonces(w, p), nil
}

func nonceCount(k string) int {
	switch k {
	case kC:
		return 2
	case kD:
		return 3
	case kA, kI:
		return 8
	case kR:
		return 80
	}
	return 1
}

// entropy is how many bytes a call takes from the random source at least.
func entropy(k string) int {
	if k == "privkey" || k == "encrypt" {
		n := 0
		if ecdsaReads() {
			n = 32
		}
		if k == "encrypt" {
			n += 16
		}
		return n
	}
	return 32 * nonceCount(k)
}

var ecdsaReadsOnce, ecdsaReadsRes = sync.Once{}, false

// ecdsaReads says whether crypto/ecdsa of this Go release takes its bytes from
// the reader it is given; newer ones may have their own source.
func ecdsaReads() bool {
	ecdsaReadsOnce.Do(func() {
		n := 0
		src := newStream(5)
		for i := 0; i < 8; i++ {
			if _, err := ecdsa.GenerateKey(btcec.S256(), src); err != nil {
				return
			}
			n++
		}
		ecdsaReadsRes = src.n >= 32*n
	})
	return ecdsaReadsRes
}

// readAhead is how much an earlier case may have taken from the source and
// left for this one.
const readAhead = 8192

func checkC22(c caseC22, r *Rec) error {
	s := newStream(c.Seed)
	s.constant, s.chunk = c.Const, c.Chunk
	defer s.install()()
	r.NT()
	calls := c.Calls
	if c.Bulk > 0 {
		calls = nil
		for i := 0; i < c.Bulk; i++ {
			calls = append(calls, c.Calls[0])
		}
		r.Class("bulk %s", c.Calls[0].Kind)
	} else if c.Const > 0 {
		r.Class("constant source %s", c.Calls[0].Kind)
	} else {
		r.Class("history of %d calls", len(calls))
	}
	var all [][]slot
	need := 0
	for i, w := range calls {
		sl, err := run22(w)
		if err != nil {
			return bad("call %d (%s): %v", i, w.Kind, err)
		}
		if need += entropy(w.Kind); s.n < need-readAhead {
			return bad("up to call %d (%s) %d bytes were taken from the system random source; the secret choices need %d", i, w.Kind, s.n, need)
		}
		all = append(all, sl)
	}
	if c.Const > 0 {
		return truncated(c, all[0])
	}
	if c.Bulk > 0 {
		if e := bulkBits(c.Calls[0].Kind, all); e != nil {
			return e
		}
	}
	return related(calls, all)
}

// truncated: with a source that repeats one byte, a choice of fewer than 256
// bits is recognised by its value.
func truncated(c caseC22, sl []slot) error {
	full := new(big.Int)
	for i := 0; i < 32; i++ {
		full.Lsh(full, 8)
		full.Add(full, bi(int64(c.Const)))
	}
	short := map[string]int{}
	acc, step := ref.Inf(), ref.H
	for n := 1; n < 256; n++ {
		if full.Bit(n-1) == 1 {
			acc = ref.Add(acc, step)
			short[acc.String()] = n // the longest wins only if the value grew
		}
		step = ref.Add(step, step)
	}
	// or one that stops after the first piece
	first := map[string]int{}
	for n := 1; n < 32; n++ {
		k := new(big.Int).Rsh(full, uint(256-8*n))
		first[ref.Mul(ref.H, k.Lsh(k, uint(256-8*n))).String()] = n
	}
	for _, s := range sl {
		if s.p.IsInf() {
			return bad("%s: the random choice %s is zero", c.Calls[0].Kind, s.name)
		}
		if n, ok := first[s.p.String()]; ok {
			return bad("%s: the random choice %s has %d random bytes, the others are zero", c.Calls[0].Kind, s.name, n)
		}
		if n, ok := short[s.p.String()]; ok {
			return bad("%s: the random choice %s has at most %d bits", c.Calls[0].Kind, s.name, n)
		}
	}
	return nil
}

func bulkBits(kind string, all [][]slot) error {
	for j := range all[0] {
		if all[0][j].k == nil {
			continue
		}
		or, and := new(big.Int), new(big.Int).Sub(pow2(256), bi(1))
		for _, sl := range all {
			or.Or(or, sl[j].k)
			and.And(and, sl[j].k)
		}
		for b := 0; b < 256; b++ {
			if or.Bit(b) == 0 || and.Bit(b) == 1 {
				return bad("%s: bit %d of the random choice %s is %d in all of %d proofs", kind, b, all[0][j].name, and.Bit(b), len(all))
			}
		}
	}
	return nil
}

// related looks for equal or simply related choices anywhere in the history.
func related(calls []Wit, all [][]slot) error {
	where := map[string]string{}
	put := func(p ref.Pt, what string) string {
		k := p.String()
		if o, ok := where[k]; ok {
			return o
		}
		where[k] = what
		return ""
	}
	secrets := map[string]string{}
	for i, w := range calls {
		for j, x := range w.W {
			if ref.ModN(x).BitLen() > 128 && ref.ModN(new(big.Int).Neg(x)).BitLen() > 128 {
				secrets[ref.ModN(x).String()] = nameOf(i, w, "the secret "+string(rune('0'+j)))
				secrets[ref.ModN(neg(x)).String()] = nameOf(i, w, "minus the secret "+string(rune('0'+j)))
			}
		}
	}
	type sk struct{ lo, hi uint64 }
	lows, highs := map[uint64]string{}, map[uint64]string{}
	for i, sl := range all {
		for _, s := range sl {
			me := nameOf(i, calls[i], s.name)
			if s.p.IsInf() {
				return bad("%s is zero", me)
			}
			if o := put(s.p, me); o != "" {
				return bad("%s equals %s", me, o)
			}
			for _, d := range []struct {
				p ref.Pt
				n string
			}{{ref.Neg(s.p), "minus "}, {ref.Add(s.p, s.p), "twice "}, {ref.Add(s.p, ref.H), "one more than "}} {
				if o := put(d.p, d.n+me); o != "" {
					return bad("%s%s equals %s", d.n, me, o)
				}
			}
			if s.k != nil {
				if o, ok := secrets[s.k.String()]; ok {
					return bad("%s equals %s", me, o)
				}
				lo := new(big.Int).And(s.k, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
				hi := new(big.Int).Rsh(s.k, 192).Uint64()
				if o, ok := lows[lo]; ok {
					return bad("%s and %s have the same low 64 bits", me, o)
				}
				if o, ok := highs[hi]; ok {
					return bad("%s and %s have the same high 64 bits", me, o)
				}
				lows[lo], highs[hi] = me, me
			}
		}
	}
	// sums inside one call; the same difference or quotient of two choices in two calls
	diffs, quots := map[string]string{}, map[string]string{}
	for i, sl := range all {
		if len(sl) > 10 {
			continue
		}
		for a := range sl {
			for b := range sl {
				if a == b {
					continue
				}
				n := calls[i].Kind + ": " + sl[a].name + " and " + sl[b].name
				if b > a {
					if o, ok := where[ref.Add(sl[a].p, sl[b].p).String()]; ok {
						return bad("call %d (%s): the sum of %s and %s is %s", i, calls[i].Kind, sl[a].name, sl[b].name, o)
					}
					d := n + ref.Sub(sl[a].p, sl[b].p).String()
					if _, ok := diffs[d]; ok {
						return bad("%s always differ by the same number", n)
					}
					diffs[d] = n
				}
				if sl[a].k != nil && sl[b].k != nil {
					q := n + ref.ModN(new(big.Int).Mul(sl[a].k, new(big.Int).ModInverse(sl[b].k, ref.N))).String()
					if _, ok := quots[q]; ok {
						return bad("%s always have the same quotient", n)
					}
					quots[q] = n
				}
			}
		}
	}
	// the same step from call to call
	steps := map[string]string{}
	for i := 1; i < len(all); i++ {
		if calls[i].Kind != calls[i-1].Kind || len(all[i]) != len(all[i-1]) || len(all[i]) > 10 {
			continue
		}
		for j := range all[i] {
			d := all[i][j].name + ref.Sub(all[i][j].p, all[i-1][j].p).String()
			if _, ok := steps[d]; ok {
				return bad("%s: %s grows by the same number from call to call", calls[i].Kind, all[i][j].name)
			}
			steps[d] = "x"
		}
	}
	// u'' - u' = a(u' - u) with the same a, as linear generators give
	ratios := map[string]bool{}
	for i := 2; i < len(all); i++ {
		if calls[i].Kind != calls[i-1].Kind || calls[i].Kind != calls[i-2].Kind || len(all[i]) != len(all[i-1]) || len(all[i]) != len(all[i-2]) {
			continue
		}
		for j := range all[i] {
			n := all[i][j].name
			if all[i][j].k == nil || all[i-1][j].k == nil || all[i-2][j].k == nil || all[i-1][j].name != n || all[i-2][j].name != n {
				continue
			}
			d1 := ref.ModN(new(big.Int).Sub(all[i-1][j].k, all[i-2][j].k))
			d2 := ref.ModN(new(big.Int).Sub(all[i][j].k, all[i-1][j].k))
			if d1.Sign() == 0 || d2.Sign() == 0 {
				continue // reported above
			}
			a := ref.ModN(d2.Mul(d2, d1.ModInverse(d1, ref.N)))
			k := calls[i].Kind + all[i][j].name + a.String()
			if ratios[k] {
				return bad("%s: the steps of %s from call to call grow by the same factor", calls[i].Kind, all[i][j].name)
			}
			ratios[k] = true
		}
	}
	return nil
}

func nameOf(i int, w Wit, n string) string {
	return "choice " + n + " of call " + string(rune('A'+i%26)) + " (" + w.Kind + ")"
}

// ---- C23 ----

type caseC23 struct {
	Kind string
	N    int // proofs per class
	Seed uint64
	X    *big.Int // the secret
	Vals []*big.Int
}

func genC23(g *gen) caseC23 {
	c := caseC23{Kind: []string{kD, kA, kR, kD, kA, kG, kE, kC}[g.pick(8)], Seed: g.seed(), X: g.nzscalar()}
	c.size(g)
	return c
}

func (c *caseC23) size(g *gen) {
	switch c.Kind {
	case kD:
		c.N = 500
	case kA:
		c.N = 300
	case kR:
		c.N = 12
		for i := 0; i < c.N; i++ {
			c.Vals = append(c.Vals, g.value40())
		}
	default:
		c.N = 600
	}
}

func enumC23() []caseC23 {
	var cs []caseC23
	for i, k := range []string{kD, kA, kG, kE, kC} {
		for j, x := range []*big.Int{bi(1), bi(3), new(big.Int).Sub(ref.N, bi(1)), hashBig(99)} {
			c := caseC23{Kind: k, Seed: uint64(500 + 10*i + j), X: x}
			c.size(nil)
			cs = append(cs, c)
		}
	}
	// Large batches, for what happens once in 256 times.
	for i, k := range []string{kD, kA, kG, kE, kC} {
		cs = append(cs, caseC23{Kind: k, Seed: uint64(700 + i), X: hashBig(98), N: bulk})
	}
	for i := 0; i < 2; i++ {
		c := caseC23{Kind: kR, Seed: uint64(800 + i), X: bi(1), N: bulk}
		for j := 0; j < 2*bulk/40; j++ {
			c.Vals = append(c.Vals, []*big.Int{bi(0x5555555555), bi(0xaaaaaaaaaa)}[(i+j)%2])
		}
		cs = append(cs, c)
	}
	for i := 0; i < 3; i++ {
		c := caseC23{Kind: kR, Seed: uint64(900 + i), X: bi(1), N: 12}
		for j := 0; j < c.N; j++ {
			c.Vals = append(c.Vals, []*big.Int{bi(0x5555555555), bi(0xaaaaaaaaaa), bi(0x00000fffff), bi(0xfffff00000)}[(i+j)%4])
		}
		cs = append(cs, c)
	}
	return cs
}

// tally counts, per feature, how often it is set in n observations.
type tally struct {
	n    int
	hits map[string]int
	want map[string]float64 // the probability, if not one half
}

func (t *tally) see(p Prf) {
	t.n++
	add := func(name string, b bool) {
		if b {
			t.hits[name]++
		} else if _, ok := t.hits[name]; !ok {
			t.hits[name] = 0
		}
	}
	names := func(pre string, i int) string { return pre + string(rune('0'+i)) }
	// Combinations of two fields, and residues.
	var low []uint
	var lows []string
	for i, s := range p.S {
		low, lows = append(low, s.Bit(0)), append(lows, names("scalar ", i))
		for _, m := range []int64{3, 5, 7} {
			f := names("residue modulo "+itoa(int(m))+" of scalar ", i)
			add(f, new(big.Int).Mod(s, bi(m)).Sign() == 0)
			if t.want == nil {
				t.want = map[string]float64{}
			}
			t.want[f] = 1 / float64(m)
		}
	}
	for i, q := range p.P {
		low, lows = append(low, q.X.Bit(0), q.Y.Bit(0)), append(lows, names("x of point ", i), names("y of point ", i))
	}
	for i := range low {
		for j := 0; j < i; j++ {
			add("lowest bits agree: "+lows[j]+", "+lows[i], low[i] == low[j])
		}
	}
	for i, s := range p.S {
		for b := 0; b < 256; b++ {
			add(names("bit "+itoa(b)+" of scalar ", i), s.Bit(b) == 1)
		}
		for j := 0; j < i; j++ {
			add(names(names("scalar ", j)+" < scalar ", i), p.S[j].Cmp(s) < 0)
		}
		add(names("scalar ", i)+" < N/2", s.Cmp(ref.HalfN) <= 0)
	}
	for i, q := range p.P {
		for _, b := range []int{0, 1, 127, 255} {
			add(names("bit "+itoa(b)+" of x of point ", i), q.X.Bit(b) == 1)
			add(names("bit "+itoa(b)+" of y of point ", i), q.Y.Bit(b) == 1)
		}
		for j := 0; j < i; j++ {
			add(names(names("x of point ", j)+" < x of point ", i), p.P[j].X.Cmp(q.X) < 0)
		}
	}
}

// bulk is how many proofs of a class a large batch has.
const bulk = 7600

// hist counts the values of single bytes of the fields.
type hist struct {
	n int
	m map[string]*[256]int
}

func (t *hist) see(p Prf) {
	t.n++
	add := func(name string, v *big.Int, at ...int) {
		var b [32]byte
		v.FillBytes(b[:])
		for _, i := range at {
			k := "byte " + itoa(i) + " of " + name
			if t.m[k] == nil {
				t.m[k] = new([256]int)
			}
			t.m[k][b[i]]++
		}
	}
	for i, s := range p.S {
		add("scalar "+itoa(i), s, 0, 1, 30, 31)
	}
	for i, q := range p.P {
		add("x of point "+itoa(i), q.X, 0, 31)
		add("y of point "+itoa(i), q.Y, 0, 31)
	}
}

// fair: every value of every byte is about as frequent as the others. The
// chance of a false alarm is below 2e-11 per value.
func (t *hist) fair(what string) error {
	lo, hi := binomialTails(t.n, 1.0/256, 1e-11)
	for f, h := range t.m {
		for v, k := range h {
			if k < lo || k > hi {
				return bad("%s: %s is %d in %d of %d proofs", what, f, v, k, t.n)
			}
		}
	}
	return nil
}

// binomialTails returns the least and the largest count that are not rarer
// than eps on their side.
func binomialTails(n int, p, eps float64) (lo, hi int) {
	lg := func(v int) float64 { r, _ := math.Lgamma(float64(v) + 1); return r }
	pmf := func(k int) float64 {
		return math.Exp(lg(n) - lg(k) - lg(n-k) + float64(k)*math.Log(p) + float64(n-k)*math.Log(1-p))
	}
	s := 0.0
	for lo = 0; lo <= n; lo++ {
		if s += pmf(lo); s > eps {
			break
		}
	}
	s = 0
	for hi = n; hi >= 0; hi-- {
		if s += pmf(hi); s > eps {
			break
		}
	}
	return
}

type seer interface {
	see(Prf)
	fair(string) error
}

func itoa(v int) string { return bi(int64(v)).String() }

// fair: every feature is set about half of the time. Hoeffding: the chance of
// a false alarm is below 2*exp(-32) per feature.
func (t *tally) fair(what string) error {
	lim := 4 * math.Sqrt(float64(t.n))
	for f, k := range t.hits {
		p := 0.5
		if q, ok := t.want[f]; ok {
			p = q
		}
		if d := math.Abs(float64(k) - float64(t.n)*p); d > lim {
			return bad("%s: %s holds in %d of %d proofs", what, f, k, t.n)
		}
	}
	return nil
}

func checkC23(c caseC23, r *Rec) error {
	s := newStream(c.Seed)
	defer s.install()()
	z, pr := zk.TestCurve, ref.Std
	r.Class(c.Kind)
	r.NT()
	h := func(k int64) *big.Int { return hashBig(int64(c.Seed&0xffff)*100 + k) }
	// ws[i] are the statements of class i: what is hidden is which class
	var ws []Wit
	switch c.Kind {
	case kG:
		ws = []Wit{{Kind: kG, Base: ref.G, W: []*big.Int{c.X}, Pts: []ref.Pt{ref.Mul(ref.G, c.X)}}}
	case kE:
		ws = []Wit{{Kind: kE, W: []*big.Int{c.X}, Pts: []ref.Pt{ref.G, ref.Mul(ref.G, c.X), ref.H, ref.Mul(ref.H, c.X)}}}
	case kC:
		pk := ref.Mul(ref.H, h(1))
		ws = []Wit{{Kind: kC, W: []*big.Int{c.X, h(2)}, Pts: []ref.Pt{pr.Commit(c.X, h(2)), ref.Mul(pk, h(2)), pk}},
			{Kind: kC, W: []*big.Int{h(2), c.X}, Pts: []ref.Pt{pr.Commit(h(2), c.X), ref.Mul(pk, c.X), pk}}}
	case kD:
		pts := []ref.Pt{ref.G, ref.Mul(ref.G, c.X), ref.H, ref.Mul(ref.H, h(3))}
		ws = []Wit{{Kind: kD, Side: 0, W: []*big.Int{c.X}, Pts: pts}, {Kind: kD, Side: 1, W: []*big.Int{h(3)}, Pts: pts}}
	case kA:
		sk := h(4)
		for side := 0; side < 2; side++ {
			v := new(big.Int)
			if side == 1 {
				v = c.X
			}
			ws = append(ws, Wit{Kind: kA, Side: side, W: []*big.Int{v, h(5), sk}, Pts: []ref.Pt{pr.Commit(v, h(5)), ref.Mul(ref.Mul(ref.H, sk), h(5))}})
		}
	}
	var ts []*tally
	newT := func() seer {
		if c.N == bulk {
			return &hist{m: map[string]*[256]int{}}
		}
		t := &tally{hits: map[string]int{}}
		ts = append(ts, t)
		return t
	}
	exact := func(w Wit, p Prf) error {
		if !reduced(p.S...) {
			return bad("a published scalar is not in [0,N): %v", p.S)
		}
		seen := map[string]int{}
		for i, x := range p.S {
			if j, ok := seen[x.String()]; ok {
				return bad("the published scalars %d and %d are equal", j, i)
			}
			seen[x.String()] = i
			for _, y := range w.W {
				if y.BitLen() > 64 && (ref.ModN(y).Cmp(x) == 0 || ref.ModN(neg(y)).Cmp(x) == 0) {
					return bad("published scalar %d is a secret", i)
				}
			}
		}
		return nil
	}
	if c.Kind == kR {
		zero, one := newT(), newT()
		for _, v := range c.Vals {
			w := Wit{Kind: kR, W: []*big.Int{v}}
			l, _, err := libProve(z, w)
			if err != nil {
				return bad("the prover refused %v: %v", v, err)
			}
			p, err := view(l)
			if err != nil {
				return err
			}
			if e := exact(w, p); e != nil {
				return e
			}
			for i := 1; i < len(p.P); i++ {
				one1 := Prf{P: p.P[i : i+1], S: p.S[i : i+1]}
				if v.Bit(i-1) == 1 {
					one.see(one1)
				} else {
					zero.see(one1)
				}
			}
		}
		return first(zero.fair("range entries for zero bits"), one.fair("range entries for one bits"))
	}
	for i, w := range ws {
		t := newT()
		for k := 0; k < c.N; k++ {
			l, _, err := libProve(z, w)
			if err != nil {
				return bad("the prover refused a true statement: %v", err)
			}
			p, err := view(l)
			if err != nil {
				return err
			}
			if e := exact(w, p); e != nil {
				return e
			}
			if w.Kind == kG {
				p.P = p.P[1:]
			}
			t.see(p)
		}
		if e := t.fair(c.Kind + ", class " + itoa(i)); e != nil {
			return e
		}
	}
	if len(ts) == 2 { // the two classes look the same
		lim := 4 * math.Sqrt(float64(ts[0].n+ts[1].n))
		for f, k := range ts[0].hits {
			if d := math.Abs(float64(k - ts[1].hits[f])); d > lim {
				return bad("%s: %s holds in %d and in %d of %d proofs of the two classes", c.Kind, f, k, ts[1].hits[f], ts[0].n)
			}
		}
	}
	return nil
}

func init() {
	reg("C22", "histories of 2 to 6 prover, commitment and key calls (repeating statements), bulk runs of 80 equal calls, and runs with a source that repeats one byte; the secret choices are recovered with the witness, as scalars or as multiples of H; every case counts", 180, 1500, genC22, checkC22, enum(enumC22),
		assume("statements are chosen so that no base or token is infinity"))
	reg("C23", "batches of proofs per hidden class (side, bit, witness): all 256 bits of all published scalars, comparisons between fields and bits of coordinates, against one half (Hoeffding bound 2e-14 per feature) and against the other class; every batch counts", 12, 150, genC23, checkC23, enum(enumC23))
}
