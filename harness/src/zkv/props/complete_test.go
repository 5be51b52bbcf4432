package props

import (
	"encoding/json"
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
)

// C08..C14: what the provers do with true and with false statements.

type caseProve struct {
	W     Wit
	Wrong string // "": a true statement
	Rnd   Rnd
}

func genProve(kind string) func(*gen) caseProve {
	return func(g *gen) caseProve {
		c := caseProve{Rnd: g.rnd()}
		again := false
		if g.mem != nil && len(g.mem.wits[kind]) > 0 && g.flag() { // the statement of an earlier case
			old := g.mem.wits[kind]
			c.W, again = old[g.pick(len(old))].copy(), true
		} else {
			c.W = g.witness(kind, ref.Std)
		}
		if g.mem != nil {
			if g.mem.wits == nil {
				g.mem.wits = map[string][]Wit{}
			}
			g.mem.wits[kind] = append(g.mem.wits[kind], c.W.copy())
		}
		if g.oneIn(3) || again && g.flag() {
			c.Wrong = g.spoil(&c.W)
		}
		return c
	}
}

func (w Wit) copy() Wit {
	js, err := json.Marshal(w)
	if err != nil {
		panic(err)
	}
	var c Wit
	if err := json.Unmarshal(js, &c); err != nil {
		panic(err)
	}
	return c
}

// spoil changes one thing so that the statement may be false; the check finds
// out whether it is.
func (g *gen) spoil(w *Wit) string {
	moved := func(v *big.Int) *big.Int {
		switch g.pick(5) {
		case 0:
			return new(big.Int).Add(v, bi(1))
		case 1:
			return new(big.Int).Neg(v)
		case 2:
			return new(big.Int).Xor(v, pow2(g.pick(256)))
		case 3:
			return new(big.Int).Add(v, new(big.Int).Mul(ref.N, bi(int64(g.pick(3)-1)))) // still true
		}
		return g.anyInt(true)
	}
	point := func(i int) string {
		w.Pts[i] = g.differ(w.Pts[i])
		return "point changed"
	}
	switch w.Kind {
	case kG:
		switch g.pick(3) {
		case 0:
			return point(0)
		case 1:
			w.W[0] = moved(w.W[0])
			return "x changed"
		}
		w.Base = g.differ(w.Base)
		return "base changed"
	case kE:
		switch g.pick(4) {
		case 0:
			return point(g.pick(4))
		case 1: // the second result has another logarithm
			w.Pts[3] = ref.Mul(w.Pts[2], moved(w.W[0]))
			return "second result has another logarithm"
		case 2:
			w.Pts[1] = ref.Mul(w.Pts[0], moved(w.W[0]))
			return "first result has another logarithm"
		}
		w.W[0] = moved(w.W[0])
		return "x changed"
	case kC:
		switch g.pick(5) {
		case 0:
			return point(g.pick(3))
		case 1:
			w.Pts[1] = ref.Mul(w.Pts[2], moved(w.W[1]))
			return "token of another blinding"
		case 2:
			w.W[0] = moved(w.W[0])
			return "value changed"
		case 3:
			w.W[1] = moved(w.W[1])
			return "blinding changed"
		}
		// commitment adjusted to another blinding, token kept
		w.Pts[0] = ref.Std.Commit(w.W[0], moved(w.W[1]))
		return "commitment with another blinding"
	case kD:
		switch g.pick(4) {
		case 0:
			w.Side = []int{2, -1, 3, 256, 1 << 32}[g.pick(5)]
			return "no such side"
		case 1: // the other side is the true one
			o := 1 - w.Side
			w.Pts[2*o+1] = ref.Mul(w.Pts[2*o], w.W[0])
			w.Pts[2*w.Side+1] = g.differ(w.Pts[2*w.Side+1])
			return "only the other side is true"
		case 2:
			w.W[0] = moved(w.W[0])
			return "x changed"
		}
		return point(2*w.Side + 1)
	case kA:
		switch g.pick(6) {
		case 0:
			w.Side = 1 - w.Side
			return "wrong side"
		case 1:
			w.Side = []int{2, -1, 3}[g.pick(3)]
			return "no such side"
		case 2:
			w.W[2] = new(big.Int).Mul(ref.N, bi(int64(g.pick(3)-1)))
			return "key without inverse"
		case 3:
			w.W[2] = moved(w.W[2])
			return "key changed"
		case 4:
			w.W[0] = moved(w.W[0])
			if g.flag() {
				w.Side = 0
				if ref.ModN(w.W[0]).Sign() != 0 {
					w.Side = 1
				}
			}
			return "value changed"
		}
		return point(g.pick(2))
	case kI:
		switch g.pick(5) {
		case 0:
			w.W[2] = new(big.Int).Add(w.W[0], new(big.Int).Mul(ref.N, bi(int64(g.pick(5)-2))))
			w.Full[1] = ref.Std.Commit(w.W[2], w.W[3])
			w.Pts[0] = ref.Sub(w.Full[0], w.Full[1])
			return "equal values"
		case 1:
			i := g.pick(2) * 2
			w.W[i] = moved(w.W[i])
			return "value changed"
		case 2:
			w.W[4] = moved(w.W[4])
			return "key changed"
		case 3:
			w.W[4] = new(big.Int).Mul(ref.N, bi(int64(g.pick(3)-1)))
			return "key without inverse"
		}
		w.Full[g.pick(4)] = g.point()
		w.Pts[0], w.Pts[1] = ref.Sub(w.Full[0], w.Full[1]), ref.Sub(w.Full[2], w.Full[3])
		return "commitment or token changed"
	}
	switch g.pick(6) {
	case 0:
		w.W[0] = new(big.Int).Add(pow2(40), bi(int64(g.pick(3))))
	case 1:
		w.W[0] = bi(-1 - int64(g.pick(3)))
	case 2:
		w.W[0] = new(big.Int).Neg(w.W[0])
	case 3:
		w.W[0] = new(big.Int).Add(w.W[0], pow2(40+g.pick(220)))
	case 4:
		w.W[0] = g.anyInt(true)
	case 5:
		w.W[0] = new(big.Int).Add(ref.N, w.W[0])
	}
	return "value out of range"
}

// truth says what must happen: the proof succeeds, the prover refuses, or no
// accepted proof may come out.
func truth(w Wit) string {
	ok := func(b bool) string {
		if b {
			return "succeeds"
		}
		return "refused"
	}
	switch w.Kind {
	case kG:
		return ok(ref.Mul(w.Base, w.W[0]).Eq(w.Pts[0]))
	case kE:
		return ok(ref.Mul(w.Pts[0], w.W[0]).Eq(w.Pts[1]) && ref.Mul(w.Pts[2], w.W[0]).Eq(w.Pts[3]))
	case kC:
		return ok(ref.Std.Commit(w.W[0], w.W[1]).Eq(w.Pts[0]) && ref.Mul(w.Pts[2], w.W[1]).Eq(w.Pts[1]))
	case kD:
		return ok((w.Side == 0 || w.Side == 1) && ref.Mul(w.Pts[2*w.Side], w.W[0]).Eq(w.Pts[2*w.Side+1]))
	case kA:
		if !abcSide(w.W[0], w.W[2], w.Side) {
			return "refused"
		}
		if !abcBelongs(w.Pts[0], w.Pts[1], w.W[0], w.W[2]) {
			return "never accepted"
		}
		return "succeeds"
	case kI:
		d := new(big.Int).Sub(w.W[0], w.W[2])
		if !abcSide(d, w.W[4], 1) {
			return "refused"
		}
		if !abcBelongs(w.Pts[0], w.Pts[1], d, w.W[4]) {
			return "never accepted"
		}
		return "succeeds"
	}
	return ok(w.W[0].Sign() >= 0 && w.W[0].Cmp(pow2(40)) < 0)
}

func abcSide(v, sk *big.Int, side int) bool {
	want := 1
	if ref.ModN(v).Sign() == 0 {
		want = 0
	}
	return side == want && ref.ModN(sk).Sign() != 0
}

// abcBelongs: some ua makes cm = vG+ua*H and tok = ua*sk*H.
func abcBelongs(cm, tok ref.Pt, v, sk *big.Int) bool {
	return ref.Mul(ref.Sub(cm, ref.Mul(ref.G, v)), sk).Eq(tok)
}

// usable says whether l is a complete proof that the reference accepts.
func usable(kind string, l lib, pts []ref.Pt) (ok bool) {
	if l == nil {
		return false
	}
	defer func() {
		if recover() != nil { // incomplete
			ok = false
		}
	}()
	p, err := view(l)
	return err == nil && refVerify(kind, ref.Std, pts, p)
}

func checkProve(c caseProve, r *Rec) error {
	z, w := zk.TestCurve, c.W
	exp := truth(w)
	r.Class("%s", exp)
	if c.Wrong != "" {
		r.Class("spoiled: " + c.Wrong)
	}
	if c.Rnd.Edge > 0 {
		r.Class("edge nonces")
	}
	if c.Rnd.Chunk > 0 {
		r.Class("chunked random source")
	}
	r.NT()
	var l lib
	var blind *big.Int
	var err error
	c.Rnd.with(func() { l, blind, err = libProve(z, w) })

	if w.Kind == kG && w.Base.Eq(ref.G) { // the entry point without a base
		var p *zk.GSPFSProof
		var e2 error
		c.Rnd.with(func() { p, e2 = zk.NewGSPFSProof(z, zp(w.Pts[0]), cp(w.W[0])) })
		r.Class("NewGSPFSProof")
		if (e2 == nil) != (exp == "succeeds") {
			return bad("NewGSPFSProof: error %v, but the statement %s", e2, exp)
		}
		if e2 == nil && !usable(kG, p, w.Pts) {
			return bad("NewGSPFSProof returned a proof that is not valid")
		}
	}

	switch exp {
	case "refused":
		if err == nil {
			return bad("the prover accepted a false statement or a wrong side")
		}
		if w.Kind == kR {
			if l != nil {
				return bad("the prover returned a proof with its error")
			}
		} else if usable(w.Kind, l, w.Pts) {
			return bad("the prover returned a valid proof with its error")
		}
		return nil
	case "never accepted":
		if err != nil || l == nil {
			r.Class("refused at proving")
			return nil
		}
		ok, e := libVerify(z, l, w.Pts)
		if e != nil {
			return e
		}
		if ok {
			return bad("a proof whose value, key, commitment and token do not belong together is accepted")
		}
		return nil
	}

	if err != nil {
		return bad("the prover refused a true statement: %v", err)
	}
	if l == nil {
		return bad("the prover returned neither a proof nor an error")
	}
	pts := w.Pts
	if w.Kind == kR {
		if !reduced(blind) {
			return bad("the blinding %v is not in [0,N)", blind)
		}
		pts = []ref.Pt{ref.Std.Commit(w.W[0], blind)}
		if e := expect("commitment to the value with the returned blinding", zk.PedCommitR(z, cp(w.W[0]), cp(blind)), pts[0]); e != nil {
			return e
		}
	}
	p, e := view(l)
	if e != nil {
		return bad("the proof's encoding is malformed: %v", e)
	}
	if !refVerify(w.Kind, ref.Std, pts, p) {
		return bad("the independent verifier rejects the proof")
	}
	for i := 0; i < 2; i++ {
		ok, e := libVerify(z, l, pts)
		if e != nil {
			return e
		}
		if !ok {
			_, e := libVerifyZ(z, l, zpts(pts))
			return bad("the verifier rejects an honest proof (call %d): %v", i+1, e)
		}
	}
	if !reduced(p.S...) {
		return bad("a response or challenge is not in [0,N): %v", p.S)
	}
	switch w.Kind {
	case kG:
		if !p.P[0].Eq(w.Base) {
			return bad("the proof's base is %v, not %v", p.P[0], w.Base)
		}
	case kA, kI:
		v, sk := w.W[0], w.W[len(w.W)-1]
		if w.Kind == kI {
			v = new(big.Int).Sub(w.W[0], w.W[2])
		}
		one := bi(1)
		if ref.ModN(v).Sign() == 0 {
			one = bi(0)
		}
		a := aTo(p)
		if !ref.Mul(ref.Sub(a.Cm, ref.Mul(ref.G, one)), sk).Eq(a.CTok) {
			return bad("the token of C does not belong to C committing to %v under the key", one)
		}
	case kR:
		if len(p.P) != 41 {
			r.Class("%d entries", len(p.P)-1)
		}
		for i, q := range []ref.Pt{ref.Std.Commit(new(big.Int).Add(w.W[0], bi(1)), blind), ref.Std.Commit(w.W[0], new(big.Int).Add(blind, bi(1))), ref.Neg(pts[0]), ref.Inf()} {
			if q.Eq(pts[0]) {
				continue
			}
			ok, e := libVerify(z, l, []ref.Pt{q})
			if e != nil {
				return e
			}
			if ok {
				return bad("the range proof is accepted for another commitment (%d)", i)
			}
		}
	}
	return nil
}

func enumRange() []caseProve {
	var cs []caseProve
	add := func(v *big.Int) {
		cs = append(cs, caseProve{W: Wit{Kind: kR, W: []*big.Int{v}}, Rnd: Rnd{Seed: uint64(len(cs) + 1)}})
	}
	for i := 0; i <= 40; i++ { // every bit alone and every prefix
		add(pow2(i))
		add(new(big.Int).Sub(pow2(i), bi(1)))
	}
	for _, k := range []int{41, 63, 64, 65, 128, 255, 256, 300} {
		add(pow2(k))
		add(new(big.Int).Neg(pow2(k)))
	}
	add(bi(-1))
	add(cp(ref.N))
	return cs
}

func init() {
	rule := func(s string) string {
		return s + ", drawn from random, small, negative, over-long and boundary integers and random, generator, short-coordinate and infinite points; a third of the cases is spoiled in one place; every case counts"
	}
	reg("C08", rule("a base, x and A"), 6000, 60000, genProve(kG), checkProve, seq)
	reg("C09", rule("two bases, x and two results"), 4500, 40000, genProve(kE), checkProve, seq)
	reg("C10", rule("value, blinding, key, commitment and token"), 4500, 40000, genProve(kC), checkProve, seq)
	reg("C11", rule("two bases and results, x and a side"), 4000, 36000, genProve(kD), checkProve, seq)
	reg("C12", rule("value, blinding, key, commitment, token and side"), 2200, 20000, genProve(kA), checkProve, seq)
	reg("C13", rule("two values, blindings, commitments and tokens under one key"), 2200, 20000, genProve(kI), checkProve, seq)
	reg("C14", rule("a value; every single bit and every all-ones prefix is enumerated"), 250, 2200, genProve(kR), checkProve, enum(enumRange))
}
