package props

import (
	"fmt"
	"math/big"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
)

// A ledger in the style of the library's users: rows of commitments, one per
// participant, each with a token under the participant's key and proofs; audits
// of totals and of counts over any part of the ledger. Every published object
// goes through its encoding.

type lop struct {
	Op   string     // row, mint, total, count, differ, replay
	V    []*big.Int // row: the values; mint: one value
	R    []*big.Int // the blindings
	Who  int
	From int // the audited part: entries From, From+Step, ... before To
	To   int
	Step int
	Off  *big.Int // how far the claim is from the truth
	I, J int
}

type c36 struct {
	Own  bool
	G, H ref.Pt
	Keys []*big.Int
	Ops  []lop
	Rnd  Rnd
}

func genC36(g *gen) c36 {
	c := c36{Rnd: g.rnd()}
	if g.oneIn(4) {
		c.Own = true
		_, c.G, c.H = g.params()
		if c.H.IsInf() {
			c.H = ref.G.Copy()
		}
		if c.G.IsInf() {
			c.G = ref.H.Copy()
		}
	}
	n := 1 + g.pick(3)
	for i := 0; i < n; i++ {
		c.Keys = append(c.Keys, g.key())
	}
	ranges := 0
	for k := 4 + g.pick(7); k > 0; k-- {
		o := lop{Who: g.pick(8)}
		kind := g.weighted(5, 1, 5, 4, 2, 3)
		if k > 4 && g.pick(4) > 0 || len(c.Ops) == 0 {
			kind = 0
		}
		switch kind {
		case 0:
			o.Op = "row"
			sum, sr := new(big.Int), new(big.Int)
			for i := 0; i+1 < n; i++ {
				var v *big.Int
				switch g.weighted(4, 3, 2) {
				case 0:
					v = g.value40()
				case 1:
					v = new(big.Int)
				default:
					v = g.anyInt(true)
				}
				if g.oneIn(3) {
					v = new(big.Int).Neg(v)
				}
				r := g.anyInt(true)
				if g.oneIn(8) {
					r = new(big.Int)
				}
				o.V, o.R = append(o.V, v), append(o.R, r)
				sum.Add(sum, v)
				sr.Add(sr, r)
			}
			o.V, o.R = append(o.V, sum.Neg(sum)), append(o.R, sr.Neg(sr))
		case 1:
			o.Op = "mint"
			if ranges > 1 {
				continue
			}
			ranges++
			o.V = []*big.Int{g.value40()}
		case 2, 3:
			o.Op = []string{"total", "count"}[kind-2]
			o.From, o.To, o.Step = 0, 99, 1
			if g.flag() {
				o.From, o.To, o.Step = g.pick(4), 1+g.pick(12), 1+g.pick(2)
			}
			o.Off = new(big.Int)
			if g.flag() {
				switch g.pick(5) {
				case 0:
					o.Off = bi(1)
				case 1:
					o.Off = bi(-1)
				case 2:
					o.Off = new(big.Int).Mul(ref.N, bi(int64(1+g.pick(2))))
				case 3:
					o.Off = g.anyInt(true)
				case 4:
					o.Off = pow2(g.pick(256))
				}
			}
		case 4:
			o.Op = "differ"
			o.I, o.J = g.pick(12), g.pick(12)
		case 5:
			o.Op = "replay"
			o.I, o.J = g.pick(12), g.pick(12)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type entry struct {
	v, r    *big.Int
	cm, tok zk.ECPoint
	cons    lib
	abc     lib
	rng     lib
	abcV    ref.ABC
}

func checkC36(c c36, rec *Rec) (err error) {
	pr, z := ref.Std, zk.TestCurve
	if c.Own {
		pr = ref.MakeParams(c.G, c.H)
		z = zcurve(pr)
	}
	var sks []*big.Int
	var pks []zk.ECPoint
	for _, k := range c.Keys {
		sks = append(sks, cp(k))
		pks = append(pks, z.Mult(z.H, k))
	}
	book := make([][]*entry, len(sks))
	again := func(kind string, l lib, e error) (lib, error) {
		if e != nil {
			return nil, bad("%s proof of a true statement: %v", kind, e)
		}
		q, e := libDec(kind, l.Bytes())
		if e != nil {
			return nil, bad("a %s proof does not decode: %v", kind, e)
		}
		return q, nil
	}
	must := func(kind string, l lib, want bool, what string, pts ...zk.ECPoint) error {
		ok, e := verdict(libVerifyZ(z, l, pts))
		if e != nil {
			return e
		}
		if ok != want {
			return bad("%s: the %s proof's verdict is %v", what, kind, ok)
		}
		return nil
	}
	add := func(who int, v, r *big.Int, rng lib) (*entry, error) {
		e := &entry{v: v, r: r, rng: rng, cm: zk.PedCommitR(z, v, r), tok: zk.CommitR(z, pks[who], r)}
		l, er := nilIf(zk.NewConsistencyProof(z, e.cm, e.tok, pks[who], v, r))
		if e.cons, er = again(kC, l, er); er != nil {
			return nil, er
		}
		side := zk.Left
		if ref.ModN(v).Sign() != 0 {
			side = zk.Right
		}
		l, er = nilIf(zk.NewABCProof(z, e.cm, e.tok, v, sks[who], side))
		if e.abc, er = again(kA, l, er); er != nil {
			return nil, er
		}
		if e.abcV, er = fromABC(e.abc.(*zk.ABCProof)); er != nil {
			return nil, er
		}
		if er = must(kC, e.cons, true, "a new entry", e.cm, e.tok, pks[who]); er != nil {
			return nil, er
		}
		if er = must(kA, e.abc, true, "a new entry", e.cm, e.tok); er != nil {
			return nil, er
		}
		if rng != nil {
			if er = must(kR, rng, true, "a new entry", e.cm); er != nil {
				return nil, er
			}
		}
		book[who] = append(book[who], e)
		return e, nil
	}
	// A claim that base's share of the sum is claim: sum - claim*G and the
	// token's sum have the logarithm that H and the key have.
	audit := func(who int, cms, toks []zk.ECPoint, truth, off *big.Int, what string) error {
		s, t := zk.Zero, zk.Zero
		rs, rt := ref.Inf(), ref.Inf()
		for i := range cms {
			s, t = z.Add(s, cms[i]), z.Add(t, toks[i])
			rs, rt = ref.Add(rs, rp(cms[i])), ref.Add(rt, rp(toks[i]))
		}
		if !rp(s).Eq(rs) || !rp(t).Eq(rt) {
			return bad("%s: the sums are %v and %v, want %v and %v", what, rp(s), rp(t), rs, rt)
		}
		claim := new(big.Int).Add(truth, off)
		right := ref.ModN(off).Sign() == 0
		base := z.Sub(s, z.Mult(z.G, claim))
		p, er := zk.NewEquivalenceProof(z, base, t, z.H, pks[who], sks[who])
		if !right {
			rec.Class("%s: false claim", what)
			if er == nil {
				return bad("%s: the prover answers %v where the truth is %v", what, claim, truth)
			}
			// The best that a dishonest participant can do with the library's
			// own objects: the honest proof of the truth, and the honest
			// prover's formulas for the false statement.
			tb := z.Sub(s, z.Mult(z.G, truth))
			l, er := nilIf(zk.NewEquivalenceProof(z, tb, t, z.H, pks[who], sks[who]))
			if l, er = again(kE, l, er); er != nil {
				return er
			}
			if er = must(kE, l, true, what, tb, t, z.H, pks[who]); er != nil {
				return er
			}
			if er = must(kE, l, false, what+" for a false claim", base, t, z.H, pks[who]); er != nil {
				return er
			}
			f := ref.ProveEquiv(rp(base), rp(t), rp(z.H), rp(pks[who]), sks[who], bi(12345))
			return must(kE, toEquiv(f), false, what+" for a false claim", base, t, z.H, pks[who])
		}
		rec.Class("%s: true claim", what)
		l, er := again(kE, p, er)
		if er != nil {
			return bad("%s, claim %v: %v", what, claim, er)
		}
		if er = must(kE, l, true, what, base, t, z.H, pks[who]); er != nil {
			return er
		}
		for i := range pks {
			if !pks[i].Equal(pks[who]) {
				if er = must(kE, l, false, what+" for another participant", base, t, z.H, pks[i]); er != nil {
					return er
				}
			}
		}
		return nil
	}
	step := func(o lop) error {
		who := o.Who % len(sks)
		switch o.Op {
		case "row":
			s, t := zk.Zero, zk.Zero
			for i := range o.V {
				e, er := add(i, o.V[i], o.R[i], nil)
				if er != nil {
					return er
				}
				s, t = z.Add(s, e.cm), z.Sub(t, e.cm)
			}
			if !s.Equal(zk.Zero) || !t.Equal(zk.Zero) {
				return bad("a balanced row's commitments sum to %v", rp(s))
			}
			rec.Class("row")
		case "mint":
			p, r, er := zk.NewRangeProof(z, o.V[0])
			if er != nil {
				return bad("range proof of %v: %v", o.V[0], er)
			}
			l, er := again(kR, p, nil)
			if er != nil {
				return er
			}
			if _, er = add(who, o.V[0], r, l); er != nil {
				return er
			}
			rec.Class("mint")
		case "total", "count":
			var cms, toks []zk.ECPoint
			truth := new(big.Int)
			for i := o.From; i < o.To && i < len(book[who]); i += o.Step {
				e := book[who][i]
				if o.Op == "total" {
					cms, toks = append(cms, e.cm), append(toks, e.tok)
					truth.Add(truth, e.v)
				} else {
					cms, toks = append(cms, zp(e.abcV.Cm)), append(toks, zp(e.abcV.CTok))
					if ref.ModN(e.v).Sign() != 0 {
						truth.Add(truth, bi(1))
					}
				}
			}
			if len(cms) > 1 {
				rec.NT()
			}
			return audit(who, cms, toks, truth, o.Off, o.Op)
		case "differ", "replay":
			if len(book[who]) == 0 {
				return nil
			}
			a, b := pick(book[who], o.I), pick(book[who], o.J)
			if o.Op == "differ" {
				p, er := zk.NewInequalityProof(z, a.cm, b.cm, a.tok, b.tok, a.v, b.v, sks[who])
				if ref.ModN(new(big.Int).Sub(a.v, b.v)).Sign() == 0 {
					if er == nil {
						return bad("the inequality of equal values %v and %v was proved", a.v, b.v)
					}
					rec.Class("equal values")
					return nil
				}
				if er != nil {
					return bad("inequality of %v and %v: %v", a.v, b.v, er)
				}
				l, er := again(kI, libI{p}, nil)
				if er != nil {
					return er
				}
				rec.Class("different values")
				return must(kI, l, true, "two entries", z.Sub(a.cm, b.cm), z.Sub(a.tok, b.tok))
			}
			other := (who + o.I%2) % len(sks)
			if len(book[other]) == 0 {
				return nil
			}
			b = pick(book[other], o.J)
			same := a.cm.Equal(b.cm) && a.tok.Equal(b.tok)
			if er := must(kA, a.abc, same, "replay", b.cm, b.tok); er != nil {
				return er
			}
			if er := must(kC, a.cons, same && pks[who].Equal(pks[other]), "replay", b.cm, b.tok, pks[other]); er != nil {
				return er
			}
			if a.rng != nil {
				if er := must(kR, a.rng, a.cm.Equal(b.cm), "replay", b.cm); er != nil {
					return er
				}
			}
			rec.Class("replay, same=%v", same)
		}
		return nil
	}
	c.Rnd.with(func() {
		for i, o := range c.Ops {
			if err = step(o); err != nil {
				err = fmt.Errorf("step %d (%s): %w", i, o.Op, err)
				return
			}
		}
		// At the end every published proof still verifies.
		for who := range book {
			for i, e := range book[who] {
				if !rp(e.cm).Eq(pr.Commit(e.v, e.r)) || !rp(e.tok).Eq(ref.Mul(rp(pks[who]), e.r)) {
					err = bad("participant %d, entry %d: commitment or token is wrong at the end", who, i)
					return
				}
				if err = must(kC, e.cons, true, "at the end", e.cm, e.tok, pks[who]); err != nil {
					return
				}
				if err = must(kA, e.abc, true, "at the end", e.cm, e.tok); err != nil {
					return
				}
			}
		}
	})
	return err
}

func init() {
	reg("C36", "ledgers of 1 to 3 participants with up to 10 steps: balanced rows, entries with range proofs, audits of totals and of counts of non-zero entries over any part with true and false claims, inequality of entries, replays; non-trivial: an audit over at least two entries", 400, 4000, genC36, checkC36)
}
