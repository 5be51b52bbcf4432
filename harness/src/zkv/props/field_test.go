//go:build zkvfield

package props

import (
	"bytes"
	"encoding/hex"
	"math/big"

	"zkv/ref"

	"github.com/mit-dci/zksigma/btcec"
)

// ---- C03: programs over field elements ----

// FOp is one step: D is the destination register, A and B are sources.
type FOp struct {
	Op      string
	D, A, B int
	V       *big.Int `json:",omitempty"` // value for settings
	K       uint     `json:",omitempty"`
}

type c03 struct{ Ops []FOp }

const fRegs = 4

// fstate is what the program's author knows about a register: its magnitude
// (the documented bound on its words) and whether it is normalised.
type fstate struct {
	mag  int
	norm bool
}

const maxMag = 63

// fvalue draws an integer below 2^256 with structure around the prime, the
// word boundaries and the reduction constants.
func (g *gen) fvalue() *big.Int {
	top := pow2(256)
	var v *big.Int
	switch g.weighted(5, 5, 3, 4, 3, 3, 2) {
	case 0:
		v = g.below(top)
	case 1: // around the prime and 2^256
		c := []*big.Int{ref.P, top, new(big.Int), new(big.Int).Sub(ref.P, pow2(32)), new(big.Int).Sub(top, pow2(33)),
			new(big.Int).Rsh(ref.P, 1), pow2(32), new(big.Int).Sub(top, ref.P), new(big.Int).Lsh(new(big.Int).Sub(top, ref.P), 1)}[g.pick(9)]
		v = new(big.Int).Add(c, bi(int64(g.pick(9)-4)))
	case 2: // prime with bits changed
		v = cp(ref.P)
		for i := g.pick(4); i >= 0; i-- {
			b := g.pick(256)
			v.SetBit(v, b, v.Bit(b)^1)
		}
	case 3: // words that are zero, full or random
		v = new(big.Int)
		for i := 9; i >= 0; i-- {
			w := uint64(0)
			switch g.pick(4) {
			case 1:
				w = 1<<26 - 1
			case 2:
				w = g.u64() & (1<<26 - 1)
			case 3:
				w = 1<<26 - 1 - uint64(g.pick(1024))
			}
			if i == 9 {
				w &= 1<<22 - 1
			}
			v.Lsh(v, 26)
			v.Or(v, new(big.Int).SetUint64(w))
		}
	case 4: // around a power of two
		v = new(big.Int).Add(pow2(g.pick(257)), bi(int64(g.pick(3)-1)))
	case 5:
		v = bi(int64(g.pick(40)))
	case 6: // high words full, low part around the prime's
		v = new(big.Int).Sub(top, new(big.Int).SetUint64(g.u64()>>uint(24+g.pick(8))))
	}
	return v.Mod(v, top)
}

func genC03(g *gen) c03 {
	var c c03
	st := make([]fstate, fRegs)
	for i := range st {
		st[i] = fstate{1, true}
	}
	add := func(o FOp) { c.Ops = append(c.Ops, o); fstep(st, o) }
	n := 4 + g.pick(24)
	for len(c.Ops) < n {
		d, a, b := g.pick(fRegs), g.pick(fRegs), g.pick(fRegs)
		if g.oneIn(8) {
			// Summands of a total near a multiple of the prime or of 2^256.
			m := 1 + g.pick(7)
			t := new(big.Int).Mul([]*big.Int{ref.P, pow2(256)}[g.pick(2)], bi(int64(1+g.pick(m))))
			t.Add(t, bi(int64(g.pick(5)-2)))
			if g.oneIn(3) {
				t.Add(t, g.below(pow2(40)))
			}
			x := (d + 1) % fRegs
			add(FOp{Op: "zero", D: d})
			for k := m; k >= 0; k-- {
				var s *big.Int
				if k == 0 {
					s = t
				} else { // leave no more than k summands can carry
					lo := new(big.Int).Sub(t, new(big.Int).Mul(bi(int64(k)), new(big.Int).Sub(pow2(256), bi(1))))
					if lo.Sign() < 0 {
						lo = new(big.Int)
					}
					hi := t
					if hi.Cmp(pow2(256)) >= 0 {
						hi = new(big.Int).Sub(pow2(256), bi(1))
					}
					if lo.Cmp(hi) > 0 {
						lo = hi
					}
					s = new(big.Int).Add(lo, g.below(new(big.Int).Add(new(big.Int).Sub(hi, lo), bi(1))))
				}
				if s.Sign() < 0 || s.BitLen() > 256 {
					break
				}
				t = new(big.Int).Sub(t, s)
				add(FOp{Op: "bytes", D: x, V: s})
				add(FOp{Op: "add", D: d, A: x})
			}
			if g.flag() {
				add(FOp{Op: "normalize", D: d})
			}
			continue
		}
		if g.oneIn(8) {
			// As large as the limits allow, then reduced or multiplied.
			lim := 8
			if g.flag() {
				lim = maxMag
			}
			add(FOp{Op: "bytes", D: d, V: g.fvalue()})
			add(FOp{Op: "bytes", D: a, V: g.fvalue()})
			for _, x := range []int{d, a} {
				switch g.pick(3) {
				case 0:
					add(FOp{Op: "mulint", D: x, K: uint(lim / st[x].mag)})
				case 1:
					if k := uint((lim - 1) / st[x].mag); k > 0 {
						add(FOp{Op: "mulint", D: x, K: k})
					}
					if st[x].mag < lim {
						add(FOp{Op: "negate", D: x})
					}
				case 2:
					for st[x].mag*2 <= lim {
						add(FOp{Op: "add", D: x, A: x})
					}
				}
			}
			e := FOp{Op: []string{"normalize", "mul", "square", "normalize", "inverse", "string"}[g.pick(6)], D: d, A: a}
			if fallowed(st, e) {
				add(e)
			}
			continue
		}
		o := FOp{D: d, A: a, B: b}
		switch g.weighted(4, 2, 1, 2, 1, 4, 4, 3, 2, 3, 3, 2, 4, 3, 2, 2, 1, 5, 2, 2) {
		case 0:
			o.Op, o.V = "bytes", g.fvalue()
		case 1:
			o.Op, o.V = "hex", g.fvalue()
		case 2:
			o.Op, o.V = "slice", g.fvalue()
		case 3:
			o.Op, o.K = "setint", uint(g.u64()>>uint(32+g.pick(32)))
			if g.flag() {
				o.K = uint(g.pick(5))
			}
		case 4:
			o.Op = "zero"
		case 5:
			o.Op = "add"
		case 6:
			o.Op = "add2"
		case 7:
			o.Op, o.K = "addint", uint(g.u64()>>uint(38+g.pick(26)))
		case 8:
			o.Op, o.K = "mulint", uint(g.pick(9))
			if g.oneIn(4) && st[d].mag > 0 {
				o.K = uint(g.pick(maxMag/st[d].mag + 1))
			}
		case 9:
			o.Op = "negate"
		case 10:
			o.Op = "negateval"
		case 11:
			o.Op = "square"
		case 12:
			o.Op = "mul"
		case 13:
			o.Op = "mul2"
		case 14:
			o.Op = "squareval"
		case 15:
			o.Op = "inverse"
		case 16:
			o.Op = "set"
		case 17:
			o.Op = "normalize"
		case 18:
			o.Op = "string"
		case 19:
			o.Op = "equals"
		}
		if !fallowed(st, o) {
			// Bring the operands into range first.
			for _, r := range []int{d, a, b} {
				add(FOp{Op: "normalize", D: r})
			}
			if !fallowed(st, o) {
				continue
			}
		}
		add(o)
	}
	return c
}

// fallowed says whether the documented limits allow the step.
func fallowed(st []fstate, o FOp) bool {
	d, a, b := st[o.D], st[o.A], st[o.B]
	switch o.Op {
	case "add":
		return d.mag+a.mag <= maxMag
	case "add2":
		return a.mag+b.mag <= maxMag
	case "addint":
		return d.mag+1 <= maxMag && o.K < 1<<26
	case "mulint":
		return d.mag*int(o.K) <= maxMag
	case "negate":
		return d.mag+1 <= maxMag
	case "negateval":
		return a.mag+1 <= maxMag
	case "square", "inverse":
		return d.mag <= 8
	case "squareval":
		return a.mag <= 8
	case "mul":
		return d.mag <= 8 && a.mag <= 8
	case "mul2":
		return a.mag <= 8 && b.mag <= 8
	case "equals":
		return d.norm && a.norm
	case "setint":
		return o.K < 1<<32
	case "bytes", "hex", "slice":
		return o.V.Sign() >= 0 && o.V.BitLen() <= 256
	}
	return true
}

// fstep updates what is known.
func fstep(st []fstate, o FOp) {
	d, a, b := st[o.D], st[o.A], st[o.B]
	n := fstate{1, false}
	switch o.Op {
	case "bytes", "hex", "slice":
		n.norm = o.V.Cmp(ref.P) < 0
	case "setint":
		n.norm = o.K < 1<<26
		n.mag = 1 + int(o.K>>26)
	case "zero", "normalize":
		n.norm = true
	case "add":
		n.mag = d.mag + a.mag
	case "add2":
		n.mag = a.mag + b.mag
	case "addint":
		n.mag = d.mag + 1
	case "mulint":
		n.mag = d.mag * int(o.K)
		if n.mag == 0 {
			n.mag, n.norm = 1, true
		}
	case "negate":
		n.mag = d.mag + 1
	case "negateval":
		n.mag = a.mag + 1
	case "set":
		n = a
	case "string", "equals":
		n = d
	}
	st[o.D] = n
}

func rawValue(n [10]uint32) *big.Int {
	v := new(big.Int)
	for i := 9; i >= 0; i-- {
		v.Lsh(v, 26)
		v.Add(v, new(big.Int).SetUint64(uint64(n[i])))
	}
	return v
}

func checkC03(c c03, r *Rec) error {
	regs := make([]*btcec.ZkvField, fRegs)
	vals := make([]*big.Int, fRegs)
	st := make([]fstate, fRegs)
	for i := range regs {
		regs[i], vals[i], st[i] = &btcec.ZkvField{}, new(big.Int), fstate{1, true}
	}
	modP := func(v *big.Int) *big.Int { return v.Mod(v, ref.P) }
	for i, o := range c.Ops {
		if o.D < 0 || o.D >= fRegs || o.A < 0 || o.A >= fRegs || o.B < 0 || o.B >= fRegs || !fallowed(st, o) {
			return nil
		}
		var before [fRegs][10]uint32
		for k := range regs {
			before[k] = regs[k].Raw()
		}
		d, a, b := regs[o.D], regs[o.A], regs[o.B]
		vd, va, vb := vals[o.D], vals[o.A], vals[o.B]
		nv := cp(vd)
		ok := true
		r.Class("%s", o.Op)
		switch o.Op {
		case "bytes":
			var w [32]byte
			o.V.FillBytes(w[:])
			w2 := w
			ret, have := d.SetBytes(&w)
			if !have {
				d.SetHex(hex.EncodeToString(w[:]))
			}
			if w != w2 {
				return bad("step %d: SetBytes changed its input", i)
			}
			ok, nv = ret, cp(o.V)
		case "hex":
			w := make([]byte, 32)
			o.V.FillBytes(w)
			if i%2 == 0 {
				w = o.V.Bytes()
			}
			ok, nv = d.SetHex(hex.EncodeToString(w)), cp(o.V)
		case "slice":
			w := o.V.Bytes()
			w2 := append([]byte(nil), w...)
			ret, have := d.SetByteSlice(w)
			if !have {
				d.SetHex(hex.EncodeToString(w))
			}
			if !bytes.Equal(w, w2) {
				return bad("step %d: SetByteSlice changed its input", i)
			}
			ok, nv = ret, cp(o.V)
		case "setint":
			ok, nv = d.SetInt(o.K), new(big.Int).SetUint64(uint64(o.K))
		case "zero":
			d.Zero()
			nv = new(big.Int)
		case "set":
			ok, nv = d.Set(a), cp(va)
		case "normalize":
			ok = d.Normalize()
		case "add":
			ok, nv = d.Add(a), new(big.Int).Add(vd, va)
		case "add2":
			ok, nv = d.Add2(a, b), new(big.Int).Add(va, vb)
		case "addint":
			ok, nv = d.AddInt(o.K), new(big.Int).Add(vd, new(big.Int).SetUint64(uint64(o.K)))
		case "mulint":
			ok, nv = d.MulInt(o.K), new(big.Int).Mul(vd, new(big.Int).SetUint64(uint64(o.K)))
		case "negate":
			ok, nv = d.Negate(uint32(st[o.D].mag)), new(big.Int).Neg(vd)
		case "negateval":
			ok, nv = d.NegateVal(a, uint32(st[o.A].mag)), new(big.Int).Neg(va)
		case "square":
			ok, nv = d.Square(), new(big.Int).Mul(vd, vd)
		case "squareval":
			ok, nv = d.SquareVal(a), new(big.Int).Mul(va, va)
		case "mul":
			ok, nv = d.Mul(a), new(big.Int).Mul(vd, va)
		case "mul2":
			ok, nv = d.Mul2(a, b), new(big.Int).Mul(va, vb)
		case "inverse":
			ok = d.Inverse()
			nv = new(big.Int)
			if vd.Sign() != 0 {
				nv.ModInverse(vd, ref.P)
			}
		case "string":
			var w [32]byte
			vd.FillBytes(w[:])
			if s := d.String(); s != hex.EncodeToString(w[:]) {
				return bad("step %d: String is %s, value is %x", i, s, vd)
			}
		case "equals":
			if d.Equals(a) != (vd.Cmp(va) == 0) {
				return bad("step %d: Equals(%x, %x) is %v", i, vd, va, d.Equals(a))
			}
		default:
			return nil
		}
		if !ok {
			return bad("step %d: %s did not return its receiver", i, o.Op)
		}
		fstep(st, o)
		vals[o.D] = modP(nv)
		if st[o.D].mag >= 8 {
			r.Class("magnitude 8 and more")
		}
		for k := range regs {
			raw := regs[k].Raw()
			if (k != o.D || o.Op == "string" || o.Op == "equals") && raw != before[k] {
				return bad("step %d: %s changed register %d, which it does not write", i, o.Op, k)
			}
		}
		raw := d.Raw()
		full := rawValue(raw)
		if new(big.Int).Mod(full, ref.P).Cmp(vals[o.D]) != 0 {
			return bad("step %d: %s gives %x, the exact result is %x", i, o.Op, new(big.Int).Mod(full, ref.P), vals[o.D])
		}
		if !st[o.D].norm {
			continue
		}
		if o.Op == "normalize" {
			if rawValue(before[o.D]).Cmp(ref.P) >= 0 {
				r.Class("normalize reduces")
			}
		}
		// Canonical: below the prime and every word below its base.
		if full.Cmp(ref.P) >= 0 {
			return bad("step %d: %s leaves %x, which is not below the prime", i, o.Op, full)
		}
		for k, w := range raw {
			if w >= 1<<26 {
				return bad("step %d: %s leaves word %d = %x", i, o.Op, k, w)
			}
		}
		if d.IsZero() != (vals[o.D].Sign() == 0) {
			return bad("step %d: IsZero is %v for %x", i, d.IsZero(), vals[o.D])
		}
		if d.IsOdd() != (vals[o.D].Bit(0) == 1) {
			return bad("step %d: IsOdd is %v for %x", i, d.IsOdd(), vals[o.D])
		}
		var w, p [32]byte
		vals[o.D].FillBytes(w[:])
		if bs, have := d.Bytes(); have && bs != w {
			return bad("step %d: Bytes is %x for %x", i, bs, w)
		}
		for k := range p {
			p[k] = 0xa5
		}
		if d.PutBytes(&p) && p != w {
			return bad("step %d: PutBytes is %x for %x", i, p, w)
		}
		if d.Raw() != raw {
			return bad("step %d: reading the element changed it", i)
		}
	}
	for _, o := range c.Ops {
		switch o.Op {
		case "mul", "mul2", "square", "squareval", "inverse", "normalize", "negate", "negateval":
			r.NT()
		}
	}
	return nil
}

func init() {
	reg("C03", "programs of 4 to 40 operations on four field elements within the documented magnitudes, with values around the prime, 2^256 and word boundaries, and sums steered to multiples of the prime; every intermediate is compared with exact integers; non-trivial: the program multiplies, inverts, negates or normalises", 120000, 1000000, genC03, checkC03,
		assume("operands respect the documented magnitude limits (at most 8 for products, words below 2^32 for sums)"))
}
