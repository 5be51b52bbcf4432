package ref

import (
	"errors"
	"math/big"
)

// VarInt is the canonical variable-length encoding of v.
func VarInt(v uint64) []byte {
	le := func(tag byte, n int) []byte {
		b := []byte{tag}
		for i := 0; i < n; i++ {
			b = append(b, byte(v>>(8*uint(i))))
		}
		return b
	}
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v < 1<<16:
		return le(0xfd, 2)
	case v < 1<<32:
		return le(0xfe, 4)
	}
	return le(0xff, 8)
}

var ErrWire = errors.New("malformed")

// ParseVarInt reads a canonical variable-length integer.
func ParseVarInt(b []byte) (v uint64, rest []byte, err error) {
	if len(b) == 0 {
		return 0, nil, ErrWire
	}
	n, min := 0, uint64(0)
	switch b[0] {
	case 0xfd:
		n, min = 2, 0xfd
	case 0xfe:
		n, min = 4, 1<<16
	case 0xff:
		n, min = 8, 1<<32
	default:
		return uint64(b[0]), b[1:], nil
	}
	if len(b) < 1+n {
		return 0, nil, ErrWire
	}
	for i := 0; i < n; i++ {
		v |= uint64(b[1+i]) << (8 * uint(i))
	}
	if v < min {
		return 0, nil, ErrWire
	}
	return v, b[1+n:], nil
}

func VarBytes(b []byte) []byte { return append(VarInt(uint64(len(b))), b...) }

func ParseVarBytes(b []byte, max uint64) (v, rest []byte, err error) {
	n, rest, err := ParseVarInt(b)
	if err != nil {
		return nil, nil, err
	}
	if n > max || n > uint64(len(rest)) {
		return nil, nil, ErrWire
	}
	return rest[:n], rest[n:], nil
}

func EncPt(p Pt) []byte { return append(VarBytes(p.X.Bytes()), VarBytes(p.Y.Bytes())...) }

func EncInt(v *big.Int) []byte {
	s := byte(0)
	if v.Sign() < 0 {
		s = 1
	}
	return VarBytes(append([]byte{s}, v.Bytes()...))
}

// parser reads fields; weird is set if a sign byte or a zero was encoded in a
// way that the writer never produces, for which nothing is claimed.
type parser struct {
	b     []byte
	err   error
	weird bool
}

func (p *parser) bytes(max uint64) []byte {
	if p.err != nil {
		return nil
	}
	v, rest, err := ParseVarBytes(p.b, max)
	if err != nil {
		p.err = err
		return nil
	}
	p.b = rest
	return v
}

func (p *parser) pt() Pt {
	x := p.bytes(32)
	y := p.bytes(32)
	return Pt{new(big.Int).SetBytes(x), new(big.Int).SetBytes(y)}
}

func (p *parser) int() *big.Int {
	b := p.bytes(33)
	if p.err != nil {
		return new(big.Int)
	}
	if len(b) == 0 {
		p.err = ErrWire
		return new(big.Int)
	}
	v := new(big.Int).SetBytes(b[1:])
	if b[0] > 1 {
		p.weird = true
	}
	if b[0] == 1 {
		v.Neg(v)
	}
	return v
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func (p GSPFS) Enc() []byte { return cat(EncPt(p.Base), EncPt(p.T), EncInt(p.S), EncInt(p.C)) }
func (p Equiv) Enc() []byte { return cat(EncPt(p.T1), EncPt(p.T2), EncInt(p.C), EncInt(p.S)) }
func (p Consist) Enc() []byte {
	return cat(EncPt(p.T1), EncPt(p.T2), EncInt(p.C), EncInt(p.S1), EncInt(p.S2))
}
func (p Disj) Enc() []byte {
	return cat(EncPt(p.T1), EncPt(p.T2), EncInt(p.C), EncInt(p.C1), EncInt(p.C2), EncInt(p.S1), EncInt(p.S2))
}
func (p ABC) Enc() []byte {
	return cat(EncPt(p.B), EncPt(p.Cm), EncPt(p.T1), EncPt(p.T2), EncInt(p.C), EncInt(p.J), EncInt(p.K),
		EncInt(p.L), EncPt(p.CTok), VarBytes(p.D.Enc()))
}
func (p Range) Enc() []byte {
	r := cat(EncPt(p.Agg), EncInt(p.E), VarInt(uint64(len(p.Tuples))))
	for _, t := range p.Tuples {
		r = append(r, cat(EncPt(t.C), EncInt(t.S))...)
	}
	return r
}

// Dec* return the proof, whether the input is malformed, and whether it is
// unusual in a way for which nothing is claimed about the decoded value.
func DecGSPFS(b []byte) (GSPFS, error, bool) {
	p := &parser{b: b}
	r := GSPFS{Base: p.pt(), T: p.pt(), S: p.int(), C: p.int()}
	return r, p.err, p.weird
}
func DecEquiv(b []byte) (Equiv, error, bool) {
	p := &parser{b: b}
	r := Equiv{T1: p.pt(), T2: p.pt(), C: p.int(), S: p.int()}
	return r, p.err, p.weird
}
func DecConsist(b []byte) (Consist, error, bool) {
	p := &parser{b: b}
	r := Consist{T1: p.pt(), T2: p.pt(), C: p.int(), S1: p.int(), S2: p.int()}
	return r, p.err, p.weird
}
func DecDisj(b []byte) (Disj, error, bool) {
	p := &parser{b: b}
	r := Disj{T1: p.pt(), T2: p.pt(), C: p.int(), C1: p.int(), C2: p.int(), S1: p.int(), S2: p.int()}
	return r, p.err, p.weird
}
func DecABC(b []byte) (ABC, error, bool) {
	p := &parser{b: b}
	r := ABC{B: p.pt(), Cm: p.pt(), T1: p.pt(), T2: p.pt(), C: p.int(), J: p.int(), K: p.int(), L: p.int(), CTok: p.pt()}
	d := p.bytes(100000)
	if p.err != nil {
		return r, p.err, p.weird
	}
	var err error
	var w bool
	r.D, err, w = DecDisj(d)
	return r, err, w || p.weird
}
func DecRange(b []byte) (Range, error, bool) {
	p := &parser{b: b}
	r := Range{Agg: p.pt(), E: p.int()}
	if p.err != nil {
		return r, p.err, p.weird
	}
	n, rest, err := ParseVarInt(p.b)
	if err != nil {
		return r, err, p.weird
	}
	p.b = rest
	for i := uint64(0); i < n && p.err == nil; i++ {
		r.Tuples = append(r.Tuples, RTuple{p.pt(), p.int()})
	}
	return r, p.err, p.weird
}
