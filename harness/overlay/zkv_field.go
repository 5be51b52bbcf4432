package btcec

// Added to the package by an overlay when the field arithmetic is checked.
// Methods the package's own tests use are called directly; the others are
// looked up, so that a tree without one of them still builds.

type ZkvField struct{ f fieldVal }

func (z *ZkvField) Raw() [10]uint32 { return z.f.n }

func (z *ZkvField) Set(v *ZkvField) bool {
	if m, ok := interface{}(&z.f).(interface{ Set(*fieldVal) *fieldVal }); ok {
		return m.Set(&v.f) == &z.f
	}
	z.f = v.f
	return true
}

func (z *ZkvField) SetBytes(b *[32]byte) (bool, bool) {
	if m, ok := interface{}(&z.f).(interface {
		SetBytes(*[32]byte) *fieldVal
	}); ok {
		return m.SetBytes(b) == &z.f, true
	}
	return true, false
}

func (z *ZkvField) SetByteSlice(b []byte) (bool, bool) {
	if m, ok := interface{}(&z.f).(interface{ SetByteSlice([]byte) *fieldVal }); ok {
		return m.SetByteSlice(b) == &z.f, true
	}
	return true, false
}

func (z *ZkvField) NegateVal(v *ZkvField, mag uint32) bool {
	if m, ok := interface{}(&z.f).(interface {
		NegateVal(*fieldVal, uint32) *fieldVal
	}); ok {
		return m.NegateVal(&v.f, mag) == &z.f
	}
	z.f = v.f
	return z.f.Negate(mag) == &z.f
}

func (z *ZkvField) Mul2(a, b *ZkvField) bool {
	if m, ok := interface{}(&z.f).(interface {
		Mul2(*fieldVal, *fieldVal) *fieldVal
	}); ok {
		return m.Mul2(&a.f, &b.f) == &z.f
	}
	t := a.f
	t.Mul(&b.f)
	z.f = t
	return true
}

func (z *ZkvField) SquareVal(v *ZkvField) bool {
	if m, ok := interface{}(&z.f).(interface{ SquareVal(*fieldVal) *fieldVal }); ok {
		return m.SquareVal(&v.f) == &z.f
	}
	z.f = v.f
	return z.f.Square() == &z.f
}

func (z *ZkvField) Bytes() ([32]byte, bool) {
	if m, ok := interface{}(&z.f).(interface{ Bytes() *[32]byte }); ok {
		return *m.Bytes(), true
	}
	return [32]byte{}, false
}

func (z *ZkvField) PutBytes(b *[32]byte) bool {
	if m, ok := interface{}(&z.f).(interface{ PutBytes(*[32]byte) }); ok {
		m.PutBytes(b)
		return true
	}
	return false
}

func (z *ZkvField) SetHex(s string) bool        { return z.f.SetHex(s) == &z.f }
func (z *ZkvField) SetInt(u uint) bool          { return z.f.SetInt(u) == &z.f }
func (z *ZkvField) Zero()                       { z.f.Zero() }
func (z *ZkvField) Normalize() bool             { return z.f.Normalize() == &z.f }
func (z *ZkvField) IsZero() bool                { return z.f.IsZero() }
func (z *ZkvField) IsOdd() bool                 { return z.f.IsOdd() }
func (z *ZkvField) Equals(v *ZkvField) bool     { return z.f.Equals(&v.f) }
func (z *ZkvField) Negate(mag uint32) bool      { return z.f.Negate(mag) == &z.f }
func (z *ZkvField) AddInt(u uint) bool          { return z.f.AddInt(u) == &z.f }
func (z *ZkvField) Add(v *ZkvField) bool        { return z.f.Add(&v.f) == &z.f }
func (z *ZkvField) Add2(a, b *ZkvField) bool    { return z.f.Add2(&a.f, &b.f) == &z.f }
func (z *ZkvField) MulInt(u uint) bool          { return z.f.MulInt(u) == &z.f }
func (z *ZkvField) Mul(v *ZkvField) bool        { return z.f.Mul(&v.f) == &z.f }
func (z *ZkvField) Square() bool                { return z.f.Square() == &z.f }
func (z *ZkvField) Inverse() bool               { return z.f.Inverse() == &z.f }
func (z *ZkvField) String() string              { return z.f.String() }
