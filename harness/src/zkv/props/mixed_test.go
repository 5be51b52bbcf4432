package props

import (
	"encoding/json"
	"io"
	"log"
	"math/big"
	"os"
	"sync"

	"zkv/ref"

	zk "github.com/mit-dci/zksigma"
)

// ---- C37 ----

// mixStep is a case of another property.
type mixStep struct {
	Prop  string
	Debug bool
	Case  json.RawMessage
}

type c37 struct {
	Steps []mixStep
	Move  *moving `json:",omitempty"` // or objects that change their values
	Tour  *tour   `json:",omitempty"` // or related parameters in turn
}

// tour uses sets of parameters that are alike in something, one after the
// other, for statements and proofs that are alike too.
type tour struct {
	G, H  ref.Pt
	Stops []stop
	Rnd   Rnd
}

type stop struct {
	Set  int // how the generators come from G and H
	Kind string
	Seed uint64 // of the statement
}

const tourSets = 12

func (t *tour) params(k int) ref.Params {
	g, h := t.G, t.H
	two := bi(2)
	switch k {
	case 1:
		g = ref.Neg(g)
	case 2:
		h = ref.Neg(h)
	case 3:
		g, h = h, g
	case 4: // the same y
		g = ref.Mul(g, ref.Lambda)
	case 5:
		h = ref.Mul(h, ref.Lambda)
	case 6: // bit generators moved by one
		g = ref.Mul(g, two)
	case 7:
		h = ref.Mul(h, two)
	case 8:
		g, h = ref.Neg(g), ref.Neg(h)
	case 9: // the same sum
		g, h = ref.Add(g, h), ref.Neg(h)
	case 10:
		h = ref.Mul(g, bi(5))
	case 11:
		h = g
	}
	if h.IsInf() {
		h = t.H
	}
	if g.IsInf() {
		g = t.G
	}
	return ref.MakeParams(g, h)
}

func (t *tour) check(r *Rec) (err error) {
	t.Rnd.with(func() {
		for i, s := range t.Stops {
			pr := t.params(s.Set)
			z := zcurve(pr)
			if pr.G.Eq(ref.G) && pr.H.Eq(ref.H) && s.Seed%2 == 0 {
				z = zk.TestCurve
			}
			w := (&gen{rng: chacha(s.Seed, "tour")}).witness(s.Kind, pr)
			r.Class("tour: %s", s.Kind)
			l, blind, e := libProve(z, w)
			if e != nil {
				err = bad("stop %d (parameters %d, %s): the prover refuses a true statement: %v", i+1, s.Set, s.Kind, e)
				return
			}
			pts := w.Pts
			if s.Kind == kR {
				pts = []ref.Pt{pr.Commit(w.W[0], blind)}
			}
			p, e := view(l)
			if e != nil {
				err = e
				return
			}
			if !refVerify(s.Kind, pr, pts, p) {
				err = bad("stop %d (parameters %d, %s): an honest proof fails the documented equations", i+1, s.Set, s.Kind)
				return
			}
			// by these parameters, and by the others
			for k := 0; k < 3; k++ {
				o, oz := pr, z
				if k == 1 {
					o = t.params((s.Set + 1 + i) % tourSets)
					oz = zcurve(o)
				}
				want := k != 1 || refVerify(s.Kind, o, pts, p)
				got, e := verdict(libVerifyZ(oz, l, zpts(pts)))
				if e != nil {
					err = e
					return
				}
				if got != want {
					err = bad("stop %d (parameters %d, %s), verification %d: verdict %v, want %v", i+1, s.Set, s.Kind, k+1, got, want)
					return
				}
			}
		}
	})
	return
}

func (g *gen) tour() *tour {
	t := &tour{G: ref.G, H: ref.H, Rnd: g.rnd()}
	if g.oneIn(3) {
		t.G, t.H = g.point(), g.point()
	}
	one, seed := g.oneIn(3), g.seed()
	kind := allKinds[g.weighted(10, 10, 10, 10, 8, 8, 4)]
	for i := 2 + g.pick(6); i > 0; i-- {
		s := stop{Set: g.pick(tourSets), Kind: kind, Seed: seed}
		if g.oneIn(3) {
			s.Set = 0
		}
		if !one {
			s.Kind = allKinds[g.weighted(10, 10, 10, 10, 8, 8, 4)]
		}
		if g.oneIn(3) {
			s.Seed = g.seed()
		}
		t.Stops = append(t.Stops, s)
	}
	return t
}

// enumC37 goes through all sets with each kind, both ways.
func enumC37() []c37 {
	var r []c37
	for _, k := range allKinds {
		for back := 0; back < 2; back++ {
			t := &tour{G: ref.G, H: ref.H, Rnd: Rnd{Seed: 5}}
			for pass := 0; pass < 2; pass++ {
				for i := 0; i < tourSets; i++ {
					s := i
					if back == 1 {
						s = tourSets - 1 - i
					}
					t.Stops = append(t.Stops, stop{Set: s, Kind: k, Seed: 4})
				}
			}
			r = append(r, c37{Tour: t})
		}
	}
	return r
}

// moving is a history of operations on the same objects, which hold the values
// of one world and then those of another.
type moving struct {
	A, B World
	Ops  []hop
	Each bool // both values for each operation in turn
	Rnd  Rnd
	// Near makes B the same as A but for one field of each proof.
	Near  bool  `json:",omitempty"`
	Field []int `json:",omitempty"`
}

// tamper changes a field of each proof of the world.
func (m *moving) tamper(w *world) error {
	for i, f := range w.prfs {
		p, err := view(f.l)
		if err != nil {
			return err
		}
		p = p.clone()
		k := pick(m.Field, i) % (len(p.P) + len(p.S))
		if k < len(p.P) {
			p.P[k] = ref.Add(p.P[k], ref.G)
		} else {
			k -= len(p.P)
			p.S[k] = ref.ModN(new(big.Int).Add(p.S[k], bi(1)))
		}
		if w.prfs[i].l, err = libMake(kindOf(f.l), p); err != nil {
			return bad("making a changed %s proof: %v", kindOf(f.l), err)
		}
	}
	return nil
}

func (g *gen) moving() *moving {
	m := &moving{A: g.world(2, g.oneIn(8)), Each: g.flag(), Rnd: g.rnd()}
	m.A.Apart = true
	if g.oneIn(3) {
		m.B, m.Near = m.A, true
		for range m.A.Wits {
			m.Field = append(m.Field, g.pick(90))
		}
		for i := 2 + g.pick(5); i > 0; i-- {
			m.Ops = append(m.Ops, hop{Op: []string{"verify", "encode"}[g.weighted(4, 1)], A: g.pick(8)})
		}
		return m
	}
	m.B = World{Own: m.A.Own, Seed: g.seed(), Apart: true}
	pr := ref.Std
	if m.B.Own {
		_, m.B.G, m.B.H = g.params()
		if m.B.H.IsInf() {
			m.B.H = ref.G.Copy()
		}
		pr = ref.MakeParams(m.B.G, m.B.H)
	}
	for range m.A.Ints {
		m.B.Ints = append(m.B.Ints, g.anyInt(true))
	}
	for range m.A.Pts {
		m.B.Pts = append(m.B.Pts, g.pointI())
	}
	for _, b := range m.A.Blobs {
		n := len(b)
		if g.oneIn(3) {
			n = 1 + g.pick(40)
		}
		m.B.Blobs = append(m.B.Blobs, g.bytes(n))
	}
	for _, w := range m.A.Wits {
		m.B.Wits = append(m.B.Wits, g.witness(w.Kind, pr))
	}
	for i := 2 + g.pick(7); i > 0; i-- {
		h := g.hop(true)
		m.Ops = append(m.Ops, h)
		if g.flag() {
			m.Ops = append(m.Ops, h)
		}
	}
	return m
}

// assign gives the proof object to the values of from, number by number.
func assign(to, from lib) {
	set := func(a, b *big.Int) { a.Set(b) }
	pt := func(a, b zk.ECPoint) { set(a.X, b.X); set(a.Y, b.Y) }
	switch p := to.(type) {
	case *zk.GSPFSProof:
		q := from.(*zk.GSPFSProof)
		pt(p.Base, q.Base)
		pt(p.RandCommit, q.RandCommit)
		set(p.HiddenValue, q.HiddenValue)
		set(p.Challenge, q.Challenge)
	case *zk.EquivalenceProof:
		q := from.(*zk.EquivalenceProof)
		pt(p.UG, q.UG)
		pt(p.UH, q.UH)
		set(p.HiddenValue, q.HiddenValue)
		set(p.Challenge, q.Challenge)
	case *zk.ConsistencyProof:
		q := from.(*zk.ConsistencyProof)
		pt(p.T1, q.T1)
		pt(p.T2, q.T2)
		set(p.Challenge, q.Challenge)
		set(p.S1, q.S1)
		set(p.S2, q.S2)
	case *zk.DisjunctiveProof:
		q := from.(*zk.DisjunctiveProof)
		pt(p.T1, q.T1)
		pt(p.T2, q.T2)
		set(p.C, q.C)
		set(p.C1, q.C1)
		set(p.C2, q.C2)
		set(p.S1, q.S1)
		set(p.S2, q.S2)
	case *zk.RangeProof:
		q := from.(*zk.RangeProof)
		pt(p.ProofAggregate, q.ProofAggregate)
		set(p.ProofE, q.ProofE)
		if len(p.ProofTuples) != len(q.ProofTuples) {
			p.ProofTuples = q.ProofTuples
			return
		}
		for k := range p.ProofTuples {
			pt(p.ProofTuples[k].C, q.ProofTuples[k].C)
			set(p.ProofTuples[k].S, q.ProofTuples[k].S)
		}
	case *zk.ABCProof: // it has private fields
		*p = *from.(*zk.ABCProof)
	case libI:
		*p.InequalityProof = *from.(libI).InequalityProof
	}
}

// become gives the objects of w the values of v, which has the same shape.
func (w *world) become(v *world) {
	set := func(a, b *big.Int) { a.Set(b) }
	pt := func(a, b zk.ECPoint) { set(a.X, b.X); set(a.Y, b.Y) }
	for i := 4; i < len(w.ints); i++ {
		set(w.ints[i], v.ints[i])
	}
	if w.own {
		pt(w.z.G, v.z.G)
		pt(w.z.H, v.z.H)
		for i := range w.z.HPoints {
			pt(w.z.HPoints[i], v.z.HPoints[i])
		}
	}
	for i := 5; i < len(w.pts); i++ {
		pt(w.pts[i], v.pts[i])
	}
	for i := range w.blobs {
		w.blobs[i] = append(w.blobs[i][:0], v.blobs[i]...)
	}
	for i := range w.stmts {
		w.stmts[i].side = v.stmts[i].side
	}
	for i := range w.prfs {
		assign(w.prfs[i].l, v.prfs[i].l)
	}
	for i, k := range w.keys {
		set(k.D, v.keys[i].D)
		set(k.X, v.keys[i].X)
		set(k.Y, v.keys[i].Y)
	}
	for i, s := range w.sigs {
		set(s.R, v.sigs[i].R)
		set(s.S, v.sigs[i].S)
	}
}

func (m *moving) check(r *Rec) (err error) {
	var ws [2][2]*world // the values, and two worlds of objects for each
	for i, c := range []World{m.A, m.B} {
		for k := range ws[i] {
			if ws[i][k], err = c.build(); err != nil {
				return err
			}
			if i == 1 && m.Near {
				if err = m.tamper(ws[i][k]); err != nil {
					return err
				}
			}
		}
	}
	w := ws[0][0] // the objects that move
	orig, e := m.A.build()
	if e != nil {
		return e
	}
	vals := [2]*world{orig, ws[1][0]}
	fresh := [2]*world{ws[0][1], ws[1][1]}
	if len(vals[0].sigs) != len(vals[1].sigs) {
		for _, v := range []*world{w, vals[0], vals[1], fresh[0], fresh[1]} {
			v.sigs = nil
		}
	}
	res := [3][]string{}
	m.Rnd.with(func() {
		do := func(phase, i int) bool {
			s, _, e := w.do(m.Ops[i])
			if e != nil {
				err = bad("operation %d (%s) on objects that hold their value number %d: %v", i, m.Ops[i].Op, phase+1, e)
				return false
			}
			res[phase] = append(res[phase], s)
			return true
		}
		if m.Each {
			for i := range m.Ops {
				for phase := 0; phase < 3; phase++ {
					w.become(vals[phase%2])
					if !do(phase, i) {
						return
					}
				}
			}
		} else {
			for phase := 0; phase < 3; phase++ {
				w.become(vals[phase%2])
				for i := range m.Ops {
					if !do(phase, i) {
						return
					}
				}
			}
		}
		for i, h := range m.Ops {
			r.Class("changing objects: %s", h.Op)
			for phase := 0; phase < 3; phase++ {
				s, _, e := fresh[phase%2].do(h)
				if e != nil {
					err = bad("operation %d (%s) on fresh objects: %v", i, h.Op, e)
					return
				}
				if s != res[phase][i] {
					err = bad("operation %d (%s) gave %s on objects that hold their value number %d, and %s on fresh objects of this value", i, h.Op, res[phase][i], phase+1, s)
					return
				}
			}
		}
	})
	return err
}

func single(id string) *prop {
	p := props[id]
	if p.single != nil {
		return p.single
	}
	return p
}

// mixIDs are properties whose checks compare each result with the reference;
// the weights keep the slow ones rare.
var mixIDs = []string{"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C24", "C25", "C26", "C27", "C30", "C31", "C32", "C33", "C34", "C35"}
var mixW = []int{16, 16, 4, 8, 8, 6, 6, 6, 6, 6, 4, 4, 1, 6, 6, 6, 6, 4, 4, 1, 6, 6, 6, 4, 3, 8, 8, 6, 8, 6}

// pureIDs are those that leave the process's random source alone.
var pureIDs = []string{"C01", "C02", "C04", "C07", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C31", "C32", "C33", "C34"}
var pureW = []int{8, 8, 2, 3, 4, 4, 4, 4, 3, 3, 1, 6, 6, 3, 6}

func (g *gen) mix(ids []string, ws []int) mixStep {
	id := ids[g.weighted(ws...)]
	js, err := json.Marshal(single(id).gen(g))
	if err != nil {
		panic(err)
	}
	return mixStep{Prop: id, Case: js}
}

func genC37(g *gen) c37 {
	g.mem = &memory{}
	var c c37
	if g.oneIn(3) {
		c.Move = g.moving()
		return c
	}
	if g.oneIn(8) {
		c.Tour = g.tour()
		return c
	}
	var ids []string
	var ws []int
	if g.flag() { // few kinds, so that they meet
		for i := 2 + g.pick(2); i > 0; i-- {
			k := g.weighted(mixW...)
			ids, ws = append(ids, mixIDs[k]), append(ws, 1)
		}
	} else {
		ids, ws = mixIDs, mixW
	}
	for i := 2 + g.pick(7); i > 0; i-- {
		s := g.mix(ids, ws)
		s.Debug = g.oneIn(4)
		c.Steps = append(c.Steps, s)
	}
	if g.flag() { // one of them again
		c.Steps = append(c.Steps, c.Steps[g.pick(len(c.Steps))])
	}
	return c
}

// debugging turns the library's debug output on, and away from the terminal.
func debugging() func() {
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	flags := log.Flags()
	os.Stdout = null
	log.SetOutput(io.Discard)
	*zk.DEBUG = true
	return func() {
		*zk.DEBUG = false
		os.Stdout = out
		log.SetOutput(os.Stderr)
		log.SetFlags(flags)
		null.Close()
	}
}

func (s mixStep) run(r *Rec) error {
	p := single(s.Prop)
	c, err := p.decode(s.Case)
	if err != nil {
		panic(err)
	}
	// A known finding of another property is not this one's business.
	sub := &Rec{classes: map[string]int{}, findings: map[string]string{}}
	if s.Debug {
		defer debugging()()
	}
	return p.check(c, sub)
}

func checkC37(c c37, r *Rec) error {
	if c.Move != nil {
		r.NT()
		return c.Move.check(r)
	}
	if c.Tour != nil {
		r.NT()
		return c.Tour.check(r)
	}
	for i, s := range c.Steps {
		if err := s.run(r); err != nil {
			return bad("step %d (%s, debug output %v): %v", i+1, s.Prop, s.Debug, err)
		}
		r.Class("%s", s.Prop)
		if s.Debug {
			r.Class("with debug output")
		}
	}
	r.NT()
	return nil
}

// runMix runs cases of other properties in goroutines.
func runMix(runs [][]mixStep, r *Rec) error {
	errs := make([]error, len(runs))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = bad("panic: %v", x)
				}
			}()
			<-start
			for k, s := range runs[i] {
				if err := s.run(nil); err != nil {
					errs[i] = bad("goroutine %d, step %d (%s), beside others: %v", i, k+1, s.Prop, err)
					return
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i, e := range errs {
		if e != nil {
			return e
		}
		for _, s := range runs[i] {
			r.Class("beside others: %s", s.Prop)
		}
	}
	return nil
}

func init() {
	reg("C37", "histories of 2 to 9 cases of the other properties, which share points, numbers and byte strings, on the standard and other parameters, valid, failing and malformed, with and without debug output, operations on related parameters in turn, and operations on objects whose values are changed in place between the calls; every result is compared with the reference; every case counts", 900, 4000, genC37, checkC37, enum(enumC37))
}
