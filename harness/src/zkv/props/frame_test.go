// Package props states every property of /verif/properties.jsonl as a check
// over generated cases. A case is a JSON value; a check is a function of the
// case alone, so a saved case replays without the generator.
package props

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what a case was like.
type Rec struct {
	classes  map[string]int
	findings map[string]string
	nt       bool
}

// Class counts the case under a label.
func (r *Rec) Class(format string, a ...interface{}) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	r.classes[format]++
}

// NT marks the case as non-trivial by the property's rule.
func (r *Rec) NT() { r.nt = true }

// Finding reports a failure that has an identifier of its own; the driver
// treats it as a violation unless the known-findings file lists it.
func (r *Rec) Finding(id, what string) { r.findings[id] = what }

type prop struct {
	id, rule string
	quick    int // cases per shard
	thorough int
	gen      func(g *gen) interface{}
	enum     func() []interface{}
	decode   func([]byte) (interface{}, error)
	check    func(c interface{}, r *Rec) error
	assume   []string
	single   *prop // the property before seq
}

var props = map[string]*prop{}

type option func(*prop)

func enum[T any](f func() []T) option {
	return func(p *prop) {
		p.enum = func() []interface{} {
			var r []interface{}
			for _, c := range f() {
				r = append(r, c)
			}
			return r
		}
	}
}

// lazyEnum enumerates n cases, each made only by the shard that runs it.
func lazyEnum[T any](n int, at func(i int) T) option {
	return func(p *prop) {
		old := p.enum
		p.enum = func() []interface{} {
			var r []interface{}
			if old != nil {
				r = old()
			}
			for i := 0; i < n; i++ {
				r = append(r, func() interface{} { return at(i) })
			}
			return r
		}
	}
}

// seqCase is a history of cases that share values: whatever the library keeps
// between calls has a chance to show.
type seqCase struct{ Steps []interface{} }

// seq turns the cases of a property into histories of up to four. The values
// of a later case are often those of an earlier one, or related to them.
func seq(p *prop) {
	one := *p
	p.single = &one
	make, check, decode, en := p.gen, p.check, p.decode, p.enum
	p.gen = func(g *gen) interface{} {
		g.mem = &memory{}
		c := seqCase{}
		n := 1
		if g.flag() {
			n = 2 + g.pick(3)
		}
		for i := 0; i < n; i++ {
			c.Steps = append(c.Steps, make(g))
		}
		return c
	}
	p.check = func(c interface{}, r *Rec) error {
		s := c.(seqCase)
		for i, c := range s.Steps {
			if err := check(c, r); err != nil {
				if i > 0 {
					err = bad("case %d of a history: %v", i+1, err)
				}
				return err
			}
		}
		r.Class("history of %d", len(s.Steps))
		return nil
	}
	p.decode = func(b []byte) (interface{}, error) {
		var raw struct{ Steps []json.RawMessage }
		if err := json.Unmarshal(b, &raw); err != nil {
			return nil, err
		}
		var s seqCase
		for _, r := range raw.Steps {
			c, err := decode(r)
			if err != nil {
				return nil, err
			}
			s.Steps = append(s.Steps, c)
		}
		return s, nil
	}
	if en != nil {
		p.enum = func() []interface{} {
			var r []interface{}
			for _, c := range en() {
				if f, ok := c.(func() interface{}); ok {
					r = append(r, func() interface{} { return seqCase{[]interface{}{f()}} })
				} else {
					r = append(r, seqCase{[]interface{}{c}})
				}
			}
			return r
		}
	}
}

// cross lets a later case of a history be an earlier one with some fields of a
// new one. Only for cases whose fields can be chosen independently.
func cross(p *prop) {
	seq(p)
	single, inner := p.single, p.gen
	p.gen = func(g *gen) interface{} {
		c := inner(g).(seqCase)
		for i := 1; i < len(c.Steps); i++ {
			if g.flag() {
				c.Steps[i] = crossed(g, single, c.Steps[g.pick(i)], c.Steps[i])
			}
		}
		return c
	}
}

func crossed(g *gen, p *prop, old, fresh interface{}) interface{} {
	fields := func(c interface{}) map[string]json.RawMessage {
		b, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		m := map[string]json.RawMessage{}
		if err := json.Unmarshal(b, &m); err != nil {
			panic(err)
		}
		return m
	}
	a, b := fields(old), fields(fresh)
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for n := 1 + g.pick(2); n > 0; n-- {
		k := ks[g.pick(len(ks))]
		a[k] = b[k]
	}
	js, err := json.Marshal(a)
	if err != nil {
		panic(err)
	}
	c, err := p.decode(js)
	if err != nil {
		panic(err)
	}
	return c
}

func assume(s ...string) option { return func(p *prop) { p.assume = append(p.assume, s...) } }

func reg[T any](id, rule string, quick, thorough int, g func(*gen) T, check func(T, *Rec) error, opts ...option) {
	p := &prop{id: id, rule: rule, quick: quick, thorough: thorough,
		gen:   func(gg *gen) interface{} { return g(gg) },
		check: func(c interface{}, r *Rec) error { return check(c.(T), r) },
		decode: func(b []byte) (interface{}, error) {
			var c T
			err := json.Unmarshal(b, &c)
			return c, err
		}}
	for _, o := range opts {
		o(p)
	}
	props[id] = p
}

// bad formats a violation.
func bad(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }

type result struct {
	Property   string            `json:"property"`
	Evals      int               `json:"evaluations"`
	Enumerated int               `json:"enumerated"`
	Saved      int               `json:"saved"`
	NonTrivial int               `json:"nontrivial"`
	Skipped    int               `json:"not_run_for_time"`
	Classes    map[string]int    `json:"classes"`
	Findings   map[string]string `json:"findings"`
	Samples    []json.RawMessage `json:"samples"`
	Hashes     []string          `json:"-"`
	Rule       string            `json:"rule"`
	Assume     []string          `json:"assumptions"`
	GenPanic   string            `json:"generator_panic,omitempty"`
	Error      string            `json:"error,omitempty"`
	Case       json.RawMessage   `json:"case,omitempty"`
}

type runner struct {
	p        *prop
	dir      string
	shard    int
	shards   int
	inflight *os.File
	res      result
	seen     map[uint64]bool
	failCase []byte
	failErr  error
	started  atomic.Int64
	cur      atomic.Int64 // number of the case that is running, 0 if none
	deadline time.Time
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func (rn *runner) one(c interface{}) (err error) {
	js, jerr := json.Marshal(c)
	if jerr != nil {
		panic(jerr)
	}
	// What is running, for the driver to report if the process dies.
	rn.inflight.WriteAt(js, 0)
	rn.inflight.Truncate(int64(len(js)))

	rec := &Rec{classes: map[string]int{}, findings: rn.res.Findings}
	rn.cur.Store(rn.started.Add(1))
	err = rn.safe(c, rec)
	rn.cur.Store(0)
	rn.res.Evals++
	for k, n := range rec.classes {
		rn.res.Classes[k] += n
	}
	if rec.nt {
		rn.res.NonTrivial++
		h := sha256.Sum256(js)
		rn.seen[binary.BigEndian.Uint64(h[:8])] = true
	}
	if len(rn.res.Samples) < 3 && rec.nt && len(js) < 3000 && (rn.res.Evals%7 == 0 || rn.res.Evals > 50) {
		rn.res.Samples = append(rn.res.Samples, js)
	}
	if err != nil {
		rn.failCase, rn.failErr = js, err
	}
	return err
}

// make generates a case. A panic of the generator is the harness's own fault.
func (rn *runner) make(rt *rapid.T) interface{} {
	defer func() {
		if x := recover(); x != nil {
			if rn.res.GenPanic == "" && !strings.Contains(fmt.Sprintf("%T", x), "rapid.") {
				rn.res.GenPanic = fmt.Sprintf("%v\n%s", x, trimStack(debug.Stack()))
			}
			panic(x)
		}
	}()
	return rn.p.gen(newGen(rt))
}

func (rn *runner) safe(c interface{}, rec *Rec) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = bad("panic: %v\n%s", x, trimStack(debug.Stack()))
		}
	}()
	return rn.p.check(c, rec)
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 30 {
		ls = ls[:30]
	}
	return strings.Join(ls, "\n")
}

func (rn *runner) save() {
	if rn.failErr != nil {
		rn.res.Error = rn.failErr.Error()
		rn.res.Case = rn.failCase
	}
	b, err := json.Marshal(rn.res)
	if err != nil {
		panic(err)
	}
	var hs []string
	for h := range rn.seen {
		hs = append(hs, strconv.FormatUint(h, 16))
	}
	sort.Strings(hs)
	os.WriteFile(filepath.Join(rn.dir, fmt.Sprintf("hashes-%d", rn.shard)), []byte(strings.Join(hs, "\n")), 0644)
	if err := os.WriteFile(filepath.Join(rn.dir, fmt.Sprintf("result-%d.json", rn.shard)), b, 0644); err != nil {
		panic(err)
	}
}

// watch ends the process if one case runs for hangTicks seconds of this
// process's own time (a tick that is late counts once).
func (rn *runner) watch(hangTicks int) {
	last, n := int64(0), 0
	for {
		time.Sleep(time.Second)
		c := rn.cur.Load()
		if c != 0 && c == last {
			n++
		} else {
			last, n = c, 0
		}
		if n > hangTicks {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("ZKV-HANG: a case ran for %d seconds\n%s\n", n, buf)
			os.Exit(7)
		}
	}
}

// TestProp runs one shard of one property, or replays one case.
func TestProp(t *testing.T) {
	id := os.Getenv("ZKV_PROP")
	if id == "" {
		t.Skip("ZKV_PROP not set")
	}
	p := props[id]
	if p == nil {
		t.Fatalf("no property %s", id)
	}
	rn := &runner{p: p, dir: os.Getenv("ZKV_DIR"), shard: envInt("ZKV_SHARD", 0), shards: envInt("ZKV_SHARDS", 1), seen: map[uint64]bool{}}
	rn.res = result{Property: id, Classes: map[string]int{}, Findings: map[string]string{}, Rule: p.rule, Assume: p.assume}
	var err error
	rn.inflight, err = os.Create(filepath.Join(rn.dir, fmt.Sprintf("inflight-%d.json", rn.shard)))
	if err != nil {
		t.Fatal(err)
	}
	go rn.watch(envInt("ZKV_HANG", 240))

	if f := os.Getenv("ZKV_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		c, err := p.decode(b)
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < envInt("ZKV_REPEAT", 1) && rn.failErr == nil; i++ {
			rn.one(c)
		}
		rn.save()
		return
	}

	rn.deadline = time.Now().Add(time.Duration(envInt("ZKV_BUDGET", 300)) * time.Second)
	// Saved cases: shrunk failures of earlier trees.
	saved, _ := filepath.Glob(filepath.Join(os.Getenv("ZKV_SAVED"), "*.json"))
	sort.Strings(saved)
	for i, f := range saved {
		if os.Getenv("ZKV_SAVED") == "" || i%rn.shards != rn.shard {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		c, err := p.decode(b)
		if err != nil {
			t.Fatalf("%s: %v", f, err)
		}
		rn.res.Saved++
		if rn.one(c) != nil {
			rn.save()
			return
		}
	}
	if p.enum != nil {
		for i, c := range p.enum() {
			if i%rn.shards != rn.shard {
				continue
			}
			if time.Now().After(rn.deadline) {
				rn.res.Skipped++
				continue
			}
			rn.res.Enumerated++
			if f, ok := c.(func() interface{}); ok {
				c = f()
			}
			if rn.one(c) != nil {
				rn.save()
				return
			}
		}
	}
	if p.gen != nil {
		done := make(chan bool)
		go func() { // rapid ends the goroutine when it has shrunk a failure
			defer close(done)
			rapid.Check(&quietTB{T: t}, func(rt *rapid.T) {
				if time.Now().After(rn.deadline) && rn.failErr == nil {
					rn.res.Skipped++
					return
				}
				if err := rn.one(rn.make(rt)); err != nil {
					rt.Fatalf("violation")
				}
			})
		}()
		<-done
	}
	rn.save()
}

// quietTB keeps rapid from failing the Go test: the result file says it all.
type quietTB struct {
	*testing.T
	failed bool
}

func (q *quietTB) Errorf(string, ...interface{}) { q.failed = true }
func (q *quietTB) Error(...interface{})          { q.failed = true }
func (q *quietTB) Fatalf(string, ...interface{}) { q.failed = true; runtime.Goexit() }
func (q *quietTB) Fatal(...interface{})          { q.failed = true; runtime.Goexit() }
func (q *quietTB) FailNow()                      { q.failed = true; runtime.Goexit() }
func (q *quietTB) Fail()                         { q.failed = true }
func (q *quietTB) Failed() bool                  { return q.failed }
func (q *quietTB) Logf(string, ...interface{})   {}
func (q *quietTB) Log(...interface{})            {}

// ListProps prints the ids and case counts for the driver.
func TestList(t *testing.T) {
	if os.Getenv("ZKV_LIST") == "" {
		t.Skip()
	}
	type e struct{ Quick, Thorough int }
	m := map[string]e{}
	for id, p := range props {
		m[id] = e{p.quick, p.thorough}
	}
	b, _ := json.Marshal(m)
	fmt.Println("ZKV-LIST " + string(b))
}

// ---- random source ----

// stream replaces crypto/rand.Reader. It is deterministic in its seed, can
// emit chosen 32-byte blocks, fail after a number of bytes, and split reads.
type stream struct {
	mu       sync.Mutex
	src      *mrand.ChaCha8
	pick     *mrand.Rand
	edge     int  // one in edge 32-byte reads gives an edge scalar; 0: never
	fail     int  // fail once this many bytes were delivered; <0: never
	chunk    int  // deliver at most this many bytes per Read; 0: all
	constant int  // >0: every byte is this value
	once     bool // fail once only
	failures int
	n        int // bytes delivered
}

func chacha(seed uint64, label string) *mrand.ChaCha8 {
	h := sha256.New()
	binary.Write(h, binary.BigEndian, seed)
	io.WriteString(h, label)
	var k [32]byte
	copy(k[:], h.Sum(nil))
	return mrand.NewChaCha8(k)
}

func newStream(seed uint64) *stream {
	return &stream{src: chacha(seed, "stream"), pick: mrand.New(chacha(seed, "pick")), fail: -1}
}

// install makes s the system random source; the returned function undoes it.
func (s *stream) install() func() {
	old := crand.Reader
	crand.Reader = s
	return func() { crand.Reader = old }
}

var errEntropy = fmt.Errorf("entropy source failed")

func (s *stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	want := len(p)
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	if s.fail >= 0 && s.n+len(p) > s.fail {
		p = p[:s.fail-s.n]
		s.src.Read(p)
		s.n += len(p)
		s.failures++
		if s.once {
			s.fail = -1
		}
		return len(p), errEntropy
	}
	s.src.Read(p)
	if s.constant > 0 {
		for i := range p {
			p[i] = byte(s.constant)
		}
	}
	if s.edge > 0 && want == 32 && len(p) == 32 && s.pick.IntN(s.edge) == 0 {
		edgeNonces[s.pick.IntN(len(edgeNonces))].FillBytes(p)
	}
	s.n += len(p)
	return len(p), nil
}

// Hex marshals bytes as hexadecimal.
type Hex []byte

func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *Hex) UnmarshalText(b []byte) error {
	v, err := hex.DecodeString(string(b))
	*h = v
	return err
}

func bi(v int64) *big.Int { return big.NewInt(v) }
func cp(v *big.Int) *big.Int {
	return new(big.Int).Set(v)
}
