package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
)

// ---- deterministic randomness ----

// Rng is a splitmix64 generator. Everything random in the harness comes from
// one of these, seeded from (VERIF_SEED, property, case index).
type Rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *Rng {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix64(s ^ p)
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo, hi].
func (r *Rng) In(lo, hi int) int   { return lo + r.N(hi-lo+1) }
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Pick(xs ...int) int  { return xs[r.N(len(xs))] }
func (r *Rng) PickS(xs ...string) string {
	return xs[r.N(len(xs))]
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// ---- cases ----

// Op is one step of a case.
type Op struct {
	F string `json:"f"`
	A []int  `json:"a,omitempty"`
	B []byte `json:"b,omitempty"`
}

func (o Op) a(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

func (o Op) String() string {
	s := o.F
	for _, x := range o.A {
		s += fmt.Sprintf(" %d", x)
	}
	if o.B != nil {
		s += fmt.Sprintf(" %q", string(o.B))
	}
	return s
}

// Case is a test case as data. It can be written to a replay file and run
// again.
type Case struct {
	Prop string         `json:"prop"`
	Idx  int            `json:"idx"`
	Kind string         `json:"kind"`
	P    map[string]int `json:"p,omitempty"`
	Ops  []Op           `json:"ops,omitempty"`
}

func (c *Case) p(name string) int { return c.P[name] }

func (c *Case) clone() *Case {
	d := *c
	d.P = map[string]int{}
	for k, v := range c.P {
		d.P[k] = v
	}
	d.Ops = append([]Op(nil), c.Ops...)
	return &d
}

func (c *Case) String() string {
	keys := make([]string, 0, len(c.P))
	for k := range c.P {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s #%d %s {", c.Prop, c.Idx, c.Kind)
	for i, k := range keys {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%s=%d", k, c.P[k])
	}
	sb.WriteString("}:")
	for i, o := range c.Ops {
		if i >= 40 {
			fmt.Fprintf(&sb, " ... (%d ops)", len(c.Ops))
			break
		}
		sb.WriteString(" " + o.String() + ";")
	}
	return sb.String()
}

// ---- properties ----

// Family is one kind of case list of a property.
type Family struct {
	Name string
	N    func(thorough bool) int
	Gen  func(r *Rng, j int, thorough bool) *Case
}

// Property ties the case lists of a property to the code that runs and judges
// a case.
type Property struct {
	ID       string
	Race     bool // workers are built with the race detector
	Cover    bool // needs a build that counts the steps of the library
	Procs    int  // GOMAXPROCS of a worker
	Shards   int  // number of workers, 8 if zero
	Rule     string
	Families []Family
	Run      func(c *Case, m *Mon)
	// Repeat is how often a replay runs the case (schedule dependent cases).
	Repeat int
}

var registry = map[string]*Property{}

func register(p *Property) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

func (p *Property) count(thorough bool) int {
	n := 0
	for _, f := range p.Families {
		n += f.N(thorough)
	}
	return n
}

// gen makes case i. It is a pure function of its arguments.
func (p *Property) gen(seed uint64, i int, thorough bool) *Case {
	j := i
	for _, f := range p.Families {
		n := f.N(thorough)
		if j < n {
			c := f.Gen(newRng(seed, strHash(p.ID), strHash(f.Name), uint64(j)), j, thorough)
			c.Prop = p.ID
			c.Idx = i
			if c.P == nil {
				c.P = map[string]int{}
			}
			return c
		}
		j -= n
	}
	panic("case index out of range")
}

func constN(quick, thorough int) func(bool) int {
	return func(t bool) int {
		if t {
			return thorough
		}
		return quick
	}
}

// ---- monitor ----

// Violation is raised (by panic) when an observation contradicts the oracle.
type Violation struct {
	Sig  string
	Text string
}

// Mon collects what a case observed.
type Mon struct {
	feats      map[string]int64
	sig        uint64
	nontrivial bool
	ops        int64
	audits     int64
	trail      []string
	step       int
}

func newMon() *Mon {
	return &Mon{feats: map[string]int64{}, sig: 0xcbf29ce484222325}
}

// Fail reports a violation and ends the case.
func (m *Mon) Fail(format string, args ...interface{}) {
	panic(&Violation{Text: fmt.Sprintf(format, args...)})
}

func (m *Mon) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		panic(&Violation{Text: fmt.Sprintf(format, args...)})
	}
}

// Feat counts a named feature of the execution.
func (m *Mon) Feat(name string) { m.feats[name]++ }

func (m *Mon) FeatN(name string, n int) { m.feats[name] += int64(n) }

// Obs mixes an observation into the signature of the case.
func (m *Mon) Obs(x uint64) { m.sig = mix64(m.sig ^ x) }

func (m *Mon) ObsS(s string) { m.Obs(strHash(s)) }

// Nontrivial marks the case as meeting the property's rule.
func (m *Mon) Nontrivial() { m.nontrivial = true }

// runCase executes a case and returns the violation, if any.
// config is the configuration of a case as text.
func (c *Case) config() string {
	ks := make([]string, 0, len(c.P))
	for k := range c.P {
		if k != "aud" && k != "us" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	b := ""
	for _, k := range ks {
		b += fmt.Sprintf("%s=%d ", k, c.P[k])
	}
	return b
}

func runCase(p *Property, c *Case) (m *Mon, v *Violation) {
	m = newMon()
	m.ObsS(c.Kind)
	m.ObsS(c.config())
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(*Violation); ok {
				v = x
			} else {
				v = &Violation{Text: fmt.Sprintf("panic: %s\n%s", panicText(e), trimStack(debug.Stack()))}
			}
			if m.step < len(c.Ops) && len(c.Ops) > 0 {
				v.Text = fmt.Sprintf("at op %d (%v): %s", m.step, c.Ops[m.step], v.Text)
			}
		}
	}()
	p.Run(c, m)
	return m, nil
}

func panicText(e interface{}) string {
	s := fmt.Sprint(e)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// quietly runs f and returns what it panicked with.
func quietly(f func()) (e interface{}) {
	defer func() { e = recover() }()
	f()
	return nil
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
