package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/timtadh/data-structures/exc"
)

// C27 and C28: exceptions. A case is a program, a flat list of operations:
//
//	try | close A:[how opening goes, how closing goes]
//	  statements
//	catch A:[type]
//	  statements
//	finally
//	  statements
//	end A:[way of running, number of runs]
//
// A reference interpreter computes what should happen; the program is then
// executed with the library, and the traces are compared.

type exA struct{ exc.Exception }
type exB struct{ exA }
type exC struct{ exB }
type exD struct{ exc.Exception }
type exE struct {
	exA
	extra int
}

// exN makes a new exception when an error is chained on.
type exN struct{ exc.Exception }

func (e *exN) Chain(err *exc.Error) exc.Throwable {
	return &exN{exc.Exception{Errors: append(append([]*exc.Error{}, e.Errors...), err)}}
}

// exV is not a pointer and has no ancestors.
type exV struct{ e *exc.Exception }

func (e exV) Exc() *exc.Exception { return e.e }
func (e exV) Error() string       { return "exV " + e.e.Error() }
func (e exV) Chain(err *exc.Error) exc.Throwable {
	return exV{&exc.Exception{Errors: append(append([]*exc.Error{}, e.e.Errors...), err)}}
}

const nExc = 8

var excNames = [nExc]string{"*exc.Exception", "*main.exA", "*main.exB", "*main.exC", "*main.exD", "*main.exE", "*main.exN", "main.exV"}

// excParents: ancestors including itself.
var excParents = [nExc][]int{{0}, {1, 0}, {2, 1, 0}, {3, 2, 1, 0}, {4, 0}, {5, 1, 0}, {6, 0}, {7}}

func excMatches(t, c int) bool {
	for _, p := range excParents[t] {
		if p == c {
			return true
		}
	}
	return false
}

func makeExc(t int, e *exc.Error) exc.Throwable {
	x := *e.Exception()
	switch t {
	case 1:
		return &exA{x}
	case 2:
		return &exB{exA{x}}
	case 3:
		return &exC{exB{exA{x}}}
	case 4:
		return &exD{x}
	case 5:
		return &exE{exA{x}, 7}
	case 6:
		return &exN{x}
	case 7:
		return exV{&x}
	}
	return &x
}

func catchExc(t int) exc.Throwable {
	switch t {
	case 1:
		return &exA{}
	case 2:
		return &exB{}
	case 3:
		return &exC{}
	case 4:
		return &exD{}
	case 5:
		return &exE{}
	case 6:
		return &exN{}
	case 7:
		return exV{&exc.Exception{}}
	}
	return &exc.Exception{}
}

// ---- programs ----

type exStmt struct {
	f     string
	a     int
	id    int
	block *exBlock
}

type exPart struct {
	id    int
	catch int // -1 for finally
	body  []*exStmt
}

type exBlock struct {
	id        int
	closing   bool
	open, cls int
	again     int // how opening goes in later runs
	body      []*exStmt
	parts     []*exPart
	mode      int
	runs      int
}

type exParser struct {
	ops  []Op
	i    int
	next int
}

func (p *exParser) stmts(depth int) []*exStmt {
	var out []*exStmt
	for p.i < len(p.ops) {
		op := p.ops[p.i]
		switch op.F {
		case "catch", "finally", "end":
			if depth == 0 { // stray
				p.i++
				continue
			}
			return out
		case "try", "close":
			p.i++
			p.next++
			b := &exBlock{id: p.next, closing: op.F == "close", open: op.a(0), cls: op.a(1), again: op.a(0)}
			if len(op.A) > 2 {
				b.again = op.a(2)
			}
			out = append(out, &exStmt{f: "block", block: b})
			b.body = p.stmts(depth + 1)
			for p.i < len(p.ops) {
				o := p.ops[p.i]
				p.i++
				p.next++
				if o.F == "end" {
					b.mode = o.a(0) % 3
					b.runs = maxi(1, mini(3, o.a(1)))
					break
				}
				part := &exPart{id: p.next, catch: -1}
				if o.F == "catch" {
					part.catch = o.a(0) % nExc
				}
				part.body = p.stmts(depth + 1)
				b.parts = append(b.parts, part)
			}
		default:
			p.i++
			p.next++
			out = append(out, &exStmt{f: op.F, a: op.a(0), id: p.next})
		}
	}
	return out
}

// opening tells how opening goes in a run.
func (b *exBlock) opening(run int) int {
	if run > 1 {
		return b.again
	}
	return b.open
}

// ---- reference interpreter ----

// outcome of running something
type exOut struct {
	kind  int // 0 normal, 1 thrown, 2 panic
	typ   int
	toks  []string
	value string
}

type exModel struct {
	trace  []string
	fuel   int
	caught *exOut // the exception of the innermost running catch
	last   *exOut // what the last block run by Error or Exception returned
	thrown int
	rethr  int
	fins   int
	closes int
	nested int
	panics bool
}

func (x *exModel) log(format string, args ...interface{}) {
	x.trace = append(x.trace, fmt.Sprintf(format, args...))
}

func thrownOf(typ int, toks ...string) exOut { return exOut{kind: 1, typ: typ, toks: toks} }

func (o *exOut) String() string {
	switch o.kind {
	case 1:
		return fmt.Sprintf("%s%v", excNames[o.typ], o.toks)
	case 2:
		return "panic " + o.value
	}
	return "nothing"
}

func (x *exModel) stmts(ss []*exStmt) exOut {
	for _, s := range ss {
		if o := x.stmt(s); o.kind != 0 {
			return o
		}
	}
	return exOut{}
}

func (x *exModel) stmt(s *exStmt) exOut {
	tok := fmt.Sprintf("t%d", s.id)
	switch s.f {
	case "mark":
		x.log("mark %d", s.id)
	case "throw":
		x.thrown++
		return thrownOf(s.a%nExc, tok)
	case "throwf", "throwerr", "throwon":
		x.thrown++
		return thrownOf(0, tok)
	case "thrownil":
		x.log("did not throw %d", s.id)
	case "rethrow":
		if x.caught == nil {
			x.thrown++
			return thrownOf(0, tok)
		}
		x.rethr++
		return thrownOf(x.caught.typ, append(append([]string{}, x.caught.toks...), tok)...)
	case "throwlast":
		if x.last == nil {
			x.log("no last %d", s.id)
			return exOut{}
		}
		l := *x.last
		x.last = nil
		return l
	case "panic":
		x.panics = true
		return exOut{kind: 2, value: panicValueText(s.a, s.id)}
	case "block":
		return x.block(s.block)
	}
	return exOut{}
}

func (x *exModel) block(b *exBlock) exOut {
	x.log("made %d", b.id)
	saved := x.caught
	for run := 1; ; run++ {
		x.nested++
		o := x.once(b, run)
		x.caught = saved
		if o.kind == 2 {
			return o
		}
		mode := b.mode
		if run < b.runs {
			mode = 1 + run%2
		}
		if mode == 0 {
			if o.kind == 0 {
				x.log("unwound %d", b.id)
			}
			return o
		}
		x.log("ran %d: %s", b.id, o.String())
		if o.kind == 1 {
			x.last = &o
		} else {
			x.last = nil
		}
		if run >= b.runs {
			return exOut{}
		}
	}
}

func (x *exModel) once(b *exBlock, run int) exOut {
	var o exOut
	saved := x.caught
	if b.closing {
		o = x.closing(b, run)
	} else {
		x.log("try %d", b.id)
		o = x.stmts(b.body)
	}
	if o.kind == 2 {
		return o
	}
	if o.kind == 1 {
		for _, p := range b.parts {
			if p.catch >= 0 && excMatches(o.typ, p.catch) {
				x.log("catch %d: %s", p.id, o.String())
				c := o
				x.caught = &c
				o = x.stmts(p.body)
				x.caught = saved
				break
			}
		}
		if o.kind == 2 {
			return o
		}
	}
	for _, p := range b.parts {
		if p.catch < 0 {
			x.fins++
			x.log("finally %d", p.id)
			f := x.stmts(p.body)
			if f.kind == 2 {
				return f
			}
			if f.kind == 1 {
				o = f
			}
		}
	}
	return o
}

// ways of opening: 0..3 fine, 4 throws, 5 returns nil, 6 panics
// ways of closing: 0..2 fine, 3 error, 4 throws a custom exception
func (x *exModel) closing(b *exBlock, run int) exOut {
	x.log("open %d", b.id)
	open := b.opening(run)
	switch open {
	case 4:
		return thrownOf(2, fmt.Sprintf("open%d", b.id))
	case 6:
		x.panics = true
		return exOut{kind: 2, value: fmt.Sprintf("open%d", b.id)}
	}
	x.log("use %d %v", b.id, open != 5)
	o := x.stmts(b.body)
	if o.kind == 2 || open == 5 {
		return o
	}
	x.closes++
	x.log("close %d", b.id)
	switch b.cls {
	case 3:
		return thrownOf(0, fmt.Sprintf("close%d", b.id))
	case 4:
		return thrownOf(3, fmt.Sprintf("close%d", b.id))
	}
	return o
}

func panicValueText(a, id int) string {
	switch a % 4 {
	case 1:
		return fmt.Sprintf("error p%d", id)
	case 2:
		return "runtime error"
	case 3:
		return fmt.Sprintf("%d", id)
	}
	return fmt.Sprintf("p%d", id)
}

// ---- execution with the library ----

type exReal struct {
	m      *Mon
	trace  []string
	caught exc.Throwable
	last   exc.Throwable
	c      *Case
	opened map[*exResource]int
}

type exResource struct {
	x  *exReal
	b  *exBlock
	id int
}

func (r *exResource) Close() error {
	r.x.opened[r]++
	r.x.log("close %d", r.b.id)
	switch r.b.cls {
	case 3:
		return fmt.Errorf("close%d", r.b.id)
	case 4:
		exc.Throw(makeExc(3, exc.Errorf("close%d", r.b.id)))
	}
	return nil
}

func (x *exReal) log(format string, args ...interface{}) {
	x.trace = append(x.trace, fmt.Sprintf(format, args...))
}

// describe gives dynamic type and reasons of an exception.
func describe(t exc.Throwable) string {
	if t == nil {
		return "nothing"
	}
	var toks []string
	if e := t.Exc(); e != nil {
		for _, x := range e.Errors {
			toks = append(toks, fmt.Sprint(x.Err))
		}
	}
	return fmt.Sprintf("%s%v", reflect.TypeOf(t), toks)
}

func (x *exReal) stmts(ss []*exStmt) {
	for _, s := range ss {
		x.stmt(s)
	}
}

func (x *exReal) stmt(s *exStmt) {
	tok := fmt.Sprintf("t%d", s.id)
	x.m.ops++
	switch s.f {
	case "mark":
		x.log("mark %d", s.id)
	case "throw":
		exc.Throw(makeExc(s.a%nExc, exc.Errorf("%s", tok)))
	case "throwf":
		exc.Throwf("t%d", s.id)
	case "throwerr":
		exc.ThrowErr(exc.Errorf("t%d", s.id))
	case "throwon":
		exc.ThrowOnError(fmt.Errorf("t%d", s.id))
	case "thrownil":
		exc.ThrowOnError(nil)
		x.log("did not throw %d", s.id)
	case "rethrow":
		if x.caught == nil {
			exc.Throwf("t%d", s.id)
		}
		exc.Rethrow(x.caught, exc.Errorf("%s", tok))
	case "throwlast":
		if x.last == nil {
			x.log("no last %d", s.id)
			return
		}
		l := x.last
		x.last = nil
		exc.Throw(l)
	case "panic":
		switch s.a % 4 {
		case 0:
			panic(fmt.Sprintf("p%d", s.id))
		case 1:
			panic(fmt.Errorf("p%d", s.id))
		case 2:
			var mm map[string]int
			mm["x"] = 1
		case 3:
			panic(s.id)
		}
	case "block":
		x.block(s.block)
		return
	}
	if strings.HasPrefix(s.f, "throw") && s.f != "thrownil" || s.f == "rethrow" || s.f == "panic" {
		x.log("%s %d had no effect", s.f, s.id)
	}
}

func (x *exReal) block(b *exBlock) {
	saved := x.caught
	var blk *exc.Block
	run := 1
	if b.closing {
		blk = exc.Close(func() io.Closer {
			x.log("open %d", b.id)
			switch b.opening(run) {
			case 4:
				exc.Throw(makeExc(2, exc.Errorf("open%d", b.id)))
			case 5:
				return nil
			case 6:
				panic(fmt.Sprintf("open%d", b.id))
			}
			r := &exResource{x: x, b: b}
			x.opened[r] = 0
			return r
		}, func(c io.Closer) {
			r, ok := c.(*exResource)
			x.log("use %d %v", b.id, ok && r.b == b)
			x.stmts(b.body)
		})
	} else {
		blk = exc.Try(func() {
			x.log("try %d", b.id)
			x.stmts(b.body)
		})
	}
	for _, p := range b.parts {
		p := p
		if p.catch >= 0 {
			blk = blk.Catch(catchExc(p.catch), func(t exc.Throwable) {
				x.log("catch %d: %s", p.id, describe(t))
				x.caught = t
				x.stmts(p.body)
				x.caught = saved
			})
		} else {
			blk = blk.Finally(func() {
				x.caught = saved
				x.log("finally %d", p.id)
				x.stmts(p.body)
			})
		}
	}
	x.log("made %d", b.id)
	for ; ; run++ {
		mode := b.mode
		if run < b.runs {
			mode = 1 + run%2
		}
		switch mode {
		case 0:
			blk.Unwind()
			x.caught = saved
			x.log("unwound %d", b.id)
			return
		case 1:
			err := blk.Error()
			x.caught = saved
			if err == nil {
				x.log("ran %d: nothing", b.id)
				x.last = nil
			} else {
				t, ok := err.(exc.Throwable)
				if !ok {
					x.log("ran %d: an error that is no exception: %T", b.id, err)
					return
				}
				x.log("ran %d: %s", b.id, describe(t))
				x.last = t
			}
		default:
			t := blk.Exception()
			x.caught = saved
			x.log("ran %d: %s", b.id, describe(t))
			x.last = t
		}
		if run >= b.runs {
			return
		}
	}
}

func runExc(c *Case, m *Mon) {
	if c.Kind == "join" {
		runJoin(c, m)
		return
	}
	parse := func() []*exStmt { return (&exParser{ops: c.Ops}).stmts(0) }
	model := &exModel{}
	want := model.stmts(parse())
	real := &exReal{m: m, c: c, opened: map[*exResource]int{}}
	got := exOut{}
	var thrown exc.Throwable
	e := quietly(func() { real.stmts(parse()) })
	if e != nil {
		switch x := e.(type) {
		case *Violation:
			panic(x)
		case exc.Throwable:
			thrown = x
			got.kind = 1
		case runtimeError:
			got = exOut{kind: 2, value: "runtime error"}
		case error:
			got = exOut{kind: 2, value: "error " + x.Error()}
		default:
			got = exOut{kind: 2, value: fmt.Sprint(x)}
		}
	}
	wt, gt := model.trace, real.trace
	if model.panics { // whether a resource is closed on a panic is not specified
		wt, gt = without(wt, "close "), without(gt, "close ")
	}
	for i := range wt {
		if i >= len(gt) {
			m.Fail("the program did only %d of %d steps; missing: %s; done: %v; outcome %v", len(gt), len(wt), wt[i], gt, describeOut(e))
		}
		m.Check(wt[i] == gt[i], "step %d is %q, expected %q; done: %v", i, gt[i], wt[i], gt[:i])
		m.ObsS(wt[i])
	}
	m.Check(len(gt) == len(wt), "the program did more than expected: %v after %v", gt[len(wt):], wt)
	if want.kind == 1 && got.kind == 1 {
		m.Check(want.String() == describe(thrown), "%s propagates, expected %s", describe(thrown), want.String())
	} else {
		m.Check(want.kind == got.kind && want.value == got.value, "the outcome is %v, expected %s", describeOut(e), want.String())
	}
	if !model.panics {
		for r, n := range real.opened {
			m.Check(n == 1, "resource %d was closed %d times", r.b.id, n)
		}
	}
	m.audits++
	m.FeatN("thrown", model.thrown)
	m.FeatN("rethrown", model.rethr)
	m.FeatN("finally run", model.fins)
	m.FeatN("resources closed", model.closes)
	if model.panics {
		m.Feat("ordinary panic")
	}
	if model.nested > 1 {
		m.Feat("several blocks")
	}
	if len(wt) > 1 {
		m.Nontrivial()
	}
}

type runtimeError interface {
	error
	RuntimeError()
}

func describeOut(e interface{}) string {
	if t, ok := e.(exc.Throwable); ok {
		return describe(t)
	}
	return panicText(e)
}

func without(xs []string, prefix string) []string {
	var out []string
	for _, x := range xs {
		if !strings.HasPrefix(x, prefix) {
			out = append(out, x)
		}
	}
	return out
}

// runJoin: joining and chaining, with every exception compared after every
// step.
func runJoin(c *Case, m *Mon) {
	var es []*exc.Exception
	var model [][]string
	n := 0
	mk := func() *exc.Error {
		n++
		return exc.Errorf("e%d", n)
	}
	es = append(es, mk().Exception(), mk().Exception())
	model = append(model, []string{"e1"}, []string{"e2"})
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		m.ObsS(op.F)
		m.Obs(uint64(op.a(0))<<20 | uint64(op.a(1)))
		a, b := op.a(0)%len(es), op.a(1)%len(es)
		switch op.F {
		case "join":
			j := es[a].Join(es[b])
			es = append(es, j)
			model = append(model, append(append([]string{}, model[a]...), model[b]...))
			m.Feat("joined")
			m.Nontrivial()
		case "chain":
			t := es[a].Chain(mk())
			model[a] = append(model[a], fmt.Sprintf("e%d", n))
			m.Check(t.Exc() == es[a] || len(t.Exc().Errors) == len(model[a]), "chaining returned another exception: %s", describe(t))
			es[a] = t.Exc()
		case "new":
			es = append(es, mk().Exception())
			model = append(model, []string{fmt.Sprintf("e%d", n)})
		}
		m.audits++
		for k := range es {
			want := fmt.Sprintf("*exc.Exception%v", model[k])
			m.Check(describe(es[k]) == want, "after %v exception %d is %s, expected %s", op, k, describe(es[k]), want)
		}
	}
}

// ---- generators ----

type exGen struct {
	r      *Rng
	ops    []Op
	budget int
	closep int // out of 10: share of closing blocks
	rethr  int
	panicp int // out of 100
}

func (g *exGen) add(f string, a ...int) { g.ops = append(g.ops, Op{F: f, A: a}) }

func (g *exGen) body(depth int, inCatch bool) {
	r := g.r
	for n := r.Pick(0, 1, 1, 2, 3); n > 0; n-- {
		g.budget--
		switch x := r.N(20); {
		case x < 4 || g.budget < 0:
			g.add("mark")
		case x < 11 && depth > 0:
			g.block(depth - 1)
		case x < 12:
			g.add("thrownil")
		case x < 13:
			g.add("throwlast")
		case r.N(100) < g.panicp:
			g.add("panic", r.N(4))
		case inCatch && r.N(10) < g.rethr:
			g.add("rethrow")
		case x < 18:
			g.add("throw", r.N(nExc))
		default:
			g.add(r.PickS("throwf", "throwerr", "throwon"))
		}
	}
}

func (g *exGen) block(depth int) {
	r := g.r
	if r.N(10) < g.closep {
		g.add("close", r.Pick(0, 0, 0, 0, 0, 4, 5, r.Pick(0, 6)), r.Pick(0, 0, 0, 0, 3, 4), r.Pick(0, 0, 4, 5))
	} else {
		g.add("try")
	}
	g.body(depth, false)
	for n := r.N(5); n > 0; n-- {
		g.budget--
		if r.P(3, 5) {
			g.add("catch", r.N(nExc))
			g.body(depth, true)
		} else {
			g.add("finally")
			g.body(depth, false)
		}
	}
	g.add("end", r.N(3), r.Pick(1, 1, 1, 1, 2, 3))
}

func init() {
	// stmt picks a statement for the grids
	grid := func(c *Case, x int) {
		switch x {
		case 0:
			c.Ops = append(c.Ops, Op{F: "mark"})
		case 1:
			c.Ops = append(c.Ops, Op{F: "throw", A: []int{1}})
		case 2:
			c.Ops = append(c.Ops, Op{F: "rethrow"})
		case 3:
			c.Ops = append(c.Ops, Op{F: "panic"})
		}
	}
	register(&Property{
		ID:   "C27",
		Rule: "Programs of nested blocks run with the library and by a reference interpreter, comparing the trace of executed parts, what each block returned and what propagates. A grid of throw type x two catches x what the catch and two finally parts do x way of running, random nested programs with interleaved catch and finally parts, blocks with dozens of parts, ordinary panics and blocks run several times. Non-trivial: at least two parts ran.",
		Families: []Family{
			{Name: "grid", N: func(bool) int { return (nExc + 2) * (nExc + 1) * (nExc + 1) * 4 * 3 }, Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "prog"}
				pick := func(n int) int { x := j % n; j /= n; return x }
				c.Ops = append(c.Ops, Op{F: "try"}, Op{F: "try"})
				th := pick(nExc + 2)
				switch {
				case th < nExc:
					c.Ops = append(c.Ops, Op{F: "throw", A: []int{th}})
				case th == nExc:
					c.Ops = append(c.Ops, Op{F: "panic", A: []int{r.N(4)}})
				default:
					c.Ops = append(c.Ops, Op{F: "mark"})
				}
				c1, c2 := pick(nExc+1), pick(nExc+1)
				what := pick(4)
				mode := pick(3)
				f1, f2 := r.N(5), r.N(5)
				fin := func(f int) {
					if f < 4 {
						c.Ops = append(c.Ops, Op{F: "finally"})
						grid(c, []int{0, 0, 1, 3}[f])
					}
				}
				if r.P(1, 2) {
					fin(f1)
				}
				if c1 < nExc {
					c.Ops = append(c.Ops, Op{F: "catch", A: []int{c1}})
					grid(c, what)
				}
				fin(f2)
				if c2 < nExc {
					c.Ops = append(c.Ops, Op{F: "catch", A: []int{c2}})
					grid(c, what)
				}
				fin(r.N(5))
				c.Ops = append(c.Ops, Op{F: "end", A: []int{mode, r.Pick(1, 1, 1, 2)}})
				c.Ops = append(c.Ops, Op{F: "catch", A: []int{r.N(nExc)}}, Op{F: "mark"}, Op{F: "finally"}, Op{F: "end", A: []int{r.N(3), 1}})
				return c
			}},
			{Name: "random", N: constN(200000, 1200000), Gen: func(r *Rng, j int, t bool) *Case {
				g := &exGen{r: r, budget: r.In(4, 40), closep: 0, rethr: r.N(8), panicp: r.Pick(0, 5, 30)}
				g.block(r.In(0, 4))
				return &Case{Kind: "prog", Ops: g.ops}
			}},
			{Name: "with closing", N: constN(8000, 60000), Gen: func(r *Rng, j int, t bool) *Case {
				g := &exGen{r: r, budget: r.In(4, 40), closep: 4, rethr: r.N(8), panicp: r.Pick(0, 5)}
				g.block(r.In(0, 4))
				return &Case{Kind: "prog", Ops: g.ops}
			}},
			{Name: "many parts", N: constN(1500, 15000), Gen: func(r *Rng, j int, t bool) *Case {
				// catches that do not match before one that may, among finally parts
				c := &Case{Kind: "prog"}
				typ := r.N(nExc)
				c.Ops = append(c.Ops, Op{F: "try"}, Op{F: "throw", A: []int{typ}})
				fin := r.N(5)
				for i := r.Pick(7, 9, 17, 33, 65, r.N(80)); i > 0; i-- {
					k := r.N(nExc)
					switch {
					case r.N(6) < fin:
						c.Ops = append(c.Ops, Op{F: "finally"}, Op{F: r.PickS("mark", "mark", "mark", "mark", "throw"), A: []int{k}})
					case !excMatches(typ, k):
						c.Ops = append(c.Ops, Op{F: "catch", A: []int{k}}, Op{F: "mark"})
					}
				}
				if r.P(3, 4) {
					ps := excParents[typ]
					c.Ops = append(c.Ops, Op{F: "catch", A: []int{ps[r.N(len(ps))]}}, Op{F: r.PickS("mark", "rethrow")})
				}
				c.Ops = append(c.Ops, Op{F: "end", A: []int{r.N(3), r.Pick(1, 1, 2)}})
				return c
			}},
		},
		Run: runExc,
	})
	register(&Property{
		ID:   "C28",
		Rule: "Programs as for C27 with closing blocks: opening succeeds, throws or yields nothing, closing succeeds, returns an error or throws, bodies and handlers throw and rethrow eight exception types; each resource counts its closes and the trace fixes their place. Histories of joining and chaining compare the error lists of all exceptions after every step. Non-trivial: at least two parts ran, or a join.",
		Families: []Family{
			{Name: "grid", N: func(bool) int { return 7 * 5 * (nExc + 2) * 5 * 3 }, Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "prog"}
				pick := func(n int) int { x := j % n; j /= n; return x }
				c.Ops = append(c.Ops, Op{F: "try"}, Op{F: "close", A: []int{pick(7), pick(5), r.Pick(0, 4, 5)}})
				switch th := pick(nExc + 2); {
				case th < nExc:
					c.Ops = append(c.Ops, Op{F: "throw", A: []int{th}})
				case th == nExc:
					c.Ops = append(c.Ops, Op{F: "throwon"})
				default:
					c.Ops = append(c.Ops, Op{F: "mark"})
				}
				if x := pick(5); x < 4 {
					c.Ops = append(c.Ops, Op{F: "catch", A: []int{[]int{0, 2, 3, 1}[x]}})
					grid(c, r.Pick(0, 1, 2, 2))
				}
				if r.P(1, 2) {
					c.Ops = append(c.Ops, Op{F: "finally"})
				}
				c.Ops = append(c.Ops, Op{F: "end", A: []int{pick(3), r.Pick(1, 1, 2)}})
				c.Ops = append(c.Ops, Op{F: "catch", A: []int{r.N(nExc)}}, Op{F: "rethrow"}, Op{F: "end", A: []int{r.N(3), 1}})
				return c
			}},
			{Name: "random", N: constN(100000, 800000), Gen: func(r *Rng, j int, t bool) *Case {
				g := &exGen{r: r, budget: r.In(4, 40), closep: 7, rethr: 6, panicp: r.Pick(0, 0, 5)}
				g.block(r.In(0, 4))
				return &Case{Kind: "prog", Ops: g.ops}
			}},
			{Name: "rethrowing", N: constN(12000, 120000), Gen: func(r *Rng, j int, t bool) *Case {
				// a chain of blocks around one throw, most of them rethrow
				c := &Case{Kind: "prog"}
				depth := r.In(1, 6)
				if r.P(1, 200) {
					depth = r.In(7, 70)
				}
				typ := r.N(nExc)
				for i := 0; i < depth; i++ {
					c.Ops = append(c.Ops, Op{F: r.PickS("try", "try", "close"), A: []int{0, r.Pick(0, 0, 0, 0, 0, 3)}})
				}
				c.Ops = append(c.Ops, Op{F: "throw", A: []int{typ}})
				for i := 0; i < depth; i++ {
					ps := excParents[typ]
					c.Ops = append(c.Ops, Op{F: "catch", A: []int{ps[r.N(len(ps))]}}, Op{F: r.PickS("rethrow", "rethrow", "rethrow", "mark")})
					if r.P(1, 3) {
						c.Ops = append(c.Ops, Op{F: "finally"}, Op{F: "mark"})
					}
					c.Ops = append(c.Ops, Op{F: "end", A: []int{r.Pick(0, 0, 0, 1, 2), 1}})
					if r.P(1, 6) {
						c.Ops = append(c.Ops, Op{F: "throwlast"})
					}
				}
				return c
			}},
			{Name: "join", N: constN(5000, 50000), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "join"}
				if r.P(1, 50) { // a long chain first
					for i := r.Pick(17, 65, 130, 300); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: "chain", A: []int{0, 0}})
					}
				}
				for i := r.In(1, 12); i > 0; i-- {
					c.Ops = append(c.Ops, Op{F: r.PickS("join", "chain", "chain", "new"), A: []int{r.N(12), r.N(12)}})
				}
				return c
			}},
		},
		Run: runExc,
	})
}
