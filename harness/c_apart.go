package main

import (
	goerrors "errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
)

// C36: collections (and blocks) used by different goroutines at the same time
// do not influence each other.

// apartProps are the properties whose cases run side by side.
var apartProps = []string{"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20", "C21", "C22", "C23", "C27", "C28", "C30", "C33", "C34"}

const apartOps = 250 // of one part

// part makes one of the cases that run side by side.
func part(op Op) (*Property, *Case) {
	p := registry[op.F]
	f := p.Families[op.a(0)%len(p.Families)]
	c := f.Gen(newRng(uint64(op.a(2)), strHash(p.ID), strHash(f.Name)), op.a(1)%f.N(false), false)
	c.Prop = p.ID
	if c.P == nil {
		c.P = map[string]int{}
	}
	if len(c.Ops) > apartOps {
		c.Ops = c.Ops[:apartOps]
	}
	return p, c
}

func runApart(c *Case, m *Mon) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(maxi(2, c.p("procs"))))
	n := len(c.Ops)
	type outcome struct {
		m *Mon
		v *Violation
	}
	props, cases, outs := make([]*Property, n), make([]*Case, n), make([]outcome, n)
	for i, op := range c.Ops {
		props[i], cases[i] = part(op)
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range cases {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			mon, v := runCase(props[i], cases[i])
			outs[i] = outcome{mon, v}
		}(i)
	}
	close(start)
	wg.Wait()
	kinds := map[string]bool{}
	for i, o := range outs {
		m.step = i
		kinds[props[i].ID] = true
		m.ops += o.m.ops
		if o.v == nil {
			m.Obs(o.m.sig)
			m.Feat("part of " + props[i].ID)
			continue
		}
		// Only what does not also go wrong alone.
		if _, v := runCase(props[i], cases[i]); v != nil {
			m.Feat("part that fails alone")
			continue
		}
		m.Fail("in parallel with %d other goroutines: %v: %s", n-1, cases[i], o.v.Text)
	}
	m.audits++
	if n > 1 {
		m.Nontrivial()
	}
	m.Feat(fmt.Sprintf("%d goroutines", n))
	if len(kinds) == 1 && n > 1 {
		m.Feat("all of one kind")
	}
}

// ownName is what a stack calls the goroutine it was taken in.
func ownName(stack string) string {
	if i := strings.Index(stack, "goroutine "); i >= 0 {
		stack = stack[i:]
	}
	return strings.SplitN(stack, " [", 2)[0]
}

// runErrorsApart makes errors in several goroutines at the same time; each has
// to show its own message and its own stack.
func runErrorsApart(c *Case, m *Mon) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(maxi(2, c.p("procs"))))
	n := c.p("goroutines")
	wrong := make([]string, n)
	start := make(chan bool)
	var wg sync.WaitGroup
	var done atomic.Int64
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			buf := make([]byte, 2000)
			me := ownName(string(buf[:runtime.Stack(buf, false)]))
			check := func(what, text, msg string, stack []byte) {
				if stack == nil {
					stack = []byte(text)
				}
				if got := ownName(string(stack)); got != me && wrong[g] == "" {
					wrong[g] = fmt.Sprintf("%s made by %s has the stack of %s", what, me, got)
				}
				if !strings.Contains(text, msg) && wrong[g] == "" {
					wrong[g] = fmt.Sprintf("%s does not contain %q: %s", what, msg, head(text, 300))
				}
			}
			<-start
			for i := 0; i < c.p("rounds") && wrong[g] == ""; i++ {
				msg := fmt.Sprintf("error %d of %d.", i, g)
				done.Add(1)
				switch kind := c.p("kind"); {
				case kind == 0 || kind == 4 && i%4 == 0:
					e := exc.Errorf("error %d of %d.", i, g)
					check("an error of exc", e.Error(), msg, e.Stack)
				case kind == 1 || kind == 4 && i%4 == 1:
					e := exc.FromError(goerrors.New(msg))
					check("a wrapped error", e.Error(), msg, e.Stack)
				case kind == 2 || kind == 4 && i%4 == 2:
					e := errors.Errorf("error %d of %d.", i, g)
					check("an error of errors", e.Error(), msg, nil)
				default:
					t := exc.Try(func() { exc.Throwf("error %d of %d.", i, g) }).Exception()
					check("an exception", t.Error(), msg, t.Exc().Errors[0].Stack)
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	m.ops += done.Load()
	m.audits++
	for g, w := range wrong {
		m.step = g
		m.Check(w == "", "%d goroutines: %s", n, w)
	}
	m.Feat(fmt.Sprintf("errors of kind %d", c.p("kind")))
	m.Obs(uint64(n))
	m.Obs(uint64(c.p("kind")))
	m.Obs(uint64(c.p("rounds")))
	m.Nontrivial()
}

func init() {
	register(&Property{
		ID: "C36", Race: true, Shards: 4, Repeat: 20,
		Rule: "Two to six goroutines at the same time run cases of other properties (maps, trees, tries, lists, sets, serialization, queues, traversals, blocks, copies, iterators, printing), each on its own collections and judged by its own model, under the race detector; what goes wrong must not happen only because of the others. Often all are of the same kind. In further cases up to ten goroutines make errors; each must show its own message and stack. Non-trivial: at least two at a time.",
		Families: []Family{
			{Name: "apart", N: constN(1250, 12500), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "apart", P: map[string]int{"procs": r.Pick(2, 4, 8)}}
				n := r.In(2, 6)
				mode := r.N(3)
				first := apartProps[j%len(apartProps)]
				fam, cj := r.N(100), r.N(1<<20)
				for i := 0; i < n; i++ {
					p := first
					if mode == 1 && i > 0 {
						p = apartProps[r.N(len(apartProps))]
					}
					if mode != 2 {
						fam, cj = r.N(100), r.N(1<<20)
					}
					c.Ops = append(c.Ops, Op{F: p, A: []int{fam, cj, r.N(1 << 30)}})
				}
				return c
			}},
			{Name: "errors", N: constN(60, 400), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "errors", P: map[string]int{"procs": r.Pick(4, 8), "goroutines": r.In(2, 10), "kind": j % 5, "rounds": r.In(50, 300)}}
			}},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "errors" {
				runErrorsApart(c, m)
			} else {
				runApart(c, m)
			}
		},
	})
}
