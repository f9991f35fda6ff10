package main

import (
	"fmt"
	"sync/atomic"
)

// C38: keys are compared with keys only.

// watchForeign turns on the record of comparisons of an instrumented key with
// something that is not one.
var (
	watchForeign atomic.Bool
	foreignArg   atomic.Value
)

func noteForeign(method string, o interface{}) {
	if watchForeign.Load() {
		foreignArg.CompareAndSwap(nil, fmt.Sprintf("%s(%T)", method, o))
	}
}

var foreignProps = []string{"C01", "C02", "C05", "C06", "C07", "C11", "C12", "C13", "C14", "C20", "C21", "C22", "C30", "C33", "C34"}

func runForeign(c *Case, m *Mon) {
	for i, op := range c.Ops {
		m.step = i
		p, pc := part(op)
		if _, ok := pc.P["kt"]; ok {
			pc.P["kt"] = ktInstr
		}
		foreignArg = atomic.Value{}
		watchForeign.Store(true)
		mon, _ := runCase(p, pc)
		watchForeign.Store(false)
		got := foreignArg.Load()
		m.ops += mon.ops
		m.Obs(mon.sig)
		m.Check(got == nil, "the library called %v on a key in %v", got, pc)
		m.Feat("keys in " + p.ID)
		if mon.ops > 2 {
			m.Nontrivial()
		}
	}
	m.audits++
}

func init() {
	register(&Property{
		ID:   "C38",
		Rule: "Cases of other properties (maps, trees, lists, sets, queues, copies, iterators, printing) run on instrumented keys which note every call of Equals and Less with nil or with something that is not a key. Non-trivial: more than two operations.",
		Families: []Family{
			{Name: "strict", N: constN(16000, 160000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "foreign", Ops: []Op{{F: foreignProps[j%len(foreignProps)], A: []int{r.N(100), r.N(1 << 20), r.N(1 << 30)}}}}
			}},
		},
		Run: runForeign,
	})
}
