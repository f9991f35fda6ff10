package main

import (
	"fmt"
	"math"
	"os"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// C32: how many key comparisons operations make, counted in the keys.

var costKinds = []string{"avl", "immavl", "bpmap", "bptree", "sorted", "sortedset", "hash", "linhash"}

// costSUT is a collection of keys seen as add, has and remove.
type costSUT struct {
	add    func(k types.Hashable)
	has    func(k types.Hashable) bool
	get    func(k types.Hashable) bool // another way to look a key up
	remove func(k types.Hashable)
}

func makeCost(kind string, c *Case) *costSUT {
	switch kind {
	case "bptree":
		t := bptree.NewBpTree(c.p("ns"))
		return &costSUT{
			add:    func(k types.Hashable) { t.Add(k, 1) },
			has:    t.Has,
			get:    func(k types.Hashable) bool { return t.Count(k) == 1 },
			remove: func(k types.Hashable) { t.RemoveWhere(k, func(interface{}) bool { return true }) },
		}
	case "sorted":
		s := list.NewSorted(c.p("init"), false)
		return &costSUT{
			add:    func(k types.Hashable) { s.Add(k) },
			has:    s.Has,
			get:    func(k types.Hashable) bool { _, has, err := s.Find(k); return err == nil && has },
			remove: func(k types.Hashable) { s.Delete(k) },
		}
	case "sortedset":
		s := set.NewSortedSet(c.p("init"))
		return &costSUT{
			add:    func(k types.Hashable) { s.Add(k) },
			has:    s.Has,
			get:    func(k types.Hashable) bool { x, err := s.Item(k); return err == nil && x.Equals(k) },
			remove: func(k types.Hashable) { s.Delete(k) },
		}
	}
	s := makeMap(kind, c)
	return &costSUT{
		add:    func(k types.Hashable) { s.put(k, 1) },
		has:    s.has,
		get:    func(k types.Hashable) bool { _, err := s.get(k); return err == nil },
		remove: func(k types.Hashable) { s.remove(k) },
	}
}

// insertion orders
const nCostOrders = 7

func costOrder(which, n int, r *Rng) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	switch which {
	case 1: // descending
		for i := range p {
			p[i] = n - 1 - i
		}
	case 2: // from outside in
		for i := range p {
			p[i] = i / 2
			if i%2 == 1 {
				p[i] = n - 1 - i/2
			}
		}
	case 3: // from the middle out
		for i := range p {
			j := n - 1 - i
			p[i] = j / 2
			if j%2 == 1 {
				p[i] = n - 1 - j/2
			}
		}
	case 4: // ascending runs
		q := p[:0:0]
		w := r.In(2, 40)
		for s := 0; s < w; s++ {
			for i := s; i < n; i += w {
				q = append(q, i)
			}
		}
		p = q
	case 5: // blocks, descending, each ascending
		q := p[:0:0]
		w := r.In(2, 60)
		for hi := n; hi > 0; hi -= w {
			for i := maxi(0, hi-w); i < hi; i++ {
				q = append(q, i)
			}
		}
		p = q
	case 6:
		return r.Perm(n)
	}
	return p
}

// costBound is the most comparisons one operation may make after n insertions.
func costBound(kind string, c *Case, n int) float64 {
	l := math.Log2(float64(n) + 2)
	switch kind {
	case "avl", "immavl":
		return 8*l + 20
	case "bptree", "bpmap":
		return 40*l + 6*float64(c.p("ns")) + 80
	case "sorted", "sortedset":
		return 8*l + 24
	}
	return math.Inf(1)
}

// costAverage is the most comparisons a run of operations may make on average.
func costAverage(kind string, reading bool) float64 {
	switch {
	case kind == "hash" && reading:
		return 4
	case kind == "hash":
		return 6
	case kind == "linhash" && reading:
		return 11
	case kind == "linhash":
		return 40
	}
	return math.Inf(1)
}

var costTrace = os.Getenv("DSCHECK_COSTS") != ""

func runCost(c *Case, m *Mon) {
	kind := costKinds[c.p("kind")%len(costKinds)]
	n := c.p("n")
	r := newRng(uint64(c.p("us")), 5)
	u := newUniverse(ktInstr, c.p("hm"), 2*n+2, 0)
	s := makeCost(kind, c)
	inserted := 0
	var worst float64
	phaseOps, phaseCost := 0, int64(0)
	op := func(what string, i int, f func()) {
		before := u.cnt.eq + u.cnt.less
		f()
		cost := u.cnt.eq + u.cnt.less - before
		m.ops++
		phaseOps++
		phaseCost += cost
		b := costBound(kind, c, inserted)
		m.Check(float64(cost) <= b, "%s of key %d made %d comparisons after %d insertions (limit %.0f)", what, i, cost, inserted, b)
		worst = math.Max(worst, float64(cost)/b)
	}
	phase := func(name string, reading bool) {
		if phaseOps >= 100 {
			avg := float64(phaseCost) / float64(phaseOps)
			limit := costAverage(kind, reading)
			m.Check(avg <= limit, "%s: %.1f comparisons per operation on average over %d operations (limit %.0f)", name, avg, phaseOps, limit)
			m.audits++
			m.Feat("phases averaged")
			if costTrace {
				fmt.Printf("COST %s %s avg %.2f\n", kind, name, avg)
			}
		}
		phaseOps, phaseCost = 0, 0
	}
	// keys are the odd numbers, so that there is a gap on both sides of each
	present := make([]bool, n)
	key := func(i int) types.Hashable { return u.key(2*i + 1) }
	look := func(i int) {
		k := key(i)
		op("looking up", i, func() {
			m.Check(s.has(k) == present[i], "key %d: presence is %v, expected %v", i, !present[i], present[i])
		})
	}
	for x, i := range costOrder(c.p("order"), n, r) {
		k := key(i)
		inserted++
		op("insertion", i, func() { s.add(k) })
		present[i] = true
		if x%8 == 7 {
			look(r.N(n))
			if x%16 == 7 { // not there
				k := u.key(2 * r.N(n+1))
				op("looking up an absent key", 0, func() { m.Check(!s.has(k), "key %v is there, expected not", k) })
			}
			op("finding", i, func() { m.Check(s.get(key(i)), "key %d just inserted is not found", i) })
		}
	}
	phase("insertions", false)
	for i := 0; i < n; i++ {
		look(i)
	}
	phase("look ups", true)
	if c.p("rem") > 0 {
		// remove in some order, put some of it back
		order := costOrder(c.p("rorder"), n, r)
		for x, i := range order {
			if x >= n*c.p("rem")/4 {
				break
			}
			k := key(i)
			if present[i] {
				op("removal", i, func() { s.remove(k) })
				present[i] = false
			}
			if x%3 == 2 && r.P(1, 2) {
				j := order[r.N(x+1)]
				k := key(j)
				if !present[j] {
					inserted++
				}
				op("insertion", j, func() { s.add(k) })
				present[j] = true
			}
			look(r.N(n))
		}
		phase("removals", false)
		for i := 0; i < n; i++ {
			look(i)
		}
		phase("look ups after removals", true)
		m.Feat("with removals")
	}
	if costTrace {
		fmt.Printf("COST %s worst/limit %.2f n %d\n", kind, worst, n)
	}
	m.Feat(kind)
	m.FeatN("comparisons counted", int(u.cnt.eq+u.cnt.less))
	m.Obs(uint64(u.cnt.eq)<<32 ^ uint64(u.cnt.less))
	if n >= 64 {
		m.Nontrivial()
	}
}

func init() {
	gen := func(sizes func(t bool) []int) func(r *Rng, j int, t bool) *Case {
		return func(r *Rng, j int, t bool) *Case {
			hm := 0
			if r.P(1, 3) {
				hm = 11 // 32 bit hashes
			}
			return &Case{Kind: "cost", P: map[string]int{"kind": j, "order": r.N(nCostOrders), "rorder": r.N(nCostOrders), "n": r.Pick(sizes(t)...) + r.N(30), "ns": r.Pick(4, 5, 6, 7, 8, 15, 16, 32, 64), "hm": hm, "init": r.Pick(0, 1, 2, 7, 64), "rem": r.N(5), "us": r.N(1 << 30)}}
		}
	}
	register(&Property{
		ID:   "C32",
		Rule: "8 kinds of collections x 7 insertion orders x 7 removal orders x sizes; every comparison the library makes on a key is counted by the key, and each operation is held to its limit (trees, sorted lists) or each phase of at least 100 operations to its average (hash tables). Non-trivial: at least 64 keys.",
		Families: []Family{
			{Name: "small", N: constN(16000, 160000), Gen: gen(func(bool) []int { return []int{1, 10, 70, 200, 500} })},
			{Name: "large", N: constN(400, 3200), Gen: gen(func(t bool) []int {
				if t {
					return []int{3000, 10000, 30000}
				}
				return []int{3000, 8000, 30000}
			})},
			{Name: "large tables", N: constN(48, 480), Gen: func(r *Rng, j int, t bool) *Case {
				c := gen(func(bool) []int { return []int{60000, 150000} })(r, 6+j%2, t)
				return c
			}},
		},
		Run: runCost,
	})
}
