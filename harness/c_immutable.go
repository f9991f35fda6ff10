package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
)

// C04: versions of the immutable AVL tree.

type version struct {
	n     *avl.ImmutableAvlNode
	model map[int]int
	shape string
}

// shapeOf prints keys, values and heights in tree form.
func shapeOf(u *Universe, n *avl.ImmutableAvlNode) string {
	var b strings.Builder
	var walk func(x types.BinaryTreeNode, d int)
	walk = func(x types.BinaryTreeNode, d int) {
		if types.IsNil(x) {
			b.WriteString(".")
			return
		}
		if d > 64 {
			b.WriteString("too deep")
			return
		}
		h := -1
		if hr, ok := x.(heighter); ok {
			h = hr.Height()
		}
		fmt.Fprintf(&b, "(%d=%v h%d ", u.index(x.Key()), x.Value(), h)
		walk(x.Left(), d+1)
		b.WriteString(" ")
		walk(x.Right(), d+1)
		b.WriteString(")")
	}
	walk(n, 0)
	return b.String()
}

func copyModel(m map[int]int) map[int]int {
	c := make(map[int]int, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func checkVersion(m *Mon, u *Universe, v *version, what string, deep bool) {
	m.Check(v.n.Size() == len(v.model), "%s has size %d, expected %d", what, v.n.Size(), len(v.model))
	n, prev := 0, -1
	for key, val, next := v.n.Iterate()(); next != nil; key, val, next = next() {
		k := u.index(key)
		t, ok := v.model[k]
		m.Check(ok && val == t, "%s yields %v=%v, expected token %d (present %v)", what, key, val, t, ok)
		m.Check(k > prev, "%s yields key %d after %d", what, k, prev)
		prev = k
		n++
	}
	m.Check(n == len(v.model), "%s yields %d entries, expected %d", what, n, len(v.model))
	if deep {
		for k := 0; k < u.n; k++ {
			t, ok := v.model[k]
			m.Check(v.n.Has(u.key(k)) == ok, "%s: has of key %d is %v", what, k, !ok)
			if ok {
				x, err := v.n.Get(u.key(k))
				m.Check(err == nil && x == t, "%s: get of key %d returned %v, %v, expected token %d", what, k, x, errText(err), t)
			}
		}
	}
	s := shapeOf(u, v.n)
	m.Check(s == v.shape, "%s changed from %s to %s", what, v.shape, s)
}

type openIter struct {
	v    *version
	next types.KVIterator
	pos  int
	keys []int
}

func runVersions(c *Case, m *Mon) {
	u := newUniverse(ktInstr, 0, c.p("n"), 0)
	u.cnt = nil
	u.fresh = func(i int) types.Hashable { return &IKey{id: i, h: hashOf(0, i)} }
	tree := avl.NewImmutableAvlTree()
	treeModel := map[int]int{}
	vs := []*version{{model: map[int]int{}, shape: shapeOf(u, nil)}}
	var iters []*openIter
	token := 0
	derived := false
	advance := func(it *openIter, steps int) {
		for ; it.next != nil && steps > 0; steps-- {
			k, val, next := it.next()
			it.next = next
			if next == nil {
				m.Check(it.pos == len(it.v.model), "an iterator opened earlier ends after %d entries, expected %d", it.pos, len(it.v.model))
				return
			}
			if it.keys == nil {
				it.keys = sortedInts(it.v.model)
			}
			keys := it.keys
			m.Check(it.pos < len(keys), "an iterator opened earlier yields too much")
			ki := u.index(k)
			m.Check(ki == keys[it.pos] && val == it.v.model[ki], "an iterator opened earlier yields %v=%v at position %d, expected key %d", k, val, it.pos, keys[it.pos])
			it.pos++
		}
	}
	add := func(n *avl.ImmutableAvlNode, model map[int]int) {
		v := &version{n, model, shapeOf(u, n)}
		vs = append(vs, v)
		if len(model) >= 3 {
			m.Check(checkBalance(m, n, 1, len(model)) > 1, "a version of %d keys has no height", len(model))
		}
	}
	if fill := c.p("fill"); fill > 0 { // start from a large version
		base := vs[0].n
		for _, k := range order(newRng(uint64(c.p("us")), 4), c.p("order"), u.n)[:fill] {
			token++
			base, _ = base.Put(u.key(k), token)
			m.Check(tree.Put(u.key(k), token) == nil, "put failed")
			treeModel[k] = token
		}
		add(base, copyModel(treeModel))
		if root, ok := tree.Root().(*avl.ImmutableAvlNode); ok {
			add(root, copyModel(treeModel))
		}
		m.Feat("large version")
	}
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		m.ObsS(op.F)
		m.Obs(uint64(op.a(0))<<16 ^ uint64(op.a(1)))
		k := op.a(1) % u.n
		v := vs[op.a(0)%len(vs)]
		if op.a(0)%3 == 0 { // prefer recent versions
			v = vs[len(vs)-1]
		} else if v != vs[len(vs)-1] {
			derived = true
		}
		switch op.F {
		case "put":
			token++
			n, upd := v.n.Put(u.key(k), token)
			_, had := v.model[k]
			m.Check(upd == had, "put of key %d reported updated=%v, present before: %v", k, upd, had)
			nm := copyModel(v.model)
			nm[k] = token
			add(n, nm)
			if had {
				m.Feat("overwrite")
			}
		case "rem":
			t, had := v.model[k]
			n, val, err := v.n.Remove(u.key(k))
			if !had {
				m.Check(err != nil, "remove of absent key %d succeeded", k)
				break
			}
			m.Check(err == nil && val == t, "remove of key %d returned %v, %v, expected token %d", k, val, errText(err), t)
			nm := copyModel(v.model)
			delete(nm, k)
			add(n, nm)
			m.Feat("remove")
		case "tput":
			token++
			m.Check(tree.Put(u.key(k), token) == nil, "put failed")
			treeModel[k] = token
			if root, ok := tree.Root().(*avl.ImmutableAvlNode); ok {
				add(root, copyModel(treeModel))
				m.Feat("root kept")
			}
		case "trem":
			_, had := treeModel[k]
			_, err := tree.Remove(u.key(k))
			m.Check((err == nil) == had, "remove of key %d from the tree: %v, present before: %v", k, errText(err), had)
			delete(treeModel, k)
			if root, ok := tree.Root().(*avl.ImmutableAvlNode); ok {
				add(root, copyModel(treeModel))
			}
		case "open":
			it := &openIter{v: v, next: v.n.Iterate()}
			advance(it, op.a(1)%5)
			iters = append(iters, it)
			m.Feat("iterator in progress")
		case "step":
			if len(iters) > 0 {
				advance(iters[op.a(0)%len(iters)], op.a(1)%4)
			}
		}
		if c.p("aud") <= 1 {
			for j, v := range vs {
				checkVersion(m, u, v, fmt.Sprintf("version %d", j), false)
			}
			m.audits++
		}
		checkVersion(m, u, vs[len(vs)-1], "the last version", i%8 == 0)
	}
	m.step = len(c.Ops)
	for j, v := range vs {
		checkVersion(m, u, v, fmt.Sprintf("version %d", j), true)
	}
	m.audits++
	for _, it := range iters {
		advance(it, 1<<30)
	}
	if derived && len(vs) > 3 {
		m.Nontrivial()
	}
}

func sortedInts(m map[int]int) []int {
	r := mapRun{model: m}
	return r.sortedKeys()
}

// runVersionsShared lets goroutines read one version and derive others from
// it. The race detector watches.
func runVersionsShared(c *Case, m *Mon) {
	u := newUniverse(ktInstr, 0, c.p("n"), 0)
	u.cnt = nil
	u.fresh = func(i int) types.Hashable { return &IKey{id: i, h: hashOf(0, i)} }
	base := &version{model: map[int]int{}}
	r := newRng(uint64(c.p("us")), 5)
	for i := c.p("fill"); i > 0; i-- {
		k := r.N(u.n)
		base.n, _ = base.n.Put(u.key(k), i)
		base.model[k] = i
	}
	base.shape = shapeOf(u, base.n)
	tree := avl.NewImmutableAvlTree()
	for k, t := range base.model {
		tree.Put(u.key(k), t)
	}
	g := c.p("g")
	fails := make([]*Violation, g)
	mons := make([]*Mon, g)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			mon := newMon()
			mons[i] = mon
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(*Violation); ok {
						fails[i] = v
					} else {
						fails[i] = &Violation{Text: fmt.Sprintf("panic in a goroutine sharing a version: %s", panicText(e))}
					}
				}
			}()
			r := newRng(uint64(c.p("us")), uint64(i), 7)
			<-start
			cur := base
			for s := 0; s < c.p("steps"); s++ {
				k := r.N(u.n)
				switch r.N(6) {
				case 0, 1:
					n, _ := cur.n.Put(u.key(k), 1000*i+s)
					nm := copyModel(cur.model)
					nm[k] = 1000*i + s
					cur = &version{n, nm, shapeOf(u, n)}
				case 2:
					if _, ok := cur.model[k]; ok {
						n, _, err := cur.n.Remove(u.key(k))
						mon.Check(err == nil, "remove failed: %v", errText(err))
						nm := copyModel(cur.model)
						delete(nm, k)
						cur = &version{n, nm, shapeOf(u, n)}
					}
				case 3:
					cur = base
				case 4:
					checkVersion(mon, u, base, "the shared version", s%4 == 0)
				case 5:
					checkVersion(mon, u, cur, "a derived version", s%4 == 0)
				}
				mon.ops++
			}
			checkVersion(mon, u, cur, "a derived version", true)
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range fails {
		if fails[i] != nil {
			panic(fails[i])
		}
		m.ops += mons[i].ops
	}
	checkVersion(m, u, base, "the shared version", true)
	m.audits++
	m.Obs(uint64(c.p("us")))
	m.Feat("shared between goroutines")
	m.Nontrivial()
}

func init() {
	register(&Property{
		ID:   "C04",
		Race: true,
		Rule: "Version histories: operations start from any earlier version (nodes from put and remove, roots of a tree, iterators in progress), and all versions are compared with their recorded content, shape and heights after every operation or at the end. In the shared cases goroutines read one version and derive others under the race detector. Non-trivial: some operation started from a version other than the latest, or a shared case.",
		Families: []Family{
			{
				Name: "versions",
				N:    constN(9000, 90000),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(3, 14)
					c := &Case{Kind: "versions", P: map[string]int{"n": n, "aud": 1}}
					grow := r.In(1, 4)
					for i := r.In(5, 40); i > 0; i-- {
						f := "put"
						switch x := r.N(8 + grow); {
						case x < 2:
							f = "rem"
						case x == 2:
							f = "open"
						case x == 3:
							f = "step"
						case x == 4:
							f = "tput"
						case x == 5:
							f = "trem"
						}
						c.Ops = append(c.Ops, Op{F: f, A: []int{r.N(64), r.N(n)}})
					}
					return c
				},
			},
			{
				// A tree filled in order, then removals from old versions.
				Name: "long",
				N:    constN(120, 1200),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(30, 120)
					c := &Case{Kind: "versions", P: map[string]int{"n": n, "aud": 1 << 30}}
					for _, k := range order(r, j, n) {
						c.Ops = append(c.Ops, Op{F: "put", A: []int{0, k}})
						c.Ops = append(c.Ops, Op{F: "tput", A: []int{0, k}})
					}
					for i := n; i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: r.PickS("rem", "rem", "trem", "put", "open", "step"), A: []int{r.N(3 * n), r.N(n)}})
					}
					return c
				},
			},
			{
				Name: "big",
				N:    constN(48, 480),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(300, 1000, 4000)
					c := &Case{Kind: "versions", P: map[string]int{"n": n, "fill": n * r.In(5, 10) / 10, "order": j, "us": r.N(1 << 30), "aud": 1 << 30}}
					for i := r.In(10, 40); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: r.PickS("rem", "rem", "rem", "trem", "put", "open", "step"), A: []int{r.N(64), r.N(n)}})
					}
					return c
				},
			},
			{
				Name: "shared",
				N:    constN(400, 4000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "shared", P: map[string]int{
						"n": r.Pick(r.In(4, 30), r.In(4, 30), 300), "fill": r.Pick(r.In(1, 40), r.In(1, 40), 300), "g": r.In(2, 4), "steps": r.In(10, 60), "us": r.N(1 << 30),
					}}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "shared" {
				runVersionsShared(c, m)
				return
			}
			runVersions(c, m)
		},
	})
}
