package main

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// C13, C14: sets and set algebra.

const (
	skSorted = iota
	skHash
	skLinear
	skAvl
	skImmAvl
	skBp
	nSetKinds
	skMapSet = nSetKinds
	skOther  = nSetKinds + 1
)

// otherSet is a set that is none of the library's own types.
type otherSet struct{ types.Set }

func makeSet(kind, init, ns int) types.Set {
	switch kind {
	case skSorted:
		return set.NewSortedSet(maxi(0, init))
	case skHash:
		return set.NewSetMap(hashtable.NewHashTable(init))
	case skLinear:
		return set.NewSetMap(hashtable.NewLinearHash())
	case skAvl:
		return set.NewSetMap(avl.NewAvlTree())
	case skImmAvl:
		return set.NewSetMap(avl.NewImmutableAvlTree())
	case skBp:
		return set.NewSetMap(bptree.NewBpMap(maxi(2, ns)))
	case skMapSet:
		return set.NewMapSet(set.NewSortedSet(maxi(0, init)))
	case skOther:
		return &otherSet{set.NewSortedSet(maxi(0, init))}
	}
	panic("set kind")
}

func setOrdered(kind int) bool { return kind != skHash && kind != skLinear }

func sortedInts2(m map[int]bool) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// checkSet compares a set with the item numbers it must have.
func checkSet(m *Mon, what string, u *Universe, s types.Set, ordered bool, want map[int]bool, index func(types.Hashable) int, item func(int) types.Hashable) {
	if u.cnt != nil {
		n := int64(len(want) + 20)
		u.cnt.begin(100*n*n + 100000)
	}
	m.Check(s.Size() == len(want), "%s has size %d, expected %d", what, s.Size(), len(want))
	seen := map[int]bool{}
	prev := -1
	for x, next := s.Items()(); next != nil; x, next = next() {
		k := index(x)
		m.Check(want[k], "%s yields %v, which is not a member", what, x)
		m.Check(!seen[k], "%s yields item %d twice", what, k)
		if ordered {
			m.Check(k > prev, "%s yields item %d after item %d", what, k, prev)
		}
		prev = k
		seen[k] = true
	}
	m.Check(len(seen) == len(want), "%s yields %d items, expected %d", what, len(seen), len(want))
	for k := 0; k < u.n; k += 1 + u.n/100 {
		if u.cnt != nil {
			u.cnt.begin(int64(100*u.n) + 100000)
		}
		m.Check(s.Has(item(k)) == want[k], "%s: membership of item %d is %v", what, k, !want[k])
	}
}

func runSet(c *Case, m *Mon) {
	kind := c.p("sk")
	u := newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us"))
	s := makeSet(kind, c.p("init"), c.p("ns"))
	model := map[int]bool{}
	first := map[int]types.Hashable{} // the item that was added first
	idx := func(x types.Hashable) int { return u.index(x) }
	audit := func() {
		m.audits++
		checkSet(m, "the set", u, s, setOrdered(kind), model, idx, u.key)
		if ss, ok := s.(*set.SortedSet); ok {
			i := 0
			for _, k := range sortedInts2(model) {
				if u.cnt != nil {
					u.cnt.begin(int64(100*len(model)) + 100000)
				}
				x, err := ss.Get(i)
				m.Check(err == nil && u.index(x) == k, "get of index %d returned %v, %v", i, x, errText(err))
				x, err = ss.Item(u.key(k))
				m.Check(err == nil && sameItem(x, first[k]), "item lookup of %d returned %v, %v, not the item added first", k, x, errText(err))
				i++
			}
		}
	}
	audit()
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		k := op.a(0) % u.n
		m.ObsS(op.F)
		m.Obs(uint64(op.a(0)))
		if u.cnt != nil {
			n := int64(len(model) + 20)
			u.cnt.begin(20*n*n + 20000)
		}
		switch op.F {
		case "put":
			x := u.key(k)
			m.Check(s.Add(x) == nil, "add of item %d failed", k)
			if model[k] {
				m.Feat("added a present item")
			} else {
				first[k] = x
			}
			model[k] = true
		case "rem":
			err := s.Delete(u.key(k))
			m.Check((err == nil) == model[k], "delete of item %d: %v, present before: %v", k, errText(err), model[k])
			if model[k] {
				m.Feat("deleted")
				m.Nontrivial()
			}
			delete(model, k)
		case "has", "get":
			m.Check(s.Has(u.key(k)) == model[k], "membership of item %d is %v", k, !model[k])
		case "ext":
			var xs []types.Hashable
			for j := op.a(1) % 12; j > 0; j-- {
				y := (k + j*5) % u.n
				x := u.key(y)
				if !model[y] {
					first[y] = x
				}
				model[y] = true
				xs = append(xs, x)
			}
			if u.cnt != nil {
				u.cnt.limit *= 20
			}
			m.Check(s.Extend(kiter(xs)) == nil, "extend failed")
			m.Feat("extended")
		}
		m.Check(s.Size() == len(model), "size is %d, expected %d", s.Size(), len(model))
		if every := maxi(1, c.p("aud")); i%every == every-1 {
			audit()
		}
	}
	m.step = len(c.Ops)
	audit()
}

// runMapSet exercises both faces of the map-entry set: the map operations and
// the set operations on entries.
func runMapSet(c *Case, m *Mon) {
	u := newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us"))
	ms := set.NewMapSet(set.NewSortedSet(c.p("init")))
	r := &mapRun{m: m, c: c, u: u, s: fromMap(ms, true), model: map[int]int{}, vk: c.p("vk")}
	entry := func(k int, v interface{}) types.Hashable { return &types.MapEntry{Key: u.key(k), Value: v} }
	every := maxi(1, c.p("aud"))
	for i, op := range c.Ops {
		m.step = i
		k := op.a(0) % u.n
		_, present := r.model[k]
		r.begin()
		switch op.F {
		case "add": // entry; a present one stays
			r.token++
			m.Check(ms.Add(entry(k, value(r.vk, r.token))) == nil, "add of an entry failed")
			if !present {
				r.model[k] = r.token
			} else {
				m.Feat("added a present entry")
			}
			m.ops++
		case "del":
			err := ms.Delete(entry(k, nil))
			m.Check((err == nil) == present, "delete of entry %d: %v, present before: %v", k, errText(err), present)
			delete(r.model, k)
			m.ops++
		case "ext":
			var xs []types.Hashable
			for j := op.a(1) % 8; j > 0; j-- {
				y := (k + j*5) % u.n
				r.token++
				xs = append(xs, entry(y, value(r.vk, r.token)))
				if _, ok := r.model[y]; !ok {
					r.model[y] = r.token
				}
			}
			if u.cnt != nil {
				u.cnt.limit *= 20
			}
			m.Check(ms.Extend(kiter(xs)) == nil, "extend failed")
			m.ops++
		case "item":
			x, err := ms.Item(entry(k, nil))
			m.Check((err == nil) == present, "item lookup of entry %d: %v, present: %v", k, errText(err), present)
			if present {
				me, ok := x.(*types.MapEntry)
				m.Check(ok && u.index(me.Key) == k && sameValue(r.vk, r.model[k], me.Value), "item lookup of entry %d returned %v", k, x)
			}
			m.Check(ms.Has(entry(k, nil)) == present, "membership of entry %d is %v", k, !present)
			m.ops++
		default:
			r.do(op)
		}
		m.ObsS(op.F)
		m.Obs(uint64(k))
		if i%every == every-1 {
			r.audit()
		}
	}
	m.step = len(c.Ops)
	r.audit()
	if m.feats["overwrite"] > 0 && m.feats["remove"] > 0 {
		m.Nontrivial()
	}
}

// runRandom draws from a sorted set until every member must have come up.
func runRandom(c *Case, m *Mon) {
	u := newUniverse(ktInstr, 0, c.p("n")+1, 0)
	u.cnt = nil
	s := set.NewSortedSet(0)
	_, err := s.Random()
	m.Check(err != nil, "a random pick from an empty set succeeded")
	n := c.p("n")
	for _, k := range newRng(uint64(c.p("us")), 1).Perm(n) {
		s.Add(&IKey{id: k})
	}
	if c.p("del") == 1 {
		s.Add(&IKey{id: n})
		s.Delete(&IKey{id: n})
	}
	seen := map[int]bool{}
	// The chance that a uniform pick misses some member is below n*exp(-80).
	for i := 0; i < 80*n; i++ {
		x, err := s.Random()
		m.Check(err == nil, "a random pick failed: %v", errText(err))
		ik, ok := x.(*IKey)
		m.Check(ok && ik != nil && ik.id < n, "a random pick returned %v, which is not a member", x)
		seen[ik.id] = true
		m.ops++
	}
	m.Check(len(seen) == n, "%d picks returned only %d of %d members", 80*n, len(seen), n)
	m.Check(s.Size() == n, "picking changed the size")
	m.audits++
	m.Obs(uint64(n))
	m.Feat("random picks")
	m.Nontrivial()
}

// ---- algebra ----

func runAlgebra(c *Case, m *Mon) {
	u := newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us"))
	rng := newRng(uint64(c.p("us")), uint64(c.Idx), 41)
	ka, kb := c.p("ka"), c.p("kb")
	isMap := ka == skMapSet
	a, b := makeSet(ka, c.p("init"), c.p("ns")), makeSet(kb, c.p("init"), c.p("ns"))
	ma, mb := map[int]bool{}, map[int]bool{}
	va, vb := map[int]int{}, map[int]int{}
	token := 0
	item := func(k, t int) types.Hashable {
		if isMap {
			return &types.MapEntry{Key: u.key(k), Value: t}
		}
		return u.key(k)
	}
	lim := func() {
		if u.cnt != nil {
			n := int64(u.n + 20)
			u.cnt.begin(100*n*n + 100000)
		}
	}
	for _, op := range c.Ops { // "a" k, "b" k, "c" k (both), "x" k, "y" k (delete)
		k := op.a(0) % u.n
		lim()
		m.ops++
		m.ObsS(op.F)
		m.Obs(uint64(k))
		token++
		if op.F == "a" || op.F == "c" {
			a.Add(item(k, token))
			if !ma[k] {
				va[k] = token
			}
			ma[k] = true
		}
		token++
		if op.F == "b" || op.F == "c" {
			b.Add(item(k, token))
			if !mb[k] {
				vb[k] = token
			}
			mb[k] = true
		}
		if op.F == "x" && ma[k] {
			a.Delete(item(k, 0))
			delete(ma, k)
		}
		if op.F == "y" && mb[k] {
			b.Delete(item(k, 0))
			delete(mb, k)
		}
	}
	_ = rng
	index := func(x types.Hashable) int {
		if isMap {
			me, ok := x.(*types.MapEntry)
			if !ok || me == nil {
				return -1
			}
			return u.index(me.Key)
		}
		return u.index(x)
	}
	probe := func(k int) types.Hashable { return item(k, -1) }
	values := func(what string, s types.Set, val func(k int) int) {
		if !isMap {
			return
		}
		for x, next := s.Items()(); next != nil; x, next = next() {
			me := x.(*types.MapEntry)
			k := u.index(me.Key)
			m.Check(me.Value == val(k), "%s: the entry of key %d has value %v, expected token %d", what, k, me.Value, val(k))
		}
	}
	left := func(k int) int {
		if ma[k] {
			return va[k]
		}
		return vb[k]
	}
	operands := func(what string) {
		checkSet(m, "the left operand after "+what, u, a, setOrdered(ka), ma, index, probe)
		checkSet(m, "the right operand after "+what, u, b, setOrdered(kb), mb, index, probe)
		values("the left operand after "+what, a, func(k int) int { return va[k] })
		values("the right operand after "+what, b, func(k int) int { return vb[k] })
		m.audits++
	}
	operands("building it")
	type setOp struct {
		name string
		f    func(x, y types.Set) (types.Set, error)
		in   func(x, y bool) bool
	}
	viaFunc := c.p("func") == 1
	pick := func(method, function func(x, y types.Set) (types.Set, error)) func(x, y types.Set) (types.Set, error) {
		if viaFunc {
			return function
		}
		return method
	}
	ops := []setOp{
		{"union", pick(func(x, y types.Set) (types.Set, error) { return x.Union(y) }, set.Union), func(x, y bool) bool { return x || y }},
		{"intersection", pick(func(x, y types.Set) (types.Set, error) { return x.Intersect(y) }, set.Intersect), func(x, y bool) bool { return x && y }},
		{"difference", pick(func(x, y types.Set) (types.Set, error) { return x.Subtract(y) }, set.Subtract), func(x, y bool) bool { return x && !y }},
	}
	for _, o := range ops {
		lim()
		self, err := o.f(a, a)
		m.Check(err == nil && self != nil, "%s of a set with itself failed: %v", o.name, errText(err))
		want := map[int]bool{}
		if o.in(true, true) {
			want = ma
		}
		_, isLin := self.(*set.SetMap)
		checkSet(m, "the "+o.name+" of a set with itself", u, self, !isLin, want, index, probe)
		values("the "+o.name+" of a set with itself", self, func(k int) int { return va[k] })
		lim()
		for k := 0; k < mini(u.n, 3); k++ {
			if self.Has(probe(k)) {
				m.Check(self.Delete(probe(k)) == nil, "deleting from the %s of a set with itself failed", o.name)
			} else {
				m.Check(self.Add(item(k, 0)) == nil, "adding to the %s of a set with itself failed", o.name)
			}
		}
		operands("changing the " + o.name + " of a set with itself")
		lim()
		s, err := o.f(a, b)
		m.Check(err == nil && s != nil, "%s failed: %v", o.name, errText(err))
		want = map[int]bool{}
		for k := 0; k < u.n; k++ {
			if o.in(ma[k], mb[k]) {
				want[k] = true
			}
		}
		ordered := false
		switch s.(type) {
		case *set.SortedSet, *set.MapSet:
			ordered = true
		}
		checkSet(m, "the "+o.name, u, s, ordered, want, index, probe)
		values("the "+o.name, s, left)
		operands(o.name)
		// The result is a set of its own.
		lim()
		for k := 0; k < mini(u.n, 6); k++ {
			if want[k] {
				m.Check(s.Delete(probe(k)) == nil, "deleting from the %s failed", o.name)
				delete(want, k)
			} else {
				m.Check(s.Add(item(k, 0)) == nil, "adding to the %s failed", o.name)
				want[k] = true
			}
		}
		checkSet(m, "the changed "+o.name, u, s, ordered, want, index, probe)
		operands("changing the " + o.name)
	}
	sub, sup := true, true
	over := false
	for k := 0; k < u.n; k++ {
		if ma[k] && !mb[k] {
			sub = false
		}
		if mb[k] && !ma[k] {
			sup = false
		}
		if ma[k] && mb[k] {
			over = true
		}
	}
	lim()
	preds := []struct {
		name string
		got  bool
		want bool
	}{}
	add := func(name string, got, want bool) {
		preds = append(preds, struct {
			name string
			got  bool
			want bool
		}{name, got, want})
	}
	if viaFunc {
		add("subset", set.Subset(a, b), sub)
		add("proper subset", set.ProperSubset(a, b), sub && !sup)
		add("superset", set.Superset(a, b), sup)
		add("proper superset", set.ProperSuperset(a, b), sup && !sub)
	} else {
		add("subset", a.Subset(b), sub)
		add("proper subset", a.ProperSubset(b), sub && !sup)
		add("superset", a.Superset(b), sup)
		add("proper superset", a.ProperSuperset(b), sup && !sub)
	}
	if x, ok := a.(*set.SortedSet); ok {
		add("overlap with itself", x.Overlap(x), len(ma) > 0)
		if y, ok := b.(*set.SortedSet); ok {
			add("overlap", x.Overlap(y), over)
			add("overlap the other way round", y.Overlap(x), over)
		}
	}
	add("subset of itself", a.Subset(a), true)
	add("proper subset of itself", a.ProperSubset(a), false)
	add("superset of itself", a.Superset(a), true)
	add("proper superset of itself", a.ProperSuperset(a), false)
	for _, p := range preds {
		m.Check(p.got == p.want, "%s is %v, expected %v", p.name, p.got, p.want)
		m.Feat(fmt.Sprintf("%s %v", p.name, p.want))
	}
	operands("the predicates")
	if len(ma) > 0 && len(mb) > 0 {
		m.Nontrivial()
	}
}

func init() {
	register(&Property{
		ID:   "C13",
		Rule: "Histories of add/delete/extend/has against a reference set for the sorted set and sets backed by both hash tables, both AVL trees and the B+Tree map; map and entry histories on the map-entry set; random picks from sorted sets of 1 to 60 and up to 2000 members until every member must have come up. Non-trivial: a successful deletion (sets), an overwrite and a removal (map-entry set), or a pick case.",
		Families: []Family{
			{
				Name: "enum",
				N: func(t bool) int {
					if t {
						return ipow(6, 6) * nSetKinds / 2
					}
					return ipow(6, 4) * nSetKinds
				},
				Gen: func(r *Rng, j int, t bool) *Case {
					l := 4
					if t {
						l = 6
						j = 2*j + r.N(2)
					}
					return &Case{Kind: "set", P: map[string]int{"sk": j % nSetKinds, "n": 4, "hm": r.Pick(0, 1), "init": r.Pick(0, 1, 2), "ns": 2 + r.N(3)}, Ops: enumOps(j/nSetKinds, l, 3)}
				},
			},
			{
				Name: "sets",
				N:    constN(16000, 160000),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 3) {
						kt = r.N(nKeyTypes)
					}
					n := r.In(2, 40)
					ops := mapHistory(r, n, r.In(5, 80))
					for i := range ops {
						if r.P(1, 15) {
							ops[i] = Op{F: "ext", A: []int{r.N(n), r.N(12)}}
						}
					}
					return &Case{Kind: "set", P: map[string]int{
						"sk": j % nSetKinds, "kt": kt, "hm": r.N(nHashModes), "n": n, "us": r.N(1000), "init": r.Pick(0, 1, 2, 10, 30), "ns": r.In(2, 8), "aud": r.Pick(1, 4),
					}, Ops: ops}
				},
			},
			{
				Name: "large sets",
				N:    constN(200, 1600),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(200, 700)
					return &Case{Kind: "set", P: map[string]int{
						"sk": j % nSetKinds, "hm": r.Pick(0, 5, 6), "n": n, "init": r.Pick(0, 10, 500), "ns": r.In(4, 30), "aud": 200,
					}, Ops: mapHistory(r, n, 2*n)}
				},
			},
			{
				Name: "huge sets",
				N:    constN(24, 160),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(2000, 4000)
					if k := j % nSetKinds; k == skSorted || k == skHash || k == skLinear {
						n = r.Pick(4000, 10000, 30000)
					}
					return &Case{Kind: "set", P: map[string]int{
						"sk": j % nSetKinds, "hm": r.Pick(0, 5, 6), "n": n, "init": r.Pick(0, 10, 500, n), "ns": r.Pick(4, 16, 100, 256), "aud": n,
					}, Ops: hugeHistory(r, n)}
				},
			},
			{
				Name: "large map entries",
				N:    constN(200, 1600),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(100, 300, 1000, 3000)
					ops := mapHistory(r, n, 2*n)
					for i := range ops {
						if r.P(1, 8) {
							ops[i] = Op{F: r.PickS("add", "del", "item", "ext", "add"), A: []int{r.N(n), r.N(12)}}
						}
					}
					return &Case{Kind: "mapset", P: map[string]int{"n": n, "vk": r.N(4), "init": r.Pick(0, 1, 10, n), "aud": n}, Ops: ops}
				},
			},
			{
				Name: "map entries",
				N:    constN(12000, 120000),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 3) {
						kt = r.N(nKeyTypes)
					}
					n := r.In(2, 24)
					ops := mapHistory(r, n, r.In(5, 60))
					for i := range ops {
						if r.P(1, 4) {
							ops[i] = Op{F: r.PickS("add", "del", "item", "ext", "add"), A: []int{r.N(n), r.N(12)}}
						}
					}
					return &Case{Kind: "mapset", P: map[string]int{
						"kt": kt, "hm": r.N(nHashModes), "n": n, "us": r.N(1000), "vk": r.N(4), "init": r.Pick(0, 1, 10), "aud": r.Pick(1, 4),
					}, Ops: ops}
				},
			},
			{
				Name: "picks",
				N:    constN(72, 288),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := 1 + j%72
					if n > 60 {
						n = r.Pick(100, 127, 128, 255, 256, 257, 300, 1000, 2000)
					}
					return &Case{Kind: "random", P: map[string]int{"n": n, "us": r.N(1000), "del": r.N(2)}}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			switch c.Kind {
			case "set":
				runSet(c, m)
			case "mapset":
				runMapSet(c, m)
			default:
				runRandom(c, m)
			}
		},
	})
	// All pairs of subsets of 4 items for all pairs of kinds.
	pairKinds := [][2]int{{skMapSet, skMapSet}}
	for a := 0; a < nSetKinds; a++ {
		for b := 0; b < nSetKinds; b++ {
			pairKinds = append(pairKinds, [2]int{a, b})
		}
		pairKinds = append(pairKinds, [2]int{a, skOther}, [2]int{skOther, a})
	}
	register(&Property{
		ID:   "C14",
		Rule: "Union, intersection, difference and all predicates of two sets, through methods and package functions, compared with the mathematical result; operands are audited before and after. All pairs of subsets of 4 items for 49 pairs of set kinds (one of them an implementation that is not the library's), and random larger sets (up to 3000 items) with many overlaps or in blocks. Non-trivial: both operands non-empty.",
		Families: []Family{
			{
				Name: "subsets",
				N:    func(t bool) int { return 256 * len(pairKinds) },
				Gen: func(r *Rng, j int, t bool) *Case {
					pk := pairKinds[j%len(pairKinds)]
					j /= len(pairKinds)
					c := &Case{Kind: "algebra", P: map[string]int{"ka": pk[0], "kb": pk[1], "n": 4, "hm": r.Pick(0, 1), "init": r.Pick(0, 1, 4), "ns": 2 + r.N(3), "func": r.N(2)}}
					for k := 0; k < 4; k++ {
						if j>>k&1 == 1 {
							c.Ops = append(c.Ops, Op{F: "a", A: []int{k}})
						}
						if j>>(4+k)&1 == 1 {
							c.Ops = append(c.Ops, Op{F: "b", A: []int{k}})
						}
					}
					return c
				},
			},
			{
				Name: "random",
				N:    constN(12000, 120000),
				Gen: func(r *Rng, j int, t bool) *Case {
					pk := pairKinds[r.N(len(pairKinds))]
					if j%8 == 0 {
						pk = pairKinds[0]
					}
					kt := 0
					if r.P(1, 3) {
						kt = r.N(nKeyTypes)
					}
					n := r.In(2, 40)
					c := &Case{Kind: "algebra", P: map[string]int{
						"ka": pk[0], "kb": pk[1], "kt": kt, "hm": r.N(nHashModes), "n": n, "us": r.N(1000), "init": r.Pick(0, 1, 10), "ns": r.In(2, 8), "func": r.N(2),
					}}
					bias := []string{"a", "b", "c", r.PickS("a", "b", "c"), r.PickS("x", "y", "c")}
					for i := r.In(1, 2*n); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: r.PickS(bias...), A: []int{r.N(n)}})
					}
					return c
				},
			},
			{
				Name: "large",
				N:    constN(160, 1600),
				Gen: func(r *Rng, j int, t bool) *Case {
					pk := pairKinds[r.N(len(pairKinds))]
					n := r.In(150, 450)
					c := &Case{Kind: "algebra", P: map[string]int{
						"ka": pk[0], "kb": pk[1], "hm": r.Pick(0, 5, 6), "n": n, "init": 10, "ns": r.In(4, 16), "func": r.N(2),
					}}
					for i := 0; i < n; i++ {
						c.Ops = append(c.Ops, Op{F: r.PickS("a", "b", "c", "c"), A: []int{r.N(n)}})
					}
					return c
				},
			},
			{
				// One operand much larger, disjoint blocks, long equal parts.
				Name: "huge",
				N:    constN(74, 740),
				Gen: func(r *Rng, j int, t bool) *Case {
					pk := pairKinds[j%len(pairKinds)]
					n := r.Pick(500, 1000, 3000)
					c := &Case{Kind: "algebra", P: map[string]int{
						"ka": pk[0], "kb": pk[1], "hm": r.Pick(0, 5, 6), "n": n, "init": r.Pick(0, 10, n), "ns": r.Pick(4, 16, 100), "func": r.N(2),
					}}
					for lo := 0; lo < n; {
						hi := mini(n, lo+r.In(1, r.Pick(3, 30, n)))
						f := r.PickS("a", "b", "c", "")
						for ; lo < hi; lo++ {
							if f != "" {
								c.Ops = append(c.Ops, Op{F: f, A: []int{lo}})
							}
						}
					}
					perm := r.Perm(len(c.Ops))
					if r.P(1, 2) {
						ops := make([]Op, len(perm))
						for i, p := range perm {
							ops[i] = c.Ops[p]
						}
						c.Ops = ops
					}
					return c
				},
			},
		},
		Run: runAlgebra,
	})
}
