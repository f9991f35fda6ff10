package main

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

// C35: map entries, list nodes and sets of map entries compare by what they
// hold; nothing that holds items equals or precedes something that does not.

// wrapped is a value that wraps a key.
type wrapped struct {
	x   types.Hashable
	k   int
	how string
}

func runWrapped(c *Case, m *Mon) {
	u := newUniverse(c.p("kt"), c.p("hm"), maxi(2, c.p("n")), c.p("us"))
	r := newRng(uint64(c.p("us")), 35)
	var all []wrapped
	way := func(k int, how string, x types.Hashable) { all = append(all, wrapped{x, k, how}) }
	d := linked.New()
	var order []int
	for i := r.In(2, 12); i > 0; i-- {
		k := r.N(u.n)
		if r.P(1, 2) {
			d.EnqueFront(u.key(k))
			order = append([]int{k}, order...)
		} else {
			d.EnqueBack(u.key(k))
			order = append(order, k)
		}
	}
	i := 0
	for n := d.Head; n != nil; n = n.Next {
		m.Check(i < len(order), "the list has more than %d nodes", len(order))
		way(order[i], "node", n)
		i++
	}
	m.Check(i == len(order), "the list has %d nodes, expected %d", i, len(order))
	for i := r.In(2, 8); i > 0; i-- {
		k := r.N(u.n)
		way(k, "entry", &types.MapEntry{Key: u.key(k), Value: r.N(3)})
		k = r.N(u.n)
		way(k, "entry", &types.MapEntry{Key: u.key(k), Value: nil})
		k = r.N(u.n)
		way(k, "key", u.key(k))
	}
	for _, a := range all {
		for _, b := range all {
			// a wrapper compares with one of its own kind and with a bare key
			if a.how != b.how && b.how != "key" || a.how == "key" {
				continue
			}
			if u.cnt != nil {
				u.cnt.begin(1000)
			}
			m.ops += 3
			m.Check(a.x.Equals(b.x) == (a.k == b.k), "%s of key %d equals %s of key %d: %v", a.how, a.k, b.how, b.k, a.x.Equals(b.x))
			m.Check(a.x.Less(b.x) == (a.k < b.k), "%s of key %d is less than %s of key %d: %v", a.how, a.k, b.how, b.k, a.x.Less(b.x))
			if a.k == b.k {
				m.Check(a.x.Hash() == b.x.Hash(), "%s and %s of key %d have different hashes", a.how, b.how, a.k)
				if a.x != b.x {
					m.Feat("equal " + a.how + " and " + b.how)
					m.Nontrivial()
				}
			}
			m.Obs(uint64(a.k*1000 + b.k))
		}
	}
	m.audits++
}

// runStrangers compares what holds items with what does not.
func runStrangers(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 36)
	u := newUniverse(c.p("kt"), c.p("hm"), 12, c.p("us"))
	mk := func(i int) types.Hashable { return u.item(i) }
	scalars := []types.Hashable{types.Int(r.N(5)), types.String("x"), types.ByteSlice{}, types.UInt8(0), types.Int64(-1), &types.MapEntry{Key: types.Int(1), Value: 2}, &IKey{id: r.N(4)}}
	for kind := 0; kind < nContKinds; kind++ {
		ids := []int{}
		for i := r.N(4); i > 0; i-- {
			ids = append(ids, len(ids)*2)
		}
		x := build(kind, ids, mk, r)
		for _, s := range scalars {
			m.ops += 2
			m.Check(!x.Equals(s), "the %s %v equals %T %v", contNames[kind], ids, s, s)
			m.Check(!x.Less(s), "the %s %v is less than %T %v", contNames[kind], ids, s, s)
			if _, entry := s.(*types.MapEntry); entry {
				continue
			}
			m.Check(!s.Equals(x), "%T %v equals the %s %v", s, s, contNames[kind], ids)
			m.Check(!s.Less(x), "%T %v is less than the %s %v", s, s, contNames[kind], ids)
		}
	}
	m.audits++
	m.Obs(uint64(c.p("us")))
	m.Feat("containers and other values")
	m.Nontrivial()
}

// runMapSets compares sets of map entries with each other and tries to add
// what is not an entry.
func runMapSets(c *Case, m *Mon) {
	u := newUniverse(c.p("kt"), c.p("hm"), maxi(3, c.p("n")), c.p("us"))
	r := newRng(uint64(c.p("us")), 37)
	const sets = 4
	type state struct {
		s     *set.MapSet
		model map[int]int
	}
	var ss [sets]state
	for i := range ss {
		ss[i] = state{set.NewMapSet(set.NewSortedSet(r.Pick(0, 1, 20))), map[int]int{}}
	}
	keysOf := func(x state) string {
		ks := []int{}
		for k := range x.model {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		return fmt.Sprint(ks)
	}
	same := func(x state) {
		m.Check(x.s.Size() == len(x.model), "the set of entries has size %d, expected %d", x.s.Size(), len(x.model))
		n := 0
		for k, v, next := x.s.Iterate()(); next != nil; k, v, next = next() {
			want, has := x.model[u.index(k)]
			m.Check(has && v == want, "the set of entries has %v: %v, expected %v %v", k, v, want, has)
			n++
		}
		m.Check(n == len(x.model), "the set of entries yields %d entries, expected %d", n, len(x.model))
		m.audits++
	}
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		x := ss[op.a(0)%sets]
		k := op.a(1) % u.n
		if u.cnt != nil {
			u.cnt.begin(100000)
		}
		switch op.F {
		case "put":
			m.Check(x.s.Put(u.key(k), i) == nil, "put failed")
			x.model[k] = i
		case "del":
			if _, has := x.model[k]; has {
				m.Check(x.s.Delete(u.key(k)) == nil, "delete failed")
				delete(x.model, k)
			}
		case "copy": // the same keys with other values
			for k := range x.model {
				y := ss[op.a(1)%sets]
				if _, has := y.model[k]; !has {
					y.s.Put(u.key(k), -i)
					y.model[k] = -i
				}
			}
		case "bad add":
			m.Check(x.s.Add(u.key(k)) != nil, "adding the bare key %d to a set of entries is not refused", k)
			m.Feat("refused")
			same(x)
		case "bad extend":
			// entries before the bare key are added, none behind it
			k2 := (k + 1) % u.n
			items := []types.Hashable{u.key(k2)}
			if op.a(2)%2 == 0 {
				if _, has := x.model[k]; !has {
					items = append([]types.Hashable{&types.MapEntry{Key: u.key(k), Value: i}}, items...)
					x.model[k] = i
				}
			}
			m.Check(x.s.Extend(kiter(items)) != nil, "extending a set of entries by a bare key is not refused")
			m.Feat("refused")
			same(x)
		case "compare":
			for a := range ss {
				for b := range ss {
					want := keysOf(ss[a]) == keysOf(ss[b])
					m.Check(ss[a].s.Equals(ss[b].s) == want, "sets of entries with keys %s and %s are equal: %v", keysOf(ss[a]), keysOf(ss[b]), !want)
					if want && a != b && len(ss[a].model) > 0 {
						m.Feat("equal sets of entries")
						m.Nontrivial()
					}
				}
				m.Check(!ss[a].s.Equals(types.Int(3)) && !ss[a].s.Equals(&types.MapEntry{Key: types.Int(1)}), "a set of entries equals something that is not one")
			}
			m.ObsS(keysOf(ss[0]) + keysOf(ss[1]))
			m.audits++
		}
	}
	for _, x := range ss {
		same(x)
	}
}

func init() {
	kts := []int{ktInstr, ktInstr, ktInt, ktString, ktBytes, ktInt8, ktUInt64}
	register(&Property{
		ID:   "C35",
		Rule: "Map entries and nodes of linked lists over keys of several types are compared with each other and with bare keys; containers of six kinds are compared with scalars, entries and keys; sets of map entries go through random histories, are compared pairwise, and are offered bare keys, which must be refused without effect. Non-trivial: different objects that hold equal keys were compared, or a refusal or comparison with a stranger took place.",
		Families: []Family{
			{Name: "wrapped", N: constN(24000, 240000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "wrapped", P: map[string]int{"kt": kts[j%len(kts)], "hm": r.N(nHashModes), "n": r.Pick(2, 3, 6, 30), "us": r.N(1 << 30)}}
			}},
			{Name: "strangers", N: constN(4500, 45000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "strangers", P: map[string]int{"kt": kts[j%len(kts)], "hm": r.N(nHashModes), "us": r.N(1 << 30)}}
			}},
			{Name: "map sets", N: constN(20000, 200000), Gen: func(r *Rng, j int, t bool) *Case {
				n := r.Pick(3, 6, 20)
				c := &Case{Kind: "mapsets", P: map[string]int{"kt": kts[j%len(kts)], "hm": r.N(nHashModes), "n": n, "us": r.N(1 << 30)}}
				for i := r.Pick(4, 15, 60); i > 0; i-- {
					f := r.PickS("put", "put", "put", "del", "del", "copy", "compare", "bad add", "bad extend")
					c.Ops = append(c.Ops, Op{F: f, A: []int{r.N(4), r.N(n), r.N(2)}})
				}
				c.Ops = append(c.Ops, Op{F: "compare"})
				return c
			}},
		},
		Run: func(c *Case, m *Mon) {
			switch c.Kind {
			case "wrapped":
				runWrapped(c, m)
			case "strangers":
				runStrangers(c, m)
			default:
				runMapSets(c, m)
			}
		},
	})
}
