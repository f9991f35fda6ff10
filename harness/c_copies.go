package main

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
)

// C30: several collections derived from each other, all compared with their
// own model after every operation on any of them.

type cpObj struct {
	what  string
	l     *list.List
	s     *list.Sorted
	st    types.Set // *set.SortedSet, *set.SetMap or *set.MapSet
	slice []types.Hashable

	seq  []types.Hashable // model of lists and slices
	ids  []int            // model of sorted lists and sets, ascending
	vals map[int]int      // model of map sets
	cap  int              // of fixed lists, -1 otherwise
	dups bool
}

func (o *cpObj) isMap() bool { _, ok := o.st.(*set.MapSet); return ok }

func (o *cpObj) has(k int) bool {
	i := sort.SearchInts(o.ids, k)
	return i < len(o.ids) && o.ids[i] == k
}

func (o *cpObj) addID(k int) bool {
	if o.cap >= 0 && len(o.ids) >= o.cap && (o.dups || !o.has(k)) {
		return false
	}
	if o.has(k) && !o.dups {
		return true
	}
	i := sort.SearchInts(o.ids, k)
	o.ids = append(o.ids, 0)
	copy(o.ids[i+1:], o.ids[i:])
	o.ids[i] = k
	return true
}

func (o *cpObj) delID(i int) { o.ids = append(append([]int{}, o.ids[:i]...), o.ids[i+1:]...) }

type cpRun struct {
	m     *Mon
	u     *Universe
	objs  []*cpObj
	token int
}

func (r *cpRun) key(k int) types.Hashable { return r.u.key(k % r.u.n) }

func (r *cpRun) entry(k int) types.Hashable {
	r.token++
	return &types.MapEntry{Key: r.key(k), Value: r.token}
}

func (r *cpRun) audit(after string) {
	m := r.m
	m.audits++
	for n, o := range r.objs {
		name := fmt.Sprintf("after %s: %s %d", after, o.what, n)
		if r.u.cnt != nil {
			r.u.cnt.begin(10000000)
		}
		switch {
		case o.slice != nil:
			full := o.slice[:cap(o.slice)]
			for i := range o.seq {
				m.Check(sameItem(full[i], o.seq[i]), "%s: element %d is %v, expected %v", name, i, full[i], o.seq[i])
			}
		case o.l != nil:
			drainSeq(m, name, o.l.Items(), o.seq)
			m.Check(o.l.Size() == len(o.seq), "%s: size is %d, expected %d", name, o.l.Size(), len(o.seq))
			m.Check(o.l.Full() == (o.cap >= 0 && len(o.seq) == o.cap), "%s: full is %v with %d of %d", name, o.l.Full(), len(o.seq), o.cap)
		default:
			var it types.KIterator
			size := 0
			if o.s != nil {
				it, size = o.s.Items(), o.s.Size()
				m.Check(o.s.Full() == (o.cap >= 0 && len(o.ids) == o.cap), "%s: full is %v with %d of %d", name, o.s.Full(), len(o.ids), o.cap)
			} else {
				it, size = o.st.Items(), o.st.Size()
			}
			var got []int
			for x, next := it(); next != nil; x, next = next() {
				if o.isMap() {
					me, ok := x.(*types.MapEntry)
					m.Check(ok, "%s yields %v", name, x)
					k := r.u.index(me.Key)
					m.Check(me.Value == o.vals[k], "%s: key %d has value %v, expected token %d", name, k, me.Value, o.vals[k])
					got = append(got, k)
				} else {
					got = append(got, r.u.index(x))
				}
				m.Check(len(got) <= len(o.ids), "%s yields more than %d items: %v instead of %v", name, len(o.ids), got, o.ids)
			}
			if _, ok := o.st.(*set.SetMap); ok {
				sort.Ints(got)
			}
			m.Check(fmt.Sprint(got) == fmt.Sprint(append([]int{}, o.ids...)) && size == len(o.ids), "%s holds %v (size %d), expected %v", name, got, size, o.ids)
		}
	}
}

func (r *cpRun) push(o *cpObj) {
	if len(r.objs) < 10 {
		r.objs = append(r.objs, o)
	} else {
		r.objs[1+len(o.ids)%9] = o
	}
}

func copyInts(xs []int) []int { return append([]int{}, xs...) }

func copyVals(m map[int]int) map[int]int {
	if m == nil {
		return nil
	}
	return copyModel(m)
}

// make adds a new collection of some kind and fill level.
func (r *cpRun) make(kind, n, cp int) {
	o := &cpObj{cap: -1}
	if kind%9 < 2 || kind%9 == 8 {
		for i := 0; i < n; i++ {
			o.seq = append(o.seq, r.key(i*7))
		}
	}
	fill := func(add func(x types.Hashable) error) {
		for i := 0; i < n; i++ {
			k := (i * 7) % r.u.n
			ok := o.addID(k)
			err := add(r.key(k))
			r.m.Check((err == nil) == ok, "%s: adding item %d: %v", o.what, k, errText(err))
		}
	}
	switch kind % 9 {
	case 0:
		o.what, o.l = "list", list.New(cp)
		for _, x := range o.seq {
			o.l.Append(x)
		}
	case 1:
		o.what, o.cap = "fixed list", maxi(cp, n)
		o.l = list.Fixed(o.cap)
		for _, x := range o.seq {
			o.l.Append(x)
		}
	case 2:
		o.what, o.s, o.dups = "sorted list with duplicates", list.NewSorted(cp, true), true
		fill(o.s.Add)
	case 3:
		o.what, o.s = "sorted list", list.NewSorted(cp, false)
		fill(o.s.Add)
	case 4:
		o.what, o.cap = "fixed sorted list", maxi(cp, n)
		o.s = list.NewFixedSorted(o.cap, false)
		fill(o.s.Add)
	case 5:
		o.what, o.st = "sorted set", set.NewSortedSet(cp)
		fill(o.st.Add)
	case 6:
		mp := []types.Map{hashtable.NewHashTable(cp), hashtable.NewLinearHash(), avl.NewAvlTree(), avl.NewImmutableAvlTree()}[cp%4]
		o.what, o.st = "set over a map", set.NewSetMap(mp)
		fill(o.st.Add)
	case 7:
		ms := set.NewMapSet(set.NewSortedSet(cp))
		o.what, o.st, o.vals = "map set", ms, map[int]int{}
		for i := 0; i < n; i++ {
			k := (i * 7) % r.u.n
			r.token++
			ms.Put(r.key(k), r.token)
			o.addID(k)
			o.vals[k] = r.token
		}
	case 8: // a slice with spare capacity
		o.what = "slice"
		o.slice = make([]types.Hashable, n, n+cp+1)
		copy(o.slice, o.seq)
		full := o.slice[:cap(o.slice)]
		for i := n; i < len(full); i++ {
			full[i] = r.key(i * 7)
			o.seq = append(o.seq, full[i])
		}
	}
	r.push(o)
}

// derive makes a collection from o (and p).
func (r *cpRun) derive(o, p *cpObj, how int) {
	m := r.m
	d := &cpObj{cap: o.cap, dups: o.dups, ids: copyInts(o.ids), seq: append([]types.Hashable{}, o.seq...), vals: copyVals(o.vals)}
	switch {
	case o.slice != nil:
		part := o.slice
		d.seq = append([]types.Hashable{}, o.slice...)
		switch how % 4 {
		case 0:
			d.what, d.l, d.cap = "list from slice", list.FromSlice(part), -1
		case 1, 2:
			d.dups, d.cap = how%4 == 1, -1
			for _, x := range part {
				d.addID(r.u.index(x))
			}
			d.what, d.s, d.seq = "sorted list from slice", list.SortedFromSlice(part, d.dups), nil
		case 3:
			for _, x := range part {
				d.addID(r.u.index(x))
			}
			d.what, d.st, d.seq = "sorted set from slice", set.FromSlice(part), nil
		}
		m.Feat("derived from a slice")
	case o.l != nil:
		d.what, d.l = "copy of list", o.l.Copy()
		m.Feat("copied a list")
	case o.s != nil:
		d.what, d.s = "copy of sorted list", o.s.Copy()
		m.Feat("copied a sorted list")
	default:
		ss, isSorted := o.st.(*set.SortedSet)
		how %= 8
		if how >= 2 && (p.st == nil || p.isMap() != o.isMap()) {
			how = 1
		}
		if how == 0 && isSorted {
			d.what, d.st = "copy of sorted set", ss.Copy()
			m.Feat("copied a sorted set")
			break
		}
		if how <= 1 {
			if o.isMap() {
				return
			}
			d.what, d.st = "sorted set from set", set.SortedFromSet(o.st)
			m.Feat("sorted set from a set")
			break
		}
		ops := []func(a, b types.Set) (types.Set, error){set.Union, set.Intersect, set.Subtract}
		if how >= 5 {
			ops = []func(a, b types.Set) (types.Set, error){
				func(a, b types.Set) (types.Set, error) { return a.Union(b) },
				func(a, b types.Set) (types.Set, error) { return a.Intersect(b) },
				func(a, b types.Set) (types.Set, error) { return a.Subtract(b) },
			}
		}
		which := (how - 2) % 3
		res, err := ops[which](o.st, p.st)
		m.Check(err == nil, "a set operation failed: %v", errText(err))
		d.what, d.st = []string{"union", "intersection", "difference"}[which], res
		d.ids = nil
		for k := 0; k < r.u.n; k++ {
			in := o.has(k) || p.has(k)
			if which == 1 {
				in = o.has(k) && p.has(k)
			} else if which == 2 {
				in = o.has(k) && !p.has(k)
			}
			if in {
				d.ids = append(d.ids, k)
				if d.vals != nil {
					if o.has(k) {
						d.vals[k] = o.vals[k]
					} else {
						d.vals[k] = p.vals[k]
					}
				}
			}
		}
		if o == p {
			m.Feat("set operation with itself")
		}
		if len(o.ids) == 0 || len(p.ids) == 0 {
			m.Feat("set operation with an empty set")
		}
		m.Feat("set operation")
	}
	r.push(d)
	m.Nontrivial()
}

// change applies one operation to o and its model.
func (r *cpRun) change(o, p *cpObj, how, k int) {
	m := r.m
	k %= r.u.n
	ok := func(err error, want bool, what string) {
		m.Check((err == nil) == want, "%s of %s: %v, expected success %v", what, o.what, errText(err), want)
	}
	switch {
	case o.slice != nil:
		if len(o.seq) > 0 {
			i := k % len(o.seq)
			x := r.key(k + how)
			o.slice[:cap(o.slice)][i] = x
			o.seq[i] = x
		}
	case o.l != nil:
		n := len(o.seq)
		room := o.cap < 0 || n < o.cap
		x := r.key(k)
		ins := func(i int) {
			o.seq = append(o.seq, nil)
			copy(o.seq[i+1:], o.seq[i:])
			o.seq[i] = x
		}
		switch how % 8 {
		case 0, 1:
			ok(o.l.Append(x), room, "append")
			if room {
				ins(n)
			}
		case 2:
			i := k % (n + 1)
			ok(o.l.Insert(i, x), room, "insert")
			if room {
				ins(i)
			}
		case 3:
			if n > 0 {
				ok(o.l.Set(k%n, x), true, "set")
				o.seq[k%n] = x
			}
		case 4:
			if n > 0 {
				i := k % n
				ok(o.l.Remove(i), true, "remove")
				o.seq = append(append([]types.Hashable{}, o.seq[:i]...), o.seq[i+1:]...)
			}
		case 5:
			if n > 0 {
				_, err := o.l.Pop()
				ok(err, true, "pop")
				o.seq = o.seq[:n-1]
			}
		case 6:
			if k%4 == 0 {
				o.l.Clear()
				o.seq = nil
			}
		case 7:
			if p != o && p.l != nil && (o.cap < 0 || n+len(p.seq) <= o.cap) && n+len(p.seq) < 10000 {
				ok(o.l.Extend(p.l.Items()), true, "extend")
				o.seq = append(append([]types.Hashable{}, o.seq...), p.seq...)
				m.Feat("extended by another list")
			}
		}
	case o.s != nil:
		switch how % 5 {
		case 0, 1:
			want := o.addID(k)
			ok(o.s.Add(r.key(k)), want, "add")
		case 2:
			has := o.has(k)
			ok(o.s.Delete(r.key(k)), has, "delete")
			if has {
				o.delID(sort.SearchInts(o.ids, k))
			}
		case 3:
			if len(o.ids) > 0 {
				i := k % len(o.ids)
				ok(o.s.Remove(i), true, "remove")
				o.delID(i)
			}
		case 4:
			if k%4 == 0 {
				o.s.Clear()
				o.ids = nil
			}
		}
	case o.isMap():
		ms := o.st.(*set.MapSet)
		has := o.has(k)
		switch how % 5 {
		case 0, 1:
			r.token++
			ok(ms.Put(r.key(k), r.token), true, "put")
			o.addID(k)
			o.vals[k] = r.token
			if has {
				m.Feat("overwrote in a map set")
			}
		case 2:
			e := r.entry(k)
			ok(ms.Add(e), true, "add")
			if !has {
				o.addID(k)
				o.vals[k] = r.token
			}
		default:
			_, err := ms.Remove(r.key(k))
			ok(err, has, "remove")
			if has {
				o.delID(sort.SearchInts(o.ids, k))
				delete(o.vals, k)
			}
		}
	default:
		switch how % 5 {
		case 0, 1, 2:
			ok(o.st.Add(r.key(k)), true, "add")
			o.addID(k)
		default:
			has := o.has(k)
			ok(o.st.Delete(r.key(k)), has, "delete")
			if has {
				o.delID(sort.SearchInts(o.ids, k))
			}
		}
	}
}

func runCopies(c *Case, m *Mon) {
	r := &cpRun{m: m, u: newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us"))}
	r.make(c.p("first"), c.p("fill"), c.p("cap"))
	r.audit("building")
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		m.ObsS(op.F)
		for _, a := range op.A {
			m.Obs(uint64(a))
		}
		if r.u.cnt != nil {
			r.u.cnt.begin(1000000)
		}
		a, b := r.objs[op.a(0)%len(r.objs)], r.objs[op.a(1)%len(r.objs)]
		switch op.F {
		case "make":
			r.make(op.a(0), op.a(1), op.a(2))
		case "derive":
			r.derive(a, b, op.a(2))
		case "change":
			r.change(a, b, op.a(2), op.a(3))
		case "nothing":
			r.push(&cpObj{what: "sorted set from nil", st: set.SortedFromSet(nil), cap: -1})
			m.Feat("sorted set from nil")
		}
		r.audit(op.String())
	}
	m.step = len(c.Ops)
}

func init() {
	register(&Property{
		ID:   "C30",
		Rule: "Up to ten collections and slices derived from each other (copies, from slices with spare capacity, from sets, results of all set operations including with itself and with empty sets), then changed in random order; after every operation all of them are compared with their own models, including capacity bounds. Non-trivial: at least one derivation.",
		Families: []Family{
			{Name: "one source", N: constN(60000, 400000), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "copies", P: map[string]int{"n": r.In(3, 12), "first": j % 9, "fill": r.Pick(0, 1, 2, 3, 5, 8), "cap": r.Pick(0, 1, 2, 4, 8, 9), "hm": r.N(nHashModes)}}
				c.Ops = append(c.Ops, Op{F: "derive", A: []int{0, 0, r.N(8)}})
				for i := r.In(2, 24); i > 0; i-- {
					c.Ops = append(c.Ops, Op{F: r.PickS("change", "change", "change", "change", "change", "derive"), A: []int{r.N(10), r.N(10), r.N(8), r.N(40)}})
				}
				return c
			}},
			{Name: "many", N: constN(30000, 200000), Gen: func(r *Rng, j int, t bool) *Case {
				kt := 0
				if r.P(1, 4) {
					kt = r.Pick(ktInt, ktString, ktBytes)
				}
				c := &Case{Kind: "copies", P: map[string]int{"n": r.In(3, 30), "kt": kt, "us": r.N(1000), "first": r.In(5, 8), "fill": r.Pick(0, 1, 5, 20), "cap": r.Pick(0, 4, 16), "hm": r.N(nHashModes)}}
				sets := r.Pick(5, 6, 7, 0)
				for i := r.In(5, 50); i > 0; i-- {
					switch r.N(8) {
					case 0:
						k := sets
						if r.P(1, 3) {
							k = r.N(9)
						}
						c.Ops = append(c.Ops, Op{F: "make", A: []int{k, r.Pick(0, 1, 3, 10), r.N(12)}})
					case 1, 2:
						c.Ops = append(c.Ops, Op{F: "derive", A: []int{r.N(10), r.N(10), r.N(8)}})
					default:
						c.Ops = append(c.Ops, Op{F: "change", A: []int{r.N(10), r.N(10), r.N(8), r.N(40)}})
					}
				}
				return c
			}},
			{Name: "large", N: constN(1500, 15000), Gen: func(r *Rng, j int, t bool) *Case {
				fill := r.Pick(40, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 400, 1000, 3000)
				c := &Case{Kind: "copies", P: map[string]int{"n": fill + r.In(1, 40), "first": j % 9, "fill": fill, "cap": r.Pick(0, 1, 16, fill, fill+1, 2*fill)}}
				c.Ops = append(c.Ops, Op{F: "derive", A: []int{0, 0, r.N(8)}})
				for i := r.In(2, 12); i > 0; i-- {
					c.Ops = append(c.Ops, Op{F: r.PickS("change", "change", "change", "change", "derive"), A: []int{r.N(4), r.N(4), r.N(8), r.N(2 * fill)}})
				}
				return c
			}},
			{Name: "nothing", N: constN(50, 200), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "copies", P: map[string]int{"n": r.In(3, 12), "first": 5, "fill": r.N(5)}}
				c.Ops = append(c.Ops, Op{F: "nothing"})
				for i := r.In(2, 12); i > 0; i-- {
					c.Ops = append(c.Ops, Op{F: r.PickS("change", "derive", "nothing"), A: []int{r.N(10), r.N(10), r.N(8), r.N(40)}})
				}
				return c
			}},
		},
		Run: runCopies,
	})
}
