package main

import (
	"sort"
	"sync/atomic"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/pool"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// C43: collections that hold more than 2^16 items.

var largeKinds = []string{"hash", "linhash", "avl", "immavl", "bpmap", "mapset", "bptree", "bptree dups", "tst", "list", "fixed list", "sorted", "sets", "heap", "unique", "linked", "deque", "pool"}

// nearPower tells whether a collection of n items is about to outgrow one or
// two bytes, or has just done so.
func nearPower(n int) bool {
	for _, p := range []int{1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 17} {
		if n >= p-2 && n <= p+2 {
			return true
		}
	}
	return false
}

type largeRun struct {
	c    *Case
	m    *Mon
	r    *Rng
	n    int
	keys []types.Hashable // by rank
	ord  []int            // ranks in the order of insertion
}

func (x *largeRun) size(what string, got, want int) {
	x.m.audits++
	x.m.Check(got == want, "%s: Size() = %d, expected %d", what, got, want)
}

// same compares what an iterator over n items gives with the expected ranks.
func (x *largeRun) same(what string, it types.KIterator, want []int) {
	i := 0
	for k, next := it(); next != nil; k, next = next() {
		if me, ok := k.(*types.MapEntry); ok {
			k = me.Key
		}
		x.m.Check(i < len(want), "%s yields more than the %d items there are", what, len(want))
		x.m.Check(k.(*IKey).id == want[i], "%s: item %d of %d is %v, expected k%d", what, i, len(want), k, want[i])
		i++
	}
	x.m.audits++
	x.m.Check(i == len(want), "%s ends after %d of %d items", what, i, len(want))
}

// members compares what an iterator in any order gives with the expected ranks.
func (x *largeRun) members(what string, it types.KIterator, want []int) {
	var got []int
	for k, next := it(); next != nil; k, next = next() {
		if me, ok := k.(*types.MapEntry); ok {
			k = me.Key
		}
		got = append(got, k.(*IKey).id)
		x.m.Check(len(got) <= len(want), "%s yields more than the %d items there are", what, len(want))
	}
	sort.Ints(got)
	x.m.audits++
	x.m.Check(len(got) == len(want), "%s ends after %d of %d items", what, len(got), len(want))
	for i := range got {
		x.m.Check(got[i] == want[i], "%s: the item of rank %d is k%d, expected k%d", what, i, got[i], want[i])
	}
}

func ranks(in []bool) []int {
	var s []int
	for i, b := range in {
		if b {
			s = append(s, i)
		}
	}
	return s
}

func (x *largeRun) maps(kind string) {
	m := x.m
	s := makeMap(kind, x.c)
	val := make([]int, x.n)
	in := make([]bool, x.n)
	for i, k := range x.ord {
		m.step = i
		m.Check(s.put(x.keys[k], i) == nil, "Put fails")
		val[k], in[k] = i, true
		m.ops++
		if nearPower(i + 1) {
			x.size(kind, s.size(), i+1)
			m.Check(s.has(x.keys[k]), "the key just put, as number %d, is missing", i+1)
		}
	}
	check := func(k int) {
		v, err := s.get(x.keys[k])
		m.ops++
		m.Check((err == nil) == in[k] && s.has(x.keys[k]) == in[k], "k%d of %d: in = %v, but Get = %v, %v", k, x.n, in[k], v, errText(err))
		m.Check(!in[k] || v == val[k], "k%d of %d has the value %v, expected %d", k, x.n, v, val[k])
	}
	audit := func() {
		want := ranks(in)
		x.size(kind, s.size(), len(want))
		if s.ordered {
			x.same("Keys", s.keys(), want)
		} else {
			x.members("Keys", s.keys(), want)
		}
		i := 0
		for k, v, next := s.iterate()(); next != nil; k, v, next = next() {
			m.Check(v == val[k.(*IKey).id], "Iterate: k%d has the value %v, expected %d", k.(*IKey).id, v, val[k.(*IKey).id])
			i++
		}
		m.Check(i == len(want), "Iterate yields %d of %d entries", i, len(want))
		if s.root != nil {
			if b, ok := s.root().(types.BinaryTreeNode); ok {
				i = 0
				for tn, next := tree.TraverseBinaryTreeInOrder(b)(); next != nil; tn, next = next() {
					m.Check(i < len(want) && tn.Key().(*IKey).id == want[i], "the traversal goes wrong at %d of %d", i, len(want))
					i++
				}
				m.Check(i == len(want), "the traversal ends after %d of %d nodes", i, len(want))
			}
		}
	}
	for k := range x.keys {
		check(k)
	}
	audit()
	for i := 0; i < 3000; i++ {
		k := x.r.N(x.n)
		switch {
		case x.r.P(1, 3):
			m.Check(s.put(x.keys[k], -i) == nil, "Put fails")
			val[k], in[k] = -i, true
		case in[k]:
			v, err := s.remove(x.keys[k])
			m.Check(err == nil && v == val[k], "Remove(k%d) = %v, %s, expected %d", k, v, errText(err), val[k])
			in[k] = false
		default:
			_, err := s.remove(x.keys[k])
			m.Check(err != nil, "a key that is not there was removed")
		}
		check(k)
	}
	audit()
	left := len(ranks(in))
	out := x.ord
	if kind == "mapset" || kind == "bpmap" && x.c.p("ns") > 5000 { // from the end, which moves nothing
		out = order(x.r, 1, x.n)
	}
	if kind == "avl" || kind == "immavl" { // a removal near the root visits the whole tree
		out = x.r.Perm(x.n)
	}
	for _, k := range out {
		if !in[k] {
			continue
		}
		v, err := s.remove(x.keys[k])
		m.ops++
		m.Check(err == nil && v == val[k], "Remove(k%d), one of %d, = %v, %s, expected %d", k, left, v, errText(err), val[k])
		in[k] = false
		left--
		if nearPower(left) {
			audit()
		}
	}
	audit()
}

func (x *largeRun) tst() {
	m := x.m
	t := trie.New()
	name := func(k int) []byte {
		u := uint(k)
		return []byte{byte(1 + u>>12), byte(1 + u>>6&63), byte(1 + u&63)}
	}
	in := make([]bool, x.n)
	val := make([]int, x.n)
	for i, k := range x.ord {
		m.Check(t.Put(name(k), i) == nil, "Put fails")
		in[k], val[k] = true, i
		m.ops++
	}
	audit := func() {
		i := 0
		want := ranks(in)
		for k, v, next := t.Iterate()(); next != nil; k, v, next = next() {
			m.Check(i < len(want), "Iterate yields more than the %d keys there are", len(want))
			m.Check(string(k.(types.ByteSlice)) == string(name(want[i])) && v == val[want[i]], "Iterate: key %d of %d is %v with %v, expected %v with %v", i, len(want), k, v, name(want[i]), val[want[i]])
			i++
		}
		m.audits++
		m.Check(i == len(want), "Iterate ends after %d of %d keys", i, len(want))
		for j := 0; j < 20; j++ {
			p := name(x.r.N(x.n))[:1+j%3]
			want, got := 0, 0
			for _, k := range ranks(in) {
				if string(name(k)[:len(p)]) == string(p) {
					want++
				}
			}
			for _, _, next := t.PrefixFind(p)(); next != nil; _, _, next = next() {
				got++
			}
			m.Check(got == want, "PrefixFind(%q) yields %d keys of %d", p, got, want)
		}
	}
	check := func(k int) {
		v, err := t.Get(name(k))
		m.ops++
		m.Check((err == nil) == in[k] && t.Has(name(k)) == in[k], "%q of %d: in = %v, but Get = %v, %v", name(k), x.n, in[k], v, errText(err))
		m.Check(!in[k] || v == val[k], "%q of %d has the value %v, expected %d", name(k), x.n, v, val[k])
	}
	for k := range in {
		check(k)
	}
	audit()
	for i := 0; i < 3000; i++ {
		k := x.r.N(x.n)
		if in[k] && x.r.P(2, 3) {
			v, err := t.Remove(name(k))
			m.Check(err == nil && v == val[k], "Remove(%q) = %v, %s", name(k), v, errText(err))
			in[k] = false
		} else {
			m.Check(t.Put(name(k), -i) == nil, "Put fails")
			in[k], val[k] = true, -i
		}
		check(k)
	}
	audit()
	left := len(ranks(in))
	for _, k := range x.ord {
		if in[k] {
			v, err := t.Remove(name(k))
			m.ops++
			m.Check(err == nil && v == val[k], "Remove(%q), one of %d, = %v, %s", name(k), left, v, errText(err))
			in[k] = false
			left--
			if left == 1<<15 {
				audit()
			}
		}
	}
	audit()
}

func (x *largeRun) bptree(dups int) {
	m := x.m
	t := bptree.NewBpTree(x.c.p("ns"))
	at := make([]map[int]bool, (x.n+dups-1)/dups)
	for i := range at {
		at[i] = map[int]bool{}
	}
	size := 0
	for i, k := range x.ord {
		k /= dups
		m.step = i
		m.Check(t.Add(x.keys[k], i) == nil, "Add fails")
		at[k][i] = true
		size++
		m.ops++
		if nearPower(size) {
			x.size("tree", t.Size(), size)
		}
	}
	// walk compares an iteration with the entries of the keys from lo to hi.
	walk := func(what string, it types.KVIterator, lo, hi, step int) {
		cur, left := lo-step, 0
		var seen map[int]bool
		for k, v, next := it(); next != nil; k, v, next = next() {
			id := k.(*IKey).id
			if id != cur {
				m.Check(left == 0, "%s: %d entries of k%d are missing", what, left, cur)
				for cur += step; cur != hi+step && len(at[cur]) == 0; cur += step {
				}
				m.Check(id == cur, "%s: k%d where k%d is next", what, id, cur)
				left = len(at[cur])
				seen = map[int]bool{}
			}
			tok := v.(int)
			m.Check(at[cur][tok] && !seen[tok], "%s: k%d has the value %d, which was not put there or comes twice", what, cur, tok)
			seen[tok] = true
			left--
		}
		m.audits++
		m.Check(left == 0, "%s: %d entries of k%d are missing", what, left, cur)
		for cur += step; cur != hi+step; cur += step {
			m.Check(len(at[cur]) == 0, "%s ends before k%d", what, cur)
		}
	}
	audit := func() {
		x.size("tree", t.Size(), size)
		walk("Iterate", t.Iterate(), 0, len(at)-1, 1)
		walk("Backward", t.Backward(), len(at)-1, 0, -1)
		a, b := x.r.N(len(at)), x.r.N(len(at))
		if a > b {
			a, b = b, a
		}
		walk("Range", t.Range(x.keys[a], x.keys[b]), a, b, 1)
		if a != b {
			walk("backward Range", t.Range(x.keys[b], x.keys[a]), b, a, -1)
		}
		for i := 0; i < 200; i++ {
			k := x.r.N(len(at))
			m.Check(t.Count(x.keys[k]) == len(at[k]) && t.Has(x.keys[k]) == (len(at[k]) > 0), "Count(k%d) = %d, Has = %v, expected %d", k, t.Count(x.keys[k]), t.Has(x.keys[k]), len(at[k]))
			walk("Find", t.Find(x.keys[k]), k, k, 1)
		}
	}
	audit()
	for i := 0; i < 2000; i++ {
		k := x.r.N(len(at))
		if x.r.P(1, 3) {
			m.Check(t.Add(x.keys[k], x.n+i) == nil, "Add fails")
			at[k][x.n+i] = true
			size++
			continue
		}
		odd := x.r.N(3)
		m.Check(t.RemoveWhere(x.keys[k], func(v interface{}) bool { return odd == 2 || v.(int)%2 == odd }) == nil, "RemoveWhere fails")
		for v := range at[k] {
			if odd == 2 || v%2 == odd {
				delete(at[k], v)
				size--
			}
		}
		m.ops++
	}
	audit()
	out := x.r.Perm(len(at))
	if x.c.p("ns") > 5000 {
		out = order(x.r, 1, len(at))
	}
	for _, k := range out {
		m.Check(t.RemoveWhere(x.keys[k], func(v interface{}) bool { return true }) == nil, "RemoveWhere fails")
		size -= len(at[k])
		at[k] = nil
		m.ops++
		m.Check(t.Size() == size, "Size() = %d, expected %d", t.Size(), size)
		if size == 1<<15 {
			audit()
		}
	}
	m.Check(t.Size() == 0, "Size() = %d of an emptied tree", t.Size())
	_, _, next := t.Iterate()()
	m.Check(next == nil, "an emptied tree has entries")
}

func (x *largeRun) list(fixed bool) {
	m := x.m
	l := list.New(x.c.p("init"))
	if fixed {
		l = list.Fixed(x.n + 3000)
	}
	for i, k := range x.ord {
		m.Check(l.Append(x.keys[k]) == nil, "Append fails")
		m.ops++
		if nearPower(i + 1) {
			x.size("list", l.Size(), i+1)
		}
	}
	model := append([]int(nil), x.ord...)
	audit := func(what string, l *list.List) {
		x.size(what, l.Size(), len(model))
		x.same(what+", Items", l.Items(), model)
		rev := make([]int, len(model))
		for i, k := range model {
			rev[len(rev)-1-i] = k
		}
		x.same(what+", ItemsInReverse", l.ItemsInReverse(), rev)
		for i, k := range model {
			it, err := l.Get(i)
			m.Check(err == nil && it.(*IKey).id == k, "%s: Get(%d) of %d = %v, expected k%d", what, i, len(model), it, k)
		}
	}
	audit("list", l)
	for i := 0; i < 400; i++ {
		at, k := x.r.N(len(model)), x.r.N(x.n)
		m.ops++
		switch x.r.N(4) {
		case 0:
			m.Check(l.Insert(at, x.keys[k]) == nil, "Insert(%d) fails", at)
			model = append(model, 0)
			copy(model[at+1:], model[at:])
			model[at] = k
		case 1:
			m.Check(l.Remove(at) == nil, "Remove(%d) fails", at)
			model = append(model[:at], model[at+1:]...)
		case 2:
			m.Check(l.Set(at, x.keys[k]) == nil, "Set(%d) fails", at)
			model[at] = k
		default:
			it, err := l.Pop()
			m.Check(err == nil && it.(*IKey).id == model[len(model)-1], "Pop = %v of %d, expected k%d", it, len(model), model[len(model)-1])
			model = model[:len(model)-1]
		}
	}
	audit("list", l)
	cp := l.Copy()
	audit("copy", cp)
	m.Check(cp.Equals(l) && l.Equals(cp) && !l.Less(cp) && cp.Hash() == l.Hash(), "a copy of %d items is not equal", len(model))
	last := len(model) - 1
	cp.Set(last, &IKey{id: x.n + 1, h: 0})
	m.Check(!cp.Equals(l) && l.Less(cp) && !cp.Less(l), "lists of %d items that differ in the last: Equals = %v, Less = %v, %v", last+1, cp.Equals(l), l.Less(cp), cp.Less(l))
	for len(model) > 0 {
		it, err := l.Pop()
		m.Check(err == nil && it.(*IKey).id == model[len(model)-1], "Pop = %v of %d, expected k%d", it, len(model), model[len(model)-1])
		model = model[:len(model)-1]
		if nearPower(len(model)) {
			x.size("list", l.Size(), len(model))
		}
	}
	x.size("list", l.Size(), 0)
}

func (x *largeRun) sorted() {
	m := x.m
	s := list.NewSorted(x.c.p("init"), x.c.p("ns")%2 == 0)
	in := make([]bool, x.n)
	for i := 0; i < x.n; i++ { // ascending, with some left out
		if x.r.P(1, 40) {
			continue
		}
		m.Check(s.Add(x.keys[i]) == nil, "Add fails")
		in[i] = true
		m.ops++
	}
	for i := 0; i < 800; i++ {
		k := x.r.N(x.n)
		m.ops++
		switch {
		case !in[k]:
			m.Check(s.Add(x.keys[k]) == nil, "Add fails")
			in[k] = true
		default:
			m.Check(s.Delete(x.keys[k]) == nil, "Delete fails")
			in[k] = false
		}
	}
	want := ranks(in)
	x.size("sorted list", s.Size(), len(want))
	x.same("Items", s.Items(), want)
	at := 0
	for k := range in {
		i, has, err := s.Find(x.keys[k])
		m.Check(err == nil && has == in[k] && i == at && s.Has(x.keys[k]) == in[k], "Find(k%d) = %d, %v, expected %d, %v", k, i, has, at, in[k])
		if in[k] {
			at++
		}
	}
	for left := len(want); left > 0; left-- {
		m.Check(s.Delete(x.keys[want[left-1]]) == nil && !s.Has(x.keys[want[left-1]]), "Delete(k%d), one of %d, fails", want[left-1], left)
		if nearPower(left - 1) {
			x.size("sorted list", s.Size(), left-1)
		}
	}
	x.size("sorted list", s.Size(), 0)
}

func (x *largeRun) sets() {
	m := x.m
	mk := func(kind int) (types.Set, []bool) {
		s := makeSet(kind, x.c.p("init"), x.c.p("ns"))
		in := make([]bool, x.n)
		from := x.r.N(x.n / 30)
		for i := from; i < x.n; i++ {
			if !x.r.P(1, 30) {
				m.Check(s.Add(x.keys[i]) == nil, "Add fails")
				in[i] = true
				m.ops++
			}
		}
		return s, in
	}
	kinds := []int{skSorted, skHash, skLinear, skAvl, skImmAvl, skBp}
	a, ia := mk(kinds[x.r.N(len(kinds))])
	b, ib := mk(kinds[x.r.N(len(kinds))])
	x.members("Items", a.Items(), ranks(ia))
	x.size("set", a.Size(), len(ranks(ia)))
	for _, op := range []struct {
		name string
		do   func(types.Set) (types.Set, error)
		in   func(p, q bool) bool
	}{
		{"Union", a.Union, func(p, q bool) bool { return p || q }},
		{"Intersect", a.Intersect, func(p, q bool) bool { return p && q }},
		{"Subtract", a.Subtract, func(p, q bool) bool { return p && !q }},
	} {
		c, err := op.do(b)
		m.Check(err == nil, "%s fails: %s", op.name, errText(err))
		in := make([]bool, x.n)
		for i := range in {
			in[i] = op.in(ia[i], ib[i])
		}
		want := ranks(in)
		x.size(op.name, c.Size(), len(want))
		x.members(op.name, c.Items(), want)
		for k := range in {
			if k%7 == 0 {
				m.Check(c.Has(x.keys[k]) == in[k], "%s: Has(k%d) = %v", op.name, k, !in[k])
			}
		}
		sub, super := true, true
		for i := range in {
			sub = sub && (!in[i] || ia[i])
			super = super && (!ia[i] || in[i])
		}
		m.Check(c.Subset(a) == sub && a.Subset(c) == super, "%s: Subset = %v, %v", op.name, c.Subset(a), a.Subset(c))
	}
}

func (x *largeRun) heap(unique bool) {
	m := x.m
	min := x.c.p("ns")%2 == 0
	var q heap.PriorityQueue
	h := heap.NewHeap(x.c.p("init"), min)
	q = h
	if unique {
		q = heap.NewUnique(h)
	}
	for i, k := range x.ord {
		q.Push(k/3, x.keys[k])
		m.ops++
		if unique && i%5 == 0 {
			q.Push(-1, x.keys[k])
		}
		if nearPower(i + 1) {
			x.size("queue", q.Size(), i+1)
		}
	}
	m.Check(h.Verify() == nil, "the heap is out of order")
	out := make([]bool, x.n)
	for i := 0; i < x.n; i++ {
		want := i
		if !min {
			want = x.n - 1 - i
		}
		k := q.Pop().(*IKey).id
		m.Check(k/3 == want/3 && !out[k], "pop %d of %d gives k%d of priority %d, expected priority %d", i, x.n, k, k/3, want/3)
		out[k] = true
		if nearPower(x.n - 1 - i) {
			x.size("queue", q.Size(), x.n-1-i)
		}
	}
	x.size("queue", q.Size(), 0)
}

func (x *largeRun) deque(unique bool) {
	m := x.m
	var d deque = linked.New()
	if unique {
		d = linked.NewUniqueDeque()
	}
	model := make([]int, 2*x.n)
	lo, hi := x.n, x.n
	for i, k := range x.ord {
		if x.r.P(1, 2) {
			m.Check(d.EnqueFront(x.keys[k]) == nil, "EnqueFront fails")
			lo--
			model[lo] = k
		} else {
			m.Check(d.EnqueBack(x.keys[k]) == nil, "EnqueBack fails")
			model[hi] = k
			hi++
		}
		m.ops++
		if nearPower(i + 1) {
			x.size("queue", d.Size(), i+1)
		}
		if unique && i%9 == 0 {
			d.EnqueBack(x.keys[x.ord[x.r.N(i+1)]])
		}
	}
	x.size("queue", d.Size(), x.n)
	x.same("Items", d.Items(), model[lo:hi])
	rev := make([]int, 0, x.n)
	for i := hi - 1; i >= lo; i-- {
		rev = append(rev, model[i])
	}
	x.same("Backwards", d.Backwards(), rev)
	for lo < hi {
		var it types.Hashable
		var err error
		want := 0
		if x.r.P(1, 2) {
			it, err = d.DequeFront()
			want = model[lo]
			lo++
		} else {
			it, err = d.DequeBack()
			hi--
			want = model[hi]
		}
		m.Check(err == nil && it.(*IKey).id == want, "with %d items left: %v comes out, expected k%d", hi-lo, it, want)
		if nearPower(hi - lo) {
			x.size("queue", d.Size(), hi-lo)
		}
	}
	x.size("queue", d.Size(), 0)
}

func (x *largeRun) pool() {
	p := pool.New(1 + x.c.p("ns")%8)
	var ran int64
	for i := 0; i < x.n; i++ {
		x.m.Check(p.Do(func() { atomic.AddInt64(&ran, 1) }) == nil, "Do fails")
		x.m.ops++
		if i == x.n/2 {
			p.WaitLock()
			n := atomic.LoadInt64(&ran)
			p.Unlock()
			x.m.Check(int(n) == i+1, "%d of %d jobs were run when the pool was idle", n, i+1)
		}
	}
	for p.WaitCount() > 0 {
	}
	x.m.Check(int(atomic.LoadInt64(&ran)) == x.n, "%d of %d jobs were run when the pool was idle", ran, x.n)
	p.Stop()
	x.m.Check(int(ran) == x.n, "%d of %d jobs were run", ran, x.n)
	x.m.audits++
}

func runLarge(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 229)
	n := c.p("n")
	x := &largeRun{c: c, m: m, r: r, n: n, keys: make([]types.Hashable, n), ord: order(r, c.p("ord"), n)}
	kind := largeKinds[c.p("kind")]
	for i := range x.keys {
		x.keys[i] = &IKey{id: i, h: hashOf(c.p("hm"), i)}
	}
	switch kind {
	case "bptree":
		x.bptree(1)
	case "bptree dups":
		x.bptree(c.p("dups"))
	case "tst":
		x.tst()
	case "list":
		x.list(false)
	case "fixed list":
		x.list(true)
	case "sorted":
		x.sorted()
	case "sets":
		x.sets()
	case "heap", "unique":
		x.heap(kind == "unique")
	case "linked", "deque":
		x.deque(kind == "deque")
	case "pool":
		x.pool()
	default:
		x.maps(kind)
	}
	m.Feat(kind)
	m.FeatN("items", n)
	m.Obs(uint64(c.p("us")))
	m.Nontrivial()
}

func init() {
	register(&Property{
		ID:   "C43",
		Rule: "Every kind of collection filled with 66000 to 80000 items (up to 300000 at the thorough tier) in characteristic orders, and as many jobs for a pool; sizes are compared just below and above the powers of two at which one- and two-byte counts overflow, then all lookups, all iterations, random removals and additions, and again all iterations are compared with an exact model. Non-trivial: every case.",
		Families: []Family{{Name: "large", N: constN(90, 540), Gen: func(r *Rng, j int, t bool) *Case {
			c := &Case{Kind: "large", P: map[string]int{"kind": j % len(largeKinds), "n": 66000 + r.N(14000), "ns": r.Pick(4, 5, 6, 16, 64, 129, 255, 256, 257, 1000), "init": r.Pick(0, 1, 10, 1000), "ord": r.N(8), "hm": r.Pick(0, 0, 5, 6, 7, 10, 11), "dups": []int{2, 7000, 300, 12000, 10}[j/len(largeKinds)%5], "us": r.N(1 << 30)}}
			kind := largeKinds[c.p("kind")]
			if t && r.P(1, 3) && kind != "fixed list" && kind != "list" {
				c.P["n"] = r.Pick(131072, 140000, 262145, 300000)
			}
			if kind == "mapset" {
				c.P["ord"] = 0 // others would take the square of the number of keys
			}
			if (kind == "bpmap" || kind == "bptree") && r.P(1, 4) {
				c.P["ord"], c.P["ns"] = 0, r.Pick(32767, 32768, 65535, 65536, 65537, 100000)
			}
			return c
		}}},
		Run: runLarge,
	})
}
