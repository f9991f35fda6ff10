package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// C41: operations allocate their share and no more.

// allocated is the number of bytes allocated by f, whether or not they are
// still in use.
func allocated(f func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int(b.TotalAlloc - a.TotalAlloc)
}

// phase is one kind of operation and how often it is done.
type phase struct {
	name string
	n    int
	do   func(i int)
}

// drained makes a phase of iterators that are run to their end.
func drainK(name string, n int, it func() types.KIterator) phase {
	return phase{name, n, func(i int) {
		if i == 0 {
			for _, next := it()(); next != nil; _, next = next() {
			}
		}
	}}
}

func drainV(name string, n int, it func() types.Iterator) phase {
	return phase{name, n, func(i int) {
		if i == 0 {
			for _, next := it()(); next != nil; _, next = next() {
			}
		}
	}}
}

func drainKV(name string, n int, it func() types.KVIterator) phase {
	return phase{name, n, func(i int) {
		if i == 0 {
			for _, _, next := it()(); next != nil; _, _, next = next() {
			}
		}
	}}
}

var allocKinds = []string{"hash", "linhash", "avl", "immavl", "avlnode", "immnode", "bpmap", "mapset", "tst", "bptree", "bptree dups", "list", "front of a list", "sorted", "sortedset", "sets", "heap", "unique", "linked", "deque", "traversals"}

func allocPhases(c *Case, m *Mon, r *Rng) []phase {
	n, ns := c.p("n"), maxi(4, c.p("ns"))
	keys := make([]types.Hashable, n)
	perm := r.Perm(n)
	for i := range keys {
		k := perm[i]
		switch c.p("ord") {
		case 1:
			k = i
		case 2:
			k = n - i
		}
		keys[i] = &IKey{id: k, h: int(mix64(uint64(k)) >> 1)}
	}
	order := r.Perm(n) // of lookups and removals
	if c.p("ord") == 1 {
		for i := range order {
			order[i] = i
		}
	}
	set2 := func(s interface {
		Add(types.Hashable) error
		Has(types.Hashable) bool
		Delete(types.Hashable) error
		Items() types.KIterator
		Size() int
	}) []phase {
		return []phase{
			{"add", n, func(i int) { s.Add(keys[i]) }},
			{"add again", n, func(i int) { s.Add(keys[i]) }},
			{"has", n, func(i int) { s.Has(keys[order[i]]) }},
			drainK("items", n, s.Items),
			{"size", n, func(i int) { s.Size() }},
			{"delete", n, func(i int) { s.Delete(keys[order[i]]) }},
		}
	}
	switch kind := allocKinds[c.p("kind")]; kind {
	case "hash", "linhash", "avl", "immavl", "avlnode", "immnode", "bpmap", "mapset":
		s := makeMap(kind, &Case{P: map[string]int{"init": c.p("init"), "ns": ns}})
		ps := []phase{
			{"put", n, func(i int) { s.put(keys[i], i) }},
			{"get", n, func(i int) { s.get(keys[order[i]]) }},
			{"has", n, func(i int) { s.has(keys[order[i]]) }},
			{"put again", n, func(i int) { s.put(keys[order[i]], i) }},
			drainKV("iterate", n, s.iterate), drainK("keys", n, s.keys), drainV("values", n, s.values),
			{"remove", n, func(i int) { s.remove(keys[order[i]]) }},
			{"put after removal", n, func(i int) { s.put(keys[order[i]], i) }},
		}
		if !s.ordered {
			ps = append(ps, phase{"size", n, func(i int) { s.size() }})
		}
		return ps
	case "tst":
		t := trie.New()
		k := make([][]byte, n)
		for i := range k {
			k[i] = []byte(fmt.Sprintf("k%07d", int(uint32(perm[i])*0x9e3779b1)%10000000))
		}
		return []phase{
			{"put", n, func(i int) { t.Put(k[i], i) }},
			{"get", n, func(i int) { t.Get(k[order[i]]) }},
			{"has", n, func(i int) { t.Has(k[order[i]]) }},
			drainKV("iterate", n, t.Iterate), drainK("keys", n, t.Keys), drainV("values", n, t.Values),
			drainKV("prefix", n, func() types.KVIterator { return t.PrefixFind([]byte("k")) }),
			{"remove", n, func(i int) { t.Remove(k[order[i]]) }},
		}
	case "bptree", "bptree dups":
		t := bptree.NewBpTree(ns)
		key := func(i int) types.Hashable { return keys[i] }
		if kind == "bptree dups" {
			key = func(i int) types.Hashable { return keys[i%(n/20+1)] }
		}
		return []phase{
			{"add", n, func(i int) { t.Add(key(i), i) }},
			{"has", n, func(i int) { t.Has(key(order[i])) }},
			{"count", n / 20, func(i int) { t.Count(key(order[i])) }},
			drainKV("iterate", n, t.Iterate), drainKV("backward", n, t.Backward), drainK("keys", n, t.Keys), drainV("values", n, t.Values), drainK("items", n, t.Items),
			drainKV("range", n, func() types.KVIterator {
				return t.Range(&IKey{id: -1, h: 0}, &IKey{id: n + 1, h: 0})
			}),
			{"replace", n / 20, func(i int) {
				t.Replace(key(order[i]), func(v interface{}) bool { return v == i }, i)
			}},
			{"remove", n, func(i int) {
				x := order[i]
				t.RemoveWhere(key(x), func(v interface{}) bool { return v == x })
			}},
		}
	case "list", "front of a list":
		l := list.New(c.p("init"))
		ps := []phase{
			{"append", n, func(i int) { l.Append(keys[i]) }},
			{"get", n, func(i int) { l.Get(order[i]) }},
			{"size", n, func(i int) { l.Size() }},
			{"set", n, func(i int) { l.Set(order[i], keys[i]) }},
			drainK("items", n, l.Items), drainK("items in reverse", n, l.ItemsInReverse),
			{"copy", n, func(i int) {
				if i == 0 {
					l.Copy()
				}
			}},
			{"hash and equals", n, func(i int) {
				if i == 0 {
					l.Hash()
					l.Equals(l)
					l.Less(l)
				}
			}},
			{"push and pop", n, func(i int) {
				l.Push(keys[i])
				l.Pop()
			}},
			{"pop", n, func(i int) { l.Pop() }},
			{"extend", n, func(i int) {
				if i == 0 {
					l.Extend(list.FromSlice(keys).Items())
				}
			}},
			{"remove the last", n, func(i int) { l.Remove(l.Size() - 1) }},
		}
		if kind == "front of a list" {
			ps[0] = phase{"insert in front", n, func(i int) { l.Insert(0, keys[i]) }}
			ps[len(ps)-1] = phase{"remove the first", n, func(i int) { l.Remove(0) }}
		}
		return ps
	case "sorted":
		s := list.NewSorted(c.p("init"), ns%2 == 0)
		return append([]phase{}, set2(s)...)
	case "sortedset":
		return set2(set.NewSortedSet(c.p("init")))
	case "sets":
		a, b := makeSet(ns%nSetKinds, c.p("init"), ns), makeSet((ns+1)%nSetKinds, c.p("init"), ns)
		ps := set2(a)
		half := phase{"add to the other", n, func(i int) {
			if i%2 == 0 {
				b.Add(keys[i])
			}
		}}
		once := func(name string, f func()) phase {
			return phase{name, n, func(i int) {
				if i == 0 {
					f()
				}
			}}
		}
		mid := []phase{half,
			once("union", func() { a.Union(b) }), once("intersection", func() { a.Intersect(b) }), once("difference", func() { a.Subtract(b) }),
			once("subset", func() { b.Subset(a) }), once("superset", func() { a.Superset(b) }),
		}
		return append(append(append([]phase{}, ps[:4]...), mid...), ps[5:]...)
	case "heap":
		h := heap.NewHeap(c.p("init"), ns%2 == 0)
		return []phase{
			{"push", n, func(i int) { h.Push(perm[i], i) }},
			{"size", n, func(i int) { h.Size() }},
			{"push and pop", n, func(i int) {
				h.Push(order[i], i)
				h.Pop()
			}},
			{"pop", n, func(i int) { h.Pop() }},
		}
	case "unique":
		q := heap.NewUnique(heap.NewHeap(c.p("init"), ns%2 == 0))
		return []phase{
			{"add", n, func(i int) { q.Add(perm[i], keys[i]) }},
			{"add again", n, func(i int) { q.Add(perm[i], keys[i]) }},
			{"pop", n, func(i int) { q.Pop() }},
		}
	case "linked", "deque":
		var d deque = linked.New()
		if kind == "deque" {
			d = linked.NewUniqueDeque()
		}
		return []phase{
			{"enque", n, func(i int) {
				if i%2 == 0 {
					d.EnqueFront(keys[i])
				} else {
					d.EnqueBack(keys[i])
				}
			}},
			drainK("items", n, d.Items),
			{"size", n, func(i int) { d.Size() }},
			{"ends", n, func(i int) {
				d.First()
				d.Last()
			}},
			{"deque", n, func(i int) {
				if i%2 == 0 {
					d.DequeFront()
				} else {
					d.DequeBack()
				}
			}},
		}
	case "traversals":
		var root *avl.ImmutableAvlNode
		put := phase{"put", n, func(i int) { root, _ = root.Put(keys[i], i) }}
		return append([]phase{put}, traversalPhases(n, func() types.BinaryTreeNode { return root })...)
	}
	panic("kind")
}

func runAlloc(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 223)
	kind := allocKinds[c.p("kind")]
	const most = 20000 // bytes of one operation, on the average
	for i, p := range allocPhases(c, m, r) {
		m.step = i
		got := allocated(func() {
			for i := 0; i < p.n; i++ {
				p.do(i)
			}
		})
		m.ops += int64(p.n)
		if costTrace {
			fmt.Fprintf(os.Stderr, "%s %s n %d: %d bytes per operation\n", kind, p.name, p.n, got/maxi(1, p.n))
		}
		m.Check(got <= most*p.n+100000, "%s: %q with up to %d items allocates %d bytes per operation", kind, p.name, c.p("n"), got/maxi(1, p.n))
		m.audits++
	}
	m.Feat(kind)
	m.Obs(uint64(c.p("us")))
	m.Nontrivial()
}

func init() {
	register(&Property{
		ID:   "C41",
		Rule: "Collections of every kind filled with 6000 to 12000 items in random, ascending or descending order, read, iterated, copied, combined, overwritten and emptied; the bytes allocated in each phase, whether released or not, are taken from the allocator: at most 20000 for each operation or item on the average, where an operation that copies the collection takes several times as many. Non-trivial: every case.",
		Families: []Family{{Name: "phases", N: constN(200, 1500), Gen: func(r *Rng, j int, t bool) *Case {
			return &Case{Kind: "phases", P: map[string]int{"kind": j % len(allocKinds), "n": 6000 + r.N(6000), "ns": 4 + r.N(60), "init": r.Pick(0, 1, 10, 1000), "ord": r.N(3), "us": r.N(1 << 30)}}
		}}},
		Run: runAlloc,
	})
}

func traversalPhases(n int, root func() types.BinaryTreeNode) []phase {
	drain := func(name string, it func() types.TreeNodeIterator) phase {
		return phase{name, n, func(i int) {
			if i == 0 {
				for _, next := it()(); next != nil; _, next = next() {
				}
			}
		}}
	}
	return []phase{
		drain("in-order", func() types.TreeNodeIterator { return tree.TraverseBinaryTreeInOrder(root()) }),
		drain("pre-order", func() types.TreeNodeIterator { return tree.TraverseTreePreOrder(root()) }),
		drain("post-order", func() types.TreeNodeIterator { return tree.TraverseTreePostOrder(root()) }),
	}
}
