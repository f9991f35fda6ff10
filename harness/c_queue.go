package main

import (
	cheap "container/heap"
	"math"
	"sort"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
)

// C19 to C22: heap, unique priority queue, linked list, unique deque.

func priority(x int) int {
	switch x % 23 {
	case 20:
		return math.MinInt64
	case 21:
		return math.MaxInt64
	case 22:
		return -1
	}
	return x%23 - 10
}

// better: a comes out before b.
func better(min bool, a, b int) bool {
	if min {
		return a < b
	}
	return a > b
}

// best is the multiset of queued priorities, best one first.
type best struct {
	p   []int
	min bool
}

func (b *best) Len() int           { return len(b.p) }
func (b *best) Less(i, j int) bool { return better(b.min, b.p[i], b.p[j]) }
func (b *best) Swap(i, j int)      { b.p[i], b.p[j] = b.p[j], b.p[i] }
func (b *best) Push(x interface{}) { b.p = append(b.p, x.(int)) }
func (b *best) Pop() interface{} {
	x := b.p[len(b.p)-1]
	b.p = b.p[:len(b.p)-1]
	return x
}
func (b *best) add(p int) { cheap.Push(b, p) }
func (b *best) take() int { return cheap.Pop(b).(int) }

// slicePQ is a priority queue that is not the library's; of equal priorities
// the one pushed first comes first.
type slicePQ struct {
	min bool
	e   []pqEntry
}

type pqEntry struct {
	p int
	x interface{}
}

func (q *slicePQ) Size() int { return len(q.e) }
func (q *slicePQ) Push(p int, x interface{}) {
	i := sort.Search(len(q.e), func(i int) bool { return better(q.min, p, q.e[i].p) })
	q.e = append(q.e, pqEntry{})
	copy(q.e[i+1:], q.e[i:])
	q.e[i] = pqEntry{p, x}
}
func (q *slicePQ) Peek() interface{} {
	if len(q.e) == 0 {
		return nil
	}
	return q.e[0].x
}
func (q *slicePQ) Pop() interface{} {
	x := q.Peek()
	if len(q.e) > 0 {
		q.e = q.e[1:]
	}
	return x
}

func runHeap(c *Case, m *Mon) {
	min := c.p("min") == 1
	var h *heap.Heap
	switch {
	case c.p("ctor") == 1:
		h = heap.NewHeap(c.p("init"), min)
	case min:
		h = heap.NewMinHeap(c.p("init"))
	default:
		h = heap.NewMaxHeap(c.p("init"))
	}
	in := map[int]int{} // token -> priority
	top := &best{min: min}
	token := 0
	mk := func(t int) interface{} { return value(c.p("vk"), t) }
	// tokenOf finds the token of an item that came out; a nil stands for any
	// nil of the best priority.
	tokenOf := func(x interface{}) int {
		if x == nil && c.p("vk") == 3 {
			m.Feat("nil item")
			for t, p := range in {
				if t%3 == 0 && p == top.p[0] {
					return t
				}
			}
		}
		return tokenOf(x)
	}
	audit := func() {
		m.audits++
		m.Check(h.Size() == len(in), "size is %d, expected %d", h.Size(), len(in))
		m.Check(h.Verify() == nil, "the heap does not verify: %v", h.Verify())
		m.Check(h.MinHeap() == min && h.MaxHeap() == !min, "the heap changed its direction")
		seen := map[int]bool{}
		nils := 0
		for x, next := h.Items()(); next != nil; x, next = next() {
			if x == nil && c.p("vk") == 3 {
				nils++
				seen[-nils] = true
				m.Check(nils <= len(in), "iteration yields more nils than there are items")
				continue
			}
			t := tokenOf(x)
			_, ok := in[t]
			m.Check(ok && !seen[t], "iteration yields %v, which is not in the heap or was already yielded", x)
			seen[t] = true
		}
		m.Check(len(seen) == len(in), "iteration yields %d items, expected %d", len(seen), len(in))
	}
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		m.ObsS(op.F)
		m.Obs(uint64(op.a(0)))
		switch op.F {
		case "push":
			token++
			p := priority(op.a(0))
			if c.p("wide") == 1 {
				p = int(mix64(uint64(op.a(0))))
			}
			h.Push(p, mk(token))
			in[token] = p
			top.add(p)
		case "pop", "peek":
			if len(in) == 0 {
				m.Check(h.Peek() == nil, "peek of an empty heap returned %v", h.Peek())
				if op.F == "pop" {
					x := h.Pop()
					m.Check(x == nil, "pop of an empty heap returned %v", x)
				}
				m.Feat("empty heap")
				break
			}
			x := h.Peek()
			t := tokenOf(x)
			p, ok := in[t]
			m.Check(ok, "peek returned %v, which is not in the heap", x)
			m.Check(p == top.p[0], "peek returned an item of priority %d, there is one of priority %d", p, top.p[0])
			if op.F == "peek" {
				break
			}
			y := h.Pop()
			if x != nil || y != nil || c.p("vk") != 3 {
				m.Check(tokenOf(y) == t, "peek returned %v but pop returned %v", x, y)
			}
			delete(in, t)
			top.take()
			m.Feat("popped")
			if len(in) > 0 {
				m.Nontrivial()
			}
		}
		m.Check(h.Size() == len(in), "size is %d, expected %d", h.Size(), len(in))
		if every := maxi(1, c.p("aud")); i%every == every-1 {
			audit()
		}
	}
	m.step = len(c.Ops)
	audit()
	// drain
	for n := len(in); n > 0; n-- {
		t := tokenOf(h.Pop())
		p, ok := in[t]
		m.Check(ok, "draining returned an item that is not in the heap")
		delete(in, t)
		q := top.take()
		m.Check(p == q, "draining returned priority %d before %d", p, q)
	}
	m.Check(h.Size() == 0 && h.Pop() == nil, "the drained heap is not empty")
}

func runUniquePQ(c *Case, m *Mon) {
	min := c.p("min") == 1
	u := newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us"))
	var pq heap.PriorityQueue = heap.NewHeap(c.p("init"), min)
	switch c.p("pq") {
	case 1:
		pq = &slicePQ{min: min}
		m.Feat("over a queue that is not the library's")
	case 2:
		pq = heap.NewUnique(pq)
		m.Feat("over a unique queue")
	}
	in := map[int]int{} // item -> priority
	top := &best{min: min}
	first := map[int]types.Hashable{}
	pre := mini(c.p("pre"), u.n-1)
	for k := 0; k < pre; k++ { // the queue has other items already
		x, p := u.key(k), priority(k*7)
		pq.Push(p, x)
		in[k], first[k] = p, x
		top.add(p)
		m.Feat("over a queue with items")
	}
	q := heap.NewUnique(pq)
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		m.ObsS(op.F)
		k := pre + op.a(0)%(u.n-pre)
		m.Obs(uint64(k)<<32 | uint64(op.a(1)))
		u.cnt.begin(100000)
		switch op.F {
		case "add", "push":
			p := priority(op.a(1))
			if c.p("wide") == 1 {
				p = int(mix64(uint64(op.a(1))))
			}
			x := u.key(k)
			if op.F == "add" {
				q.Add(p, x)
			} else {
				q.Push(p, x)
			}
			if _, ok := in[k]; ok {
				m.Feat("added a queued item")
				m.Nontrivial()
			} else {
				in[k] = p
				top.add(p)
				if first[k] != nil {
					m.Feat("added a popped item again")
				}
				first[k] = x
			}
		default:
			if len(in) == 0 {
				m.Check(q.Peek() == nil, "peek of an empty queue returned something")
				if op.F == "pop" {
					x := q.Pop()
					m.Check(x == nil, "pop of an empty queue returned %v", x)
				}
				m.Feat("empty queue")
				break
			}
			x := q.Peek()
			kx := u.index(x)
			p, ok := in[kx]
			m.Check(ok, "peek returned %v, which is not queued", x)
			m.Check(p == top.p[0], "peek returned an item of priority %d, there is one of priority %d", p, top.p[0])
			if op.F == "peek" {
				break
			}
			y := q.Pop()
			m.Check(u.index(y) == kx, "peek returned %v but pop returned %v", x, y)
			if h, ok := y.(types.Hashable); ok {
				m.Check(sameItem(h, first[kx]), "pop returned another item than the one queued")
			}
			delete(in, kx)
			top.take()
			m.Feat("popped")
		}
		m.Check(q.Size() == len(in), "size is %d, expected %d", q.Size(), len(in))
	}
	m.step = len(c.Ops)
	m.audits++
	prev, any := 0, false
	for n := len(in); n > 0; n-- {
		u.cnt.begin(100000)
		k := u.index(q.Pop())
		p, ok := in[k]
		m.Check(ok, "draining returned an item that is not queued")
		m.Check(!any || !better(min, p, prev), "draining returned priority %d after %d", p, prev)
		prev, any = p, true
		delete(in, k)
	}
	m.Check(q.Size() == 0 && q.Pop() == nil && q.Peek() == nil, "the drained queue is not empty")
}

// deque is what the linked list and the unique deque have in common.
type deque interface {
	types.LinkedOperable
	types.ListIterable
	Backwards() types.KIterator
	String() string
}

func runDeque(c *Case, m *Mon) {
	unique := c.Kind == "unique"
	u := newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us"))
	var d deque = linked.New()
	if unique {
		d = linked.NewUniqueDeque()
	}
	room := make([]types.Hashable, 2*len(c.Ops)+2)
	model := room[len(c.Ops)+1 : len(c.Ops)+1]
	head := len(c.Ops) + 1
	count := map[int]int{}
	drained := 0
	audit := func() {
		m.audits++
		if u.cnt != nil {
			u.cnt.begin(int64(len(model)+10) * 10000)
		}
		m.Check(d.Size() == len(model), "size is %d, expected %d", d.Size(), len(model))
		drainSeq(m, "forward iteration", d.Items(), model)
		drainSeq(m, "backward iteration", d.Backwards(), reversed(model))
		if len(model) > 0 {
			m.Check(sameItem(d.First(), model[0]), "first is %v, expected %v", d.First(), model[0])
			m.Check(sameItem(d.Last(), model[len(model)-1]), "last is %v, expected %v", d.Last(), model[len(model)-1])
		} else {
			m.Check(d.First() == nil && d.Last() == nil, "first and last of an empty list are %v and %v", d.First(), d.Last())
		}
		for k := 0; k < u.n; k += 1 + u.n/20 {
			m.Check(d.Has(u.key(k)) == (count[k] > 0), "membership of item %d is %v", k, count[k] == 0)
		}
		if u.kt == ktInstr {
			m.Check(d.String() == printed(model), "the list prints as %s, expected %s", d.String(), printed(model))
		}
	}
	audit()
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		m.ObsS(op.F)
		k := op.a(0) % u.n
		m.Obs(uint64(k))
		if u.cnt != nil {
			u.cnt.begin(100000)
		}
		x := u.key(k)
		switch op.F {
		case "front", "back", "push":
			var err error
			switch op.F {
			case "front":
				err = d.EnqueFront(x)
			case "back":
				err = d.EnqueBack(x)
			default:
				err = d.Push(x)
			}
			m.Check(err == nil, "%s failed: %v", op.F, errText(err))
			if unique && count[k] > 0 {
				m.Feat("enqueued a present item")
				m.Nontrivial()
				break
			}
			count[k]++
			if op.F == "front" {
				head--
				room[head] = x
				model = room[head : head+len(model)+1]
			} else {
				model = append(model, x)
			}
			if drained > 0 {
				m.Feat("reused after being emptied")
			}
		case "dfront", "dback", "pop":
			var y types.Hashable
			var err error
			switch op.F {
			case "dfront":
				y, err = d.DequeFront()
			case "dback":
				y, err = d.DequeBack()
			default:
				y, err = d.Pop()
			}
			if len(model) == 0 {
				m.Check(err != nil, "%s of an empty list returned %v and no error", op.F, y)
				m.Feat("dequeue of empty")
				break
			}
			m.Check(err == nil, "%s failed: %v", op.F, errText(err))
			var want types.Hashable
			if op.F == "dfront" {
				want = model[0]
				model = model[1:]
				head++
			} else {
				want = model[len(model)-1]
				model = model[:len(model)-1]
			}
			m.Check(sameItem(y, want), "%s returned %v, expected %v", op.F, y, want)
			count[u.index(want)]--
			if len(model) == 0 {
				drained++
				m.Feat("emptied")
			} else if !unique {
				m.Nontrivial()
			}
		}
		m.Check(d.Size() == len(model), "size is %d, expected %d", d.Size(), len(model))
		if every := maxi(1, c.p("aud")); i%every == every-1 {
			audit()
		}
	}
	m.step = len(c.Ops)
	audit()
}

func init() {
	heapOps := func(r *Rng, length, arg int) []Op {
		var ops []Op
		for len(ops) < length {
			pp, po := r.In(1, 6), r.In(1, 6)
			for i := r.In(1, length/2+1); i > 0; i-- {
				x := r.N(pp + po + 1)
				switch {
				case x < pp:
					ops = append(ops, Op{F: "push", A: []int{r.N(arg)}})
				case x < pp+po:
					ops = append(ops, Op{F: "pop"})
				default:
					ops = append(ops, Op{F: "peek"})
				}
			}
		}
		return ops
	}
	register(&Property{
		ID:   "C19",
		Rule: "Histories of push/pop/peek on min and max heaps against the multiset of pushed items with unique tokens; every pop is compared with the best priority, the heap verifies itself, and is drained at the end. All sequences of 7 pushes with 3 priorities, pops at every position; random histories up to a thousand operations with extreme priorities, heaps of up to 70000 items filled in eight orders, partly popped and filled again. Non-trivial: at least one pop from a heap of two or more.",
		Families: []Family{
			{
				Name: "orders", // every assignment of priorities to 7 pushes
				N:    constN(2187*2, 2187*2*4),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := &Case{Kind: "heap", P: map[string]int{"min": j % 2, "init": r.N(3), "ctor": r.N(2)}}
					j /= 2
					for i := 0; i < 7; i++ {
						c.Ops = append(c.Ops, Op{F: "push", A: []int{j % 3}})
						j /= 3
						if r.P(1, 6) {
							c.Ops = append(c.Ops, Op{F: "pop"})
						}
					}
					for i := r.In(1, 9); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: "pop"})
					}
					return c
				},
			},
			{
				Name: "permutations", // all insertion orders of 7 distinct priorities
				N:    func(t bool) int { return fact(7) },
				Gen: func(r *Rng, j int, t bool) *Case {
					c := &Case{Kind: "heap", P: map[string]int{"min": r.N(2), "aud": 4}}
					for _, p := range nthPerm(j, 7) {
						c.Ops = append(c.Ops, Op{F: "push", A: []int{p}})
					}
					for i := 0; i < 7; i++ {
						c.Ops = append(c.Ops, Op{F: "pop"})
					}
					return c
				},
			},
			{
				Name: "random",
				N:    constN(40000, 400000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "heap", P: map[string]int{"min": j % 2, "init": r.Pick(0, 1, 10), "ctor": r.N(2), "vk": r.N(4), "wide": r.N(2), "aud": r.Pick(1, 5)}, Ops: heapOps(r, r.In(5, 120), r.Pick(2, 23, 1000))}
				},
			},
			{
				Name: "medium",
				N:    constN(1500, 15000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "heap", P: map[string]int{"min": j % 2, "init": r.Pick(0, 1, 64), "ctor": r.N(2), "vk": r.N(4), "wide": r.N(2), "aud": 40}, Ops: heapOps(r, r.In(200, 1200), r.Pick(2, 5, 23, 100000))}
				},
			},
			{
				Name: "huge",
				N:    constN(32, 320),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := &Case{Kind: "heap", P: map[string]int{"min": j % 2, "wide": j / 2 % 2, "aud": 20000, "init": r.Pick(0, 1000)}}
					n := r.Pick(5000, 20000, 70000)
					for _, p := range order(r, j, n) {
						c.Ops = append(c.Ops, Op{F: "push", A: []int{p}})
					}
					for k := r.N(4); k > 0; k-- {
						for i := r.N(n); i > 0; i-- {
							c.Ops = append(c.Ops, Op{F: "pop"})
						}
						for i := r.N(n); i > 0; i-- {
							c.Ops = append(c.Ops, Op{F: "push", A: []int{r.N(2 * n)}})
						}
					}
					return c
				},
			},
			{
				Name: "large",
				N:    constN(160, 1600),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := &Case{Kind: "heap", P: map[string]int{"min": j % 2, "wide": j / 2 % 2, "aud": 200}}
					n := r.In(200, 3000)
					for _, p := range order(r, j, n) {
						c.Ops = append(c.Ops, Op{F: "push", A: []int{p}})
					}
					c.Ops = append(c.Ops, heapOps(r, 100, 1000)...)
					for i := r.N(n); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: "pop"})
					}
					return c
				},
			},
		},
		Run: runHeap,
	})
	register(&Property{
		ID:   "C20",
		Rule: "Histories of add/push/pop/peek on unique priority queues over min and max heaps against the set of queued items with their first priorities; drained at the end. Items are instrumented keys with 14 hash functions or of 13 other types; the queue below is a heap, another unique queue or one that is not the library's, empty or with other items; up to 40000 items. Non-trivial: an item was added while it was queued.",
		Families: []Family{
			{
				Name: "enum", // 2 items x 2 priorities, pop
				N:    func(t bool) int { return ipow(5, 6) },
				Gen: func(r *Rng, j int, t bool) *Case {
					c := &Case{Kind: "pq", P: map[string]int{"min": r.N(2), "n": 2, "hm": r.Pick(0, 1)}}
					for i := 0; i < 6; i++ {
						x := j % 5
						j /= 5
						if x == 4 {
							c.Ops = append(c.Ops, Op{F: "pop"})
						} else {
							c.Ops = append(c.Ops, Op{F: "add", A: []int{x % 2, x / 2}})
						}
					}
					return c
				},
			},
			{
				Name: "random",
				N:    constN(40000, 400000),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(2, 4, 10, 40)
					c := &Case{Kind: "pq", P: map[string]int{"min": j % 2, "n": n, "hm": r.N(nHashModes), "init": r.Pick(0, 1, 10), "pq": r.Pick(0, 0, 0, 1, 2), "wide": r.N(2), "us": r.N(1000)}}
					if r.P(1, 3) {
						c.P["kt"] = r.N(nKeyTypes)
					}
					if r.P(1, 6) {
						c.P["pre"] = r.In(1, 9)
					}
					pp := r.In(1, 5)
					for i := r.Pick(r.In(5, 90), r.In(5, 90), r.In(90, 500)); i > 0; i-- {
						x := r.N(pp + 3)
						switch {
						case x < pp:
							c.Ops = append(c.Ops, Op{F: r.PickS("add", "push"), A: []int{r.N(n), r.N(23)}})
						case x < pp+2:
							c.Ops = append(c.Ops, Op{F: "pop"})
						default:
							c.Ops = append(c.Ops, Op{F: "peek"})
						}
					}
					return c
				},
			},
			{
				Name: "large", // past the first split of the linear hash
				N:    constN(160, 1600),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(420, 2000)
					if j%16 == 0 {
						n = r.In(10000, 40000)
					}
					c := &Case{Kind: "pq", P: map[string]int{"min": j % 2, "n": n, "hm": r.Pick(0, 5, 6, 7), "wide": j / 2 % 2}}
					for _, k := range order(r, j, n) {
						c.Ops = append(c.Ops, Op{F: "add", A: []int{k, r.N(1000)}})
						if r.P(1, 3) {
							c.Ops = append(c.Ops, Op{F: "add", A: []int{r.N(n), r.N(1000)}})
						}
					}
					for i := r.N(n); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: r.PickS("pop", "add", "pop"), A: []int{r.N(n), r.N(1000)}})
					}
					return c
				},
			},
		},
		Run: runUniquePQ,
	})
	dequeFamilies := func(kind string) []Family {
		names := []string{"front", "back", "dfront", "dback", "push", "pop"}
		return []Family{
			{
				Name: "enum",
				N: func(t bool) int {
					if kind == "unique" {
						return ipow(6, 5)
					}
					if t {
						return ipow(4, 9)
					}
					return ipow(4, 7)
				},
				Gen: func(r *Rng, j int, t bool) *Case {
					if kind == "unique" { // 2 items at both ends, dequeue at both ends
						c := &Case{Kind: kind, P: map[string]int{"n": 2, "hm": r.Pick(0, 1)}}
						for i := 0; i < 5; i++ {
							x := j % 6
							j /= 6
							if x < 4 {
								c.Ops = append(c.Ops, Op{F: names[x%2], A: []int{x / 2}})
							} else {
								c.Ops = append(c.Ops, Op{F: names[x-2]})
							}
						}
						return c
					}
					l := 7
					if t {
						l = 9
					}
					c := &Case{Kind: kind, P: map[string]int{"n": 20}}
					for i := 0; i < l; i++ {
						c.Ops = append(c.Ops, Op{F: names[j%4], A: []int{i}})
						j /= 4
					}
					return c
				},
			},
			{
				Name: "random",
				N:    constN(24000, 240000),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 4) {
						kt = r.N(nKeyTypes)
					}
					n := r.Pick(1, 2, 4, 10, 40)
					c := &Case{Kind: kind, P: map[string]int{"kt": kt, "us": r.N(1000), "n": n, "hm": r.N(nHashModes), "aud": r.Pick(1, 3)}}
					for len(c.Ops) < 60 {
						pe := r.In(1, 5)
						for i := r.In(1, 30); i > 0; i-- {
							if r.N(pe+3) < pe {
								c.Ops = append(c.Ops, Op{F: r.PickS("front", "back", "push"), A: []int{r.N(n)}})
							} else {
								c.Ops = append(c.Ops, Op{F: r.PickS("dfront", "dback", "pop"), A: []int{0}})
							}
						}
					}
					c.Ops = c.Ops[:r.In(5, 60)]
					return c
				},
			},
			{
				Name: "large",
				N:    constN(96, 960),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(420, 2000)
					if j%16 == 0 {
						n = r.In(10000, 40000)
					}
					c := &Case{Kind: kind, P: map[string]int{"n": n, "hm": r.Pick(0, 5, 6, 7), "aud": maxi(150, n/4)}}
					for _, k := range order(r, j, n) {
						c.Ops = append(c.Ops, Op{F: r.PickS("front", "back", "push"), A: []int{k}})
						if r.P(1, 3) {
							c.Ops = append(c.Ops, Op{F: r.PickS("front", "back", "dback", "dfront"), A: []int{r.N(n)}})
						}
					}
					for i := 0; i < n; i++ {
						c.Ops = append(c.Ops, Op{F: r.PickS("dfront", "dback", "pop", "back"), A: []int{r.N(n)}})
					}
					return c
				},
			},
		}
	}
	register(&Property{
		ID:       "C21",
		Rule:     "Histories of enqueue/dequeue at both ends, push and pop against a plain sequence with item identities; audits compare first, last, size, membership, both iteration directions and the printed form. All histories of 7 (9) operations, random ones and large ones of up to 40000 items. Non-trivial: a dequeue that left items behind.",
		Families: dequeFamilies("linked"),
		Run:      runDeque,
	})
	register(&Property{
		ID:       "C22",
		Rule:     "Histories of enqueue/dequeue at both ends, push and pop on the unique deque against a sequence of distinct items; audits as for the linked list. All histories of 5 operations over 2 items, random ones with 13 key types and 14 hash functions, large ones past the first split of the hash table. Non-trivial: an item was enqueued while present.",
		Families: dequeFamilies("unique"),
		Run:      runDeque,
	})
}
