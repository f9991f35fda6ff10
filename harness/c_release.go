package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"weak"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/pool"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// C37: removed items are released.

// payload is a value whose lifetime is watched.
type payload struct {
	id  int
	pad [4]int
}

// watch is a list of things by number, with what became of them.
type watch[T any] struct {
	n    int
	at   []weak.Pointer[T]
	gone []bool
}

func newWatch[T any](n int) *watch[T] {
	return &watch[T]{0, make([]weak.Pointer[T], n), make([]bool, n)}
}

// held counts the removed things that are still reachable.
func (w *watch[T]) held() int {
	n := 0
	for i := range w.at {
		if w.gone[i] && w.at[i].Value() != nil {
			n++
		}
	}
	return n
}

// passing is a collection things pass through. Things have numbers.
type passing struct {
	put  func(id int)
	drop func(id int)      // removes exactly this one
	pop  func() int        // for kinds that decide themselves what goes
	over func(id, vid int) // gives a key another value
	keep interface{}
}

var passKinds = []string{"hash", "linhash", "avl", "immavl", "bpmap", "mapset", "tst", "bptree", "list", "sorted", "sortedset", "setmap", "heap", "unique", "linked", "deque", "persistent avl", "bptree dups"}

type passRun struct {
	m      *Mon
	c      *Case
	keys   *watch[IKey]
	values *watch[payload]
	hm     int
}

// rank is the place of key number id in the order of the keys.
func (p *passRun) rank(id int) int {
	switch p.c.p("ord") {
	case 1:
		return -id
	case 2:
		return int(uint32(id) * 0x9e3779b1)
	}
	return id
}

func (p *passRun) unrank(x int) int {
	switch p.c.p("ord") {
	case 1:
		return -x
	case 2:
		inv := uint32(0x9e3779b1) // of the multiplication modulo 2^32
		for i := 0; i < 5; i++ {
			inv *= 2 - 0x9e3779b1*inv
		}
		return int(uint32(x) * inv)
	}
	return x
}

//go:noinline
func (p *passRun) key(id int) types.Hashable {
	k := &IKey{id: p.rank(id), h: hashOf(p.hm, id)}
	p.keys.at[id] = weak.Make(k)
	p.keys.n++
	return k
}

//go:noinline
func (p *passRun) probe(id int) types.Hashable { return &IKey{id: p.rank(id), h: hashOf(p.hm, id)} }

//go:noinline
func (p *passRun) value(id int) interface{} {
	v := &payload{id: id}
	p.values.at[id] = weak.Make(v)
	p.values.n++
	return v
}

func (p *passRun) idOf(x interface{}) int {
	switch y := x.(type) {
	case *payload:
		return y.id
	case *IKey:
		return p.unrank(y.id)
	case *types.MapEntry:
		return p.idOf(y.Key)
	}
	return -1
}

func (p *passRun) make(kind string) *passing {
	c := p.c
	ns := maxi(2, c.p("ns"))
	switch kind {
	case "hash", "linhash", "avl", "immavl", "bpmap", "mapset":
		s := makeMap(kind, &Case{P: map[string]int{"init": c.p("init"), "ns": ns}})
		return &passing{
			put:  func(id int) { s.put(p.key(id), p.value(id)) },
			drop: func(id int) { s.remove(p.probe(id)) },
			over: func(id, vid int) { s.put(p.probe(id), p.value(vid)) },
			keep: s,
		}
	case "persistent avl":
		var root *avl.ImmutableAvlNode
		return &passing{
			put:  func(id int) { root, _ = root.Put(p.key(id), p.value(id)) },
			drop: func(id int) { root, _, _ = root.Remove(p.probe(id)) },
			over: func(id, vid int) { root, _ = root.Put(p.probe(id), p.value(vid)) },
			keep: &root,
		}
	case "tst":
		t := trie.New()
		k := func(id int) []byte { return []byte(fmt.Sprintf("k%07d", id*7919%10000000)) }
		return &passing{
			put:  func(id int) { t.Put(k(id), p.value(id)) },
			drop: func(id int) { t.Remove(k(id)) },
			over: func(id, vid int) { t.Put(k(id), p.value(vid)) },
			keep: t,
		}
	case "bptree":
		t := bptree.NewBpTree(ns)
		return &passing{
			put:  func(id int) { t.Add(p.key(id), p.value(id)) },
			drop: func(id int) { t.RemoveWhere(p.probe(id), func(interface{}) bool { return true }) },
			over: func(id, vid int) {
				t.Add(p.probe(id), p.value(vid))
				t.RemoveWhere(p.probe(id), func(v interface{}) bool { return p.idOf(v) != vid })
			},
			keep: t,
		}
	case "bptree dups":
		t := bptree.NewBpTree(ns)
		few := maxi(1, c.p("few"))
		add := func(id int) {
			k := &IKey{id: p.rank(id % few), h: hashOf(p.hm, id%few)}
			p.keys.at[id] = weak.Make(k)
			p.keys.n++
			t.Add(k, p.value(id))
		}
		return &passing{
			put:  add,
			drop: func(id int) { t.RemoveWhere(p.probe(id%few), func(v interface{}) bool { return p.idOf(v) == id }) },
			keep: t,
		}
	case "list":
		l := list.New(c.p("init"))
		return &passing{
			put: func(id int) { l.Append(p.key(id)) },
			drop: func(id int) {
				at := -1
				i := 0
				for x, next := l.Items()(); next != nil; x, next = next() {
					if p.idOf(x) == id {
						at = i
					}
					i++
				}
				l.Remove(at)
			},
			keep: l,
		}
	case "sorted":
		s := list.NewSorted(c.p("init"), ns%2 == 0)
		return &passing{put: func(id int) { s.Add(p.key(id)) }, drop: func(id int) { s.Delete(p.probe(id)) }, keep: s}
	case "sortedset":
		s := set.NewSortedSet(c.p("init"))
		return &passing{put: func(id int) { s.Add(p.key(id)) }, drop: func(id int) { s.Delete(p.probe(id)) }, keep: s}
	case "setmap":
		s := makeSet(1+ns%(nSetKinds-1), c.p("init"), ns)
		return &passing{put: func(id int) { s.Add(p.key(id)) }, drop: func(id int) { s.Delete(p.probe(id)) }, keep: s}
	case "heap":
		h := heap.NewHeap(c.p("init"), ns%2 == 0)
		return &passing{put: func(id int) { h.Push(int(mix64(uint64(id)))>>1, p.value(id)) }, pop: func() int { return p.idOf(h.Pop()) }, keep: h}
	case "unique":
		q := heap.NewUnique(heap.NewHeap(c.p("init"), ns%2 == 0))
		return &passing{put: func(id int) { q.Add(int(mix64(uint64(id)))>>1, p.key(id)) }, pop: func() int { return p.idOf(q.Pop()) }, keep: q}
	case "linked", "deque":
		var d deque = linked.New()
		if kind == "deque" {
			d = linked.NewUniqueDeque()
		}
		way := c.p("way")
		n := 0
		return &passing{
			put: func(id int) {
				n++
				if way == 0 || way == 2 && n%2 == 0 {
					d.EnqueFront(p.key(id))
				} else {
					d.EnqueBack(p.key(id))
				}
			},
			pop: func() int {
				n++
				var x types.Hashable
				if way == 0 || way == 3 || way == 2 && n%3 == 0 {
					x, _ = d.DequeBack()
				} else {
					x, _ = d.DequeFront()
				}
				return p.idOf(x)
			},
			keep: d,
		}
	}
	panic("kind")
}

//go:noinline
func (p *passRun) history(s *passing) (removed, peak int) {
	live := []int{}
	value := map[int]int{} // of a live key
	for i, op := range p.c.Ops {
		p.m.step = i
		p.m.ops++
		switch op.F {
		case "put":
			s.put(i)
			live = append(live, i)
			value[i] = i
			peak = maxi(peak, len(live))
		case "drop":
			if len(live) == 0 {
				continue
			}
			at := op.a(0) % len(live)
			id := live[at]
			if s.pop != nil {
				id = s.pop()
				at = -1
				for j, x := range live {
					if x == id {
						at = j
					}
				}
				p.m.Check(at >= 0, "removed %d, which was not there", id)
			} else {
				s.drop(id)
			}
			live = append(live[:at], live[at+1:]...)
			p.keys.gone[id] = true
			p.values.gone[value[id]] = true
			delete(value, id)
			removed++
		case "over":
			if len(live) == 0 || s.over == nil {
				continue
			}
			id := live[op.a(0)%len(live)]
			s.over(id, i)
			p.values.gone[value[id]] = true
			value[id] = i
			removed++
		}
	}
	return
}

// heapInUse is how many bytes and objects are reachable.
func heapInUse() (int, int) {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int(ms.HeapAlloc), int(ms.HeapObjects)
}

func runRelease(c *Case, m *Mon) {
	kind := passKinds[c.p("kind")%len(passKinds)]
	p := &passRun{m: m, c: c, keys: newWatch[IKey](len(c.Ops)), values: newWatch[payload](len(c.Ops)), hm: c.p("hm")}
	s := p.make(kind)
	b0, o0 := heapInUse()
	removed, peak := p.history(s)
	b1, o1 := heapInUse()
	keys, values := p.keys.held(), p.values.held()
	runtime.KeepAlive(s)
	at := maxi(peak, c.p("init"))
	bound := 60 + 4*at
	objects := 300 + 60*at
	if strings.HasPrefix(kind, "bp") || kind == "setmap" {
		bound = 60 + 2*(peak+2)*(maxi(2, c.p("ns"))+1)
		objects += 4 * at * at
	}
	bytes := 40000 + 100*objects
	handles := p.keys.n + p.values.n // each an object of the runtime
	grown, objs := b1-b0-16*handles, o1-o0-handles
	if costTrace {
		fmt.Fprintf(os.Stderr, "%s peak %d removed %d keys %d values %d bound %d bytes %d of %d objects %d of %d\n", kind, peak, removed, keys, values, bound, grown, bytes, objs, objects)
	}
	m.Check(keys <= bound, "the %s with at most %d items at a time still holds on to %d of %d removed items", kind, peak, keys, removed)
	m.Check(values <= bound, "the %s with at most %d items at a time still holds on to %d of %d removed values", kind, peak, values, removed)
	m.Check(objs <= objects, "the %s with at most %d items at a time consists of %d objects after %d removals", kind, peak, objs, removed)
	m.Check(grown <= bytes, "the %s with at most %d items at a time takes %d bytes after %d removals", kind, peak, grown, removed)
	m.audits++
	m.Feat(kind)
	m.FeatN("removed", removed)
	m.FeatN("held keys", keys)
	m.FeatN("held values", values)
	m.Obs(uint64(removed))
	m.Obs(uint64(peak))
	if removed > 2*bound {
		m.Nontrivial()
	}
	runtime.KeepAlive(s.keep)
	runtime.KeepAlive(p)
}

// waiting is the number of goroutines started by the pools that wait for
// something, and one of them. After the pools were stopped none is left.
func waiting() (n int, one string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "created by github.com/timtadh/data-structures/pool.") {
			continue
		}
		for _, s := range []string{"[chan receive", "[chan send", "[select", "[sync.", "[semacquire"} {
			if strings.Contains(strings.SplitN(g, "\n", 2)[0], s) {
				n++
				one = g
				break
			}
		}
	}
	return n, one
}

// runPools stops pools, which must leave neither goroutines nor jobs behind.
func runPools(c *Case, m *Mon) {
	jobs := newWatch[payload](len(c.Ops) + 1)
	var pools []*pool.Pool
	var ran atomic.Int64
	before, _ := waiting()
	submit := func(p *pool.Pool, i int) {
		x := &payload{id: i}
		jobs.at[i] = weak.Make(x)
		jobs.gone[i] = true
		m.Check(p.Do(func() { ran.Add(int64(len(x.pad))) }) == nil, "a job is refused")
	}
	n := 0
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		switch op.F {
		case "new":
			pools = append(pools, pool.New(1+op.a(0)%12))
		case "do":
			if len(pools) > 0 {
				submit(pools[op.a(0)%len(pools)], i)
				n++
			}
		case "wait":
			if len(pools) > 0 {
				p := pools[op.a(0)%len(pools)]
				p.WaitLock()
				p.Unlock()
			}
		}
	}
	m.step = len(c.Ops)
	for _, p := range pools {
		p.Stop()
	}
	m.Check(ran.Load() == int64(4*n), "%d of %d jobs ran", ran.Load()/4, n)
	left, one := waiting()
	for tries := 0; left > before && tries < 500; tries++ {
		time.Sleep(2 * time.Millisecond)
		left, one = waiting()
	}
	m.Check(left <= before, "%d goroutines of stopped pools are left: %s", left-before, head(one, 600))
	runtime.GC()
	runtime.GC()
	held := jobs.held()
	m.Check(held <= 8+4*len(pools)*13, "%d stopped pools still hold on to %d of %d jobs", len(pools), held, n)
	runtime.KeepAlive(pools)
	m.audits++
	m.Feat("stopped pools")
	m.Obs(uint64(n))
	m.Obs(uint64(len(pools)))
	if n > 1 {
		m.Nontrivial()
	}
}

func genPassing(r *Rng, kind, n int) *Case {
	c := &Case{Kind: "release", P: map[string]int{"kind": kind, "hm": r.Pick(0, 0, 4, 5), "init": r.Pick(0, 1, 30), "ns": r.Pick(2, 2, 3, 4, 5, 8), "way": r.N(4), "few": r.Pick(1, 2, 7), "ord": r.Pick(0, 1, 2, 2)}}
	w := r.Pick(1, 2, 5, 20, 30)
	if w > 1 && r.P(1, 3) {
		w = r.In(1, 30)
	}
	mode := r.N(4)
	low := r.Pick(0, w/2, w-1, w-1) // never fewer than that
	live := 0
	for ; n > 0; n-- {
		if live > 0 && r.P(1, 8) {
			c.Ops = append(c.Ops, Op{F: "over", A: []int{r.N(100)}})
			continue
		}
		if live < w && (live <= low || r.P(1, 2)) {
			c.Ops = append(c.Ops, Op{F: "put"})
			live++
			continue
		}
		a := 0
		switch mode {
		case 1:
			a = live - 1
		case 2, 3:
			a = r.N(live)
		}
		c.Ops = append(c.Ops, Op{F: "drop", A: []int{a}})
		live--
	}
	return c
}

func init() {
	register(&Property{
		ID:   "C37",
		Rule: "Eighteen kinds of collections that never hold more than thirty items at a time let thousands of watched keys and values pass through, removed oldest first, newest first or at random, and values replaced; then, after a collection by the garbage collector, weak pointers tell how many of the removed keys and values are still reachable, and the memory statistics how many objects and bytes the collection has grown by. Both are held to bounds that depend on the largest number of items held at a time only. Stopped pools must leave no goroutine waiting and hold on to few of the jobs they ran. Non-trivial: more than twice as many removals as the bound, or more than one job.",
		Families: []Family{
			{Name: "passing through", N: constN(1800, 18000), Gen: func(r *Rng, j int, t bool) *Case { return genPassing(r, j, r.Pick(3000, 6000, 20000)) }},
			{Name: "long", N: constN(180, 1800), Gen: func(r *Rng, j int, t bool) *Case { return genPassing(r, j, r.Pick(50000, 100000)) }},
			{Name: "pools", N: constN(600, 6000), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "pools", Ops: []Op{{F: "new", A: []int{r.N(12)}}}}
				for i := r.Pick(3, 20, 200, 1500); i > 0; i-- {
					f := "do"
					if r.P(1, 40) {
						f = r.PickS("new", "wait")
					}
					c.Ops = append(c.Ops, Op{F: f, A: []int{r.N(100)}})
				}
				return c
			}},
			{Name: "blocks", N: constN(200, 1200), Gen: func(r *Rng, j int, t bool) *Case {
				kind := r.PickS("bptree", "bpmap", "bptree", "bptree dups")
				for i, k := range passKinds {
					if k == kind {
						j = i
					}
				}
				return genPassing(r, j, r.Pick(20000, 60000))
			}},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "pools" {
				runPools(c, m)
			} else {
				runRelease(c, m)
			}
		},
	})
}
