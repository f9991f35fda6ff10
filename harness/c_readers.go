package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// C31 and C33: reading operations and iterators of every kind of collection.

// stepper is an iteration in progress.
type stepper func() (string, bool)

type rdOp struct {
	name string
	f    func() string
}

type rdIter struct {
	name    string
	ordered bool
	start   func() stepper
	all     string // "kv", "k", "dk", "v": yields all entries, keys, distinct keys or values
}

// rdObj is a collection seen through its reading operations.
type rdObj struct {
	u      *Universe
	reads  []rdOp
	iters  []rdIter
	mutate func(r *Rng)
	model  map[string]int // the entries that should be there, how often
}

// put and del keep the model up to date. Entries are printed like "key=value".
func (o *rdObj) put(k, v interface{}) { o.model[fmt.Sprintf("%v=%v", k, v)]++ }
func (o *rdObj) del(k, v interface{}) { o.model[fmt.Sprintf("%v=%v", k, v)]-- }

// expected is what an iterator over everything should yield, sorted.
func (o *rdObj) expected(all string) []string {
	out := []string{}
	for e, n := range o.model {
		i := strings.IndexByte(e, '=')
		x := e
		if all == "k" || all == "dk" {
			x = e[:i]
		} else if all == "v" {
			x = e[i+1:]
		}
		for ; n > 0; n-- {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	if all == "dk" { // each key once
		once := out[:0]
		for i, x := range out {
			if i == 0 || x != out[i-1] {
				once = append(once, x)
			}
		}
		out = once
	}
	return out
}

func (o *rdObj) read(name string, f func() string) { o.reads = append(o.reads, rdOp{name, f}) }

func (o *rdObj) yes(name string, f func() bool) {
	o.read(name, func() string { return fmt.Sprint(f()) })
}

func (o *rdObj) num(name string, f func() int) {
	o.read(name, func() string { return fmt.Sprint(f()) })
}

// iter adds an iterator, both as such and as a reading operation.
func (o *rdObj) iter(name string, ordered bool, start func() stepper) {
	o.iters = append(o.iters, rdIter{name, ordered, start, ""})
	o.read(name, func() string {
		return digest(drainStepper(start(), 100000), ordered)
	})
}

// whole is iter for an iterator that yields everything.
func (o *rdObj) whole(all, name string, ordered bool, start func() stepper) {
	o.iter(name, ordered, start)
	o.iters[len(o.iters)-1].all = all
}

func digest(xs []string, ordered bool) string {
	if !ordered {
		sort.Strings(xs)
	}
	return strings.Join(xs, " ")
}

func drainStepper(s stepper, max int) []string {
	xs := []string{}
	for x, ok := s(); ok; x, ok = s() {
		xs = append(xs, x)
		if len(xs) > max {
			return append(xs, "and more")
		}
	}
	return xs
}

func (o *rdObj) item(x interface{}) string {
	if me, ok := x.(*types.MapEntry); ok && me != nil {
		return fmt.Sprintf("%d=%v", o.u.index(me.Key), me.Value)
	}
	return fmt.Sprint(o.u.index(x))
}

func (o *rdObj) kv(it types.KVIterator) stepper {
	return func() (string, bool) {
		k, v, next := it()
		if next == nil {
			return "", false
		}
		it = next
		return fmt.Sprintf("%d=%v", o.u.index(k), v), true
	}
}

func (o *rdObj) k(it types.KIterator) stepper {
	return func() (string, bool) {
		x, next := it()
		if next == nil {
			return "", false
		}
		it = next
		return o.item(x), true
	}
}

func (o *rdObj) v(it types.Iterator) stepper {
	return func() (string, bool) {
		x, next := it()
		if next == nil {
			return "", false
		}
		it = next
		return fmt.Sprint(x), true
	}
}

func (o *rdObj) n(it types.TreeNodeIterator) stepper {
	return func() (string, bool) {
		x, next := it()
		if next == nil {
			return "", false
		}
		it = next
		return fmt.Sprintf("%d=%v", o.u.index(x.Key()), x.Value()), true
	}
}

// printedSet is a printed unordered collection, independent of the order.
func printedSet(s string) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

var rdKinds = []string{"hash", "linhash", "avl", "immavl", "bpmap", "mapset", "tst", "bptree", "list", "fixed", "sorted", "sortedset", "setmap", "heap", "unique", "linked", "deque"}

// quietUniverse makes keys that do not count, for use in several goroutines.
func quietUniverse(kt, hm, n, us int) *Universe {
	u := newUniverse(kt, hm, n, us)
	if kt == ktInstr {
		u.cnt = nil
		u.fresh = func(i int) types.Hashable { return &IKey{id: i, h: hashOf(hm, i)} }
	}
	return u
}

// makeReadable builds the collection of a case. Two calls build two equal ones.
func makeReadable(c *Case) *rdObj {
	kind := rdKinds[c.p("kind")%len(rdKinds)]
	kt := c.p("kt")
	if kind == "tst" {
		kt = ktTST
	}
	o := &rdObj{model: map[string]int{}, u: quietUniverse(kt, c.p("hm"), maxi(2, c.p("n")), c.p("us"))}
	u := o.u
	r := newRng(uint64(c.p("us")), 55)
	probes := []int{0, u.n - 1}
	for i := 0; i < 4; i++ {
		probes = append(probes, r.N(u.n))
	}
	keyOps := func(has func(k types.Hashable) bool) {
		for _, k := range probes {
			k := k
			o.yes(fmt.Sprintf("has %d", k), func() bool { return has(u.key(k)) })
		}
	}
	token := 0
	switch kind {
	case "hash", "linhash", "avl", "immavl", "bpmap", "mapset", "tst":
		s := makeMap(kind, &Case{P: map[string]int{"init": c.p("init"), "ns": maxi(2, c.p("ns"))}})
		var t *trie.TST
		if kind == "tst" {
			t = trie.New()
			s = fromTST(t)
		}
		keyOps(s.has)
		for _, k := range probes[:4] {
			k := k
			o.read(fmt.Sprintf("get %d", k), func() string {
				v, err := s.get(u.key(k))
				return fmt.Sprint(v, err == nil)
			})
		}
		if s.size != nil {
			o.num("size", s.size)
		}
		o.whole("kv", "iterate", s.ordered, func() stepper { return o.kv(s.iterate()) })
		o.whole("k", "keys", s.ordered, func() stepper { return o.k(s.keys()) })
		o.whole("v", "values", s.ordered, func() stepper { return o.v(s.values()) })
		if s.items != nil {
			o.whole("kv", "items", s.ordered, func() stepper { return o.k(s.items()) })
		}
		if s.root != nil {
			root := func() types.BinaryTreeNode {
				b, _ := s.root().(types.BinaryTreeNode)
				return b
			}
			o.whole("kv", "in order", true, func() stepper { return o.n(tree.TraverseBinaryTreeInOrder(root())) })
			o.whole("kv", "pre order", true, func() stepper { return o.n(tree.TraverseTreePreOrder(s.root())) })
			o.whole("kv", "post order", true, func() stepper { return o.n(tree.TraverseTreePostOrder(s.root())) })
			o.iter("children", true, func() stepper {
				b := root()
				if types.IsNil(b) {
					return func() (string, bool) { return "", false }
				}
				return o.n(b.Children())
			})
		}
		if t != nil {
			o.read("print", t.String)
			o.read("dotty", t.Dotty)
			for _, k := range probes[:4] {
				p := u.key(k).(types.ByteSlice)
				p = p[:1+r.N(len(p))]
				o.iter(fmt.Sprintf("prefix %q", string(p)), true, func() stepper { return o.kv(t.PrefixFind(append(types.ByteSlice{}, p...))) })
			}
			o.whole("kv", "prefix of nothing", true, func() stepper { return o.kv(t.PrefixFind(nil)) })
			o.yes("validate", func() bool { return t.ValidateKey([]byte("a\x00")) == nil })
		}
		now := map[int]int{}
		o.mutate = func(r *Rng) {
			k := r.N(u.n)
			old, has := now[k]
			if has {
				o.del(k, old)
			}
			if r.P(1, 3) {
				if has {
					s.remove(u.key(k))
					delete(now, k)
				}
			} else {
				token++
				s.put(u.key(k), token)
				now[k] = token
				o.put(k, token)
			}
		}
	case "bptree":
		t := bptree.NewBpTree(maxi(2, c.p("ns")))
		keyOps(t.Has)
		o.num("size", t.Size)
		for i, k := range probes {
			k, to := k, probes[(i+1)%len(probes)]
			o.num(fmt.Sprintf("count %d", k), func() int { return t.Count(u.key(k)) })
			o.iter(fmt.Sprintf("find %d", k), true, func() stepper { return o.kv(t.Find(u.key(k))) })
			o.iter(fmt.Sprintf("range %d %d", k, to), true, func() stepper { return o.kv(t.Range(u.key(k), u.key(to))) })
		}
		o.whole("kv", "iterate", true, func() stepper { return o.kv(t.Iterate()) })
		o.whole("kv", "backward", true, func() stepper { return o.kv(t.Backward()) })
		o.whole("dk", "keys", true, func() stepper { return o.k(t.Keys()) })
		o.whole("v", "values", true, func() stepper { return o.v(t.Values()) })
		o.whole("kv", "items", true, func() stepper { return o.k(t.Items()) })
		now := map[int][]int{}
		o.mutate = func(r *Rng) {
			k := r.N(u.n)
			drop := func(which func(v int) bool) {
				t.RemoveWhere(u.key(k), func(v interface{}) bool { return which(v.(int)) })
				var left []int
				for _, v := range now[k] {
					if which(v) {
						o.del(k, v)
					} else {
						left = append(left, v)
					}
				}
				now[k] = left
			}
			switch r.N(5) {
			case 0:
				drop(func(int) bool { return true })
			case 1:
				x := token % 2
				drop(func(v int) bool { return v%2 == x })
			default:
				token++
				t.Add(u.key(k), token)
				now[k] = append(now[k], token)
				o.put(k, token)
			}
		}
	case "list", "fixed":
		l := list.New(c.p("init"))
		if kind == "fixed" {
			l = list.Fixed(200)
		}
		other := list.New(0)
		for i := 0; i < c.p("fill"); i++ {
			other.Append(u.key(r.N(u.n)))
		}
		listReads(o, l, l, probes)
		o.yes("full", l.Full)
		o.yes("empty", l.Empty)
		o.yes("equals", func() bool { return l.Equals(other) })
		o.yes("equals itself", func() bool { return l.Equals(l) })
		o.yes("less", func() bool { return l.Less(other) })
		o.yes("greater", func() bool { return other.Less(l) })
		o.whole("k", "items in reverse", true, func() stepper { return o.k(l.ItemsInReverse()) })
		o.whole("k", "items of a copy", true, func() stepper { return o.k(l.Copy().Items()) })
		if u.kt == ktInt {
			o.read("encode", func() string {
				b, err := list.NewMList(l, intMarshal, intUnmarshal).MarshalBinary()
				return fmt.Sprint(b, err == nil)
			})
		}
		var now []int
		for _, i := range []int{0, 1, 5} {
			i := i
			o.read(fmt.Sprintf("get %d", i), func() string { x, err := l.Get(i); return fmt.Sprint(o.item(x), err == nil) })
		}
		o.mutate = func(r *Rng) {
			n := len(now)
			k := r.N(u.n)
			switch r.N(6) {
			case 0:
				if n > 0 {
					i := r.N(n)
					l.Remove(i)
					o.del(now[i], "")
					now = append(now[:i:i], now[i+1:]...)
				}
			case 1:
				if n > 0 {
					l.Pop()
					o.del(now[n-1], "")
					now = now[:n-1]
				}
			case 2:
				i := r.N(n + 1)
				l.Insert(i, u.key(k))
				o.put(k, "")
				now = append(now[:i:i], append([]int{k}, now[i:]...)...)
			default:
				l.Append(u.key(k))
				o.put(k, "")
				now = append(now, k)
			}
		}
	case "sorted":
		dups := c.p("ns")%2 == 0
		s := list.NewSorted(c.p("init"), dups)
		var now []int
		if u.kt == ktInt {
			o.read("encode", func() string {
				b, err := list.NewMSorted(s, intMarshal, intUnmarshal).MarshalBinary()
				return fmt.Sprint(b, err == nil)
			})
		}
		other := list.NewSorted(0, true)
		for i := 0; i < c.p("fill"); i++ {
			other.Add(u.key(r.N(u.n)))
		}
		listReads(o, s, s, probes)
		o.yes("equals", func() bool { return s.Equals(other) })
		o.yes("less", func() bool { return s.Less(other) })
		o.whole("k", "items in reverse", true, func() stepper { return o.k(s.ItemsInReverse()) })
		o.whole("k", "items of a copy", true, func() stepper { return o.k(s.Copy().Items()) })
		for _, k := range probes {
			k := k
			o.read(fmt.Sprintf("find %d", k), func() string { i, has, err := s.Find(u.key(k)); return fmt.Sprint(i, has, err == nil) })
			o.read(fmt.Sprintf("item %d", k), func() string { x, err := s.Item(u.key(k)); return fmt.Sprint(o.item(x), err == nil) })
		}
		o.mutate = func(r *Rng) {
			k := r.N(u.n)
			at := sort.SearchInts(now, k)
			has := at < len(now) && now[at] == k
			switch r.N(4) {
			case 0:
				if has {
					s.Delete(u.key(k))
					o.del(k, "")
					now = append(now[:at:at], now[at+1:]...)
				}
			case 1:
				if len(now) > 0 {
					i := r.N(len(now))
					s.Remove(i)
					o.del(now[i], "")
					now = append(now[:i:i], now[i+1:]...)
				}
			default:
				s.Add(u.key(k))
				if !has || dups {
					o.put(k, "")
					now = append(now[:at:at], append([]int{k}, now[at:]...)...)
				}
			}
		}
	case "sortedset", "setmap":
		mk := func(which int) types.Set {
			if kind == "sortedset" {
				return set.NewSortedSet(c.p("init"))
			}
			return makeSet(1+which%(nSetKinds-1), c.p("init"), c.p("ns"))
		}
		s, b := mk(c.p("ns")), mk(c.p("ns")+c.p("init"))
		for i := 0; i < c.p("fill"); i++ {
			b.Add(u.key(r.N(u.n)))
		}
		keyOps(s.Has)
		o.num("size", s.Size)
		_, ordered := s.(*set.SortedSet)
		now := map[int]bool{}
		o.whole("k", "items", ordered, func() stepper { return o.k(s.Items()) })
		res := func(name string, f func() (types.Set, error)) {
			o.iter(name, ordered, func() stepper {
				x, err := f()
				if err != nil {
					return func() (string, bool) { return "", false }
				}
				return o.k(x.Items())
			})
		}
		res("union", func() (types.Set, error) { return s.Union(b) })
		res("intersection", func() (types.Set, error) { return s.Intersect(b) })
		res("difference", func() (types.Set, error) { return s.Subtract(b) })
		res("union as right operand", func() (types.Set, error) { return b.Union(s) })
		res("difference as right operand", func() (types.Set, error) { return set.Subtract(b, s) })
		o.yes("subset", func() bool { return s.Subset(b) })
		o.yes("proper subset", func() bool { return s.ProperSubset(b) })
		o.yes("superset", func() bool { return s.Superset(b) })
		o.yes("proper superset", func() bool { return b.ProperSuperset(s) })
		if ss, ok := s.(*set.SortedSet); ok {
			o.yes("overlap", func() bool { return ss.Overlap(b.(*set.SortedSet)) })
			o.whole("k", "copy", true, func() stepper { return o.k(ss.Copy().Items()) })
			o.whole("k", "items in reverse", true, func() stepper { return o.k(ss.ItemsInReverse()) })
			o.yes("equals", func() bool { return ss.Equals(b) })
			o.num("hash", ss.Hash)
			o.read("print", ss.String)
			o.yes("random pick", func() bool { x, err := ss.Random(); return err != nil || ss.Has(x) })
			o.whole("k", "sorted set from set", true, func() stepper { return o.k(set.SortedFromSet(s).Items()) })
		} else if p, ok := s.(fmt.Stringer); ok {
			o.read("print", func() string { return printedSet(p.String()) })
		}
		o.mutate = func(r *Rng) {
			k := r.N(u.n)
			if now[k] {
				o.del(k, "")
			}
			if r.P(1, 3) && now[k] {
				s.Delete(u.key(k))
				now[k] = false
			} else {
				s.Add(u.key(k))
				now[k] = true
				o.put(k, "")
			}
		}
	case "heap":
		h := heap.NewHeap(c.p("init"), c.p("ns")%2 == 0)
		o.num("size", h.Size)
		o.yes("min", h.MinHeap)
		o.yes("verify", func() bool { return h.Verify() == nil })
		o.read("peek", func() string { return fmt.Sprint(h.Peek()) })
		o.whole("v", "items", false, func() stepper { return o.v(h.Items()) })
		o.mutate = func(r *Rng) {
			if r.P(1, 3) {
				if h.Size() > 0 {
					o.del("", h.Pop())
				}
			} else {
				token++
				h.Push(int(mix64(uint64(token)))>>1, token)
				o.put("", token)
			}
		}
	case "unique":
		q := heap.NewUnique(heap.NewHeap(c.p("init"), c.p("ns")%2 == 0))
		o.num("size", q.Size)
		o.read("peek", func() string { return o.item(q.Peek()) })
		o.mutate = func(r *Rng) {
			if r.P(1, 3) {
				q.Pop()
			} else {
				token++
				q.Add(int(mix64(uint64(token)))>>1, u.key(r.N(u.n)))
			}
		}
	case "linked", "deque":
		var d, other interface {
			deque
			types.Hashable
		} = linked.New(), linked.New()
		if kind == "deque" {
			d, other = linked.NewUniqueDeque(), linked.NewUniqueDeque()
		}
		var now []int
		for i := 0; i < c.p("fill"); i++ {
			other.Push(u.key(r.N(u.n)))
		}
		listReads(o, d, d, probes)
		o.read("first", func() string { return o.item(d.First()) })
		o.read("last", func() string { return o.item(d.Last()) })
		o.yes("equals", func() bool { return d.Equals(other) })
		o.yes("less", func() bool { return d.Less(other) })
		o.whole("k", "backwards", true, func() stepper { return o.k(d.Backwards()) })
		o.mutate = func(r *Rng) {
			k := r.N(u.n)
			n := len(now)
			if kind == "deque" {
				for i := range now {
					if now[i] == k {
						k = -1 // adding again is another property
						break
					}
				}
			}
			switch x := r.N(6); {
			case x == 0 && n > 0:
				d.DequeFront()
				o.del(now[0], "")
				now = now[1:]
			case x == 1 && n > 0:
				d.DequeBack()
				o.del(now[n-1], "")
				now = now[:n-1]
			case x == 2 && k >= 0:
				d.EnqueFront(u.key(k))
				o.put(k, "")
				now = append([]int{k}, now...)
			case x > 2 && k >= 0:
				d.EnqueBack(u.key(k))
				o.put(k, "")
				now = append(now, k)
			}
		}
	}
	for i := c.p("fill"); i > 0; i-- {
		o.mutate(r)
	}
	return o
}

func intMarshal(x types.Hashable) ([]byte, error) {
	i := x.(types.Int)
	return i.MarshalBinary()
}

func intUnmarshal(b []byte) (types.Hashable, error) {
	var x types.Int
	err := x.UnmarshalBinary(b)
	return x, err
}

// listReads adds what all lists have in common.
func listReads(o *rdObj, l interface {
	Size() int
	Items() types.KIterator
	Has(types.Hashable) bool
}, h interface {
	Hash() int
	String() string
}, probes []int) {
	o.num("size", l.Size)
	o.num("hash", h.Hash)
	o.read("print", h.String)
	o.whole("k", "items", true, func() stepper { return o.k(l.Items()) })
	for _, k := range probes {
		k := k
		o.yes(fmt.Sprintf("has %d", k), func() bool { return l.Has(o.u.key(k)) })
	}
}

func (o *rdObj) answers() []string {
	out := make([]string, len(o.reads))
	for i, op := range o.reads {
		out[i] = op.f()
	}
	return out
}

func (o *rdObj) compare(m *Mon, when string, want []string) {
	m.audits++
	for i, op := range o.reads {
		got := op.f()
		m.Check(got == want[i], "%s: %s answers %q, expected %q", when, op.name, got, want[i])
		m.ops++
	}
}

// runReaders: readers of a collection nobody has read before, in several
// goroutines; then the collection must behave like one that was never read.
func runReaders(c *Case, m *Mon) {
	if pr := c.p("procs"); pr > 0 {
		old := runtime.GOMAXPROCS(pr)
		defer runtime.GOMAXPROCS(old)
	}
	alone := makeReadable(c)
	want := alone.answers()
	alone.compare(m, "a second time", want)
	unread := makeReadable(c)
	o := makeReadable(c)
	together(maxi(1, c.p("g")), func(i int, mon *Mon) {
		r := newRng(uint64(c.p("us")), uint64(i), 77)
		for s := c.p("steps"); s > 0; s-- {
			j := r.N(len(o.reads))
			got := o.reads[j].f()
			mon.Check(got == want[j], "with other readers %s answers %q, alone %q", o.reads[j].name, got, want[j])
		}
	})
	m.ops += int64(c.p("g") * c.p("steps"))
	o.compare(m, "after concurrent reading", want)
	ra, rb := newRng(uint64(c.p("us")), 88), newRng(uint64(c.p("us")), 88)
	for i := 0; i < c.p("after"); i++ {
		unread.mutate(ra)
		o.mutate(rb)
		if i%4 == 3 {
			o.compare(m, "changed after having been read", freshAnswers(unread))
		}
	}
	o.compare(m, "changed after having been read", unread.answers())
	m.Obs(uint64(c.p("us")))
	m.Feat(rdKinds[c.p("kind")%len(rdKinds)])
	if c.p("fill") > 1 && c.p("g") > 1 {
		m.Nontrivial()
	}
}

// freshAnswers reads the twin too; what it was spared is the concurrent
// reading before the first change.
func freshAnswers(o *rdObj) []string { return o.answers() }

// runIterators: several iterators over one collection, advanced in the order
// the operations say.
func runIterators(c *Case, m *Mon) {
	twin, o := makeReadable(c), makeReadable(c)
	want := twin.answers()
	full := make([][]string, len(twin.iters))
	for i, it := range twin.iters {
		full[i] = drainStepper(it.start(), 100000)
		if it.all != "" {
			got := digest(append([]string{}, full[i]...), false)
			exp := strings.Join(twin.expected(it.all), " ")
			m.Check(got == exp, "%s yields (sorted) %q, the history left %q", it.name, got, exp)
			if exp == "" {
				m.Feat("empty")
			}
		}
	}
	if len(o.iters) == 0 {
		return
	}
	type running struct {
		i    int
		s    stepper
		got  []string
		done bool
	}
	var rs []*running
	finish := func(r *running) {
		it := o.iters[r.i]
		m.Check(len(r.got) <= len(full[r.i]), "%s yields more than %d items", it.name, len(full[r.i]))
		if it.ordered {
			for x := range r.got {
				m.Check(r.got[x] == full[r.i][x], "%s yields %s at position %d among other iterators, %s alone", it.name, r.got[x], x, full[r.i][x])
			}
		} else {
			left := map[string]int{}
			for _, x := range full[r.i] {
				left[x]++
			}
			for _, x := range r.got {
				left[x]--
				m.Check(left[x] >= 0, "%s yields %s among other iterators, which is not there or not so often", it.name, x)
			}
		}
		if r.done {
			m.Check(len(r.got) == len(full[r.i]), "%s ends after %d of %d items among other iterators", it.name, len(r.got), len(full[r.i]))
		}
	}
	step := func(r *running) {
		if r.done {
			return
		}
		m.ops++
		x, ok := r.s()
		if !ok {
			r.done = true
			m.Feat("ended among others")
			finish(r)
			return
		}
		r.got = append(r.got, x)
		m.Check(len(r.got) <= len(full[r.i]), "%s yields more than %d items", o.iters[r.i].name, len(full[r.i]))
	}
	for i, op := range c.Ops {
		m.step = i
		m.ObsS(op.F)
		m.Obs(uint64(op.a(0)))
		switch op.F {
		case "open":
			j := op.a(0) % len(o.iters)
			rs = append(rs, &running{i: j, s: o.iters[j].start()})
		case "step":
			if len(rs) > 0 {
				r := rs[op.a(0)%len(rs)]
				for n := op.a(1); n >= 0; n-- {
					step(r)
				}
			}
		case "drop":
			if len(rs) > 0 {
				j := op.a(0) % len(rs)
				finish(rs[j])
				rs = append(rs[:j], rs[j+1:]...)
				m.Feat("abandoned")
			}
		case "read":
			j := op.a(0) % len(o.reads)
			got := o.reads[j].f()
			m.Check(got == want[j], "with iterators under way %s answers %q, expected %q", o.reads[j].name, got, want[j])
		}
	}
	m.step = len(c.Ops)
	if len(rs) > 1 {
		m.Nontrivial()
	}
	for n := 0; n < len(rs); n++ { // finish the rest round robin
		for {
			active := false
			for _, r := range rs {
				step(r)
				active = active || !r.done
			}
			if !active {
				break
			}
		}
	}
	o.compare(m, "after iterating", want)
	ra, rb := newRng(uint64(c.p("us")), 88), newRng(uint64(c.p("us")), 88)
	for i := 0; i < c.p("after"); i++ {
		twin.mutate(ra)
		o.mutate(rb)
	}
	o.compare(m, "changed after iterating", twin.answers())
	m.Obs(uint64(c.p("us")))
	m.Feat(rdKinds[c.p("kind")%len(rdKinds)])
}

func init() {
	conf := func(r *Rng, j int) map[string]int {
		kt := 0
		if r.P(1, 3) {
			kt = r.Pick(ktInt, ktString, ktBytes)
		}
		return map[string]int{"kind": j, "kt": kt, "hm": r.Pick(0, 0, 1, 4, 5, 12), "n": r.Pick(3, 8, 20, 60), "fill": r.Pick(0, 1, 3, 10, 40, 120), "init": r.Pick(0, 1, 8), "ns": r.In(2, 7), "us": r.N(1 << 30), "after": r.Pick(0, 4, 12)}
	}
	register(&Property{
		ID: "C31", Race: true, Shards: 4, Repeat: 20,
		Rule: "17 kinds of collections, filled by random histories, read by several goroutines at once under the race detector with every reading operation; answers are compared with those of an equal collection read alone, and afterwards with an equal collection never read concurrently, also after further changes. Non-trivial: more than one item was put in and more than one goroutine read.",
		Families: []Family{
			{Name: "readers", N: constN(6800, 85000), Gen: func(r *Rng, j int, t bool) *Case {
				p := conf(r, j)
				p["procs"], p["g"], p["steps"] = r.Pick(2, 4), r.In(2, 4), r.Pick(10, 40)
				return &Case{Kind: "readers", P: p}
			}},
		},
		Run: runReaders,
	})
	register(&Property{
		ID:   "C33",
		Rule: "17 kinds of collections, filled by random histories; several iterators of all kinds over the same collection are opened, advanced in random interleavings, abandoned and mixed with other reading operations; each must yield what it yields alone. Afterwards the collection must answer like an equal one that was not iterated that way, also after further changes. Non-trivial: at least two iterators under way at once.",
		Families: []Family{
			{Name: "interleaved", N: constN(51000, 850000), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "iterators", P: conf(r, j)}
				for i := r.In(2, 5); i > 0; i-- {
					c.Ops = append(c.Ops, Op{F: "open", A: []int{r.N(100)}})
				}
				if r.P(1, 3) { // several of the same kind
					x := r.N(100)
					for i := range c.Ops {
						c.Ops[i].A[0] = x
					}
				}
				for i := r.In(2, 40); i > 0; i-- {
					switch r.N(12) {
					case 0:
						c.Ops = append(c.Ops, Op{F: "open", A: []int{r.N(100)}})
					case 1:
						c.Ops = append(c.Ops, Op{F: "drop", A: []int{r.N(100)}})
					case 2:
						c.Ops = append(c.Ops, Op{F: "read", A: []int{r.N(100)}})
					default:
						c.Ops = append(c.Ops, Op{F: "step", A: []int{r.N(100), r.Pick(0, 0, 1, 5, 30)}})
					}
				}
				return c
			}},
		},
		Run: runIterators,
	})
}
