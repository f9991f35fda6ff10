package main

import (
	"sort"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// mapSUT is a map-like structure under test.
type mapSUT struct {
	put     func(k types.Hashable, v interface{}) error
	get     func(k types.Hashable) (interface{}, error)
	has     func(k types.Hashable) bool
	remove  func(k types.Hashable) (interface{}, error)
	size    func() int // nil if the structure has none
	iterate func() types.KVIterator
	keys    func() types.KIterator
	values  func() types.Iterator
	items   func() types.KIterator // nil if the structure has none
	ordered bool
	root    func() types.TreeNode
	// nodeUpdated is set by node-level puts: did the put report an update?
	nodeUpdated *bool
	// node returns the current immutable node
	node func() *avl.ImmutableAvlNode
}

type itemser interface{ Items() types.KIterator }

func fromMap(mp types.Map, ordered bool) *mapSUT {
	s := &mapSUT{
		put: mp.Put, get: mp.Get, has: mp.Has, remove: mp.Remove, size: mp.Size,
		iterate: mp.Iterate, keys: mp.Keys, values: mp.Values, ordered: ordered,
	}
	if it, ok := mp.(itemser); ok {
		s.items = it.Items
	}
	if t, ok := mp.(types.Tree); ok {
		s.root = t.Root
	}
	return s
}

func makeMap(kind string, c *Case) *mapSUT {
	switch kind {
	case "hash":
		return fromMap(hashtable.NewHashTable(c.p("init")), false)
	case "linhash":
		return fromMap(hashtable.NewLinearHash(), false)
	case "avl":
		return fromMap(avl.NewAvlTree(), true)
	case "immavl":
		return fromMap(avl.NewImmutableAvlTree(), true)
	case "bpmap":
		return fromMap(bptree.NewBpMap(c.p("ns")), true)
	case "mapset":
		s := fromMap(set.NewMapSet(set.NewSortedSet(c.p("init"))), true)
		return s
	case "avlnode":
		var n *avl.AvlNode
		upd := new(bool)
		return &mapSUT{
			put: func(k types.Hashable, v interface{}) error {
				n, *upd = n.Put(k, v)
				return nil
			},
			get: func(k types.Hashable) (interface{}, error) { return n.Get(k) },
			has: func(k types.Hashable) bool { return n.Has(k) },
			remove: func(k types.Hashable) (v interface{}, err error) {
				x, v, err := n.Remove(k)
				if err == nil {
					n = x
				}
				return v, err
			},
			size:        func() int { return n.Size() },
			iterate:     func() types.KVIterator { return n.Iterate() },
			keys:        func() types.KIterator { return n.Keys() },
			values:      func() types.Iterator { return n.Values() },
			ordered:     true,
			root:        func() types.TreeNode { return n },
			nodeUpdated: upd,
		}
	case "immnode":
		var n *avl.ImmutableAvlNode
		upd := new(bool)
		return &mapSUT{
			put: func(k types.Hashable, v interface{}) error {
				n, *upd = n.Put(k, v)
				return nil
			},
			get: func(k types.Hashable) (interface{}, error) { return n.Get(k) },
			has: func(k types.Hashable) bool { return n.Has(k) },
			remove: func(k types.Hashable) (v interface{}, err error) {
				x, v, err := n.Remove(k)
				if err == nil {
					n = x
				}
				return v, err
			},
			size:        func() int { return n.Size() },
			iterate:     func() types.KVIterator { return n.Iterate() },
			keys:        func() types.KIterator { return n.Keys() },
			values:      func() types.Iterator { return n.Values() },
			ordered:     true,
			root:        func() types.TreeNode { return n },
			nodeUpdated: upd,
			node:        func() *avl.ImmutableAvlNode { return n },
		}
	case "tst":
		return fromTST(trie.New())
	}
	panic("unknown map kind " + kind)
}

func fromTST(t *trie.TST) *mapSUT {
	b := func(k types.Hashable) []byte { return []byte(k.(types.ByteSlice)) }
	return &mapSUT{
		put:     func(k types.Hashable, v interface{}) error { return t.Put(b(k), v) },
		get:     func(k types.Hashable) (interface{}, error) { return t.Get(b(k)) },
		has:     func(k types.Hashable) bool { return t.Has(b(k)) },
		remove:  func(k types.Hashable) (interface{}, error) { return t.Remove(b(k)) },
		iterate: t.Iterate, keys: t.Keys, values: t.Values, items: t.Items,
		ordered: true,
	}
}

// mapRun is one structure in lock step with its model.
type mapRun struct {
	m     *Mon
	c     *Case
	u     *Universe
	s     *mapSUT
	model map[int]int // key index -> value token
	vk    int
	token int
	peak  int
	final bool                   // in the last audit, which looks up every key
	after func(r *mapRun, op Op) // extra checks of a property after an op
}

func (r *mapRun) begin() {
	n := int64(len(r.model) + 20)
	if r.u.cnt != nil {
		r.u.cnt.begin(20*n*n + 20000)
	}
}

func (r *mapRun) do(op Op) {
	m, s := r.m, r.s
	m.ops++
	k := 0
	if op.F == "put" || op.F == "get" || op.F == "has" || op.F == "rem" {
		k = op.a(0) % r.u.n
	}
	tok, present := r.model[k]
	r.begin()
	switch op.F {
	case "put":
		r.token++
		err := s.put(r.u.key(k), value(r.vk, r.token))
		m.Check(err == nil, "put of key %d failed: %v", k, errText(err))
		r.model[k] = r.token
		if s.nodeUpdated != nil {
			m.Check(*s.nodeUpdated == present, "put of key %d reported updated=%v, present before: %v", k, *s.nodeUpdated, present)
		}
		if present {
			m.Feat("overwrite")
		} else {
			m.Feat("insert")
		}
		if len(r.model) > r.peak {
			r.peak = len(r.model)
		}
	case "get":
		r.checkGet(k)
	case "has":
		m.Check(s.has(r.u.key(k)) == present, "has of key %d is %v, model says %v", k, !present, present)
	case "rem":
		v, err := s.remove(r.u.key(k))
		if present {
			m.Check(err == nil, "remove of present key %d failed: %v", k, errText(err))
			m.Check(sameValue(r.vk, tok, v), "remove of key %d returned value %v, expected token %d", k, v, tok)
			delete(r.model, k)
			m.Feat("remove")
			if len(r.model) == 0 {
				m.Feat("drained")
			}
		} else {
			m.Check(err != nil, "remove of absent key %d returned no error but value %v", k, v)
			m.Feat("remove-absent")
		}
	case "audit":
		r.audit()
	case "bad": // keys a trie must reject
		key := badKey(r, op)
		r.token++
		_, e1 := s.get(key)
		e2 := s.put(key, value(r.vk, r.token))
		_, e3 := s.remove(key)
		m.Check(e1 != nil && e2 != nil && e3 != nil, "the invalid key %q was accepted: get %v, put %v, remove %v", []byte(key), e1 == nil, e2 == nil, e3 == nil)
		m.Check(!s.has(key), "the invalid key %q is reported present", []byte(key))
		m.Feat("invalid key")
	default:
		panic("unknown op " + op.F)
	}
	// The trees count their nodes.
	if r.s.size != nil && (r.u.n <= 4000 || !r.s.ordered || m.step%maxi(499, r.u.n/16) == 0) {
		n := s.size()
		m.Check(n == len(r.model), "size is %d, expected %d after %v", n, len(r.model), op)
	}
	if r.after != nil {
		r.after(r, op)
	}
	m.Obs(uint64(k)<<8 ^ uint64(op.F[0]))
}

func badKey(r *mapRun, op Op) types.ByteSlice {
	k := append(types.ByteSlice{}, r.u.key(op.a(1)%r.u.n).(types.ByteSlice)...)
	switch op.a(0) % 6 {
	case 0:
		return nil
	case 1:
		return types.ByteSlice{}
	case 2:
		return types.ByteSlice{0}
	case 3:
		return append(k, 0)
	case 4:
		return append(types.ByteSlice{0}, k...)
	default:
		i := op.a(2) % (len(k) + 1)
		x := append(types.ByteSlice{}, k[:i]...)
		return append(append(x, 0), k[i:]...)
	}
}

func (r *mapRun) checkGet(k int) {
	tok, present := r.model[k]
	v, err := r.s.get(r.u.key(k))
	if present {
		r.m.Check(err == nil, "get of present key %d failed: %v", k, errText(err))
		r.m.Check(sameValue(r.vk, tok, v), "get of key %d returned %v, expected token %d", k, v, tok)
	} else {
		r.m.Check(err != nil, "get of absent key %d returned no error but value %v", k, v)
	}
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	for i := range s {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}

// audit compares everything observable with the model.
func (r *mapRun) audit() {
	m, s := r.m, r.s
	m.audits++
	if s.size != nil {
		m.Check(s.size() == len(r.model), "size is %d, expected %d", s.size(), len(r.model))
	}
	absent := 0
	step := 1
	if r.u.n > 400 && !r.final {
		step = 1 + r.u.n/400
	}
	off := int(m.audits) % step
	for k := off; k < r.u.n; k += step {
		_, present := r.model[k]
		r.begin()
		if !present {
			absent++
			if absent > 12 && s.size == nil && !(r.final && absent%16 == 0) { // errors are expensive
				continue
			}
		}
		m.Check(s.has(r.u.key(k)) == present, "has of key %d is %v, expected %v", k, !present, present)
		if present || absent <= 3 {
			r.begin()
			r.checkGet(k)
		}
	}
	if r.u.cnt != nil {
		n := int64(len(r.model) + 20)
		r.u.cnt.begin(2000*n + 100000)
	}
	type kv struct{ k, t int }
	seen := map[int]bool{}
	var seq []kv
	n := 0
	prev := -1
	for key, v, next := s.iterate()(); next != nil; key, v, next = next() {
		n++
		m.Check(n <= len(r.model), "iteration yields more than the %d present entries", len(r.model))
		k := r.u.index(key)
		tok, present := r.model[k]
		m.Check(k >= 0 && present, "iteration yields key %v which is not present", key)
		m.Check(!seen[k], "iteration yields key %d twice", k)
		m.Check(sameValue(r.vk, tok, v), "iteration yields value %v for key %d, expected token %d", v, k, tok)
		if s.ordered {
			m.Check(k > prev, "iteration yields key %d after key %d", k, prev)
		}
		prev = k
		seen[k] = true
		seq = append(seq, kv{k, tok})
	}
	m.Check(n == len(r.model), "iteration yields %d entries, expected %d", n, len(r.model))
	n = 0
	seen = map[int]bool{}
	for key, next := s.keys()(); next != nil; key, next = next() {
		m.Check(n < len(seq), "keys yields more than %d keys", len(seq))
		k := r.u.index(key)
		if s.ordered {
			m.Check(k == seq[n].k, "keys yields key %v at position %d, expected key %d", key, n, seq[n].k)
		} else {
			_, present := r.model[k]
			m.Check(k >= 0 && present && !seen[k], "keys yields key %v wrongly or twice", key)
			seen[k] = true
		}
		n++
	}
	m.Check(n == len(seq), "keys yields %d keys, expected %d", n, len(seq))
	n = 0
	cnt := map[int]int{}
	for v, next := s.values()(); next != nil; v, next = next() {
		m.Check(n < len(seq), "values yields more than %d values", len(seq))
		if s.ordered {
			m.Check(sameValue(r.vk, seq[n].t, v), "values yields %v at position %d, expected token %d", v, n, seq[n].t)
		} else if r.vk != 3 {
			t := tokenOf(v)
			cnt[t]++
			m.Check(cnt[t] == 1, "values yields %v twice", v)
		}
		n++
	}
	m.Check(n == len(seq), "values yields %d values, expected %d", n, len(seq))
	if !s.ordered && r.vk != 3 {
		for _, e := range seq {
			m.Check(cnt[e.t] == 1, "values does not yield token %d", e.t)
		}
	}
	if s.items != nil {
		n = 0
		seen = map[int]bool{}
		for it, next := s.items()(); next != nil; it, next = next() {
			m.Check(n < len(seq), "items yields more than %d items", len(seq))
			me, ok := it.(*types.MapEntry)
			m.Check(ok && me != nil, "items yields a %T", it)
			k := r.u.index(me.Key)
			tok, present := r.model[k]
			m.Check(k >= 0 && present && !seen[k], "items yields key %v wrongly or twice", me.Key)
			m.Check(sameValue(r.vk, tok, me.Value), "items yields value %v for key %d, expected token %d", me.Value, k, tok)
			if s.ordered {
				m.Check(k == seq[n].k, "items yields key %d at position %d, expected %d", k, n, seq[n].k)
			}
			seen[k] = true
			n++
		}
		m.Check(n == len(seq), "items yields %d items, expected %d", n, len(seq))
	}
}

func (r *mapRun) sortedKeys() []int {
	ks := make([]int, 0, len(r.model))
	for k := range r.model {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

// runMap runs a whole case. Parameter aud: audit every aud operations (1 if
// zero), always at the end.
func runMap(c *Case, m *Mon, after func(*mapRun, Op)) *mapRun {
	r := &mapRun{
		m: m, c: c,
		u:     newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us")),
		s:     makeMap(c.Kind, c),
		model: map[int]int{}, vk: c.p("vk"), after: after,
	}
	r.runOps()
	return r
}

func (r *mapRun) runOps() {
	every := maxi(1, r.c.p("aud"))
	for i, op := range r.c.Ops {
		r.m.step = i
		r.do(op)
		if every == 1 || i%every == every-1 {
			r.audit()
		}
	}
	r.m.step = len(r.c.Ops)
	r.final = true
	r.audit()
	if r.m.feats["remove"] > 0 && r.peak >= 2 {
		r.m.Nontrivial()
	}
}

// ---- histories ----

// order returns the numbers 0..n-1 in one of several characteristic orders.
func order(r *Rng, how, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	switch how % 8 {
	case 0: // ascending
	case 1:
		for i := range o {
			o[i] = n - 1 - i
		}
	case 2: // from both ends inwards
		for i := range o {
			if i%2 == 0 {
				o[i] = i / 2
			} else {
				o[i] = n - 1 - i/2
			}
		}
	case 3: // from the middle outwards
		p := order(r, 2, n)
		for i := range p {
			o[i] = p[n-1-i]
		}
	case 4: // strides
		st := []int{3, 5, 7, 11}[r.N(4)]
		o = o[:0]
		for s := 0; s < st; s++ {
			for i := s; i < n; i += st {
				o = append(o, i)
			}
		}
	case 5: // blocks in descending order, ascending inside
		b := r.In(2, 9)
		o = o[:0]
		for hi := n; hi > 0; hi -= b {
			for i := maxi(0, hi-b); i < hi; i++ {
				o = append(o, i)
			}
		}
	default:
		o = r.Perm(n)
	}
	return o
}

// hugeHistory fills a map with n keys, replaces some values, removes most keys
// and puts some of them back.
func hugeHistory(r *Rng, n int) []Op {
	ops := make([]Op, 0, 3*n)
	for _, k := range order(r, r.N(8), n) {
		ops = append(ops, put(k))
	}
	for i := n / 16; i > 0; i-- {
		ops = append(ops, put(r.N(n)))
	}
	ops = append(ops, Op{F: "audit"})
	for _, k := range order(r, r.N(8), n)[:r.In(n/2, n)] {
		ops = append(ops, rem(k))
	}
	ops = append(ops, Op{F: "audit"})
	for _, k := range order(r, r.N(8), n)[:r.In(1, n/4)] {
		ops = append(ops, put(k))
	}
	return ops
}

func put(k int) Op   { return Op{F: "put", A: []int{k}} }
func rem(k int) Op   { return Op{F: "rem", A: []int{k}} }
func get(k int) Op   { return Op{F: "get", A: []int{k}} }
func hasOp(k int) Op { return Op{F: "has", A: []int{k}} }

// mapHistory makes a history over keys 0..n-1 of roughly the given length.
func mapHistory(r *Rng, n, length int) []Op {
	var ops []Op
	absents := 0
	in := map[int]bool{}
	add := func(o Op) {
		if o.F == "put" {
			in[o.A[0]] = true
		} else if o.F == "rem" || o.F == "get" {
			if !in[o.A[0]] {
				absents++
				if absents > 40 { // errors capture stacks and are slow
					return
				}
			}
			if o.F == "rem" {
				delete(in, o.A[0])
			}
		}
		ops = append(ops, o)
	}
	for len(ops) < length {
		switch r.N(6) {
		case 0, 1: // random mix
			pp, pr := r.In(1, 6), r.In(1, 6)
			sub := r.In(1, n)
			base := r.N(n)
			for i := r.In(1, length/2+1); i > 0; i-- {
				k := (base + r.N(sub)) % n
				x := r.N(pp + pr + 2)
				switch {
				case x < pp:
					add(put(k))
				case x < pp+pr:
					add(rem(k))
				case x == pp+pr:
					add(get(k))
				default:
					add(hasOp(k))
				}
			}
		case 2: // fill in one order, drain in another
			s := r.In(1, n)
			base := r.N(n - s + 1)
			for _, k := range order(r, r.N(8), s) {
				add(put(base + k))
			}
			left := s
			if r.P(1, 2) {
				left = r.N(s + 1)
			}
			for _, k := range order(r, r.N(8), s)[:left] {
				add(rem(base + k))
			}
		case 3: // sliding window
			w := r.In(1, mini(n, 40))
			up := r.P(1, 2)
			for i := 0; i < mini(n, length); i++ {
				k, d := i, i-w
				if !up {
					k, d = n-1-i, n-1-(i-w)
				}
				add(put(k))
				if d >= 0 && d < n {
					add(rem(d))
				}
			}
		case 4: // overwrite
			for i := r.In(1, 10); i > 0; i-- {
				k := r.N(n)
				add(put(k))
				add(put(k))
			}
		case 5: // churn around the current size
			ks := r.Perm(n)[:mini(n, r.In(1, 6))]
			for i := r.In(1, 12); i > 0; i-- {
				for _, k := range ks {
					add(rem(k))
				}
				for _, k := range ks {
					add(put(k))
				}
			}
		}
	}
	if len(ops) > 2*length {
		ops = ops[:2*length]
	}
	return ops
}

// enumOps decodes number j into a history of length l over the ops put/rem
// of nk keys.
func enumOps(j, l, nk int) []Op {
	ops := make([]Op, l)
	for i := 0; i < l; i++ {
		x := j % (2 * nk)
		j /= 2 * nk
		if x < nk {
			ops[i] = put(x)
		} else {
			ops[i] = rem(x - nk)
		}
	}
	return ops
}

func ipow(b, e int) int {
	x := 1
	for ; e > 0; e-- {
		x *= b
	}
	return x
}

// nthPerm returns permutation number j of n.
func nthPerm(j, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	p := make([]int, 0, n)
	for i := n; i > 0; i-- {
		x := j % i
		j /= i
		p = append(p, rest[x])
		rest = append(rest[:x], rest[x+1:]...)
	}
	return p
}

func fact(n int) int {
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

// permOps inserts 0..n-1 in permutation j/fact(n) and removes them in
// permutation j%fact(n).
func permOps(j, n int) []Op {
	var ops []Op
	for _, k := range nthPerm(j/fact(n), n) {
		ops = append(ops, put(k))
	}
	for _, k := range nthPerm(j%fact(n), n) {
		ops = append(ops, rem(k))
	}
	return ops
}
