package main

import (
	"fmt"

	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// C06, C07: the B+Tree as a multimap, and its scans.

type mmRun struct {
	m     *Mon
	c     *Case
	u     *Universe
	t     *bptree.BpTree
	model map[int]map[int]int // key -> token -> how often
	size  int
	token int
	vk    int
}

// val makes the value of a token; nil values all count as token 0.
func (r *mmRun) val(t int) (interface{}, int) {
	v := value(r.vk, t)
	if v == nil {
		return nil, 0
	}
	return v, t
}

func (r *mmRun) tok(v interface{}) (int, bool) {
	if v == nil {
		return 0, true
	}
	t := tokenOf(v)
	return t, sameValue(r.vk, t, v)
}

func newMM(c *Case, m *Mon) *mmRun {
	return &mmRun{m: m, vk: c.p("vk"), c: c, u: newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us")),
		t: bptree.NewBpTree(c.p("ns")), model: map[int]map[int]int{}}
}

func (r *mmRun) begin() {
	if r.u.cnt != nil {
		r.u.cnt.begin(int64(r.size)*400 + 50000)
	}
}

func (r *mmRun) count(k int) int {
	n := 0
	for _, c := range r.model[k] {
		n += c
	}
	return n
}

// condition returns a condition on tokens.
func condition(kind, arg int) func(t int) bool {
	switch kind % 8 {
	case 7: // with a memory: true for the first few evaluations
		left := arg%3 + 1
		return func(int) bool { left--; return left >= 0 }
	case 0:
		return func(int) bool { return true }
	case 1:
		return func(int) bool { return false }
	case 2:
		return func(t int) bool { return t%2 == arg%2 }
	case 3:
		return func(t int) bool { return t == arg }
	case 4:
		return func(t int) bool { return t <= arg }
	case 5:
		return func(t int) bool { return t > arg }
	default:
		return func(t int) bool { return mix64(uint64(t*31+arg))%4 != 0 }
	}
}

// where wraps a condition and records what it was evaluated for and for how
// many pairs it was true.
func (r *mmRun) where(k int, cond func(int) bool) (types.WhereFunc, map[int]int, map[int]int) {
	evals, yes := map[int]int{}, map[int]int{}
	total := 0
	limit := r.size + 10
	return func(v interface{}) bool {
		t, ok := r.tok(v)
		if !ok {
			r.m.Fail("a condition was evaluated for the value %v", v)
		}
		evals[t]++
		if total++; total > limit {
			r.m.Fail("a condition was evaluated %d times with %d pairs in the tree", total, r.size)
		}
		if cond(t) {
			yes[t]++
			return true
		}
		return false
	}, evals, yes
}

func (r *mmRun) checkEvals(what string, k int, before, evals map[int]int) {
	for t, n := range evals {
		r.m.Check(before[t] == n, "%s of key %d evaluated its condition %d times for token %d, which the key holds %d times", what, k, n, t, before[t])
	}
	for t, n := range before {
		r.m.Check(evals[t] == n, "%s of key %d evaluated its condition %d times for token %d, which the key holds %d times", what, k, evals[t], t, n)
	}
}

func (r *mmRun) do(op Op) {
	m := r.m
	m.ops++
	k := op.a(0) % r.u.n
	m.ObsS(op.F)
	m.Obs(uint64(k))
	r.begin()
	switch op.F {
	case "add":
		r.token++
		v, t := r.val(r.token)
		err := r.t.Add(r.u.key(k), v)
		m.Check(err == nil, "add of key %d failed: %v", k, errText(err))
		if r.model[k] == nil {
			r.model[k] = map[int]int{}
		} else {
			m.Feat("duplicate added")
		}
		r.model[k][t]++
		r.size++
	case "rem", "rep":
		arg := op.a(2)
		if arg < 0 { // relative to the tokens of the key
			ts := sortedInts(r.model[k])
			arg = r.token
			if len(ts) > 0 {
				arg = ts[(-op.a(2))%len(ts)]
			}
		}
		cond := condition(op.a(1), arg)
		before := copyModel(r.model[k])
		w, evals, yes := r.where(k, cond)
		var err error
		if op.F == "rem" {
			err = r.t.RemoveWhere(r.u.key(k), w)
			gone := 0
			for t, n := range yes {
				if r.model[k][t] -= n; r.model[k][t] <= 0 {
					delete(r.model[k], t)
				}
				gone += n
			}
			r.checkEvals("conditional removal", k, before, evals)
			r.size -= gone
			if len(r.model[k]) == 0 {
				delete(r.model, k)
			}
			if gone > 0 {
				m.Feat("removed")
				m.Nontrivial()
			}
			if gone > 1 {
				m.Feat("removed several pairs of a key")
			}
			if gone > 0 && r.model[k] != nil {
				m.Feat("removed some pairs of a key and kept others")
			}
			if r.size == 0 && gone > 0 {
				m.Feat("drained")
			}
		} else {
			r.token++
			nv, nt := r.val(r.token)
			err = r.t.Replace(r.u.key(k), w, nv)
			r.checkEvals("replacement", k, before, evals)
			for t, n := range yes {
				if r.model[k][t] -= n; r.model[k][t] <= 0 {
					delete(r.model[k], t)
				}
				r.model[k][nt] += n
				m.Feat("replaced")
			}
		}
		m.Check(err == nil, "%s of key %d failed: %v", op.F, k, errText(err))
	default:
		panic("unknown op")
	}
	m.Check(r.t.Size() == r.size, "size is %d, expected %d", r.t.Size(), r.size)
	r.checkKey(k)
}

// pairs drains an iterator of pairs that must yield the pairs of keys lo..hi
// in ascending or descending order.
func (r *mmRun) pairs(what string, it types.KVIterator, lo, hi int, desc bool) {
	m := r.m
	want := 0
	for k := range r.model {
		if k >= lo && k <= hi {
			want += r.count(k)
		}
	}
	got := 0
	cur := -1
	var left map[int]int
	if it == nil {
		m.Fail("%s returned a nil iterator", what)
	}
	for key, v, next := it(); next != nil; key, v, next = next() {
		k := r.u.index(key)
		t, ok := r.tok(v)
		m.Check(ok && r.model[k][t] > 0, "%s yields the pair %v=%v, which is not present", what, key, v)
		m.Check(k >= lo && k <= hi, "%s yields key %d outside %d..%d", what, k, lo, hi)
		if k != cur {
			if cur >= 0 {
				m.Check((k > cur) != desc, "%s yields key %d after key %d", what, k, cur)
				m.Check(len(left) == 0, "%s misses pairs of key %d: %v", what, cur, left)
			}
			cur = k
			left = copyModel(r.model[k])
		}
		m.Check(left[t] > 0, "%s yields the pair %d=%d too often", what, k, t)
		if left[t]--; left[t] == 0 {
			delete(left, t)
		}
		got++
		m.Check(got <= want, "%s yields more than %d pairs", what, want)
	}
	m.Check(got == want, "%s yields %d pairs, expected %d", what, got, want)
}

func (r *mmRun) checkKey(k int) {
	n := r.count(k)
	r.begin()
	r.m.Check(r.t.Has(r.u.key(k)) == (n > 0), "has of key %d is %v, expected %v", k, n == 0, n > 0)
	r.begin()
	c := r.t.Count(r.u.key(k))
	r.m.Check(c == n, "count of key %d is %d, expected %d", k, c, n)
	r.begin()
	r.pairs(fmt.Sprintf("find of key %d", k), r.t.Find(r.u.key(k)), k, k, false)
}

func (r *mmRun) audit() {
	r.m.audits++
	r.m.Check(r.t.Size() == r.size, "size is %d, expected %d", r.t.Size(), r.size)
	st := 1 + r.u.n/150
	for k := int(r.m.audits) % st; k < r.u.n; k += st {
		r.checkKey(k)
	}
	r.begin()
	r.pairs("iteration", r.t.Iterate(), 0, r.u.n, false)
}

// scans checks all kinds of scans.
func (r *mmRun) scans(rng *Rng) {
	m := r.m
	m.audits++
	r.begin()
	r.pairs("iteration", r.t.Iterate(), 0, r.u.n, false)
	r.begin()
	r.pairs("backward iteration", r.t.Backward(), 0, r.u.n, true)
	// keys, values and items
	mr := mapRun{model: map[int]int{}}
	for k := range r.model {
		mr.model[k] = 0
	}
	ks := mr.sortedKeys()
	i := 0
	r.begin()
	for key, next := r.t.Keys()(); next != nil; key, next = next() {
		m.Check(i < len(ks), "keys yields more than the %d distinct keys", len(ks))
		m.Check(r.u.index(key) == ks[i], "keys yields %v at position %d, expected key %d", key, i, ks[i])
		i++
	}
	m.Check(i == len(ks), "keys yields %d keys, expected %d", i, len(ks))
	var seq [][2]int
	r.begin()
	for key, v, next := r.t.Iterate()(); next != nil; key, v, next = next() {
		t, _ := r.tok(v)
		seq = append(seq, [2]int{r.u.index(key), t})
	}
	i = 0
	for v, next := r.t.Values()(); next != nil; v, next = next() {
		t, ok := r.tok(v)
		m.Check(i < len(seq) && ok && t == seq[i][1], "values yields %v at position %d, unlike the iteration", v, i)
		i++
	}
	m.Check(i == len(seq), "values yields %d values, expected %d", i, len(seq))
	i = 0
	for it, next := r.t.Items()(); next != nil; it, next = next() {
		me, ok := it.(*types.MapEntry)
		m.Check(ok && i < len(seq), "items yields a %T at position %d of %d", it, i, len(seq))
		t, ok := r.tok(me.Value)
		m.Check(ok && r.u.index(me.Key) == seq[i][0] && t == seq[i][1], "items yields %v=%v at position %d, unlike the iteration", me.Key, me.Value, i)
		i++
	}
	m.Check(i == len(seq), "items yields %d items, expected %d", i, len(seq))
	ranges := func(a, b int) {
		r.begin()
		it := r.t.Range(r.u.key(a), r.u.key(b))
		r.begin()
		r.pairs(fmt.Sprintf("the range from %d to %d", a, b), it, mini(a, b), maxi(a, b), a > b)
		if a > b {
			m.Feat("descending range")
		} else {
			m.Feat("ascending range")
		}
	}
	if r.u.n <= 9 {
		for a := 0; a < r.u.n; a++ {
			for b := 0; b < r.u.n; b++ {
				ranges(a, b)
			}
		}
	} else {
		for j := 0; j < 14; j++ {
			ranges(rng.N(r.u.n), rng.N(r.u.n))
			a := rng.N(r.u.n)
			ranges(a, mini(r.u.n-1, a+rng.N(4)))
			ranges(a, maxi(0, a-rng.N(4)))
		}
		for _, a := range []int{0, r.u.n - 1} {
			ranges(a, rng.N(r.u.n))
			ranges(rng.N(r.u.n), a)
		}
		ranges(0, r.u.n-1)
		ranges(r.u.n-1, 0)
		if len(ks) > 0 {
			lo, hi := ks[0], ks[len(ks)-1]
			for _, a := range []int{lo, hi, maxi(0, lo-1), mini(r.u.n-1, hi+1)} {
				ranges(a, rng.N(r.u.n))
				ranges(rng.N(r.u.n), a)
				ranges(a, a)
			}
		}
	}
	if len(seq) > 1 {
		m.Nontrivial()
	}
	if len(ks) < len(seq) {
		m.Feat("scan with duplicates")
	}
	if len(ks) == 0 {
		m.Feat("scan of an empty tree")
	}
}

func mmOp(f string, a ...int) Op { return Op{F: f, A: a} }

// mmHistory makes a multimap history over keys 0..n-1; keys not congruent to
// 1 modulo gap never occur, so that ranges can start and end between keys.
func mmHistory(r *Rng, n, gap, length int) []Op {
	var ops []Op
	nk := maxi(1, n/gap)
	key := func(i int) int { return mini(n-1, (i%nk)*gap+gap/2) }
	for len(ops) < length {
		switch r.N(7) {
		case 0, 1: // mix
			sub := r.In(1, nk)
			pa, pr := r.In(2, 8), r.In(1, 4)
			for i := r.In(1, length/2+1); i > 0; i-- {
				k := key(r.N(sub))
				switch x := r.N(pa + pr + 1); {
				case x < pa:
					ops = append(ops, mmOp("add", k))
				case x < pa+pr:
					ops = append(ops, mmOp("rem", k, r.N(8), -r.In(1, 9)))
				default:
					ops = append(ops, mmOp("rep", k, r.N(8), -r.In(1, 9)))
				}
			}
		case 2: // run of duplicates
			k := key(r.N(nk))
			for i := r.In(1, r.Pick(30, maxi(30, length/2))); i > 0; i-- {
				ops = append(ops, mmOp("add", k))
			}
		case 3: // fill in order, a few duplicates each
			s := r.In(1, nk)
			for _, i := range order(r, r.N(8), s) {
				for d := r.Pick(1, 1, 1, 2, 5); d > 0; d-- {
					ops = append(ops, mmOp("add", key(i)))
				}
			}
		case 4: // drain in order
			s := r.In(1, nk)
			for _, i := range order(r, r.N(8), s) {
				ops = append(ops, mmOp("rem", key(i), 0, 0))
			}
		case 5: // remove pairs one at a time
			k := key(r.N(nk))
			for i := r.In(1, 20); i > 0; i-- {
				ops = append(ops, mmOp("rem", k, 3, -r.In(1, 9)))
			}
		case 6:
			ops = append(ops, mmOp("rem", key(r.N(nk)), 1, 0), mmOp("rep", key(r.N(nk)), 0, 0))
		}
	}
	if len(ops) > 2*length {
		ops = ops[:2*length]
	}
	return ops
}

// runNodes looks at empty nodes of one size.
func runNodes(size int, m *Mon) {
	for _, nodup := range []bool{false, true} {
		n := bptree.NewLeaf(size, nodup)
		m.Check(!n.Internal() && !n.Full() && n.Pure(), "an empty leaf of size %d: internal %v, full %v, pure %v", size, n.Internal(), n.Full(), n.Pure())
		m.Check(n.NodeSize() == size, "a leaf of size %d reports size %d", size, n.NodeSize())
		m.Check(n.Height() == 1, "a leaf reports height %d", n.Height())
	}
	n := bptree.NewInternal(size)
	m.Check(n.Internal() && !n.Full() && n.Pure(), "an empty inner node of size %d: internal %v, full %v, pure %v", size, n.Internal(), n.Full(), n.Pure())
	m.Check(n.NodeSize() == size, "an inner node of size %d reports size %d", size, n.NodeSize())
	for i, f := range []func(){
		func() { bptree.NewLeaf(-size, false) },
		func() { bptree.NewLeaf(-size, true) },
		func() { bptree.NewInternal(-size) },
		func() { bptree.NewBpTree(-size) },
		func() { bptree.NewBpMap(-size) },
	} {
		m.Check(panics(f), "constructor %d accepts size %d", i, -size)
	}
	m.ops += 8
	m.audits++
	m.Obs(uint64(size))
	m.Nontrivial()
}

func panics(f func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	f()
	return false
}

func init() {
	enum := func(l int, ns ...int) func(j int) *Case {
		// alphabet: add 3 keys, remove all of 3 keys, remove one of 3 keys
		return func(j int) *Case {
			c := &Case{Kind: "bptree", P: map[string]int{"n": 5, "ns": ns[j%len(ns)]}}
			j /= len(ns)
			for i := 0; i < l; i++ {
				x := j % 8
				j /= 8
				k := 1 + x%2
				if x < 6 {
					k = 1 + x%3
				}
				switch {
				case x < 3:
					c.Ops = append(c.Ops, mmOp("add", k))
				case x < 6:
					c.Ops = append(c.Ops, mmOp("rem", k, 0, 0))
				default:
					c.Ops = append(c.Ops, mmOp("rem", k, 3, -1))
				}
			}
			return c
		}
	}
	// prefill puts duplicates around before the enumerated part.
	families := func(scans bool) []Family {
		sc := 1
		if scans {
			sc = 3
		}
		return []Family{
			{
				Name: "enum",
				N: func(t bool) int {
					if t {
						return ipow(8, 6) * 3 / sc
					}
					return ipow(8, 4) * 3
				},
				Gen: func(r *Rng, j int, t bool) *Case {
					if t {
						return enum(6, 2, 3, 4)(j*sc + r.N(sc))
					}
					return enum(4, 2, 3, 4)(j)
				},
			},
			{
				// Every sequence of 7 adds over 3 keys, then removal of one
				// key.
				Name: "adds",
				N:    constN(2187*3*3/sc, 2187*3*3/sc),
				Gen: func(r *Rng, j int, t bool) *Case {
					j = j*sc + r.N(sc)
					c := &Case{Kind: "bptree", P: map[string]int{"n": 5, "ns": 2 + j%3, "aud": 1 << 30}}
					j /= 3
					last := 1 + j%3
					j /= 3
					for i := 0; i < 7; i++ {
						c.Ops = append(c.Ops, mmOp("add", 1+j%3))
						j /= 3
					}
					c.Ops = append(c.Ops, mmOp("rem", last, r.Pick(0, 0, 6), 1))
					return c
				},
			},
			{
				Name: "small",
				N:    constN(24000/sc, 240000/sc),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 4) {
						kt = r.N(nKeyTypes)
					}
					n := r.In(2, 24)
					return &Case{Kind: "bptree", P: map[string]int{
						"kt": kt, "n": n, "us": r.N(1000), "ns": r.In(2, 8), "vk": r.N(4), "aud": r.Pick(1, 1, 4),
					}, Ops: mmHistory(r, n, r.Pick(1, 1, 2, 3), r.In(5, 80))}
				},
			},
			{
				Name: "medium",
				N:    constN(3000/sc, 24000/sc),
				Gen: func(r *Rng, j int, t bool) *Case {
					kt := 0
					if r.P(1, 3) {
						kt = r.N(nKeyTypes)
					}
					n := mini(r.In(10, 200), maxKeys(kt))
					return &Case{Kind: "bptree", P: map[string]int{
						"kt": kt, "n": n, "us": r.N(1000), "ns": r.Pick(2, 3, 4, 5, 6, 7, 8, 16, 33, 64), "vk": r.N(4), "aud": r.In(20, 80),
					}, Ops: mmHistory(r, n, r.Pick(1, 1, 2, 3), r.In(100, 500))}
				},
			},
			{
				Name: "large",
				N:    constN(120, 960),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(300, 1200)
					ns := r.Pick(4, 5, 6, 7, 8, 13, 16, 32, 64)
					if j%8 == 0 {
						n, ns = r.In(100, 250), r.In(2, 3)
					}
					var ops []Op
					for _, k := range order(r, j, n) {
						for d := r.Pick(1, 1, 1, 1, 2, 3); d > 0; d-- {
							ops = append(ops, mmOp("add", k))
						}
					}
					for _, k := range order(r, r.N(8), n)[:r.In(n/2, n)] {
						ops = append(ops, mmOp("rem", k, r.Pick(0, 0, 0, 3, 6, 7), -1))
					}
					for _, k := range order(r, r.N(8), n)[:r.In(1, n/2)] {
						ops = append(ops, mmOp("add", k))
					}
					return &Case{Kind: "bptree", P: map[string]int{"n": n, "ns": ns, "aud": n / 2}, Ops: ops}
				},
			},
			{
				// Thousands of keys and runs of duplicates longer than many
				// leaves.
				Name: "huge",
				N:    constN(16, 120),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(2500, 5000, 10000, 20000)
					ns := r.Pick(6, 8, 16, 33, 64, 100, 128, 255, 256)
					var ops []Op
					for _, k := range order(r, j, n) {
						if k%3 == 0 {
							continue // ranges can start there
						}
						ops = append(ops, mmOp("add", k))
						if r.P(1, 400) {
							for d := r.In(2, 6*ns); d > 0; d-- {
								ops = append(ops, mmOp("add", k))
							}
						}
					}
					for _, k := range order(r, r.N(8), n)[:r.In(n/2, n)] {
						ops = append(ops, mmOp("rem", k, r.Pick(0, 0, 0, 2, 3, 6, 7), -1))
					}
					for _, k := range order(r, r.N(8), n)[:r.In(1, n/4)] {
						ops = append(ops, mmOp("add", k))
					}
					return &Case{Kind: "bptree", P: map[string]int{"n": n, "ns": ns, "aud": len(ops)/3 + 1}, Ops: ops}
				},
			},
		}
	}
	register(&Property{
		ID:   "C06",
		Rule: "Histories of add, conditional replace and conditional remove against a reference multimap for node sizes 2 to 64; every evaluation of a condition is recorded and compared with the pairs of the key. Enumerated histories of 4 (6) operations and all sequences of 7 adds over 3 keys followed by a removal, random histories with long runs of duplicates, thousands of pairs; empty nodes of every size. Non-trivial: at least one pair was removed.",
		Families: append(families(false), Family{Name: "nodes", N: constN(64, 256), Gen: func(r *Rng, j int, t bool) *Case {
			return &Case{Kind: "nodes", P: map[string]int{"s": j + 1}}
		}}),
		Run: func(c *Case, m *Mon) {
			if c.Kind == "nodes" {
				runNodes(c.p("s"), m)
				return
			}
			r := newMM(c, m)
			every := maxi(1, c.p("aud"))
			for i, op := range c.Ops {
				m.step = i
				r.do(op)
				if i%every == every-1 {
					r.audit()
				}
			}
			m.step = len(c.Ops)
			r.audit()
		},
	})
	register(&Property{
		ID:       "C07",
		Rule:     "Multimap histories as for the contents; at audit points the forward and backward iteration, keys, values and items are drained and ranges between present keys, between gaps, outside and reversed are compared with the reference (all pairs of bounds for up to 9 possible keys). Non-trivial: scans over at least two pairs.",
		Families: families(true),
		Run: func(c *Case, m *Mon) {
			r := newMM(c, m)
			rng := newRng(uint64(c.p("us")), uint64(c.p("n")), 3)
			every := maxi(1, c.p("aud"))
			r.scans(rng)
			for i, op := range c.Ops {
				m.step = i
				r.do(op)
				if i%every == every-1 {
					r.scans(rng)
				}
			}
			m.step = len(c.Ops)
			r.scans(rng)
		},
	})
}
