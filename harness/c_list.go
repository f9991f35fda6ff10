package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
)

// C11, C12: array lists and sorted lists.

func kiter(items []types.Hashable) types.KIterator {
	i := 0
	var it types.KIterator
	it = func() (types.Hashable, types.KIterator) {
		if i >= len(items) {
			return nil, nil
		}
		i++
		return items[i-1], it
	}
	return it
}

// item makes a new item; equal ids give equal but distinct items.
func (u *Universe) item(i int) types.Hashable { return u.key(((i % u.n) + u.n) % u.n) }

func printed(items []types.Hashable) string {
	s := make([]string, len(items))
	for i, x := range items {
		s[i] = fmt.Sprintf("%v", x)
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// badIndex makes an index outside 0..n-1 (or 0..n for insert).
func badIndex(kind, n int) int {
	switch kind % 5 {
	case 0:
		return -1
	case 1:
		return n + 1
	case 2:
		return -n - 1
	case 3:
		return 1 << 40
	default:
		return -1 << 62
	}
}

type listRun struct {
	m     *Mon
	u     *Universe
	l     *list.List
	model []types.Hashable
	cap   int // -1 if not fixed
	peak  int
	mk    func(i int) types.Hashable // makes items, in place of the universe
}

func (r *listRun) item(i int) types.Hashable {
	if r.mk != nil {
		return r.mk(i)
	}
	return r.u.item(i)
}

func (r *listRun) full() bool { return r.cap >= 0 && len(r.model) >= r.cap }

func (r *listRun) add(i int, x types.Hashable) bool {
	if r.full() {
		return false
	}
	r.model = append(r.model, nil)
	copy(r.model[i+1:], r.model[i:])
	r.model[i] = x
	r.peak = maxi(r.peak, len(r.model))
	return true
}

func (r *listRun) errIs(want bool, err error, what string) {
	r.m.Check((err != nil) == want, "%s: error %v, expected an error: %v", what, errText(err), want)
}

func (r *listRun) do(op Op) {
	m := r.m
	m.ops++
	m.ObsS(op.F)
	m.Obs(uint64(op.a(0))<<20 ^ uint64(op.a(1)))
	n := len(r.model)
	x := r.item(op.a(0))
	idx := 0
	if n > 0 {
		idx = op.a(1) % n
	}
	switch op.F {
	case "app":
		ok := r.add(n, x)
		r.errIs(!ok, r.l.Append(x), "append")
		if !ok {
			m.Feat("rejected by a full list")
		}
	case "push":
		ok := r.add(n, x)
		r.errIs(!ok, r.l.Push(x), "push")
	case "ins":
		i := op.a(1) % (n + 1)
		ok := r.add(i, x)
		r.errIs(!ok, r.l.Insert(i, x), "insert")
		if ok && i < n {
			m.Feat("inserted in the middle")
		}
	case "set":
		if n == 0 {
			r.errIs(true, r.l.Set(0, x), "set in an empty list")
			break
		}
		r.model[idx] = x
		r.errIs(false, r.l.Set(idx, x), "set")
	case "rem":
		if n == 0 {
			r.errIs(true, r.l.Remove(0), "remove from an empty list")
			break
		}
		r.model = append(append([]types.Hashable{}, r.model[:idx]...), r.model[idx+1:]...)
		r.errIs(false, r.l.Remove(idx), "remove")
		m.Feat("removed")
	case "pop":
		y, err := r.l.Pop()
		if n == 0 {
			r.errIs(true, err, "pop of an empty list")
			m.Feat("pop of empty")
			break
		}
		r.errIs(false, err, "pop")
		m.Check(sameItem(y, r.model[n-1]), "pop returned %v, expected %v", y, r.model[n-1])
		r.model = r.model[: n-1 : n-1]
		m.Feat("removed")
	case "ext", "ext long":
		var xs []types.Hashable
		long := 40
		if op.F != "ext" {
			long = 5000
		}
		for i := op.a(1) % long; i > 0; i-- {
			xs = append(xs, r.item(op.a(0)+i*7))
		}
		ok := true
		for _, x := range xs {
			if ok = r.add(len(r.model), x); !ok {
				break
			}
		}
		r.errIs(!ok, r.l.Extend(kiter(xs)), "extend")
	case "clear":
		r.l.Clear()
		r.model = nil
		m.Feat("cleared")
	case "bad":
		i := badIndex(op.a(1), n)
		switch op.a(0) % 4 {
		case 0:
			_, err := r.l.Get(i)
			r.errIs(true, err, "get out of range")
		case 1:
			r.errIs(true, r.l.Set(i, x), "set out of range")
		case 2:
			r.errIs(true, r.l.Insert(i, x), "insert out of range")
		case 3:
			r.errIs(true, r.l.Remove(i), "remove out of range")
		}
		if op.a(2)%2 == 0 { // one past the end
			_, err := r.l.Get(n)
			r.errIs(true, err, "get one past the end")
			r.errIs(true, r.l.Set(n, x), "set one past the end")
			r.errIs(true, r.l.Remove(n), "remove one past the end")
		}
		m.Feat("index out of range")
	case "sort":
		sort.Sort(list.NewSortable(r.l))
		ids := map[types.Hashable]int{}
		for _, x := range r.model {
			ids[x]++
		}
		var now []types.Hashable
		for i := 0; i < n; i++ {
			x, err := r.l.Get(i)
			m.Check(err == nil, "get after sorting failed: %v", errText(err))
			ids[x]--
			m.Check(ids[x] >= 0, "sorting changed the items: %v is new", x)
			if i > 0 {
				m.Check(!x.Less(now[i-1]), "sorting left %v after %v", x, now[i-1])
			}
			now = append(now, x)
		}
		r.model = now
		m.Feat("sorted")
	default:
		panic("unknown op " + op.F)
	}
	r.quick()
}

func (r *listRun) quick() {
	m, n := r.m, len(r.model)
	m.Check(r.l.Size() == n, "size is %d, expected %d", r.l.Size(), n)
	m.Check(r.l.Empty() == (n == 0), "empty is %v with %d items", r.l.Empty(), n)
	m.Check(r.l.Full() == (r.cap >= 0 && n == r.cap), "full is %v with %d items and capacity %d", r.l.Full(), n, r.cap)
	if r.cap >= 0 && n == r.cap && n > 0 {
		m.Feat("full")
	}
}

func (r *listRun) audit() {
	m := r.m
	m.audits++
	r.quick()
	checkSeq(m, "get", len(r.model), func(i int) types.Hashable {
		x, err := r.l.Get(i)
		m.Check(err == nil, "get of index %d failed: %v", i, errText(err))
		return x
	}, r.model)
	drainSeq(m, "iteration", r.l.Items(), r.model)
	drainSeq(m, "reverse iteration", r.l.ItemsInReverse(), reversed(r.model))
	m.Check(r.l.String() == printed(r.model), "the list prints as %s, expected %s", r.l.String(), printed(r.model))
	if r.mk != nil {
		return
	}
	present := map[int]bool{}
	for _, x := range r.model {
		present[r.u.index(x)] = true
	}
	for i := 0; i < mini(r.u.n, 12); i++ {
		k := i * maxi(1, r.u.n/12)
		m.Check(r.l.Has(r.u.item(k)) == present[k%r.u.n], "has of item %d is %v", k, !present[k%r.u.n])
	}
}

// sameItem: the same instrumented item, or the same value of a built-in type.
func sameItem(a, b types.Hashable) bool {
	if x, ok := a.(types.ByteSlice); ok {
		y, ok := b.(types.ByteSlice)
		return ok && string(x) == string(y)
	}
	return a == b
}

func reversed(xs []types.Hashable) []types.Hashable {
	ys := make([]types.Hashable, len(xs))
	for i, x := range xs {
		ys[len(xs)-1-i] = x
	}
	return ys
}

func checkSeq(m *Mon, what string, n int, get func(int) types.Hashable, want []types.Hashable) {
	m.Check(n == len(want), "%s: %d items, expected %d", what, n, len(want))
	for i := 0; i < n; i++ {
		x := get(i)
		m.Check(sameItem(x, want[i]), "%s: %v at position %d, expected %v", what, x, i, want[i])
	}
}

// drainSeq drains an iterator that must yield exactly these items.
func drainSeq(m *Mon, what string, it types.KIterator, want []types.Hashable) {
	i := 0
	for x, next := it(); next != nil; x, next = next() {
		m.Check(i < len(want), "%s yields more than %d items", what, len(want))
		m.Check(sameItem(x, want[i]), "%s yields %v at position %d, expected %v", what, x, i, want[i])
		i++
	}
	m.Check(i == len(want), "%s yields %d items, expected %d", what, i, len(want))
}

func listHistory(r *Rng, length int, wIns, wRem int) []Op {
	var ops []Op
	for len(ops) < length {
		grow := r.P(1, 2)
		for i := r.In(1, maxi(1, length/2)); i > 0; i-- {
			var f string
			x := r.N(20)
			switch {
			case x < 1:
				f = "bad"
			case x < 2:
				f = "set"
			case x == 2 && r.P(1, 4):
				f = "sort"
			case x == 3 && r.P(1, 3):
				f = "ext"
			case x == 4 && r.P(1, 8):
				f = "clear"
			case (x < 15) == grow:
				f = r.PickS("app", "push", "ins", "ins")
			default:
				f = r.PickS("rem", "pop", "rem")
			}
			ops = append(ops, Op{F: f, A: []int{r.N(100), r.N(1 << 20), r.N(10)}})
		}
	}
	return ops
}

// ---- sorted lists ----

type sortedRun struct {
	m     *Mon
	u     *Universe
	l     *list.Sorted
	dups  bool
	cap   int
	model []int // sorted item numbers
}

func (r *sortedRun) pos(k int) (int, bool) {
	i := sort.SearchInts(r.model, k)
	return i, i < len(r.model) && r.model[i] == k
}

func (r *sortedRun) add(k int) bool {
	i, has := r.pos(k)
	if has && !r.dups {
		return true
	}
	if r.cap >= 0 && len(r.model) >= r.cap {
		return false
	}
	r.model = append(r.model, 0)
	copy(r.model[i+1:], r.model[i:])
	r.model[i] = k
	return true
}

func (r *sortedRun) del(i int) {
	r.model = append(append([]int{}, r.model[:i]...), r.model[i+1:]...)
}

func (r *sortedRun) begin() {
	if r.u.cnt != nil {
		r.u.cnt.begin(int64(len(r.model))*100 + 10000)
	}
}

func (r *sortedRun) errIs(want bool, err error, what string) {
	r.m.Check((err != nil) == want, "%s: error %v, expected an error: %v", what, errText(err), want)
}

func (r *sortedRun) do(op Op) {
	m := r.m
	m.ops++
	m.ObsS(op.F)
	m.Obs(uint64(op.a(0))<<20 ^ uint64(op.a(1)))
	n := len(r.model)
	k := op.a(0) % r.u.n
	x := r.u.item(k)
	r.begin()
	switch op.F {
	case "add":
		if _, has := r.pos(k); has {
			m.Feat("added a present item")
		}
		ok := r.add(k)
		r.errIs(!ok, r.l.Add(x), "add")
		if !ok {
			m.Feat("rejected by a full list")
		}
	case "del":
		i, has := r.pos(k)
		if has {
			r.del(i)
			m.Feat("deleted")
			m.Nontrivial()
		}
		r.errIs(!has, r.l.Delete(x), "delete")
	case "rem":
		if n == 0 {
			r.errIs(true, r.l.Remove(0), "remove from an empty list")
			break
		}
		i := op.a(1) % n
		r.del(i)
		r.errIs(false, r.l.Remove(i), "remove")
		m.Feat("removed by index")
	case "ext", "ext long":
		var xs []types.Hashable
		ok := true
		long := 20
		if op.F != "ext" {
			long = 2000
		}
		for i := op.a(1) % long; i > 0; i-- {
			y := (op.a(0) + i*7) % r.u.n
			xs = append(xs, r.u.item(y))
			if ok {
				ok = r.add(y)
			}
		}
		r.begin()
		if r.u.cnt != nil {
			r.u.cnt.limit *= int64(20 + len(xs))
		}
		r.errIs(!ok, r.l.Extend(kiter(xs)), "extend")
	case "clear":
		r.l.Clear()
		r.model = nil
		m.Feat("cleared")
	case "bad":
		i := badIndex(op.a(1), n)
		_, err := r.l.Get(i)
		r.errIs(true, err, "get out of range")
		_, err = r.l.Get(n)
		r.errIs(true, err, "get one past the end")
		r.errIs(true, r.l.Remove(i), "remove out of range")
		r.errIs(true, r.l.Remove(n), "remove one past the end")
	default:
		panic("unknown op " + op.F)
	}
	r.lookup(k)
	m.Check(r.l.Size() == len(r.model), "size is %d, expected %d", r.l.Size(), len(r.model))
}

func (r *sortedRun) lookup(k int) {
	m := r.m
	i, has := r.pos(k)
	r.begin()
	m.Check(r.l.Has(r.u.item(k)) == has, "has of item %d is %v", k, !has)
	gi, gh, err := r.l.Find(r.u.item(k))
	m.Check(err == nil && gi == i && gh == has, "find of item %d returned %d, %v, %v, expected %d, %v", k, gi, gh, errText(err), i, has)
	if has || k%5 == 0 { // errors are slow
		y, err := r.l.Item(r.u.item(k))
		r.errIs(!has, err, "item lookup")
		if has {
			m.Check(r.u.index(y) == k, "item lookup of %d returned %v", k, y)
		}
	}
}

func (r *sortedRun) audit() {
	m := r.m
	m.audits++
	n := len(r.model)
	m.Check(r.l.Size() == n && r.l.Empty() == (n == 0), "size is %d and empty %v, expected %d items", r.l.Size(), r.l.Empty(), n)
	m.Check(r.l.Full() == (r.cap >= 0 && n == r.cap), "full is %v with %d items and capacity %d", r.l.Full(), n, r.cap)
	var seq []types.Hashable
	for i := 0; i < n; i++ {
		x, err := r.l.Get(i)
		m.Check(err == nil && r.u.index(x) == r.model[i], "get of index %d returned %v, %v, expected item %d", i, x, errText(err), r.model[i])
		seq = append(seq, x)
	}
	drainSeq(m, "iteration", r.l.Items(), seq)
	drainSeq(m, "reverse iteration", r.l.ItemsInReverse(), reversed(seq))
	for k := 0; k < r.u.n; k += 1 + r.u.n/60 {
		r.lookup(k)
	}
}

func init() {
	register(&Property{
		ID:   "C11",
		Rule: "Histories of list operations against a plain slice, item identities included, for growing and fixed lists of initial sizes 0 to 150; enumerated histories of 5 (6) operations on short lists, random ones crossing the growth and shrink thresholds. Non-trivial: at least one removal and one insertion not at the end.",
		Families: []Family{
			{
				Name: "enum",
				N: func(t bool) int {
					if t {
						return ipow(8, 6)
					}
					return ipow(8, 5)
				},
				Gen: func(r *Rng, j int, t bool) *Case {
					l := 5
					if t {
						l = 6
					}
					c := &Case{Kind: "list", P: map[string]int{"n": 50, "init": j % 4, "fixed": j / 4 % 2}}
					for i := 0; i < l; i++ {
						x := j % 8
						j /= 8
						switch x {
						case 0:
							c.Ops = append(c.Ops, Op{F: "app", A: []int{i}})
						case 1, 2:
							c.Ops = append(c.Ops, Op{F: "ins", A: []int{i, x - 1}})
						case 3:
							c.Ops = append(c.Ops, Op{F: "ins", A: []int{i, 0}})
						case 4, 5:
							c.Ops = append(c.Ops, Op{F: "rem", A: []int{i, x - 4}})
						case 6:
							c.Ops = append(c.Ops, Op{F: "pop", A: []int{i}})
						case 7:
							c.Ops = append(c.Ops, Op{F: "set", A: []int{i, 1}})
						}
					}
					return c
				},
			},
			{
				Name: "random",
				N:    constN(20000, 200000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "list", P: map[string]int{
						"n": r.Pick(3, 10, 100), "init": r.Pick(0, 1, 2, 3, 7, 10, 20, 24, 25), "fixed": r.N(2), "aud": r.Pick(1, 3),
					}, Ops: listHistory(r, r.In(5, 80), 1, 1)}
				},
			},
			{
				// crossing capacities 100, 200, 300 in both directions
				Name: "grow and shrink",
				N:    constN(600, 6000),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := &Case{Kind: "list", P: map[string]int{
						"n": 1000, "init": r.Pick(0, 1, 16, 20, 21, 22, 23, 50, 99, 100, 101, 150), "fixed": r.N(4) / 3, "aud": r.Pick(5, 17, 60),
					}}
					for ph := r.In(1, 3); ph > 0; ph-- {
						for i := r.In(20, 450); i > 0; i-- {
							c.Ops = append(c.Ops, Op{F: r.PickS("app", "app", "ins", "push"), A: []int{r.N(1000), r.N(1 << 20)}})
						}
						for i := r.In(20, 450); i > 0; i-- {
							c.Ops = append(c.Ops, Op{F: r.PickS("pop", "pop", "rem"), A: []int{r.N(1000), r.N(1 << 20)}})
						}
						if r.P(1, 3) {
							c.Ops = append(c.Ops, Op{F: "clear"})
						}
					}
					return c
				},
			},
			{
				Name: "huge",
				N:    constN(24, 160),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(2000, 5000, 20000, 70000)
					c := &Case{Kind: "list", P: map[string]int{"n": 1000, "init": r.Pick(0, 1000, 32767, 65535, 65536, n), "fixed": r.N(3) / 2}}
					op := func(fs ...string) {
						c.Ops = append(c.Ops, Op{F: r.PickS(fs...), A: []int{r.N(1000), r.N(1 << 30), r.N(10)}})
					}
					for i := 0; i < n; i++ {
						if r.P(1, 50) {
							op("ins", "set", "rem", "bad")
						} else if r.P(1, 1000) {
							op("ext long")
						} else {
							op("app", "push")
						}
					}
					for i := r.In(n/2, n+n/3); i > 0; i-- {
						if r.P(1, 50) {
							op("ins", "set", "rem")
						} else {
							op("pop")
						}
					}
					if r.P(1, 2) {
						op("sort")
					}
					c.P["aud"] = len(c.Ops)/4 + 1
					return c
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			r := &listRun{m: m, u: newUniverse(ktInstr, 0, c.p("n"), 0), cap: -1}
			if c.p("fixed") == 1 {
				r.cap = c.p("init")
				r.l = list.Fixed(r.cap)
			} else {
				r.l = list.New(c.p("init"))
			}
			every := maxi(1, c.p("aud"))
			r.audit()
			for i, op := range c.Ops {
				m.step = i
				r.do(op)
				if i%every == every-1 {
					r.audit()
				}
			}
			m.step = len(c.Ops)
			r.audit()
			if m.feats["removed"] > 0 && m.feats["inserted in the middle"] > 0 {
				m.Nontrivial()
			}
			if r.peak > 100 && r.cap < 0 {
				m.Feat("grew past 100")
			}
		},
	})
	sortedHistory := func(r *Rng, n, length int) []Op {
		var ops []Op
		for len(ops) < length {
			pa := r.In(2, 8)
			sub := r.In(1, n)
			base := r.N(n)
			switch r.N(3) {
			case 0:
				for _, k := range order(r, r.N(8), mini(sub, length)) {
					ops = append(ops, Op{F: "add", A: []int{base + k}})
				}
			case 1:
				for _, k := range order(r, r.N(8), mini(sub, 20)) {
					ops = append(ops, Op{F: "del", A: []int{base + k}})
				}
			default:
				for i := r.In(1, length); i > 0; i-- {
					f := "add"
					switch x := r.N(pa + 4); {
					case x < 2:
						f = "del"
					case x == 2:
						f = "rem"
					case x == 3:
						f = r.PickS("ext", "bad", "rem", "rem", "bad", "ext", "clear")
					}
					ops = append(ops, Op{F: f, A: []int{base + r.N(sub), r.N(1 << 20)}})
				}
			}
		}
		if len(ops) > 2*length {
			ops = ops[:2*length]
		}
		return ops
	}
	register(&Property{
		ID:   "C12",
		Rule: "Histories of sorted list operations against a sorted slice of item numbers, with and without duplicates, growing and fixed; find positions, lookups and both iteration directions are compared. Enumerated histories over 3 items and random ones up to hundreds of items with long runs of equal items. Non-trivial: at least one successful deletion.",
		Families: []Family{
			{
				Name: "enum",
				N: func(t bool) int {
					if t {
						return ipow(6, 6) * 4
					}
					return ipow(6, 5) * 4
				},
				Gen: func(r *Rng, j int, t bool) *Case {
					l := 5
					if t {
						l = 6
					}
					c := &Case{Kind: "sorted", P: map[string]int{"n": 5, "dups": j % 2, "fixed": j / 2 % 2, "init": r.In(0, 4)}}
					for _, o := range enumOps(j/4, l, 3) {
						f := "add"
						if o.F == "rem" {
							f = "del"
						}
						c.Ops = append(c.Ops, Op{F: f, A: []int{o.A[0] + 1}})
					}
					return c
				},
			},
			{
				Name: "random",
				N:    constN(16000, 160000),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(2, 5, 12, 40)
					kt := 0
					if r.P(1, 4) {
						kt = r.N(nKeyTypes)
					}
					return &Case{Kind: "sorted", P: map[string]int{
						"kt": kt, "us": r.N(1000), "n": n, "dups": j % 2, "fixed": j / 2 % 2, "init": r.Pick(0, 1, 2, 5, 10, 30), "aud": r.Pick(1, 3),
					}, Ops: sortedHistory(r, n, r.In(5, 60))}
				},
			},
			{
				Name: "large",
				N:    constN(800, 8000),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(10, 100, 600)
					return &Case{Kind: "sorted", P: map[string]int{
						"n": n, "dups": j % 2, "fixed": r.N(5) / 4, "init": r.Pick(0, 10, 100, 200), "aud": r.In(20, 100),
					}, Ops: sortedHistory(r, n, r.In(100, 700))}
				},
			},
			{
				Name: "huge",
				N:    constN(24, 160),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.Pick(300, 3000, 30000)
					size := r.Pick(3000, 8000, 20000)
					var ops []Op
					for _, k := range order(r, r.N(8), size) {
						ops = append(ops, Op{F: "add", A: []int{k * maxi(1, n/size)}})
						if r.P(1, 200) {
							ops = append(ops, Op{F: r.PickS("rem", "bad", "ext long"), A: []int{k, r.N(1 << 30)}})
						}
					}
					for i := r.In(0, size/2); i > 0; i-- {
						ops = append(ops, Op{F: r.PickS("rem", "del"), A: []int{r.N(n), r.N(1 << 30)}})
					}
					return &Case{Kind: "sorted", P: map[string]int{
						"n": n, "dups": j % 2, "fixed": r.N(5) / 4, "init": r.Pick(0, 10, 1000, size), "aud": len(ops)/4 + 1,
					}, Ops: ops}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			r := &sortedRun{m: m, u: newUniverse(c.p("kt"), 0, c.p("n"), c.p("us")), dups: c.p("dups") == 1, cap: -1}
			if c.p("fixed") == 1 {
				r.cap = c.p("init")
				r.l = list.NewFixedSorted(r.cap, r.dups)
			} else {
				r.l = list.NewSorted(c.p("init"), r.dups)
			}
			// Keys of a built-in type have values, instrumented ones identity.
			every := maxi(1, c.p("aud"))
			r.audit()
			for i, op := range c.Ops {
				m.step = i
				r.do(op)
				if i%every == every-1 {
					r.audit()
				}
			}
			m.step = len(c.Ops)
			r.audit()
		},
	})
}
