package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// C17, C18: laws of equality, order and hash.

// cmpNative compares two values of one built-in type the natural way.
func cmpNative(a, b types.Hashable) int {
	ord := func(lt, eq bool) int {
		if eq {
			return 0
		}
		if lt {
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case types.Int:
		y := b.(types.Int)
		return ord(x < y, x == y)
	case types.UInt:
		y := b.(types.UInt)
		return ord(x < y, x == y)
	case types.Int8:
		y := b.(types.Int8)
		return ord(x < y, x == y)
	case types.UInt8:
		y := b.(types.UInt8)
		return ord(x < y, x == y)
	case types.Int16:
		y := b.(types.Int16)
		return ord(x < y, x == y)
	case types.UInt16:
		y := b.(types.UInt16)
		return ord(x < y, x == y)
	case types.Int32:
		y := b.(types.Int32)
		return ord(x < y, x == y)
	case types.UInt32:
		y := b.(types.UInt32)
		return ord(x < y, x == y)
	case types.Int64:
		y := b.(types.Int64)
		return ord(x < y, x == y)
	case types.UInt64:
		y := b.(types.UInt64)
		return ord(x < y, x == y)
	case types.String:
		return strings.Compare(string(x), string(b.(types.String)))
	case types.ByteSlice:
		return bytes.Compare(x, b.(types.ByteSlice))
	case *types.MapEntry:
		return cmpNative(x.Key, b.(*types.MapEntry).Key)
	}
	panic(fmt.Sprintf("cmpNative of %T", a))
}

// lawValues makes values of one built-in type: extremes, neighbours of them
// and of each other, equal pairs in different memory.
func lawValues(it int, r *Rng, n int) []types.Hashable {
	_, _, mk, _ := itemType(it)
	var vs []types.Hashable
	switch mk(r).(type) {
	case types.ByteSlice:
		if cs := colliding(true); len(cs) > 0 {
			p := cs[r.N(len(cs))]
			vs = append(vs, types.ByteSlice(p[0]), types.ByteSlice(p[1]))
		}
	case types.String:
		if cs := colliding(false); len(cs) > 0 {
			p := cs[r.N(len(cs))]
			vs = append(vs, types.String(p[0]), types.String(p[1]))
		}
	}
	for len(vs) < n {
		x := mk(r)
		vs = append(vs, x)
		switch y := x.(type) {
		case types.ByteSlice:
			vs = append(vs, append(types.ByteSlice{}, y...), append(append(types.ByteSlice{}, y...), 0))
			if len(y) > 0 {
				vs = append(vs, append(types.ByteSlice{}, y[:len(y)-1]...))
			} else {
				vs = append(vs, types.ByteSlice(nil))
			}
		case types.String:
			vs = append(vs, types.String(append([]byte{}, y...)), y+"\x00")
		default:
			// Equal values and neighbours through conversions.
			switch z := x.(type) {
			case types.Int:
				vs = append(vs, z, z+1)
			case types.Int64:
				vs = append(vs, z, z+1, z^(1<<32))
			case types.UInt64:
				vs = append(vs, z, z+1, z^(1<<32))
			case types.UInt:
				vs = append(vs, z, z-1)
			case types.Int32:
				vs = append(vs, z, z+1)
			case types.UInt32:
				vs = append(vs, z, z-1)
			case types.Int16:
				vs = append(vs, z, z+1)
			case types.UInt16:
				vs = append(vs, z, z-1)
			case types.Int8:
				vs = append(vs, z, z+1)
			case types.UInt8:
				vs = append(vs, z, z-1)
			}
		}
	}
	return vs
}

func runLaws(c *Case, m *Mon) {
	it := c.p("it")
	r := newRng(uint64(c.p("us")), 61)
	vs := lawValues(it, r, 12)
	_, _, _, name := itemType(it)
	if c.p("entry") == 1 {
		name = "MapEntry of " + name
		for i := range vs {
			vs[i] = &types.MapEntry{Key: vs[i], Value: i}
		}
	}
	others := []types.Hashable{}
	for o := 0; o < nItemTypes-1; o++ {
		if o != it {
			_, _, mk, _ := itemType(o)
			others = append(others, mk(r))
		}
	}
	// The same number in the other types.
	others2 := []types.Hashable{types.Int(65), types.UInt(65), types.Int8(65), types.UInt8(65), types.Int16(65), types.UInt16(65), types.Int32(65), types.UInt32(65), types.Int64(65), types.UInt64(65), types.String("A"), types.ByteSlice("A")}
	eq := make([][]bool, len(vs))
	lt := make([][]bool, len(vs))
	for i, a := range vs {
		eq[i], lt[i] = make([]bool, len(vs)), make([]bool, len(vs))
		h := a.Hash()
		m.Check(h == a.Hash(), "%s %v hashes differently the second time", name, a)
		for j, b := range vs {
			eq[i][j], lt[i][j] = a.Equals(b), a.Less(b)
			k := cmpNative(a, b)
			m.Check(eq[i][j] == (k == 0), "%s: %v equals %v is %v", name, a, b, eq[i][j])
			m.Check(lt[i][j] == (k < 0), "%s: %v less than %v is %v", name, a, b, lt[i][j])
			if k != 0 && b.Hash() == h {
				m.Feat("different values with equal hashes")
			}
			if k == 0 {
				m.Check(b.Hash() == h, "%s: equal values %v and %v have hashes %d and %d", name, a, b, h, b.Hash())
				if i != j {
					m.Feat("equal values in different memory")
				}
			}
			m.ops++
		}
		if c.p("entry") == 0 {
			for _, o := range others {
				m.Check(!a.Equals(o), "%s: %v equals the %T %v", name, a, o, o)
				m.Check(!a.Less(o), "%s: %v is less than the %T %v", name, a, o, o)
			}
		}
		m.Obs(uint64(h))
	}
	for i := range vs { // laws as such, independent of the reference
		m.Check(eq[i][i] && !lt[i][i], "%s: %v is not equal to itself or less than itself", name, vs[i])
		for j := range vs {
			m.Check(eq[i][j] == eq[j][i], "%s: equality of %v and %v is not symmetric", name, vs[i], vs[j])
			n := 0
			for _, x := range []bool{eq[i][j], lt[i][j], lt[j][i]} {
				if x {
					n++
				}
			}
			m.Check(n == 1, "%s: %d of equal, less and greater hold for %v and %v", name, n, vs[i], vs[j])
			for k := range vs {
				if lt[i][j] && lt[j][k] {
					m.Check(lt[i][k], "%s: less is not transitive for %v, %v, %v", name, vs[i], vs[j], vs[k])
				}
				if eq[i][j] && eq[j][k] {
					m.Check(eq[i][k], "%s: equality is not transitive for %v, %v, %v", name, vs[i], vs[j], vs[k])
				}
			}
		}
	}
	for i, a := range others2 {
		for j, b := range others2 {
			if i != j {
				m.Check(!a.Equals(b) && !a.Less(b), "%T 65 and %T 65 compare as equal %v, less %v", a, b, a.Equals(b), a.Less(b))
			}
		}
	}
	m.audits++
	m.Feat(name)
	m.Nontrivial()
}

// hashes prints hashes of values and containers, for a comparison between
// processes.
func hashes(seed int) string {
	var b strings.Builder
	r := newRng(uint64(seed), 62)
	for it := 0; it < nItemTypes-1; it++ {
		for _, v := range lawValues(it, r, 10) {
			fmt.Fprintf(&b, "%d ", v.Hash())
			fmt.Fprintf(&b, "%d ", (&types.MapEntry{Key: v, Value: 1}).Hash())
		}
	}
	for n := 0; n < 6; n++ {
		var items []types.Hashable
		for i := 0; i < n; i++ {
			items = append(items, types.Int(r.N(100)), types.String(fmt.Sprint(r.N(100))))
		}
		fmt.Fprintf(&b, "%d ", list.FromSlice(items).Hash())
		l := linked.New()
		for _, x := range items {
			l.EnqueBack(x)
		}
		fmt.Fprintf(&b, "%d ", l.Hash())
	}
	return b.String()
}

func otherProcess(m *Mon, args ...string) string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	out, err := exec.Command(exe, args...).Output()
	m.Check(err == nil, "a second process failed: %v", err)
	return string(out)
}

// ---- containers ----

type container interface {
	types.Hashable
	types.IterableContainer
}

const (
	ckList = iota
	ckFixed
	ckSorted
	ckSortedSet
	ckLinked
	ckUnique
	nContKinds
)

var contNames = []string{"list", "fixed list", "sorted list", "sorted set", "linked list", "unique deque"}

// canHold tells whether a kind of container can hold the sequence.
func canHold(kind int, ids []int) bool {
	asc, strict := true, true
	seen := map[int]bool{}
	uniq := true
	for i, x := range ids {
		if i > 0 && x < ids[i-1] {
			asc = false
		}
		if i > 0 && x <= ids[i-1] {
			strict = false
		}
		if seen[x] {
			uniq = false
		}
		seen[x] = true
	}
	switch kind {
	case ckSorted:
		return asc
	case ckSortedSet:
		return strict
	case ckUnique:
		return uniq
	}
	return true
}

// build makes a container with the sequence, through a history that depends
// on r.
func build(kind int, ids []int, mk func(int) types.Hashable, r *Rng) container {
	extra := r.N(3)
	switch kind {
	case ckList:
		if r.P(1, 4) {
			var xs []types.Hashable
			for _, k := range ids {
				xs = append(xs, mk(k))
			}
			return list.FromSlice(xs)
		}
		l := list.New(r.Pick(0, 1, 5, 50))
		for i, k := range ids {
			if extra > 0 && i == len(ids)/2 {
				l.Append(mk(7777))
				l.Remove(l.Size() - 1)
			}
			l.Append(mk(k))
		}
		return l
	case ckFixed:
		l := list.Fixed(len(ids) + r.N(4))
		for _, k := range ids {
			l.Append(mk(k))
		}
		return l
	case ckSorted:
		s := list.NewSorted(r.N(10), true)
		if canHold(ckSortedSet, ids) && r.P(1, 2) {
			s = list.NewSorted(r.N(10), false)
		}
		for _, i := range r.Perm(len(ids)) {
			s.Add(mk(ids[i]))
		}
		if extra > 0 {
			s.Add(mk(7777))
			s.Delete(mk(7777))
		}
		return s
	case ckSortedSet:
		s := set.NewSortedSet(r.N(10))
		for _, i := range r.Perm(len(ids)) {
			s.Add(mk(ids[i]))
			s.Add(mk(ids[i]))
		}
		if r.P(1, 4) {
			return s.Copy()
		}
		return s
	case ckLinked:
		l := linked.New()
		cut := 0
		if len(ids) > 0 {
			cut = r.N(len(ids) + 1)
		}
		for _, k := range ids[cut:] {
			l.EnqueBack(mk(k))
		}
		for i := cut - 1; i >= 0; i-- {
			l.EnqueFront(mk(ids[i]))
		}
		if extra > 0 {
			l.EnqueBack(mk(7777))
			l.DequeBack()
		}
		return l
	default:
		l := linked.NewUniqueDeque()
		for _, k := range ids {
			l.EnqueBack(mk(k))
		}
		if extra > 0 {
			l.EnqueFront(mk(7777))
			l.DequeFront()
		}
		return l
	}
}

// cmpSeq orders sequences by size, then by the first difference.
func cmpSeq(a, b []int) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

type built struct {
	c    container
	ids  []int
	kind int
}

func runContainers(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 63)
	u := newUniverse(ktInstr, c.p("hm"), 100, 0)
	u.cnt = nil
	mk := func(i int) types.Hashable { return &IKey{id: i, h: hashOf(c.p("hm"), i)} }
	switch c.p("items") {
	case 1:
		mk = func(i int) types.Hashable { return types.Int(i) }
	case 2:
		mk = func(i int) types.Hashable { return types.String(fmt.Sprintf("%05d", i)) }
	case 3: // containers of containers
		mk = func(i int) types.Hashable {
			kind := []int{ckList, ckFixed, ckSorted, ckLinked}[r.N(4)]
			return build(kind, []int{i / 10, i/10 + i%10}, func(i int) types.Hashable { return types.Int(i) }, r)
		}
	}
	var cs []built
	var seqs [][]int
	if c.Kind == "empty" {
		seqs = [][]int{{}, {0}, {}}
	} else {
		for len(seqs) < 6 && (c.Kind != "long" || len(seqs) < 2) {
			n := r.Pick(0, 1, 1, 2, 2, 3, 3, 4, 8, 17, 40)
			if c.Kind == "long" {
				n = r.Pick(100, 129, 257, 300, 1025, 2000)
			}
			s := make([]int, n)
			up := c.Kind == "long" && r.P(2, 3)
			for i := range s {
				s[i] = r.N(4)
				if r.P(1, 2) || up {
					s[i] = i // ascending
				}
			}
			seqs = append(seqs, s)
			if n > 0 { // a close relative
				d := append([]int{}, s...)
				at := r.N(n)
				if c.Kind == "long" && r.P(1, 2) {
					at = n - 1
				}
				d[at] += r.In(0, 2)
				seqs = append(seqs, d)
				if r.P(1, 3) {
					seqs = append(seqs, d[:n-1])
				}
			}
		}
	}
	for _, s := range seqs {
		for kind := 0; kind < nContKinds; kind++ {
			if canHold(kind, s) && (c.Kind == "empty" || r.P(3, 5)) {
				cs = append(cs, built{build(kind, s, mk, r), s, kind})
				m.Feat(contNames[kind])
			}
		}
	}
	for _, a := range cs {
		h := a.c.Hash()
		m.Check(h == a.c.Hash(), "the hash of a %s changes", contNames[a.kind])
		for _, b := range cs {
			k := cmpSeq(a.ids, b.ids)
			e, l := a.c.Equals(b.c), a.c.Less(b.c)
			m.Check(e == (k == 0), "%s %v equals %s %v is %v", contNames[a.kind], a.ids, contNames[b.kind], b.ids, e)
			m.Check(l == (k < 0), "%s %v less than %s %v is %v", contNames[a.kind], a.ids, contNames[b.kind], b.ids, l)
			m.Check(list.Equals(a.c, b.c) == (k == 0) && list.Less(a.c, b.c) == (k < 0), "the package functions compare %s %v and %s %v wrongly", contNames[a.kind], a.ids, contNames[b.kind], b.ids)
			if k == 0 {
				m.Check(b.c.Hash() == h, "equal %s and %s %v have hashes %d and %d", contNames[a.kind], contNames[b.kind], a.ids, h, b.c.Hash())
				if a.kind != b.kind {
					m.Feat("equal containers of different kinds")
				}
			}
			m.ops++
		}
		m.ObsS(fmt.Sprint(a.kind, a.ids))
	}
	// as keys
	maps := []types.Map{hashtable.NewHashTable(1), hashtable.NewLinearHash(), avl.NewAvlTree(), avl.NewImmutableAvlTree(), bptree.NewBpMap(4)}
	for x, mp := range maps {
		want := map[string]int{}
		for i, a := range cs {
			m.Check(mp.Put(a.c, i) == nil, "put with a container as the key failed")
			want[fmt.Sprint(a.ids)] = i
		}
		m.Check(mp.Size() == len(want), "map %d with containers as keys has size %d, expected %d", x, mp.Size(), len(want))
		for _, a := range cs {
			v, err := mp.Get(a.c)
			w := want[fmt.Sprint(a.ids)]
			m.Check(err == nil && v == w, "map %d finds %v for the %s %v, expected %d: %v", x, v, contNames[a.kind], a.ids, w, errText(err))
		}
		absent := build(ckLinked, []int{9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9}, mk, r)
		m.Check(!mp.Has(absent), "map %d finds an absent container", x)
	}
	m.audits++
	if m.feats["equal containers of different kinds"] > 0 {
		m.Nontrivial()
	}
}

func init() {
	register(&Property{
		ID:   "C17",
		Rule: "For each of the 12 built-in scalar types and map entries of them, sets of about a dozen to forty values (extremes, neighbours, equal values in different memory) are compared pairwise and in triples with each other, with the natural order and with values of the other types; hashes are compared between equal values, repeated calls and processes. Every case is non-trivial; distinctness is by the hash values seen.",
		Families: []Family{
			{
				Name: "laws",
				N:    constN(24000, 240000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "laws", P: map[string]int{"it": j % (nItemTypes - 1), "entry": r.N(4) / 3, "us": r.N(1 << 30)}}
				},
			},
			{
				Name: "processes",
				N:    constN(4, 16),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "processes", P: map[string]int{"us": r.N(1 << 30)}}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "laws" {
				runLaws(c, m)
				return
			}
			mine := hashes(c.p("us"))
			m.Check(otherProcess(m, "hashes", fmt.Sprint(c.p("us"))) == mine, "the same values hash differently in another process")
			m.ops += int64(len(strings.Fields(mine)))
			m.Obs(uint64(c.p("us")))
			m.Feat("hashes in another process")
			m.Nontrivial()
		},
	})
	register(&Property{
		ID:   "C18",
		Rule: "Containers of six kinds with the same, slightly different and unrelated sequences of up to 40, in some cases up to 2000 items (instrumented keys, integers, strings, containers) are built through different histories and compared pairwise in both directions with the order on sequences; equal ones must hash equally and find each other as keys of five kinds of maps. Non-trivial: equal containers of different kinds were compared.",
		Families: []Family{
			{
				Name: "random",
				N:    constN(16000, 160000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "containers", P: map[string]int{"items": j % 4, "hm": r.N(nHashModes), "us": r.N(1 << 30)}}
				},
			},
			{
				Name: "long",
				N:    constN(240, 1600),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "long", P: map[string]int{"items": j % 4, "hm": r.N(nHashModes), "us": r.N(1 << 30)}}
				},
			},
			{
				Name: "empty",
				N:    constN(40, 80),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "empty", P: map[string]int{"items": j % 4, "us": r.N(1 << 30)}}
				},
			},
		},
		Run: runContainers,
	})
}
