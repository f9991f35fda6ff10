package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// C34: printed forms.

var printKinds = []string{"list", "fixed list", "sorted list", "sorted set", "set of map", "map set", "linked list", "unique deque"}

// printable is a collection of items that keeps track of what it should print.
type printable struct {
	s       fmt.Stringer
	items   func() types.KIterator
	ordered bool
	add     func(k int)
	del     func(k int)
	pop     func()
	model   []string // in order, if ordered
}

func (p *printable) insert(at int, s string) {
	p.model = append(p.model[:at:at], append([]string{s}, p.model[at:]...)...)
}

func (p *printable) remove(at int) { p.model = append(p.model[:at:at], p.model[at+1:]...) }

func makePrinted(c *Case, u *Universe) *printable {
	kind := printKinds[c.p("kind")%len(printKinds)]
	name := func(k int) string { return fmt.Sprintf("%v", u.key(k)) }
	p := &printable{ordered: true}
	var keys []int // of the sorted kinds
	sorted := func(k int, unique bool) (int, bool) {
		at := sort.SearchInts(keys, k)
		return at, at < len(keys) && keys[at] == k
	}
	sortedModel := func(unique bool, add func(k int), del func(k int), show func(k int) string) {
		p.add = func(k int) {
			add(k)
			at, has := sorted(k, unique)
			if has && unique {
				p.model[at] = show(k)
				return
			}
			keys = append(keys[:at:at], append([]int{k}, keys[at:]...)...)
			p.insert(at, show(k))
		}
		p.del = func(k int) {
			at, has := sorted(k, unique)
			if !has {
				return
			}
			del(k)
			keys = append(keys[:at:at], keys[at+1:]...)
			p.remove(at)
		}
		p.pop = func() {
			if n := len(keys); n > 0 {
				p.del(keys[n/2])
			}
		}
	}
	switch kind {
	case "list", "fixed list":
		l := list.New(c.p("init"))
		if kind == "fixed list" {
			l = list.Fixed(1 + c.p("init") + 200)
		}
		p.s, p.items = l, l.Items
		p.add = func(k int) {
			if l.Full() && kind == "fixed list" {
				return
			}
			at := k % (len(p.model) + 1)
			if k%3 != 0 {
				at = len(p.model)
			}
			l.Insert(at, u.key(k))
			p.insert(at, name(k))
		}
		p.del = func(k int) {
			if n := len(p.model); n > 0 {
				l.Remove(k % n)
				p.remove(k % n)
			}
		}
		p.pop = func() {
			if n := len(p.model); n > 0 {
				l.Pop()
				p.remove(n - 1)
			}
		}
	case "sorted list":
		unique := c.p("ns")%2 == 0
		l := list.NewSorted(c.p("init"), !unique)
		p.s, p.items = l, l.Items
		sortedModel(unique, func(k int) { l.Add(u.key(k)) }, func(k int) { l.Delete(u.key(k)) }, name)
	case "sorted set":
		s := set.NewSortedSet(c.p("init"))
		p.s, p.items = s, s.Items
		sortedModel(true, func(k int) { s.Add(u.key(k)) }, func(k int) { s.Delete(u.key(k)) }, name)
	case "set of map":
		sk := 1 + c.p("ns")%(nSetKinds-1)
		s := makeSet(sk, c.p("init"), 2+c.p("ns"))
		p.s, p.items, p.ordered = s.(fmt.Stringer), s.Items, setOrdered(sk)
		sortedModel(true, func(k int) { s.Add(u.key(k)) }, func(k int) { s.Delete(u.key(k)) }, name)
	case "map set":
		s := set.NewMapSet(set.NewSortedSet(c.p("init")))
		p.s, p.items = s, s.Items
		token := 0
		sortedModel(true, func(k int) { token++; s.Put(u.key(k), token) }, func(k int) { s.Delete(u.key(k)) }, func(k int) string { return fmt.Sprintf("<MapEntry %v: %v>", u.key(k), token) })
	case "linked list", "unique deque":
		var d interface {
			deque
			String() string
		} = linked.New()
		if kind == "unique deque" {
			d = linked.NewUniqueDeque()
		}
		p.s, p.items = d, d.Items
		p.add = func(k int) {
			if kind == "unique deque" && d.Has(u.key(k)) {
				return
			}
			if k%2 == 0 {
				d.EnqueFront(u.key(k))
				p.insert(0, name(k))
			} else {
				d.EnqueBack(u.key(k))
				p.insert(len(p.model), name(k))
			}
		}
		p.del = func(k int) {
			if len(p.model) > 0 {
				d.DequeFront()
				p.remove(0)
			}
		}
		p.pop = func() {
			if n := len(p.model); n > 0 {
				d.DequeBack()
				p.remove(n - 1)
			}
		}
	}
	return p
}

func (p *printable) audit(m *Mon, kind string) {
	got := p.s.String()
	m.Check(fmt.Sprintf("%v", p.s) == got && fmt.Sprint(p.s) == got, "the %s prints differently through fmt", kind)
	want := "{" + strings.Join(p.model, ", ") + "}"
	if !p.ordered {
		m.Check(strings.HasPrefix(got, "{") && strings.HasSuffix(got, "}"), "the %s prints as %.300q, not in braces", kind, got)
		var items []string
		for x, next := p.items()(); next != nil; x, next = next() {
			items = append(items, fmt.Sprintf("%v", x))
		}
		w2 := "{" + strings.Join(items, ", ") + "}"
		m.Check(got == w2, "the %s prints as %.300q, iteration gives %.300q", kind, got, w2)
		parts := []string{}
		if got != "{}" {
			parts = strings.Split(got[1:len(got)-1], ", ")
		}
		sort.Strings(parts)
		ms := append([]string{}, p.model...)
		sort.Strings(ms)
		got, want = strings.Join(parts, ", "), strings.Join(ms, ", ")
	}
	m.Check(got == want, "the %s prints as %.300q, expected %.300q", kind, got, want)
	m.audits++
	m.ObsS(got)
}

func runPrinted(c *Case, m *Mon) {
	u := newUniverse(c.p("kt"), c.p("hm"), maxi(1, c.p("n")), c.p("us"))
	kind := printKinds[c.p("kind")%len(printKinds)]
	p := makePrinted(c, u)
	p.audit(m, kind)
	every := maxi(1, len(c.Ops)/25)
	for i, op := range c.Ops {
		m.step = i
		k := op.a(0) % u.n
		switch op.F {
		case "add":
			p.add(k)
		case "del":
			p.del(k)
		case "pop":
			p.pop()
		}
		m.ops++
		if i%every == 0 {
			p.audit(m, kind)
		}
		if len(p.model) > 1 {
			m.Nontrivial()
		}
	}
	p.audit(m, kind)
	m.Feat("printed: " + kind)
}

var (
	reTstKey  = regexp.MustCompile(`\[([0-9a-f]+) ([0-9a-f]*)\]`)
	reDotNode = regexp.MustCompile(`^(\w+)\[label="(.*)", ?(shape="rect"|shape="circle"|fillcolor="#aaffaa").*\];$`)
	reDotEdge = regexp.MustCompile(`^(\w+) -> (\w+) \[label="(.*)"\];$`)
)

// auditTrie compares the printed form and the graph of a trie with its keys.
func auditTrie(m *Mon, t *trie.TST, keys map[string]bool) {
	want := []string{}
	for k := range keys {
		want = append(want, k)
	}
	sort.Strings(want)
	s := t.String()
	m.Check(strings.HasPrefix(s, "TST<") && strings.HasSuffix(s, ">"), "the trie prints as %.200q", s)
	got := []string{}
	for _, x := range reTstKey.FindAllStringSubmatch(s, -1) {
		var b []byte
		fmt.Sscanf(x[2], "%x", &b)
		got = append(got, string(b))
	}
	sort.Strings(got)
	m.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "the printed trie shows the keys %.300q, expected %.300q: %.600s", got, want, s)

	dot := t.Dotty()
	m.Check(strings.HasPrefix(dot, "digraph TST {\n") && strings.HasSuffix(dot, "\n}\n"), "the graph of the trie is %.300q", dot)
	kinds, labels, parent, via := map[string]string{}, map[string]string{}, map[string]string{}, map[string]string{}
	root := ""
	got = got[:0]
	for _, line := range strings.Split(dot, "\n") {
		if x := reDotNode.FindStringSubmatch(line); x != nil {
			m.Check(kinds[x[1]] == "", "two nodes %s in the graph", x[1])
			kinds[x[1]], labels[x[1]] = x[3], x[2]
			if strings.Contains(x[3], "rect") {
				m.Check(root == "", "two roots in the graph")
				root = x[1]
			} else if strings.Contains(x[3], "aaffaa") {
				got = append(got, x[2])
			}
		} else if x := reDotEdge.FindStringSubmatch(line); x != nil {
			m.Check(parent[x[2]] == "", "node %s of the graph has two parents", x[2])
			parent[x[2]], via[x[2]] = x[1], x[3]
		}
	}
	m.Check(root != "", "the graph of the trie has no root: %.300q", dot)
	m.Check(parent[root] == "", "the root of the graph has a parent")
	for n := range parent {
		m.Check(kinds[n] != "" && kinds[parent[n]] != "", "the edge from %s to %s has an end without a node", parent[n], n)
	}
	sort.Strings(got)
	m.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "the graph of the trie shows the keys %.300q, expected %.300q", got, want)
	for n := range kinds {
		if n == root {
			continue
		}
		m.Check(parent[n] != "", "node %s of the graph is not connected", n)
		m.Check(!strings.Contains(kinds[parent[n]], "aaffaa"), "the key node %s of the graph has a child", parent[n])
		at, steps := n, 0
		for parent[at] != root && steps <= len(kinds) {
			at = parent[at]
			steps++
		}
		m.Check(steps <= len(kinds), "node %s of the graph is not connected with the root", n)
		if strings.Contains(kinds[n], "aaffaa") {
			m.Check(strings.HasPrefix(labels[n], via[at]), "the key %q of the graph is below the head %q", labels[n], via[at])
		}
	}
	m.audits++
	m.ObsS(s)
}

func runPrintedTrie(c *Case, m *Mon) {
	t := trie.New()
	keys := map[string]bool{}
	auditTrie(m, t, keys)
	every := maxi(1, len(c.Ops)/12)
	for i, op := range c.Ops {
		m.step = i
		switch op.F {
		case "put":
			m.Check(t.Put(append([]byte{}, op.B...), i) == nil, "put %q failed", op.B)
			keys[string(op.B)] = true
		case "del":
			t.Remove(append([]byte{}, op.B...))
			delete(keys, string(op.B))
		}
		m.ops++
		if i%every == 0 {
			auditTrie(m, t, keys)
		}
		if len(keys) > 1 {
			m.Nontrivial()
		}
	}
	auditTrie(m, t, keys)
	m.Feat("printed: trie")
}

func printOps(r *Rng, n, keys int) []Op {
	ops := []Op{}
	grow := r.Pick(4, 6, 8)
	for i := 0; i < n; i++ {
		if r.P(1, 30) {
			grow = r.Pick(1, 4, 6, 8)
		}
		f := "add"
		if !r.P(grow, 9) {
			f = r.PickS("del", "pop")
		}
		ops = append(ops, Op{F: f, A: []int{r.N(keys)}})
	}
	return ops
}

func init() {
	register(&Property{
		ID:   "C34",
		Rule: "Eight kinds of collections and the trie go through random histories of additions and removals; again and again they are printed, and the text is compared with the one made from the model; the printed trie and its graph are parsed and must show exactly the keys present, the graph must be a tree. Non-trivial: more than one item was present at some time.",
		Families: []Family{
			{Name: "collections", N: constN(24000, 300000), Gen: func(r *Rng, j int, t bool) *Case {
				kt := r.Pick(ktInstr, ktInt, ktInt8, ktUInt64)
				if k := printKinds[j%len(printKinds)]; k != "set of map" && r.P(1, 2) {
					kt = r.Pick(ktString, ktBytes, ktInt16, ktUInt)
				}
				n := r.Pick(2, 3, 10, 40)
				return &Case{Kind: "printed", P: map[string]int{"kind": j, "kt": kt, "hm": r.Pick(0, 1, 4, 12), "n": n, "init": r.Pick(0, 1, 5), "ns": r.N(12), "us": r.N(1 << 30)}, Ops: printOps(r, r.Pick(1, 4, 15, 60, 150), n)}
			}},
			{Name: "large", N: constN(160, 1600), Gen: func(r *Rng, j int, t bool) *Case {
				n := r.Pick(200, 600, 2000)
				return &Case{Kind: "printed", P: map[string]int{"kind": j, "kt": r.Pick(ktInstr, ktInt), "hm": r.Pick(0, 4, 12), "n": n, "init": r.Pick(0, 1, 3000), "ns": r.N(12), "us": r.N(1 << 30)}, Ops: printOps(r, 2*n, n)}
			}},
			{Name: "trie", N: constN(4000, 50000), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "trie", P: map[string]int{}}
				alpha := r.PickS("ab", "abc", "abcdefghijklmnopqrstuvwxyz", "aB0_")
				var made [][]byte
				for i := r.Pick(1, 3, 10, 40, 120); i > 0; i-- {
					if len(made) > 0 && r.P(1, 4) {
						c.Ops = append(c.Ops, Op{F: r.PickS("del", "del", "put"), B: made[r.N(len(made))]})
						continue
					}
					var b []byte
					if len(made) > 0 && r.P(1, 2) {
						b = append(b, made[r.N(len(made))]...)
						b = b[:r.N(len(b)+1)]
					}
					for x := r.In(1, 5); x > 0 || len(b) == 0; x-- {
						b = append(b, alpha[r.N(len(alpha))])
					}
					made = append(made, b)
					c.Ops = append(c.Ops, Op{F: "put", B: b})
				}
				return c
			}},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "trie" {
				runPrintedTrie(c, m)
			} else {
				runPrinted(c, m)
			}
		},
	})
}
