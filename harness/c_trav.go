package main

import (
	"fmt"

	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/types"
)

// C23: traversals and iterator adapters.

// pNode is a binary node behind a pointer; its missing children are typed nil
// pointers, as natural implementations return them.
type pNode struct {
	id   int
	l, r *pNode
}

func (n *pNode) Key() types.Hashable              { return types.Int(n.id) }
func (n *pNode) Value() interface{}               { return n.id }
func (n *pNode) Left() types.BinaryTreeNode       { return n.l }
func (n *pNode) Right() types.BinaryTreeNode      { return n.r }
func (n *pNode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *pNode) ChildCount() int                  { return types.DoChildCount(n) }
func (n *pNode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

// qNode is the same with untyped nil children.
type qNode struct{ pNode }

func wrapQ(n *pNode) types.BinaryTreeNode {
	if n == nil {
		return nil
	}
	return &qNode{*n}
}
func (n *qNode) Left() types.BinaryTreeNode       { return wrapQ(n.l) }
func (n *qNode) Right() types.BinaryTreeNode      { return wrapQ(n.r) }
func (n *qNode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *qNode) ChildCount() int                  { return types.DoChildCount(n) }
func (n *qNode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

// vNode is a binary node that is not a pointer.
type vNode struct {
	id   int
	kids [2]*pNode
}

func wrapV(n *pNode) types.BinaryTreeNode {
	if n == nil {
		return nil
	}
	return vNode{n.id, [2]*pNode{n.l, n.r}}
}
func (n vNode) Key() types.Hashable              { return types.Int(n.id) }
func (n vNode) Value() interface{}               { return n.id }
func (n vNode) Left() types.BinaryTreeNode       { return wrapV(n.kids[0]) }
func (n vNode) Right() types.BinaryTreeNode      { return wrapV(n.kids[1]) }
func (n vNode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n vNode) ChildCount() int                  { return types.DoChildCount(n) }
func (n vNode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

// sNode is a slice of one node, fNode a function; the missing children are nil
// slices and functions.
type sNode []*pNode

func wrapS(n *pNode) types.BinaryTreeNode {
	if n == nil {
		return sNode(nil)
	}
	return sNode{n}
}
func (n sNode) Key() types.Hashable              { return types.Int(n[0].id) }
func (n sNode) Value() interface{}               { return n[0].id }
func (n sNode) Left() types.BinaryTreeNode       { return wrapS(n[0].l) }
func (n sNode) Right() types.BinaryTreeNode      { return wrapS(n[0].r) }
func (n sNode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n sNode) ChildCount() int                  { return types.DoChildCount(n) }
func (n sNode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

type fNode func() *pNode

func wrapF(n *pNode) types.BinaryTreeNode {
	if n == nil {
		return fNode(nil)
	}
	return fNode(func() *pNode { return n })
}
func (n fNode) Key() types.Hashable              { return types.Int(n().id) }
func (n fNode) Value() interface{}               { return n().id }
func (n fNode) Left() types.BinaryTreeNode       { return wrapF(n().l) }
func (n fNode) Right() types.BinaryTreeNode      { return wrapF(n().r) }
func (n fNode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n fNode) ChildCount() int                  { return types.DoChildCount(n) }
func (n fNode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

// kNode has any number of children.
type kNode struct {
	id     int
	kids   []*kNode
	unsure bool // cannot tell how many children it has
}

func (n *kNode) Key() types.Hashable           { return types.Int(n.id) }
func (n *kNode) Value() interface{}            { return n.id }
func (n *kNode) GetChild(i int) types.TreeNode { return n.kids[i] }
func (n *kNode) ChildCount() int {
	if n.unsure {
		return -1
	}
	return len(n.kids)
}
func (n *kNode) Children() types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(n.kids) {
			return nil, nil
		}
		i++
		return n.kids[i-1], it
	}
	return it
}

// uNode is an n-ary node that is not a pointer.
type uNode struct {
	id   int
	kids []*kNode
}

func toU(n *kNode) uNode                      { return uNode{n.id, n.kids} }
func (n uNode) Key() types.Hashable           { return types.Int(n.id) }
func (n uNode) Value() interface{}            { return n.id }
func (n uNode) GetChild(i int) types.TreeNode { return toU(n.kids[i]) }
func (n uNode) ChildCount() int               { return len(n.kids) }
func (n uNode) Children() types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(n.kids) {
			return nil, nil
		}
		i++
		return toU(n.kids[i-1]), it
	}
	return it
}

// drainNodes drains a node iterator that must yield these ids.
func drainNodes(m *Mon, what string, it types.TreeNodeIterator, want []int) {
	m.Check(it != nil, "%s is a nil iterator", what)
	i := 0
	for n, next := it(); next != nil; n, next = next() {
		m.Check(i < len(want), "%s visits more than %d nodes", what, len(want))
		m.Check(n != nil && n.Value() == want[i], "%s visits %v at position %d, expected node %d", what, n, i, want[i])
		i++
	}
	m.Check(i == len(want), "%s visits %d nodes, expected %d", what, i, len(want))
	m.ops += int64(i)
}

// binTree makes a binary tree with n nodes numbered from *next.
func binTree(r *Rng, n, shape int, next *int) *pNode {
	if n == 0 {
		return nil
	}
	x := &pNode{id: *next}
	*next++
	left := 0
	switch shape {
	case 0:
		left = 0
	case 1:
		left = n - 1
	case 2:
		left = (n - 1) / 2
	case 3: // zigzag
		left = (n % 2) * (n - 1)
	default:
		left = r.N(n)
	}
	x.l = binTree(r, left, shape, next)
	x.r = binTree(r, n-1-left, shape, next)
	return x
}

// binByNumber is binary tree shape number j with n nodes (Catalan many).
func catalan(n int) int {
	c := 1
	for i := 0; i < n; i++ {
		c = c * 2 * (2*i + 1) / (i + 2)
	}
	return c
}

func binByNumber(j, n int, next *int) *pNode {
	if n == 0 {
		return nil
	}
	x := &pNode{id: *next}
	*next++
	for left := 0; left < n; left++ {
		cnt := catalan(left) * catalan(n-1-left)
		if j < cnt {
			x.l = binByNumber(j%catalan(left), left, next)
			x.r = binByNumber(j/catalan(left), n-1-left, next)
			return x
		}
		j -= cnt
	}
	panic("shape number")
}

func orders(x *pNode, in, pre, post *[]int) {
	if x == nil {
		return
	}
	*pre = append(*pre, x.id)
	orders(x.l, in, pre, post)
	*in = append(*in, x.id)
	orders(x.r, in, pre, post)
	*post = append(*post, x.id)
}

func kTree(r *Rng, n, fan int, unsure bool, next *int) *kNode {
	x := &kNode{id: *next, unsure: unsure}
	*next++
	n--
	for n > 0 && (fan > 1 || len(x.kids) == 0) {
		s := r.In(1, n)
		if fan > n {
			s = 1
		}
		if len(x.kids) == fan-1 {
			s = n
		}
		x.kids = append(x.kids, kTree(r, s, fan, unsure, next))
		n -= s
	}
	if fan == 1 && n > 0 && len(x.kids) == 0 {
		x.kids = append(x.kids, kTree(r, n, fan, unsure, next))
	}
	return x
}

func kOrders(x *kNode, pre, post *[]int) {
	if x == nil {
		return
	}
	*pre = append(*pre, x.id)
	for _, k := range x.kids {
		kOrders(k, pre, post)
	}
	*post = append(*post, x.id)
}

type kvList []int

// Iterate makes kvList a source for the key, value and item adapters.
func (l kvList) Iterate() types.KVIterator {
	i := 0
	var it types.KVIterator
	it = func() (types.Hashable, interface{}, types.KVIterator) {
		if i >= len(l) {
			return nil, nil, nil
		}
		i++
		return types.Int(l[i-1]), -l[i-1], it
	}
	return it
}

func nodesIter(ids []int) types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(ids) {
			return nil, nil
		}
		i++
		return &kNode{id: ids[i-1]}, it
	}
	return it
}

func checkAdapters(m *Mon, ids []int) {
	i := 0
	for k, v, next := types.MakeKVIteratorFromTreeNodeIterator(nodesIter(ids))(); next != nil; k, v, next = next() {
		m.Check(i < len(ids) && k == types.Hashable(types.Int(ids[i])) && v == ids[i], "the pairs of nodes %v: %v=%v at position %d", ids, k, v, i)
		i++
	}
	m.Check(i == len(ids), "the pairs of nodes %v: only %d", ids, i)
	i = 0
	for k, next := types.MakeKeysIterator(kvList(ids))(); next != nil; k, next = next() {
		m.Check(i < len(ids) && k == types.Hashable(types.Int(ids[i])), "the keys of %v: %v at position %d", ids, k, i)
		i++
	}
	m.Check(i == len(ids), "the keys of %v: only %d", ids, i)
	i = 0
	for v, next := types.MakeValuesIterator(kvList(ids))(); next != nil; v, next = next() {
		m.Check(i < len(ids) && v == -ids[i], "the values of %v: %v at position %d", ids, v, i)
		i++
	}
	m.Check(i == len(ids), "the values of %v: only %d", ids, i)
	i = 0
	var kept []types.Hashable
	for x, next := types.MakeItemsIterator(kvList(ids))(); next != nil; x, next = next() {
		kept = append(kept, x)
		i++
	}
	m.Check(i == len(ids), "the items of %v: only %d", ids, i)
	for i, x := range kept { // items stay valid after the iteration moves on
		me, ok := x.(*types.MapEntry)
		m.Check(ok && me.Key == types.Hashable(types.Int(ids[i])) && me.Value == -ids[i], "the items of %v: %v at position %d", ids, x, i)
	}
}

func runTraversal(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 71)
	next := 1
	n := c.p("n")
	switch c.Kind {
	case "shape", "binary":
		var root *pNode
		if c.Kind == "shape" {
			root = binByNumber(c.p("j"), n, &next)
			m.Obs(uint64(c.p("j")))
		} else {
			root = binTree(r, n, c.p("shape"), &next)
			m.Obs(uint64(c.p("us")))
		}
		var in, pre, post []int
		orders(root, &in, &pre, &post)
		views := map[string]types.BinaryTreeNode{"pointer nodes with typed nil children": root, "pointer nodes": wrapQ(root), "value nodes": wrapV(root), "slice nodes": wrapS(root), "function nodes": wrapF(root)}
		for name, v := range views {
			drainNodes(m, "in-order traversal of "+name, tree.TraverseBinaryTreeInOrder(v), in)
			var tn types.TreeNode
			if v != nil {
				tn = v
			}
			drainNodes(m, "pre-order traversal of "+name, tree.TraverseTreePreOrder(tn), pre)
			drainNodes(m, "post-order traversal of "+name, tree.TraverseTreePostOrder(tn), post)
			m.Feat(name)
			if root == nil {
				m.Feat("empty tree")
				continue
			}
			// children of the root
			var kids []int
			if root.l != nil {
				kids = append(kids, root.l.id)
			}
			if root.r != nil {
				kids = append(kids, root.r.id)
			}
			drainNodes(m, "the children of "+name, types.MakeChildrenIterator(v), kids)
			m.Check(types.DoChildCount(v) == len(kids), "the child count of %s is %d, expected %d", name, types.DoChildCount(v), len(kids))
			for i, k := range kids {
				m.Check(types.DoGetChild(v, i).Value() == k, "child %d of %s is %v, expected %d", i, name, types.DoGetChild(v, i).Value(), k)
			}
		}
		checkAdapters(m, in)
	case "nary":
		var root *kNode
		if n > 0 {
			root = kTree(r, n, c.p("fan"), c.p("unsure") == 1, &next)
		}
		var pre, post []int
		kOrders(root, &pre, &post)
		m.Check(len(pre) == n, "the harness made a tree of %d nodes instead of %d", len(pre), n)
		drainNodes(m, "pre-order traversal of an n-ary tree", tree.TraverseTreePreOrder(root), pre)
		if c.p("unsure") == 0 {
			drainNodes(m, "post-order traversal of an n-ary tree", tree.TraverseTreePostOrder(root), post)
			if root != nil {
				drainNodes(m, "pre-order traversal of an n-ary tree of values", tree.TraverseTreePreOrder(toU(root)), pre)
				drainNodes(m, "post-order traversal of an n-ary tree of values", tree.TraverseTreePostOrder(toU(root)), post)
			}
		}
		m.Obs(uint64(c.p("us")))
		m.Feat("n-ary tree")
	case "chain":
		var its []types.TreeNodeIterator
		var want []int
		for _, op := range c.Ops {
			var ids []int
			for i := 0; i < op.a(0); i++ {
				ids = append(ids, next)
				next++
			}
			its = append(its, nodesIter(ids))
			want = append(want, ids...)
			m.Obs(uint64(op.a(0)))
			if len(ids) == 0 {
				m.Feat("empty iterator in a chain")
			}
		}
		if len(its) == 0 {
			return
		}
		drainNodes(m, fmt.Sprintf("a chain of %d iterators", len(its)), types.ChainTreeNodeIterators(its...), want)
		checkAdapters(m, want)
	case "library": // trees of the library itself
		mr := &mapRun{m: m, c: c, u: newUniverse(ktInstr, 0, maxi(1, n), 0), model: map[int]int{}}
		mr.s = makeMap([]string{"avl", "immavl"}[c.p("j")%2], c)
		for i := 0; i < n; i++ {
			mr.do(put(r.N(n)))
		}
		root, _ := mr.s.root().(types.BinaryTreeNode)
		var in, pre, post []int
		var walk func(x types.BinaryTreeNode)
		walk = func(x types.BinaryTreeNode) {
			if types.IsNil(x) {
				return
			}
			k := x.Value().(int)
			pre = append(pre, k)
			walk(x.Left())
			in = append(in, k)
			walk(x.Right())
			post = append(post, k)
		}
		walk(root)
		drainNodes(m, "in-order traversal of an AVL tree", tree.TraverseBinaryTreeInOrder(root), in)
		drainNodes(m, "pre-order traversal of an AVL tree", tree.TraverseTreePreOrder(root), pre)
		drainNodes(m, "post-order traversal of an AVL tree", tree.TraverseTreePostOrder(root), post)
		m.Check(len(in) == len(mr.model), "the AVL tree has %d nodes, expected %d", len(in), len(mr.model))
		m.Obs(uint64(c.p("us")))
		m.Feat("AVL tree")
	}
	m.audits++
	if next > 2 || c.Kind == "library" {
		m.Nontrivial()
	}
}

func init() {
	shapes := [][2]int{} // n, number of the shape
	for n := 0; n <= 7; n++ {
		for j := 0; j < catalan(n); j++ {
			shapes = append(shapes, [2]int{n, j})
		}
	}
	register(&Property{
		ID:   "C23",
		Rule: "Traversals of all 626 binary tree shapes of up to 7 nodes and of random, degenerate and n-ary trees, as pointer nodes with typed and untyped nil children, as value nodes, and as slices and functions that may be nil, compared with a recursive reference; all chains of up to 5 node iterators of 0 to 2 nodes and longer random ones; the key, value, item and child adapters on the same sequences. Non-trivial: at least two nodes.",
		Families: []Family{
			{
				Name: "shapes",
				N:    func(t bool) int { return len(shapes) },
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "shape", P: map[string]int{"n": shapes[j][0], "j": shapes[j][1]}}
				},
			},
			{
				Name: "binary",
				N:    constN(8000, 80000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "binary", P: map[string]int{"n": r.Pick(0, 1, 2, 9, 10, 11, 12, 25, 60, 300, 2000), "shape": r.N(6), "us": r.N(1 << 30)}}
				},
			},
			{
				Name: "nary",
				N:    constN(8000, 80000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "nary", P: map[string]int{"n": r.Pick(0, 1, 2, 5, 11, 30, 100, 1500), "fan": r.Pick(1, 2, 3, 5, 40, 300), "unsure": r.N(3) / 2, "us": r.N(1 << 30)}}
				},
			},
			{
				Name: "chains", // all chains of 1 to 5 iterators of 0 to 2 nodes
				N:    func(t bool) int { return 3 + 9 + 27 + 81 + 243 },
				Gen: func(r *Rng, j int, t bool) *Case {
					l := 1
					for j >= ipow(3, l) {
						j -= ipow(3, l)
						l++
					}
					c := &Case{Kind: "chain"}
					for ; l > 0; l-- {
						c.Ops = append(c.Ops, Op{F: "part", A: []int{j % 3}})
						j /= 3
					}
					return c
				},
			},
			{
				Name: "long chains",
				N:    constN(3000, 30000),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := &Case{Kind: "chain"}
					for i := r.Pick(r.In(5, 60), r.In(5, 60), 2000); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: "part", A: []int{r.Pick(0, 0, 0, 1, 2, 7)}})
					}
					return c
				},
			},
			{
				Name: "library",
				N:    constN(1000, 10000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "library", P: map[string]int{"n": r.Pick(0, 1, 2, 10, 40, 400, 3000), "j": j, "us": r.N(1 << 30)}}
				},
			},
		},
		Run: runTraversal,
	})
}
