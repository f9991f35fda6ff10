package main

import (
	"math"

	"github.com/timtadh/data-structures/types"
)

type heighter interface{ Height() int }

// walkBST checks that the nodes from the root form a binary search tree over
// exactly the entries of the model.
func walkBST(m *Mon, r *mapRun) {
	if r.s.root == nil {
		return
	}
	root, ok := r.s.root().(types.BinaryTreeNode)
	m.Check(ok || r.s.root() == nil, "the root is a %T, not a binary tree node", r.s.root())
	n := 0
	prev := -1
	var walk func(x types.BinaryTreeNode, depth int)
	walk = func(x types.BinaryTreeNode, depth int) {
		if types.IsNil(x) {
			return
		}
		m.Check(depth <= len(r.model), "the tree is deeper than its number of entries: the nodes form a cycle")
		l, rt := x.Left(), x.Right()
		kids := 0
		if !types.IsNil(l) {
			kids++
		}
		if !types.IsNil(rt) {
			kids++
		}
		m.Check(l == nil || !types.IsNil(l), "a node without a left child returns a nil %T, not nil", l)
		m.Check(rt == nil || !types.IsNil(rt), "a node without a right child returns a nil %T, not nil", rt)
		m.Check(x.ChildCount() == kids, "a node reports %d children but has %d", x.ChildCount(), kids)
		checkChildren(m, x, l, rt)
		walk(l, depth+1)
		k := r.u.index(x.Key())
		tok, present := r.model[k]
		m.Check(k >= 0 && present, "the tree has a node with key %v which is not present", x.Key())
		m.Check(sameValue(r.vk, tok, x.Value()), "the node of key %d has value %v, expected token %d", k, x.Value(), tok)
		m.Check(k > prev, "the node of key %d comes after that of key %d in order", k, prev)
		prev = k
		n++
		walk(rt, depth+1)
	}
	walk(root, 1)
	m.Check(n == len(r.model), "the tree has %d nodes, expected %d", n, len(r.model))
}

// checkChildren compares the children of a node by number and as an iterator
// with its left and right child.
func checkChildren(m *Mon, x, l, rt types.BinaryTreeNode) {
	i := 0
	next := x.Children()
	for _, want := range []types.BinaryTreeNode{l, rt} {
		if types.IsNil(want) {
			continue
		}
		kid, ok := x.GetChild(i).(types.BinaryTreeNode)
		m.Check(ok && !types.IsNil(kid) && kid.Key().Equals(want.Key()), "child %d of the node of key %v is not its child of key %v", i, x.Key(), want.Key())
		m.Check(next != nil, "the children of the node of key %v end after %d", x.Key(), i)
		var tn types.TreeNode
		tn, next = next()
		m.Check(!types.IsNil(tn) && tn.Key().Equals(want.Key()), "the children of the node of key %v do not yield the child of key %v", x.Key(), want.Key())
		i++
	}
	if next != nil {
		var tn types.TreeNode
		tn, next = next()
		m.Check(next == nil, "the children of the node of key %v go on with %v", x.Key(), tn)
	}
}

// checkBalance walks a tree and returns its height.
func checkBalance(m *Mon, x types.BinaryTreeNode, depth, limit int) int {
	if types.IsNil(x) {
		return 0
	}
	m.Check(depth <= limit, "the tree is deeper than its number of entries")
	a := checkBalance(m, x.Left(), depth+1, limit)
	b := checkBalance(m, x.Right(), depth+1, limit)
	d := a - b
	m.Check(d >= -1 && d <= 1, "at the node of key %v the subtrees have heights %d and %d", x.Key(), a, b)
	h := maxi(a, b) + 1
	if hr, ok := x.(heighter); ok {
		m.Check(hr.Height() == h, "the node of key %v reports height %d but has height %d", x.Key(), hr.Height(), h)
	}
	return h
}

func runBalance(c *Case, m *Mon) {
	u := newUniverse(c.p("kt"), c.p("hm"), c.p("n"), c.p("us"))
	s := makeMap(c.Kind, c)
	every := 1
	if c.p("n") > 300 {
		every = c.p("n") / 12
	}
	in := map[int]bool{}
	removed := false
	check := func() {
		root, _ := s.root().(types.BinaryTreeNode)
		h := checkBalance(m, root, 1, len(in))
		m.audits++
		n := float64(len(in))
		m.Check(float64(h) <= 1.4405*math.Log2(n+2), "a tree of %d keys has height %d", len(in), h)
		m.Check(len(in) == 0 || h > 0, "a tree of %d keys has no root", len(in))
		if removed && h >= 3 {
			m.Nontrivial()
		}
		m.Obs(uint64(h))
	}
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		k := op.a(0) % u.n
		if u.cnt != nil {
			u.cnt.begin(100000)
		}
		switch op.F {
		case "put":
			s.put(u.key(k), i)
			in[k] = true
		case "rem":
			if !in[k] && i%4 != 0 {
				continue
			}
			s.remove(u.key(k))
			if in[k] {
				removed = true
			}
			delete(in, k)
		case "top": // remove a node of the first levels
			x, _ := s.root().(types.BinaryTreeNode)
			if types.IsNil(x) {
				continue
			}
			for d := 0; d < op.a(1); d++ {
				kid := x.Left()
				if op.a(0)>>uint(d)&1 == 1 {
					kid = x.Right()
				}
				if types.IsNil(kid) {
					break
				}
				x = kid
			}
			k = u.index(x.Key())
			s.remove(u.key(k))
			removed = true
			delete(in, k)
		case "get":
			s.has(u.key(k))
		default:
			s.has(u.key(k))
		}
		m.Obs(uint64(k)<<8 ^ uint64(op.F[0]))
		if i%every == 0 || op.F == "top" {
			check()
		}
	}
	m.step = len(c.Ops)
	check()
}
