package main

import (
	"fmt"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
)

// C40: hashes depend on every part of a value.

// checkGroup hashes different values; at most some of them may share their
// hash with another one.
func checkGroup(m *Mon, what string, most int, vs []types.Hashable) {
	seen := map[int]int{}
	same := 0
	for i, v := range vs {
		h := v.Hash()
		m.ops++
		if j, ok := seen[h]; ok {
			same++
			m.Check(same <= most, "%s: %d of %d different values share a hash with another one, the last %.60s and %.60s", what, same, i+1, fmt.Sprint(vs[j]), fmt.Sprint(v))
		}
		seen[h] = i
	}
	if same > 0 {
		m.Feat("an accidental collision")
	}
	if len(vs) > 16 {
		m.Nontrivial()
	}
	m.audits++
}

// widths of the integer types, by number
var intTypes = []struct {
	name string
	bits int
	mk   func(x uint64) types.Hashable
}{
	{"Int8", 8, func(x uint64) types.Hashable { return types.Int8(x) }},
	{"UInt8", 8, func(x uint64) types.Hashable { return types.UInt8(x) }},
	{"Int16", 16, func(x uint64) types.Hashable { return types.Int16(x) }},
	{"UInt16", 16, func(x uint64) types.Hashable { return types.UInt16(x) }},
	{"Int32", 32, func(x uint64) types.Hashable { return types.Int32(x) }},
	{"UInt32", 32, func(x uint64) types.Hashable { return types.UInt32(x) }},
	{"Int64", 64, func(x uint64) types.Hashable { return types.Int64(x) }},
	{"UInt64", 64, func(x uint64) types.Hashable { return types.UInt64(x) }},
	{"Int", 64, func(x uint64) types.Hashable { return types.Int(x) }},
	{"UInt", 64, func(x uint64) types.Hashable { return types.UInt(x) }},
}

func boxed(r *Rng, v types.Hashable) types.Hashable {
	switch r.N(8) {
	case 0:
		return &types.MapEntry{Key: v, Value: r.N(100)}
	case 1:
		return &linked.Node{Data: v}
	}
	return v
}

func runSpread(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 211)
	var vs []types.Hashable
	what := c.Kind
	switch c.Kind {
	case "ints":
		t := intTypes[c.p("t")]
		seen := map[uint64]bool{}
		add := func(x uint64) {
			if t.bits < 64 {
				x &= 1<<t.bits - 1
			}
			if !seen[x] {
				seen[x] = true
				vs = append(vs, t.mk(x))
			}
		}
		base := r.U64()
		switch r.N(4) {
		case 0: // one bit
			what = "one bit of " + t.name
			add(base)
			for i := 0; i < t.bits; i++ {
				add(base ^ 1<<i)
			}
		case 1: // steps of a power of two
			s := r.N(t.bits)
			what = fmt.Sprintf("%s in steps of 2^%d", t.name, s)
			for i := uint64(0); i < 200; i++ {
				add(base + i<<s)
			}
		case 2:
			what = "random " + t.name
			for i := 0; i < 200; i++ {
				add(r.U64())
			}
		case 3: // around zero and the ends
			what = "neighbours among " + t.name
			for i := uint64(0); i < 40; i++ {
				add(i)
				add(-i)
				add(1<<(t.bits-1) + i)
				add(1<<(t.bits-1) - i)
			}
		}
	case "bytes":
		n := c.p("n")
		base := make([]byte, n)
		for i := range base {
			base[i] = byte(r.U64())
		}
		str := r.P(1, 2)
		seen := map[string]bool{}
		add := func(b []byte) {
			if seen[string(b)] {
				return
			}
			seen[string(b)] = true
			if str {
				vs = append(vs, types.String(b))
			} else {
				vs = append(vs, append(types.ByteSlice{}, b...))
			}
		}
		switch r.N(5) {
		case 0:
			what = fmt.Sprintf("one byte of %d", n)
			for k := 0; k < 200 && n > 0; k++ {
				i := k % n
				if n > 200 {
					i = r.N(n)
					if k < 20 {
						i = n - 1 - k
					}
				}
				b := append([]byte{}, base...)
				b[i] += byte(1 + r.N(255))
				add(b)
			}
		case 1:
			what = fmt.Sprintf("beginnings of %d bytes", n)
			for k := 0; k < 200 && k <= n; k++ {
				add(base[:n-k])
			}
		case 2:
			what = fmt.Sprintf("ends of %d bytes", n)
			for k := 0; k < 200 && k <= n; k++ {
				add(base[k:])
			}
		case 3:
			what = fmt.Sprintf("two bytes of %d exchanged", n)
			add(base)
			for k := 0; k < 100 && n > 1; k++ {
				b := append([]byte{}, base...)
				i, j := r.N(n), r.N(n)
				b[i], b[j] = b[j], b[i]
				add(b)
			}
		case 4:
			what = "runs of one byte"
			for k := 0; k < 200; k++ {
				b := make([]byte, k)
				for i := range b {
					b[i] = byte(n)
				}
				add(b)
			}
		}
	case "containers":
		n, kind := c.p("n"), c.p("k")
		it := c.p("it")
		mk := func(k int) types.Hashable {
			switch it {
			case 0:
				return types.Int(k)
			case 1:
				return types.String(fmt.Sprintf("item %06d", k))
			case 2:
				return types.ByteSlice(fmt.Sprintf("%06d", k))
			}
			return types.UInt32(k)
		}
		what = fmt.Sprintf("containers of kind %d with %d items of kind %d", kind, n, it)
		seen := map[string]bool{}
		add := func(ids []int) {
			s := fmt.Sprint(ids)
			if seen[s] || !canHold(kind, ids) {
				return
			}
			seen[s] = true
			vs = append(vs, build(kind, ids, mk, r).(types.Hashable))
		}
		base := make([]int, n)
		for i := range base {
			base[i] = 100 + 10*i
		}
		if kind != ckSorted && kind != ckSortedSet {
			for i, j := range r.Perm(n) {
				base[i] = 100 + 10*j
			}
		}
		add(base)
		switch r.N(4) {
		case 0:
			what += ", one of them changed"
			for k := 0; k < 60 && n > 0; k++ {
				b := append([]int{}, base...)
				i := r.N(n)
				if k < 10 {
					i = (n - 1 - k + 10*n) % n
				}
				b[i] += 1 + r.N(9)
				add(b)
			}
		case 1:
			what += ", one of them removed"
			for k := 0; k < 60 && k < n; k++ {
				b := append([]int{}, base[:k]...)
				add(append(b, base[k+1:]...))
			}
		case 2:
			what += ", cut off"
			for k := 0; k < 60 && k <= n; k++ {
				add(base[:n-k])
				add(base[k:])
			}
		case 3:
			what += ", exchanged"
			for k := 0; k < 40 && n > 1; k++ {
				b := append([]int{}, base...)
				i, j := r.N(n), r.N(n)
				b[i], b[j] = b[j], b[i]
				add(b)
			}
		}
	}
	if c.Kind != "containers" {
		w := r.N(3) == 0
		for i := range vs {
			if w {
				vs[i] = boxed(r, vs[i])
			}
		}
	}
	most := 1 + len(vs)/16
	if c.Kind == "ints" {
		most = 1 + 3*len(vs)/4 // folding halves may join x and its complement
	}
	checkGroup(m, what, most, vs)
	m.Feat(c.Kind)
	m.Obs(uint64(c.p("us")))
}

func init() {
	register(&Property{
		ID:   "C40",
		Rule: "Groups of up to 200 different values of every built-in type and container kind that differ only in one bit, one byte, one item, the order of two parts, the length at either end or by steps of a power of two, of up to 5000 bytes or 300 items: at most one in 16 (for integers three in four) may share its hash with another. Non-trivial: groups of more than 16.",
		Families: []Family{
			{Name: "ints", N: constN(2000, 20000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "ints", P: map[string]int{"t": j % len(intTypes), "us": r.N(1 << 30)}}
			}},
			{Name: "bytes", N: constN(3000, 20000), Gen: func(r *Rng, j int, t bool) *Case {
				n := 1 + r.N(40)
				switch r.N(4) {
				case 0:
					n = 1 + r.N(300)
				case 1:
					n = 1 + r.N(5000)
				}
				return &Case{Kind: "bytes", P: map[string]int{"n": n, "us": r.N(1 << 30)}}
			}},
			{Name: "containers", N: constN(3000, 20000), Gen: func(r *Rng, j int, t bool) *Case {
				n := 1 + r.N(30)
				if r.P(1, 4) {
					n = 1 + r.N(300)
				}
				return &Case{Kind: "containers", P: map[string]int{"n": n, "k": j % 6, "it": r.N(4), "us": r.N(1 << 30)}}
			}},
		},
		Run: runSpread,
	})
}
