package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/timtadh/data-structures/types"
)

// Counter counts the calls the library makes on instrumented keys.
type Counter struct {
	eq, less, hash int64
	limit          int64 // for the sum, reset before each operation
	n              int64
}

func (c *Counter) step() {
	if c == nil {
		return
	}
	c.n++
	if c.limit > 0 && c.n > c.limit {
		panic(&Violation{Text: fmt.Sprintf("no termination: one operation made more than %d key comparisons", c.limit)})
	}
}

// begin starts a new operation with a step limit.
func (c *Counter) begin(limit int64) {
	if c != nil {
		c.n = 0
		c.limit = limit
	}
}

// IKey is an instrumented key. Equality is by id, order by id, the hash is
// chosen freely. Distinct IKey values with the same id are equal, so the
// library cannot get away with comparing pointers.
type IKey struct {
	id int
	h  int
	c  *Counter
}

func (k *IKey) Equals(o types.Equatable) bool {
	if k.c != nil {
		k.c.eq++
		k.c.step()
	}
	if x, ok := o.(*IKey); ok && x != nil {
		return k.id == x.id
	}
	noteForeign("Equals", o)
	return false
}

func (k *IKey) Less(o types.Sortable) bool {
	if k.c != nil {
		k.c.less++
		k.c.step()
	}
	if x, ok := o.(*IKey); ok && x != nil {
		return k.id < x.id
	}
	noteForeign("Less", o)
	return false
}

func (k *IKey) Hash() int {
	if k.c != nil {
		k.c.hash++
		k.c.step()
	}
	return k.h
}

func (k *IKey) String() string { return fmt.Sprintf("k%d", k.id) }

// hash modes of instrumented keys
const nHashModes = 14

func hashOf(mode, id int) int {
	u := int(mix64(uint64(id) * 77))
	switch mode {
	case 0: // well spread, half of them negative
		return u
	case 1:
		return 0
	case 2:
		return -1
	case 3:
		return math.MinInt64
	case 4:
		return id % 3
	case 5:
		return id
	case 6:
		return -id
	case 7:
		return math.MinInt64 + id
	case 8: // equal low halves
		return id << 32
	case 9:
		return id * 64
	case 10:
		return math.MaxInt64 - id
	case 11: // like the 32 bit hashes of strings
		return int(uint32(u))
	case 12: // extremes next to each other
		return []int{math.MinInt64, math.MaxInt64, -1, 0, 1, math.MinInt32, math.MaxInt32, math.MaxUint32}[id&7]
	default: // same bucket in a table of 32, different in one of 64, ...
		return 7 + (id&15)*32
	}
}

// Universe is an ordered set of distinct keys. key(i) makes a new key equal to
// earlier results for the same i; i < j implies key(i) < key(j).
type Universe struct {
	n     int
	cnt   *Counter
	fresh func(i int) types.Hashable
	back  map[string]int // printed key -> index, for keys that are not IKeys
	kt    int
}

const (
	ktInstr = iota
	ktInt
	ktString
	ktBytes
	ktInt8
	ktUInt8
	ktInt16
	ktUInt16
	ktInt32
	ktUInt32
	ktInt64
	ktUInt64
	ktUInt
	nKeyTypes
	ktTST = 100 // valid keys of a trie
)

func (u *Universe) key(i int) types.Hashable { return u.fresh(i) }

// index returns the position of a key handed out by the library, or -1.
func (u *Universe) index(k interface{}) int {
	if ik, ok := k.(*IKey); ok {
		if u.kt != ktInstr || ik == nil {
			return -1
		}
		return ik.id
	}
	if k == nil || u.kt == ktInstr {
		return -1
	}
	if i, ok := u.back[keyName(k)]; ok {
		return i
	}
	return -1
}

func keyName(k interface{}) string {
	switch x := k.(type) {
	case types.String:
		return "s" + string(x)
	case types.ByteSlice:
		return "b" + string(x)
	}
	return fmt.Sprintf("%T%v", k, k)
}

func newUniverse(kt, hm, n int, seed int) *Universe {
	u := &Universe{n: n, kt: kt}
	r := newRng(uint64(seed), 99)
	if kt == ktInstr {
		u.cnt = &Counter{}
		u.fresh = func(i int) types.Hashable { return &IKey{id: i, h: hashOf(hm, i), c: u.cnt} }
		return u
	}
	var keys []types.Hashable
	var mk func(i int) types.Hashable
	switch kt {
	case ktTST:
		strs := trieKeys(r, n)
		mk = func(i int) types.Hashable { return append(types.ByteSlice{}, strs[i]...) }
	case ktString, ktBytes:
		set := map[string]bool{}
		add := func(s string) {
			if len(set) < n {
				set[s] = true
			}
		}
		add("")
		add("a")
		add("\x00")
		add("\xff")
		add("a\x00")
		if cs := colliding(kt == ktBytes); len(cs) > 0 && r.P(1, 2) {
			for i := r.In(1, 4); i > 0; i-- {
				p := cs[r.N(len(cs))]
				add(p[0])
				add(p[1])
			}
		}
		for len(set) < n {
			l := r.Pick(0, 1, 1, 2, 2, 3, 4, 8, 20)
			b := make([]byte, l)
			for i := range b {
				if r.P(1, 2) {
					b[i] = byte(r.Pick(0, 'a', 'b', 0xff))
				} else {
					b[i] = byte(r.N(256))
				}
			}
			add(string(b))
		}
		pad := ""
		if n <= 60 && r.P(1, 8) { // a long common prefix
			pad = strings.Repeat("x", r.Pick(31, 64, 255, 256, 300, 1030, 5000))
		}
		strs := make([]string, 0, n)
		for s := range set {
			strs = append(strs, pad+s)
		}
		sort.Strings(strs)
		mk = func(i int) types.Hashable {
			if kt == ktString {
				return types.String(strs[i])
			}
			return append(types.ByteSlice{}, strs[i]...)
		}
	default:
		lo, hi, wrap := intRange(kt)
		set := map[uint64]bool{}
		// Values are kept as offsets from lo, as an unsigned number.
		span := uint64(hi) - uint64(lo)
		if kt == ktUInt64 || kt == ktUInt {
			span = math.MaxUint64
		}
		for _, x := range []uint64{0, span, span / 2, span/2 + 1, 1, span - 1} {
			if len(set) < n {
				set[x] = true
			}
		}
		if span != math.MaxUint64 && uint64(n) > span+1 {
			panic("universe too large for the key type")
		}
		small := r.P(1, 2)
		for len(set) < n {
			x := r.U64()
			if small {
				x = span/2 + x%uint64(4*n)
			}
			if span != math.MaxUint64 {
				x %= span + 1
			}
			set[x] = true
		}
		offs := make([]uint64, 0, n)
		for x := range set {
			offs = append(offs, x)
		}
		sort.Slice(offs, func(i, j int) bool { return offs[i] < offs[j] })
		mk = func(i int) types.Hashable { return wrap(uint64(lo) + offs[i]) }
	}
	keys = make([]types.Hashable, n)
	u.back = map[string]int{}
	for i := range keys {
		keys[i] = mk(i)
		u.back[keyName(keys[i])] = i
	}
	u.fresh = mk
	return u
}

func intRange(kt int) (lo, hi int64, wrap func(uint64) types.Hashable) {
	switch kt {
	case ktInt:
		return math.MinInt64, math.MaxInt64, func(x uint64) types.Hashable { return types.Int(x) }
	case ktInt8:
		return math.MinInt8, math.MaxInt8, func(x uint64) types.Hashable { return types.Int8(x) }
	case ktUInt8:
		return 0, math.MaxUint8, func(x uint64) types.Hashable { return types.UInt8(x) }
	case ktInt16:
		return math.MinInt16, math.MaxInt16, func(x uint64) types.Hashable { return types.Int16(x) }
	case ktUInt16:
		return 0, math.MaxUint16, func(x uint64) types.Hashable { return types.UInt16(x) }
	case ktInt32:
		return math.MinInt32, math.MaxInt32, func(x uint64) types.Hashable { return types.Int32(x) }
	case ktUInt32:
		return 0, math.MaxUint32, func(x uint64) types.Hashable { return types.UInt32(x) }
	case ktInt64:
		return math.MinInt64, math.MaxInt64, func(x uint64) types.Hashable { return types.Int64(x) }
	case ktUInt64:
		return 0, 0, func(x uint64) types.Hashable { return types.UInt64(x) }
	case ktUInt:
		return 0, 0, func(x uint64) types.Hashable { return types.UInt(x) }
	}
	panic("not an integer key type")
}

// maxKeys is how many keys a universe of the type can have.
func maxKeys(kt int) int {
	switch kt {
	case ktInt8, ktUInt8:
		return 256
	case ktInt16, ktUInt16:
		return 65536
	}
	return 1 << 30
}

// ---- colliding strings ----

var collOnce sync.Once
var collStr, collBytes [][2]string

// colliding returns pairs of different strings of the same length whose hashes
// as types.String (or types.ByteSlice) are equal, as far as a search over a
// fixed list finds any.
func colliding(asBytes bool) [][2]string {
	collOnce.Do(func() {
		a, b := map[int]int{}, map[int]int{}
		name := func(i int) string { return fmt.Sprintf("%07x", i*2654435) }
		for i := 0; i < 200000; i++ {
			s := name(i)
			h := types.String(s).Hash()
			if j, ok := a[h]; ok {
				collStr = append(collStr, [2]string{name(j), s})
			}
			a[h] = i
			h = types.ByteSlice(s).Hash()
			if j, ok := b[h]; ok {
				collBytes = append(collBytes, [2]string{name(j), s})
			}
			b[h] = i
		}
	})
	if asBytes {
		return collBytes
	}
	return collStr
}

// ---- values ----

// value makes a recognisable value for a token. Values of kind 2 cannot be
// compared with ==, values of kind 3 are nil for every third token.
func value(kind, token int) interface{} {
	switch kind {
	case 1:
		t := token
		return &t
	case 2:
		return []int{token}
	case 3:
		if token%3 == 0 {
			return nil
		}
		return token
	}
	return token
}

func sameValue(kind, token int, v interface{}) bool {
	switch kind {
	case 1:
		p, ok := v.(*int)
		return ok && *p == token
	case 2:
		s, ok := v.([]int)
		return ok && len(s) == 1 && s[0] == token
	case 3:
		if token%3 == 0 {
			return v == nil
		}
	}
	x, ok := v.(int)
	return ok && x == token
}

func tokenOf(v interface{}) int {
	switch x := v.(type) {
	case *int:
		if x != nil {
			return *x
		}
	case []int:
		if len(x) == 1 {
			return x[0]
		}
	case int:
		return x
	}
	return -1
}

// trieKeys makes n distinct valid keys of a trie, most of them sharing
// prefixes, in ascending order.
func trieKeys(r *Rng, n int) []string {
	set := map[string]bool{}
	var list []string
	alpha := [][]int{{'a', 'b'}, {'a', 'b', 'c', 'd'}, {1, 0xff}, {0x7f, 0x80, 1, 0xff}, nil}[r.N(5)]
	maxLen := r.Pick(3, 5, 9)
	for len(list) < n {
		var b []byte
		if len(list) > 0 && r.P(2, 3) { // extend, shorten or change another key
			b = append(b, list[r.N(len(list))]...)
			switch r.N(3) {
			case 0:
				b = b[:r.N(len(b)+1)]
			case 1:
				b = b[:r.N(len(b)+1)]
				fallthrough
			default:
				if len(b) > 40 {
					b = b[:3]
				}
			}
		}
		for i := r.N(maxLen); i >= 0; i-- {
			if alpha == nil || r.P(1, 30) {
				b = append(b, byte(r.In(1, 255)))
			} else {
				b = append(b, byte(alpha[r.N(len(alpha))]))
			}
			if r.P(1, 2) {
				break
			}
		}
		if len(b) > 0 && !set[string(b)] {
			set[string(b)] = true
			list = append(list, string(b))
		}
	}
	if n <= 60 && r.P(1, 6) { // long keys
		l := r.Pick(30, 63, 64, 127, 128, 254, 255, 256, 257, 300, 1000, 2050, 5000)
		pad := make([]byte, l)
		for i := range pad {
			pad[i] = byte(r.In(1, 255))
			if r.P(1, 2) {
				pad[i] = 'a'
			}
		}
		how := r.N(4)
		set = map[string]bool{}
		long := make([]string, n)
		for i, k := range list {
			x := k
			switch {
			case how == 0:
				x = string(pad) + k
			case how == 1:
				x = k + string(pad)
			case how == 2 && i%2 == 0:
				x = string(pad) + k
			case how == 3:
				x = k + string(pad[:i%l])
			}
			set[x] = true
			long[i] = x
		}
		if len(set) == n {
			list = long
		}
	}
	sort.Strings(list)
	return list
}
