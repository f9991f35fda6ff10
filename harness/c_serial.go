package main

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

// C15, C16: serialization.

// mItem is an item type of the harness with an encoding of varying length.
type mItem struct {
	v    uint32
	text string
}

func (x *mItem) Equals(o types.Equatable) bool {
	y, ok := o.(*mItem)
	return ok && *x == *y
}
func (x *mItem) Less(o types.Sortable) bool {
	y, ok := o.(*mItem)
	return ok && (x.v < y.v || x.v == y.v && x.text < y.text)
}
func (x *mItem) Hash() int { return int(x.v) }
func (x *mItem) MarshalBinary() ([]byte, error) {
	b := make([]byte, 4, 4+len(x.text))
	binary.BigEndian.PutUint32(b, x.v)
	return append(b, x.text...), nil
}
func (x *mItem) UnmarshalBinary(b []byte) error {
	if len(b) < 4 {
		return fmt.Errorf("too short")
	}
	x.v, x.text = binary.BigEndian.Uint32(b), string(b[4:])
	return nil
}

const (
	ktCustom   = nKeyTypes
	nItemTypes = nKeyTypes // ktInt..ktUInt and ktCustom
)

// itemType returns the codecs of item type it (0..nItemTypes-1) and a function
// that makes items.
func itemType(it int) (types.ItemMarshal, types.ItemUnmarshal, func(r *Rng) types.Hashable, string) {
	edge := func(r *Rng) uint64 {
		switch r.N(4) {
		case 0:
			return []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 31, 1<<31 - 1, 1 << 32, 1<<32 - 1, 127, 128, 255, 256, 32767, 32768, 65535}[r.N(16)]
		case 1:
			return uint64(r.N(300))
		case 2:
			return -uint64(r.N(300))
		}
		return r.U64() >> uint(r.N(64))
	}
	str := func(r *Rng) []byte {
		b := make([]byte, r.Pick(0, 1, 1, 2, 3, 4, 8, 30, 300))
		for i := range b {
			b[i] = byte(r.Pick(0, 1, 'a', 'b', 0xff, r.N(256)))
		}
		return b
	}
	kt := it + 1
	switch kt {
	case ktInt:
		m, u := types.IntMarshals()
		return m, u, func(r *Rng) types.Hashable { return types.Int(edge(r)) }, "Int"
	case ktString:
		m, u := types.StringMarshals()
		return m, u, func(r *Rng) types.Hashable { return types.String(str(r)) }, "String"
	case ktBytes:
		m, u := types.ByteSliceMarshals()
		return m, u, func(r *Rng) types.Hashable { return types.ByteSlice(str(r)) }, "ByteSlice"
	case ktInt8:
		m, u := types.Int8Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.Int8(edge(r)) }, "Int8"
	case ktUInt8:
		m, u := types.UInt8Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.UInt8(edge(r)) }, "UInt8"
	case ktInt16:
		m, u := types.Int16Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.Int16(edge(r)) }, "Int16"
	case ktUInt16:
		m, u := types.UInt16Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.UInt16(edge(r)) }, "UInt16"
	case ktInt32:
		m, u := types.Int32Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.Int32(edge(r)) }, "Int32"
	case ktUInt32:
		m, u := types.UInt32Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.UInt32(edge(r)) }, "UInt32"
	case ktInt64:
		m, u := types.Int64Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.Int64(edge(r)) }, "Int64"
	case ktUInt64:
		m, u := types.UInt64Marshals()
		return m, u, func(r *Rng) types.Hashable { return types.UInt64(edge(r)) }, "UInt64"
	case ktUInt:
		m, u := types.UIntMarshals()
		return m, u, func(r *Rng) types.Hashable { return types.UInt(edge(r)) }, "UInt"
	default:
		m, u := types.MakeMarshals(func() types.MHashable { return &mItem{} })
		return m, u, func(r *Rng) types.Hashable { return &mItem{uint32(r.N(5)), string(str(r))} }, "custom"
	}
}

// same compares decoded and original items, with the type.
func same(a, b types.Hashable) bool {
	switch x := a.(type) {
	case types.ByteSlice:
		y, ok := b.(types.ByteSlice)
		return ok && bytes.Equal(x, y)
	case *mItem:
		y, ok := b.(*mItem)
		return ok && *x == *y
	}
	return a == b
}

// coll is one of the encodable collections.
type coll struct {
	kind  string
	ml    *list.MList
	ms    *list.MSorted
	mss   *set.MSortedSet
	cap   int // -1 if not fixed
	dups  bool
	items []types.Hashable
}

func (c *coll) enc() ([]byte, error) {
	switch {
	case c.mss != nil:
		return c.mss.MarshalBinary()
	case c.ms != nil:
		return c.ms.MarshalBinary()
	}
	return c.ml.MarshalBinary()
}

func (c *coll) dec(b []byte) error {
	switch {
	case c.mss != nil:
		return c.mss.UnmarshalBinary(b)
	case c.ms != nil:
		return c.ms.UnmarshalBinary(b)
	}
	return c.ml.UnmarshalBinary(b)
}

// view returns the collection as a list for reading.
func (c *coll) view() *list.List {
	switch {
	case c.mss != nil:
		return &c.mss.MSorted.MList.List
	case c.ms != nil:
		return &c.ms.MList.List
	}
	return &c.ml.List
}

func (c *coll) sorted() *list.Sorted {
	switch {
	case c.mss != nil:
		return &c.mss.SortedSet().Sorted
	case c.ms != nil:
		return c.ms.Sorted()
	}
	return nil
}

func (c *coll) allowDups() bool {
	switch {
	case c.mss != nil:
		return c.mss.AllowDups
	case c.ms != nil:
		return c.ms.AllowDups
	}
	return true
}

// mlist is the part that has the coders of the items.
func (c *coll) mlist() *list.MList {
	switch {
	case c.mss != nil:
		return &c.mss.MSorted.MList
	case c.ms != nil:
		return &c.ms.MList
	}
	return c.ml
}

// newColl makes a collection. cap is the capacity of a fixed one or -1.
func newColl(kind string, it, cap int, dups bool, items []types.Hashable) *coll {
	ma, un, _, _ := itemType(it)
	c := &coll{kind: kind, cap: cap, dups: dups}
	switch kind {
	case "list":
		l := list.New(len(items))
		if cap >= 0 {
			l = list.Fixed(cap)
		}
		for _, x := range items {
			if l.Append(x) == nil {
				c.items = append(c.items, x)
			}
		}
		c.ml = list.NewMList(l, ma, un)
		c.dups = true
	default:
		var s *list.Sorted
		if kind == "sortedset" {
			ss := set.NewSortedSet(len(items))
			for _, x := range items {
				ss.Add(x)
			}
			s = &ss.Sorted
			c.cap, c.dups = -1, false
			c.mss = set.NewMSortedSet(ss, ma, un)
		} else {
			s = list.NewSorted(len(items), dups)
			if cap >= 0 {
				s = list.NewFixedSorted(cap, dups)
			}
			for _, x := range items {
				s.Add(x)
			}
			c.ms = list.NewMSorted(s, ma, un)
		}
		for x, next := s.Items()(); next != nil; x, next = next() {
			c.items = append(c.items, x)
		}
	}
	return c
}

// check compares a collection with what it must hold.
func (c *coll) check(m *Mon, what string, items []types.Hashable, cap int, dups bool) {
	v := c.view()
	m.Check(v.Size() == len(items), "%s has %d items, expected %d", what, v.Size(), len(items))
	i := 0
	for x, next := v.Items()(); next != nil; x, next = next() {
		m.Check(i < len(items) && same(x, items[i]), "%s has item %v (%T) at position %d of %d, expected another", what, x, x, i, len(items))
		i++
	}
	m.Check(v.Full() == (cap >= 0 && len(items) == cap), "%s: full is %v with %d items, capacity %d", what, v.Full(), len(items), cap)
	if c.ml == nil {
		m.Check(c.allowDups() == dups, "%s: duplicates allowed is %v", what, !dups)
	}
}

var collKinds = []string{"list", "sorted", "sortedset"}

func collCase(r *Rng, j int) *Case {
	c := &Case{Kind: collKinds[j%3], P: map[string]int{
		"it": r.N(nItemTypes), "size": r.Pick(0, 1, 1, 2, 3, 5, 9, 20), "fixed": r.N(2), "extra": r.Pick(0, 0, 1, 3), "dups": r.N(2), "us": r.N(1 << 30),
	}}
	return c
}

func buildColl(c *Case) *coll {
	_, _, mk, _ := itemType(c.p("it"))
	r := newRng(uint64(c.p("us")), 51)
	items := []types.Hashable{}
	for i := 0; i < c.p("size"); i++ {
		if len(items) > 0 && r.P(1, 4) {
			items = append(items, items[r.N(len(items))])
		} else {
			items = append(items, mk(r))
		}
	}
	cap := -1
	if l := c.p("len"); l > 0 && len(items) > 0 {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		at := r.N(len(items))
		switch x := items[at].(type) {
		case types.String:
			items[at] = types.String(b)
		case types.ByteSlice:
			items[at] = types.ByteSlice(b)
		case *mItem:
			items[at] = &mItem{x.v, string(b[:maxi(0, l-4)])}
		}
	}
	if c.p("fixed") == 1 {
		cap = c.p("size") + c.p("extra")
	}
	return newColl(c.Kind, c.p("it"), cap, c.p("dups") == 1, items)
}

func runRoundTrip(c *Case, m *Mon) {
	src := buildColl(c)
	_, _, mk, name := itemType(c.p("it"))
	rng := newRng(uint64(c.p("us")), 52)
	m.Obs(uint64(c.p("us")))
	m.Feat(c.Kind + " of " + name)
	enc, err := src.enc()
	m.Check(err == nil, "encoding failed: %v", errText(err))
	src.check(m, "the source after encoding", src.items, src.cap, src.dups)
	pristine := append([]byte{}, enc...)
	m.ops += int64(len(src.items)) + 1
	// into a fresh collection, sometimes into one with content
	var had []types.Hashable
	if rng.P(1, 3) {
		had = append(had, mk(rng), mk(rng), mk(rng))
	}
	dst := newColl(c.Kind, c.p("it"), rng.Pick(-1, 3), rng.P(1, 2), had)
	data := append([]byte{}, enc...)
	err = dst.dec(data)
	m.Check(err == nil, "decoding failed: %v", errText(err))
	m.Check(bytes.Equal(data, pristine), "decoding changed its input")
	dst.check(m, "the decoded collection", src.items, src.cap, src.dups)
	// no reference to the input
	for i := range data {
		data[i] ^= 0x5a
	}
	dst.check(m, "the decoded collection after overwriting the input", src.items, src.cap, src.dups)
	src.check(m, "the source after decoding", src.items, src.cap, src.dups)
	m.Check(src.view().Equals(dst.view()) && dst.view().Equals(src.view()), "the decoded collection is not equal to the source")
	m.audits++
	again, err := dst.enc()
	m.Check(err == nil, "encoding the decoded collection failed: %v", errText(err))
	dst2 := newColl(c.Kind, c.p("it"), -1, true, nil)
	err = dst2.dec(again)
	m.Check(err == nil, "decoding a second time failed: %v", errText(err))
	dst2.check(m, "the collection decoded twice", src.items, src.cap, src.dups)
	// further operations
	if c.Kind == "list" {
		lr := &listRun{m: m, l: dst.view(), cap: src.cap, mk: func(i int) types.Hashable { return mk(newRng(uint64(c.p("us")), uint64(i), 53)) }}
		for x, next := dst.view().Items()(); next != nil; x, next = next() {
			lr.model = append(lr.model, x)
		}
		for i, op := range c.Ops {
			m.step = i
			lr.do(op)
		}
		m.step = len(c.Ops)
		lr.audit()
	} else {
		s := dst.sorted()
		model := append([]types.Hashable{}, src.items...)
		for i, op := range c.Ops {
			m.step = i
			x := mk(newRng(uint64(c.p("us")), uint64(op.a(0)), 53))
			if len(model) > 0 && op.a(1)%2 == 0 {
				x = model[op.a(1)%len(model)]
			}
			pos, has := 0, false
			for pos < len(model) && model[pos].Less(x) {
				pos++
			}
			has = pos < len(model) && model[pos].Equals(x)
			if op.a(2)%3 == 0 {
				err := s.Delete(x)
				m.Check((err == nil) == has, "delete after decoding: %v, present before: %v", errText(err), has)
				if has {
					model = append(append([]types.Hashable{}, model[:pos]...), model[pos+1:]...)
				}
			} else {
				err := s.Add(x)
				ok := true
				if !has || src.dups {
					if src.cap >= 0 && len(model) >= src.cap {
						ok = false
					} else {
						model = append(append(append([]types.Hashable{}, model[:pos]...), x), model[pos:]...)
					}
				}
				m.Check((err == nil) == ok, "add after decoding: %v, expected success: %v", errText(err), ok)
			}
			m.ops++
			m.Check(s.Size() == len(model), "size after decoding and further operations is %d, expected %d", s.Size(), len(model))
		}
		m.step = len(c.Ops)
		i := 0
		for x, next := s.Items()(); next != nil; x, next = next() {
			m.Check(i < len(model) && same(x, model[i]), "item %d after decoding and further operations is %v", i, x)
			i++
		}
	}
	if len(src.items) > 1 {
		m.Nontrivial()
	}
}

func runScalar(c *Case, m *Mon) {
	ma, un, mk, name := itemType(c.p("it"))
	r := newRng(uint64(c.p("us")), 54)
	for i := 0; i < 60; i++ {
		x := mk(r)
		if b, ok := x.(types.ByteSlice); ok {
			x = append(types.ByteSlice{}, b...)
		}
		before := fmt.Sprintf("%T %v", x, x)
		enc, err := ma(x)
		m.Check(err == nil, "encoding %s failed: %v", before, errText(err))
		m.Check(fmt.Sprintf("%T %v", x, x) == before, "encoding changed %s to %v", before, x)
		data := append([]byte{}, enc...)
		y, err := un(data)
		m.Check(err == nil, "decoding %s failed: %v", before, errText(err))
		m.Check(same(x, y), "%s decodes as %T %v", before, y, y)
		for j := range data {
			data[j] ^= 0xa5
		}
		m.Check(same(x, y), "%s changed to %v when the input bytes were overwritten", before, y)
		// the methods of the type itself, over a variable that has a value
		if _, custom := x.(*mItem); !custom {
			from, to := reflect.New(reflect.TypeOf(x)), reflect.New(reflect.TypeOf(x))
			from.Elem().Set(reflect.ValueOf(x))
			old := mk(r)
			to.Elem().Set(reflect.ValueOf(old))
			enc, err := from.Interface().(encoding.BinaryMarshaler).MarshalBinary()
			m.Check(err == nil, "MarshalBinary of %s failed: %v", before, errText(err))
			data := append([]byte{}, enc...)
			err = to.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary(data)
			m.Check(err == nil, "UnmarshalBinary of the bytes of %s failed: %v", before, errText(err))
			for j := range data {
				data[j] ^= 0xa5
			}
			m.Check(same(x, to.Elem().Interface().(types.Hashable)), "a variable of value %v into which %s was decoded holds %v", old, before, to.Elem().Interface())
			m.Check(same(x, from.Elem().Interface().(types.Hashable)), "encoding %s changed it", before)
		}
		m.ops++
		m.Obs(strHash(before))
	}
	m.audits++
	m.Feat("scalar " + name)
	m.Nontrivial()
}

// ---- malformed input ----

// parse is the reference parser of the list format: ok is false if the data
// is truncated or declares more than it has.
func parse(data []byte, sorted bool) (items [][]byte, fixed bool, cap int, ok bool) {
	if sorted {
		if len(data) < 1 {
			return nil, false, 0, false
		}
		data = data[1:]
	}
	if len(data) < 9 {
		return nil, false, 0, false
	}
	fixed = data[0] == 1
	cap = int(binary.LittleEndian.Uint32(data[1:5]))
	n := int(binary.LittleEndian.Uint32(data[5:9]))
	data = data[9:]
	if fixed && n > cap {
		return nil, fixed, cap, false
	}
	for i := 0; i < n; i++ {
		if len(data) < 4 {
			return nil, fixed, cap, false
		}
		l := int(binary.LittleEndian.Uint32(data))
		data = data[4:]
		if l > len(data) {
			return nil, fixed, cap, false
		}
		items = append(items, data[:l])
		data = data[l:]
	}
	return items, fixed, cap, true
}

func runMalformed(c *Case, m *Mon) {
	src := buildColl(c)
	ma, un, mk, name := itemType(c.p("it"))
	m.Obs(uint64(c.p("us")))
	m.Feat(c.Kind + " of " + name)
	enc, err := src.enc()
	m.Check(err == nil, "encoding failed: %v", errText(err))
	rng := newRng(uint64(c.p("us")), 56)
	sorted := src.ml == nil
	base := 0
	if sorted {
		base = 1
	}
	mustFail := func(what string, data []byte) {
		m.ops++
		var had []types.Hashable
		for i := rng.N(4); i > 0; i-- {
			had = append(had, mk(rng))
		}
		dst := newColl(c.Kind, c.p("it"), rng.Pick(-1, 4), rng.P(1, 2), had)
		items, cap, dups := dst.items, dst.cap, dst.dups
		// Half of the inputs have more bytes behind them in memory: the rest
		// of the encoding, and some.
		buf := append([]byte{}, data...)
		if len(data) < len(enc) {
			buf = append(buf, enc[len(data):]...)
		}
		buf = append(buf, enc...)
		in := buf[:len(data):len(data)]
		if rng.P(1, 2) {
			in = buf[:len(data)]
		}
		var err error
		if e := quietly(func() { err = dst.dec(in) }); e != nil {
			m.Fail("%s: decoding %d bytes panicked: %s", what, len(data), panicText(e))
		}
		m.Check(err != nil, "%s: decoding %d bytes of a %d byte encoding returned no error", what, len(data), len(enc))
		dst.check(m, "the receiver of a failed decode ("+what+")", items, cap, dups)
		// It still accepts what it accepted before.
		if cap >= 0 && len(items) < cap && dst.ml != nil {
			m.Check(dst.ml.Append(mk(rng)) == nil, "%s: the receiver of a failed decode lost its room", what)
		}
		m.Feat(what)
	}
	// coders of items that fail at one item
	for t := 0; t < 3 && len(src.items) > 0; t++ {
		at, n := rng.N(len(src.items)), 0
		bad := newColl(c.Kind, c.p("it"), src.cap, src.dups, src.items)
		refused := fmt.Errorf("this item is refused")
		bad.mlist().MarshalItem = func(x types.Hashable) ([]byte, error) {
			n++
			if n == at+1 {
				return nil, refused
			}
			return ma(x)
		}
		_, err := bad.enc()
		m.Check(err != nil, "encoding %d items returned no error although item %d could not be encoded", len(src.items), at)
		bad.check(m, "the collection that could not be encoded", src.items, src.cap, src.dups)
		n = 0
		had := []types.Hashable{mk(rng), mk(rng)}
		dst := newColl(c.Kind, c.p("it"), rng.Pick(-1, 4), rng.P(1, 2), had)
		items, cap, dups := dst.items, dst.cap, dst.dups
		dst.mlist().UnmarshalItem = func(b []byte) (types.Hashable, error) {
			n++
			if n == at+1 {
				return nil, refused
			}
			return un(b)
		}
		err = dst.dec(append([]byte{}, enc...))
		m.Check(err != nil, "decoding %d items returned no error although item %d could not be decoded", len(src.items), at)
		dst.check(m, "the receiver of a failed decode (item refused)", items, cap, dups)
		m.ops += 2
		m.Feat("coder of an item fails")
	}
	mustFail("empty input", nil)
	step := 1 + len(enc)/60
	for l := 0; l < len(enc); l++ {
		if l > 14 && len(enc)-l > 6 && l%step != 0 {
			continue
		}
		mustFail("truncated", enc[:l])
	}
	patch := func(off int, v uint32) []byte {
		b := append([]byte{}, enc...)
		binary.LittleEndian.PutUint32(b[base+off:], v)
		return b
	}
	n := uint32(len(src.items))
	for _, v := range []uint32{n + 1, n + 2, n + 1000, 1 << 20, math.MaxInt32, math.MaxUint32, math.MaxUint32 - 3} {
		mustFail("more items declared", patch(5, v))
	}
	if src.cap > 0 && n > 0 {
		for _, v := range []uint32{n - 1, 0} {
			mustFail("more items than the capacity", patch(1, v))
		}
	}
	off := 9
	for i := range src.items {
		l := binary.LittleEndian.Uint32(enc[base+off:])
		vals := []uint32{math.MaxUint32, math.MaxInt32, uint32(len(enc)), 1 << 31, math.MaxUint32 - 3}
		if i == len(src.items)-1 {
			vals = append(vals, l+1, l+2, l+4)
		}
		for _, v := range vals {
			mustFail("longer item declared", patch(off, v))
		}
		off += 4 + int(l)
	}
	// random damage, judged by the reference parser
	for t := 0; t < 12; t++ {
		b := append([]byte{}, enc...)
		for k := rng.In(1, 3); k > 0; k-- {
			i := rng.N(len(b))
			if i >= base && i < base+5 || i < base { // flags and capacity stay
				continue
			}
			b[i] = byte(rng.Pick(0, 1, 4, 8, 0xff, rng.N(256)))
		}
		if rng.P(1, 3) {
			b = b[:rng.N(len(b)+1)]
		}
		ref, fixed, cap, ok := parse(b, sorted)
		if !ok {
			mustFail("damaged", b)
			continue
		}
		var want []types.Hashable
		bad := false
		for _, r := range ref {
			x, err := un(append([]byte{}, r...))
			if err != nil {
				bad = true
			}
			want = append(want, x)
		}
		if bad {
			mustFail("damaged item", b)
			continue
		}
		dst := newColl(c.Kind, c.p("it"), -1, true, nil)
		var err error
		if e := quietly(func() { err = dst.dec(append([]byte{}, b...)) }); e != nil {
			m.Fail("damaged: decoding panicked: %s", panicText(e))
		}
		if err == nil && !sorted {
			if !fixed {
				cap = -1
			}
			dst.check(m, "a list decoded from damaged but well formed bytes", want, cap, true)
		}
		m.ops++
	}
	m.audits++
	m.Nontrivial()
}

func runBadScalar(c *Case, m *Mon) {
	it := c.p("it")
	_, un, mk, name := itemType(it)
	valid := map[int]bool{}
	switch it + 1 {
	case ktInt8, ktUInt8:
		valid[1] = true
	case ktInt16, ktUInt16:
		valid[2] = true
	case ktInt32, ktUInt32:
		valid[4] = true
	case ktInt64, ktUInt64:
		valid[8] = true
	case ktInt, ktUInt:
		valid[4], valid[8] = true, true // 4 bytes is the former encoding
	default:
		return
	}
	ma, _, _, _ := itemType(it)
	enc, err := ma(mk(newRng(1)))
	m.Check(err == nil, "encoding failed")
	m.Check(valid[len(enc)], "%s is encoded in %d bytes", name, len(enc))
	for l := 0; l <= 50; l++ {
		if valid[l] {
			continue
		}
		b := bytes.Repeat([]byte{byte(c.p("us"))}, l+9)[:l]
		if l > 40 {
			b = bytes.Repeat(b[:1], []int{63, 64, 72, 255, 256, 257, 260, 264, 1032, 65544}[l-41])
		}
		var err error
		var x types.Hashable
		if e := quietly(func() { x, err = un(b) }); e != nil {
			m.Fail("decoding %s from %d bytes panicked: %s", name, l, panicText(e))
		}
		m.Check(err != nil, "decoding %s from %d bytes returned %v and no error", name, l, x)
		m.ops++
	}
	m.Obs(uint64(c.p("us")))
	m.audits++
	m.Feat("integer of a wrong length")
	m.Nontrivial()
}

func init() {
	register(&Property{
		ID:   "C15",
		Rule: "Lists, sorted lists and sorted sets (growing and fixed, with and without duplicates) of 13 item types are encoded and decoded into fresh or used collections, the input bytes are overwritten, the result is compared item by item, encoded again and run through further operations against a model; single values of all item types, extremes included, are round-tripped, also over variables that hold another value. Non-trivial: collections of at least two items, and all single-value cases.",
		Families: []Family{
			{
				Name: "collections",
				N:    constN(60000, 500000),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := collCase(r, j)
					for i := r.N(12); i > 0; i-- {
						c.Ops = append(c.Ops, Op{F: r.PickS("app", "ins", "rem", "pop", "set", "push", "ext"), A: []int{r.N(100), r.N(1000), r.N(10)}})
					}
					return c
				},
			},
			{
				Name: "large",
				N:    constN(400, 4000),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := collCase(r, j)
					c.P["size"] = r.In(100, 600)
					return c
				},
			},
			{
				// items whose length needs more than one or two bytes
				Name: "long",
				N:    constN(90, 900),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := collCase(r, j)
					c.P["it"] = []int{ktString, ktBytes, ktCustom}[j/3%3] - 1
					c.P["size"] = r.In(1, 4)
					c.P["len"] = r.Pick(127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 70000, 131072)
					if t && r.P(1, 30) {
						c.P["len"] = 1<<24 + r.N(5)
					}
					return c
				},
			},
			{
				// more items than fit into one or two bytes
				Name: "many",
				N:    constN(12, 60),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := collCase(r, 0)
					c.P["it"] = []int{ktUInt8, ktInt16, ktInt}[j%3] - 1
					c.P["size"] = r.Pick(32768, 65535, 65536, 65537, 70000)
					c.P["extra"] = r.Pick(0, 1, 70000)
					return c
				},
			},
			{
				Name: "scalars",
				N:    constN(13*200, 13*4000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "scalar", P: map[string]int{"it": j % nItemTypes, "us": r.N(1 << 30)}}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "scalar" {
				runScalar(c, m)
			} else {
				runRoundTrip(c, m)
			}
		},
	})
	register(&Property{
		ID:   "C16",
		Rule: "Encodings of collections of 13 item types are truncated at every length (sampled for long ones), get larger item counts, longer items or smaller capacities declared, or random damage judged by a reference parser; each must give an error and leave the receiving collection as it was. Half of the inputs have the rest of the encoding behind them in memory. Integers are decoded from every length 0 to 40 and some longer ones. Every case is non-trivial: it contains inputs that must be rejected.",
		Families: []Family{
			{
				Name: "collections",
				N:    constN(8000, 80000),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := collCase(r, j)
					if c.P["size"] > 9 {
						c.P["size"] = 4
					}
					return c
				},
			},
			{
				Name: "larger",
				N:    constN(300, 3000),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := collCase(r, j)
					c.P["size"] = r.In(10, 120)
					return c
				},
			},
			{
				Name: "long",
				N:    constN(90, 900),
				Gen: func(r *Rng, j int, t bool) *Case {
					c := collCase(r, j)
					c.P["it"] = []int{ktString, ktBytes, ktCustom}[j/3%3] - 1
					c.P["size"] = r.In(1, 4)
					c.P["len"] = r.Pick(127, 128, 255, 256, 4096, 32768, 65535, 65536)
					return c
				},
			},
			{
				Name: "integers",
				N:    constN(13*16, 13*256),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "integer", P: map[string]int{"it": j % nItemTypes, "us": r.Pick(0, 1, 0x7f, 0x80, 0xff)}}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "integer" {
				runBadScalar(c, m)
			} else {
				runMalformed(c, m)
			}
		},
	})
}
