package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// C08, C09, C10: the ternary search trie.

// prefixes checks prefix searches against the model.
func (r *mapRun) prefixes(t *trie.TST, rng *Rng, count int) {
	m := r.m
	ks := r.sortedKeys()
	check := func(p []byte) {
		i := 0
		expect := func() int {
			for ; i < len(ks); i++ {
				if bytes.HasPrefix([]byte(r.u.key(ks[i]).(types.ByteSlice)), p) {
					return ks[i]
				}
			}
			return -1
		}
		n := 0
		it := t.PrefixFind(types.ByteSlice(p))
		m.Check(it != nil, "the search for prefix %q returned a nil iterator", p)
		for key, v, next := it(); next != nil; key, v, next = next() {
			n++
			k := r.u.index(key)
			want := expect()
			m.Check(k == want && k >= 0, "the search for prefix %q yields %q, expected key %d", p, key, want)
			m.Check(sameValue(r.vk, r.model[k], v), "the search for prefix %q yields %q=%v, expected token %d", p, key, v, r.model[k])
			i++
		}
		want := expect()
		m.Check(want < 0, "the search for prefix %q ends after %d entries and misses key %d", p, n, want)
		if n > 1 {
			m.Feat("prefix with several matches")
			m.Nontrivial()
		}
		if n == 0 {
			m.Feat("prefix without match")
		}
	}
	check(nil)
	check([]byte{})
	check([]byte{0})
	for ; count > 0; count-- {
		k := []byte(r.u.key(rng.N(r.u.n)).(types.ByteSlice))
		p := append([]byte{}, k[:rng.N(len(k)+1)]...)
		check(p)
		switch rng.N(5) {
		case 0:
			check(append(p, byte(rng.N(256))))
		case 1:
			check(append(p, 0))
		case 2:
			check(append(append([]byte{}, k...), byte(rng.In(1, 255))))
		case 3:
			check(append(append([]byte{}, k...), bytes.Repeat([]byte{'a'}, rng.Pick(1, 60, 300))...))
		case 4:
			check(k)
		}
	}
	m.audits++
}

// trieBuffers runs a history in which every key is a part of a larger buffer
// that is checked and scribbled over afterwards.
func trieBuffers(c *Case, m *Mon) {
	t := trie.New()
	r := &mapRun{m: m, c: c, u: newUniverse(ktTST, 0, c.p("n"), c.p("us")), s: fromTST(t), model: map[int]int{}}
	rng := newRng(uint64(c.p("us")), 17)
	longest := 0
	for k := 0; k < r.u.n; k++ {
		longest = maxi(longest, len(r.u.key(k).(types.ByteSlice)))
	}
	buf := make([]byte, longest+60)
	use := func(k int, f func(key []byte)) {
		key := []byte(r.u.key(k).(types.ByteSlice))
		for i := range buf {
			buf[i] = byte(0x30 + i%64)
		}
		off := rng.N(9)
		copy(buf[off:], key)
		ref := append([]byte{}, buf...)
		arg := buf[off : off+len(key)] // spare capacity behind the key
		switch c.p("cap") {
		case 1:
			arg = buf[off : off+len(key) : off+len(key)+1]
		case 2:
			arg = buf[off : off+len(key) : off+len(key)]
		}
		f(arg)
		m.Check(bytes.Equal(buf, ref), "the buffer of key %q was written to: %q became %q", key, ref[:40], buf[:40])
		// reuse the buffer
		mode := rng.N(3)
		for i := range buf {
			switch mode {
			case 0:
				buf[i] = 0
			case 1:
				buf[i] = 'a'
			default:
				buf[i] = byte(rng.N(256))
			}
		}
	}
	for i, op := range c.Ops {
		m.step = i
		m.ops++
		k := op.a(0) % r.u.n
		tok, present := r.model[k]
		m.Obs(uint64(k)<<8 ^ uint64(op.F[0]))
		use(k, func(key []byte) {
			switch op.F {
			case "put":
				r.token++
				m.Check(t.Put(key, r.token) == nil, "put of %q failed", key)
				r.model[k] = r.token
			case "get":
				v, err := t.Get(key)
				m.Check((err == nil) == present && (!present || v == tok), "get of %q returned %v, %v", key, v, errText(err))
			case "has":
				m.Check(t.Has(key) == present, "has of %q is %v", key, !present)
			case "rem":
				v, err := t.Remove(key)
				m.Check((err == nil) == present && (!present || v == tok), "remove of %q returned %v, %v", key, v, errText(err))
				delete(r.model, k)
				if present {
					m.Feat("remove")
				}
			case "bad":
				t.Put(key[:len(key):len(key)], r.token)
				t.Remove(key)
				delete(r.model, k)
			}
			if i%3 == 0 {
				p := key[:rng.N(len(key)+1)]
				name := string(p)
				it := t.PrefixFind(types.ByteSlice(p))
				// the buffer is used for something else before or during the
				// iteration
				at := rng.N(4)
				n := 0
				for {
					if n == at && len(p) > 0 {
						p[rng.N(len(p))] ^= byte(rng.In(1, 255))
						m.Feat("prefix changed during the search")
					}
					_, _, next := it()
					if next == nil {
						break
					}
					it = next
					n++
				}
				copy(p, name)
				want := 0
				for x := range r.model {
					if bytes.HasPrefix([]byte(r.u.key(x).(types.ByteSlice)), []byte(name)) {
						want++
					}
				}
				m.Check(n == want, "the search for prefix %q yields %d entries, expected %d", name, n, want)
			}
		})
		if i%4 == 3 { // append to yielded keys
			for key, _, next := t.Iterate()(); next != nil; key, _, next = next() {
				_ = append(key.(types.ByteSlice), "\xffzz"...)
			}
			for key, next := t.Keys()(); next != nil; key, next = next() {
				_ = append(key.(types.ByteSlice), 'q', 0, 'q')
			}
			for key, _, next := t.PrefixFind(types.ByteSlice("a"))(); next != nil; key, _, next = next() {
				_ = append(key.(types.ByteSlice), 'y')
			}
			m.Feat("appended to yielded keys")
		}
		if i%3 == 2 || len(c.Ops) < 12 {
			r.audit()
		}
	}
	m.step = len(c.Ops)
	r.audit()
	r.prefixes(t, rng, 10)
	if len(r.model) > 1 || m.feats["remove"] > 0 {
		m.Nontrivial()
	}
}

// trieShared looks up overlapping parts of one buffer from several goroutines
// and puts them into separate tries, watched by the race detector.
func trieShared(c *Case, m *Mon) {
	rng := newRng(uint64(c.p("us")), 23)
	buf := make([]byte, 40)
	for i := range buf {
		buf[i] = byte(rng.Pick('a', 'a', 'b'))
	}
	t := trie.New()
	in := map[string]int{}
	for i := 0; i < 12; i++ {
		a := rng.N(30)
		b := a + rng.In(1, 6)
		k := append([]byte{}, buf[a:b]...)
		t.Put(k, i)
		in[string(k)] = i
	}
	ref := string(buf)
	g := c.p("g")
	fails := make([]string, g)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fails[i] = fmt.Sprintf("panic: %s", panicText(e))
				}
			}()
			r := newRng(uint64(c.p("us")), uint64(i), 29)
			own := trie.New()
			mine := map[string]int{}
			<-start
			for s := 0; s < c.p("steps"); s++ {
				a := r.N(30)
				b := a + r.In(1, 6)
				key := buf[a:b]
				name := ref[a:b]
				want, ok := in[name]
				switch r.N(6) {
				case 0:
					v, err := t.Get(key)
					if (err == nil) != ok || (ok && v != want) {
						fails[i] = fmt.Sprintf("get of %q returned %v, %v", name, v, errText(err))
						return
					}
				case 1:
					if t.Has(key) != ok {
						fails[i] = fmt.Sprintf("has of %q is %v", name, !ok)
						return
					}
				case 2:
					n := 0
					for _, _, next := t.PrefixFind(types.ByteSlice(key))(); next != nil; _, _, next = next() {
						n++
					}
					w := 0
					for k := range in {
						if len(k) >= len(name) && k[:len(name)] == name {
							w++
						}
					}
					if n != w {
						fails[i] = fmt.Sprintf("prefix search of %q yields %d, expected %d", name, n, w)
						return
					}
				case 3:
					own.Put(key, s)
					mine[name] = s
				case 4:
					v, err := own.Get(key)
					w, ok := mine[name]
					if (err == nil) != ok || (ok && v != w) {
						fails[i] = fmt.Sprintf("own trie: get of %q returned %v, %v", name, v, errText(err))
						return
					}
				case 5:
					v, err := own.Remove(key)
					w, ok := mine[name]
					if (err == nil) != ok || (ok && v != w) {
						fails[i] = fmt.Sprintf("own trie: remove of %q returned %v, %v", name, v, errText(err))
						return
					}
					delete(mine, name)
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	m.ops += int64(g * c.p("steps"))
	for _, f := range fails {
		if f != "" {
			m.Fail("with goroutines sharing one buffer: %s", f)
		}
	}
	m.Check(string(buf) == ref, "the shared buffer was changed")
	m.Obs(uint64(c.p("us")))
	m.Feat("shared buffer")
	m.Nontrivial()
}

func init() {
	withBad := func(r *Rng, ops []Op) []Op {
		var out []Op
		for _, o := range ops {
			out = append(out, o)
			if r.P(1, 25) {
				out = append(out, Op{F: "bad", A: []int{r.N(6), r.N(100), r.N(10)}})
			}
		}
		return out
	}
	// enumKeys: every history over three related keys
	relations := 12
	families := []Family{
		{
			Name: "enum",
			N: func(t bool) int {
				if t {
					return ipow(6, 6) * relations / 2
				}
				return ipow(6, 4) * relations
			},
			Gen: func(r *Rng, j int, t bool) *Case {
				l := 4
				if t {
					l = 6
					j = 2*j + r.N(2)
				}
				return &Case{Kind: "tst", P: map[string]int{"kt": ktTST, "n": 4, "us": j % relations, "vk": j % 4, "aud": 1}, Ops: enumOps(j/relations, l, 3)}
			},
		},
		{
			// all orders of putting and removing 5 keys that share prefixes
			Name: "perm",
			N:    constN(7200, 14400),
			Gen: func(r *Rng, j int, t bool) *Case {
				if !t {
					j = 2*j + r.N(2)
				}
				return &Case{Kind: "tst", P: map[string]int{"kt": ktTST, "n": 5, "us": r.N(1000), "aud": 2}, Ops: permOps(j, 5)}
			},
		},
		{
			Name: "small",
			N:    constN(10000, 100000),
			Gen: func(r *Rng, j int, t bool) *Case {
				n := r.In(2, 24)
				return &Case{Kind: "tst", P: map[string]int{
					"kt": ktTST, "n": n, "us": r.N(100000), "vk": r.N(4), "aud": r.Pick(1, 3),
				}, Ops: withBad(r, mapHistory(r, n, r.In(5, 60)))}
			},
		},
		{
			Name: "medium",
			N:    constN(1500, 12000),
			Gen: func(r *Rng, j int, t bool) *Case {
				n := r.In(20, 200)
				return &Case{Kind: "tst", P: map[string]int{
					"kt": ktTST, "n": n, "us": r.N(100000), "vk": r.N(4), "aud": r.In(20, 80),
				}, Ops: withBad(r, mapHistory(r, n, r.In(100, 400)))}
			},
		},
		{
			Name: "large",
			N:    constN(40, 320),
			Gen: func(r *Rng, j int, t bool) *Case {
				n := r.In(500, 2000)
				ops := []Op{}
				for _, k := range order(r, j, n) {
					ops = append(ops, put(k))
				}
				for _, k := range order(r, r.N(8), n)[:r.In(n/2, n)] {
					ops = append(ops, rem(k))
				}
				for _, k := range order(r, r.N(8), n)[:r.In(1, n/2)] {
					ops = append(ops, put(k))
				}
				return &Case{Kind: "tst", P: map[string]int{"kt": ktTST, "n": n, "us": r.N(100000), "aud": n / 2}, Ops: ops}
			},
		},
	}
	families = append(families, Family{
		Name: "huge",
		N:    constN(8, 64),
		Gen: func(r *Rng, j int, t bool) *Case {
			n := r.Pick(4000, 8000, 16000)
			return &Case{Kind: "tst", P: map[string]int{"kt": ktTST, "n": n, "us": r.N(100000), "aud": 1 << 30}, Ops: hugeHistory(r, n)}
		},
	})
	register(&Property{
		ID:       "C08",
		Rule:     "Histories of put/get/has/remove over byte strings that share prefixes against a reference map, with invalid keys (nil, empty, null byte at every place) mixed in and full audits; enumerated short histories and permutations over small key sets. Non-trivial: at least one successful removal and two keys present at some time.",
		Families: families,
		Run:      func(c *Case, m *Mon) { runMap(c, m, nil) },
	})
	register(&Property{
		ID:       "C09",
		Rule:     "Trie histories; at audit points all iterators are compared with the sorted reference and prefix searches for present and absent prefixes, full keys, extended keys, very long prefixes and prefixes with null bytes are compared with a filter of the reference. Non-trivial: some prefix search had several matches.",
		Families: []Family{families[0], families[2], families[3], families[4], families[5]},
		Run: func(c *Case, m *Mon) {
			t := trie.New()
			r := &mapRun{m: m, c: c, u: newUniverse(ktTST, 0, c.p("n"), c.p("us")), s: fromTST(t), model: map[int]int{}, vk: c.p("vk")}
			rng := newRng(uint64(c.p("us")), 31)
			every := maxi(2, c.p("aud"))
			r.prefixes(t, rng, 3)
			for i, op := range c.Ops {
				m.step = i
				r.do(op)
				if i%every == every-1 {
					r.prefixes(t, rng, 8)
				}
			}
			m.step = len(c.Ops)
			r.audit()
			r.prefixes(t, rng, 25)
		},
	})
	register(&Property{
		ID:   "C10",
		Race: true,
		Rule: "Trie histories in which every key is a slice of a larger buffer, with and without spare capacity; after every call the whole buffer is compared with a copy, then overwritten, and the trie is audited against the reference; yielded keys are appended to. In the shared cases goroutines look up overlapping parts of one buffer under the race detector. Non-trivial: at least two keys present or a removal.",
		Families: []Family{
			{
				Name: "buffers",
				N:    constN(6000, 50000),
				Gen: func(r *Rng, j int, t bool) *Case {
					n := r.In(2, 14)
					return &Case{Kind: "buffers", P: map[string]int{"n": n, "us": r.N(100000), "cap": j % 3}, Ops: mapHistory(r, n, r.In(4, 40))}
				},
			},
			{
				Name: "shared",
				N:    constN(500, 5000),
				Gen: func(r *Rng, j int, t bool) *Case {
					return &Case{Kind: "shared", P: map[string]int{"us": r.N(1 << 30), "g": r.In(2, 4), "steps": 60}}
				},
			},
		},
		Run: func(c *Case, m *Mon) {
			if c.Kind == "shared" {
				trieShared(c, m)
				return
			}
			trieBuffers(c, m)
		},
	})
}
