package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"runtime/coverage"
)

// C42: the number of steps of an operation does not grow with the collection.

// steps is the number of basic blocks of the library and of the harness
// executed so far by this process, as counted by the coverage instrumentation
// of the build.
func steps() int {
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		panic(err)
	}
	return sumCounters(b.Bytes())
}

// sumCounters reads a file of counters (see internal/coverage/defs.go).
func sumCounters(b []byte) int {
	const header, segment = 32, 16
	uleb := b[24] == 2
	at := header
	u32 := func() int {
		at += 4
		return int(binary.LittleEndian.Uint32(b[at-4:]))
	}
	value := func() int {
		if !uleb {
			return u32()
		}
		x, n := binary.Uvarint(b[at:])
		at += n
		return int(x)
	}
	funcs := int(binary.LittleEndian.Uint64(b[at:]))
	at += 8
	strs, args := u32(), u32()
	at += strs + args
	sum := 0
	for ; funcs > 0; funcs-- {
		n := value()
		value() // package
		value() // function
		for ; n > 0; n-- {
			sum += value()
		}
	}
	return sum
}

// kinds that keep an array in order, and phases that move its items
var moving = map[string]bool{"mapset": true, "sorted": true, "sortedset": true, "sets": true, "front of a list": true}
var changing = map[string]bool{"put": true, "put again": true, "put after removal": true, "remove": true, "add": true, "add again": true, "add to the other": true, "delete": true, "insert in front": true, "remove the first": true}

func runSteps(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 223)
	kind := allocKinds[c.p("kind")]
	for i, p := range allocPhases(c, m, r) {
		m.step = i
		before := steps()
		for i := 0; i < p.n; i++ {
			p.do(i)
		}
		got := (steps() - before) / maxi(1, p.n)
		m.ops += int64(p.n)
		if costTrace {
			fmt.Fprintf(os.Stderr, "%s %s n %d: %d steps per operation\n", kind, p.name, p.n, got)
		}
		most := 2500
		if moving[kind] && changing[p.name] {
			most = 500 + 8*c.p("n")
		}
		m.Check(got <= most, "%s: %q with up to %d items takes %d steps per operation", kind, p.name, c.p("n"), got)
		m.audits++
	}
	m.Feat(kind)
	m.Obs(uint64(c.p("us")))
	m.Nontrivial()
}

func init() {
	register(&Property{
		ID:    "C42",
		Rule:  "The collections and phases of the allocation check in a build of the library that counts every basic block executed: at most 2500 blocks for each operation or item on the average, and eight times the number of items where an array is kept in order. Non-trivial: every case.",
		Cover: true,
		Families: []Family{{Name: "phases", N: constN(200, 1500), Gen: func(r *Rng, j int, t bool) *Case {
			return &Case{Kind: "phases", P: map[string]int{"kind": j % len(allocKinds), "n": 6000 + r.N(6000), "ns": 4 + r.N(60), "init": r.Pick(0, 1, 10, 1000), "ord": r.N(3), "us": r.N(1 << 30)}}
		}}},
		Run: runSteps,
	})
}
