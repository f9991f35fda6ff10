package main

import (
	"bytes"
	"fmt"
	"math"
	mrand "math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"

	trand "github.com/timtadh/data-structures/rand"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

// C26: the thread-safe random source.

func seedOf(x int) int64 {
	switch x % 11 {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -1
	case 3:
		return math.MinInt64
	case 4:
		return math.MaxInt64
	case 5:
		return math.MaxInt32
	}
	return int64(mix64(uint64(x)))
}

// draws that consume exactly one value of the stream, as a function of it
var draws = []struct {
	name string
	draw func(r *mrand.Rand) uint64
}{
	{"Int63", func(r *mrand.Rand) uint64 { return uint64(r.Int63()) }},
	{"Uint64", func(r *mrand.Rand) uint64 { return r.Uint64() }},
	{"Int", func(r *mrand.Rand) uint64 { return uint64(r.Int()) }},
	{"Int63n", func(r *mrand.Rand) uint64 { return uint64(r.Int63n(1 << 60)) }},
	{"Float64", func(r *mrand.Rand) uint64 { return math.Float64bits(r.Float64()) }},
	{"Uint32", func(r *mrand.Rand) uint64 { return uint64(r.Uint32()) }},
	{"Int31", func(r *mrand.Rand) uint64 { return uint64(r.Int31()) }},
	{"Intn", func(r *mrand.Rand) uint64 { return uint64(r.Intn(1 << 30)) }},
}

// step runs method op of both generators and compares the results.
func randStep(m *Mon, op Op, a, b *mrand.Rand) {
	n := op.a(0)
	same := func(x, y interface{}) {
		m.Check(fmt.Sprint(x) == fmt.Sprint(y), "%s returned %v, the standard generator %v", op.F, x, y)
	}
	switch op.F {
	case "int63":
		same(a.Int63(), b.Int63())
	case "uint64":
		same(a.Uint64(), b.Uint64())
	case "uint32":
		same(a.Uint32(), b.Uint32())
	case "int31":
		same(a.Int31(), b.Int31())
	case "int":
		same(a.Int(), b.Int())
	case "int63n":
		same(a.Int63n(int64(n)+1), b.Int63n(int64(n)+1))
	case "int31n":
		same(a.Int31n(int32(n)+1), b.Int31n(int32(n)+1))
	case "intn":
		same(a.Intn(n+1), b.Intn(n+1))
	case "float64":
		same(a.Float64(), b.Float64())
	case "float32":
		same(a.Float32(), b.Float32())
	case "norm":
		same(a.NormFloat64(), b.NormFloat64())
	case "exp":
		same(a.ExpFloat64(), b.ExpFloat64())
	case "perm":
		same(a.Perm(n%40), b.Perm(n%40))
	case "shuffle":
		x, y := a.Perm(10), b.Perm(10)
		a.Shuffle(10, func(i, j int) { x[i], x[j] = x[j], x[i] })
		b.Shuffle(10, func(i, j int) { y[i], y[j] = y[j], y[i] })
		same(x, y)
	case "read":
		x, y := make([]byte, n%30), make([]byte, n%30)
		i, e := a.Read(x)
		j, f := b.Read(y)
		m.Check(i == j && e == f && bytes.Equal(x, y), "read returned %v, the standard generator %v", x, y)
	case "seed":
		s := seedOf(n)
		a.Seed(s)
		b.Seed(s)
		m.Feat("reseeded")
	}
}

var randOps = []string{"int63", "uint64", "uint32", "int31", "int", "int63n", "int31n", "intn", "float64", "float32", "norm", "exp", "perm", "shuffle", "read", "seed"}

// together runs f in g goroutines that start at the same time and raises what
// they report.
func together(g int, f func(i int, mon *Mon)) {
	var wg sync.WaitGroup
	fails := make([]*Violation, g)
	gate := make(chan bool)
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(*Violation); ok {
						fails[i] = v
					} else {
						fails[i] = &Violation{Text: fmt.Sprintf("panic in a concurrent goroutine: %s", panicText(e))}
					}
				}
			}()
			mon := newMon()
			<-gate
			f(i, mon)
		}(i)
	}
	close(gate)
	wg.Wait()
	for _, v := range fails {
		if v != nil {
			panic(v)
		}
	}
}

func runRand(c *Case, m *Mon) {
	if pr := c.p("procs"); pr > 0 {
		old := runtime.GOMAXPROCS(pr)
		defer runtime.GOMAXPROCS(old)
	}
	s1 := seedOf(c.p("seed"))
	r := newRng(uint64(c.p("us")), 31)
	m.Obs(uint64(c.p("us")))
	switch c.Kind {
	case "single":
		a, b := trand.ThreadSafeRand(s1), mrand.New(mrand.NewSource(s1))
		for i, op := range c.Ops {
			m.step = i
			m.ops++
			m.ObsS(op.F)
			m.Obs(uint64(op.a(0)))
			randStep(m, op, a, b)
		}
		m.step = len(c.Ops)
		m.Check(a.Int63() == b.Int63(), "after the sequence the streams differ")
		m.Nontrivial()
	case "multi":
		g, k := c.p("g"), c.p("k")
		src := trand.ThreadSafeRand(s1)
		std := mrand.New(mrand.NewSource(s1))
		d := draws[c.p("draw")%len(draws)]
		got := make([][]uint64, g)
		together(g, func(i int, mon *Mon) {
			for x := 0; x < k; x++ {
				got[i] = append(got[i], d.draw(src))
				if i == 0 && x%8 == 0 {
					runtime.Gosched()
				}
			}
		})
		// every value of the stream in exactly one goroutine, in order
		where := map[uint64][]int{}
		twice := map[uint64]bool{}
		for x := 0; x < g*k; x++ {
			v := d.draw(std)
			where[v] = append(where[v], x)
			twice[v] = len(where[v]) > 1
		}
		for i := range got {
			last := -1
			for _, v := range got[i] {
				at := where[v]
				m.Check(len(at) > 0, "%d goroutines drawing %s got %#x more often than the stream has it among its first %d values", g, d.name, v, g*k)
				if !twice[v] {
					m.Check(at[0] > last, "goroutine %d drew %s values out of order", i, d.name)
					last = at[0]
				}
				where[v] = at[1:]
			}
		}
		m.Check(d.draw(src) == d.draw(std), "after %d draws of %s in %d goroutines the streams differ", g*k, d.name, g)
		m.ops += int64(g * k)
		m.Feat("concurrent " + d.name)
		m.Nontrivial()
	case "mixed": // drawers of different kinds: the masked values are the stream
		g, k := c.p("g"), c.p("k")
		src := trand.ThreadSafeRand(s1)
		got := make([][]uint64, g)
		together(g, func(i int, mon *Mon) {
			for x := 0; x < k; x++ {
				if (i+x)%2 == 0 {
					got[i] = append(got[i], src.Uint64()&(1<<63-1))
				} else {
					got[i] = append(got[i], uint64(src.Int63()))
				}
			}
		})
		std := mrand.New(mrand.NewSource(s1))
		count := map[uint64]int{}
		for x := 0; x < g*k; x++ {
			count[uint64(std.Int63())]++
		}
		for i := range got {
			for _, v := range got[i] {
				count[v]--
				m.Check(count[v] >= 0, "mixed drawing in %d goroutines got %#x too often", g, v)
			}
		}
		m.Check(src.Int63() == std.Int63(), "after mixed drawing the streams differ")
		m.ops += int64(g * k)
		m.Feat("concurrent mixed draws")
		m.Nontrivial()
	case "reseed": // one goroutine reseeds while others draw
		g, k := c.p("g"), c.p("k")
		src := trand.ThreadSafeRand(s1)
		s2 := seedOf(c.p("seed2"))
		for mrand.New(mrand.NewSource(s1)).Int63() == mrand.New(mrand.NewSource(s2)).Int63() {
			s2++ // many seeds give the same stream
		}
		got := make([][]uint64, g+1)
		together(g+1, func(i int, mon *Mon) {
			if i == g {
				for x := 0; x < k/2; x++ {
					got[g] = append(got[g], uint64(src.Int63()))
				}
				src.Seed(s2)
				return
			}
			for x := 0; x < k; x++ {
				got[i] = append(got[i], uint64(src.Int63()))
			}
		})
		total := g*k + k/2
		pos := []map[uint64]int{{}, {}}
		for q, s := range []int64{s1, s2} {
			std := mrand.New(mrand.NewSource(s))
			for x := 0; x < total; x++ {
				pos[q][uint64(std.Int63())] = x
			}
		}
		seen := [2]map[int]bool{{}, {}}
		for i := range got {
			phase, last := 0, -1
			for _, v := range got[i] {
				x, ok := pos[phase][v]
				if !ok && phase == 0 {
					phase, last = 1, -1
					x, ok = pos[1][v]
				}
				m.Check(ok, "a value drawn around reseeding is in neither stream")
				m.Check(x > last && !seen[phase][x], "values drawn around reseeding are duplicated or out of order")
				last = x
				seen[phase][x] = true
			}
		}
		for q := range seen {
			for x := 0; x < len(seen[q]); x++ {
				m.Check(seen[q][x], "a value of the stream was lost around reseeding")
			}
		}
		if len(seen[0]) > 0 && len(seen[1]) > 0 {
			m.Feat("values drawn before and after reseeding")
		}
		m.ops += int64(total)
		m.Nontrivial()
	case "others": // methods that draw several values: valid results, no races
		src := trand.ThreadSafeRand(s1)
		k := c.p("k")
		together(c.p("g"), func(i int, mon *Mon) {
			for x := 0; x < k; x++ {
				switch (i + x) % 5 {
				case 0:
					p := src.Perm(12)
					seen := map[int]bool{}
					for _, v := range p {
						mon.Check(v >= 0 && v < 12 && !seen[v], "%v is not a permutation", p)
						seen[v] = true
					}
				case 1:
					v := src.Intn(7)
					mon.Check(v >= 0 && v < 7, "Intn(7) returned %d", v)
				case 2:
					v := src.Float32()
					mon.Check(v >= 0 && v < 1, "Float32 returned %v", v)
				case 3:
					v := src.ExpFloat64()
					mon.Check(v >= 0, "ExpFloat64 returned %v", v)
				case 4:
					v := src.NormFloat64()
					mon.Check(!math.IsNaN(v), "NormFloat64 returned %v", v)
				}
			}
		})
		m.ops += int64(c.p("g") * k)
		m.Feat("concurrent composite draws")
		m.Nontrivial()
	case "picks":
		n := c.p("n")
		s := set.NewSortedSet(n)
		for _, i := range r.Perm(n) {
			s.Add(types.Int(i))
		}
		k := 40 * maxi(n, 1)
		if n == 0 {
			k = 2
		}
		g := c.p("g")
		seen := make([]map[int]bool, g)
		together(g, func(i int, mon *Mon) {
			seen[i] = map[int]bool{}
			for x := 0; x < k; x++ {
				v, err := s.Random()
				if n == 0 {
					mon.Check(err != nil, "a random pick from an empty set returned %v", v)
					continue
				}
				mon.Check(err == nil, "a random pick failed: %v", errText(err))
				mon.Check(s.Has(v), "a random pick returned %v, which is not in the set", v)
				seen[i][int(v.(types.Int))] = true
			}
		})
		all := map[int]bool{}
		for _, x := range seen {
			for v := range x {
				all[v] = true
			}
		}
		m.Check(len(all) == n, "%d random picks from a set of %d found only %d of its items", g*k, n, len(all))
		m.ops += int64(g * k)
		m.Feat("concurrent picks")
		if n > 1 {
			m.Nontrivial()
		}
	case "probe":
		runRandProbe(m, c.p("what"))
	}
	m.audits++
}

// runRandProbe uses Read or Seed of one generator in several goroutines, in a
// process of its own because it may end with a race report.
func runRandProbe(m *Mon, what int) {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	m.ops++
	name := []string{"read", "seed"}[what]
	m.ObsS(name)
	cmd := exec.Command(exe, "rand-probe", name)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	out, _ := cmd.CombinedOutput()
	if cmd.ProcessState == nil {
		return // could not be started
	}
	code := cmd.ProcessState.ExitCode()
	m.Feat("probed concurrent " + name)
	m.Nontrivial()
	if code == 0 {
		return
	}
	// the functions on top of the two stacks
	var tops []string
	lines := strings.Split(string(out), "\n")
	for i, l := range lines {
		l = strings.ToLower(strings.TrimSpace(l))
		for _, p := range []string{"write at", "read at", "previous write at", "previous read at"} {
			if strings.HasPrefix(l, p) && i+1 < len(lines) {
				tops = append(tops, strings.TrimSpace(lines[i+1]))
			}
		}
	}
	known := code == exitRace && len(tops) == 2
	for _, f := range tops {
		known = known && (strings.HasPrefix(f, "math/rand.read(") || strings.HasPrefix(f, "math/rand.(*Rand).Read(") || strings.HasPrefix(f, "math/rand.(*Rand).Seed("))
	}
	v := &Violation{Text: fmt.Sprintf("calling %s of one thread-safe generator in several goroutines: exit code %d\n%s", name, code, head(string(out), 3000))}
	if known {
		v.Sig = "rand-" + name + "-race"
	}
	panic(v)
}

// randProbe is the other side of runRandProbe.
func randProbe(what string) {
	src := trand.ThreadSafeRand(1)
	together(4, func(i int, mon *Mon) {
		for x := 0; x < 200; x++ {
			if what == "read" {
				src.Read(make([]byte, 10))
			} else {
				src.Seed(int64(x))
			}
			runtime.Gosched()
		}
	})
}

func init() {
	register(&Property{
		ID: "C26", Race: true, Shards: 4, Repeat: 50,
		Rule: "Single goroutine: all methods of the generator in random sequences compared with the standard generator of the same seed. Several goroutines under the race detector: every value of the standard stream is drawn by exactly one goroutine and in order, for each drawing method, mixed methods and a reseeding in between; composite draws and random picks from sorted sets are valid. Concurrent Read and concurrent Seed are probed in processes of their own. Non-trivial: values were drawn.",
		Families: []Family{
			{Name: "single", N: constN(800, 8000), Gen: func(r *Rng, j int, t bool) *Case {
				c := &Case{Kind: "single", P: map[string]int{"seed": r.N(1000)}}
				for i := r.In(1, 60); i > 0; i-- {
					c.Ops = append(c.Ops, Op{F: randOps[r.N(len(randOps))], A: []int{r.N(1 << uint(r.In(1, 30)))}})
				}
				return c
			}},
			{Name: "multi", N: constN(400, 4000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "multi", P: map[string]int{"procs": r.Pick(2, 4), "seed": r.N(1000), "draw": j, "g": r.In(2, 8), "k": r.Pick(10, 100, 1000), "us": r.N(1 << 30)}}
			}},
			{Name: "mixed", N: constN(100, 1000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "mixed", P: map[string]int{"procs": r.Pick(2, 4), "seed": r.N(1000), "g": r.In(2, 8), "k": r.Pick(10, 100, 1000), "us": r.N(1 << 30)}}
			}},
			{Name: "reseed", N: constN(200, 2000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "reseed", P: map[string]int{"procs": r.Pick(2, 4), "seed": r.N(1000), "seed2": r.N(1000), "g": r.In(1, 4), "k": r.Pick(10, 100, 400), "us": r.N(1 << 30)}}
			}},
			{Name: "others", N: constN(100, 1000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "others", P: map[string]int{"procs": r.Pick(2, 4), "seed": r.N(1000), "g": r.In(2, 6), "k": r.Pick(10, 100), "us": r.N(1 << 30)}}
			}},
			{Name: "picks", N: constN(150, 1500), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "picks", P: map[string]int{"procs": r.Pick(2, 4), "n": r.Pick(0, 1, 2, 5, 10), "g": r.In(2, 4), "us": r.N(1 << 30)}}
			}},
			{Name: "probe", N: constN(2, 8), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "probe", P: map[string]int{"what": j % 2}}
			}},
		},
		Run: runRand,
	})
}
