package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/timtadh/data-structures/test"
)

// C39: the test support package.

// A script is a test: what its assertions are told.
type script struct {
	token string
	steps [][]int // one assertion each: nil for Assert of a true condition, else 0 for a nil error and k for error k
	conds []int   // 0: a false condition, 1: a true one, 2: a list of errors
}

func (s *script) step(t *test.T, i int) {
	switch s.conds[i] {
	case 0, 1:
		t.Assert(s.conds[i] == 1, s.token+"%d of %s", i, "many")
	default:
		var l []error
		for _, k := range s.steps[i] {
			if k == 0 {
				l = append(l, nil)
			} else {
				l = append(l, fmt.Errorf("%se%dx", s.token, k))
			}
		}
		t.AssertNil(l...)
	}
}

// fails returns the first assertion that must fail, or -1.
func (s *script) fails() int {
	for i, c := range s.conds {
		if c == 0 {
			return i
		}
		for _, k := range s.steps[i] {
			if k != 0 {
				return i
			}
		}
	}
	return -1
}

func scripts(seed, n int) []*script {
	r := newRng(uint64(seed), 97)
	var all []*script
	for j := 0; j < n; j++ {
		s := &script{token: fmt.Sprintf("t%dx%dy", j, r.N(1000000))}
		for i := 1 + r.N(6); i > 0; i-- {
			kind := 1
			var l []int
			switch r.N(8) {
			case 0:
				kind = 0
			case 1, 2, 3:
				kind = 2
				for k := r.N(6); k > 0; k-- {
					if r.N(12) == 0 {
						l = append(l, k)
					} else {
						l = append(l, 0)
					}
				}
			}
			s.conds = append(s.conds, kind)
			s.steps = append(s.steps, l)
		}
		all = append(all, s)
	}
	return all
}

// supportProbe runs the scripts as tests; it is a process of its own because
// the test runner ends the process.
func supportProbe(seed, n int) {
	testing.Init()
	os.Args = []string{os.Args[0], "-test.v"}
	var tests []testing.InternalTest
	for j, s := range scripts(seed, n) {
		j, s := j, s
		tests = append(tests, testing.InternalTest{Name: fmt.Sprintf("Test%d", j), F: func(t *testing.T) {
			reached := 0
			defer func() { fmt.Fprintf(os.Stderr, "script %d reached %d failed %v\n", j, reached, t.Failed()) }()
			for i := range s.conds {
				s.step((*test.T)(t), i)
				reached++
			}
		}})
	}
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, tests, nil, nil)
}

func runScripts(c *Case, m *Mon) {
	seed, n := c.p("us"), c.p("n")
	exe, err := os.Executable()
	if err != nil {
		return
	}
	cmd := exec.Command(exe, "support-probe", fmt.Sprint(seed), fmt.Sprint(n))
	var out, res bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &res
	cmd.Run()
	if cmd.ProcessState == nil {
		return // could not be started
	}
	printed := strings.Split(out.String(), "=== RUN ")
	m.Check(len(printed) == n+1, "%d of %d tests were run:\n%s%s", len(printed)-1, n, out.String(), res.String())
	for j, s := range scripts(seed, n) {
		m.ops += int64(len(s.conds))
		bad := s.fails()
		reached := bad
		if bad < 0 {
			reached = len(s.conds)
		}
		want := fmt.Sprintf("script %d reached %d failed %v\n", j, reached, bad >= 0)
		m.Check(strings.Contains(res.String(), want), "conditions %v, errors %v: expected %q, got:\n%s\n%s", s.conds, s.steps, want, res.String(), printed[j+1])
		if bad < 0 {
			m.Feat("no assertion fails")
			continue
		}
		if s.conds[bad] == 0 {
			msg := fmt.Sprintf("%s%d of many", s.token, bad)
			m.Check(strings.Contains(printed[j+1], msg), "a failing assertion does not show its message %q:\n%s", msg, printed[j+1])
			m.Feat("false condition")
			continue
		}
		for _, k := range s.steps[bad] {
			if k != 0 {
				msg := fmt.Sprintf("%se%dx", s.token, k)
				m.Check(strings.Contains(printed[j+1], msg), "error %q is not shown:\n%s", msg, printed[j+1])
			}
		}
		m.Feat("errors")
	}
}

func runSupport(c *Case, m *Mon) {
	switch c.Kind {
	case "scripts":
		runScripts(c, m)
	case "random":
		n := c.p("n")
		a, b := test.RandSlice(n), test.RandSlice(n)
		m.Check(len(a) == n && len(b) == n, "%d and %d random bytes, expected %d", len(a), len(b), n)
		s := test.RandStr(n)
		m.Check(len(s) == n, "a random string has length %d, expected %d", len(s), n)
		h, g := test.RandHex(n), test.RandHex(n)
		m.Check(len(h) == n-n%2 && len(g) == n-n%2, "random hex strings have lengths %d and %d, asked for %d", len(h), len(g), n)
		m.Check(strings.Trim(h, "0123456789abcdef") == "", "a random hex string is %q", h)
		if n >= 32 {
			m.Check(string(a) != string(b) && string(a) != s, "the same %d random bytes come twice", n)
			m.Check(h != g, "the same random hex string comes twice: %s", h)
			m.Feat("long enough to differ")
		}
		if n >= 8192 {
			checkSpread(m, a, "bytes")
			checkSpread(m, []byte(s), "string")
			seen := map[byte]bool{}
			for i := range h {
				seen[h[i]] = true
			}
			m.Check(len(seen) == 16, "%d hex digits occur in a random string of length %d", len(seen), n)
			m.Feat("long enough for every byte")
		}
		// neither result is changed by further calls
		x := string(a)
		test.RandSlice(n)
		m.Check(string(a) == x, "a further call changed random bytes handed out before")
		for i := range a {
			a[i] = 0
		}
		m.Check(string(test.RandSlice(n)) != string(a) || n < 32, "random bytes are all zero")
		m.ops += 7
		m.Obs(uint64(n))
	}
	m.audits++
	m.Obs(uint64(c.p("us")))
	m.Nontrivial()
}

// checkSpread: in thousands of random bytes every value occurs, and every
// window of 64 bytes has several.
func checkSpread(m *Mon, b []byte, name string) {
	seen := map[byte]bool{}
	for _, x := range b {
		seen[x] = true
	}
	m.Check(len(seen) == 256, "%d of 256 values occur in %d random bytes (%s)", len(seen), len(b), name)
	for i := 0; i+64 <= len(b); i += 64 {
		w := map[byte]bool{}
		for _, x := range b[i : i+64] {
			w[x] = true
		}
		m.Check(len(w) > 20, "%d values occur in 64 random bytes from offset %d (%s)", len(w), i, name)
	}
}

func init() {
	register(&Property{
		ID:   "C39",
		Rule: "Sequences of up to 6 assertions of conditions and of lists of up to 5 errors, run under the test runner in a process of its own: the test must fail, stop there and show the message exactly when one fails; random bytes, strings and hex strings of all lengths up to 256 and of up to 100000. Non-trivial: every case.",
		Families: []Family{
			{Name: "scripts", N: constN(100, 1000), Gen: func(r *Rng, j int, th bool) *Case {
				return &Case{Kind: "scripts", P: map[string]int{"n": 40, "us": r.N(1 << 30)}}
			}},
			{Name: "random", N: constN(400, 2000), Gen: func(r *Rng, j int, th bool) *Case {
				n := j
				if j > 256 {
					n = 1 + r.N(100000)
				}
				return &Case{Kind: "random", P: map[string]int{"n": n, "us": r.N(1 << 30)}}
			}},
		},
		Run: runSupport,
	})
}
