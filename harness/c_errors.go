package main

import (
	"bytes"
	goerrors "errors"
	"fmt"
	"log"
	"strings"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// C29: messages and stacks of errors.

// Functions that create errors. Their names must show up in the stacks.

//go:noinline
func makesPlainError(f string, args ...interface{}) error { return errors.Errorf(f, args...) }

//go:noinline
func makesExcError(f string, args ...interface{}) *exc.Error { return exc.Errorf(f, args...) }

//go:noinline
func wrapsExcError(err error) *exc.Error { return exc.FromError(err) }

//go:noinline
func throwsFormatted(f string, args ...interface{}) { exc.Throwf(f, args...) }

//go:noinline
func throwsOnError(err error) { exc.ThrowOnError(err) }

//go:noinline
func throwsMade(e *exc.Error) { exc.ThrowErr(e) }

type errMaker struct{ f func() }

//go:noinline
func (e *errMaker) makesInMethod() { e.f() }

// deep calls f below d further frames.
//
//go:noinline
func deep(d int, f func()) {
	if d > 0 {
		deep(d-1, f)
		return
	}
	f()
}

// firstGoroutine is the part of a stack that belongs to the goroutine the
// stack was taken in.
func firstGoroutine(stack string) string {
	if i := strings.Index(stack, "goroutine "); i > 0 {
		stack = stack[i:]
	}
	if i := strings.Index(stack, "\n\n"); i >= 0 {
		stack = stack[:i]
	}
	return stack
}

func checkStack(m *Mon, what, stack, fn string) {
	g := firstGoroutine(stack)
	m.Check(strings.HasPrefix(g, "goroutine "), "%s has no stack: %q", what, head(stack, 200))
	m.Check(strings.Contains(g, "main."+fn), "the stack of %s does not show %s: %s", what, fn, head(g, 1500))
}

// format number x with arguments; the token makes the result unique
func message(x, token int) (string, []interface{}, string) {
	switch x % 10 {
	case 0:
		return fmt.Sprintf("msg%d.", token), nil, fmt.Sprintf("msg%d.", token)
	case 1:
		return "msg%d. with %v", []interface{}{token, "an argument"}, fmt.Sprintf("msg%d. with an argument", token)
	case 2: // arguments that look like formats
		return "msg%d. %s", []interface{}{token, "%d 100%"}, fmt.Sprintf("msg%d. %%d 100%%", token)
	case 3:
		return "100%% msg%d.", []interface{}{token}, fmt.Sprintf("100%% msg%d.", token)
	case 4:
		return "msg%d.\nsecond line %q", []interface{}{token, "x"}, fmt.Sprintf("msg%d.\nsecond line \"x\"", token)
	case 5:
		return "msg%d. %v %v", []interface{}{token, nil, []int{1}}, fmt.Sprintf("msg%d. <nil> [1]", token)
	case 6:
		return "msg%d. %5.2f|%-4d|%+v", []interface{}{token, 3.14159, 7, struct{ A int }{1}}, fmt.Sprintf("msg%d.  3.14|7   |{A:1}", token)
	case 7: // wrong number of arguments is reported by fmt, not lost
		return "msg%d. %d", []interface{}{token}, fmt.Sprintf("msg%d. %%!d(MISSING)", token)
	case 8:
		return "msg%d. é世\x00", []interface{}{token}, fmt.Sprintf("msg%d. é世\x00", token)
	default:
		return "%[2]s msg%[1]d.", []interface{}{token, "swapped"}, fmt.Sprintf("swapped msg%d.", token)
	}
}

func inOrder(m *Mon, what, report string, msgs []string) {
	at := 0
	for i, msg := range msgs {
		j := strings.Index(report[at:], msg)
		m.Check(j >= 0, "%s does not report message %d of %d, %q, at its place: %s", what, i+1, len(msgs), msg, head(report, 1500))
		at += j + len(msg)
	}
}

func runErrors(c *Case, m *Mon) {
	r := newRng(uint64(c.p("us")), 3)
	m.Obs(uint64(c.p("us")))
	// other goroutines, so that the dump has several
	stop := make(chan bool)
	defer close(stop)
	for i := c.p("others"); i > 0; i-- {
		go func() { deep(5, func() { <-stop }) }()
	}
	depth := c.p("depth")
	token := c.p("us") % 100000
	next := func() (string, []interface{}, string) {
		token++
		return message(r.N(10), token)
	}
	switch c.Kind {
	case "plain": // errors.Errorf and Chain
		var e *errors.Error
		var msgs []string
		f, args, msg := next()
		deep(depth, func() {
			err := makesPlainError(f, args...)
			x, ok := err.(*errors.Error)
			m.Check(ok, "Errorf returned a %T", err)
			e = x
		})
		msgs = append(msgs, msg)
		m.Check(len(e.Errs) == 1 && e.Errs[0].Error() == msg, "the error holds %q, expected %q", e.Errs, msg)
		var errs []error
		for i := c.p("chain"); i > 0; i-- {
			f, args, msg := next()
			var x error
			switch r.N(3) {
			case 0:
				x = fmt.Errorf(f, args...)
			case 1:
				x = makesPlainError(f, args...)
			default:
				x = makesExcError(f, args...)
			}
			msgs = append(msgs, msg)
			errs = append(errs, x)
			y := e.Chain(x)
			m.Check(y == error(e), "chaining returned another error")
			m.Feat("chained")
		}
		for i, x := range errs {
			m.Check(len(e.Errs) == 1+len(errs) && e.Errs[1+i] == x, "chaining did not keep error %d", i)
		}
		inOrder(m, "a chained error", e.Error(), msgs)
		inOrder(m, "a chained error", e.String(), msgs)
		checkStack(m, "an error", string(e.Stack), "makesPlainError")
		m.Check(strings.Contains(e.Error(), firstLines(string(e.Stack), 3)), "the report does not show the stack: %s", head(e.Error(), 500))
		m.Feat("plain error")
	case "wrap":
		base := fmt.Errorf("base%d", token)
		e := wrapsExcError(base)
		m.Check(e.Err == base, "wrapping lost the error: %v", e.Err)
		checkStack(m, "a wrapped error", string(e.Stack), "wrapsExcError")
		x := e.Exception()
		m.Check(len(x.Errors) == 1 && x.Errors[0].Err == base, "the exception of a wrapped error lost it")
		inOrder(m, "a wrapped error", e.Error(), []string{base.Error()})
		inOrder(m, "an exception", x.Error(), []string{base.Error()})
		w := makesPlainError("outer: %w", base).(*errors.Error)
		m.Check(goerrors.Is(w.Errs[0], base), "an error wrapped by format is not retrievable")
		// thrown and caught
		ex := exc.Try(func() { deep(depth, func() { throwsOnError(base) }) }).Exception()
		m.Check(ex != nil && len(ex.Exc().Errors) == 1 && ex.Exc().Errors[0].Err == base, "throwing on an error lost it")
		checkStack(m, "an exception thrown on an error", string(ex.Exc().Errors[0].Stack), "throwsOnError")
		// an error from a block can be wrapped again
		err := exc.Try(func() { throwsOnError(base) }).Error()
		again := wrapsExcError(err)
		m.Check(again.Err == err, "wrapping an exception lost it")
		inOrder(m, "an exception wrapped again", again.Error(), []string{base.Error()})
		m.Feat("wrapped error")
	case "thrown": // made, thrown, caught and rethrown some times
		f, args, msg := next()
		msgs := []string{msg}
		fns := []string{"makesExcError"}
		var body func()
		switch r.N(3) {
		case 0:
			fns[0] = "throwsFormatted"
			body = func() { throwsFormatted(f, args...) }
		case 1:
			body = func() { throwsMade(makesExcError(f, args...)) }
		default:
			body = func() { exc.Throw(makeExc(r.N(nExc), makesExcError(f, args...))) }
		}
		inMethod := r.P(1, 3)
		if inMethod {
			inner := body
			body = func() { (&errMaker{inner}).makesInMethod() }
		}
		run := func() { deep(depth, body) }
		for i := c.p("chain"); i > 0; i-- {
			f, args, msg := next()
			msgs = append(msgs, msg)
			fns = append(fns, "makesExcError")
			inner := run
			catcher := func(t exc.Throwable) { exc.Rethrow(t, makesExcError(f, args...)) }
			run = func() {
				exc.Try(inner).Catch(&exc.Exception{}, catcher).Catch(exV{&exc.Exception{}}, catcher).Finally(func() {}).Unwind()
			}
		}
		var caught exc.Throwable
		exc.Try(run).Catch(&exc.Exception{}, func(t exc.Throwable) { caught = t }).Catch(exV{&exc.Exception{}}, func(t exc.Throwable) { caught = t }).Unwind()
		m.Check(caught != nil, "the exception was not caught")
		es := caught.Exc().Errors
		m.Check(len(es) == len(msgs), "the exception holds %d errors, expected %d", len(es), len(msgs))
		for i, e := range es {
			m.Check(e.Err.Error() == msgs[i], "error %d of the exception is %q, expected %q", i, e.Err.Error(), msgs[i])
			checkStack(m, fmt.Sprintf("error %d of a caught exception", i), string(e.Stack), fns[i])
			m.Check(strings.HasPrefix(e.Error(), msgs[i]) || strings.Contains(e.Error(), msgs[i]), "the report of error %d lacks its message", i)
			m.Check(strings.Contains(caught.Error(), firstLines(string(e.Stack), 3)), "the report of the exception lacks the stack of error %d", i)
		}
		if inMethod {
			checkStack(m, "the error of a method", string(es[0].Stack), "(*errMaker).makesInMethod")
		}
		inOrder(m, "a caught exception", caught.Error(), msgs)
		m.Feat("thrown and caught")
		m.FeatN("rethrown", c.p("chain"))
	case "helpers":
		key := fmt.Sprintf("key%d", token)
		type made struct {
			name string
			err  error
			want []string
		}
		var all []made
		add := func(name string, err error, want ...string) { all = append(all, made{name, err, want}) }
		deep(depth, func() {
			makesHelperErrors(add, key)
		})
		for _, x := range all {
			e, ok := x.err.(*errors.Error)
			m.Check(ok, "%s made a %T", x.name, x.err)
			inOrder(m, x.name, e.Error(), x.want)
			checkStack(m, x.name, string(e.Stack), "makesHelperErrors")
			m.ops++
		}
		m.Feat("helper errors")
	case "library":
		for name, err := range causesLibraryErrors() {
			e, ok := err.(*errors.Error)
			m.Check(ok, "%s: the error is a %T", name, err)
			checkStack(m, name, string(e.Stack), "causesLibraryErrors")
			m.ops++
		}
		m.Feat("library errors")
	case "forms": // text forms of errors that are nil, empty or made by hand
		var np *errors.Error
		var nx *exc.Error
		m.Check(np.Error() == "Error <nil>" && np.String() == np.Error(), "a nil error prints as %q", np.Error())
		m.Check(nx.Error() == "Error <nil>" && nx.String() == nx.Error(), "a nil error of an exception prints as %q", nx.Error())
		stack := fmt.Sprintf("stack%d", r.N(1000))
		var msgs []string
		he := &errors.Error{Stack: []byte(stack)}
		hx := &exc.Exception{}
		for i := r.N(5); i > 0; i-- {
			_, _, msg := next()
			msgs = append(msgs, msg)
			he.Errs = append(he.Errs, goerrors.New(msg))
			e := &exc.Error{Err: goerrors.New(msg), Stack: []byte(stack)}
			inOrder(m, "an error made by hand", e.Error(), []string{msg, stack})
			m.Check(e.String() == e.Error(), "an error prints as %q but reports %q", e.String(), e.Error())
			x := e.Exception()
			m.Check(len(x.Errors) == 1 && x.Errors[0] == e && x.Exc() == x, "the exception of an error does not hold it")
			if y := hx.Chain(e); y != exc.Throwable(hx) {
				m.Fail("chaining returned another exception")
			}
		}
		m.Check(len(hx.Errors) == len(msgs), "the exception holds %d errors, expected %d", len(hx.Errors), len(msgs))
		inOrder(m, "an error made by hand", he.Error(), append(append([]string{}, msgs...), stack))
		inOrder(m, "an exception made by hand", hx.Error(), msgs)
		m.Check(he.String() == he.Error() && hx.String() == hx.Error(), "an error prints and reports differently")
		m.Check(strings.Count(he.Error(), stack) == 1, "the report shows the stack %d times", strings.Count(he.Error(), stack))
		m.Check(strings.Count(hx.Error(), stack) == len(msgs), "the report of the exception shows %d stacks, expected %d", strings.Count(hx.Error(), stack), len(msgs))
		m.Feat("text forms")
	case "log":
		runLog(c, m, r, next)
	}
	m.ops++
	m.audits++
	m.Nontrivial()
}

//go:noinline
func makesHelperErrors(add func(string, error, ...string), key string) {
	add("NotFoundInBucket", errors.NotFoundInBucket(key), key)
	add("InvalidKey", errors.InvalidKey(key, "the reason"), key, "the reason")
	add("TSTError", errors.TSTError("part %s of %d", key, 17), "part "+key+" of 17")
	add("BpTreeError", errors.BpTreeError("part %s of %d", key, 17), "part "+key+" of 17")
	add("NotFound", errors.NotFound(key))
	add("NegativeSize", errors.NegativeSize())
	add("Errors[invalid-key]", errors.Errors["invalid-key"](key, "the reason"), key, "the reason")
	add("Errors[not-found-in-bucket]", errors.Errors["not-found-in-bucket"](key), key)
	add("Errors[tst-error]", errors.Errors["tst-error"]("at %v", key), "at "+key)
	add("Errors[bptree-error]", errors.Errors["bptree-error"]("at %v", key), "at "+key)
	add("Errors[not-found]", errors.Errors["not-found"](key))
	add("Errors[negative-size]", errors.Errors["negative-size"]())
}

//go:noinline
func causesLibraryErrors() map[string]error {
	errs := map[string]error{}
	_, errs["hash table get"] = hashtable.NewHashTable(3).Get(types.Int(1))
	_, errs["linear hash remove"] = hashtable.NewLinearHash().Remove(types.Int(1))
	_, errs["AVL tree get"] = (&avl.AvlTree{}).Get(types.Int(1))
	_, errs["trie get"] = trie.New().Get([]byte("x"))
	errs["trie put"] = trie.New().Put([]byte("a\x00"), 1)
	_, errs["list get"] = list.New(1).Get(0)
	return errs
}

func firstLines(s string, n int) string {
	ls := strings.SplitN(s, "\n", n+1)
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

//go:noinline
func logsSomething(level, f string, args ...interface{}) { errors.Logf(level, f, args...) }

// runLog works with the global logger; cases of a worker run one by one.
func runLog(c *Case, m *Mon, r *Rng, next func() (string, []interface{}, string)) {
	var buf bytes.Buffer
	old, flags := log.Writer(), log.Flags()
	log.SetOutput(&buf)
	saved := errors.SkipLogging
	errors.SkipLogging = map[string]bool{}
	defer func() {
		log.SetOutput(old)
		log.SetFlags(flags)
		errors.SkipLogging = saved
	}()
	levels := []string{"DEBUG", "INFO", "", "a b", "100%"}
	skip := map[string]bool{}
	for i := 0; i < 12; i++ {
		level := levels[r.N(len(levels))]
		if r.P(1, 3) {
			skip[level] = r.P(2, 3)
			errors.SkipLogging[level] = skip[level]
		}
		buf.Reset()
		f, args, msg := next()
		logsSomething(level, f, args...)
		out := buf.String()
		m.ops++
		if skip[level] {
			m.Check(out == "", "logging at the skipped level %q wrote %q", level, out)
			m.Feat("skipped")
			continue
		}
		inOrder(m, "a log line", out, []string{level})
		m.Check(strings.Contains(out, "logsSomething") && strings.Contains(out, msg), "logging %q at level %q wrote %q", msg, level, out)
		m.Check(strings.Count(out, msg) == 1, "logging %q wrote it more than once: %q", msg, out)
		m.Feat("logged")
	}
}

func init() {
	fam := func(kind string, q, t int) Family {
		return Family{Name: kind, N: constN(q, t), Gen: func(r *Rng, j int, t bool) *Case {
			return &Case{Kind: kind, P: map[string]int{"depth": r.Pick(0, 1, 5, 30, 150), "chain": r.Pick(0, 1, 2, 5, 12), "others": r.Pick(0, 0, 3, 40), "us": r.N(1 << 30)}}
		}}
	}
	register(&Property{
		ID:     "C29",
		Rule:   "Errors made by the helpers of both packages with messages of ten formats (arguments that look like formats, wrong argument counts, several lines) at call depths up to 150 and with up to 40 other goroutines: unique message tokens must appear in the report in order, and the creating function in the first goroutine of the stack, at creation, after chaining, and after throwing, catching and rethrowing up to 12 times; logging at random sets of skipped levels; text forms of nil, empty and hand-made errors. Non-trivial: every case.",
		Shards: 8,
		Families: []Family{
			fam("plain", 3000, 30000), fam("wrap", 1500, 15000), fam("thrown", 4000, 40000), fam("helpers", 600, 6000), fam("library", 40, 400), fam("forms", 500, 5000), fam("log", 2000, 20000),
		},
		Run: runErrors,
	})
}
