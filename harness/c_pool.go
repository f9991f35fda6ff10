package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/timtadh/data-structures/pool"
)

// C24 and C25: the worker pool.

// poolRun watches one pool. Everything jobs and submitters report goes through
// atomics with one exception: slots, which jobs write and whoever waited for
// the jobs reads without further synchronization, so that the race detector
// sees a missing barrier.
type poolRun struct {
	m    *Mon
	n    int
	pool *pool.Pool

	execs    []int32 // how often job i ran
	accepted []int32 // 1 accepted, 2 refused
	slots    []int   // written by job i

	running, maxRunning   int64
	started, finished     int64
	submitted             int64 // Do returned nil
	stopCalled, stopEnded int32
	epoch                 int64 // odd while the waiting lock is held
	shared                int   // written under the waiting lock, read by jobs
	mu                    sync.Mutex
	fail                  *Violation
}

func newPoolRun(m *Mon, n, jobs int) *poolRun {
	return &poolRun{m: m, n: n, pool: pool.New(n), execs: make([]int32, jobs), accepted: make([]int32, jobs), slots: make([]int, jobs)}
}

func (p *poolRun) bad(format string, args ...interface{}) {
	p.mu.Lock()
	if p.fail == nil {
		p.fail = &Violation{Text: fmt.Sprintf(format, args...)}
	}
	p.mu.Unlock()
}

// settle raises the first problem any goroutine saw.
func (p *poolRun) settle() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.fail != nil {
		panic(p.fail)
	}
}

func yield(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

// job makes job i, which does body between its own start and end.
func (p *poolRun) job(i int, body func()) func() {
	return func() {
		if e := atomic.LoadInt64(&p.epoch); e&1 == 1 {
			p.bad("job %d started while the waiting lock was held", i)
		}
		atomic.AddInt64(&p.started, 1)
		r := atomic.AddInt64(&p.running, 1)
		for {
			old := atomic.LoadInt64(&p.maxRunning)
			if r <= old || atomic.CompareAndSwapInt64(&p.maxRunning, old, r) {
				break
			}
		}
		if r > int64(p.n) {
			p.bad("%d jobs run at the same time in a pool of %d workers", r, p.n)
		}
		if atomic.AddInt32(&p.execs[i], 1) > 1 {
			p.bad("job %d ran twice", i)
		}
		x := p.shared
		if body != nil {
			body()
		}
		p.slots[i] = x + i + 1
		if e := atomic.LoadInt64(&p.epoch); e&1 == 1 {
			p.bad("job %d was running while the waiting lock was held", i)
		}
		atomic.AddInt64(&p.running, -1)
		atomic.AddInt64(&p.finished, 1)
	}
}

// do submits job i and judges the answer.
func (p *poolRun) do(i int, body func()) bool {
	e := atomic.LoadInt64(&p.epoch)
	ended := atomic.LoadInt32(&p.stopEnded) == 1
	err := p.pool.Do(p.job(i, body))
	if err == nil {
		if ended {
			p.bad("job %d was accepted after stop had returned", i)
		}
		atomic.StoreInt32(&p.accepted[i], 1)
		atomic.AddInt64(&p.submitted, 1)
		if e&1 == 1 && atomic.LoadInt64(&p.epoch) == e {
			p.bad("job %d was accepted while the waiting lock was held", i)
		}
		return true
	}
	atomic.StoreInt32(&p.accepted[i], 2)
	if atomic.LoadInt32(&p.stopCalled) == 0 {
		p.bad("job %d was refused by a pool that had not been stopped: %v", i, errText(err))
	}
	return false
}

// stop stops the pool and checks that everything accepted is done.
func (p *poolRun) stop() {
	atomic.StoreInt32(&p.stopCalled, 1)
	p.pool.Stop()
	s, f, r := atomic.LoadInt64(&p.submitted), atomic.LoadInt64(&p.finished), atomic.LoadInt64(&p.running)
	atomic.StoreInt32(&p.stopEnded, 1)
	if r != 0 || f < s {
		p.bad("stop returned with %d of at least %d accepted jobs finished, %d running", f, s, r)
	}
}

// hold takes the waiting lock, checks what it promises and releases it.
func (p *poolRun) hold(spin int, change bool) {
	s := atomic.LoadInt64(&p.submitted)
	p.pool.WaitLock()
	if e := atomic.AddInt64(&p.epoch, 1); e&1 != 1 {
		p.bad("two goroutines hold the waiting lock")
	}
	f, r := atomic.LoadInt64(&p.finished), atomic.LoadInt64(&p.running)
	st := atomic.LoadInt64(&p.started)
	if r != 0 || f < s || st != f {
		p.bad("the waiting lock was granted with %d started and %d finished of at least %d accepted jobs", st, f, s)
	}
	for i := range p.slots { // the effects of all finished jobs are visible
		if p.slots[i] != 0 && atomic.LoadInt32(&p.execs[i]) != 1 {
			p.bad("job %d left a result without running", i)
		}
	}
	if change {
		p.shared++
	}
	yield(spin)
	if st2 := atomic.LoadInt64(&p.started); st2 != st {
		p.bad("%d jobs started while the waiting lock was held", st2-st)
	}
	atomic.AddInt64(&p.epoch, 1)
	p.pool.Unlock()
}

// audit is called when all submitters and waiters are done and stop returned.
func (p *poolRun) audit(n int) {
	p.settle()
	p.m.audits++
	fin := atomic.LoadInt64(&p.finished)
	acc := 0
	for i := 0; i < n; i++ {
		a, x := atomic.LoadInt32(&p.accepted[i]), atomic.LoadInt32(&p.execs[i])
		switch {
		case a == 1 && x != 1:
			p.m.Fail("job %d was accepted and ran %d times", i, x)
		case a == 2 && x != 0:
			p.m.Fail("job %d was refused and ran all the same", i)
		case a == 1 && p.slots[i] == 0:
			p.m.Fail("the effect of job %d is not visible", i)
		}
		if a == 1 {
			acc++
		}
	}
	yield(20)
	p.m.Check(atomic.LoadInt64(&p.finished) == fin && int(fin) == acc, "jobs ran after stop had returned")
	p.m.ops += int64(n)
	p.settle()
}

func runPool(c *Case, m *Mon) {
	old := runtime.GOMAXPROCS(maxi(1, c.p("procs")))
	defer runtime.GOMAXPROCS(old)
	r := newRng(uint64(c.p("us")), 17)
	n := maxi(1, c.p("n"))
	m.Obs(uint64(c.p("us")))
	switch c.Kind {
	case "storm":
		runStorm(c, m, r, n)
	case "full":
		runFull(c, m, r, n)
	case "nested":
		runNested(c, m, r, n)
	case "count":
		runCount(c, m, r, n)
	case "countdown":
		runCountdown(c, m, r, n)
	case "stopped":
		runStopped(c, m, r, n)
	case "busy":
		runBusy(c, m, r, n)
	}
}

// runStorm: submitters, lockers, counters and stoppers at the same time.
func runStorm(c *Case, m *Mon, r *Rng, n int) {
	subs, each := maxi(1, c.p("subs")), c.p("jobs")
	p := newPoolRun(m, n, subs*each)
	var wg sync.WaitGroup
	gate := make(chan bool)
	seeds := make([]uint64, subs+8)
	for i := range seeds {
		seeds[i] = r.U64()
	}
	var mayStop sync.WaitGroup // stoppers of the "late" kind wait for submitters
	for s := 0; s < subs; s++ {
		wg.Add(1)
		mayStop.Add(1)
		go func(s int) {
			defer wg.Done()
			defer mayStop.Done()
			r := newRng(seeds[s], 1)
			<-gate
			refused := 0
			for i := 0; i < each && refused < 3; i++ {
				y := r.N(4)
				if c.p("slow") == 1 {
					y = r.N(40)
				}
				if !p.do(s*each+i, func() { yield(y) }) {
					refused++
				}
				if r.P(1, 4) {
					yield(r.N(10))
				}
			}
		}(s)
	}
	for h := 0; h < c.p("holders"); h++ {
		wg.Add(1)
		go func(h int) {
			defer wg.Done()
			r := newRng(seeds[subs+h], 2)
			<-gate
			for i := c.p("holds"); i > 0; i-- {
				yield(r.N(60))
				p.hold(r.N(30), r.P(1, 2))
			}
		}(h)
	}
	for h := 0; h < c.p("counters"); h++ {
		wg.Add(1)
		go func(h int) {
			defer wg.Done()
			r := newRng(seeds[subs+4+h], 3)
			<-gate
			for i := 0; i < 5; i++ {
				yield(r.N(60))
				x := p.pool.WaitCount()
				if x < 0 || x > subs*each {
					p.bad("the waiting count is %d with %d jobs in all", x, subs*each)
				}
			}
		}(h)
	}
	for h := 0; h < c.p("stops"); h++ {
		wg.Add(1)
		late := c.p("late") == 1
		delay := int(mix64(seeds[0]+uint64(h)) % uint64(1+c.p("delay")))
		go func() {
			defer wg.Done()
			<-gate
			if late {
				mayStop.Wait()
			} else {
				yield(delay)
			}
			p.stop()
			m := 0
			for _, x := range p.slots { // race detector: effects are visible
				if x != 0 {
					m++
				}
			}
			if m > len(p.slots) {
				p.bad("more results than jobs")
			}
		}()
	}
	close(gate)
	wg.Wait()
	p.settle()
	if c.p("stops") == 0 {
		p.hold(0, false)
		p.hold(0, false)
		if int(p.finished) != subs*each {
			m.Fail("%d of %d accepted jobs ran", p.finished, subs*each)
		}
	}
	p.stop()
	p.stop()
	p.audit(subs * each)
	m.Feat("storm")
	m.FeatN("jobs refused", subs*each-int(p.submitted))
	m.FeatN("jobs run", int(p.finished))
	m.Obs(uint64(p.finished))
	if p.maxRunning == int64(n) {
		m.Feat("all workers busy at once")
	}
	if p.finished > 0 {
		m.Nontrivial()
	}
}

// runFull: more jobs than the queues hold while every worker is busy.
func runFull(c *Case, m *Mon, r *Rng, n int) {
	jobs := n*101 + c.p("extra")
	subs := maxi(1, c.p("subs"))
	jobs += (subs - jobs%subs) % subs
	p := newPoolRun(m, n, jobs)
	gate := make(chan bool)
	var wg sync.WaitGroup
	for s := 0; s < subs; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for i := s; i < jobs; i += subs {
				if !p.do(i, func() { <-gate }) {
					break
				}
			}
		}(s)
	}
	// let the queues fill up: until nothing more happens for a while
	last, idle := int64(-1), 0
	for idle < 300 {
		yield(1)
		if s := atomic.LoadInt64(&p.submitted); s != last {
			last, idle = s, 0
		} else {
			idle++
		}
	}
	m.FeatN("jobs accepted while all workers were busy", int(last))
	if last < int64(jobs) {
		m.Feat("submitters blocked by full queues")
	}
	if f := atomic.LoadInt64(&p.finished); f != 0 {
		p.bad("%d jobs finished before they were allowed to", f)
	}
	switch c.p("then") {
	case 0:
		close(gate)
	case 1: // stop while submitters are blocked
		wg.Add(1)
		go func() { defer wg.Done(); p.stop() }()
		yield(50)
		close(gate)
	case 2:
		wg.Add(1)
		go func() { defer wg.Done(); p.hold(20, true) }()
		yield(50)
		close(gate)
	case 3: // release one at a time first
		for i := 0; i < 20; i++ {
			gate <- true
			yield(3)
		}
		close(gate)
	}
	wg.Wait()
	p.stop()
	for i := 0; i < jobs; i++ { // never submitted
		if p.accepted[i] == 0 && p.execs[i] != 0 {
			m.Fail("job %d ran without being submitted", i)
		}
	}
	p.audit(jobs)
	m.Feat("full queues")
	m.Nontrivial()
}

// runBusy: jobs that wait until as many of them run as there are workers.
func runBusy(c *Case, m *Mon, r *Rng, n int) {
	subs := c.p("subs")
	jobs := subs * (n*250/subs + 1)
	p := newPoolRun(m, n, jobs)
	all := make(chan bool)
	var once sync.Once
	var wg sync.WaitGroup
	for s := 0; s < subs; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for i := s; i < jobs; i += subs {
				p.do(i, func() {
					if atomic.LoadInt64(&p.running) == int64(n) {
						once.Do(func() { close(all) })
					}
					<-all
				})
			}
		}(s)
	}
	wg.Wait()
	p.stop()
	p.audit(jobs)
	m.FeatN("all workers busy", n)
	m.Nontrivial()
}

// runNested: jobs that submit jobs.
func runNested(c *Case, m *Mon, r *Rng, n int) {
	roots, kids := c.p("roots"), c.p("kids")
	total := roots * (1 + kids)
	p := newPoolRun(m, n, total)
	var all sync.WaitGroup
	all.Add(roots)
	for i := 0; i < roots; i++ {
		i := i
		p.do(i, func() {
			for k := 0; k < kids; k++ {
				p.do(roots+i*kids+k, nil)
			}
			all.Done()
		})
	}
	if c.p("stop") == 1 {
		yield(r.N(40))
		p.stop() // jobs submitted from now on are refused
	} else {
		all.Wait()
	}
	if c.p("stop") == 0 {
		p.hold(5, false)
		if int(p.finished) != total {
			p.bad("%d of %d jobs ran", p.finished, total)
		}
		p.stop()
	}
	p.audit(total)
	m.Feat("nested submission")
	m.Nontrivial()
}

// runCount: the waiting count, with jobs that finish when told to.
func runCount(c *Case, m *Mon, r *Rng, n int) {
	k, quick := maxi(1, c.p("k")), c.p("quick")
	if k > n*100 {
		k = n * 100
	}
	p := newPoolRun(m, n, k+quick)
	if x := p.pool.WaitCount(); x != 0 {
		m.Fail("the waiting count of an idle pool is %d", x)
	}
	gate := make(chan bool)
	for i := 0; i < quick; i++ {
		p.do(i, nil)
	}
	if quick > 0 && k >= n { // the quick ones must get a worker first
		p.hold(0, false)
		if x := p.pool.WaitCount(); x != 0 {
			m.Fail("the waiting count of an idle pool is %d", x)
		}
		m.Feat("count after earlier jobs")
	}
	for i := 0; i < k; i++ {
		p.do(quick+i, func() { <-gate })
	}
	left := k
	if quick > 0 && k < n {
		// One goroutine counts down while the quick jobs run. Each count must
		// be lower than the one before, and none below k may come before a
		// blocked job was released.
		var released int32
		ended := make(chan bool)
		go func() {
			defer close(ended)
			last := k + quick
			for last >= k && last > 0 {
				before := atomic.LoadInt32(&released)
				x := p.pool.WaitCount()
				now := atomic.LoadInt32(&released)
				if x >= last || x < 0 || (now == 0 && x < k) {
					p.bad("the waiting count is %d after %d, with %d blocked jobs (released: %d at the call, %d now)", x, last, k, before, now)
					return
				}
				last = x
			}
		}()
		for atomic.LoadInt64(&p.finished) < int64(quick) {
			runtime.Gosched()
		}
		yield(r.Pick(0, 5, 50))
		atomic.StoreInt32(&released, 1)
		for left > 0 {
			gate <- true
			left--
			yield(r.Pick(0, 5, 50))
		}
		<-ended
		p.settle()
		m.Feat("counted down to blocked jobs")
	}
	out := left // at most so many are outstanding
	for left > 0 {
		waiters := r.In(1, 3)
		res := make(chan int, waiters)
		for w := 0; w < waiters; w++ {
			go func() { res <- p.pool.WaitCount() }()
		}
		yield(r.Pick(0, 1, 5, 50, 200))
		select {
		case x := <-res:
			if out > left { // a job released before may end only now
				res <- x
				break
			}
			m.Fail("the waiting count returned %d before any of %d blocked jobs finished", x, left)
		default:
		}
		start := out
		for got := 0; got < waiters; {
			if left > 0 {
				gate <- true
				left--
			}
			for spin := 0; spin < 100 && got < waiters; spin++ {
				select {
				case x := <-res:
					got++
					if x < left || x >= start {
						m.Fail("the waiting count returned %d with %d jobs outstanding at the call and at least %d now", x, start, left)
					}
					out = mini(out, x)
					m.Feat("waited for a count")
				default:
					runtime.Gosched()
				}
			}
			if left == 0 && got < waiters {
				x := <-res
				got++
				if x < 0 || x >= start {
					m.Fail("the waiting count returned %d with %d jobs outstanding at the call", x, start)
				}
				out = mini(out, x)
			}
		}
	}
	p.hold(0, false)
	if x := p.pool.WaitCount(); x != 0 {
		m.Fail("the waiting count of an idle pool is %d", x)
	}
	p.stop()
	if x := p.pool.WaitCount(); x != 0 {
		m.Fail("the waiting count of a stopped pool is %d", x)
	}
	p.audit(k + quick)
	m.Nontrivial()
}

// runCountdown: goroutines call the waiting count in a row while short jobs
// finish and nothing is submitted. Each of them must see falling counts, and
// none below the number of blocked jobs before these are released.
func runCountdown(c *Case, m *Mon, r *Rng, n int) {
	quick, held := c.p("quick"), 1
	n = maxi(n, 2)
	p := newPoolRun(m, n, 1)
	start, gate := make(chan bool), make(chan bool)
	var done, released int64
	for i := 0; i < quick; i++ {
		i := i
		p.pool.Do(func() {
			<-start
			for j := i % 5; j > 0; j-- {
				atomic.LoadInt64(&done)
			}
			atomic.AddInt64(&done, 1)
		})
	}
	p.pool.Do(func() { <-gate }) // the last one, so that none waits behind it
	var wg sync.WaitGroup
	for w := 0; w < maxi(1, c.p("waiters")); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := quick + held
			for calls := 0; last >= held; calls++ {
				x := p.pool.WaitCount()
				if x == 0 { // idle, or the last job just finished
					return
				}
				if x >= last || x < 0 || x < held && atomic.LoadInt64(&released) == 0 {
					p.bad("the waiting count is %d in call %d, after %d, with %d blocked jobs and nothing submitted in between", x, calls, last, held)
					return
				}
				last = x
			}
		}()
	}
	yield(5)
	close(start)
	for atomic.LoadInt64(&done) < int64(quick) {
		runtime.Gosched()
	}
	yield(r.Pick(5, 50, 200))
	atomic.StoreInt64(&released, 1)
	close(gate)
	wg.Wait()
	p.settle()
	p.pool.Stop()
	m.ops += int64(quick)
	m.Feat("counted down short jobs")
	m.Nontrivial()
}

// runStopped: what a stopped pool does, and stopping again.
func runStopped(c *Case, m *Mon, r *Rng, n int) {
	jobs := c.p("jobs")
	p := newPoolRun(m, n, jobs+5)
	gate := make(chan bool)
	blocked := mini(n, jobs)
	for i := 0; i < jobs; i++ {
		body := func() { yield(2) }
		if i < blocked && c.p("block") == 1 {
			body = func() { <-gate }
		}
		p.do(i, body)
	}
	stops := c.p("stops")
	var wg sync.WaitGroup
	for i := 0; i < stops; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.stop()
			x := 0
			for _, s := range p.slots[:jobs] {
				if s != 0 {
					x++
				}
			}
			if x != jobs {
				p.bad("stop returned with the effects of %d of %d jobs visible", x, jobs)
			}
		}()
	}
	yield(r.Pick(0, 10, 100))
	if c.p("block") == 1 && jobs > 0 && atomic.LoadInt32(&p.stopEnded) == 1 {
		p.bad("stop returned with blocked jobs")
	}
	close(gate)
	wg.Wait()
	for i := 0; i < 2; i++ {
		if p.do(jobs+i, nil) {
			p.bad("a stopped pool accepted a job")
		}
	}
	p.hold(3, false)
	p.stop()
	if p.do(jobs+2, nil) {
		p.bad("a stopped pool accepted a job")
	}
	p.audit(jobs + 5)
	m.FeatN("concurrent stops", stops)
	m.Nontrivial()
}

func init() {
	procs := func(r *Rng) int { return r.Pick(1, 2, 3, 4) }
	us := func(r *Rng) int { return r.N(1 << 30) }
	register(&Property{
		ID: "C24", Race: true, Shards: 4, Repeat: 200,
		Rule: "Pools of 1 to 65 workers under the race detector: concurrent submitters, stop at a random point or after the submitters, queues filled beyond capacity with all workers blocked, jobs that wait for each other to keep all workers busy, and jobs that submit jobs. Every job counts its executions, every submitter keeps the answer. Non-trivial: at least one job ran.",
		Families: []Family{
			{Name: "storm", N: constN(2500, 30000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "storm", P: map[string]int{"procs": procs(r), "n": r.Pick(1, 1, 2, 3, 8, 40), "subs": r.In(1, 6), "jobs": r.Pick(1, 5, 20, 60), "stops": r.N(3), "late": r.N(2), "delay": r.Pick(5, 50, 400), "slow": r.N(2), "us": us(r)}}
			}},
			{Name: "full", N: constN(200, 2400), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "full", P: map[string]int{"procs": procs(r), "n": r.In(1, 4), "subs": r.Pick(1, 2, 4), "extra": r.N(60), "then": r.N(4), "us": us(r)}}
			}},
			{Name: "nested", N: constN(800, 9000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "nested", P: map[string]int{"procs": procs(r), "n": r.In(1, 5), "roots": r.In(1, 10), "kids": r.In(1, 4), "stop": r.N(2), "us": us(r)}}
			}},
			{Name: "busy", N: constN(60, 600), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "busy", P: map[string]int{"procs": procs(r), "n": r.Pick(2, 5, 9, 17, 33, 65), "subs": r.Pick(1, 2, 4), "us": us(r)}}
			}},
		},
		Run: runPool,
	})
	register(&Property{
		ID: "C25", Race: true, Shards: 4, Repeat: 200,
		Rule: "Pools under the race detector with goroutines that take the waiting lock, read the results of jobs without other synchronization and look for jobs starting or being accepted meanwhile; waiting counts around jobs that finish one by one on command; repeated and concurrent stops with blocked jobs. Non-trivial: at least one job ran.",
		Families: []Family{
			{Name: "holds", N: constN(1200, 15000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "storm", P: map[string]int{"procs": procs(r), "n": r.Pick(1, 2, 3, 8), "subs": r.In(1, 4), "jobs": r.Pick(1, 5, 20, 60), "stops": r.N(2), "late": r.N(2), "delay": r.Pick(5, 50, 400), "slow": r.N(2), "holders": r.In(1, 2), "holds": r.In(1, 8), "us": us(r)}}
			}},
			{Name: "stops", N: constN(800, 9000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "storm", P: map[string]int{"procs": procs(r), "n": r.Pick(1, 2, 3, 8), "subs": r.In(1, 4), "jobs": r.Pick(5, 20, 60), "stops": r.In(1, 3), "late": r.N(2), "delay": r.Pick(5, 50, 400), "slow": 1, "us": us(r)}}
			}},
			{Name: "stopped", N: constN(1200, 15000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "stopped", P: map[string]int{"procs": procs(r), "n": r.In(1, 6), "jobs": r.Pick(0, 1, 3, 12, 40), "block": r.N(2), "stops": r.In(1, 4), "us": us(r)}}
			}},
			{Name: "count", N: constN(1200, 15000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "count", P: map[string]int{"procs": procs(r), "n": r.In(1, 6), "k": r.In(1, 9), "quick": r.Pick(0, 0, 3, 12), "us": us(r)}}
			}},
			{Name: "countdown", N: constN(3000, 40000), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "countdown", P: map[string]int{"procs": r.In(2, 6), "n": r.In(2, 6), "quick": r.Pick(2, 10, 40, 90), "waiters": r.In(1, 2), "us": us(r)}}
			}},
			{Name: "full", N: constN(100, 1200), Gen: func(r *Rng, j int, t bool) *Case {
				return &Case{Kind: "full", P: map[string]int{"procs": procs(r), "n": r.In(1, 3), "subs": r.Pick(1, 2, 4), "extra": r.N(60), "then": r.In(1, 2), "us": us(r)}}
			}},
		},
		Run: runPool,
	})
}
