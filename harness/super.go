package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	// Limits on one case. The whole case list of a worker normally takes
	// a few seconds of CPU time.
	caseCPULimit  = 60 * time.Second // four times as much at the thorough tier
	caseIdleLimit = 70 * time.Second
	// Once some worker has found a violation the others only get this much.
	lateLimit     = 15 * time.Second
	rssLimit      = 6 << 30
	exitViolation = 3
	exitRace      = 66
)

// ReplayFile is what is written for a violation.
type ReplayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     string `json:"seed"`
	What     string `json:"what"`
	How      string `json:"how_to_replay"`
	Case     *Case  `json:"case"`
	Original *Case  `json:"original,omitempty"`
}

// WorkerResult is what a worker leaves behind.
type WorkerResult struct {
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Ops         int64            `json:"ops"`
	Audits      int64            `json:"audits"`
	Feats       map[string]int64 `json:"feats"`
	Samples     []string         `json:"samples"`
	Fail        *Failure         `json:"fail,omitempty"`
	Known       []Failure        `json:"known,omitempty"`
}

type Failure struct {
	Idx      int    `json:"idx"`
	Sig      string `json:"sig"`
	Text     string `json:"text"`
	Case     *Case  `json:"case"`
	Original *Case  `json:"original,omitempty"`
}

// ---- worker ----

// worker runs the cases of one shard: ID shard shards dir [only-case]
func worker(args []string) {
	p := prop(args[0])
	shard, _ := strconv.Atoi(args[1])
	shards, _ := strconv.Atoi(args[2])
	dir := args[3]
	from, to := 0, -1
	if len(args) > 4 {
		from, _ = strconv.Atoi(args[4])
		to = from + 1
	}
	seed, thorough := envSeed(), envTier() == "thorough"
	if p.Procs > 0 {
		runtime.GOMAXPROCS(p.Procs)
	} else {
		runtime.GOMAXPROCS(2)
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	journal, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	res := &WorkerResult{Feats: map[string]int64{}}
	sigs := map[uint64]bool{}
	known := loadKnown(p.ID)
	n := p.count(thorough)
	if to < 0 {
		to = n
	}
	buf := make([]byte, 8)
	for i := from; i < to; i++ {
		if i%shards != shard && len(args) <= 4 {
			continue
		}
		binary.LittleEndian.PutUint64(buf, uint64(i)+1)
		journal.WriteAt(buf, 0)
		c := p.gen(seed, i, thorough)
		m, v := runCase(p, c)
		if v != nil {
			if _, ok := known[v.Sig]; ok && v.Sig != "" {
				res.Known = append(res.Known, Failure{Idx: i, Sig: v.Sig, Text: v.Text})
			} else {
				// first leave the unshrunk case behind, in case shrinking
				// takes the process down
				res.Fail = &Failure{Idx: i, Sig: v.Sig, Text: v.Text, Case: c}
				writeResult(dir, shard, res, sigs)
				c2, v2 := shrink(p, c, v)
				res.Fail = &Failure{Idx: i, Sig: v2.Sig, Text: v2.Text, Case: c2, Original: c}
				writeResult(dir, shard, res, sigs)
				os.Exit(exitViolation)
			}
		}
		res.Evaluations++
		res.Ops += m.ops
		res.Audits += m.audits
		for k, x := range m.feats {
			res.Feats[k] += x
		}
		if m.nontrivial {
			res.Nontrivial++
			if len(sigs) < 4000000 {
				sigs[m.sig] = true
			}
			if len(res.Samples) < 2 && (i/shards)%97 == (shard*13)%97 {
				res.Samples = append(res.Samples, c.String())
			}
		}
	}
	writeResult(dir, shard, res, sigs)
	binary.LittleEndian.PutUint64(buf, ^uint64(0))
	journal.WriteAt(buf, 0)
	os.Exit(0)
}

func writeResult(dir string, shard int, res *WorkerResult, sigs map[uint64]bool) {
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tmp := filepath.Join(dir, fmt.Sprintf("result.%d.tmp", shard))
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(dir, fmt.Sprintf("result.%d", shard)))
	var sb bytes.Buffer
	for s := range sigs {
		binary.Write(&sb, binary.LittleEndian, s)
	}
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("sigs.%d", shard)), sb.Bytes(), 0o644)
}

// ---- known findings ----

func verifDir() string {
	if d := os.Getenv("DSCHECK_HOME"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads the known findings of a property: signature -> description.
func loadKnown(id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			known[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
		}
	}
	return known
}

// ---- supervisor ----

type workerEnd struct {
	shard int
	code  int
	why   string // set when the supervisor killed it
	late  bool   // killed because another worker found a violation
	idx   int    // the case it was in
	dir   string // where the result is
	out   string
}

func supervise(p *Property) int {
	start := time.Now()
	seed, tier := envSeed(), envTier()
	dir := os.Getenv("DSCHECK_WORK")
	if dir == "" {
		fmt.Fprintln(os.Stderr, "DSCHECK_WORK not set")
		return 2
	}
	bin := os.Getenv("DSCHECK_WORKER")
	if bin == "" {
		bin, _ = os.Executable()
	}
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	ends := make([]workerEnd, shards)
	found := new(atomic.Bool)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			ends[s] = runShard(bin, p, dir, s, shards, found)
		}(s)
	}
	wg.Wait()

	total := &WorkerResult{Feats: map[string]int64{}}
	sigs := map[uint64]bool{}
	var fails []Failure
	knownSeen := map[string]string{}
	known := loadKnown(p.ID)
	internal := ""
	for s := 0; s < shards; s++ {
		e := ends[s]
		if e.late {
			continue
		}
		res := readResult(e.dir, s, sigs)
		if res != nil {
			total.Evaluations += res.Evaluations
			total.Nontrivial += res.Nontrivial
			total.Ops += res.Ops
			total.Audits += res.Audits
			for k, v := range res.Feats {
				total.Feats[k] += v
			}
			total.Samples = append(total.Samples, res.Samples...)
			for _, k := range res.Known {
				knownSeen[k.Sig] = k.Text
			}
		}
		if e.code == 0 && e.why == "" {
			if res == nil {
				internal = fmt.Sprintf("worker %d left no result", s)
			}
			continue
		}
		if res != nil && res.Fail != nil {
			fails = append(fails, *res.Fail)
			continue
		}
		// The worker died. Attribute it to the case it was in.
		if e.idx < 0 {
			internal = fmt.Sprintf("worker %d ended with code %d outside of any case\n%s", s, e.code, e.out)
			continue
		}
		c := p.gen(seed, e.idx, tier == "thorough")
		if e.why != "" {
			fails = append(fails, Failure{Idx: e.idx, Case: c, Text: e.why + "\n" + tail(e.out, 3000)})
			continue
		}
		what := fmt.Sprintf("the process died with code %d", e.code)
		if e.code == exitRace {
			what = "data race"
		}
		fails = append(fails, Failure{Idx: e.idx, Case: c, Text: what + "\n" + head(e.out, 6000)})
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Idx < fails[j].Idx })

	violations := 0
	code := 0
	for sig := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[sig])
	}
	if len(fails) > 0 {
		violations = len(fails)
		code = 1
		f := fails[0]
		path := writeReplay(p, tier, f)
		fmt.Println(f.Case)
		fmt.Println(head(f.Text, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	} else if internal != "" {
		fmt.Fprintln(os.Stderr, "internal error:", internal)
		code = 2
	}
	if code != 2 {
		writeEvidence(p, tier, seed, total, len(sigs), violations, len(knownSeen), time.Since(start))
	}
	if code == 0 {
		fmt.Printf("%s held: %d cases, %d distinct non-trivial, %d operations, %d audits, %.1fs\n", p.ID, total.Evaluations, len(sigs), total.Ops, total.Audits, time.Since(start).Seconds())
	}
	return code
}

// runShard runs the worker of one shard. A worker killed by a limit counts only
// if that happens again: to its last case alone or to the whole shard.
func runShard(bin string, p *Property, dir string, s, shards int, found *atomic.Bool) workerEnd {
	e := runWorker(bin, p, dir, s, shards, -1, found)
	e.dir, e.idx = dir, readJournal(dir, s)
	res := readResult(dir, s, map[uint64]bool{})
	if e.why != "" && !e.late && e.idx >= 0 && (res == nil || res.Fail == nil) {
		sub := filepath.Join(dir, fmt.Sprintf("again.%d", s))
		os.MkdirAll(sub, 0o755)
		e2 := runWorker(bin, p, sub, 0, 1, e.idx, found)
		if e2.code == 0 && e2.why == "" {
			// It passes alone: give the whole shard a second chance.
			e2 = runWorker(bin, p, sub, s, shards, -1, found)
			if !e2.late {
				e = e2
				e.dir, e.idx = sub, readJournal(sub, s)
			}
		}
		e.late = e2.late
	}
	if !e.late && (e.code != 0 || e.why != "") {
		found.Store(true)
	}
	return e
}

func runWorker(bin string, p *Property, dir string, shard, shards, only int, found *atomic.Bool) workerEnd {
	args := []string{"worker", p.ID, strconv.Itoa(shard), strconv.Itoa(shards), dir}
	if only >= 0 {
		args = append(args, strconv.Itoa(only))
	}
	limit := caseCPULimit
	if envTier() == "thorough" {
		limit *= 4
	}
	cmd := exec.Command(bin, args...)
	outPath := filepath.Join(dir, fmt.Sprintf("out.%d", shard))
	out, err := os.Create(outPath)
	if err != nil {
		return workerEnd{shard: shard, code: 2, out: err.Error()}
	}
	defer out.Close()
	cmd.Stdout = out
	cmd.Stderr = out
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single")
	if err := cmd.Start(); err != nil {
		return workerEnd{shard: shard, code: 2, out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	why, late := "", false
	last, lastCPU, lastAt := -2, time.Duration(0), time.Now()
	lastMoveCPU := time.Duration(0)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			code := cmd.ProcessState.ExitCode()
			b, _ := os.ReadFile(outPath)
			return workerEnd{shard: shard, code: code, why: why, late: late, out: string(b)}
		case <-tick.C:
			cpu, rss := procStat(cmd.Process.Pid)
			cur := readJournal(dir, shard)
			if cur != last {
				last, lastCPU = cur, cpu
				lastAt, lastMoveCPU = time.Now(), cpu
				continue
			}
			if cpu-lastMoveCPU > 50*time.Millisecond {
				lastAt, lastMoveCPU = time.Now(), cpu
			}
			if why == "" {
				if found.Load() && (cpu-lastCPU > lateLimit || time.Since(lastAt) > lateLimit) {
					why, late = "another worker has found a violation", true
				} else if cpu-lastCPU > limit {
					why = fmt.Sprintf("no termination: one case used more than %v of CPU time", limit)
				} else if time.Since(lastAt) > caseIdleLimit {
					why = fmt.Sprintf("blocked: one case made no progress and used no CPU time for %v", caseIdleLimit)
				} else if rss > rssLimit {
					why = fmt.Sprintf("memory: one case made the process grow beyond %d GiB", rssLimit>>30)
				}
				if why != "" {
					cmd.Process.Signal(sigQuit)
					time.AfterFunc(3*time.Second, func() { cmd.Process.Kill() })
				}
			}
		}
	}
}

func readJournal(dir string, shard int) int {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
	if err != nil || len(b) < 8 {
		return -1
	}
	x := binary.LittleEndian.Uint64(b)
	if x == 0 || x == ^uint64(0) {
		return -1
	}
	return int(x - 1)
}

func readResult(dir string, shard int, sigs map[uint64]bool) *WorkerResult {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result.%d", shard)))
	if err != nil {
		return nil
	}
	res := &WorkerResult{}
	if json.Unmarshal(b, res) != nil {
		return nil
	}
	s, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("sigs.%d", shard)))
	for i := 0; i+8 <= len(s); i += 8 {
		sigs[binary.LittleEndian.Uint64(s[i:])] = true
	}
	return res
}

// procStat returns CPU time and resident size of a process.
func procStat(pid int) (time.Duration, int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseInt(f[11], 10, 64)
	st, _ := strconv.ParseInt(f[12], 10, 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(ut+st) * 10 * time.Millisecond, rss * 4096
}

func writeReplay(p *Property, tier string, f Failure) string {
	dir := filepath.Join(verifDir(), "replay")
	os.MkdirAll(dir, 0o755)
	rf := ReplayFile{
		Property: p.ID, Tier: tier, Seed: os.Getenv("VERIF_SEED"), What: f.Text,
		Case: f.Case, Original: f.Original,
	}
	b, _ := json.Marshal(rf.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, strHash(string(b))))
	rf.How = "./check.sh replay " + path
	b, _ = json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(p *Property, tier string, seed uint64, t *WorkerResult, distinct, violations, known int, wall time.Duration) {
	samples := t.Samples
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if len(samples) == 0 {
		samples = []string{p.gen(seed, 0, tier == "thorough").String()}
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     tier,
		"seed":     int64(seed),
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         t.Evaluations,
			"nontrivial":          t.Nontrivial,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"operations":          t.Ops,
			"audits":              t.Audits,
			"features":            t.Feats,
			"race_detector":       p.Race,
			"exhaustive":          false,
		},
		"wall_s":         wall.Seconds(),
		"violations":     violations,
		"known_findings": known,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	tmp := filepath.Join(dir, p.ID+".json.tmp")
	os.WriteFile(tmp, append(b, '\n'), 0o644)
	os.Rename(tmp, filepath.Join(dir, p.ID+".json"))
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "...\n" + s[len(s)-n:]
	}
	return s
}
