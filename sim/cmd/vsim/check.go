package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Checker decides one property on one tree.
type Checker struct {
	Prop, Tier string
	Seed       uint64
	Root, Repo string
	Scale      float64
	b          *Build
	start      time.Time
}

// batch is a set of lives of one kind.
type batch struct {
	race  bool
	lives int
	runs  int // per life
}

// budget says how many lives each property gets.
func budget(prop, tier string) []batch {
	b, ok := budgets[prop]
	if !ok {
		return nil
	}
	out := append([]batch(nil), b...)
	if tier == "thorough" {
		for i := range out {
			out[i].lives *= 12
		}
	}
	return out
}

// Short lives start from a fresh process, long ones (the last batch of a line)
// let history build up.
var budgets = map[string][]batch{
	"C01": {{false, 240, 20}, {true, 160, 8}, {false, 12, 160}},
	"C02": {{false, 320, 20}, {false, 16, 160}},
	"C03": {{false, 3000, 40}, {false, 40, 600}},
	"C04": {{false, 3000, 40}, {false, 40, 600}},
	"C05": {{false, 480, 40}, {false, 12, 300}},
	"C06": {{false, 3000, 40}, {false, 40, 600}},
	"C07": {{false, 640, 20}, {false, 16, 160}},
	"C08": {{false, 2400, 40}, {false, 32, 500}},
	"C09": {{false, 1000, 30}, {false, 16, 300}},
	"C10": {{false, 1000, 12}, {false, 16, 160}},
	"C11": {{false, 1200, 30}, {false, 16, 300}},
	"C12": {{false, 640, 20}, {false, 16, 160}},
	"C13": {{false, 200, 40}, {false, 8, 300}},
	"C15": {{false, 800, 1}},
	"C14": {{false, 600, 20}, {false, 16, 160}},
}

// explored is what a check went through.
type explored struct {
	mu       sync.Mutex
	lives    int
	planned  int
	runs     int
	calls    int64
	steps    int64
	switches int64
	faults   int64
	simNs    int64
	tasks    int64
	counts   map[string]int64
	scens    map[string]int
	hashes   map[uint64]bool // distinct runs in which something happened
	scheds   map[uint64]bool
	pairs    map[uint64]bool
	seeds    int
	exact    int
	samples  []any
	raceRuns int
	repeated int
	differed int
	lifeHash map[int][]uint64
	badlist  int
}

func newExplored() *explored {
	return &explored{counts: map[string]int64{}, scens: map[string]int{}, hashes: map[uint64]bool{}, scheds: map[uint64]bool{}, pairs: map[uint64]bool{}, lifeHash: map[int][]uint64{}}
}

func (e *explored) add(id int, race bool, l *life) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.lives++
	var hs []uint64
	for i := range l.runs {
		r := &l.runs[i]
		e.runs++
		e.scens[r.Scen]++
		e.calls += int64(r.Ops)
		e.steps += r.Steps
		e.switches += r.Switches
		e.faults += r.Faults
		e.simNs += r.SimTime
		e.tasks += int64(r.Tasks)
		if race {
			e.raceRuns++
		}
		if r.Faults > 0 || r.Switches > 0 {
			e.hashes[r.Hash] = true
		}
		if r.Switches > 0 {
			e.scheds[r.Sched] = true
		}
		hs = append(hs, r.Hash)
		if r.Spec != nil && r.Viol == nil && len(e.samples) < 3 {
			e.samples = append(e.samples, sample(r))
		}
	}
	if !race && id >= 0 {
		e.lifeHash[id] = hs
	}
	for k, n := range l.sum.Counts {
		e.counts[k] += n
	}
	for _, p := range l.sum.Pairs {
		e.pairs[p] = true
	}
	if l.sum.Exact {
		e.exact++
	}
	e.badlist += l.sum.BadList
}

// sample is a run written out, cut to size.
func sample(r *RunResult) any {
	sp := *r.Spec
	for i := range sp.Tasks {
		if len(sp.Tasks[i].Ops) > 12 {
			sp.Tasks = append([]TaskSpec(nil), sp.Tasks...)
			sp.Tasks[i].Ops = sp.Tasks[i].Ops[:12]
		}
	}
	if sp.Party != nil {
		p := *sp.Party
		if len(p.Acts) > 20 {
			p.Acts = p.Acts[:20]
		}
		sp.Party = &p
	}
	return map[string]any{"run": r.Run, "scenario": r.Scen, "calls": r.Ops, "steps": r.Steps, "switches": r.Switches, "faults": r.Faults, "hash": fmt.Sprintf("%016x", r.Hash), "spec": sp}
}

type job1 struct {
	id   int
	race bool
	job  Job
}

// failure is a life that ended with a violation or died.
type failure struct {
	j job1
	l *life
}

func (c *Checker) bin(race bool) string {
	if race {
		return c.b.Race
	}
	return c.b.Plain
}

func lifeLimit(race bool) time.Duration {
	return 75 * time.Second
}

// deathCounts: for these properties a call that takes the process down is a
// violation; for the others it is somebody else's.
func deathCounts(prop string) bool {
	switch prop {
	case "C02", "C06", "C11", "C12":
		return false
	}
	return true
}

func (c *Checker) check() int {
	c.start = time.Now()
	bs := budget(c.Prop, c.Tier)
	if bs == nil {
		die(2, "unknown property %q", c.Prop)
	}
	needRace := false
	for _, b := range bs {
		needRace = needRace || b.race
	}
	b, err := prepare(c.Root, c.Repo, needRace)
	if b != nil {
		scratchDirs = append(scratchDirs, b.Scratch)
	}
	if err != nil {
		die(2, "the tree does not build: %v", err)
	}
	c.b = b
	calibrate(b.Scratch, b.Plain)
	fmt.Printf("vsim: property %s, tier %s, seed %d, instrumented: %s (%d+%d yield points), built in %.1fs\n", c.Prop, c.Tier, c.Seed, b.Level, len(b.Sites), b.DSites, b.Secs)
	if len(b.Why) > 0 {
		fmt.Printf("vsim: fuller instrumentation failed: %s\n", head(strings.Join(b.Why, "; "), 600))
	}
	var jobs []job1
	for bi, b := range bs {
		n := int(float64(b.lives) * c.Scale)
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			id := bi*1000000 + i
			jobs = append(jobs, job1{id, b.race, Job{Prop: c.Prop, Seed: c.Seed, Life: uint64(id), From: 0, To: b.runs, Tier: c.Tier, First: i < 3}})
		}
	}
	// race lives among the others
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].id%1000000 < jobs[j].id%1000000 })
	limit := 330 * time.Second
	if c.Tier == "thorough" {
		limit = 45 * time.Minute
	}
	ex := newExplored()
	ex.planned = len(jobs)
	fails, herr := c.explore(jobs, ex, c.start.Add(limit))
	if herr != nil {
		die(2, "%v", herr)
	}
	sort.Slice(fails, func(i, j int) bool {
		return fails[i].j.id%1000000*2+fails[i].j.id/1000000 < fails[j].j.id%1000000*2+fails[j].j.id/1000000
	})
	code := 0
	var lines []string
	skippedDeaths := 0
	var unexplained []string
	for _, f := range fails {
		if f.l.viol() == nil && !deathCounts(c.Prop) {
			skippedDeaths++
			continue
		}
		rep, why := c.confirm(f)
		if rep == nil {
			unexplained = append(unexplained, why)
			continue
		}
		path, err := c.save(rep)
		if err != nil {
			die(2, "writing the replay: %v", err)
		}
		fmt.Printf("vsim: %s\n", rep.Kind+": "+head(rep.Detail, 1500))
		for _, s := range rep.Story {
			fmt.Println("vsim:   " + head(s, 400))
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.Prop, path))
		code = 1
		break
	}
	if code == 0 {
		c.repeat(jobs, ex)
	}
	c.evidence(ex, len(lines), skippedDeaths)
	for _, l := range lines {
		fmt.Println(l)
	}
	if code == 0 && len(unexplained) > 0 {
		die(2, "%d lives failed in a way that does not reproduce: %s", len(unexplained), unexplained[0])
	}
	if code == 0 && skippedDeaths > 0 {
		fmt.Printf("vsim: %d lives ended because the process was taken down, which is not this property's concern\n", skippedDeaths)
		if ex.runs < ex.planned {
			die(2, "almost no run finished")
		}
	}
	if code == 0 {
		fmt.Printf("vsim: %s held in %d runs (%d calls, %d distinct) in %d of %d lives, %.1fs\n", c.Prop, ex.runs, ex.calls, len(ex.hashes), ex.lives, ex.planned, time.Since(c.start).Seconds())
	}
	return code
}

// explore runs the jobs; it stops starting new ones after a failure.
func (c *Checker) explore(jobs []job1, ex *explored, deadline time.Time) ([]failure, error) {
	var mu sync.Mutex
	var fails []failure
	var herr error
	next := 0
	nviol := 0
	ndead := 0
	var wg sync.WaitGroup
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || nviol > 0 || ndead > 12 || herr != nil || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				l, err := runJob(c.b.Scratch, c.bin(j.race), j.race, j.job, lifeLimit(j.race))
				mu.Lock()
				if err != nil {
					herr = err
				} else {
					ex.add(j.id, j.race, l)
					if l.viol() != nil {
						fails = append(fails, failure{j, l})
						nviol++
					} else if l.died != "" {
						fails = append(fails, failure{j, l})
						ndead++
						if deathCounts(c.Prop) {
							nviol++
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return fails, herr
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

// repeat runs some lives again and compares everything observed.
func (c *Checker) repeat(jobs []job1, ex *explored) {
	n := 0
	for i := 0; i < len(jobs) && n < 4; i += 1 + len(jobs)/4 {
		j := jobs[i]
		old, ok := ex.lifeHash[j.id]
		if j.race || !ok {
			continue
		}
		n++
		l, err := runJob(c.b.Scratch, c.bin(false), false, j.job, lifeLimit(false))
		if err != nil || len(l.runs) != len(old) {
			ex.differed++
			continue
		}
		for k := range old {
			ex.repeated++
			if l.runs[k].Hash != old[k] {
				ex.differed++
			}
		}
	}
}

func (c *Checker) gitState() string {
	cmd := exec.Command("git", "-C", c.Repo, "describe", "--always", "--dirty")
	o, err := cmd.Output()
	if err != nil {
		return "unknown"
	}
	return strings.TrimSpace(string(o))
}

func (c *Checker) evidence(ex *explored, viol, deaths int) {
	wall := time.Since(c.start).Seconds()
	faults := map[string]int64{}
	calls := map[string]int64{}
	probes := map[string]int64{}
	for k, n := range ex.counts {
		switch {
		case strings.HasPrefix(k, "call."):
			calls[k[5:]] = n
		case strings.HasPrefix(k, "entropy.") || strings.HasPrefix(k, "disk.") || strings.HasPrefix(k, "net.") || strings.HasPrefix(k, "node.") || strings.HasPrefix(k, "log.fault") || strings.HasPrefix(k, "owner.") || strings.HasPrefix(k, "clock."):
			faults[k] = n
		default:
			probes[k] = n
		}
	}
	real := []string{"github.com/aureleoules/btc (every file of the working tree)", "github.com/aureleoules/ecdsa", "github.com/mr-tron/base58", "golang.org/x/crypto (ripemd160, pbkdf2)", "Go standard library, crypto/rand.Int included"}
	stub := []string{"crypto/rand.Reader (simulated entropy source)"}
	if strings.Contains(c.b.Level, "simulated locks") {
		stub = append(stub, "package sync and go statements of the library (simulated locks and tasks), clock and process exit of library and ecdsa")
	}
	if c.b.Rand {
		stub = append(stub, "random choices of the Go runtime (select, map iteration, math/rand)")
	}
	switch c.Prop {
	case "C07":
		stub = append(stub, "disk of the wallet")
	case "C10":
		stub = append(stub, "network and disks of the parties")
	case "C12":
		stub = append(stub, "destination of the process log; standard streams are real files")
	}
	cov := map[string]any{
		"evaluations":         ex.runs,
		"distinct_nontrivial": len(ex.hashes),
		"rule":                "One evaluation is one simulated run (its scenario, calls, faults and schedule drawn from seed, life and run number). Distinct: different hash of everything observed (schedule, steps, results, entropy delivered). Non-trivial: at least one task switch inside library or curve code, or at least one injected fault, happened in the run.",
		"samples":             ex.samples,
		"library_calls":       ex.calls,
		"processes":           ex.lives,
		"processes_planned":   ex.planned,
		"runs_per_hour":       int64(float64(ex.runs) / wall * 3600),
		"seeds_per_hour":      int64(float64(ex.runs) / wall * 3600),
		"simulated_seconds":   float64(ex.simNs) / 1e9,
		"simulated_steps":     ex.steps,
		"task_switches":       ex.switches,
		"distinct_interleavings": map[string]any{
			"count":   len(ex.scheds),
			"measure": "hash of the sequence of (task, steps passed, next task) of a run with at least one switch",
		},
		"distinct_switch_pairs": map[string]any{
			"count":   len(ex.pairs),
			"measure": "pairs (statement at which a task was stopped, statement at which the next one had been stopped) in library code",
		},
		"faults_injected":    faults,
		"calls_by_result":    calls,
		"probes":             probes,
		"scenarios":          ex.scens,
		"race_detector_runs": ex.raceRuns,
		"repeat_check": map[string]any{
			"runs_repeated_in_another_process": ex.repeated, "differed": ex.differed,
		},
		"real_components": real,
		"stub_components": stub,
		"instrumentation": c.b.Level,
		"yield_points":    map[string]int{"library": len(c.b.Sites), "curve dependency": c.b.DSites},
		"exact_key_rule":  fmt.Sprintf("%d of %d processes found on start that a generated key is the last 32 bytes drawn and judged by that", ex.exact, ex.lives),
		"processes_lost":  deaths,
		"tree":            c.gitState(),
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": int64(c.Seed), "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": assumptions(c.Prop),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die(2, "evidence: %v", err)
	}
	dir := filepath.Join(c.Root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(2, "evidence: %v", err)
	}
}

func assumptions(prop string) []string {
	a := []string{
		"the reference model (sim/ref: math/big, crypto/sha256, own RIPEMD-160, base58, BIP-39) is right; it is tested against published vectors",
		"tasks switch only between statements of the library and of the curve dependency; the race detector lives of C01 cover unsynchronised accesses within a statement",
	}
	switch prop {
	case "C03", "C04", "C05", "C06":
		a = append(a, "the library reads its randomness through crypto/rand.Reader")
	case "C14":
		a = append(a, "a stalled source goes on when no call can make progress any more")
	case "C15":
		a = append(a, "what is on the heap after a garbage collection and was not there before, beyond 6000 bytes and 2 bytes per call, is kept by the library; growth that stops within 6000 calls is a cache of bounded size")
	case "C07":
		a = append(a, "the wallet frames its records; what was synced stays as written")
	}
	return a
}

// determinism runs lives of every property twice, with different numbers of
// processes at once, and compares.
func (c *Checker) determinism(lives int) int {
	c.start = time.Now()
	b, err := prepare(c.Root, c.Repo, true)
	if b != nil {
		scratchDirs = append(scratchDirs, b.Scratch)
	}
	if err != nil {
		die(2, "build: %v", err)
	}
	c.b = b
	calibrate(b.Scratch, b.Plain)
	if lives == 0 {
		lives = 6
	}
	bad := 0
	total := 0
	var props []string
	for p := range budgets {
		if c.Prop == "" || c.Prop == p {
			props = append(props, p)
		}
	}
	sort.Strings(props)
	for _, p := range props {
		var jobs []job1
		for bi, bt := range budget(p, "quick") {
			for i := 0; i < lives; i++ {
				id := bi*1000000 + i
				jobs = append(jobs, job1{id, bt.race, Job{Prop: p, Seed: c.Seed + uint64(i%5), Life: uint64(id), To: bt.runs, Tier: "quick"}})
			}
		}
		res := [3][][]RunResult{}
		for round := 0; round < 3; round++ {
			res[round] = make([][]RunResult, len(jobs))
			sem := make(chan bool, []int{8, 1, 16}[round])
			if lives > 8 {
				sem = make(chan bool, []int{8, 3, 16}[round])
			}
			var wg sync.WaitGroup
			for i := range jobs {
				wg.Add(1)
				sem <- true
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					l, err := runJob(c.b.Scratch, c.bin(jobs[i].race), jobs[i].race, jobs[i].job, lifeLimit(true))
					if err != nil {
						die(2, "%v", err)
					}
					res[round][i] = l.runs
				}()
			}
			wg.Wait()
		}
		diff, n := 0, 0
		for i := range jobs {
			for k := range res[0][i] {
				n++
				for round := 1; round < 3; round++ {
					if k >= len(res[round][i]) || res[round][i][k].Hash != res[0][i][k].Hash || res[round][i][k].Steps != res[0][i][k].Steps {
						diff++
						fmt.Printf("%s life %d run %d (race %v) differs in round %d\n", p, jobs[i].id, k, jobs[i].race, round)
						break
					}
				}
			}
		}
		fmt.Printf("%s: %d runs three times, %d differ\n", p, n, diff)
		total += n
		bad += diff
	}
	fmt.Printf("determinism: %d runs, %d differ, %.0fs\n", total, bad, time.Since(c.start).Seconds())
	if bad > 0 {
		return 1
	}
	return 0
}
