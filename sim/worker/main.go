// Command worker runs simulated executions of github.com/aureleoules/btc. It is
// built by the driver from the instrumented sources.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"

	"verif.local/sim/simrt"
)

// Job is what a worker process is asked to do.
type Job struct {
	Prop  string  `json:"prop,omitempty"`
	Seed  uint64  `json:"seed"`
	Life  uint64  `json:"life"`
	From  int     `json:"from"`
	To    int     `json:"to"`
	Tier  string  `json:"tier"`
	Specs []*Spec `json:"specs,omitempty"` // run these instead
	Trace bool    `json:"trace,omitempty"` // report specs and traces of every run
	First bool    `json:"first,omitempty"` // report the spec of the first run
	Gen   bool    `json:"gen,omitempty"`   // only report the specs

	// what a process of its own found, so that this one starts untouched
	Calib  bool     `json:"calib,omitempty"` // be that process
	Exact  *bool    `json:"exact,omitempty"`
	Canary []string `json:"canary,omitempty"`
}

// Summary ends the output of a worker.
type Summary struct {
	Done    bool             `json:"done"`
	Counts  map[string]int64 `json:"counts"`
	Pairs   []uint64         `json:"pairs"`
	Exact   bool             `json:"exact"`
	BadList int              `json:"badlist"`
	Err     string           `json:"err,omitempty"`
	Canary  []string         `json:"canary,omitempty"`
}

var proto *bufio.Writer
var protoFile *os.File

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	proto.Write(b)
	proto.WriteByte('\n')
	proto.Flush()
}

// fail reports trouble of the harness itself.
func fail(msg string) {
	emit(Summary{Err: msg, Counts: map[string]int64{}})
	os.Exit(3)
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	log.SetFlags(0)
	protoFile = os.NewFile(3, "proto")
	proto = bufio.NewWriter(protoFile)
	simrt.RandHook = simReader{}
	initLists()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: worker run|recover")
		os.Exit(3)
	}
	dec := json.NewDecoder(os.Stdin)
	switch os.Args[1] {
	case "recover":
		childOK = false
		var sp Spec
		if err := dec.Decode(&sp); err != nil {
			os.Exit(3)
		}
		ar := runAPI(&sp)
		emit(outsOf(ar))
		return
	case "run":
	default:
		os.Exit(3)
	}
	var job Job
	if err := dec.Decode(&job); err != nil {
		fail("bad job: " + err.Error())
	}
	initSmallPoints()
	if job.Calib {
		c := canaries()
		calibrate()
		emit(Summary{Counts: counts, Exact: genIdentity, Canary: c, Done: true})
		return
	}
	// every other life finds the library as it is after package initialisation
	warm := job.Life%2 == 0
	if len(job.Specs) > 0 {
		warm = job.Specs[0].Warm
	}
	if job.Exact == nil || warm {
		calibrate()
	}
	if job.Exact != nil {
		genIdentity = *job.Exact
	}
	if !warm {
		canary = job.Canary
	}
	stdText()
	captured()
	sum := Summary{Counts: counts, Exact: genIdentity, BadList: badList}
	pairs := map[uint64]bool{}
	n := job.To - job.From
	if len(job.Specs) > 0 {
		n = len(job.Specs)
	}
	for i := 0; i < n; i++ {
		var sp *Spec
		if len(job.Specs) > 0 {
			sp = job.Specs[i]
		} else {
			sp = genSpec(job.Prop, job.Seed, job.Life, job.From+i, job.Tier)
		}
		if job.Gen {
			emit(RunResult{Run: sp.Run, Scen: sp.Scen, Spec: sp})
			continue
		}
		rr := runSpec(sp, pairs)
		if job.Trace || rr.Viol != nil || job.First && i == 0 {
			c := *sp
			rr.Spec = &c
		}
		if !job.Trace && rr.Viol == nil {
			rr.Trace, rr.Sites = nil, nil
		}
		emit(rr)
		if rr.Viol != nil {
			break
		}
	}
	for p := range pairs {
		sum.Pairs = append(sum.Pairs, p)
	}
	sort.Slice(sum.Pairs, func(i, j int) bool { return sum.Pairs[i] < sum.Pairs[j] })
	sum.Done = true
	emit(sum)
}

var counts = map[string]int64{}

var canary []string

// runSpec executes one run and checks its property.
func runSpec(sp *Spec, pairs map[uint64]bool) RunResult {
	rr := RunResult{Run: sp.Run, Scen: sp.Scen}
	seqBase = seqNo
	simrt.ClockReset(sp.Clock)
	jumpsBefore := simrt.Jumps
	if sp.Prop == "C02" && canary == nil {
		canary = canaries()
	}
	before := faultTotal()
	raceBefore := raceErrors()
	var ars []*apiRun
	switch {
	case sp.Store != nil:
		sr, v := runStore(sp)
		ars = append(ars, sr.first)
		ars = append(ars, sr.extra...)
		rr.Viol = v
		addCounts(sr.counts)
		counts["disk.freshprocess"] += int64(sr.kids)
		rr.SimTime += sr.counts["simtime"]
		counts["simtime"] = 0
		rr.Hash = hashAll(ars)
	case sp.Party != nil:
		pr, v := runParty(sp)
		ars = append(ars, pr.ar)
		rr.Viol = v
		addCounts(pr.counts)
		rr.SimTime += int64(pr.ticks) * 1e8
		rr.Steps, rr.Switches = pr.steps, pr.sw
		rr.Hash, rr.Sched = pr.hash, pr.sched
	case sp.Leak != nil:
		ar, v, c := runLeak(sp)
		ars = append(ars, ar)
		rr.Viol = v
		addCounts(c)
		rr.Hash = hashAll(ars)
	case sp.Endure != nil:
		ar, v := runEndure(sp)
		ars = append(ars, ar)
		rr.Viol = v
		rr.Tasks, rr.Ops = sp.Endure.Tasks, ar.endCalls
		rr.Hash = hashAll(ars)
	case sp.Scen == "leak-scan":
		ar, v := runScan(sp)
		ars = append(ars, ar)
		rr.Viol = v
		rr.Hash = hashAll(ars)
		rr.Trace, rr.Sites = ar.trace, ar.stats.PairHash
	default:
		ar := runAPI(sp)
		ars = append(ars, ar)
		rr.Viol = check(sp, ar)
		rr.Hash = hashAll(ars)
		rr.Trace, rr.Sites = ar.trace, ar.stats.PairHash
	}
	for _, ar := range ars {
		for _, t := range ar.ts {
			for i := range t.recs {
				r := &t.recs[i]
				rr.Ops++
				counts["call."+r.op.K+"."+r.out.St]++
				if r.op.Scr != 0 {
					counts["owner.overwrites"]++
				}
				if r.must {
					counts["entropy.failedcall"]++
				}
				if r.op.K == "gen" && len(r.ent) > 32 {
					counts["entropy.redraw"]++
				}
			}
			e := &t.env
			counts["entropy.shortread"] += e.shorts
			counts["entropy.emptyread"] += e.empties
			for k, n := range e.errs {
				if n > 0 && k < len(entErrNames) {
					counts["entropy.error "+entErrNames[k]] += n
				}
			}
		}
		rr.Tasks += len(ar.ts)
		if sp.Party == nil {
			rr.Steps += ar.stats.Steps
			rr.Switches += ar.stats.Switches
			rr.Sched = (rr.Sched ^ ar.stats.SchedHash) * 1099511628211
		}
		for _, p := range ar.stats.PairHash {
			if len(pairs) < 20000 {
				pairs[p] = true
			}
		}
		if ar.watch != nil {
			counts["invariant.checks"] += ar.watch.checks
		}
	}
	counts["switches"] += rr.Switches
	counts["entropy.stall"] = stalls
	counts["entropy.stallended"] = heldUp
	counts["clock.jump"] += simrt.Jumps - jumpsBefore
	rr.SimTime += simrt.ClockPassed() + rr.Steps*1000 // one microsecond per step
	rr.Faults = faultTotal() - before
	if n := raceErrors(); n > raceBefore && rr.Viol == nil {
		rr.Viol = &Violation{Prop: sp.Prop, Kind: "race", Detail: "data race between calls" + raceText()}
	}
	if sp.Prop == "C02" && rr.Viol == nil {
		now := canaries()
		for i := range now {
			if now[i] != canary[i] {
				rr.Viol = &Violation{Prop: sp.Prop, Kind: "later", Detail: fmt.Sprintf("later results changed: canary call %d gives %s, gave %s when the process started", i, clip(now[i]), clip(canary[i]))}
				break
			}
		}
	}
	return rr
}

var faultKeys = []string{"entropy.shortread", "entropy.emptyread", "entropy.failedcall", "entropy.stall", "disk.torn", "disk.crash", "disk.shortwrite", "disk.syncfail", "disk.damagedtail",
	"net.drop", "net.duplicate", "net.delay", "net.corrupt", "net.partitioned", "net.lostdown", "node.crash", "log.fault", "owner.overwrites", "clock.jump", "switches"}

func faultTotal() int64 {
	var n int64
	for _, k := range faultKeys {
		n += counts[k]
	}
	return n
}

func addCounts(c map[string]int64) {
	for k, n := range c {
		counts[k] += n
	}
}

func hashAll(ars []*apiRun) uint64 {
	h := fnv.New64a()
	for _, ar := range ars {
		fmt.Fprintf(h, "%d;", hashRun(ar))
	}
	return h.Sum64()
}

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}
