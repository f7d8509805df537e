// Package simrt is the runtime of the deterministic simulator. The check
// inserts calls to Y (library code) and D (the curve dependency) before every
// statement of the code under test; while a simulation runs, exactly one task
// (a caller goroutine) is ever released at a time and these calls decide, from
// the run's seed or from a recorded schedule, who runs next.
//
// All functions that touch scheduler state are go:norace and hand over control
// by the runtime's bare semaphores with GOMAXPROCS=1, so that in the race build the scheduler creates no happens-before edges of its own: the race
// detector then judges exactly the synchronisation that the code under test has.
package simrt

import (
	"fmt"
	"log"
	"runtime"
	"sync"
	"time"
	_ "unsafe" // linkname
)

// MaxSwitches bounds the recorded switches of a run; later ones are hashed only.
const MaxSwitches = 1 << 13

const (
	stRunnable = iota
	stBlocked  // waits for a Wake (simulated lock)
	stOutside  // inside a real blocking operation (channel)
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID      int
	Data    any // harness data of the task
	state   int
	steps   int64 // yields passed
	bsteps  int64
	next    int64 // local step at which to switch (random countdown or recorded)
	pos     int   // position in the recorded schedule of this task
	last    int32 // last library site passed
	opStart int64
	plan    []Switch // recorded switches of this task
	sema    uint32
	harness bool // a caller, not a goroutine of the library
}

// Switch is one recorded scheduling decision: task From, having passed Step
// yields, hands over to task To.
type Switch struct {
	From int   `json:"f"`
	Step int64 `json:"s"`
	To   int   `json:"t"`
}

// Policy drives random scheduling.
type Policy struct {
	Seed     uint64   `json:"seed"`
	BProb    float64  `json:"bprob,omitempty"`  // probability of a switch at a library yield
	DMean    int64    `json:"dmean,omitempty"`  // mean quantum in dependency yields, 0 for never
	Points   []int64  `json:"points,omitempty"` // switch at these global library-yield numbers
	Explicit []Switch `json:"explicit,omitempty"`
	Replay   bool     `json:"replay,omitempty"` // follow Explicit only
}

// Stats of a run.
type Stats struct {
	Steps, BSteps, Switches, Blocks, Spawned int64
	Carried                                  int // goroutines of the library left over from earlier runs
	SchedHash                                uint64
	Deadlock, StepLimit, Exited              bool
	ExitMsg                                  string
	PairHash                                 []uint64
}

type sim struct {
	tasks   []*Task // by number
	act     []*Task // those that have not finished, in the same order
	n       int
	live    int
	hlive   int // callers that have not finished
	left    int64
	over    bool
	mon     bool
	leaver  *Task
	pol     Policy
	rng     uint64
	rng2    uint64 // stream of simulated primitives, independent of scheduling
	bthresh uint64
	bcount  int64
	pidx    int
	perTask map[int][]Switch
	rec     []Switch
	nrec    int
	stats   Stats
	limit   int64
	oplimit int64
	abort   bool
	outside int
	pairs   [2048]uint64
	npairs  int
	done    chan struct{}
	join    sync.WaitGroup
}

var (
	cur *Task
	s   *sim
	// OnYield, if set, is called at library yields in plain builds (invariants).
	OnYield func()
	// OnStuck, if set, is called when nobody can run. If it returns true, the
	// tasks that wait try again; otherwise it is a deadlock.
	OnStuck func() bool
	// OnSwitch, if set, is called at each switch.
	OnSwitch func()
	clock    int64
)

// AbortPanic unwinds tasks when a run is abandoned (deadlock, step limit).
type AbortPanic struct{ Why string }

// ExitPanic stands for os.Exit or log.Fatal in the code under test.
type ExitPanic struct{ Msg string }

//go:norace
func (e ExitPanic) Error() string { return "process exit: " + e.Msg }

//go:norace
func rnd() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Rand draws for simulated primitives, from a stream that replaying a schedule
// does not shift.
//
//go:norace
func Rand() uint64 {
	if s == nil {
		return 0
	}
	s.rng2 += 0x9e3779b97f4a7c15
	z := s.rng2
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return cur != nil }

// Cur returns the running task.
//
//go:norace
func Cur() *Task { return cur }

// Y is the yield point of library statements.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.steps++
	t.bsteps++
	s.stats.BSteps++
	t.last = site
	if OnYield != nil {
		OnYield()
	}
	if s.pol.Replay {
		if t.steps == t.next {
			slow(t)
		}
		return
	}
	s.bcount++
	if t.steps >= t.next {
		slow(t)
		return
	}
	if s.pidx < len(s.pol.Points) && s.bcount >= s.pol.Points[s.pidx] {
		s.pidx++
		slow(t)
		return
	}
	if s.bthresh != 0 && rnd() < s.bthresh {
		slow(t)
	}
}

// D is the yield point of dependency statements.
//
//go:norace
func D(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.steps++
	if t.steps >= t.next {
		dslow(t)
	}
}

//go:norace
func dslow(t *Task) {
	if s.pol.Replay && t.steps != t.next {
		return
	}
	slow(t)
}

const never = int64(1) << 62

//go:norace
func setNext(t *Task) {
	if s.pol.Replay {
		l := t.plan
		for t.pos < len(l) && l[t.pos].Step <= t.steps {
			t.pos++
		}
		if t.pos < len(l) {
			t.next = l[t.pos].Step
		} else {
			t.next = never
		}
	} else if s.pol.DMean > 0 {
		t.next = t.steps + 1 + int64(rnd()%uint64(2*s.pol.DMean))
	} else {
		t.next = never
	}
	// bound the steps between checks of the step limit
	if t.next > t.steps+100000 {
		t.next = t.steps + 100000
	}
}

// slow decides a switch at a yield of t.
//
//go:norace
func slow(t *Task) {
	if s.abort {
		panic(AbortPanic{"aborted"})
	}
	if s.hlive == 0 && t.steps-s.left > 0 {
		// the callers are done and goroutines of the library had their time
		end()
		wait(t)
		t.opStart = t.steps
		setNext(t)
		return
	}
	if t.steps-t.opStart > s.oplimit {
		s.stats.StepLimit = true
		s.abort = true
		panic(AbortPanic{"step limit"})
	}
	to := pick(t, false)
	if to != nil && to != t {
		hand(t, to)
	}
	setNext(t)
	if s.abort {
		panic(AbortPanic{"aborted"})
	}
}

// pick chooses who runs after t stops at its present step. must: t gave up
// control; it runs again only if it has become runnable meanwhile.
//
//go:norace
func pick(t *Task, must bool) *Task {
	settle()
	if s.pol.Replay {
		l := t.plan
		for i := t.pos; i < len(l); i++ {
			if l[i].Step == t.steps {
				to := l[i].To
				if to < s.n && s.tasks[to].state == stRunnable {
					return s.tasks[to]
				}
			}
			if l[i].Step > t.steps {
				break
			}
		}
		if !must {
			return t
		}
		for _, o := range s.act {
			if o.state == stRunnable {
				return o
			}
		}
		return nil
	}
	c := 0
	for _, o := range s.act {
		if o.state == stRunnable && (must || o != t) {
			c++
		}
	}
	if c == 0 {
		if must {
			return nil
		}
		return t
	}
	k := int(rnd() % uint64(c))
	for _, o := range s.act {
		if o.state == stRunnable && (must || o != t) {
			if k == 0 {
				return o
			}
			k--
		}
	}
	return nil
}

// settle lets tasks that are inside real blocking operations finish them.
//
//go:norace
func settle() {
	if s.outside == 0 {
		return
	}
	for i := 0; i < 8; i++ {
		runtime.Gosched()
	}
}

//go:norace
func record(t *Task, to *Task) {
	s.stats.Switches++
	h := s.stats.SchedHash
	h = (h ^ uint64(t.ID)) * 1099511628211
	h = (h ^ uint64(t.steps)) * 1099511628211
	h = (h ^ uint64(to.ID)) * 1099511628211
	s.stats.SchedHash = h
	if s.nrec < len(s.rec) {
		s.rec[s.nrec] = Switch{t.ID, t.steps, to.ID}
		s.nrec++
	}
	if s.npairs < len(s.pairs) {
		s.pairs[s.npairs] = uint64(uint32(t.last))<<32 | uint64(uint32(to.last))
		s.npairs++
	}
}

// hand gives control to to and waits until t is chosen again.
//
//go:norace
func hand(t, to *Task) {
	record(t, to)
	if OnSwitch != nil {
		OnSwitch()
	}
	give(to)
	wait(t)
}

// give makes t the running task.
//
//go:norace
func give(t *Task) {
	cur = t
	semrelease(&t.sema, false, 0)
}

// wait returns when t is the running task. The runtime's semaphores, unlike
// channels and locks, order nothing in the eyes of the race detector.
//
//go:norace
func wait(t *Task) {
	for cur != t {
		semacquire(&t.sema)
	}
}

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(*uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(*uint32, bool, int)

// Block is called by simulated locks when the running task cannot go on.
//
//go:norace
func Block() {
	t := cur
	if t == nil {
		runtime.Gosched()
		return
	}
	if s.abort {
		panic(AbortPanic{"aborted"})
	}
	t.steps++
	s.stats.Blocks++
	t.state = stBlocked
	if to := pick(t, true); to != nil {
		hand(t, to)
	} else if s.outside > 0 {
		idleFrom(t)
		wait(t)
	} else if s.hlive == 0 {
		end()
		wait(t)
	} else if unstick() {
		if to := pick(t, false); to != nil && to != t {
			hand(t, to)
		}
	} else {
		deadlock()
		panic(AbortPanic{"deadlock"})
	}
	t.state = stRunnable
	setNext(t)
	if s.abort {
		panic(AbortPanic{"aborted"})
	}
}

//go:norace
func unstick() bool {
	if OnStuck == nil || !OnStuck() {
		return false
	}
	for _, o := range s.act {
		if o.state == stBlocked {
			o.state = stRunnable
		}
	}
	return true
}

// deadlock: nobody can run. The tasks that wait for simulated locks unwind.
//
//go:norace
func deadlock() {
	s.stats.Deadlock = true
	s.abort = true
	for _, o := range s.act {
		if o.state == stBlocked {
			o.state = stRunnable
		}
	}
}

// end ends the run; what is left of the library's goroutines waits for the next.
//
//go:norace
func end() {
	s.over = true
	cur = nil
	close(s.done)
}

// Wake makes all tasks blocked on simulated locks runnable again.
//
//go:norace
func Wake() {
	if cur == nil || s == nil {
		return
	}
	for _, o := range s.act {
		if o.state == stBlocked {
			o.state = stRunnable
		}
	}
}

// Enter is called before a real blocking operation (on a channel). The task
// stays current until it turns out to be stuck in it.
//
//go:norace
func Enter() *Task {
	t := cur
	if t == nil {
		return nil
	}
	if s.abort {
		panic(AbortPanic{"aborted"})
	}
	t.steps++
	t.state = stOutside
	s.outside++
	watch()
	return t
}

// Leave is called after it.
//
//go:norace
func Leave(t *Task) {
	if t == nil {
		if cur == nil {
			return
		}
		// a goroutine from before this run: it becomes a task
		t = newTask(cur.Data)
		wait(t)
		setNext(t)
		return
	}
	if cur == nil {
		// between runs: goes on by itself
		t.state = stDone
		s.outside--
		return
	}
	s.outside--
	t.state = stRunnable
	wait(t)
	setNext(t)
	if s.abort {
		panic(AbortPanic{"aborted"})
	}
}

// Recv stands for a receive expression.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is Recv with the second value.
func Recv2[T any](c <-chan T) (T, bool) {
	Y(-8)
	select {
	case v, ok := <-c:
		return v, ok
	default:
	}
	t := Enter()
	v, ok := <-c
	Leave(t)
	return v, ok
}

// Send stands for a send statement.
func Send[T any](c chan<- T, v T) {
	Y(-8)
	select {
	case c <- v:
		return
	default:
	}
	t := Enter()
	c <- v
	Leave(t)
}

// Gosched replaces runtime.Gosched.
//
//go:norace
func Gosched() {
	t := cur
	if t == nil {
		runtime.Gosched()
		return
	}
	t.steps++
	slow(t)
}

// SeedRuntime, if set, starts the stream behind the runtime's own random
// choices.
var SeedRuntime func(uint64)

var idle = &Task{ID: -1}

// Timers is set if the code under test uses timers: real time may then end a
// wait, and a deadlock is not declared at once.
var Timers bool

//go:norace
func idleFrom(t *Task) {
	s.leaver = t
	cur = idle
	watch()
}

//go:norace
func watch() {
	if !s.mon {
		s.mon = true
		go monitor(s)
	}
}

// monitor hands over control when the current task is stuck in a real blocking
// operation. With one processor, a goroutine that can go on does so within a
// few rounds.
//
//go:norace
func monitor(sm *sim) {
	quiet := 0
	var since time.Time
	for {
		runtime.Gosched()
		if s != sm || sm.over {
			return
		}
		c := cur
		if c == nil {
			return
		}
		if c != idle && c.state != stOutside {
			quiet = 0
			if sm.outside == 0 {
				sm.mon = false
				return
			}
			continue
		}
		quiet++
		if quiet < 8 {
			continue
		}
		if c != idle {
			s.leaver = c
			cur = idle
		}
		l := s.leaver
		if to := pick(l, true); to != nil {
			record(l, to)
			quiet = 0
			give(to)
			continue
		}
		if sm.hlive == 0 {
			end()
			return
		}
		if quiet == 8 {
			since = time.Now()
		}
		lim := 200 * time.Millisecond
		if Timers {
			lim = 10 * time.Second
		}
		over := quiet >= 2000 && quiet%64 == 0 && time.Since(since) >= lim
		if (over || quiet == 2000 && !Timers) && unstick() {
			if to := pick(l, true); to != nil {
				record(l, to)
				quiet = 0
				give(to)
				continue
			}
		}
		if !over {
			continue
		}
		deadlock()
		to := pick(l, true)
		if to == nil {
			// all are stuck in real operations and can not be unwound
			end()
			return
		}
		quiet = 0
		give(to)
	}
}

// Go starts a goroutine of the code under test as a task.
//
//go:norace
func Go(f func()) {
	t := cur
	if t == nil {
		go f()
		return
	}
	nt := newTask(t.Data)
	s.stats.Spawned++
	go runTask(nt, f)
	Y(-1)
}

//go:norace
func newTask(data any) *Task {
	t := &Task{Data: data}
	enlist(t)
	return t
}

// enlist gives t its number in this run.
//
//go:norace
func enlist(t *Task) {
	t.ID, t.pos, t.opStart = s.n, 0, t.steps
	t.plan = s.perTask[s.n]
	s.tasks = append(s.tasks, t)
	s.act = append(s.act, t)
	s.n++
	s.live++
	setNext(t)
}

//go:norace
func runTask(t *Task, f func()) {
	wait(t)
	defer finish(t)
	f()
}

//go:norace
func finish(t *Task) {
	if e := recover(); e != nil {
		if _, ok := e.(AbortPanic); !ok {
			if s.stats.ExitMsg == "" {
				s.stats.ExitMsg = fmt.Sprint("goroutine panic: ", e)
			}
			s.stats.Exited = true
		}
	}
	t.state = stDone
	s.live--
	t.steps++
	for i, o := range s.act {
		if o == t {
			// by hand: copy would be seen by the race detector
			for ; i+1 < len(s.act); i++ {
				s.act[i] = s.act[i+1]
			}
			s.act = s.act[:i]
			break
		}
	}
	if t.harness {
		s.hlive--
		s.left = 0
		if s.hlive == 0 {
			for _, o := range s.tasks {
				if o.steps > s.left {
					s.left = o.steps
				}
			}
			s.left += 50000
		}
		s.join.Done()
	}
	if s.live == 0 {
		end()
		return
	}
	if to := pick(t, true); to != nil {
		record(t, to)
		give(to)
	} else if s.outside > 0 && !s.abort {
		idleFrom(t)
	} else if s.hlive == 0 || s.abort {
		end()
	} else {
		// only blocked tasks are left
		if !unstick() {
			deadlock()
		}
		to := pick(t, true)
		if to == nil {
			end()
			return
		}
		give(to)
	}
}

// OpBegin marks the start of an operation for the per-operation step limit.
//
//go:norace
func OpBegin() {
	if cur == nil {
		return
	}
	cur.opStart = cur.steps
	// goroutines of the library serve many operations
	for _, o := range s.act {
		if !o.harness {
			o.opStart = o.steps
		}
	}
}

// Exit replaces os.Exit.
//
//go:norace
func Exit(code int) {
	exit(fmt.Sprintf("os.Exit(%d)", code))
}

// Fatal, Fatalf and Fatalln replace their log counterparts.
func Fatal(v ...any)            { log.Print(v...); exit("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalf(f string, v ...any) { log.Printf(f, v...); exit("log.Fatal: " + fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)          { log.Println(v...); exit("log.Fatal: " + fmt.Sprintln(v...)) }

//go:norace
func exit(msg string) {
	if s != nil {
		s.stats.Exited = true
		s.stats.ExitMsg = msg
	}
	panic(ExitPanic{msg})
}

// Run executes the tasks under the policy and returns its statistics and the
// recorded schedule.
func Run(pol Policy, oplimit int64, data []any, fs []func()) (Stats, []Switch) {
	sm := &sim{pol: pol, rng: pol.Seed, rng2: ^pol.Seed, oplimit: oplimit, done: make(chan struct{}), perTask: map[int][]Switch{}}
	sm.rec = make([]Switch, MaxSwitches)
	if pol.BProb > 0 {
		sm.bthresh = uint64(pol.BProb * float64(1<<63) * 2)
		if pol.BProb >= 1 {
			sm.bthresh = ^uint64(0)
		}
	}
	for _, w := range pol.Explicit {
		if w.From >= 0 {
			sm.perTask[w.From] = append(sm.perTask[w.From], w)
		}
	}
	var left []*Task
	if s != nil {
		for _, t := range s.act {
			if t.state != stDone && !t.harness {
				left = append(left, t)
			}
		}
	}
	s = sm
	if SeedRuntime != nil {
		SeedRuntime(pol.Seed)
	}
	sm.stats.SchedHash = 14695981039346656037
	for i := range fs {
		t := newTask(data[i])
		t.harness = true
		sm.hlive++
		sm.join.Add(1)
		go runTask(t, fs[i])
	}
	for _, t := range left {
		enlist(t)
		if t.state == stOutside {
			sm.outside++
		}
		sm.stats.Carried++
	}
	start(len(fs))
	<-sm.done
	if sm.hlive == 0 {
		sm.join.Wait()
	}
	for _, t := range sm.tasks {
		sm.stats.Steps += t.steps
	}
	sm.stats.PairHash = append([]uint64(nil), sm.pairs[:sm.npairs]...)
	return sm.stats, append([]Switch(nil), sm.rec[:sm.nrec]...)
}

//go:norace
func start(n int) {
	k := 0
	if !s.pol.Replay {
		k = int(rnd() % uint64(n))
	} else {
		for _, w := range s.pol.Explicit {
			if w.From == -1 {
				k = w.To
			}
		}
		if k >= n {
			k = 0
		}
	}
	if s.nrec < len(s.rec) {
		s.rec[s.nrec] = Switch{-1, 0, k}
		s.nrec++
	}
	give(s.tasks[k])
}
