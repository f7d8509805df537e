package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Replay is a violation, minimised, with all that is needed to see it again.
type Replay struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	Detail   string   `json:"detail"`
	Story    []string `json:"story"`
	Seed     uint64   `json:"seed"`
	Life     uint64   `json:"life"`
	Run      int      `json:"run"`
	Race     bool     `json:"race,omitempty"`
	Hash     string   `json:"hash,omitempty"` // of the last run; empty if it never ended
	Death    string   `json:"death,omitempty"`
	Tree     string   `json:"tree"`
	Trials   int      `json:"trials"` // executions used to minimise
	Replays  int      `json:"replays"`
	Command  string   `json:"command"`
	Specs    []*Spec  `json:"specs"` // the last one shows the violation
}

// shrinker looks for a smaller execution with the same violation.
type shrinker struct {
	c      *Checker
	race   bool
	kind   string // of the violation, "" for a dead process
	death  bool
	hang   bool
	trials int
	until  time.Time
	best   []*Spec
	last   *life
}

func kindClass(k string) string { return k }

// try runs the specs in a fresh process.
func (s *shrinker) try(specs []*Spec) *life {
	s.trials++
	lim := 60 * time.Second
	if s.hang {
		lim = 30 * time.Second
	}
	l, err := runJob(s.c.b.Scratch, s.c.bin(s.race), s.race, Job{Specs: specs, Trace: true}, lim)
	if err != nil {
		die(2, "%v", err)
	}
	return l
}

// shows: the execution ends in the same kind of violation.
func (s *shrinker) shows(l *life) bool {
	if s.death {
		return l.died != "" && l.timeout == s.hang
	}
	v := l.viol()
	return v != nil && kindClass(v.Viol.Kind) == s.kind
}

func (s *shrinker) accept(specs []*Spec) bool {
	if time.Now().After(s.until) {
		return false
	}
	l := s.try(specs)
	if !s.shows(l) {
		return false
	}
	if s.death {
		specs = specs[:min(len(specs), len(l.runs)+1)]
	} else {
		specs = specs[:len(l.runs)]
	}
	s.best, s.last = specs, l
	return true
}

func clone(sp *Spec) *Spec {
	b, err := json.Marshal(sp)
	if err != nil {
		panic(err)
	}
	var c Spec
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// confirm reproduces a failure in fresh processes and minimises it. It returns
// nil and a reason if it can not be reproduced.
func (c *Checker) confirm(f failure) (*Replay, string) {
	s := &shrinker{c: c, race: f.j.race, until: time.Now().Add(75 * time.Second)}
	var failing *Spec
	run := 0
	v := f.l.viol()
	if v != nil {
		s.kind = kindClass(v.Viol.Kind)
		failing = v.Spec
		run = v.Run
	} else {
		s.death, s.hang = true, f.l.timeout
		run = f.j.job.From + len(f.l.runs)
	}
	// the specs up to it
	g := f.j.job
	g.Gen, g.To = true, run+1
	gl, err := runJob(c.b.Scratch, c.bin(f.j.race), f.j.race, g, 60*time.Second)
	if err != nil || len(gl.runs) != run+1-g.From {
		return nil, "the specs of the life can not be made again"
	}
	var all []*Spec
	for i := range gl.runs {
		all = append(all, gl.runs[i].Spec)
	}
	if failing == nil {
		failing = all[len(all)-1]
	}
	ok := false
	for i := 0; i < 2 && !ok; i++ {
		ok = s.accept([]*Spec{failing})
	}
	if !ok {
		ok = s.accept(all)
	}
	if !ok {
		what := f.l.died + " " + fatal(f.l.stderr)
		if v != nil {
			what = v.Viol.Kind + ": " + v.Viol.Detail
		}
		return nil, fmt.Sprintf("life %d run %d: %s", f.j.id, run, head(what, 1000))
	}
	if s.cur().Endure == nil {
		// many calls of one kind: nothing to leave out
		s.shrink()
	}
	// the schedule that was followed, written out
	s.explicit()
	// it must come again, exactly
	first := s.last
	n, again, tries := 0, 0, 3
	if s.hang {
		tries = 1
	} else if s.cur().Endure != nil {
		tries = 2
	}
	for i := 0; i < tries; i++ {
		l := s.try(s.best)
		if !s.shows(l) {
			break
		}
		again++
		if !s.death && (l.viol().Hash != first.viol().Hash || l.viol().Viol.Detail != first.viol().Viol.Detail) {
			// same violation, other details: keep the latest
			first = l
			continue
		}
		n++
	}
	if n == 0 && again < tries {
		return nil, fmt.Sprintf("life %d run %d: not repeatable", f.j.id, run)
	}
	r := &Replay{Property: c.Prop, Seed: c.Seed, Life: f.j.job.Life, Run: run, Race: f.j.race, Tree: c.gitState(), Trials: s.trials, Replays: n, Specs: s.best}
	if s.death {
		r.Kind, r.Death = "death", first.died
		r.Detail = "the process was taken down: " + first.died + " " + fatal(first.stderr)
		if s.hang {
			r.Kind = "hang"
		}
	} else {
		fv := first.viol()
		r.Kind, r.Detail, r.Hash = fv.Viol.Kind, fv.Viol.Detail, fmt.Sprintf("%016x", fv.Hash)
		r.Story = c.story(s.best, fv)
		if n == 0 {
			r.Story = append(r.Story, "the violation comes every time, its details vary: the code under test draws on something outside the simulation")
		}
	}
	return r, ""
}

// ddmin over n elements: keep(sel) tries the subset.
func ddmin(n int, keep func(on []bool) bool) {
	on := make([]bool, n)
	for i := range on {
		on[i] = true
	}
	for size := (n + 1) / 2; size >= 1; {
		removed := false
		for at := 0; at < n; at += size {
			t := append([]bool(nil), on...)
			any := false
			for i := at; i < at+size && i < n; i++ {
				if t[i] {
					t[i], any = false, true
				}
			}
			if any && keep(t) {
				on = t
				removed = true
			}
		}
		if size == 1 && !removed {
			break
		}
		if size > 1 {
			size = (size + 1) / 2
			if size == 1 && n == 1 {
				break
			}
		} else if !removed {
			break
		}
	}
}

// withPolicies tries a changed spec under several schedules.
func (s *shrinker) withPolicies(pre []*Spec, sp *Spec) bool {
	try := func(p simrt.Policy) bool {
		c := *sp
		c.Sched = p
		return s.accept(append(append([]*Spec(nil), pre...), &c))
	}
	if s.accept(append(append([]*Spec(nil), pre...), sp)) {
		return true
	}
	if len(sp.Tasks) < 2 && sp.Party == nil {
		return false
	}
	if sp.Sched.Replay && len(sp.Sched.Explicit) <= 1 {
		return false
	}
	for i := 0; i < 3; i++ {
		for _, b := range []float64{0.5, 0.1} {
			if try(simrt.Policy{Seed: uint64(i + 1), BProb: b}) {
				return true
			}
		}
	}
	return false
}

func (s *shrinker) pre() []*Spec { return s.best[:len(s.best)-1] }
func (s *shrinker) cur() *Spec   { return s.best[len(s.best)-1] }

func (s *shrinker) shrink() {
	// earlier runs of the process
	if n := len(s.best) - 1; n > 0 {
		base := s.best
		ddmin(n, func(on []bool) bool {
			var l []*Spec
			for i := 0; i < n; i++ {
				if on[i] {
					l = append(l, base[i])
				}
			}
			return s.accept(append(l, base[n]))
		})
		// operations of those that stay
		for i := 0; i < len(s.best)-1; i++ {
			s.ops(i)
		}
	}
	// one task after the other, if that is enough
	seq := clone(s.cur())
	seq.Sched = simrt.Policy{Seed: 1, Replay: true}
	s.accept(append(append([]*Spec(nil), s.pre()...), seq))
	s.ops(len(s.best) - 1)
	sp := s.cur()
	if sp.Party != nil {
		s.list(func(p *PartySpec) int { return len(p.Acts) }, func(p *PartySpec, on []bool) { p.Acts = sel(p.Acts, on) })
		s.list(func(p *PartySpec) int { return len(p.Crash) }, func(p *PartySpec, on []bool) { p.Crash = sel(p.Crash, on) })
		s.list(func(p *PartySpec) int { return len(p.Parts) }, func(p *PartySpec, on []bool) { p.Parts = sel(p.Parts, on) })
		s.list(func(p *PartySpec) int { return len(p.Shares) }, func(p *PartySpec, on []bool) {
			n := 0
			for _, o := range on {
				if o {
					n++
				}
			}
			p.Shares, p.Net, p.Comp = sel(p.Shares, on), sel(p.Net, on), sel(p.Comp, on)
			p.Crash, p.Parts = nil, nil
			for i := range p.Orders {
				var o []int
				for j := 0; j < n; j++ {
					o = append(o, (j+i)%n)
				}
				p.Orders[i] = o
			}
		})
	}
	if sp.Store != nil {
		n := len(sp.Store.Steps)
		base := clone(s.cur())
		ddmin(n, func(on []bool) bool {
			t := clone(base)
			t.Store.Steps = sel(t.Store.Steps, on)
			return s.accept(append(append([]*Spec(nil), s.pre()...), t))
		})
	}
	// simpler entropy
	s.simplify()
	if c := s.cur(); c.Watch {
		t := clone(c)
		t.Watch = false
		s.accept(append(append([]*Spec(nil), s.pre()...), t))
	}
}

func sel[T any](l []T, on []bool) []T {
	var o []T
	for i := range l {
		if on[i] {
			o = append(o, l[i])
		}
	}
	return o
}

func (s *shrinker) list(size func(*PartySpec) int, cut func(*PartySpec, []bool)) {
	base := clone(s.cur())
	n := size(base.Party)
	ddmin(n, func(on []bool) bool {
		c := 0
		for _, o := range on {
			if o {
				c++
			}
		}
		t := clone(base)
		cut(t.Party, on)
		if len(t.Party.Shares) < 1 {
			return false
		}
		return s.accept(append(append([]*Spec(nil), s.pre()...), t))
	})
}

// ops blanks operations of spec i.
func (s *shrinker) ops(i int) {
	base := clone(s.best[i])
	type at struct{ t, o int }
	var l []at
	leak := base.Leak != nil
	for t := range base.Tasks {
		for o := range base.Tasks[t].Ops {
			l = append(l, at{t, o})
		}
	}
	if len(l) == 0 {
		return
	}
	rest := append([]*Spec(nil), s.best[i+1:]...)
	pre := append([]*Spec(nil), s.best[:i]...)
	ddmin(len(l), func(on []bool) bool {
		t := clone(base)
		for k, a := range l {
			if !on[k] {
				t.Tasks[a.t].Ops[a.o] = Op{K: "nop"}
				if leak {
					t.Leak.B[a.o] = Op{K: "nop"}
				}
			}
		}
		// keep the schedule found so far for the rest
		t.Sched = s.bestAt(i, base).Sched
		if len(rest) > 0 {
			all := append(append(append([]*Spec(nil), pre...), t), rest...)
			return s.accept(all)
		}
		return s.withPolicies(pre, t)
	})
	// trailing blanks and empty tasks
	t := clone(s.bestAt(i, base))
	changed := false
	if t.Store == nil {
		for k := range t.Tasks {
			o := t.Tasks[k].Ops
			for len(o) > 0 && o[len(o)-1].K == "nop" {
				o = o[:len(o)-1]
				changed = true
			}
			t.Tasks[k].Ops = o
			if leak && k == 0 {
				t.Leak.B = t.Leak.B[:len(o)]
			}
		}
	}
	if changed {
		s.accept(append(append(append([]*Spec(nil), pre...), t), rest...))
	}
	// tasks without calls
	t = clone(s.bestAt(i, base))
	n := 0
	var tasks []TaskSpec
	for _, x := range t.Tasks {
		if len(x.Ops) > 0 {
			tasks = append(tasks, x)
		} else {
			n++
		}
	}
	if n > 0 && len(tasks) > 0 && t.Store == nil && t.Party == nil {
		t.Tasks = tasks
		if len(rest) == 0 {
			s.withPolicies(pre, t)
		} else {
			s.accept(append(append(append([]*Spec(nil), pre...), t), rest...))
		}
	}
}

func (s *shrinker) bestAt(i int, def *Spec) *Spec {
	if i < len(s.best) {
		return s.best[i]
	}
	return def
}

// simplify tries plainer values in the operations that are left.
func (s *shrinker) simplify() {
	n := len(s.cur().Tasks)
	for t := 0; t < n && t < len(s.cur().Tasks); t++ {
		for o := 0; o < len(s.cur().Tasks[t].Ops); o++ {
			if s.cur().Tasks[t].Ops[o].K == "nop" {
				continue
			}
			for _, f := range []func(*Op) bool{
				func(op *Op) bool {
					if op.Ent != nil && op.Ent.Chunks != nil {
						op.Ent.Chunks = nil
						return true
					}
					return false
				},
				func(op *Op) bool {
					if op.Ent != nil && op.Ent.Fail >= 0 {
						op.Ent.Fail = -1
						return true
					}
					return false
				},
				func(op *Op) bool {
					if op.Scr != 0 {
						op.Scr = 0
						return true
					}
					return false
				},
				func(op *Op) bool {
					if op.P != "" {
						op.P = ""
						return true
					}
					return false
				},
			} {
				c := clone(s.cur())
				if !f(&c.Tasks[t].Ops[o]) {
					continue
				}
				s.accept(append(append([]*Spec(nil), s.pre()...), c))
			}
		}
	}
	c := clone(s.cur())
	if c.Log != (LogPlan{}) {
		c.Log = LogPlan{}
		s.accept(append(append([]*Spec(nil), s.pre()...), c))
	}
}

// explicit replaces the policy by the switches that happened, then by fewer.
func (s *shrinker) explicit() {
	if s.death {
		return
	}
	v := s.last.viol()
	sp := s.cur()
	if sp.Party != nil || sp.Store != nil || sp.Leak != nil || v == nil {
		return
	}
	if len(v.Trace) == 0 || int64(len(v.Trace)) < v.Switches {
		return
	}
	if sp.Sched.Replay && len(sp.Sched.Explicit) == 0 {
		return
	}
	c := clone(sp)
	c.Sched = simrt.Policy{Seed: sp.Sched.Seed, Replay: true, Explicit: v.Trace}
	s.until = time.Now().Add(45 * time.Second)
	if !s.accept(append(append([]*Spec(nil), s.pre()...), c)) {
		return
	}
	base := clone(s.cur())
	tr := base.Sched.Explicit
	ddmin(len(tr), func(on []bool) bool {
		t := clone(base)
		t.Sched.Explicit = sel(tr, on)
		return s.accept(append(append([]*Spec(nil), s.pre()...), t))
	})
	// what really happened, without switches that had no effect
	if v := s.last.viol(); v != nil && int64(len(v.Trace)) >= v.Switches {
		t := clone(s.cur())
		t.Sched.Explicit = v.Trace
		s.accept(append(append([]*Spec(nil), s.pre()...), t))
	}
}

// story tells the last run in words.
func (c *Checker) story(specs []*Spec, v *RunResult) []string {
	var out []string
	if len(specs) > 1 {
		out = append(out, fmt.Sprintf("%d earlier runs in the same process come first", len(specs)-1))
	}
	sp := specs[len(specs)-1]
	for i, n := range sp.Nets {
		out = append(out, fmt.Sprintf("network %d has prefixes %s and %s", i+2, n.Priv, n.Pub))
	}
	for i, k := range sp.Keys {
		out = append(out, fmt.Sprintf("shared private key %d: %s on network %d", i, k.K, k.Net))
	}
	for i, k := range sp.Pubs {
		out = append(out, fmt.Sprintf("shared public key %d: of %s on network %d", i, k.K, k.Net))
	}
	for t := range sp.Tasks {
		for o, op := range sp.Tasks[t].Ops {
			if op.K == "nop" {
				continue
			}
			j, _ := json.Marshal(op)
			out = append(out, fmt.Sprintf("task %d call %d: %s", t, o, j))
			if len(out) > 60 {
				return append(out, "...")
			}
		}
	}
	if e := sp.Endure; e != nil {
		out = append(out, fmt.Sprintf("rounds of %d calls by %d tasks, kinds %s", e.N, e.Tasks, strings.Join(e.Kinds, ", ")))
	}
	site := func(id uint64) string {
		n := int(int32(uint32(id)))
		switch {
		case n == 0:
			return "start"
		case n < 0:
			return "entropy or log"
		case n <= len(c.b.Sites):
			return c.b.Sites[n-1].Pos + " " + c.b.Sites[n-1].Func
		}
		return "?"
	}
	k := 0
	for _, w := range v.Trace {
		if w.From < 0 {
			out = append(out, fmt.Sprintf("task %d starts", w.To))
			continue
		}
		where := ""
		if k < len(v.Sites) {
			where = fmt.Sprintf(" (last library statement %s, the other's %s)", site(v.Sites[k]>>32), site(v.Sites[k]))
		}
		k++
		out = append(out, fmt.Sprintf("after %d steps of task %d switch to task %d%s", w.Step, w.From, w.To, where))
		if len(out) > 120 {
			return append(out, "...")
		}
	}
	return out
}

func (c *Checker) save(r *Replay) (string, error) {
	dir := filepath.Join(c.Root, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	h := r.Hash
	if h == "" {
		h = r.Kind
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d-%d-%s.json", r.Property, r.Seed, r.Life, r.Run, strings.Map(func(x rune) rune {
		if x >= 'a' && x <= 'z' || x >= '0' && x <= '9' {
			return x
		}
		return '_'
	}, h)))
	r.Command = "./replay.sh " + p
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return "", err
	}
	return p, os.WriteFile(p, append(b, '\n'), 0o644)
}

// replay runs a replay file against the present tree.
func (c *Checker) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die(2, "%s: %v", file, err)
	}
	c.Prop = r.Property
	bl, err := prepare(c.Root, c.Repo, r.Race)
	if bl != nil {
		scratchDirs = append(scratchDirs, bl.Scratch)
	}
	if err != nil {
		die(2, "build: %v", err)
	}
	c.b = bl
	calibrate(bl.Scratch, bl.Plain)
	s := &shrinker{c: c, race: r.Race, kind: kindClass(r.Kind), death: r.Death != "", hang: r.Kind == "hang" && r.Death != ""}
	l := s.try(r.Specs)
	if s.shows(l) {
		if s.death {
			fmt.Printf("replayed: %s %s\n", l.died, fatal(l.stderr))
		} else {
			v := l.viol()
			h := fmt.Sprintf("%016x", v.Hash)
			fmt.Printf("replayed: %s: %s\nhash %s, recorded %s: %s\n", v.Viol.Kind, v.Viol.Detail, h, r.Hash, map[bool]string{true: "identical", false: "different"}[h == r.Hash])
			for _, t := range c.story(r.Specs, v) {
				fmt.Println("  " + t)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	if v := l.viol(); v != nil {
		fmt.Printf("other violation: %s: %s\n", v.Viol.Kind, v.Viol.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	fmt.Println("no violation on this tree")
	return 0
}
