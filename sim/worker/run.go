package main

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"unsafe"

	"github.com/aureleoules/btc"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// opLimit bounds the yields of one call.
const opLimit = 6_000_000

// apiRun is a finished simulated run of tasks.
type apiRun struct {
	w      *world
	ts     []*taskRun
	stats  simrt.Stats
	trace  []simrt.Switch
	watch  *watcher
	mism   []mism
	alias  string
	after  string
	starve bool

	endHash  uint64
	endCalls int
}

// watcher observes shared objects and results while a run goes on.
type watcher struct {
	w      *world
	bad    string
	n      int64
	opn    int64
	rot    int
	objs   []watched
	using  []int // word lists in use
	checks int64
}

type watched struct {
	task, op int
	o        obj
	v        []string
	kw       [8]big.Word
	kn       int
	xw, yw   [8]big.Word
	xn, yn   int
	net      *btc.Network
}

func watchOf(t, op int, o obj) watched {
	x := watched{task: t, op: op, o: o, v: objVals(o)}
	if o.priv != nil && o.priv.Key != nil {
		x.kn = wordsOf(o.priv.Key, &x.kw)
		x.net = o.priv.Network
	}
	if o.pub != nil && o.pub.X != nil && o.pub.Y != nil {
		x.xn, x.yn = wordsOf(o.pub.X, &x.xw), wordsOf(o.pub.Y, &x.yw)
		x.net = o.pub.Network
	}
	return x
}

func (x *watched) same() bool {
	if p := x.o.priv; p != nil && p.Key != nil {
		return sameInt(p.Key, &x.kw, x.kn) && p.Hex == x.v[1] && p.WIF == x.v[2] && p.Network == x.net
	}
	if p := x.o.pub; p != nil && p.X != nil && p.Y != nil {
		return sameInt(p.X, &x.xw, x.xn) && sameInt(p.Y, &x.yw, x.yn) && p.Network == x.net
	}
	return true
}

//go:norace
func (wa *watcher) yield() {
	if wa.bad != "" {
		return
	}
	wa.n++
	// every yield at first, then thinned out: long scans pass many
	if wa.n > 4000 && wa.n%32 != 0 {
		return
	}
	wa.checks++
	if s := wa.w.changed(); s != "" {
		wa.bad = "during a call, " + s
		return
	}
	for i := range wa.objs {
		if !wa.objs[i].same() {
			wa.bad = fmt.Sprintf("during a later call, the result of task %d call %d changed from %v to %v",
				wa.objs[i].task, wa.objs[i].op, wa.objs[i].v, objVals(wa.objs[i].o))
			return
		}
	}
	// the lists that calls are using, entirely at first
	if wa.n < 300 || wa.n%64 == 0 {
		for _, l := range wa.using {
			for i, w := range lists[l] {
				if w != saved[l][i] {
					wa.bad = fmt.Sprintf("during a call, word %d of list %d was %q instead of %q", i, l, w, saved[l][i])
					return
				}
			}
		}
	}
	// a few words of all of them per yield, in turn
	for k := 0; k < 16; k++ {
		wa.rot++
		l := wa.rot % 12
		i := (wa.rot / 12) % len(saved[l])
		if lists[l][i] != saved[l][i] {
			wa.bad = fmt.Sprintf("during a call, word %d of list %d was %q instead of %q", i, l, lists[l][i], saved[l][i])
			return
		}
	}
}

var raceBuild = false

// runAPI simulates the tasks of a spec.
func runAPI(sp *Spec) *apiRun {
	permList(sp.Perm)
	w := newWorld(sp)
	ar := &apiRun{w: w}
	data := make([]any, len(sp.Tasks))
	fs := make([]func(), len(sp.Tasks))
	for i := range sp.Tasks {
		t := &taskRun{id: i, w: w, recs: make([]rec, len(sp.Tasks[i].Ops))}
		ar.ts = append(ar.ts, t)
		data[i] = &t.env
		ops := sp.Tasks[i].Ops
		fs[i] = func() { t.exec(ops) }
	}
	if sp.Watch && !raceBuild {
		ar.watch = &watcher{w: w}
		for _, t := range ar.ts {
			t.watch = ar.watch
		}
		simrt.OnYield = ar.watch.yield
	}
	setLog(sp.Log)
	if sp.Scen == "stall" {
		simrt.OnStuck = ar.stuck
	}
	ar.stats, ar.trace = simrt.Run(sp.Sched, opLimit, data, fs)
	simrt.OnYield, simrt.OnStuck = nil, nil
	resetLog()
	ar.mism = judgeAll(w, ar.ts)
	if ar.stats.Deadlock {
		why := "deadlock: "
		for _, t := range ar.ts {
			if t.env.stall == 1 {
				why = "calls that need no entropy wait for one whose entropy source stalls: "
			}
		}
		ar.mism = append(ar.mism, mism{"hang", "deadlock", -1, -1, why + pendingText(ar.ts)})
	}
	if ar.stats.Exited && !has(ar.mism, "exit") {
		ar.mism = append(ar.mism, mism{"exit", "", -1, -1, "the process would have ended: " + ar.stats.ExitMsg})
	}
	if s := w.changed(); s != "" {
		ar.after = "after the run, " + s
	} else if s := listsChanged(); s != "" {
		ar.after = "after the run, " + s
	}
	return ar
}

func pendingText(ts []*taskRun) string {
	s := ""
	for _, t := range ts {
		for i := range t.recs {
			if !t.recs[i].done && t.recs[i].out.St == "pending" {
				s += fmt.Sprintf("task %d call %d %s waits; ", t.id, i, describe(&t.recs[i]))
			}
		}
	}
	return s
}

func has(ms []mism, facet string) bool {
	for _, m := range ms {
		if m.facet == facet {
			return true
		}
	}
	return false
}

func hashRun(ar *apiRun) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d %d;", ar.stats.SchedHash, ar.stats.Steps, ar.stats.Switches)
	if ar.endHash != 0 {
		fmt.Fprintf(h, "%x", ar.endHash)
	}
	for _, t := range ar.ts {
		for i := range t.recs {
			r := &t.recs[i]
			fmt.Fprintf(h, "%d:%s%v%x%d;", r.seq-seqBase, r.out.St, r.out.V, r.ent, r.reads)
		}
	}
	return h.Sum64()
}

var seqBase int64

// number with where it lives, for the sharing check.
type num struct {
	who  string
	id   int // object
	ptr  uintptr
	lo   uintptr
	hi   uintptr
	keep any // what lives there, so that it stays there
}

func numOf(who string, id int, n *big.Int, l *[]num) {
	if n == nil {
		return
	}
	x := num{who: who, id: id, ptr: uintptr(unsafe.Pointer(n)), keep: [2]any{n, n.Bits()}}
	b := n.Bits()
	if cap(b) > 0 {
		b = b[:cap(b)]
		x.lo = uintptr(unsafe.Pointer(&b[0]))
		x.hi = x.lo + uintptr(len(b))*unsafe.Sizeof(b[0])
	}
	*l = append(*l, x)
}

// sharing looks for two objects whose numbers share memory.
func sharing(ar *apiRun) string {
	var l []num
	id := 0
	obj1 := func(who string, o obj) {
		id++
		if o.priv != nil {
			numOf(who, id, o.priv.Key, &l)
		}
		if o.pub != nil {
			numOf(who, id, o.pub.X, &l)
			numOf(who, id, o.pub.Y, &l)
		}
		if cap(o.seed) > 0 {
			b := o.seed[:cap(o.seed)]
			lo := uintptr(unsafe.Pointer(&b[0]))
			l = append(l, num{who: who, id: id, lo: lo, hi: lo + uintptr(len(b)), keep: b})
		}
	}
	for i, k := range ar.w.keys {
		obj1(fmt.Sprintf("shared private key %d", i), obj{priv: k})
	}
	for i, p := range ar.w.pubs {
		obj1(fmt.Sprintf("shared public key %d", i), obj{pub: p})
	}
	for _, t := range ar.ts {
		for i := range t.recs {
			r := &t.recs[i]
			if !r.done {
				continue
			}
			obj1(fmt.Sprintf("the result of task %d call %d (%s)", t.id, i, opText(r.op)), r.obj)
			if r.args[0] != (obj2{}) {
				a := r.args[0]
				obj1(fmt.Sprintf("the first argument of task %d call %d (%s)", t.id, i, opText(r.op)), obj{priv: a.priv, pub: a.pub})
			}
			if b := r.args[1]; b != (obj2{}) && b != r.args[0] {
				obj1(fmt.Sprintf("the second argument of task %d call %d (%s)", t.id, i, opText(r.op)), obj{priv: b.priv, pub: b.pub})
			}
		}
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			a, b := &l[i], &l[j]
			if a.id == b.id {
				continue
			}
			if a.ptr != 0 && a.ptr == b.ptr || a.lo != 0 && b.lo != 0 && a.lo < b.hi && b.lo < a.hi {
				return b.who + " shares memory with " + a.who
			}
		}
	}
	// results of earlier runs of this process
	for i := range l {
		for j := range earlier {
			a, b := &earlier[j], &l[i]
			if a.ptr != 0 && a.ptr == b.ptr || a.lo != 0 && b.lo != 0 && a.lo < b.hi && b.lo < a.hi {
				return b.who + " shares memory with a key of an earlier run: " + a.who
			}
		}
	}
	for i := range l {
		if len(earlier) < 3000 {
			earlier = append(earlier, l[i])
		}
	}
	return ""
}

var earlier []num

type obj2 struct {
	priv *btc.PrivateKey
	pub  *btc.PublicKey
}

// reobserve: results that their owner did not touch still are what they were.
func reobserve(ar *apiRun) string {
	for _, t := range ar.ts {
		for i := range t.recs {
			r := &t.recs[i]
			if !r.done || r.dead || r.rekeyed || r.out.St != "ok" {
				continue
			}
			v := objVals(r.obj)
			if v == nil {
				continue
			}
			if fmt.Sprint(v) != fmt.Sprint(r.out.V) {
				return fmt.Sprintf("the result of task %d call %d %s changed later from %v to %v", t.id, i, describe(r), r.out.V, v)
			}
		}
	}
	return ""
}

// calibrate: is a generated key the last 32 bytes drawn? Several streams in an
// untouched process; anything else leaves the exact rule off.
func calibrate() {
	n := 0
	for i := 0; i < 6; i++ {
		ent := &Ent{Fail: -1, Seed: 0xca11b + uint64(i)}
		mainEnv.begin(ent, nil)
		var p *btc.PrivateKey
		noPanic(func() { p = btc.GeneratePrivateKey(btc.MainNetwork) })
		d := mainEnv.delivered()
		if p == nil || p.Key == nil || len(d) < 32 {
			break
		}
		if new(big.Int).SetBytes(d[len(d)-32:]).Cmp(p.Key) == 0 {
			n++
		}
	}
	mainEnv.begin(nil, nil)
	genIdentity = n == 6
}

// canaries are calls whose results are remembered at the start of the process.
func canaries() []string {
	var out []string
	do := func(f func() string) {
		s := "panic"
		noPanic(func() { s = f() })
		out = append(out, s)
	}
	big1 := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(3), new(big.Int).Sub(ref.N, big.NewInt(1)), hexInt("c0ffee254729296a45a3885639ac7e10ffffffffffffff00000000000000abcd")}
	for _, k := range big1 {
		h := ref.Hex32(k)
		do(func() string {
			p, err := btc.PrivateFromHex(h, btc.MainNetwork)
			if err != nil {
				return err.Error()
			}
			q, ok := p.GetPublicKey()
			if !ok {
				return "no"
			}
			a, _ := q.Address(true)
			b, _ := q.Address(false)
			return fmt.Sprint(privVals(p), pubVals(q), q.Format(true), q.Format(false), a, b)
		})
	}
	do(func() string {
		p, err := btc.PublicFromHex("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", btc.TestNetwork)
		if err != nil {
			return err.Error()
		}
		q, err := btc.PublicFromHex("03c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5", btc.TestNetwork)
		if err != nil {
			return err.Error()
		}
		r, err := btc.AddPublicKeys(p, q, true)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(pubVals(p), pubVals(q), pubVals(r))
	})
	do(func() string {
		a, _ := btc.PrivateFromHex(ref.Hex32(big1[3]), btc.TestNetwork)
		b, _ := btc.PrivateFromHex(ref.Hex32(big1[4]), btc.TestNetwork)
		c, err := btc.AddPrivateKeys(a, b)
		d, err2 := btc.MultiplyPrivateKeys(a, b)
		return fmt.Sprint(privVals(c), err, privVals(d), err2)
	})
	do(func() string {
		s, err := btc.NewSeedFromMnemonic("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", "x", btc.EnglishWordlist)
		return fmt.Sprintf("%x %v", s, err)
	})
	do(func() string {
		mainEnv.begin(&Ent{Fail: -1, Seed: 77}, nil)
		s, err := btc.NewMnemonic(15, btc.FrenchWordlist)
		mainEnv.begin(&Ent{Fail: -1, Seed: 78}, nil)
		p := btc.GeneratePrivateKey(btc.TestNetwork)
		mainEnv.begin(nil, nil)
		return fmt.Sprint(s, err, privVals(p))
	})
	return out
}
