package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

func genParty(r *rng, sp *Spec) {
	sp.Scen = "party"
	n := 2 + r.n(4)
	ps := &PartySpec{Until: 30 + r.n(40)}
	sp.Party = ps
	fam := &family{}
	net := r.n(2)
	if r.p(0.1) {
		r.nets(sp, 1)
	}
	sum := new(big.Int)
	for i := 0; i < n; i++ {
		k := fam.next(r)
		if i == n-1 && r.p(0.35) {
			// total is unusual: short, tiny, one less than the order, zero
			k = r.partner(modN(sum.Add(sum, new(big.Int))), false)
			if sum.Sign() == 0 {
				k = r.scalar()
			}
		}
		sum = modN(new(big.Int).Add(sum, k))
		ps.Shares = append(ps.Shares, k.Text(16))
		nn := net
		if len(sp.Nets) > 0 && r.p(0.3) {
			nn = r.n(sp.nnets())
		}
		ps.Net = append(ps.Net, nn)
		ps.Comp = append(ps.Comp, r.p(0.5))
	}
	loss := pick(r, 0.0, 0.1, 0.3)
	for i := 0; i < 150; i++ {
		a := NetAct{N: i}
		use := false
		if r.p(loss) {
			a.Drop, use = true, true
		} else {
			if r.p(0.3) {
				a.Delay, use = 1+r.n(25), true
			}
			if r.p(0.15) {
				a.Dup, use = 1+r.n(10), true
			}
			if r.p(0.1) {
				a.Mut, use = r.muts(66, hexAlpha), true
			}
		}
		if use {
			ps.Acts = append(ps.Acts, a)
		}
	}
	for i := 0; i < r.n(4); i++ {
		ps.Crash = append(ps.Crash, CrashAct{Node: r.n(n), At: r.n(ps.Until), After: r.n(6), Down: 1 + r.n(15)})
	}
	for i := 0; i < r.n(3); i++ {
		ps.Parts = append(ps.Parts, PartAct{Side: 1 + r.n(1<<uint(n)-1), At: r.n(ps.Until), For: 1 + r.n(20)})
	}
	for i := 0; i < 2; i++ {
		ps.Orders = append(ps.Orders, r.perm(n))
	}
	sp.Sched = r.policy()
}

func (r *rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

type msg struct {
	from, to int
	text     string
	sum      uint64 // frame check
	at       int
	seq      int
	ack      bool
}

type crashed struct{}

// node is one party.
type node struct {
	id     int
	tr     *taskRun
	net    int
	share  string
	comp   bool
	key    int // reference of the own private key, 0 if not loaded
	mine   string
	got    []int          // senders in the order in which their share came
	refs   map[int]int    // volatile: references of imported shares
	disk   map[int]string // durable: texts of received shares
	order  []int          // durable: order of arrival
	acked  map[int]bool   // durable: who has my share
	result []Out          // combined key, addresses
	down   int            // ticks until restart
	left   int            // calls until the planned crash, -1 for none
	inbox  []msg
	outbox []msg
	failed bool // the combination is infinite or mixes networks
}

// do performs one library call of a node.
func (nd *node) do(op Op) *rec {
	if nd.left == 0 {
		panic(crashed{})
	}
	if nd.left > 0 {
		nd.left--
	}
	nd.tr.recs = append(nd.tr.recs, rec{op: op})
	i := len(nd.tr.recs) - 1
	nd.tr.one(i, &nd.tr.recs[i])
	return &nd.tr.recs[i]
}

func (nd *node) ref() int { return -len(nd.tr.recs) }

// boot loads the own key and what was stored of the others.
func (nd *node) boot() {
	nd.refs = map[int]int{}
	nd.result = nil
	nd.key = 0
	op := Op{K: "phex", S: Str(nd.share), Net: nd.net}
	r := nd.do(op)
	if r.out.St != "ok" {
		return
	}
	nd.key = nd.ref()
	r = nd.do(Op{K: "pub", A: nd.key})
	if r.out.St != "ok" {
		return
	}
	p := nd.ref()
	nd.refs[nd.id] = p
	r = nd.do(Op{K: "fmt", A: p, C: nd.comp})
	nd.mine = r.obj.str
	for _, f := range nd.order {
		if f == nd.id {
			continue
		}
		r := nd.do(Op{K: "pubhex", S: Str(nd.disk[f]), Net: nd.net})
		if r.out.St == "ok" {
			nd.refs[f] = nd.ref()
		}
	}
}

func frame(s string) uint64 { return hashStr(s) }

// step handles the inbox of a tick.
func (nd *node) step(n int) {
	for _, m := range nd.inbox {
		if m.ack {
			nd.acked[m.from] = true
			continue
		}
		r := nd.do(Op{K: "pubhex", S: Str(m.text), Net: nd.net})
		if frame(m.text) != m.sum {
			continue // damaged on the way
		}
		if r.out.St != "ok" {
			continue
		}
		rf := nd.ref()
		if _, ok := nd.disk[m.from]; !ok {
			nd.disk[m.from] = m.text
			nd.order = append(nd.order, m.from)
		}
		nd.refs[m.from] = rf
		nd.outbox = append(nd.outbox, msg{from: nd.id, to: m.from, ack: true})
	}
	nd.inbox = nil
	if nd.result == nil && !nd.failed && len(nd.refs) == n && nd.key != 0 {
		nd.combine(n)
	}
}

// combine adds all shares in the order of arrival; if a partial sum is infinite
// it starts from the next one.
func (nd *node) combine(n int) {
	order := append([]int{}, nd.order...)
	pos := len(order) / 2
	order = append(order[:pos], append([]int{nd.id}, order[pos:]...)...)
	for rot := 0; rot < n; rot++ {
		acc := 0
		ok := true
		for i := 0; i < n; i++ {
			f := order[(i+rot)%n]
			if i == 0 {
				acc = nd.refs[f]
				continue
			}
			a, b := acc, nd.refs[f]
			if (i+nd.id)%2 == 0 {
				a, b = b, a
			}
			r := nd.do(Op{K: "addp", A: a, B: b, C: nd.comp})
			if r.out.St != "ok" {
				ok = false
				break
			}
			acc = nd.ref()
		}
		if ok {
			nd.result = append(nd.result, nd.tr.recs[-1-acc].out)
			nd.result = append(nd.result, nd.do(Op{K: "addr", A: acc, C: true}).out)
			nd.result = append(nd.result, nd.do(Op{K: "addr", A: acc}).out)
			nd.result = append(nd.result, nd.do(Op{K: "fmt", A: acc, C: true}).out)
			return
		}
	}
	nd.failed = true
}

type partyRun struct {
	ar     *apiRun
	counts map[string]int64
	ticks  int
	steps  int64
	sw     int64
	hash   uint64
	sched  uint64
}

const partySlack = 120

// runParty simulates the parties; after the faults stop all of them must be
// done within partySlack ticks.
func runParty(sp *Spec) (*partyRun, *Violation) {
	ps := sp.Party
	n := len(ps.Shares)
	w := newWorld(sp)
	pr := &partyRun{counts: map[string]int64{}}
	nodes := make([]*node, n)
	ar := &apiRun{w: w}
	pr.ar = ar
	pr.sched = 14695981039346656037
	for i := range nodes {
		t := &taskRun{id: i, w: w}
		ar.ts = append(ar.ts, t)
		nodes[i] = &node{id: i, tr: t, net: ps.Net[i], comp: ps.Comp[i], disk: map[int]string{}, acked: map[int]bool{}, left: -1,
			share: ref.HexN(hexInt(ps.Shares[i]), 64)}
	}
	acts := map[int]NetAct{}
	for _, a := range ps.Acts {
		acts[a.N] = a
	}
	var net []msg
	nmsg, seq := 0, 0
	cut := func(a, b, t int) bool {
		for _, p := range ps.Parts {
			if t >= p.At && t < p.At+p.For && t < ps.Until && (p.Side>>uint(a))&1 != (p.Side>>uint(b))&1 {
				return true
			}
		}
		return false
	}
	send := func(m msg, t int) {
		m.at = t + 1
		m.sum = frame(m.text)
		a, planned := acts[nmsg]
		nmsg++
		if t >= ps.Until {
			planned = false
		}
		if cut(m.from, m.to, t) {
			pr.counts["net.partitioned"]++
			return
		}
		if planned && a.Drop {
			pr.counts["net.drop"]++
			return
		}
		if planned && a.Delay > 0 {
			pr.counts["net.delay"]++
			m.at += a.Delay
		}
		if planned && a.Dup > 0 {
			pr.counts["net.duplicate"]++
			d := m
			d.at += a.Dup
			seq++
			d.seq = seq
			net = append(net, d)
		}
		if planned && len(a.Mut) > 0 && !m.ack {
			pr.counts["net.corrupt"]++
			m.text = applyMuts(m.text, a.Mut)
		}
		seq++
		m.seq = seq
		net = append(net, m)
	}
	booted := make([]bool, n)
	runTick := func(t int, who []int, f func(nd *node)) {
		if len(who) == 0 {
			return
		}
		var data []any
		var fs []func()
		for _, i := range who {
			nd := nodes[i]
			data = append(data, &nd.tr.env)
			fs = append(fs, func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(crashed); ok {
							nd.left = -2
							return
						}
						panic(e)
					}
				}()
				f(nd)
			})
		}
		pol := sp.Sched
		pol.Seed = mix(pol.Seed + uint64(t))
		st, _ := simrt.Run(pol, opLimit, data, fs)
		pr.steps += st.Steps
		pr.sw += st.Switches
		pr.sched = (pr.sched ^ st.SchedHash) * 1099511628211
		ar.stats.Deadlock = ar.stats.Deadlock || st.Deadlock
		ar.stats.StepLimit = ar.stats.StepLimit || st.StepLimit
		ar.stats.Exited = ar.stats.Exited || st.Exited
		if st.ExitMsg != "" {
			ar.stats.ExitMsg = st.ExitMsg
		}
	}
	end := ps.Until + partySlack
	done := false
	for t := 0; t < end && !done; t++ {
		pr.ticks = t
		// crashes and restarts
		for _, c := range ps.Crash {
			if c.At == t && nodes[c.Node].down == 0 {
				nodes[c.Node].left = c.After
				nodes[c.Node].down = -c.Down // planned
			}
		}
		var who []int
		for i, nd := range nodes {
			if nd.down > 0 {
				nd.down--
				if nd.down == 0 {
					booted[i] = false
				}
				continue
			}
			if !booted[i] {
				who = append(who, i)
				booted[i] = true
				continue
			}
		}
		boot := map[int]bool{}
		for _, i := range who {
			boot[i] = true
		}
		// deliveries
		sort.SliceStable(net, func(a, b int) bool {
			if net[a].at != net[b].at {
				return net[a].at < net[b].at
			}
			return net[a].seq < net[b].seq
		})
		var rest []msg
		for _, m := range net {
			if m.at > t {
				rest = append(rest, m)
				continue
			}
			nd := nodes[m.to]
			if nd.down > 0 {
				pr.counts["net.lostdown"]++
				continue
			}
			nd.inbox = append(nd.inbox, m)
		}
		net = rest
		who = who[:0]
		for i, nd := range nodes {
			if nd.down > 0 {
				continue
			}
			if boot[i] || len(nd.inbox) > 0 || (nd.result == nil && !nd.failed && len(nd.refs) == n) {
				who = append(who, i)
			}
		}
		runTick(t, who, func(nd *node) {
			if boot[nd.id] {
				nd.boot()
			}
			nd.step(n)
		})
		for _, nd := range nodes {
			if nd.down < 0 { // planned crash of this tick
				pr.counts["node.crash"]++
				nd.down, nd.left = -nd.down, -1
				nd.refs, nd.key, nd.result, nd.inbox, nd.outbox = map[int]int{}, 0, nil, nil, nil
			}
		}
		if ar.stats.Deadlock || ar.stats.StepLimit || ar.stats.Exited {
			break
		}
		// sends
		for _, nd := range nodes {
			if nd.down > 0 {
				continue
			}
			for _, m := range nd.outbox {
				send(m, t)
			}
			nd.outbox = nil
			if t%5 == nd.id%5 && nd.mine != "" && nd.key != 0 {
				for j := range nodes {
					if j != nd.id && !nd.acked[j] {
						send(msg{from: nd.id, to: j, text: nd.mine}, t)
					}
				}
			}
		}
		done = true
		for _, nd := range nodes {
			if nd.down != 0 || nd.result == nil && !nd.failed {
				done = false
			}
		}
		if t < ps.Until && len(ps.Crash) > 0 {
			done = false
		}
	}
	ar.mism = judgeAll(w, ar.ts)
	viol := func(kind, f string, a ...any) *Violation {
		return &Violation{Prop: sp.Prop, Kind: kind, Detail: fmt.Sprintf(f, a...)}
	}
	finish := func() {
		pr.hash = hashRun(ar)
	}
	if ar.stats.Deadlock || ar.stats.StepLimit {
		finish()
		return pr, viol("hang", "%s", "calls never return: "+pendingText(ar.ts))
	}
	if ar.stats.Exited {
		finish()
		return pr, viol("exit", "the process would have ended: %s", ar.stats.ExitMsg)
	}
	// private shares, combined in two orders by one party
	var sums []Out
	if !mixedNets(sp) {
		for oi, ord := range ps.Orders {
			nd := &node{id: 100 + oi, tr: &taskRun{id: len(ar.ts), w: w}, left: -1, net: ps.Net[0]}
			ar.ts = append(ar.ts, nd.tr)
			nodes = append(nodes, nd)
			var out Out
			f := func(nd *node) {
				var refs []int
				for _, j := range ord {
					if j >= n {
						continue
					}
					k := hexInt(ps.Shares[j])
					op := Op{K: "phex", S: Str(ref.HexN(k, 64)), Net: ps.Net[j]}
					if oi == 1 {
						op = Op{K: "wif", S: Str(ref.WIF(k, w.rnets[ps.Net[j]])), Net: ps.Net[j]}
					}
					if nd.do(op).out.St != "ok" {
						return
					}
					refs = append(refs, nd.ref())
				}
				for _, kind := range []string{"mulk", "addk"} {
					acc := refs[0]
					okc := true
					for i := 1; i < len(refs); i++ {
						a, b := acc, refs[i]
						if i%2 == 0 {
							a, b = b, a
						}
						r := nd.do(Op{K: kind, A: a, B: b})
						if r.out.St != "ok" {
							okc = false
							break
						}
						acc = nd.ref()
					}
					if okc && kind == "addk" {
						nd.do(Op{K: "pub", A: acc})
						out = nd.tr.recs[len(nd.tr.recs)-1].out
					}
				}
			}
			runTick(1000+oi, []int{len(nodes) - 1}, f)
			if out.St == "ok" {
				sums = append(sums, out)
			}
		}
		ar.mism = judgeAll(w, ar.ts)
	}
	finish()
	// step by step against the model
	for _, m := range ar.mism {
		if relevant(sp, ar, m) {
			return pr, viol(m.facet+":"+m.why, "party %s", m.text)
		}
	}
	// agreement between parties, and with the private side
	var ref0 []Out
	for _, nd := range nodes[:n] {
		if nd.result == nil {
			if !nd.failed && !done {
				return pr, viol("progress", "party %d has no combined key %d ticks after the faults stopped (it has %d of %d shares)", nd.id, pr.ticks-ps.Until, len(nd.refs), n)
			}
			continue
		}
		if ref0 == nil {
			ref0 = nd.result
			continue
		}
		for i := range ref0 {
			if fmt.Sprint(ref0[i].V) != fmt.Sprint(nd.result[i].V) && !mixedNets(sp) {
				return pr, viol("agreement", "party %d has %v, another has %v", nd.id, nd.result[i], ref0[i])
			}
		}
	}
	for _, s := range sums {
		if ref0 != nil && strings.Join(s.V[:2], " ") != strings.Join(ref0[0].V[:2], " ") {
			return pr, viol("agreement", "the sum of the private shares has public key %v, the parties have %v", s.V, ref0[0].V)
		}
	}
	return pr, nil
}

func mixedNets(sp *Spec) bool {
	for _, n := range sp.Party.Net {
		if n != sp.Party.Net[0] {
			return true
		}
	}
	return false
}

var _ = hex.EncodeToString
