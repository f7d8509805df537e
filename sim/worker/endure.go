package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math/big"
	"runtime"
	"strings"

	"github.com/aureleoules/btc"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// The endurance scenario: one process makes very many calls, all of them
// different, in rounds; between the rounds nothing of them is in use any more.
// What is still in memory then, the library keeps.

// calls of a round, by kind
var endureKinds = []struct {
	name string
	n    int
}{
	{"gen", 900}, {"genfail", 900}, {"mnem", 500}, {"mnemfail", 900},
	{"wif", 900}, {"badwif", 900}, {"check", 1200}, {"phex", 900}, {"badphex", 1200},
	{"pubhex", 400}, {"badpub", 900}, {"pub", 250}, {"fmtaddr", 400},
	{"addk", 700}, {"addkbad", 900}, {"mulk", 700}, {"addp", 400}, {"addpbad", 700},
	{"seed", 250}, {"badseed", 500}, {"newnet", 900}, {"newnet2", 400},
	{"newlist", 400}, {"badmnem", 900}, {"mulkbad", 900},
}

// kinds of which few calls succeed, and those that fill the same caches
var endureFill = map[string][]string{
	"badseed": {"seed"}, "newlist": {"seed"}, "mnemfail": {"mnem"}, "genfail": {"gen"},
	"badwif": {"wif"}, "badphex": {"phex"}, "badpub": {"pubhex"}, "addkbad": {"addk"},
	"mulkbad": {"mulk"}, "addpbad": {"addp"}, "badmnem": {"mnem"},
}

func genEndure(r *rng, sp *Spec) {
	sp.Scen = "endurance"
	e := &EndureSpec{Seed: r.u64(), Tasks: 2 + r.n(3)}
	k := endureKinds[r.n(len(endureKinds))]
	e.Kinds, e.N = []string{k.name}, k.n
	if r.p(0.08) {
		e.N *= 6
	}
	sp.Endure = e
	sp.Sched = simrt.Policy{Seed: r.u64() >> 8, BProb: pick(r, 0.0003, 0.001, 0.005)}
}

type endTask struct {
	env    env
	r      *rng
	kinds  []string
	n      int
	calls  int64
	keys   [4]*btc.PrivateKey
	pubs   [4]*btc.PublicKey
	nets   [2]*btc.Network
	failed int64
}

func (t *endTask) run() {
	r := t.r
	for i := range t.keys {
		k := r.randScalar()
		t.keys[i] = &btc.PrivateKey{Key: k, Hex: ref.Hex32(k), WIF: ref.WIF(k, ref.Net{Priv: 0x80}), Network: btc.MainNetwork}
	}
	t.nets = [2]*btc.Network{btc.MainNetwork, btc.TestNetwork}
	for i := 0; i < t.n; i++ {
		k := t.kinds[0]
		if len(t.kinds) > 1 {
			k = t.kinds[r.n(len(t.kinds))]
		}
		simrt.OpBegin()
		t.one(k)
	}
	t.keys, t.pubs = [4]*btc.PrivateKey{}, [4]*btc.PublicKey{}
}

// scalar is a new one each time, some of them with leading zeros or other marks
func (t *endTask) scalar() *big.Int {
	k := t.r.randScalar()
	if t.r.p(0.2) {
		k.Rsh(k, uint(1+t.r.n(200)))
		if k.Sign() == 0 {
			k.SetInt64(1)
		}
	} else if t.r.p(0.1) {
		k = t.r.scalar()
	}
	return k
}

func (t *endTask) key() *btc.PrivateKey {
	k := t.scalar()
	return &btc.PrivateKey{Key: k, Hex: ref.Hex32(k), WIF: ref.WIF(k, ref.Net{Priv: 0x80}), Network: btc.MainNetwork}
}

func (t *endTask) small() *btc.PrivateKey {
	k := big.NewInt(int64(t.r.n(1<<30) + 2))
	return &btc.PrivateKey{Key: k, Hex: ref.Hex32(k), WIF: ref.WIF(k, ref.Net{Priv: 0x80}), Network: btc.MainNetwork}
}

// pub gives a public key that was not there before.
func (t *endTask) pub() *btc.PublicKey {
	for i := range t.pubs {
		if t.pubs[i] == nil {
			p := ref.MulG(t.r.randScalar())
			t.pubs[i] = &btc.PublicKey{X: p.X, Y: p.Y, Network: btc.MainNetwork}
		}
	}
	// a sum of two that are there
	i := t.r.n(4)
	j := (i + 1 + t.r.n(3)) % 4
	a, b := t.pubs[i], t.pubs[j]
	p := ref.Add(&ref.Point{X: a.X, Y: a.Y}, &ref.Point{X: b.X, Y: b.Y})
	if p == nil {
		return a
	}
	q := &btc.PublicKey{X: p.X, Y: p.Y, Network: btc.MainNetwork}
	t.pubs[i] = q
	return q
}

func (t *endTask) one(kind string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case simrt.AbortPanic:
			panic(x)
		}
	}()
	defer func() {
		if t.env.mustFail {
			t.failed++
		}
	}()
	r := t.r
	ent := &Ent{Fail: -1, Seed: r.u64()}
	if kind == "gen" && r.p(0.3) {
		ent = r.keyEnt()
	}
	if strings.HasSuffix(kind, "fail") {
		r.fail(ent, 16)
	}
	t.env.begin(ent, nil)
	t.calls++
	net := t.nets[r.n(2)]
	rn := ref.Net{Priv: 0x80}
	if net == t.nets[1] {
		rn = ref.Net{Priv: 0xEF, Pub: 0x6F}
	}
	switch kind {
	case "gen", "genfail":
		btc.GeneratePrivateKey(net)
	case "mnem", "mnemfail":
		btc.NewMnemonic(wordCounts[r.n(5)], lists[r.n(9)])
	case "wif":
		btc.PrivateFromWIF(ref.WIF(t.scalar(), rn), net)
	case "badwif":
		btc.PrivateFromWIF(r.badWIF(t.scalar(), rn), net)
	case "check":
		s := ref.WIF(t.scalar(), rn)
		if r.p(0.5) {
			s = r.badWIF(t.scalar(), rn)
		}
		btc.CheckWIF(s)
	case "phex":
		btc.PrivateFromHex(ref.Hex32(t.scalar()), net)
	case "badphex":
		btc.PrivateFromHex(r.badHex(t.scalar()), net)
	case "pubhex":
		p := t.pub()
		btc.PublicFromHex(hex.EncodeToString(ref.PubBytes(&ref.Point{X: p.X, Y: p.Y}, r.p(0.5))), net)
	case "badpub":
		x := append([]byte{byte(2 + r.n(3))}, r.bytes(32+32*r.n(2))...)
		if r.p(0.5) {
			p := t.pub()
			btc.PublicFromHex(r.badPub(&ref.Point{X: p.X, Y: p.Y}), net)
			break
		}
		btc.PublicFromHex(hex.EncodeToString(x), net)
	case "pub":
		// small keys: the cost goes with the size
		t.small().GetPublicKey()
	case "fmtaddr":
		p := t.pub()
		p.Format(r.p(0.5))
		p.Address(r.p(0.5))
	case "addk":
		btc.AddPrivateKeys(t.key(), t.keys[r.n(4)])
	case "addkbad":
		k := t.key()
		o := &btc.PrivateKey{Key: new(big.Int).Set(k.Key), Hex: k.Hex, WIF: k.WIF, Network: k.Network}
		switch r.n(3) {
		case 0:
			o.Network = btc.TestNetwork
			o.WIF = ref.WIF(o.Key, ref.Net{Priv: 0xEF})
		case 1:
			o.Key.Sub(ref.N, o.Key)
			o.Hex, o.WIF = ref.Hex32(o.Key), ref.WIF(o.Key, ref.Net{Priv: 0x80})
		}
		btc.AddPrivateKeys(k, o)
	case "mulk":
		btc.MultiplyPrivateKeys(t.key(), t.keys[r.n(4)])
	case "addp":
		p := t.pub()
		btc.AddPublicKeys(p, t.pubs[r.n(4)], r.p(0.5))
	case "addpbad":
		p := t.pub()
		o := &btc.PublicKey{X: p.X, Y: new(big.Int).Sub(ref.P, p.Y), Network: p.Network}
		if r.p(0.5) {
			o.Network = btc.TestNetwork
		}
		btc.AddPublicKeys(p, o, r.p(0.5))
	case "seed":
		wl := r.n(9)
		btc.NewSeedFromMnemonic(ref.Mnemonic(r.bytes(16), words[wl]), string(r.bytes(4)), lists[wl])
	case "badseed":
		wl := r.n(9)
		s := ref.Mnemonic(r.bytes(pick(r, 16, 32)), words[wl])
		if r.p(0.6) {
			s = r.badPhrase(s, wl)
		} else {
			s += " " + words[wl][r.n(2048)]
		}
		btc.NewSeedFromMnemonic(s, string(r.bytes(4)), lists[wl])
	case "newnet":
		// every caller with a network of its own
		n := &btc.Network{PrivKeyPrefix: fmt.Sprintf("%02x", r.n(256)), PubKeyHashPrefix: fmt.Sprintf("%02x", r.n(256))}
		k := ref.Hex32(t.scalar())
		btc.PrivateFromHex(k, n)
		btc.PrivateFromWIF(ref.WIF(t.scalar(), ref.Net{Priv: parseByte(n.PrivKeyPrefix)}), n)
	case "newnet2":
		n := &btc.Network{PrivKeyPrefix: fmt.Sprintf("%02x", r.n(256)), PubKeyHashPrefix: fmt.Sprintf("%02x", r.n(256))}
		p := t.pub()
		a := &btc.PublicKey{X: p.X, Y: p.Y, Network: n}
		a.Address(r.p(0.5))
		q := t.pub()
		btc.AddPublicKeys(a, &btc.PublicKey{X: q.X, Y: q.Y, Network: n}, r.p(0.5))
		btc.GeneratePrivateKey(n)
	case "newlist":
		// every caller with a list of its own
		wl := append([]string(nil), words[r.n(9)]...)
		i, j := r.n(2048), r.n(2048)
		wl[i], wl[j] = wl[j], wl[i]
		if r.p(0.5) {
			btc.NewMnemonic(wordCounts[r.n(5)], wl)
		} else {
			s := ref.Mnemonic(r.bytes(16), wl)
			if r.p(0.7) {
				s += " " + wl[0]
			}
			btc.NewSeedFromMnemonic(s, "", wl)
		}
	case "badmnem":
		if wl := lists[r.n(9)]; r.p(0.5) {
			btc.NewMnemonic(r.n(40)*3+1, wl)
		} else {
			btc.NewMnemonic(wordCounts[r.n(5)], wl[:r.n(2048)])
		}
	case "mulkbad":
		k := t.key()
		o := &btc.PrivateKey{Key: new(big.Int).Set(k.Key), Hex: k.Hex, WIF: k.WIF, Network: k.Network}
		if r.p(0.5) {
			o = t.key()
			o.Network = btc.TestNetwork
			o.WIF = ref.WIF(o.Key, ref.Net{Priv: 0xEF})
		}
		btc.MultiplyPrivateKeys(k, o)
	default:
		panic("unknown kind " + kind)
	}
}

type memory struct{ bytes, objs, gor int64 }

func measure() memory {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return memory{int64(ms.HeapAlloc), int64(ms.HeapObjects), int64(runtime.NumGoroutine())}
}

// runEndure makes rounds of calls and watches what is left after each.
func runEndure(sp *Spec) (*apiRun, *Violation) {
	e := sp.Endure
	ar := &apiRun{w: &world{}}
	h := fnv.New64a()
	calls := int64(0)
	round := 0
	size, kinds := e.N, append([]string(nil), e.Kinds...)
	var stop *Violation
	one := func() {
		data := make([]any, e.Tasks)
		fs := make([]func(), e.Tasks)
		ts := make([]*endTask, e.Tasks)
		for i := range ts {
			t := &endTask{r: newRng(e.Seed, uint64(round), uint64(i)), kinds: kinds, n: (size + e.Tasks - 1) / e.Tasks}
			ts[i], data[i], fs[i] = t, &t.env, t.run
		}
		pol := sp.Sched
		pol.Seed += uint64(round)
		st, _ := simrt.Run(pol, opLimit, data, fs)
		for _, t := range ts {
			calls += t.calls
			for k, n := range t.env.errs {
				if n > 0 && k < len(entErrNames) {
					counts["entropy.error "+entErrNames[k]] += n
				}
			}
			counts["entropy.failedcall"] += t.failed
		}
		fmt.Fprintf(h, "%d %d %d;", calls, st.SchedHash, st.Steps)
		ar.stats.Steps += st.Steps
		ar.stats.Switches += st.Switches
		if len(ar.stats.PairHash) == 0 {
			ar.stats.PairHash = st.PairHash
		}
		if st.Deadlock {
			stop = &Violation{Prop: sp.Prop, Kind: "stuck", Detail: "the calls do not finish any more (" + strings.Join(e.Kinds, ", ") + ")"}
		}
		round++
		if round%4 == 0 {
			emit(map[string]bool{"tick": true})
		}
	}
	grown := func(a, b memory, n int64) string {
		if b.gor-a.gor > 4+n/16 {
			return "goroutines"
		}
		if b.bytes-a.bytes > 4000+n/8 {
			return "memory"
		}
		return ""
	}
	for round < 2 && stop == nil {
		one()
	}
	c0 := calls
	m0 := measure()
	for round < 5 && stop == nil {
		one()
	}
	m1 := measure()
	what := grown(m0, m1, calls-c0)
	if l := endureFill[e.Kinds[0]]; len(l) > 0 && what == "memory" && stop == nil {
		// few of these calls succeed: fill up the caches of those that do
		for _, kinds[0] = range l {
			size = 600
			for i := 0; i < 10 && stop == nil; i++ {
				one()
			}
		}
		size, kinds[0] = e.N, e.Kinds[0]
		one()
		c0, m0 = calls, measure()
		for i := 0; i < 3 && stop == nil; i++ {
			one()
		}
		m1 = measure()
		what = grown(m0, m1, calls-c0)
	}
	if what != "" && stop == nil {
		if e.goesOn(what, m0, m1, calls-c0, func(n int64) memory {
			for until := calls + n; calls < until && stop == nil; {
				size = int(min(until-calls, int64(e.N)))
				one()
			}
			return measure()
		}, grown) && stop == nil {
			stop = &Violation{Prop: sp.Prop, Kind: "growth", Detail: fmt.Sprintf("%s kept by the library: still growing with the number of calls after %d calls (%s)", what, calls, strings.Join(e.Kinds, ", "))}
		}
	}
	counts["call.endurance"] += calls
	ar.endCalls = int(calls)
	ar.endHash = h.Sum64()
	return ar, stop
}

// goesOn: what was left after n calls has grown from m0 to m1. Is that a cache
// that fills up, or does it go on? A cache of a few thousand entries has filled
// up after so many more calls; one that is emptied when it is full shrinks in
// between.
func (e *EndureSpec) goesOn(what string, m0, m1 memory, n int64, more func(int64) memory, grown func(a, b memory, n int64) string) bool {
	const parts, entries, objects = 10, 6000, 4
	objs := max(m1.objs-m0.objs, 1)
	most := min(max(int64(e.N)*70, 20000), 60000)
	calls := min(max(entries*objects*n/objs, 15000), most)
	if what == "goroutines" {
		calls = 15000
	}
	r := newRng(e.Seed, 77)
	at, last := int64(0), m1
	var ms [parts]memory
	var ns [parts]int64
	for i := range ms {
		// at uneven distances
		to := calls * int64(100*i+10+r.n(90)) / (100 * parts)
		if i == parts-1 {
			to = calls
		}
		to = max(to, at+1)
		ms[i], ns[i] = more(to-at), to
		at = to
		if ms[i].bytes < last.bytes-2000 && what == "memory" {
			return false
		}
		last = ms[i]
	}
	// the last part of it
	a, b, k := ms[parts-4], ms[parts-1], ns[parts-1]-ns[parts-4]
	if grown(a, b, k) != what {
		return false
	}
	if what == "goroutines" {
		return true
	}
	return float64(b.bytes-a.bytes) > 0.15*float64(m1.bytes-m0.bytes)*float64(k)/float64(n)
}
