package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// genSpec makes the spec of one run from its seed alone.
func genSpec(prop string, seed, life uint64, run int, tier string) *Spec {
	r := newRng(hashStr(prop), seed, life, uint64(run))
	sp := &Spec{Prop: prop, Run: run, Warm: life%2 == 0, CPUs: simrt.CPUs(life)}
	if r.p(0.3) {
		sp.Perm = 1 + uint64(r.n(1000))
	}
	permList(sp.Perm)
	switch prop {
	case "C01":
		if !raceBuild && r.p(0.02) {
			genMarathon(r, sp, 0)
		} else if r.p(0.1) || raceBuild && r.p(0.45) {
			genPaths(r, sp)
		} else {
			genConc(r, sp, 0.25, 0)
		}
	case "C02":
		if r.p(0.012) {
			genMarathon(r, sp, 0.2)
		} else if r.p(0.35) {
			genEcho(r, sp)
		} else {
			genConc(r, sp, 0.3, 0.35)
			sp.Scen = "own"
		}
		sp.Watch = true
	case "C03":
		genEntropy(r, sp, 0.55)
		sp.Scen = "entropy-faults"
	case "C04":
		if r.p(0.1) {
			genFlip(r, sp)
		} else {
			genKeys(r, sp)
		}
	case "C05":
		genPhrases(r, sp)
	case "C06":
		genEntropy(r, sp, 0.25)
		sp.Scen = "history"
	case "C07":
		genStore(r, sp)
	case "C08":
		genDamage(r, sp)
	case "C09":
		genHostile(r, sp)
	case "C10":
		if r.p(0.008) {
			genMarathon(r, sp, 0)
		} else if r.p(0.35) {
			genCombine(r, sp)
		} else {
			genParty(r, sp)
		}
	case "C11":
		if r.p(0.004) {
			genMarathon(r, sp, 0)
		} else {
			genNets(r, sp)
		}
	case "C12":
		genLeak(r, sp)
	case "C13":
		genSeeds(r, sp)
	case "C14":
		genStall(r, sp)
	case "C15":
		genEndure(r, sp)
	default:
		panic("unknown property " + prop)
	}
	sp.Reuse = len(sp.Nets) > 0 && r.p(0.5)
	if r.p(0.5) {
		sp.Clock = jumps[r.n(len(jumps))] + int64(r.n(1e9))
	}
	if r.p(0.3) {
		for t := range sp.Tasks {
			for i := range sp.Tasks[t].Ops {
				if r.p(0.2) {
					sp.Tasks[t].Ops[i].Jump = jumps[r.n(len(jumps))]
				}
			}
		}
		if sp.Store != nil {
			for i := range sp.Store.Steps {
				if r.p(0.3) {
					sp.Store.Steps[i].Jump = jumps[r.n(len(jumps))]
				}
			}
		}
	}
	return sp
}

const day = int64(86400e9)

// jumps of the clock, in nanoseconds
var jumps = []int64{1e6, 1e9, -1e9, 60e9, 3600e9, -3600e9, day, 40 * day, -40 * day, 400 * day, 5500 * day, -9000 * day, 30000 * day}

func genConc(r *rng, sp *Spec, badShare, scr float64) {
	sp.Scen = "concurrent"
	r.nets(sp, r.n(3))
	fam := &family{}
	r.shared(sp, fam, 1+r.n(3), 1+r.n(3))
	nt := 2 + r.n(4)
	if r.p(0.15) {
		nt = 1
	}
	if sp.Prop == "C01" && nt < 2 {
		nt = 2
	}
	per := 2 + r.n(6)
	var focus func(b *builder)
	if r.p(0.3) {
		focus = r.focus(sp, fam)
	}
	if sp.Prop == "C01" && r.p(0.06) {
		// a crowd
		nt, per = 9+r.n(40), 1+r.n(2)
		focus = r.focus(sp, fam)
	}
	stormy := sp.Prop == "C01" && r.p(0.05)
	for i := 0; i < nt; i++ {
		b := &builder{r: r, sp: sp, fam: fam, bad: badShare, scr: scr, gen: true}
		if stormy && i == 0 {
			r.storm(b, 70+r.n(100))
			per += len(b.ops)
		} else if stormy && i == 1 {
			per -= len(sp.Tasks[0].Ops)
			if per < 2 {
				per = 2
			}
		}
		for try := 0; len(b.ops) < per && try < 60; try++ {
			if focus != nil && r.p(0.8) {
				focus(b)
			} else {
				b.random()
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// storm adds many calls of one kind that all fail.
func (r *rng) storm(b *builder, n int) { r.failing(b, n, r.n(9), r.n(4)) }

func (r *rng) failing(b *builder, n, kind, sub int) {
	net := b.net()
	rn := b.sp.rnet(net)
	for i := 0; i < n; i++ {
		k := b.fam.next(r)
		switch kind {
		case 0, 1: // not base58, wrong checksum, wrong length, wrong network
			w := ref.WIF(k, rn)
			switch sub {
			case 0:
				w = w[:20] + "0" + w[21:]
			case 1:
				w = applyMut(w, Mut{K: "swap", I: 20, J: 30 + r.n(10)}) + "1"
			case 2:
				w = ref.B58Check(append([]byte{rn.Priv}, k.Bytes()[:1]...))
			default:
				w = ref.WIF(k, ref.Net{Priv: rn.Priv ^ 1})
			}
			b.put(Op{K: pick(r, "wif", "wif", "check"), S: Str(w), Net: net}, 0, nil)
		case 2:
			b.put(Op{K: "phex", S: Str(r.badHex(k)), Net: net}, 0, nil)
		case 3:
			b.put(Op{K: "pubhex", S: Str(pick(r, "02", "03") + ref.HexN(big.NewInt(5), 64)), Net: net}, 0, nil)
		case 4:
			b.put(Op{K: "pubhex", S: Str(r.badPub(smallPoints[r.n(len(smallPoints))])), Net: net}, 0, nil)
		case 5:
			wl := r.n(9)
			s := []string{"", "x", words[wl][r.n(2048)], strings.Repeat(words[wl][1]+" ", 11) + words[wl][1]}[sub]
			b.put(Op{K: "seed", S: Str(s), P: "p", WL: wl}, 0, nil)
		case 6:
			op := Op{K: "mnem", N: 12, WL: r.n(9), Ent: r.phraseEnt(16)}
			switch sub {
			case 0:
				op.N = 13
			case 1:
				op.WL = wlShort
			default:
				r.fail(op.Ent, 16)
				op.Ent.Sticky = true
			}
			b.put(op, 0, nil)
		case 7:
			e := r.keyEnt()
			r.fail(e, 32)
			e.Sticky = true
			b.put(Op{K: "gen", Net: net, Ent: e}, 0, nil)
		default:
			if sub < 2 {
				if a, _, ok := b.find('k'); ok {
					b.put(Op{K: pick(r, "addk", "mulk"), A: a, B: a}, 0, nil)
				}
			} else if a, _, ok := b.find('p'); ok && a >= 0 {
				x := b.sp.Pubs[a]
				c := b.put(Op{K: "pubhex", S: Str(hex.EncodeToString(ref.PubBytes(ref.Neg(mulG(hexInt(x.K))), sub == 2))), Net: x.Net}, 'p', nil)
				b.put(Op{K: "addp", A: a, B: c, C: r.p(0.5)}, 0, nil)
			}
		}
	}
}

// genPaths: two or three tasks take the same rare paths, each once or twice. For
// the race detector, which needs two visits and no particular moment.
func genPaths(r *rng, sp *Spec) {
	sp.Scen = "paths"
	r.nets(sp, 1+r.n(2))
	fam := &family{}
	r.shared(sp, fam, 1+r.n(2), 1+r.n(2))
	var rec [][2]int
	for i := 0; i < 12; i++ {
		rec = append(rec, [2]int{r.n(13), r.n(4)})
	}
	for t := 0; t < 2+r.n(2); t++ {
		b := &builder{r: r, sp: sp, fam: fam, bad: 0.5, gen: true}
		for i := range rec {
			kind, sub := rec[(i+t*5)%len(rec)][0], rec[(i+t*5)%len(rec)][1]
			net := b.net()
			k := fam.next(r)
			switch {
			case kind < 9:
				r.failing(b, 1+r.n(2), kind, sub)
			case kind == 9: // draws that can not be used, short ones, ends of the range
				b.put(Op{K: "gen", Net: net, Ent: r.keyEnt()}, 'k', nil)
			case kind == 10: // a point off the curve, or out of the field
				x := new(big.Int).SetBytes(r.bytes(32))
				for i := 0; ref.Decompress(x, false) != nil && i < 50; i++ {
					x.SetBytes(r.bytes(32))
				}
				if sub == 0 {
					x.Add(ref.P, big.NewInt(int64(r.n(900))))
				}
				if sub == 1 {
					b.put(Op{K: "pubhex", S: Str("04" + ref.HexN(x, 64) + ref.HexN(new(big.Int).SetBytes(r.bytes(32)), 64)), Net: net}, 0, nil)
				} else {
					b.put(Op{K: "pubhex", S: Str(pick(r, "02", "03") + ref.HexN(x, 64)), Net: net}, 0, nil)
				}
			case kind == 11: // damaged phrases
				wl := r.goodList()
				b.put(Op{K: "seed", S: Str(r.badPhrase(r.phrase(wl), wl)), P: r.pass(), WL: wl}, 0, nil)
			default: // damaged or foreign keys
				b.put(Op{K: "wif", S: Str(r.badWIF(k, sp.rnet(net))), Net: net}, 0, nil)
				b.put(Op{K: "phex", S: Str(r.badHex(k)), Net: net}, 0, nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// genEcho: the same few calls again and again, with results and arguments that
// their owner overwrites in between.
func genEcho(r *rng, sp *Spec) {
	sp.Scen = "echo"
	r.nets(sp, r.n(2))
	fam := &family{}
	r.shared(sp, fam, 1+r.n(2), 1+r.n(2))
	nk, np := len(sp.Keys), len(sp.Pubs)
	var base []Op
	for i := 0; i < 2+r.n(4); i++ {
		k := fam.next(r)
		net := r.net(sp)
		switch r.n(8) {
		case 0:
			base = append(base, Op{K: "wif", S: Str(pick(r, ref.WIF(k, sp.rnet(net)), ref.CompressedWIF(k, sp.rnet(net)))), Net: net})
		case 1:
			base = append(base, Op{K: "phex", S: Str(ref.Hex32(k)), Net: net})
		case 2:
			base = append(base, Op{K: "pubhex", S: Str(hex.EncodeToString(ref.PubBytes(mulG(k), r.p(0.5)))), Net: net})
		case 3:
			base = append(base, Op{K: "pub", A: r.n(nk)})
		case 4:
			base = append(base, Op{K: pick(r, "addk", "mulk"), A: r.n(nk), B: r.n(nk)})
		case 5:
			base = append(base, Op{K: "addp", A: r.n(np), B: r.n(np), C: r.p(0.5)})
		case 6:
			base = append(base, Op{K: pick(r, "fmt", "addr"), A: r.n(np), C: r.p(0.5)})
		default:
			wl := r.goodList()
			base = append(base, Op{K: "seed", S: Str(r.phrase(wl)), P: r.pass(), WL: wl})
		}
	}
	for t := 0; t < 1+r.n(2); t++ {
		var ops []Op
		for i := 0; i < 8+r.n(8); i++ {
			op := base[r.n(len(base))]
			switch op.K {
			case "fmt", "addr":
				op.Scr = pick(r, 0, 2)
			case "pub", "addk", "mulk", "addp":
				op.Scr = pick(r, 0, 1, 1, 2)
			default:
				op.Scr = pick(r, 0, 1, 1)
			}
			ops = append(ops, op)
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{ops})
	}
	sp.Sched = simrt.Policy{Seed: r.u64()}
}

// focus makes all tasks do the same kind of thing at once.
func (r *rng) focus(sp *Spec, fam *family) func(*builder) {
	what := r.n(8)
	return func(b *builder) {
		switch what {
		case 0:
			b.impPub(fam.next(r), b.net())
		case 1:
			if a, k, ok := b.find('k'); ok {
				b.put(Op{K: "pub", A: a}, 'p', k)
			}
		case 2:
			if a, _, ok := b.find('p'); ok {
				b.put(Op{K: "addr", A: a, C: r.p(0.5)}, 0, nil)
			}
		case 3:
			k, c := pick(r, "addk", "mulk"), 0
			a, _, ok := b.find('k')
			c, _, ok = b.find('k')
			if ok {
				b.put(Op{K: k, A: a, B: c}, 'k', nil)
			}
		case 4:
			a, _, ok := b.find('p')
			c, _, ok2 := b.find('p')
			if ok && ok2 {
				b.put(Op{K: "addp", A: a, B: c, C: r.p(0.5)}, 'p', nil)
			}
		case 5:
			b.imp(fam.next(r), b.net())
		case 6:
			n := wordCounts[r.n(5)]
			b.put(Op{K: "mnem", N: n, WL: r.goodList(), Ent: r.phraseEnt(n / 3 * 4)}, 't', nil)
			b.put(Op{K: "gen", Net: b.net(), Ent: r.keyEnt()}, 'k', nil)
		default:
			wl := r.goodList()
			s := r.phrase(wl)
			if r.p(0.3) {
				s = r.badPhrase(s, wl)
			}
			pass := r.pass()
			if r.p(0.1) {
				if tw := r.twins(s, wl, string(pass)); tw != nil && len(strings.Split(s, " "))%3 == 0 {
					k := r.n(2)
					b.put(Op{K: "seed", S: Str(tw[k].phrase), P: Str(tw[k].pass), WL: wl}, 's', nil)
					s, pass = tw[1-k].phrase, Str(tw[1-k].pass)
				}
			}
			b.put(Op{K: "seed", S: Str(s), P: pass, WL: wl}, 's', nil)
		}
	}
}

// genEntropy: histories of generation with a source that fails.
func genEntropy(r *rng, sp *Spec, fail float64) {
	r.nets(sp, r.n(2))
	nt := 1 + r.n(4)
	streams := []uint64{r.u64(), r.u64()}
	for t := 0; t < nt; t++ {
		var ops []Op
		n := 2 + r.n(10)
		if r.p(0.1) {
			n = 30
		}
		from, to := -1, -1
		if r.p(fail / 5) {
			// an outage
			from = r.n(5)
			to = from + pick(r, 4, 12, 30, 60, 120)
			n = to + 1 + r.n(5)
		}
		every := r.p(0.5)
		for i := 0; i < n; i++ {
			var op Op
			if r.p(0.5) {
				op = Op{K: "gen", Net: r.n(sp.nnets()), Ent: r.keyEnt()}
				if i >= from && i < to {
					r.fail(op.Ent, pick(r, 1, 32))
					op.Ent.Sticky = every
				} else if r.p(fail) && i != to {
					r.fail(op.Ent, pick(r, 1, 33, 33, 65, 130, len(op.Ent.Pre)/2+33))
				}
			} else {
				w := wordCounts[r.n(5)]
				op = Op{K: "mnem", N: w, WL: r.goodList(), Ent: r.phraseEnt(w / 3 * 4)}
				if i >= from && i < to {
					r.fail(op.Ent, pick(r, 1, w/3*4))
					op.Ent.Sticky = every
				} else if r.p(fail) && i != to {
					r.fail(op.Ent, pick(r, 1, w/3*4+1, w/3*4, 20))
				}
			}
			if op.Ent.Fail < 0 && r.p(0.15) {
				// the source itself repeats: equal bytes, equal secret
				op.Ent.Seed = streams[r.n(2)]
				op.Ent.Pre = ""
			}
			if op.K == "gen" && r.p(0.15) {
				op.Scr = 1
			}
			ops = append(ops, op)
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{ops})
	}
	sp.Sched = r.policy()
}

func genKeys(r *rng, sp *Spec) {
	sp.Scen = "keys"
	r.nets(sp, r.n(3))
	nt := 1 + r.n(3)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp}
		n := 3 + r.n(8)
		for i := 0; i < n; i++ {
			e := r.keyEnt()
			if r.p(0.1) {
				// a long run of draws that can not be used
				var pre []byte
				for j := 0; j < 3+r.n(40); j++ {
					pre = append(pre, pick(r, keyBlocks[0], keyBlocks[7], ref.N).FillBytes(make([]byte, 32))...)
				}
				e.Pre = hex.EncodeToString(pre)
			}
			net := r.n(sp.nnets())
			a := b.put(Op{K: "gen", Net: net, Ent: e}, 'k', nil)
			switch r.n(4) {
			case 0:
				b.put(Op{K: "wif", A: a, T: "wif", Net: net}, 'k', nil)
			case 1:
				b.put(Op{K: "phex", A: a, T: "hex", Net: net}, 'k', nil)
			case 2:
				// the same bytes again, split differently
				e2 := *e
				e2.Chunks = r.chunks()
				b.put(Op{K: "gen", Net: net, Ent: &e2}, 'k', nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// genFlip: one draw and every draw that differs from it in one bit.
func genFlip(r *rng, sp *Spec) {
	sp.Scen = "flip"
	var base []byte
	for {
		base = r.bytes(32)
		hi := base[0] >> 4
		// neither base nor its neighbours are short or out of range
		if hi&(hi-1) != 0 && hi != 15 && hi|8 != 15 && hi|4 != 15 && hi|2 != 15 && hi|1 != 15 {
			break
		}
	}
	seed := r.u64()
	net := r.n(2)
	ops := []Op{{K: "gen", Net: net, Ent: &Ent{Pre: hex.EncodeToString(base), Seed: seed, Fail: -1}}}
	for i := 0; i < 256; i++ {
		b := append([]byte(nil), base...)
		b[i/8] ^= 1 << (i % 8)
		ops = append(ops, Op{K: "gen", Net: net, Ent: &Ent{Pre: hex.EncodeToString(b), Seed: seed, Fail: -1}})
	}
	sp.Tasks = []TaskSpec{{ops}}
	sp.Sched = simrt.Policy{Seed: seed}
}

func genPhrases(r *rng, sp *Spec) {
	sp.Scen = "phrases"
	nt := 1 + r.n(4)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp}
		n := 3 + r.n(8)
		for i := 0; i < n; i++ {
			w := wordCounts[r.n(5)]
			wl := r.goodList()
			op := Op{K: "mnem", N: w, WL: wl, Ent: r.phraseEnt(w / 3 * 4)}
			if r.p(0.2) {
				if r.p(0.5) {
					op.N = pick(r, 0, -1, 1, 3, 6, 9, 11, 13, 14, 16, 17, 19, 20, 22, 23, 25, 27, 30, 48, -12, 1<<31-1, r.n(30))
				} else {
					op.WL = pick(r, wlShort, wlOne, wlEmpty, wlNil)
				}
				b.put(op, 0, nil)
				continue
			}
			a := b.put(op, 't', nil)
			if r.p(0.25) {
				b.put(Op{K: "seed", A: a, T: "txt", P: r.pass(), WL: wl}, 's', nil)
			}
			if r.p(0.1) {
				e2 := *op.Ent
				e2.Chunks = r.chunks()
				op.Ent = &e2
				b.put(op, 't', nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

func genDamage(r *rng, sp *Spec) {
	sp.Scen = "damage"
	r.nets(sp, r.n(2))
	fam := &family{}
	nt := 1 + r.n(4)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp, fam: fam}
		n := 6 + r.n(14)
		for i := 0; i < n; i++ {
			k := fam.next(r)
			net := r.net(sp)
			rn := sp.rnet(net)
			good := r.p(0.15)
			switch r.n(5) {
			case 0, 1:
				s := r.badWIF(k, rn)
				if good {
					s = pick(r, ref.WIF(k, rn), ref.CompressedWIF(k, rn))
				}
				b.put(Op{K: "wif", S: Str(s), Net: net}, 'k', nil)
				if r.p(0.3) {
					b.put(Op{K: "check", S: Str(s)}, 0, nil)
				}
			case 2:
				s := r.badHex(k)
				if good {
					s = randCase(r, ref.Hex32(k))
				}
				b.put(Op{K: "phex", S: Str(s), Net: net}, 'k', nil)
			case 3:
				pt := mulG(k)
				if r.p(0.15) {
					pt = smallPoints[r.n(len(smallPoints))]
				}
				s := r.badPub(pt)
				if good {
					s = randCase(r, hex.EncodeToString(ref.PubBytes(pt, r.p(0.5))))
				}
				b.put(Op{K: "pubhex", S: Str(s), Net: net}, 'p', nil)
			default:
				s := r.badWIF(k, rn)
				if good {
					s = ref.B58Check(r.bytes(r.n(60)))
				}
				b.put(Op{K: "check", S: Str(s)}, 0, nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// hostileText is anything.
func (r *rng) hostileText(k *big.Int, rn ref.Net) string {
	switch r.n(12) {
	case 0:
		return r.badWIF(k, rn)
	case 1:
		return r.badHex(k)
	case 2:
		return r.badPub(mulG(k))
	case 3:
		wl := r.n(11)
		return r.badPhrase(r.phrase(wl), wl)
	case 4:
		return string(r.bytes(r.n(200)))
	case 5:
		return strings.Repeat(pick(r, "0", "1", "z", "f", " ", "abandon ", "é", "\x00", "\xff", "-", "04", "02", "3"), r.n(150))
	case 6: // every length of right-looking text
		h := ref.Hex32(k) + ref.Hex32(k) + ref.Hex32(k)
		return pick(r, "", "02", "03", "04") + h[:r.n(len(h))]
	case 7:
		w := pick(r, ref.WIF(k, rn), ref.CompressedWIF(k, rn))
		return w[:r.n(len(w)+1)]
	case 8:
		return ref.B58Check(r.bytes(r.n(50)))
	case 9:
		w := pick(r, ref.WIF(k, rn), ref.Hex32(k))
		return w + strings.Repeat(pick(r, "0", "1", w, "\n"), r.n(20))
	case 10:
		return ref.B58Check(append([]byte{rn.Priv}, r.bytes(r.n(40))...))
	default:
		return pick(r, "", " ", "\n", "0", "1", "02", "03", "04", "0x", "-1", "null", "true", "\u202e", strings.Repeat("9", 1000))
	}
}

func genHostile(r *rng, sp *Spec) {
	sp.Scen = "hostile"
	fam := &family{}
	nt := 1 + r.n(3)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp, fam: fam, gen: true}
		n := 5 + r.n(10)
		if r.p(0.03) {
			r.storm(b, 70+r.n(100))
		}
		for i := 0; i < n; i++ {
			net := r.n(2)
			rn := sp.rnet(net)
			k := fam.next(r)
			switch r.n(13) {
			case 12: // an object that holds no key
				v := new(big.Int).Mul(ref.N, big.NewInt(int64(r.n(4))))
				switch r.n(6) {
				case 0:
					v = new(big.Int).Neg(k)
				case 1:
					v = new(big.Int).Lsh(k, uint(r.n(300)))
				case 2:
					v.Add(v, big.NewInt(int64(r.n(5)-2)))
				case 3:
					v.Add(v, k)
				}
				s := v.Text(16)
				if r.p(0.1) {
					s = "nil"
				}
				b.put(Op{K: "rawpub", S: Str(s), Net: net}, 0, nil)
			case 0:
				b.put(Op{K: "check", S: Str(r.hostileText(k, rn))}, 0, nil)
			case 1, 2:
				b.put(Op{K: "wif", S: Str(r.hostileText(k, rn)), Net: net}, 'k', nil)
			case 3:
				b.put(Op{K: "phex", S: Str(r.hostileText(k, rn)), Net: net}, 'k', nil)
			case 4, 5:
				b.put(Op{K: "pubhex", S: Str(r.hostileText(k, rn)), Net: net}, 'p', nil)
			case 6:
				b.put(Op{K: "seed", S: Str(r.hostileText(k, rn)), P: r.pass(), WL: r.n(16)}, 's', nil)
			case 7: // derive from whatever came in
				a := b.put(Op{K: pick(r, "wif", "phex"), S: Str(r.hostileText(k, rn)), Net: net}, 'k', nil)
				p := b.put(Op{K: "pub", A: a}, 'p', nil)
				b.put(Op{K: "addr", A: p, C: r.p(0.5)}, 0, nil)
			case 8: // edge keys
				a := b.imp(k, net)
				p := b.put(Op{K: "pub", A: a}, 'p', nil)
				b.put(Op{K: "fmt", A: p, C: r.p(0.5)}, 0, nil)
				b.put(Op{K: "addr", A: p, C: r.p(0.5)}, 0, nil)
			case 9: // opposite, same, doubled
				a := b.imp(k, net)
				c := b.imp(r.partner(k, false), net)
				b.put(Op{K: pick(r, "addk", "mulk"), A: a, B: pick(r, a, c)}, 'k', nil)
			case 10:
				a := b.impPub(k, net)
				c := b.impPub(r.partner(k, false), net)
				s := b.put(Op{K: "addp", A: a, B: pick(r, a, c, c), C: r.p(0.5)}, 'p', nil)
				b.put(Op{K: "addp", A: s, B: pick(r, a, c), C: r.p(0.5)}, 'p', nil)
			default: // points that nobody derived
				q := smallPoints[r.n(len(smallPoints))]
				if r.p(0.5) {
					q = ref.Neg(q)
				}
				a := b.put(Op{K: "pubhex", S: Str(hex.EncodeToString(ref.PubBytes(q, r.p(0.5)))), Net: net}, 'p', nil)
				c := b.put(Op{K: "pubhex", S: Str(hex.EncodeToString(ref.PubBytes(ref.Neg(q), r.p(0.5)))), Net: net}, 'p', nil)
				b.put(Op{K: "addp", A: a, B: pick(r, a, c), C: r.p(0.5)}, 'p', nil)
				b.put(Op{K: "addr", A: a, C: r.p(0.5)}, 0, nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// genCombine: chains of combinations of shared keys by concurrent tasks.
func genCombine(r *rng, sp *Spec) {
	sp.Scen = "combine"
	if r.p(0.4) {
		r.nets(sp, 1)
	}
	fam := &family{}
	r.shared(sp, fam, 2+r.n(3), 2+r.n(3))
	if r.p(0.7) {
		n := r.net(sp)
		for i := range sp.Keys {
			sp.Keys[i].Net = n
		}
		for i := range sp.Pubs {
			sp.Pubs[i].Net = n
		}
	}
	nt := 1 + r.n(3)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp, fam: fam}
		for try := 0; len(b.ops) < 5+r.n(8) && try < 40; try++ {
			switch r.n(6) {
			case 0, 1, 2:
				a, ka, ok := b.find('k')
				if !ok {
					continue
				}
				mul := r.p(0.4)
				name := "addk"
				if mul {
					name = "mulk"
				}
				net := r.net(sp)
				if a >= 0 {
					net = sp.Keys[a].Net
				}
				c, kc, _ := b.find('k')
				if r.p(0.5) && ka != nil {
					kc = r.partner(ka, mul)
					c = b.imp(kc, net)
				}
				if r.p(0.5) {
					a, c = c, a
				}
				s := b.put(Op{K: name, A: a, B: c}, 'k', comb(ka, kc, mul))
				if r.p(0.3) {
					b.put(Op{K: "pub", A: s}, 'p', comb(ka, kc, mul))
				}
			default:
				a, ka, ok := b.find('p')
				if !ok {
					continue
				}
				net := r.net(sp)
				if a >= 0 {
					net = sp.Pubs[a].Net
				}
				c, kc, _ := b.find('p')
				if r.p(0.5) && ka != nil {
					kc = r.partner(ka, false)
					c = b.impPub(kc, net)
				}
				s := b.put(Op{K: "addp", A: a, B: c, C: r.p(0.5)}, 'p', comb(ka, kc, false))
				if r.p(0.4) {
					b.put(Op{K: pick(r, "fmt", "addr"), A: s, C: r.p(0.5)}, 0, nil)
				}
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// genNets: the same keys on several networks at once.
func genNets(r *rng, sp *Spec) {
	sp.Scen = "networks"
	r.nets(sp, 1+r.n(4))
	fam := &family{}
	// the same scalar on several networks
	for i := 0; i < 2+r.n(3); i++ {
		k := fam.next(r).Text(16)
		sp.Keys = append(sp.Keys, KeySpec{k, r.n(sp.nnets()), pick(r, "", "hex", "wif")})
		sp.Pubs = append(sp.Pubs, KeySpec{k, r.n(sp.nnets()), pick(r, "", "hex", "comp")})
	}
	nt := 1 + r.n(4)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp, fam: fam}
		home := r.n(sp.nnets())
		for try := 0; len(b.ops) < 4+r.n(6) && try < 40; try++ {
			net := home
			if r.p(0.4) {
				net = r.n(sp.nnets())
			}
			k := fam.next(r)
			switch r.n(10) {
			case 0, 1: // a WIF of some network for some network
				other := r.n(sp.nnets())
				s := ref.WIF(k, sp.rnet(other))
				if r.p(0.3) {
					s = ref.CompressedWIF(k, sp.rnet(other))
				}
				b.put(Op{K: "wif", S: Str(s), Net: net}, 'k', k)
			case 2:
				b.put(Op{K: "phex", S: Str(ref.Hex32(k)), Net: net}, 'k', k)
			case 3:
				b.impPub(k, net)
			case 4:
				if a, ka, ok := b.find('k'); ok {
					p := b.put(Op{K: "pub", A: a}, 'p', ka)
					b.put(Op{K: "addr", A: p, C: r.p(0.5)}, 0, nil)
				}
			case 5:
				if a, _, ok := b.find('p'); ok {
					b.put(Op{K: "addr", A: a, C: r.p(0.5)}, 0, nil)
				}
			case 6, 7:
				a, ka, ok := b.find('k')
				c, kc, ok2 := b.find('k')
				if ok && ok2 {
					mul := r.p(0.4)
					n := "addk"
					if mul {
						n = "mulk"
					}
					s := b.put(Op{K: n, A: a, B: c}, 'k', comb(ka, kc, mul))
					if r.p(0.3) {
						b.put(Op{K: "wif", A: s, T: "wif", Net: net}, 'k', nil)
					}
				}
			case 8:
				a, ka, ok := b.find('p')
				c, kc, ok2 := b.find('p')
				if ok && ok2 {
					s := b.put(Op{K: "addp", A: a, B: c, C: r.p(0.5)}, 'p', comb(ka, kc, false))
					b.put(Op{K: "addr", A: s, C: r.p(0.5)}, 0, nil)
				}
			case 9:
				b.put(Op{K: "gen", Net: net, Ent: r.keyEnt()}, 'k', nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

func genSeeds(r *rng, sp *Spec) {
	sp.Scen = "transcription"
	// phrases that come back: with other passphrases, damaged, with another
	// list, from other tasks
	type old struct {
		s string
		p Str
		w int
	}
	var olds []old
	again := pick(r, 0.0, 0.3, 0.6)
	nt := 1 + r.n(4)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp}
		n := 4 + r.n(8)
		for i := 0; i < n; i++ {
			if len(olds) > 0 && r.p(again) {
				o := olds[r.n(len(olds))]
				switch r.n(8) {
				case 0: // the very same
				case 1, 2: // another passphrase
					o.p = r.pass()
				case 3: // one that differs a little
					q := string(o.p)
					switch r.n(5) {
					case 0:
						q += " "
					case 1:
						q = strings.ToUpper(q)
					case 2:
						q = "mnemonic" + q
					case 3:
						if len(q) > 0 {
							q = q[:len(q)-1]
						} else {
							q = "\x00"
						}
					case 4:
						q = ""
					}
					o.p = Str(q)
				case 4: // a word moves from the phrase to the passphrase
					if o.w < 11 && r.p(0.6) {
						if tw := r.twins(o.s, o.w, string(o.p)); tw != nil {
							k := r.n(2)
							b.put(Op{K: "seed", S: Str(tw[k].phrase), P: Str(tw[k].pass), WL: o.w}, 's', nil)
							o.s, o.p = tw[1-k].phrase, Str(tw[1-k].pass)
							break
						}
					}
					if k := strings.LastIndexByte(o.s, ' '); k > 0 {
						if r.p(0.5) {
							o.s, o.p = o.s[:k], Str(o.s[k+1:])+o.p
						} else {
							o.s, o.p = o.s[:k], Str(o.s[k:])+o.p
						}
					}
				case 5: // damaged
					o.s = r.badPhrase(o.s, o.w)
				case 6: // another list
					o.w = r.n(11)
				case 7: // a truncated or missing list
					o.w = pick(r, wlShort, wlOne, wlEmpty, wlNil)
				}
				b.put(Op{K: "seed", S: Str(o.s), P: o.p, WL: o.w}, 's', nil)
				continue
			}
			wl := r.goodList()
			s := r.phrase(wl)
			pass := r.pass()
			use := wl
			if r.p(0.1) {
				use = r.n(11)
			}
			if r.p(0.05) {
				use = pick(r, wlShort, wlOne, wlEmpty, wlNil)
			}
			if again > 0 && r.p(0.5) {
				olds = append(olds, old{s, pass, wl})
			} else if r.p(0.75) {
				s = r.badPhrase(s, wl)
			}
			b.put(Op{K: "seed", S: Str(s), P: pass, WL: use}, 's', nil)
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// genStall: the entropy source stalls in some generation calls while others work.
func genStall(r *rng, sp *Spec) {
	sp.Scen = "stall"
	r.nets(sp, r.n(2))
	fam := &family{}
	r.shared(sp, fam, 1+r.n(2), 1+r.n(2))
	ng := 1 + r.n(3)
	if r.p(0.1) {
		ng = 4 + r.n(30)
	}
	crowd := r.p(0.006)
	if crowd {
		ng = 60 + r.n(60)
		if r.p(0.5) {
			ng = 150 + r.n(250)
		}
	}
	nw := 1 + r.n(4)
	var focus func(b *builder)
	if r.p(0.3) {
		focus = r.focus(sp, fam)
	}
	for i := 0; i < ng+nw; i++ {
		b := &builder{r: r, sp: sp, fam: fam, bad: 0.25, gen: true}
		n := 2 + r.n(6)
		if crowd && i < ng {
			e := &Ent{Seed: r.u64(), Fail: -1, Stall: 1}
			if r.p(0.3) {
				b.put(Op{K: "mnem", N: 12, WL: r.goodList(), Ent: e}, 't', nil)
			} else {
				b.put(Op{K: "gen", Net: b.net(), Ent: e}, 'k', nil)
			}
		} else if i < ng {
			for k := r.n(3); k > 0; k-- {
				b.random()
			}
			for k := 1 + r.n(2); k > 0; k-- {
				var e *Ent
				need := 32
				phrase := r.p(0.5)
				words := wordCounts[r.n(5)]
				if phrase {
					need = words / 3 * 4
					e = r.phraseEnt(need)
				} else {
					e = r.keyEnt()
				}
				if r.p(0.4) {
					e.Chunks = []int{1 + r.n(12)}
				}
				e.Stall = 1
				if r.p(0.4) {
					e.Stall = 1 + r.n(need+4)
				}
				if r.p(0.15) {
					r.fail(e, need)
				}
				if phrase {
					b.put(Op{K: "mnem", N: words, WL: r.goodList(), Ent: e}, 't', nil)
				} else {
					b.put(Op{K: "gen", Net: b.net(), Ent: e}, 'k', nil)
				}
				if r.p(0.3) {
					b.random()
				}
			}
		} else {
			for try := 0; len(b.ops) < n && try < 40; try++ {
				if focus != nil && r.p(0.7) {
					focus(b)
				} else {
					b.random()
				}
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()
}

// check decides whether a finished run broke the property.
func check(sp *Spec, ar *apiRun) *Violation {
	v := func(kind, f string, a ...any) *Violation {
		return &Violation{Prop: sp.Prop, Kind: kind, Detail: fmt.Sprintf(f, a...)}
	}
	for _, m := range ar.mism {
		if relevant(sp, ar, m) {
			return v(m.facet+":"+m.why, "%s", m.text)
		}
	}
	switch sp.Prop {
	case "C02":
		if ar.watch != nil && ar.watch.bad != "" {
			return v("changed", "%s", ar.watch.bad)
		}
		if ar.after != "" {
			return v("changed", "%s", ar.after)
		}
		if s := reobserve(ar); s != "" {
			return v("changed", "%s", s)
		}
		if s := sharing(ar); s != "" {
			return v("shared", "%s", s)
		}
		if s := laterResults(ar); s != "" {
			return v("later", "%s", s)
		}
	case "C11":
		if ar.after != "" && strings.Contains(ar.after, "network") {
			return v("changed", "%s", ar.after)
		}
		if s := netsKept(ar); s != "" {
			return v("changed", "%s", s)
		}
	case "C04":
		if sp.Scen == "flip" {
			if s := checkFlips(ar); s != "" {
				return v("flip", "%s", s)
			}
		}
	}
	if sp.Prop == "C04" || sp.Prop == "C06" {
		if s := checkStreams(sp, ar); s != "" {
			return v("derive:", "%s", s)
		}
	}
	return nil
}

// relevant: does the difference break the property the run is about?
func relevant(sp *Spec, ar *apiRun, m mism) bool {
	var op Op
	var r *rec
	if m.task >= 0 {
		r = &ar.ts[m.task].recs[m.op]
		op = r.op
	}
	switch sp.Prop {
	case "C01":
		return true
	case "C02":
		return false
	case "C03":
		if r != nil && r.must {
			return true
		}
		switch m.facet {
		case "status", "panic", "exit", "hang", "derive", "nilok", "errval":
			return r == nil || op.K == "gen" || op.K == "mnem"
		}
		return false
	case "C04":
		if r == nil {
			return true
		}
		return op.K == "gen" || m.facet != "str"
	case "C05":
		if op.K == "seed" && m.facet == "seed" {
			return false
		}
		return true
	case "C06":
		if r == nil || r.must {
			return false
		}
		if op.K == "gen" {
			return m.facet == "derive"
		}
		if op.K == "mnem" && m.facet == "str" {
			if m.why == "draw" {
				return true
			}
			ent, ok := ref.DecodeMnemonic(r.out.V[0], words[op.WL])
			return ok && string(ent) != string(r.ent)
		}
		return false
	case "C08":
		return true
	case "C09":
		switch m.facet {
		case "panic", "exit", "hang", "nilok":
			return true
		case "status":
			return op.K == "rawpub"
		}
		return false
	case "C10":
		switch op.K {
		case "addk", "mulk", "addp", "pub", "fmt", "addr", "":
			return true
		}
		return false
	case "C11":
		switch m.facet {
		case "net":
			return true
		case "wif", "str":
			return wrongPrefix(sp, ar, m, op, r)
		case "status":
			if m.why == "net" {
				return true
			}
			// refused although the networks are equal
			return r.out.St == "err" && (op.K == "addk" || op.K == "mulk" || op.K == "addp") && otherPointers(ar, m.task, op)
		}
		return false
	case "C12":
		return true
	case "C13":
		return true
	case "C07":
		return false
	}
	return true
}

// otherPointers: the two keys have networks that are equal but not the same object.
func otherPointers(ar *apiRun, t int, op Op) bool {
	tr := ar.ts[t]
	if op.K == "addp" {
		a, b := tr.pub(op.A), tr.pub(op.B)
		return a != nil && b != nil && a.Network != b.Network
	}
	a, b := tr.priv(op.A), tr.priv(op.B)
	return a != nil && b != nil && a.Network != b.Network
}

// wrongPrefix: the WIF or address is of another network.
func wrongPrefix(sp *Spec, ar *apiRun, m mism, op Op, r *rec) bool {
	var text string
	var want byte
	mo := &model{w: ar.w}
	for _, t := range ar.ts {
		mo.objs = append(mo.objs, make([]mobj, len(t.recs)))
	}
	// replay the model up to the call
	for i := 0; i < m.op; i++ {
		mo.judge(m.task, i, &ar.ts[m.task].recs[i], "")
	}
	switch {
	case m.facet == "wif":
		text = r.out.V[2]
		switch op.K {
		case "gen", "phex", "wif":
			want = sp.rnet(op.Net).Priv
		default:
			a, ok := mo.priv(m.task, op.A)
			if !ok {
				return false
			}
			want = sp.rnet(a.net).Priv
		}
	case op.K == "addr":
		text = r.out.V[0]
		a, ok := mo.pub(m.task, op.A)
		if !ok {
			return false
		}
		want = sp.rnet(a.net).Pub
	default:
		return false
	}
	b, ok := ref.B58Decode(text)
	return !ok || len(b) == 0 || b[0] != want
}

// netsKept: no key changed its network.
func netsKept(ar *apiRun) string {
	for _, t := range ar.ts {
		for i := range t.recs {
			r := &t.recs[i]
			if !r.done || r.dead || r.out.St != "ok" {
				continue
			}
			if v := objVals(r.obj); len(v) > 2 && len(r.out.V) == len(v) && v[len(v)-1] != r.out.V[len(v)-1] {
				return fmt.Sprintf("the network of the result of task %d call %d changed from %s to %s", t.id, i, r.out.V[len(v)-1], v[len(v)-1])
			}
		}
	}
	return ""
}

func checkFlips(ar *apiRun) string {
	recs := ar.ts[0].recs
	if len(recs) == 0 || !recs[0].done || recs[0].out.St != "ok" {
		return ""
	}
	n := len(recs[0].ent)
	seen := map[string]string{}
	for i := range recs {
		r := &recs[i]
		if !r.done || r.out.St != "ok" || len(r.ent) != n {
			continue
		}
		if p, ok := seen[r.out.V[0]]; ok && p != r.op.Ent.Pre {
			return fmt.Sprintf("two draws that differ give the same key %s: %s and %s", r.out.V[0], p, r.op.Ent.Pre)
		}
		seen[r.out.V[0]] = r.op.Ent.Pre
	}
	return ""
}

// what generation gave for which bytes, over the life of the process
var streamKey = map[string]string{}
var seedOfKey = map[string]uint64{}

func checkStreams(sp *Spec, ar *apiRun) string {
	for _, t := range ar.ts {
		for i := range t.recs {
			r := &t.recs[i]
			if r.op.K != "gen" || !r.done || r.out.St != "ok" || len(r.out.V) < 4 {
				continue
			}
			s := string(r.ent)
			if k, ok := streamKey[s]; ok && k != r.out.V[0] {
				return fmt.Sprintf("task %d call %d: the same bytes %x give key %s now and gave %s before", t.id, i, r.ent, r.out.V[0], k)
			}
			streamKey[s] = r.out.V[0]
			if r.op.Ent.Pre == "" {
				if q, ok := seedOfKey[r.out.V[0]]; ok && q != r.op.Ent.Seed {
					return fmt.Sprintf("task %d call %d: key %s was already generated from other bytes", t.id, i, r.out.V[0])
				}
				seedOfKey[r.out.V[0]] = r.op.Ent.Seed
			}
		}
	}
	return ""
}
