package main

import (
	"encoding/hex"
	"math/big"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// genMarathon: a great many calls of one kind on a set of keys that come back,
// so that whatever the library may remember of earlier calls is full, runs over
// and is used again.
func genMarathon(r *rng, sp *Spec, scr float64) {
	sp.Scen = "marathon"
	r.nets(sp, r.n(2))
	kind := pick(r, 0, 1, 1, 2, 3, 4, 6, 7)
	n := pick(r, 800, 1600, 3200, 4800)
	if kind == 7 {
		n = pick(r, 150, 300)
	}
	size := pick(r, 20, 70, 140, 300, 600, 1100, 1500)
	if size > n*2/3 {
		size = n * 2 / 3
	}
	// the keys: small ones next to each other, which are cheap, and any
	base := int64(2 + r.n(1<<20))
	step := int64(1 + r.n(300))
	cheap := kind == 1 || kind == 3 || kind == 6
	keys := make([]*big.Int, size)
	for i := range keys {
		if cheap || r.p(0.5) {
			keys[i] = big.NewInt(base + int64(i)*step)
		} else {
			keys[i] = r.randScalar()
		}
	}
	nets := make([]int, size)
	for i := range nets {
		nets[i] = r.n(sp.nnets())
		if r.p(0.7) {
			nets[i] = 0
		}
	}
	// how they come back
	how := r.n(4)
	pos := 0
	next := func() int {
		pos++
		switch how {
		case 0: // round and round
			return pos % size
		case 1: // any
			return r.n(size)
		case 2: // a window that moves
			i := pos/2 - r.n(30)
			if i < 0 {
				i = 0
			}
			return i % size
		default: // often the same few
			if r.p(0.5) {
				return r.n(1 + size/20)
			}
			return r.n(size)
		}
	}
	nt := 1 + r.n(2)
	fam := &family{}
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp, fam: fam, scr: scr}
		own := map[int]int{} // key -> object that holds it
		get := func(i int) int {
			if o, ok := own[i]; ok && r.p(0.8) {
				return o
			}
			o := b.imp(keys[i], nets[i])
			if b.kind[len(b.kind)-1] == 'k' {
				own[i] = o
			}
			return o
		}
		getp := func(i int) int {
			if o, ok := own[i]; ok && r.p(0.8) {
				return o
			}
			o := b.impPub(keys[i], nets[i])
			if b.kind[len(b.kind)-1] == 'p' {
				own[i] = o
			}
			return o
		}
		for len(b.ops) < n/nt {
			i := next()
			rn := sp.rnet(nets[i])
			switch kind {
			case 0:
				b.imp(keys[i], nets[i])
			case 1:
				a := get(i)
				if b.kind[-1-a] == 'k' {
					b.put(Op{K: "pub", A: a}, 'p', nil)
				}
			case 2:
				switch r.n(4) {
				case 0:
					b.put(Op{K: "check", S: Str(ref.WIF(keys[i], rn))}, 0, nil)
				case 1:
					b.put(Op{K: "wif", S: Str(r.badWIF(keys[i], rn)), Net: nets[i]}, 0, nil)
				case 2:
					b.put(Op{K: "wif", S: Str(ref.WIF(keys[i], rn)), Net: r.n(sp.nnets())}, 0, nil)
				default:
					b.imp(keys[i], nets[i])
				}
			case 3:
				h := hex.EncodeToString(ref.PubBytes(mulG(keys[i]), r.p(0.8)))
				b.put(Op{K: "pubhex", S: Str(h), Net: nets[i]}, 'p', nil)
			case 4:
				a, c := get(i), get(next())
				if b.kind[-1-a] == 'k' && b.kind[-1-c] == 'k' {
					b.put(Op{K: pick(r, "addk", "mulk"), A: a, B: c}, 'k', nil)
				}
			case 6:
				a := getp(i)
				if b.kind[-1-a] != 'p' {
					continue
				}
				if r.p(0.6) {
					b.put(Op{K: pick(r, "addr", "addr", "fmt"), A: a, C: r.p(0.5)}, 0, nil)
				} else if c := getp(next()); b.kind[-1-c] == 'p' {
					b.put(Op{K: "addp", A: a, B: c, C: r.p(0.5)}, 'p', nil)
				}
			default:
				wl := i % 9
				s := ref.Mnemonic(keys[i].FillBytes(make([]byte, 32))[:16+4*(i%5)], words[wl])
				if r.p(0.6) {
					s = r.badPhrase(s, wl)
				}
				b.put(Op{K: "seed", S: Str(s), P: Str(pick(r, "", "a", "b")), WL: wl}, 's', nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = simrt.Policy{Seed: r.u64() >> 8, BProb: pick(r, 0.0003, 0.001, 0.005)}
}
