package main

import (
	"encoding/hex"
	"math/big"

	"verif.local/sim/ref"
)

// builder makes the operations of one task.
type builder struct {
	r    *rng
	sp   *Spec
	fam  *family
	ops  []Op
	kind []byte     // kind of each result: k, p, t, s, 0
	num  []*big.Int // scalar behind it, where known
	bad  float64    // share of damaged texts
	scr  float64    // share of overwritten results and arguments
	gen  bool       // allow generation
	nets int        // 0: any, 1: package's only
}

func (b *builder) put(op Op, kind byte, k *big.Int) int {
	if b.r.p(b.scr) {
		switch {
		case b.r.p(0.5) && (kind == 'k' || kind == 'p' || kind == 's'):
			op.Scr = 1
			kind = 0
		case op.K == "pub" || op.K == "addk" || op.K == "mulk" || op.K == "addp" || op.K == "fmt" || op.K == "addr":
			op.Scr = 2
		}
	}
	b.ops = append(b.ops, op)
	b.kind = append(b.kind, kind)
	b.num = append(b.num, k)
	return -len(b.ops)
}

// find picks a shared or own object of the kind.
func (b *builder) find(kind byte) (int, *big.Int, bool) {
	var l []int
	for i, k := range b.kind {
		if k == kind {
			l = append(l, -1-i)
		}
	}
	n := 0
	var shared []KeySpec
	if kind == 'k' {
		shared = b.sp.Keys
	} else if kind == 'p' {
		shared = b.sp.Pubs
	}
	n = len(shared)
	if n > 0 && (len(l) == 0 || b.r.p(0.5)) {
		i := b.r.n(n)
		return i, hexInt(shared[i].K), true
	}
	if len(l) == 0 {
		return 0, nil, false
	}
	i := l[b.r.n(len(l))]
	return i, b.num[-1-i], true
}

func (b *builder) net() int {
	if b.nets == 1 {
		return b.r.n(2)
	}
	return b.r.net(b.sp)
}

// imp imports a private key.
func (b *builder) imp(k *big.Int, net int) int {
	r := b.r
	rn := b.sp.rnet(net)
	switch r.n(5) {
	case 0, 1:
		return b.put(Op{K: "phex", S: Str(randCase(r, ref.Hex32(k))), Net: net}, 'k', k)
	case 2:
		return b.put(Op{K: "wif", S: Str(ref.CompressedWIF(k, rn)), Net: net}, 'k', k)
	default:
		return b.put(Op{K: "wif", S: Str(ref.WIF(k, rn)), Net: net}, 'k', k)
	}
}

func (b *builder) impPub(k *big.Int, net int) int {
	h := hex.EncodeToString(ref.PubBytes(mulG(k), b.r.p(0.6)))
	return b.put(Op{K: "pubhex", S: Str(randCase(b.r, h)), Net: net}, 'p', k)
}

// random adds one random operation (sometimes a little cluster).
func (b *builder) random() {
	r := b.r
	switch r.n(20) {
	case 0:
		b.imp(b.fam.next(r), b.net())
	case 1:
		net := b.net()
		rn := b.sp.rnet(net)
		k := b.fam.next(r)
		if r.p(b.bad) {
			b.put(Op{K: "wif", S: Str(r.badWIF(k, rn)), Net: net}, 0, nil)
		} else if r.p(0.2) {
			// a WIF of another network
			b.put(Op{K: "wif", S: Str(ref.WIF(k, b.sp.rnet(b.net()))), Net: net}, 0, nil)
		} else {
			b.imp(k, net)
		}
	case 2:
		net := b.net()
		k := b.fam.next(r)
		if r.p(b.bad) {
			b.put(Op{K: "phex", S: Str(r.badHex(k)), Net: net}, 0, nil)
		} else {
			b.imp(k, net)
		}
	case 3, 4:
		net := b.net()
		k := b.fam.next(r)
		if r.p(b.bad) {
			b.put(Op{K: "pubhex", S: Str(r.badPub(mulG(k))), Net: net}, 0, nil)
		} else {
			b.impPub(k, net)
		}
	case 5:
		k := b.fam.next(r)
		rn := b.sp.rnet(b.net())
		s := ref.WIF(k, rn)
		if r.p(0.5) {
			s = r.badWIF(k, rn)
		}
		b.put(Op{K: "check", S: Str(s)}, 0, nil)
	case 6, 7, 8:
		if a, k, ok := b.find('k'); ok {
			b.put(Op{K: "pub", A: a}, 'p', k)
		}
	case 9:
		if a, _, ok := b.find('p'); ok {
			b.put(Op{K: "fmt", A: a, C: r.p(0.5)}, 0, nil)
		}
	case 10, 11:
		if a, _, ok := b.find('p'); ok {
			b.put(Op{K: "addr", A: a, C: r.p(0.5)}, 0, nil)
		}
	case 12, 13:
		a, ka, ok := b.find('k')
		if !ok {
			return
		}
		mul := r.p(0.4)
		kind := "addk"
		if mul {
			kind = "mulk"
		}
		if r.p(0.5) {
			if c, kc, ok := b.find('k'); ok {
				b.put(Op{K: kind, A: a, B: c}, 'k', comb(ka, kc, mul))
			}
			return
		}
		if ka == nil {
			return
		}
		// a partner that makes the result unusual, on a network that mostly fits
		p := r.partner(ka, mul)
		net := b.net()
		if a >= 0 && r.p(0.8) {
			net = b.sp.Keys[a].Net
		}
		c := b.imp(p, net)
		if b.kind[len(b.kind)-1] == 0 {
			return
		}
		if r.p(0.5) {
			a, c = c, a
		}
		s := b.put(Op{K: kind, A: a, B: c}, 'k', comb(ka, p, mul))
		if r.p(0.5) && b.kind[-1-s] == 'k' {
			b.put(Op{K: "pub", A: s}, 'p', b.num[-1-s])
		}
	case 14, 15:
		a, ka, ok := b.find('p')
		if !ok {
			return
		}
		if r.p(0.5) {
			if c, kc, ok := b.find('p'); ok {
				b.put(Op{K: "addp", A: a, B: c, C: r.p(0.5)}, 'p', comb(ka, kc, false))
			}
			return
		}
		if ka == nil {
			return
		}
		p := r.partner(ka, false)
		net := b.net()
		if a >= 0 && r.p(0.8) {
			net = b.sp.Pubs[a].Net
		}
		c := b.impPub(p, net)
		if b.kind[len(b.kind)-1] == 0 {
			return
		}
		b.put(Op{K: "addp", A: a, B: c, C: r.p(0.5)}, 'p', comb(ka, p, false))
	case 16:
		wl := r.goodList()
		s := r.phrase(wl)
		if r.p(b.bad) {
			s = r.badPhrase(s, wl)
		}
		b.put(Op{K: "seed", S: Str(s), P: r.pass(), WL: wl}, 's', nil)
	case 17:
		if b.gen {
			b.put(Op{K: "gen", Net: b.net(), Ent: r.keyEnt()}, 'k', nil)
		}
	case 18:
		if b.gen {
			n := wordCounts[r.n(5)]
			wl := r.goodList()
			t := b.put(Op{K: "mnem", N: n, WL: wl, Ent: r.phraseEnt(n / 3 * 4)}, 't', nil)
			if r.p(0.3) {
				b.put(Op{K: "seed", A: t, T: "txt", P: r.pass(), WL: wl}, 's', nil)
			}
		}
	case 19:
		a, k, ok := b.find('k')
		if !ok {
			return
		}
		switch r.n(3) {
		case 0:
			b.put(Op{K: "wif", A: a, T: "wif", Net: b.net()}, 'k', k)
		case 1:
			b.put(Op{K: "phex", A: a, T: "hex", Net: b.net()}, 'k', k)
		default:
			if a < 0 {
				// the owner changes the key in place; derived results are fresh afterwards
				q := b.fam.next(r)
				if b.kind[-1-a] == 'k' && b.ops[-1-a].Scr == 0 {
					b.ops = append(b.ops, Op{K: "rekey", A: a, S: Str(q.Text(16))})
					b.kind = append(b.kind, 0)
					b.num = append(b.num, nil)
					b.num[-1-a] = q
					b.put(Op{K: "pub", A: a}, 'p', q)
				}
			}
		}
	}
}

func comb(a, b *big.Int, mul bool) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	k := new(big.Int)
	if mul {
		k.Mul(a, b)
	} else {
		k.Add(a, b)
	}
	k.Mod(k, ref.N)
	if k.Sign() == 0 {
		return nil
	}
	return k
}

// shared adds shared keys to the spec.
func (r *rng) shared(sp *Spec, fam *family, nk, np int) {
	for i := 0; i < nk; i++ {
		sp.Keys = append(sp.Keys, KeySpec{fam.next(r).Text(16), r.net(sp), pick(r, "", "hex", "wif")})
	}
	for i := 0; i < np; i++ {
		sp.Pubs = append(sp.Pubs, KeySpec{fam.next(r).Text(16), r.net(sp), pick(r, "", "hex", "comp")})
	}
}
