package main

import (
	"encoding/hex"
	"math/big"
	"strings"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// rng is the generator of specs.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	s := uint64(0x5eed)
	for _, p := range parts {
		s = mix(s ^ mix(p))
	}
	return &rng{s}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.u64() % uint64(k))
}
func (r *rng) p(f float64) bool { return float64(r.u64()>>11)/(1<<53) < f }
func (r *rng) bytes(k int) []byte {
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(r.u64() >> 32)
	}
	return b
}
func pick[T any](r *rng, l ...T) T { return l[r.n(len(l))] }

// Scalars whose public key or address has leading zero bytes.
var special = []int64{
	1077294, 2103698, 3177539, 3187284, 3199338, 5320817, 6386750, 6393243, 6403758, 6407610, 7371750, 7390378,
	1052381, 1067274, 2101116, 2137079, 2169446, 3153756, 3172411, 3240475, 4288776, 5345135, 6299797, 7369924,
	1123790, 3215572, 4200669, 44629, 58165, 6303602, 63439, 6359681, 68831, 7349383, 7381785, 7409488,
	1059582, 2135367, 3178399, 3248410, 4217000, 4253081, 5360687, 55959, 62762, 6329832, 6349151, 7345464,
	1155854, 2168406, 2170175, 2187408, 41192, 4220098, 4241752, 4263605, 5259294, 5274264, 5349274, 7394086, 8169169,
}

var bigOne = big.NewInt(1)

func modN(k *big.Int) *big.Int { return new(big.Int).Mod(k, ref.N) }

func (r *rng) randScalar() *big.Int {
	for {
		k := new(big.Int).SetBytes(r.bytes(32))
		if ref.ValidScalar(k) {
			return k
		}
	}
}

// scalar is a valid private key number, often an unusual one.
func (r *rng) scalar() *big.Int {
	for {
		var k *big.Int
		switch r.n(15) {
		case 13:
			k = new(big.Int).SetBytes(r.pattern(32))
		case 0:
			k = big.NewInt(int64(1 + r.n(pick(r, 1, 3, 20))))
		case 1:
			k = new(big.Int).Sub(ref.N, big.NewInt(int64(1+r.n(pick(r, 1, 3, 20)))))
		case 2:
			k = new(big.Int).Lsh(bigOne, uint(r.n(256)))
		case 3:
			k = new(big.Int).Lsh(bigOne, uint(1+r.n(255)))
			k.Sub(k, bigOne)
		case 4:
			k = new(big.Int).Rsh(ref.N, 1)
			k.Add(k, big.NewInt(int64(r.n(5)-2)))
		case 5, 6:
			k = big.NewInt(special[r.n(len(special))])
			if r.p(0.5) {
				k.Sub(ref.N, k)
			}
		case 7:
			k = new(big.Int).SetBytes(r.bytes(1 + r.n(31)))
		case 8:
			k = new(big.Int).SetBytes(r.bytes(32 - r.n(4)))
			k.Lsh(k, uint(r.n(4))*8)
		case 9:
			k = new(big.Int).SetBytes([]byte(strings.Repeat(string([]byte{byte(r.u64())}), 32)))
		default:
			k = r.randScalar()
		}
		if ref.ValidScalar(k) {
			return k
		}
	}
}

// family makes keys related to earlier ones, so that a result mixed up between
// calls, or found under a shortened key, shows.
type family struct {
	base []*big.Int
}

func (f *family) next(r *rng) *big.Int {
	if len(f.base) == 0 || r.p(0.25) {
		k := r.scalar()
		f.base = append(f.base, k)
		return k
	}
	k := f.base[r.n(len(f.base))]
	var q *big.Int
	switch r.n(9) {
	case 0:
		q = new(big.Int).Sub(ref.N, k)
	case 1:
		q = new(big.Int).Add(k, bigOne)
	case 2:
		q = new(big.Int).Sub(k, bigOne)
	case 3: // same first bytes
		b := k.FillBytes(make([]byte, 32))
		n := 1 + r.n(31)
		copy(b[n:], r.bytes(32-n))
		q = new(big.Int).SetBytes(b)
	case 4: // same last bytes
		b := k.FillBytes(make([]byte, 32))
		n := 1 + r.n(31)
		copy(b[:n], r.bytes(n))
		q = new(big.Int).SetBytes(b)
	case 5:
		q = modN(new(big.Int).Lsh(k, 1))
	case 6: // one bit
		i := r.n(256)
		q = new(big.Int).SetBit(k, i, k.Bit(i)^1)
	default:
		q = k
	}
	if !ref.ValidScalar(q) {
		return r.scalar()
	}
	if q.Cmp(k) != 0 && r.p(0.5) {
		f.base = append(f.base, q)
	}
	return q
}

// partner is a scalar whose sum or product with k is unusual.
func (r *rng) partner(k *big.Int, mul bool) *big.Int {
	var t *big.Int
	switch r.n(6) {
	case 0:
		t = new(big.Int) // zero, for sums
	case 1:
		t = big.NewInt(int64(1 + r.n(300)))
	case 2:
		t = new(big.Int).SetBytes(r.bytes(1 + r.n(31)))
	case 3:
		t = new(big.Int).Sub(ref.N, big.NewInt(int64(1+r.n(5))))
	case 4:
		t = big.NewInt(special[r.n(len(special))])
	default:
		t = r.scalar()
	}
	var q *big.Int
	if mul {
		if t.Sign() == 0 {
			t = bigOne
		}
		q = modN(new(big.Int).Mul(t, new(big.Int).ModInverse(k, ref.N)))
	} else {
		q = modN(new(big.Int).Sub(t, k))
	}
	if !ref.ValidScalar(q) {
		return r.scalar()
	}
	return q
}

// policy draws how a run is scheduled.
func (r *rng) policy() simrt.Policy {
	p := simrt.Policy{Seed: r.u64()}
	switch r.n(10) {
	case 0: // one after the other
	case 1:
		p.BProb = 1
	case 2:
		p.BProb = 0.5
	case 3, 4:
		p.BProb = 0.1
	case 5:
		p.BProb = 0.02
	case 6:
		p.DMean = pick(r, int64(20), 200, 2000, 20000)
	case 7:
		p.DMean = pick(r, int64(50), 500, 5000)
		p.BProb = pick(r, 0.02, 0.1, 0.5)
	default: // few switches at chosen points
		n := 1 + r.n(4)
		lim := pick(r, 20, 60, 200, 600, 2000)
		at := int64(0)
		for i := 0; i < n; i++ {
			at += int64(1 + r.n(lim))
			p.Points = append(p.Points, at)
		}
	}
	return p
}

// nets adds networks of the user's own.
func (r *rng) nets(sp *Spec, n int) {
	for i := 0; i < n; i++ {
		switch r.n(6) {
		case 0: // equal to mainnet
			sp.Nets = append(sp.Nets, NetSpec{"80", "00"})
		case 1:
			sp.Nets = append(sp.Nets, NetSpec{"EF", "6F"})
		case 2: // same private-key prefix as another network, other addresses
			sp.Nets = append(sp.Nets, NetSpec{pick(r, "80", "EF"), hexByte(r)})
		case 3: // same address prefix, other private-key prefix
			sp.Nets = append(sp.Nets, NetSpec{hexByte(r), pick(r, "00", "6F")})
		case 4:
			sp.Nets = append(sp.Nets, NetSpec{pick(r, "00", "01", "FF", "B0", "7F"), pick(r, "00", "30", "80", "EF", "FF")})
		default:
			sp.Nets = append(sp.Nets, NetSpec{hexByte(r), hexByte(r)})
		}
	}
	if sp.Prop != "C10" {
		r.netCase(sp)
	}
}

// netCase writes the prefixes of some networks in lower or mixed case.
func (r *rng) netCase(sp *Spec) {
	for i := range sp.Nets {
		if r.p(0.3) {
			n := &sp.Nets[i]
			n.Priv, n.Pub = randCase(r, strings.ToLower(n.Priv)), randCase(r, strings.ToLower(n.Pub))
		}
	}
}

func hexByte(r *rng) string { return strings.ToUpper(hex.EncodeToString(r.bytes(1))) }

func (sp *Spec) rnet(i int) ref.Net {
	switch i {
	case 0:
		return ref.Net{Priv: 0x80}
	case 1:
		return ref.Net{Priv: 0xEF, Pub: 0x6F}
	}
	return ref.Net{Priv: parseByte(sp.Nets[i-2].Priv), Pub: parseByte(sp.Nets[i-2].Pub)}
}

func (sp *Spec) nnets() int { return 2 + len(sp.Nets) }

// net picks a network, mostly the package's.
func (r *rng) net(sp *Spec) int {
	if r.p(0.5) {
		return r.n(2)
	}
	return r.n(sp.nnets())
}

func randCase(r *rng, s string) string {
	switch r.n(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if r.p(0.5) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// chunks of a source that delivers short reads.
func (r *rng) chunks() []int {
	switch r.n(7) {
	case 0:
		return []int{1}
	case 1:
		return []int{31}
	case 2:
		return []int{15, 1, 16}
	case 3:
		return []int{0, 3}
	case 4, 5:
		n := 1 + r.n(6)
		c := make([]int, n)
		for i := range c {
			c[i] = r.n(20)
		}
		c[0]++
		return c
	}
	return nil
}

var keyBlocks = []*big.Int{
	new(big.Int), bigOne,
	new(big.Int).Sub(ref.N, big.NewInt(3)), new(big.Int).Sub(ref.N, big.NewInt(2)), new(big.Int).Sub(ref.N, bigOne), ref.N, new(big.Int).Add(ref.N, bigOne),
	new(big.Int).Sub(new(big.Int).Lsh(bigOne, 256), bigOne), new(big.Int).Lsh(bigOne, 255),
	new(big.Int).Sub(new(big.Int).Lsh(bigOne, 252), bigOne), new(big.Int).Lsh(bigOne, 252),
	new(big.Int).Lsh(bigOne, 248), new(big.Int).Sub(ref.P, bigOne), ref.P,
}

// keyEnt is the source during a key generation.
func (r *rng) keyEnt() *Ent {
	e := &Ent{Seed: r.u64(), Fail: -1}
	if r.p(0.6) {
		n := r.n(4)
		var pre []byte
		for i := 0; i < n; i++ {
			switch r.n(6) {
			case 0, 1:
				pre = append(pre, keyBlocks[r.n(len(keyBlocks))].FillBytes(make([]byte, 32))...)
			case 4, 5:
				b := r.pattern(32)
				if b[0] < 16 {
					b[0] |= byte(16 + r.n(112))
				}
				pre = append(pre, b...)
			case 2: // leading zeros
				b := r.bytes(32)
				for j := 0; j < 1+r.n(31); j++ {
					b[j] = 0
				}
				pre = append(pre, b...)
			default: // next to the order
				b := new(big.Int).Add(ref.N, big.NewInt(int64(r.n(9)-4))).FillBytes(make([]byte, 32))
				pre = append(pre, b...)
			}
		}
		if r.p(0.03) {
			// a long run of draws that can not be used
			pre = nil
			n := 3 + r.n(40)
			if r.p(0.25) {
				n = 50 + r.n(250)
			}
			what := r.n(3)
			for j := 0; j < n; j++ {
				if what == 0 { // too short
					b := r.bytes(32)
					b[0] &= 15
					pre = append(pre, b...)
					continue
				}
				pre = append(pre, pick(r, keyBlocks[0], keyBlocks[7], ref.N).FillBytes(make([]byte, 32))...)
			}
		}
		e.Pre = hex.EncodeToString(pre)
	}
	if r.p(0.6) {
		e.Chunks = r.chunks()
	}
	return e
}

// pattern is n bytes with some structure.
func (r *rng) pattern(n int) []byte {
	b := r.bytes(n)
	switch r.n(9) {
	case 0, 1: // repeated
		k := pick(r, 1, 2, 3, 4, 8, 16)
		for i := k; i < n; i++ {
			b[i] = b[i-k]
		}
	case 2: // a run of equal bytes
		c := pick(r, byte(0), 0, 0xff, 0x20, byte(r.u64()))
		i := r.n(n)
		for j := 0; j < 1+r.n(n) && i+j < n; j++ {
			b[i+j] = c
		}
	case 3: // ends in zeros
		for j := 0; j < 1+r.n(n-1); j++ {
			b[n-1-j] = 0
		}
	case 4: // counting
		for i := range b {
			b[i] = b[0] + byte(i)
		}
	case 5: // the same backwards
		for i := 0; i < n/2; i++ {
			b[n-1-i] = b[i]
		}
	case 6: // few bits
		for i := range b {
			b[i] = 0
		}
		for j := 0; j < 1+r.n(4); j++ {
			b[r.n(n)] |= 1 << r.n(8)
		}
	case 7: // many bits
		for i := range b {
			b[i] = 0xff
		}
		for j := 0; j < 1+r.n(4); j++ {
			b[r.n(n)] &^= 1 << r.n(8)
		}
	default: // only small digits in hex, or text
		for i := range b {
			if b[0]&1 == 0 {
				b[i] &= 0x77
			} else {
				b[i] = 'a' + b[i]%26
			}
		}
	}
	return b
}

// phraseEnt is the source during a mnemonic generation of n entropy bytes.
func (r *rng) phraseEnt(n int) *Ent {
	e := &Ent{Seed: r.u64(), Fail: -1}
	if r.p(0.6) {
		e.Pre = hex.EncodeToString(r.entropy(n))
	}
	if r.p(0.6) {
		e.Chunks = r.chunks()
	}
	return e
}

// entropy is n bytes, often unusual.
func (r *rng) entropy(n int) []byte {
	b := r.bytes(n)
	switch r.n(9) {
	case 7:
		return r.pattern(n)
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := 0; i < 1+r.n(n); i++ {
			b[i] = 0
		}
	case 3:
		for i := 0; i < 1+r.n(n); i++ {
			b[n-1-i] = 0
		}
	case 4:
		c := pick(r, byte(0x7f), 0x80, 0x55, 0x01)
		for i := range b {
			b[i] = c
		}
	case 5:
		for i := range b {
			b[i] = 0
		}
		b[r.n(n)] = 1 << r.n(8)
	case 6: // leading zero bits
		b[0] >>= uint(r.n(8))
	}
	return b
}

var wordCounts = []int{12, 15, 18, 21, 24}

// fail makes the source fail during the call.
func (r *rng) fail(e *Ent, span int) *Ent {
	e.Fail = r.n(span)
	e.Err = r.n(len(entErrors))
	e.With = r.p(0.4)
	e.Sticky = r.p(0.5)
	return e
}

var passes = []Str{"", "TREZOR", "correct horse", "пароль", "\u3000", "x\x00y", "密码", " ", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}

func (r *rng) pass() Str {
	switch {
	case r.p(0.3):
		return Str(r.bytes(r.n(20)))
	case r.p(0.1): // long, around powers of two or anywhere
		n := pick(r, 32, 64, 128, 256, 512, 1024, 4096) - 4 + r.n(9)
		if r.p(0.4) {
			n = r.n(3000)
		}
		return Str(r.bytes(n))
	case r.p(0.1): // blanks at the ends
		return Str(pick(r, " ", "\t", "\n", "\r\n", "\u3000", "\x00") + string(passes[r.n(len(passes))]) + pick(r, " ", "\t", "\n", "\u3000", "\x00", ""))
	}
	return passes[r.n(len(passes))]
}

// phrase is a valid mnemonic.
func (r *rng) phrase(wl int) string {
	n := wordCounts[r.n(5)]
	return ref.Mnemonic(r.entropy(n/3*4), words[wl])
}

func (r *rng) goodList() int {
	switch r.n(10) {
	case 0, 1:
		return 0
	case 2, 3:
		return pick(r, wlReversed, wlSynth, wlSynth)
	}
	return r.n(9)
}
