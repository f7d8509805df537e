package main

import (
	"math/big"
	"strings"

	"verif.local/sim/ref"
)

// Two different pairs of phrase and passphrase, all of them valid, that are the
// same text when written one after the other.
type twin struct {
	phrase string
	pass   string
}

// longer extends a valid phrase of fewer than 24 words to a valid one of three more.
func (r *rng) longer(phrase string, wl []string) (string, bool) {
	ws := strings.Split(phrase, " ")
	if len(ws) > 21 {
		return "", false
	}
	at := map[string]int64{}
	for i := 2047; i >= 0; i-- {
		at[wl[i]] = int64(i)
	}
	n := new(big.Int)
	for _, w := range ws {
		n.Lsh(n, 11)
		n.Or(n, big.NewInt(at[w]))
	}
	bits := (len(ws) + 3) / 3 * 32
	free := uint(bits - 11*len(ws))
	n.Lsh(n, free)
	f := new(big.Int).SetBytes(r.bytes(4))
	n.Or(n, f.And(f, new(big.Int).SetUint64(1<<free-1)))
	s := ref.Mnemonic(n.FillBytes(make([]byte, bits/8)), wl)
	return s, strings.HasPrefix(s, phrase+" ")
}

// stems lists the words of a list that another word of it begins with.
var stems = map[int][][2]int{}

func stemsOf(l int) [][2]int {
	if s, ok := stems[l]; ok {
		return s
	}
	var ps [][2]int
	at := map[string]int{}
	for i, w := range words[l][:2048] {
		at[w] = i
	}
	for i, w := range words[l][:2048] {
		for k := 1; k < len(w); k++ {
			if j, ok := at[w[:k]]; ok {
				ps = append(ps, [2]int{j, i})
			}
		}
	}
	if l < 9 {
		stems[l] = ps
	}
	return ps
}

// stemTwins are phrases that differ in their last word only, which in one of them
// begins with that of the other.
func (r *rng) stemTwins(l int, pass string) []twin {
	ps := stemsOf(l)
	if len(ps) == 0 {
		return nil
	}
	wl := words[l]
	end := func(pre []byte, free, i int) (string, bool) {
		// the entropy that ends in the high bits of word i
		n := new(big.Int).SetBytes(pre)
		cs := 11 - free
		n.Rsh(n, uint(free))
		n.Lsh(n, uint(free))
		n.Or(n, big.NewInt(int64(i>>cs)))
		s := ref.Mnemonic(n.FillBytes(make([]byte, len(pre))), wl)
		return s, strings.HasSuffix(s, " "+wl[i])
	}
	for try := 0; try < 12; try++ {
		pre := r.bytes(16)
		from := r.n(len(ps))
		for k := 0; k < len(ps) && k < 300; k++ {
			p := ps[(from+k)%len(ps)]
			a, ok := end(pre, 7, p[0])
			if !ok {
				continue
			}
			b, ok := end(pre, 7, p[1])
			if !ok {
				continue
			}
			return []twin{{a, wl[p[1]][len(wl[p[0]]):] + pass}, {b, pass}}
		}
	}
	return nil
}

// twins of a phrase and passphrase.
func (r *rng) twins(phrase string, l int, pass string) []twin {
	if len(words[l]) < 2048 {
		return nil
	}
	if r.p(0.25) {
		return r.stemTwins(l, pass)
	}
	long, ok := r.longer(phrase, words[l])
	if !ok {
		return nil
	}
	rest := long[len(phrase):]
	switch {
	case r.p(0.5):
		return []twin{{phrase, rest + pass}, {long, pass}}
	default: // with a space between phrase and passphrase
		return []twin{{phrase, rest[1:] + " " + pass}, {long, pass}}
	}
}
