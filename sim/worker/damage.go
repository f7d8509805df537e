package main

import (
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"strings"

	"verif.local/sim/ref"
)

// applyMut damages text.
func applyMut(s string, m Mut) string {
	n := len(s)
	at := func(i int) int {
		if n == 0 {
			return 0
		}
		return ((i % n) + n) % n
	}
	switch m.K {
	case "pad":
		return s + m.C
	case "look":
		if n == 0 {
			return s
		}
		i := at(m.I)
		return s[:i] + lookalike(s[i], m.J) + s[i+1:]
	case "front":
		return m.C + s
	}
	if n == 0 {
		return s
	}
	b := []byte(s)
	i, j := at(m.I), at(m.J)
	switch m.K {
	case "flip":
		b[i] ^= 1 << (uint(m.J) & 7)
	case "set":
		if len(m.C) > 0 {
			b[i] = m.C[0]
		}
	case "del":
		b = append(b[:i], b[i+1:]...)
	case "ins":
		b = append(b[:i], append([]byte(m.C), b[i:]...)...)
	case "swap":
		b[i], b[j] = b[j], b[i]
	case "dup":
		if j < i {
			i, j = j, i
		}
		b = append(b[:j+1], append([]byte(s[i:j+1]), b[j+1:]...)...)
	case "cut":
		b = b[:i]
	case "tail":
		b = b[i:]
	case "case":
		c := b[i]
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	case "zero":
		if j < i {
			i, j = j, i
		}
		for k := i; k <= j; k++ {
			b[k] = 0
		}
	case "rev":
		if j < i {
			i, j = j, i
		}
		for i < j {
			b[i], b[j] = b[j], b[i]
			i++
			j--
		}
	}
	return string(b)
}

func applyMuts(s string, l []Mut) string {
	for _, m := range l {
		s = applyMut(s, m)
	}
	return s
}

var mutKinds = []string{"flip", "set", "set", "set", "del", "ins", "swap", "swap", "dup", "cut", "tail", "case", "zero", "rev", "pad", "front", "look"}

// lookalike is other text that a reader may take for the character.
func lookalike(c byte, j int) string {
	var l []string
	if c > 0x20 && c < 0x7f {
		l = append(l, string(rune(c)+0xfee0)) // full width
	}
	if c >= '0' && c <= '9' {
		l = append(l, string(rune(0x660)+rune(c-'0')), string(rune(0x966)+rune(c-'0')), string(rune(0x2080)+rune(c-'0')), string(rune(0x1d7ce)+rune(c-'0')))
	}
	for _, p := range looks {
		if p[0][0] == c {
			l = append(l, p[1])
		}
	}
	l = append(l, string([]byte{c, 0}), string([]byte{c})+"\u200b", string([]byte{c})+"\u0301", string([]byte{c})+"\u00ad")
	return l[((j%len(l))+len(l))%len(l)]
}

var looks = [][2]string{{"o", "0"}, {"o", "O"}, {"0", "O"}, {"0", "o"}, {"O", "0"}, {"D", "O"}, {"1", "l"}, {"1", "I"}, {"l", "1"}, {"i", "l"}, {"L", "I"}, {"5", "S"}, {"S", "5"}, {"s", "5"}, {"8", "B"}, {"B", "8"}, {"2", "Z"}, {"Z", "2"}, {"6", "b"}, {"b", "6"},
	{"u", "v"}, {"v", "u"}, {"Q", "O"}, {"a", "\u0430"}, {"e", "\u0435"}, {"o", "\u043e"}, {"c", "\u0441"}, {"p", "\u0440"}, {"x", "\u0445"}, {"A", "\u0410"}, {"B", "\u0412"}, {"E", "\u0415"}, {"K", "\u212a"}, {"k", "\u212a"}, {"s", "\u017f"}, {"i", "\u0131"}}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func (r *rng) mut(n int, alpha string) Mut {
	m := Mut{K: mutKinds[r.n(len(mutKinds))], I: r.n(n + 1), J: r.n(n + 1)}
	if m.K == "swap" && r.p(0.6) {
		m.J = m.I + 1
	}
	if (m.K == "dup" || m.K == "rev" || m.K == "zero") && r.p(0.6) {
		m.J = m.I + r.n(4)
	}
	c := alpha[r.n(len(alpha))]
	m.C = string(c)
	if r.p(0.08) {
		m.C = pick(r, " ", "\n", "\x00", "\t", "0", "O", "l", "-", "+", "_", "é", "\xff", "0x", "=", "1")
	}
	return m
}

func (r *rng) muts(n int, alpha string) []Mut {
	k := 1
	if r.p(0.3) {
		k += r.n(3)
	}
	var l []Mut
	for i := 0; i < k; i++ {
		l = append(l, r.mut(n, alpha))
	}
	return l
}

// badWIF is text near a WIF of k on the network.
func (r *rng) badWIF(k *big.Int, n ref.Net) string {
	kb := k.FillBytes(make([]byte, 32))
	payload := append([]byte{n.Priv}, kb...)
	switch r.n(13) {
	case 0, 1, 2, 3: // damaged text
		w := ref.WIF(k, n)
		if r.p(0.3) {
			w = ref.CompressedWIF(k, n)
		}
		return applyMuts(w, r.muts(len(w), b58))
	case 4: // one bit of the decoded bytes
		if r.p(0.3) {
			payload = append(payload, 1)
		}
		b := append(append([]byte(nil), payload...), ref.Checksum(payload)...)
		b[r.n(len(b))] ^= 1 << r.n(8)
		return ref.B58Encode(b)
	case 5: // checksum nearly right
		c := ref.Checksum(payload)
		switch r.n(12) {
		case 5: // the same bytes in another order
			p := r.perm(4)
			d := append([]byte(nil), c...)
			for i := range c {
				c[i] = d[p[i]]
			}
		case 6: // halves swapped, reversed
			if r.p(0.5) {
				c[0], c[1], c[2], c[3] = c[2], c[3], c[0], c[1]
			} else {
				c[0], c[1], c[2], c[3] = c[3], c[2], c[1], c[0]
			}
		case 7: // differences that cancel
			i := r.n(4)
			j := (i + 1 + r.n(3)) % 4
			x := byte(1 + r.n(255))
			if r.p(0.5) {
				c[i] ^= x
				c[j] ^= x
			} else {
				c[i] += x
				c[j] -= x
			}
		case 8: // some bytes right
			for i := range c {
				if r.p(0.5) {
					c[i] ^= byte(1 + r.n(255))
				}
			}
		case 9: // of something else
			c = ref.Checksum(pick(r, kb, payload[:1], nil, append(append([]byte(nil), payload...), 1)))
		case 10: // single hash, end of the hash
			h := sha256.Sum256(payload)
			h2 := sha256.Sum256(h[:])
			c = append([]byte(nil), pick(r, h[:4], h[28:], h2[28:], h2[4:8])...)
		case 11: // nibbles swapped
			i := r.n(4)
			c[i] = c[i]<<4 | c[i]>>4
		case 0:
			c[0]++
		case 1:
			c[r.n(4)] ^= byte(1 + r.n(255))
		case 2:
			c[3]--
		case 3:
			c[0], c[1] = c[1], c[0]
		case 4:
			c[r.n(4)] = 0
		}
		return ref.B58Encode(append(payload, c...))
	case 6: // right checksum, other length
		l := r.n(46)
		b := append([]byte{n.Priv}, kb...)
		if l <= len(b) {
			if r.p(0.5) {
				b = b[:l]
			} else {
				b = b[len(b)-l:]
			}
		} else {
			b = append(b, r.bytes(l-len(b))...)
		}
		return ref.B58Check(b)
	case 7: // right checksum, flag byte of any value
		return ref.B58Check(append(payload, byte(r.n(5))))
	case 8: // right checksum, any flag
		return ref.B58Check(append(payload, r.bytes(1)...))
	case 9: // right checksum, key out of range
		var x *big.Int
		switch r.n(5) {
		case 0:
			x = new(big.Int)
		case 1:
			x = ref.N
		case 2:
			x = new(big.Int).Add(ref.N, big.NewInt(int64(r.n(5))))
		case 3:
			x = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 256), big.NewInt(int64(1+r.n(5))))
		default:
			x = new(big.Int).Sub(ref.N, big.NewInt(int64(r.n(3))))
		}
		if r.p(0.4) {
			return ref.CompressedWIF(x, n)
		}
		return ref.WIF(x, n)
	case 10: // right checksum, other prefix
		p := append([]byte(nil), payload...)
		p[0] ^= byte(1 << r.n(8))
		if r.p(0.3) {
			p = append(p, 1)
		}
		return ref.B58Check(p)
	case 11: // leading ones
		return strings.Repeat("1", 1+r.n(3)) + ref.WIF(k, n)
	default:
		return pick(r, "", "1", "11111", "0", "l", strings.Repeat("1", r.n(60)), strings.Repeat("z", r.n(60)),
			ref.B58Check(nil), ref.B58Check([]byte{n.Priv}), ref.B58Check(r.bytes(r.n(40))), ref.B58Encode(r.bytes(r.n(40))),
			ref.WIF(k, n)+ref.WIF(k, n), ref.WIF(k, n)+" ", "\n"+ref.WIF(k, n), ref.Hex32(k), string(r.bytes(r.n(60))))
	}
}

const hexAlpha = "0123456789abcdef"

// badHex is text near the private key hex of k.
func (r *rng) badHex(k *big.Int) string {
	h := ref.Hex32(k)
	switch r.n(8) {
	case 0, 1, 2:
		return applyMuts(randCase(r, h), r.muts(len(h), hexAlpha))
	case 3:
		x := pick(r, new(big.Int), ref.N, new(big.Int).Add(ref.N, bigOne), new(big.Int).Sub(ref.N, bigOne),
			new(big.Int).Sub(new(big.Int).Lsh(bigOne, 256), bigOne), bigOne, new(big.Int).Add(ref.N, k))
		return randCase(r, ref.HexN(x, 64))
	case 4: // other length
		return pick(r, h[:r.n(64)], h[r.n(64):], h+h[:r.n(64)], h+h, "00"+h, "0"+h, strings.TrimLeft(h, "0"))
	case 5:
		return pick(r, "0x"+h[2:], "0x"+h, "-"+h[1:], "+"+h[1:], "-"+h, " "+h[1:], h[:63]+" ", h+"\n", h[:32]+"_"+h[33:], h[:20]+"\x00"+h[21:], "0X"+h[2:])
	case 6:
		b := []byte(h)
		i := r.n(64)
		b[i] = pick(r, byte('g'), 'G', 'o', 'l', '/', ':', '@', '`', 0xff)
		return string(b)
	default:
		return pick(r, "", "0", "00", string(r.bytes(64)), strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("g", 64),
			hex.EncodeToString(r.bytes(r.n(70))), ref.WIF(k, ref.Net{Priv: 0x80}))
	}
}

// badPub is text near the public key hex of the point.
func (r *rng) badPub(p *ref.Point) string {
	c := hex.EncodeToString(ref.PubBytes(p, true))
	u := hex.EncodeToString(ref.PubBytes(p, false))
	x, y := c[2:], u[66:]
	switch r.n(11) {
	case 0, 1:
		return applyMuts(randCase(r, c), r.muts(len(c), hexAlpha))
	case 2, 3:
		return applyMuts(randCase(r, u), r.muts(len(u), hexAlpha))
	case 4: // any prefix byte
		pre := hex.EncodeToString([]byte{byte(r.n(9))})
		if r.p(0.3) {
			pre = hex.EncodeToString(r.bytes(1))
		}
		return pre + pick(r, x, x+y)
	case 5: // wrong form for the length
		return pick(r, "04"+x, "02"+x+y, "03"+x+y, x+y, x, "04"+x+y+y, "02"+x+"00", "0"+c, "04"+x+y[:62], "02"+x[:62], "04", "02", "03", "")
	case 6: // not on the curve
		yb := new(big.Int).Add(p.Y, big.NewInt(int64(1+r.n(3))))
		return pick(r, "04"+x+ref.HexN(modP(yb), 64), "04"+ref.HexN(modP(new(big.Int).Add(p.X, bigOne)), 64)+y, "04"+y+x, "04"+strings.Repeat("0", 128), "04"+x+strings.Repeat("0", 64))
	case 7: // coordinates not in the field
		q := smallPoints[r.n(len(smallPoints))]
		xx := new(big.Int).Add(q.X, ref.P)
		yy := new(big.Int).Add(q.Y, ref.P)
		var l []string
		if xx.BitLen() <= 256 {
			l = append(l, "04"+ref.HexN(xx, 64)+ref.HexN(q.Y, 64), "02"+ref.HexN(xx, 64), "03"+ref.HexN(xx, 64))
		}
		if yy.BitLen() <= 256 {
			l = append(l, "04"+ref.HexN(q.X, 64)+ref.HexN(yy, 64))
		}
		l = append(l, "02"+ref.HexN(ref.P, 64), "03"+strings.Repeat("f", 64), "04"+ref.HexN(ref.P, 64)+ref.HexN(ref.P, 64))
		return l[r.n(len(l))]
	case 8: // random x: on the curve half the time
		return pick(r, "02", "03") + hex.EncodeToString(r.bytes(32))
	case 9: // the other root, and small x
		q := smallPoints[r.n(len(smallPoints))]
		return pick(r, "04"+x+ref.HexN(new(big.Int).Sub(ref.P, p.Y), 64), "02"+x, "03"+x,
			"02"+ref.HexN(q.X, 64), "03"+ref.HexN(q.X, 64), "02"+ref.HexN(big.NewInt(int64(r.n(40))), 64), "04"+ref.HexN(q.X, 64)+ref.HexN(q.Y, 64))
	default:
		return pick(r, "0x"+c[2:], "0x"+c, " "+c, c+" ", c+"\n", "02"+"-"+x[1:], "03"+"+"+x[1:], "04"+"-"+x[1:]+y, "04"+x+"+"+y[1:], "04"+x+"-"+y[1:], string(r.bytes(66)), "é"+c[2:], strings.Repeat("0", 66), strings.Repeat("0", 130))
	}
}

func modP(n *big.Int) *big.Int { return n.Mod(n, ref.P) }

// smallPoints have a coordinate below 2^32+977, so that adding the field prime
// still fits in 32 bytes, or one at or above the curve order.
var smallPoints []*ref.Point

func initSmallPoints() {
	for i := int64(0); len(smallPoints) < 12; i++ {
		if p := ref.Decompress(big.NewInt(i), i&1 == 1); p != nil {
			smallPoints = append(smallPoints, p)
		}
	}
	// small y: x is a cube root of y^2-7, found for p = 7 mod 9 by x = a^((p+2)/9)
	e := new(big.Int).Add(ref.P, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	for y := int64(1); len(smallPoints) < 20 && y < 2000; y++ {
		a := big.NewInt(y*y - 7)
		a.Mod(a, ref.P)
		x := new(big.Int).Exp(a, e, ref.P)
		p := &ref.Point{X: x, Y: big.NewInt(y)}
		if ref.OnCurve(p) {
			smallPoints = append(smallPoints, p)
		}
	}
	// coordinates from the curve order up to the field prime
	gap := new(big.Int).Sub(ref.P, ref.N)
	for i := 0; i < 6; i++ {
		at := new(big.Int).Set(ref.N)
		switch i % 3 {
		case 1:
			at.Add(at, new(big.Int).Rsh(gap, 1))
		case 2:
			at.Sub(ref.P, big.NewInt(400))
		}
		for found := 0; found < 2 && at.Cmp(ref.P) < 0; at.Add(at, bigOne) {
			p := ref.Decompress(at, i&1 == 1)
			if i > 2 {
				a := new(big.Int).Mul(at, at)
				a.Sub(a, big.NewInt(7)).Mod(a, ref.P)
				p = &ref.Point{X: a.Exp(a, e, ref.P), Y: new(big.Int).Set(at)}
				if !ref.OnCurve(p) {
					p = nil
				}
			}
			if p != nil {
				smallPoints = append(smallPoints, p)
				found++
			}
		}
	}
}

// badPhrase is text near a valid phrase of the list.
func (r *rng) badPhrase(s string, wl int) string {
	w := strings.Split(s, " ")
	l := words[wl]
	i := r.n(len(w))
	join := func() string { return strings.Join(w, " ") }
	switch r.n(21) {
	case 18, 19: // the same letters in another Unicode form
		how := r.n(5)
		if r.p(0.5) {
			for i := range w {
				w[i] = otherForm(w[i], how)
			}
		} else {
			w[i] = otherForm(w[i], how)
			for j := 0; j < len(w) && join() == s; j++ {
				w[j] = otherForm(w[j], how)
			}
		}
	case 20: // a character that looks the same
		w[i] = applyMut(w[i], Mut{K: "look", I: r.n(len(w[i])), J: r.n(40)})
	case 0, 1: // another word of the list
		w[i] = l[r.n(2048)]
	case 2, 3: // two words swapped
		j := r.n(len(w))
		if r.p(0.5) && i+1 < len(w) {
			j = i + 1
		}
		w[i], w[j] = w[j], w[i]
	case 4: // lost word(s)
		k := 1
		if r.p(0.5) {
			k = 3
		}
		for ; k > 0 && len(w) > 1; k-- {
			i = r.n(len(w))
			w = append(w[:i], w[i+1:]...)
		}
	case 5: // repeated word(s)
		k := 1
		if r.p(0.5) {
			k = 3
		}
		for ; k > 0; k-- {
			i = r.n(len(w))
			w = append(w[:i+1], append([]string{w[i]}, w[i+1:]...)...)
		}
	case 6: // typo
		w[i] = applyMuts(w[i], r.muts(len(w[i]), "abcdefghijklmnopqrstuvwxyz"))
	case 7: // a word of another list
		w[i] = words[r.n(11)][r.n(2048)]
	case 8: // spaces
		return pick(r, " "+s, s+" ", strings.Replace(s, " ", "  ", 1), strings.Join(w[:i], " ")+"  "+strings.Join(w[i:], " "),
			strings.Replace(s, " ", "\t", 1), s+"\n", strings.Join(w, "\u3000"), strings.Join(w, ","), strings.Join(w, "\u00a0"), "  "+s, s+"  ")
	case 9: // case
		switch r.n(3) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			w[i] = strings.ToUpper(w[i])
		default:
			w[i] = strings.Title(w[i])
		}
	case 10: // abbreviation
		if len(w[i]) > 4 {
			w[i] = w[i][:4]
		}
	case 11: // last word: checksum
		w[len(w)-1] = l[r.n(2048)]
	case 12: // another length, with the checksum that length would have
		n := pick(r, 4, 8, 12, 36, 40, 64)
		return ref.MnemonicAny(r.entropy(n), l)
	case 13: // two phrases
		return s + " " + s
	case 14:
		b := []byte(s)
		b[r.n(len(b))] ^= 1 << r.n(8)
		return string(b)
	case 15: // neighbour in the list: one bit of the entropy
		for k := range l {
			if l[k] == w[i] {
				w[i] = l[k^(1<<r.n(11))]
				break
			}
		}
	case 16:
		return pick(r, "", " ", strings.Repeat(" ", 11), strings.Repeat(" ", 23), strings.TrimSpace(strings.Repeat(l[0]+" ", pick(r, 12, 15, 18, 21, 24))), w[0], string(r.bytes(30)))
	case 17: // reversed
		for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
			w[a], w[b] = w[b], w[a]
		}
	}
	return join()
}
