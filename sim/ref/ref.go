// Package ref is the reference model: secp256k1, base58check, WIF, addresses
// and BIP-39, written from the specifications and independently of the code
// under test and of its dependencies.
package ref

import (
	"crypto/pbkdf2"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"math/big"
	"strings"
)

func mustHex(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

// Curve constants.
var (
	P  = mustHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N  = mustHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	Gx = mustHex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	Gy = mustHex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")

	one = big.NewInt(1)
)

// Point is an affine point; nil means infinity.
type Point struct{ X, Y *big.Int }

func mod(z *big.Int) *big.Int { return z.Mod(z, P) }

// OnCurve: y^2 = x^3 + 7 with coordinates in the field.
func OnCurve(p *Point) bool {
	if p == nil || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := mod(new(big.Int).Mul(p.Y, p.Y))
	r := mod(new(big.Int).Mul(p.X, p.X))
	r = mod(r.Mul(r, p.X))
	r = mod(r.Add(r, big.NewInt(7)))
	return l.Cmp(r) == 0
}

// Add is affine addition.
func Add(a, b *Point) *Point {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	var m *big.Int
	if a.X.Cmp(b.X) == 0 {
		if a.Y.Cmp(b.Y) != 0 || a.Y.Sign() == 0 {
			return nil
		}
		m = new(big.Int).Mul(a.X, a.X)
		m.Mul(m, big.NewInt(3))
		d := new(big.Int).Lsh(a.Y, 1)
		d.ModInverse(mod(d), P)
		mod(m.Mul(mod(m), d))
	} else {
		m = new(big.Int).Sub(b.Y, a.Y)
		d := new(big.Int).Sub(b.X, a.X)
		d.ModInverse(mod(d), P)
		mod(m.Mul(mod(m), d))
	}
	x := new(big.Int).Mul(m, m)
	x.Sub(x, a.X)
	mod(x.Sub(x, b.X))
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, m)
	mod(y.Sub(y, a.Y))
	return &Point{x, y}
}

// Neg is the opposite point.
func Neg(a *Point) *Point {
	if a == nil {
		return nil
	}
	return &Point{new(big.Int).Set(a.X), new(big.Int).Sub(P, a.Y)}
}

// Jacobian accumulator for fixed-base multiplication.
type jac struct{ x, y, z *big.Int }

func (j *jac) addAffine(p *Point) {
	if j.z == nil {
		j.x, j.y, j.z = new(big.Int).Set(p.X), new(big.Int).Set(p.Y), big.NewInt(1)
		return
	}
	zz := mod(new(big.Int).Mul(j.z, j.z))
	u2 := mod(new(big.Int).Mul(p.X, zz))
	s2 := mod(new(big.Int).Mul(mod(new(big.Int).Mul(p.Y, zz)), j.z))
	h := mod(new(big.Int).Sub(u2, j.x))
	r := mod(new(big.Int).Sub(s2, j.y))
	if h.Sign() == 0 {
		// fall back to affine arithmetic
		q := Add(j.affine(), p)
		if q == nil {
			*j = jac{}
		} else {
			*j = jac{q.X, q.Y, big.NewInt(1)}
		}
		return
	}
	hh := mod(new(big.Int).Mul(h, h))
	hhh := mod(new(big.Int).Mul(hh, h))
	v := mod(new(big.Int).Mul(j.x, hh))
	x := new(big.Int).Mul(r, r)
	x.Sub(x, hhh)
	x.Sub(x, v)
	mod(x.Sub(x, v))
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r)
	mod(y.Sub(y, new(big.Int).Mul(j.y, hhh)))
	j.z = mod(new(big.Int).Mul(j.z, h))
	j.x, j.y = x, y
}

func (j *jac) affine() *Point {
	if j.z == nil {
		return nil
	}
	i := new(big.Int).ModInverse(j.z, P)
	ii := mod(new(big.Int).Mul(i, i))
	iii := mod(new(big.Int).Mul(ii, i))
	return &Point{mod(new(big.Int).Mul(j.x, ii)), mod(new(big.Int).Mul(j.y, iii))}
}

var table [64][16]*Point

func fill() {
	b := &Point{Gx, Gy}
	for i := range table {
		var q *Point
		for k := 1; k < 16; k++ {
			q = Add(q, b)
			table[i][k] = q
		}
		b = Add(q, b)
	}
}

// MulG is k*G for 0 <= k < 2^256.
func MulG(k *big.Int) *Point {
	if table[0][1] == nil {
		fill()
	}
	var j jac
	for i := 0; i < 64; i++ {
		d := 0
		for b := 3; b >= 0; b-- {
			d = d<<1 | int(k.Bit(4*i+b))
		}
		if d != 0 {
			j.addAffine(table[i][d])
		}
	}
	return j.affine()
}

// Decompress finds the point with the given x and parity.
func Decompress(x *big.Int, odd bool) *Point {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return nil
	}
	r := mod(new(big.Int).Mul(x, x))
	r = mod(r.Mul(r, x))
	r = mod(r.Add(r, big.NewInt(7)))
	y := new(big.Int).ModSqrt(r, P)
	if y == nil {
		return nil
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	p := &Point{new(big.Int).Set(x), y}
	if !OnCurve(p) {
		return nil
	}
	return p
}

// Hex32 is the 64-digit lower-case hex of n.
func Hex32(n *big.Int) string {
	b := make([]byte, 32)
	n.FillBytes(b)
	return hex.EncodeToString(b)
}

// ValidScalar: 1 <= k < N.
func ValidScalar(k *big.Int) bool { return k != nil && k.Sign() > 0 && k.Cmp(N) < 0 }

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58Encode is base58 with the Bitcoin alphabet.
func B58Encode(b []byte) string {
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	n := new(big.Int).SetBytes(b)
	var out []byte
	m := new(big.Int)
	f8 := big.NewInt(58)
	for n.Sign() > 0 {
		n.QuoRem(n, f8, m)
		out = append(out, alphabet[m.Int64()])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Repeat("1", z) + string(out)
}

// B58Decode is its inverse.
func B58Decode(s string) ([]byte, bool) {
	if s == "" {
		return nil, false
	}
	n := new(big.Int)
	f8 := big.NewInt(58)
	z := 0
	for z < len(s) && s[z] == '1' {
		z++
	}
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(alphabet, s[i])
		if d < 0 {
			return nil, false
		}
		n.Mul(n, f8)
		n.Add(n, big.NewInt(int64(d)))
	}
	return append(make([]byte, z), n.Bytes()...), true
}

// Checksum is the first 4 bytes of the double SHA-256.
func Checksum(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return append([]byte(nil), h[:4]...)
}

// B58Check appends the checksum and encodes.
func B58Check(b []byte) string {
	return B58Encode(append(append([]byte(nil), b...), Checksum(b)...))
}

// CheckB58 says whether s is base58 whose last 4 bytes are the checksum of the
// bytes before, and returns those.
func CheckB58(s string) ([]byte, bool) {
	b, ok := B58Decode(s)
	if !ok || len(b) < 4 {
		return nil, false
	}
	p := b[:len(b)-4]
	return p, string(Checksum(p)) == string(b[len(b)-4:])
}

// Net is a network.
type Net struct{ Priv, Pub byte }

// WIF of an uncompressed key.
func WIF(k *big.Int, n Net) string {
	b := make([]byte, 33)
	b[0] = n.Priv
	k.FillBytes(b[1:])
	return B58Check(b)
}

// CompressedWIF has the 01 flag.
func CompressedWIF(k *big.Int, n Net) string {
	b := make([]byte, 34)
	b[0] = n.Priv
	k.FillBytes(b[1:33])
	b[33] = 1
	return B58Check(b)
}

// ParseWIF returns the key, or nil.
func ParseWIF(s string, n Net) *big.Int {
	p, ok := CheckB58(s)
	if !ok || !(len(p) == 33 || len(p) == 34 && p[33] == 1) || p[0] != n.Priv {
		return nil
	}
	k := new(big.Int).SetBytes(p[1:33])
	if !ValidScalar(k) {
		return nil
	}
	return k
}

// ParsePrivHex returns the key, or nil.
func ParsePrivHex(s string) *big.Int {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 32 {
		return nil
	}
	k := new(big.Int).SetBytes(b)
	if !ValidScalar(k) {
		return nil
	}
	return k
}

// ParsePub returns the point, or nil.
func ParsePub(s string) *Point {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) == 0 {
		return nil
	}
	switch {
	case b[0] == 4 && len(b) == 65:
		p := &Point{new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])}
		if !OnCurve(p) {
			return nil
		}
		return p
	case (b[0] == 2 || b[0] == 3) && len(b) == 33:
		return Decompress(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	}
	return nil
}

// PubBytes is the SEC encoding.
func PubBytes(p *Point, compressed bool) []byte {
	if compressed {
		b := make([]byte, 33)
		b[0] = 2 + byte(p.Y.Bit(0))
		p.X.FillBytes(b[1:])
		return b
	}
	b := make([]byte, 65)
	b[0] = 4
	p.X.FillBytes(b[1:33])
	p.Y.FillBytes(b[33:])
	return b
}

// Address is the P2PKH address.
func Address(p *Point, compressed bool, n Net) string {
	h := sha256.Sum256(PubBytes(p, compressed))
	r := ripemd160(h[:])
	return B58Check(append([]byte{n.Pub}, r...))
}

// Mnemonic encodes entropy (16, 20, 24, 28 or 32 bytes).
func Mnemonic(ent []byte, wl []string) string {
	h := sha256.Sum256(ent)
	n := new(big.Int).SetBytes(ent)
	cs := len(ent) / 4
	n.Lsh(n, uint(cs))
	n.Or(n, big.NewInt(int64(h[0])>>(8-cs)))
	words := len(ent) * 3 / 4
	out := make([]string, words)
	m := big.NewInt(2047)
	for i := words - 1; i >= 0; i-- {
		out[i] = wl[new(big.Int).And(n, m).Int64()]
		n.Rsh(n, 11)
	}
	return strings.Join(out, " ")
}

// DecodeMnemonic returns the entropy of a valid phrase.
func DecodeMnemonic(s string, wl []string) ([]byte, bool) {
	ws := strings.Split(s, " ")
	switch len(ws) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, false
	}
	n := new(big.Int)
	for _, w := range ws {
		i := indexOf(w, wl)
		if i < 0 {
			return nil, false
		}
		n.Lsh(n, 11)
		n.Or(n, big.NewInt(int64(i)))
	}
	cs := len(ws) / 3
	sum := byte(new(big.Int).And(n, big.NewInt(1<<cs-1)).Int64())
	n.Rsh(n, uint(cs))
	ent := make([]byte, cs*4)
	n.FillBytes(ent)
	h := sha256.Sum256(ent)
	return ent, h[0]>>(8-cs) == sum
}

var idx = map[*string]map[string]int{}

// Forget drops what is remembered of a list whose words have changed.
func Forget(wl []string) { delete(idx, &wl[0]) }

func indexOf(w string, wl []string) int {
	if len(wl) < 2048 {
		for i := range wl {
			if wl[i] == w {
				return i
			}
		}
		return -1
	}
	m := idx[&wl[0]]
	if m == nil {
		m = map[string]int{}
		for i := 2047; i >= 0; i-- {
			m[wl[i]] = i
		}
		idx[&wl[0]] = m
	}
	if i, ok := m[w]; ok {
		return i
	}
	return -1
}

// Seed is the BIP-39 seed.
func Seed(phrase, pass string) []byte {
	b, err := pbkdf2.Key(sha512.New, phrase, []byte("mnemonic"+pass), 2048, 64)
	if err != nil {
		panic(err)
	}
	return b
}

// HexN is n in hex with at least the given number of digits.
func HexN(n *big.Int, digits int) string {
	s := n.Text(16)
	if len(s) < digits {
		s = strings.Repeat("0", digits-len(s)) + s
	}
	return s
}

// MnemonicAny is Mnemonic for any number of 4-byte groups.
func MnemonicAny(ent []byte, wl []string) string {
	h := sha256.Sum256(ent)
	n := new(big.Int).SetBytes(ent)
	cs := len(ent) / 4
	n.Lsh(n, uint(cs))
	c := new(big.Int).SetBytes(h[:])
	n.Or(n, c.Rsh(c, uint(256-cs)))
	words := len(ent) * 3 / 4
	out := make([]string, words)
	m := big.NewInt(2047)
	for i := words - 1; i >= 0; i-- {
		out[i] = wl[new(big.Int).And(n, m).Int64()]
		n.Rsh(n, 11)
	}
	return strings.Join(out, " ")
}
