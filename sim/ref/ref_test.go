package ref

import (
	"encoding/hex"
	"math/big"
	"strings"
	"testing"
)

func TestVectors(t *testing.T) {
	if g := hex.EncodeToString(ripemd160(nil)); g != "9c1185a5c5e9fc54612808977ee8f548b2258d31" {
		t.Fatal(g)
	}
	if g := hex.EncodeToString(ripemd160([]byte("abc"))); g != "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc" {
		t.Fatal(g)
	}
	k := mustHex("42EE9BFFA29658554203A7D82456B4CBB9286ABE8D781D6C94C080260A9F24D6")
	if WIF(k, Net{0x80, 0}) != "5JKmGh5KasctVb3o9p1eNZmgqgRNvAUTmVBs9aca5VJHHMFtMgc" {
		t.Fatal()
	}
	p := MulG(k)
	if g := strings.ToUpper(hex.EncodeToString(PubBytes(p, false))); g != "04D0431B1FB23BF0D4D9B95B26419CBA50409D0FA610E9274B2F418BDCA20D42E5779225B9A70BFC715149B73AE91BC31A22D1B123F4872C5F31864725A5A59832" {
		t.Fatal(g)
	}
	if Address(p, false, Net{0x80, 0}) != "1LsYfWvKHvo1t6iDQQaauQi1sT5Hyt19ei" || Address(p, true, Net{0x80, 0}) != "1HLvTawtr94zmmY1Qd3LQ5uRiav3HZizTN" {
		t.Fatal()
	}
	q := MulG(new(big.Int).Sub(N, one))
	if q.X.Cmp(Gx) != 0 || q.Y.Cmp(new(big.Int).Sub(P, Gy)) != 0 || MulG(N) != nil {
		t.Fatal()
	}
	for i := int64(1); i < 300; i++ {
		a, b := MulG(big.NewInt(i)), MulG(big.NewInt(i*i+7))
		c := Add(a, b)
		d := MulG(big.NewInt(i + i*i + 7))
		if c.X.Cmp(d.X) != 0 || c.Y.Cmp(d.Y) != 0 || !OnCurve(c) {
			t.Fatal(i)
		}
		if e := Decompress(c.X, c.Y.Bit(0) == 1); e.Y.Cmp(c.Y) != 0 {
			t.Fatal(i)
		}
	}
	wl := make([]string, 2048)
	for i := range wl {
		wl[i] = "x" + hex.EncodeToString([]byte{byte(i >> 8), byte(i)})
	}
	wl[0], wl[3] = "abandon", "about"
	ph := Mnemonic(make([]byte, 16), wl)
	if ph != strings.Repeat("abandon ", 11)+"about" {
		t.Fatal(ph)
	}
	if g := hex.EncodeToString(Seed(ph, "TREZOR")); g != "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04" {
		t.Fatal(g)
	}
	if e, ok := DecodeMnemonic(ph, wl); !ok || len(e) != 16 {
		t.Fatal()
	}
}

func BenchmarkMulG(b *testing.B) {
	k := new(big.Int).Sub(N, big.NewInt(12345))
	for i := 0; i < b.N; i++ {
		MulG(k)
	}
}
