package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/aureleoules/btc"
	"verif.local/sim/ref"
)

// Out is the observed outcome of one call.
type Out struct {
	St  string   `json:"st"` // ok, err, panic, exit, skip
	V   []string `json:"v,omitempty"`
	Msg string   `json:"msg,omitempty"`
}

func (o Out) String() string {
	s := o.St
	if len(o.V) > 0 {
		s += " " + strings.Join(o.V, "|")
	}
	if o.Msg != "" {
		s += " (" + o.Msg + ")"
	}
	return s
}

type obj struct {
	priv *btc.PrivateKey
	pub  *btc.PublicKey
	seed []byte
	str  string
}

func bigText(n *big.Int) string {
	if n == nil {
		return "nil"
	}
	return n.Text(16)
}

func netText(n *btc.Network) string {
	if n == nil {
		return "nil"
	}
	return n.PrivKeyPrefix + "/" + n.PubKeyHashPrefix
}

// values of a private key: number, hex, WIF, network
func privVals(p *btc.PrivateKey) []string {
	if p == nil {
		return []string{"<nil>"}
	}
	return []string{bigText(p.Key), strings.Clone(p.Hex), strings.Clone(p.WIF), netText(p.Network)}
}

func pubVals(p *btc.PublicKey) []string {
	if p == nil {
		return []string{"<nil>"}
	}
	return []string{bigText(p.X), bigText(p.Y), netText(p.Network)}
}

func objVals(o obj) []string {
	switch {
	case o.priv != nil:
		return privVals(o.priv)
	case o.pub != nil:
		return pubVals(o.pub)
	case o.seed != nil:
		return []string{hex.EncodeToString(o.seed)}
	}
	return nil
}

func scribbleInt(n *big.Int) {
	if n == nil {
		return
	}
	// overwrite the words in place, spare capacity included, then the value
	b := n.Bits()
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0x5a5a5a5a5a5a5a5a ^ big.Word(i)
	}
	n.SetInt64(-7)
}

func scribble(o obj) {
	if o.priv != nil {
		scribbleInt(o.priv.Key)
		o.priv.Hex, o.priv.WIF = "scribbled", "scribbled"
		o.priv.Network = nil
	}
	if o.pub != nil {
		scribbleInt(o.pub.X)
		scribbleInt(o.pub.Y)
		o.pub.Network = nil
	}
	b := o.seed
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xa5
	}
}

func copyInt(n *big.Int) *big.Int {
	if n == nil {
		return nil
	}
	return new(big.Int).Set(n)
}

func copyPriv(p *btc.PrivateKey) *btc.PrivateKey {
	if p == nil {
		return nil
	}
	q := *p
	q.Key = copyInt(p.Key)
	return &q
}

func copyPub(p *btc.PublicKey) *btc.PublicKey {
	if p == nil {
		return nil
	}
	q := *p
	q.X, q.Y = copyInt(p.X), copyInt(p.Y)
	return &q
}

// world is what the tasks of a run share.
type world struct {
	nets  []*btc.Network
	rnets []ref.Net
	keys  []*btc.PrivateKey
	pubs  []*btc.PublicKey
	mkeys []mobj
	mpubs []mobj

	snapNets []btc.Network
	snapKeys []keySnap
	snapPubs []pubSnap
}

type keySnap struct {
	p        *btc.Network
	bi       *big.Int
	words    [8]big.Word
	n        int
	hex, wif string
}
type pubSnap struct {
	p    *btc.Network
	x, y *big.Int
	xw   [8]big.Word
	yw   [8]big.Word
	nx   int
	ny   int
}

// mobj is a model object.
type mobj struct {
	kind byte // 'k' private, 'p' public, 's' seed, 't' text, 'b' bool, 0 none
	k    *big.Int
	pt   *ref.Point
	net  int
	wif  string // of a private key
	odd  bool   // a private key imported from a compressed WIF: identity is unspecified
	txt  string
}

func (w *world) netOf(i int) *btc.Network { return w.nets[i] }

// spelling: the prefixes are the same bytes written in other letters. Whether
// such networks are the same is not specified.
func (w *world) spelling(a, b int) bool {
	return a != b && w.rnets[a] == w.rnets[b] && *w.nets[a] != *w.nets[b]
}

func (w *world) netStr(i int) string {
	return fmt.Sprintf("%02X/%02X", w.rnets[i].Priv, w.rnets[i].Pub)
}

func wordsOf(n *big.Int, buf *[8]big.Word) int {
	b := n.Bits()
	return copy(buf[:], b)
}

// snapshot remembers all shared objects.
func (w *world) snapshot() {
	w.snapNets = w.snapNets[:0]
	for _, n := range w.nets {
		// copies of the bytes too: code that converts strings unsafely can write to them
		w.snapNets = append(w.snapNets, btc.Network{PrivKeyPrefix: strings.Clone(n.PrivKeyPrefix), PubKeyHashPrefix: strings.Clone(n.PubKeyHashPrefix)})
	}
	w.snapKeys = w.snapKeys[:0]
	for _, k := range w.keys {
		s := keySnap{p: k.Network, bi: k.Key, hex: strings.Clone(k.Hex), wif: strings.Clone(k.WIF)}
		s.n = wordsOf(k.Key, &s.words)
		w.snapKeys = append(w.snapKeys, s)
	}
	w.snapPubs = w.snapPubs[:0]
	for _, p := range w.pubs {
		s := pubSnap{p: p.Network, x: p.X, y: p.Y}
		s.nx, s.ny = wordsOf(p.X, &s.xw), wordsOf(p.Y, &s.yw)
		w.snapPubs = append(w.snapPubs, s)
	}
}

func sameInt(n *big.Int, buf *[8]big.Word, l int) bool {
	if n == nil || n.Sign() < 0 {
		return false
	}
	b := n.Bits()
	if len(b) != l {
		return false
	}
	for i, x := range b {
		if buf[i] != x {
			return false
		}
	}
	return true
}

// changed names the first shared object that differs from the snapshot.
func (w *world) changed() string {
	for i, n := range w.nets {
		if *n != w.snapNets[i] {
			return fmt.Sprintf("network %d changed from %v to %v", i, w.snapNets[i], *n)
		}
	}
	if btc.MainNetwork != w.nets[0] || btc.TestNetwork != w.nets[1] {
		return "a package network was replaced"
	}
	for i, k := range w.keys {
		s := &w.snapKeys[i]
		if k.Network != s.p || k.Key != s.bi || k.Hex != s.hex || k.WIF != s.wif || !sameInt(k.Key, &s.words, s.n) {
			return fmt.Sprintf("shared private key %d changed to %v", i, privVals(k))
		}
	}
	for i, p := range w.pubs {
		s := &w.snapPubs[i]
		if p.Network != s.p || p.X != s.x || p.Y != s.y || !sameInt(p.X, &s.xw, s.nx) || !sameInt(p.Y, &s.yw, s.ny) {
			return fmt.Sprintf("shared public key %d changed to %v", i, pubVals(p))
		}
	}
	return ""
}
