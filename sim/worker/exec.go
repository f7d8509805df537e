package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/aureleoules/btc"
	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// rec is what happened in one operation of one task.
type rec struct {
	op      Op
	in      string // the text the call was given
	out     Out
	obj     obj
	done    bool
	dead    bool // result overwritten by its owner
	seq     int64
	ent     []byte // bytes delivered
	reads   int
	must    bool // the source failed before it had delivered what was asked
	soft    bool
	args    [2]obj2
	rekeyed bool
	ikey    string // the call with all its inputs, as the model sees them
	good    bool   // it did what the model says
}

type taskRun struct {
	id    int
	env   env
	recs  []rec
	w     *world
	hung  string // why the last operation never returned
	now   *rec   // the call being made
	watch *watcher
}

var ownNets []*btc.Network

var seqNo int64
var overwrites int64

//go:norace
func nextSeq() int64 { seqNo++; return seqNo }

func parseByte(s string) byte {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 1 {
		panic("bad network prefix " + s)
	}
	return b[0]
}

func newWorld(sp *Spec) *world {
	w := &world{}
	w.nets = []*btc.Network{btc.MainNetwork, btc.TestNetwork}
	w.rnets = []ref.Net{{Priv: 0x80, Pub: 0x00}, {Priv: 0xEF, Pub: 0x6F}}
	for i, n := range sp.Nets {
		bn := &btc.Network{PrivKeyPrefix: n.Priv, PubKeyHashPrefix: n.Pub}
		if sp.Reuse && !raceBuild {
			// the caller's object of an earlier run, with new parameters
			for len(ownNets) <= i {
				ownNets = append(ownNets, &btc.Network{})
			}
			*ownNets[i] = *bn
			bn = ownNets[i]
		}
		w.nets = append(w.nets, bn)
		w.rnets = append(w.rnets, ref.Net{Priv: parseByte(n.Priv), Pub: parseByte(n.Pub)})
	}
	for _, k := range sp.Keys {
		p, m := w.mkPriv(k)
		w.keys = append(w.keys, p)
		w.mkeys = append(w.mkeys, m)
	}
	for _, k := range sp.Pubs {
		p, m := w.mkPub(k)
		w.pubs = append(w.pubs, p)
		w.mpubs = append(w.mpubs, m)
	}
	w.snapshot()
	return w
}

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad number " + s)
	}
	return n
}

// noPanic runs f and drops a panic: construction through the library that fails
// is judged elsewhere.
func noPanic(f func()) {
	defer func() { recover() }()
	f()
}

func (w *world) mkPriv(ks KeySpec) (*btc.PrivateKey, mobj) {
	k := hexInt(ks.K)
	m := mobj{kind: 'k', k: k, net: ks.Net, wif: ref.WIF(k, w.rnets[ks.Net])}
	var p *btc.PrivateKey
	switch ks.Via {
	case "hex":
		noPanic(func() { p, _ = btc.PrivateFromHex(ref.Hex32(k), w.nets[ks.Net]) })
	case "wif":
		noPanic(func() { p, _ = btc.PrivateFromWIF(m.wif, w.nets[ks.Net]) })
	}
	if p == nil || p.Key == nil || p.Key.Cmp(k) != 0 || p.WIF != m.wif || p.Network == nil || *p.Network != *w.nets[ks.Net] {
		p = &btc.PrivateKey{Key: new(big.Int).Set(k), Hex: ref.Hex32(k), WIF: m.wif, Network: w.nets[ks.Net]}
	}
	return p, m
}

func (w *world) mkPub(ks KeySpec) (*btc.PublicKey, mobj) {
	k := hexInt(ks.K)
	pt := mulG(k)
	m := mobj{kind: 'p', pt: pt, net: ks.Net}
	var p *btc.PublicKey
	switch ks.Via {
	case "hex":
		noPanic(func() { p, _ = btc.PublicFromHex(hex.EncodeToString(ref.PubBytes(pt, false)), w.nets[ks.Net]) })
	case "comp":
		noPanic(func() { p, _ = btc.PublicFromHex(hex.EncodeToString(ref.PubBytes(pt, true)), w.nets[ks.Net]) })
	}
	if p == nil || p.X == nil || p.Y == nil || p.X.Cmp(pt.X) != 0 || p.Y.Cmp(pt.Y) != 0 || p.Network == nil || *p.Network != *w.nets[ks.Net] {
		p = &btc.PublicKey{X: new(big.Int).Set(pt.X), Y: new(big.Int).Set(pt.Y), Network: w.nets[ks.Net]}
	}
	return p, m
}

var mulCache = map[string]*ref.Point{}

func mulG(k *big.Int) *ref.Point {
	s := k.Text(62)
	if p, ok := mulCache[s]; ok {
		return p
	}
	if len(mulCache) > 20000 {
		mulCache = map[string]*ref.Point{}
	}
	p := ref.MulG(k)
	mulCache[s] = p
	return p
}

func (t *taskRun) priv(i int) *btc.PrivateKey {
	if i >= 0 {
		if i < len(t.w.keys) {
			return t.w.keys[i]
		}
		return nil
	}
	i = -1 - i
	if i < len(t.recs) && t.recs[i].done && !t.recs[i].dead {
		return t.recs[i].obj.priv
	}
	return nil
}

func (t *taskRun) pub(i int) *btc.PublicKey {
	if i >= 0 {
		if i < len(t.w.pubs) {
			return t.w.pubs[i]
		}
		return nil
	}
	i = -1 - i
	if i < len(t.recs) && t.recs[i].done && !t.recs[i].dead {
		return t.recs[i].obj.pub
	}
	return nil
}

// text of the operation: given, or taken from an object.
func (t *taskRun) text(op Op) (string, bool) {
	switch op.T {
	case "":
		return string(op.S), true
	case "wif":
		if p := t.priv(op.A); p != nil {
			return p.WIF, true
		}
	case "hex":
		if p := t.priv(op.A); p != nil {
			return p.Hex, true
		}
	case "txt":
		if i := -1 - op.A; op.A < 0 && i < len(t.recs) && t.recs[i].done && t.recs[i].out.St == "ok" {
			return t.recs[i].obj.str, true
		}
	}
	return "", false
}

// exec runs the operations of a task.
func (t *taskRun) exec(ops []Op) {
	for i := range ops {
		r := &t.recs[i]
		r.op = ops[i]
		t.one(i, r)
	}
}

func skip(r *rec) { r.out = Out{St: "skip"}; r.done = true }

// one performs one operation; whatever comes out of the call is recorded.
func (t *taskRun) one(i int, r *rec) {
	op := r.op
	if op.K == "nop" {
		skip(r)
		return
	}
	var pre []byte
	if op.Ent != nil {
		pre, _ = hex.DecodeString(op.Ent.Pre)
	}
	t.env.begin(op.Ent, pre)
	if op.Jump != 0 {
		simrt.ClockJump(op.Jump)
	}
	simrt.OpBegin()

	var net *btc.Network
	if op.Net >= 0 && op.Net < len(t.w.nets) {
		net = t.w.nets[op.Net]
	}
	var a, b *btc.PrivateKey
	var pa, pb *btc.PublicKey
	switch op.K {
	case "rawpub":
		a = &btc.PrivateKey{Network: net}
		if op.S != "nil" {
			if a.Key, _ = new(big.Int).SetString(string(op.S), 16); a.Key == nil {
				skip(r)
				return
			}
		}
	case "pub", "addk", "mulk", "rekey":
		if a = t.priv(op.A); a == nil {
			skip(r)
			return
		}
		if op.K == "addk" || op.K == "mulk" {
			if b = t.priv(op.B); b == nil {
				skip(r)
				return
			}
		}
	case "fmt", "addr", "addp":
		if pa = t.pub(op.A); pa == nil {
			skip(r)
			return
		}
		if op.K == "addp" {
			if pb = t.pub(op.B); pb == nil {
				skip(r)
				return
			}
		}
	}
	if op.Scr == 2 {
		ca, cb, cpa, cpb := copyPriv(a), copyPriv(b), copyPub(pa), copyPub(pb)
		if a == b {
			cb = ca
		}
		if pa == pb {
			cpb = cpa
		}
		a, b, pa, pb = ca, cb, cpa, cpb
		r.args = [2]obj2{{a, pa}, {b, pb}}
	}
	switch op.K {
	case "wif", "phex", "pubhex", "check", "seed":
		s, ok := t.text(op)
		if !ok {
			skip(r)
			return
		}
		r.in = s
	}

	if op.K == "rekey" {
		// the owner of a key changes it in place
		k := hexInt(string(op.S))
		a.Key.Set(k)
		a.Hex = ref.Hex32(k)
		n := 0
		for j := range t.w.nets {
			if t.w.nets[j] == a.Network || a.Network != nil && *t.w.nets[j] == *a.Network {
				n = j
				break
			}
		}
		a.WIF = ref.WIF(k, t.w.rnets[n])
		if op.A < 0 {
			t.recs[-1-op.A].rekeyed = true
			if t.watch != nil {
				for j := range t.watch.objs {
					if x := &t.watch.objs[j]; x.o.priv == a {
						*x = watchOf(x.task, x.op, x.o)
					}
				}
			}
		}
		r.out = Out{St: "ok"}
		r.done = true
		return
	}

	if t.watch != nil && (op.K == "seed" || op.K == "mnem") {
		t.watch.using = append(t.watch.using, op.WL)
		if len(t.watch.using) > 3 {
			t.watch.using = t.watch.using[1:]
		}
	}
	r.out = Out{St: "pending"}
	t.now = r
	r.out, r.obj = t.call(op, strings.Clone(r.in), net, a, b, pa, pb)
	r.seq = nextSeq()
	if op.K == "gen" || op.K == "mnem" {
		r.ent = t.env.delivered()
		r.reads, r.must, r.soft = t.env.reads, t.env.mustFail, t.env.softErr
	}
	r.done = true
	if t.watch != nil {
		t.watch.n = 0
		if op.Scr != 1 && r.out.St == "ok" && (r.obj.priv != nil || r.obj.pub != nil) && len(t.watch.objs) < 40 {
			t.watch.objs = append(t.watch.objs, watchOf(t.id, i, r.obj))
		}
	}
	if op.Scr != 0 {
		overwrites++
	}
	switch op.Scr {
	case 1:
		scribble(r.obj)
		r.dead = true
	case 2:
		scribble(obj{priv: r.args[0].priv, pub: r.args[0].pub})
		scribble(obj{priv: r.args[1].priv, pub: r.args[1].pub})
	}
}

func (t *taskRun) call(op Op, in string, net *btc.Network, a, b *btc.PrivateKey, pa, pb *btc.PublicKey) (out Out, o obj) {
	back := false
	defer func() {
		e := recover()
		if e == nil {
			if !back {
				t.now.out = Out{St: "exit", Msg: "the caller's goroutine was ended (runtime.Goexit)"}
				t.now.done = true
			}
			return
		}
		o = obj{}
		switch x := e.(type) {
		case simrt.AbortPanic:
			if x.Why != "aborted" {
				t.hung = x.Why
			}
			panic(e)
		case simrt.ExitPanic:
			out = Out{St: "exit", Msg: x.Msg}
		case hangPanic:
			out = Out{St: "hang", Msg: "still drawing entropy"}
		default:
			out = Out{St: "panic", Msg: fmt.Sprint(e)}
		}
	}()
	out, o = t.callOut(op, in, net, a, b, pa, pb)
	back = true
	return out, o
}

func (t *taskRun) callOut(op Op, in string, net *btc.Network, a, b *btc.PrivateKey, pa, pb *btc.PublicKey) (out Out, o obj) {
	var err error
	ok := true
	switch op.K {
	case "gen":
		o.priv = btc.GeneratePrivateKey(net)
	case "mnem":
		o.str, err = btc.NewMnemonic(op.N, lists[op.WL])
		out.V = []string{o.str}
		if err != nil {
			return Out{St: "err", V: out.V, Msg: err.Error()}, o
		}
		return Out{St: "ok", V: out.V}, o
	case "seed":
		o.seed, err = btc.NewSeedFromMnemonic(in, string(op.P), lists[op.WL])
		v := []string{hex.EncodeToString(o.seed)}
		if err != nil {
			return Out{St: "err", V: v, Msg: err.Error()}, o
		}
		return Out{St: "ok", V: v}, o
	case "check":
		return Out{St: "ok", V: []string{fmt.Sprint(btc.CheckWIF(in))}}, o
	case "wif":
		o.priv, err = btc.PrivateFromWIF(in, net)
	case "phex":
		o.priv, err = btc.PrivateFromHex(in, net)
	case "pubhex":
		o.pub, err = btc.PublicFromHex(in, net)
	case "pub", "rawpub":
		o.pub, ok = a.GetPublicKey()
	case "fmt":
		o.str = pa.Format(op.C)
		return Out{St: "ok", V: []string{o.str}}, o
	case "addr":
		o.str, err = pa.Address(op.C)
		if err != nil {
			return Out{St: "err", V: []string{o.str}, Msg: err.Error()}, o
		}
		return Out{St: "ok", V: []string{o.str}}, o
	case "addk":
		o.priv, err = btc.AddPrivateKeys(a, b)
	case "mulk":
		o.priv, err = btc.MultiplyPrivateKeys(a, b)
	case "addp":
		o.pub, err = btc.AddPublicKeys(pa, pb, op.C)
	default:
		panic("unknown operation " + op.K)
	}
	out.St = "ok"
	if err != nil {
		out.St = "err"
		out.Msg = err.Error()
	} else if !ok {
		out.St = "err"
		out.Msg = "not ok"
	}
	switch op.K {
	case "gen", "wif", "phex", "addk", "mulk":
		out.V = privVals(o.priv)
	default:
		out.V = pubVals(o.pub)
	}
	return out, o
}

func opText(op Op) string {
	var s strings.Builder
	switch op.K {
	case "gen":
		fmt.Fprintf(&s, "GeneratePrivateKey(net %d)", op.Net)
	case "mnem":
		fmt.Fprintf(&s, "NewMnemonic(%d, list %d)", op.N, op.WL)
	case "seed":
		fmt.Fprintf(&s, "NewSeedFromMnemonic(pass %q, list %d)", op.P, op.WL)
	case "check":
		s.WriteString("CheckWIF")
	case "wif":
		fmt.Fprintf(&s, "PrivateFromWIF(net %d)", op.Net)
	case "phex":
		fmt.Fprintf(&s, "PrivateFromHex(net %d)", op.Net)
	case "pubhex":
		fmt.Fprintf(&s, "PublicFromHex(net %d)", op.Net)
	case "rawpub":
		fmt.Fprintf(&s, "GetPublicKey of a key object with number %s", op.S)
	case "pub":
		s.WriteString("GetPublicKey")
	case "fmt":
		fmt.Fprintf(&s, "Format(%v)", op.C)
	case "addr":
		fmt.Fprintf(&s, "Address(%v)", op.C)
	case "addk":
		s.WriteString("AddPrivateKeys")
	case "mulk":
		s.WriteString("MultiplyPrivateKeys")
	case "addp":
		s.WriteString("AddPublicKeys")
	default:
		s.WriteString(op.K)
	}
	return s.String()
}
