package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif.local/sim/ref"
)

// mism is one difference between what a call did and what it had to do.
type mism struct {
	facet string // status, key, hex, wif, net, x, y, str, seed, bool, panic, exit, hang, nilok, errval, derive, reimport
	why   string // for status: the reason the model has
	task  int
	op    int
	text  string
}

// expect is the model's verdict on one call.
type expect struct {
	st     string // ok, err, any (unspecified), panic
	why    string // net, same, zero, text, range, entropy, ...
	v      []string
	obj    mobj
	noVals bool // status only
}

type model struct {
	w    *world
	objs [][]mobj // per task and operation
}

func (m *model) priv(t, i int) (mobj, bool) {
	if i >= 0 {
		if i < len(m.w.mkeys) {
			return m.w.mkeys[i], true
		}
		return mobj{}, false
	}
	o := m.objs[t][-1-i]
	return o, o.kind == 'k'
}

func (m *model) pub(t, i int) (mobj, bool) {
	if i >= 0 {
		if i < len(m.w.mpubs) {
			return m.w.mpubs[i], true
		}
		return mobj{}, false
	}
	o := m.objs[t][-1-i]
	return o, o.kind == 'p'
}

func (m *model) privExp(k *big.Int, net int, wif string) expect {
	if wif == "" {
		wif = ref.WIF(k, m.w.rnets[net])
	}
	return expect{st: "ok", v: []string{k.Text(16), ref.Hex32(k), wif, m.w.netStr(net)},
		obj: mobj{kind: 'k', k: k, net: net, wif: wif}}
}

func (m *model) pubExp(p *ref.Point, net int) expect {
	return expect{st: "ok", v: []string{p.X.Text(16), p.Y.Text(16), m.w.netStr(net)},
		obj: mobj{kind: 'p', pt: p, net: net}}
}

func bad(why string) expect { return expect{st: "err", why: why} }

var seedCache = map[string][]byte{}

func refSeed(phrase, pass string) []byte {
	k := phrase + "\x00" + pass
	if s, ok := seedCache[k]; ok {
		return s
	}
	if len(seedCache) > 5000 {
		seedCache = map[string][]byte{}
	}
	s := ref.Seed(phrase, pass)
	seedCache[k] = s
	return s
}

func wordsOK(n int) bool { return n == 12 || n == 15 || n == 18 || n == 21 || n == 24 }

// expectOp says what the call had to do. ok is false if it can not be judged
// (an argument came from a call that was itself wrong).
func (m *model) expectOp(t int, r *rec) (expect, bool) {
	op := r.op
	var rn ref.Net
	if op.Net >= 0 && op.Net < len(m.w.rnets) {
		rn = m.w.rnets[op.Net]
	}
	switch op.K {
	case "check":
		_, ok := ref.CheckB58(r.in)
		return expect{st: "ok", v: []string{fmt.Sprint(ok)}}, true
	case "wif":
		p, ok := ref.CheckB58(r.in)
		if !ok {
			return bad("checksum"), true
		}
		if !(len(p) == 33 || len(p) == 34 && p[33] == 1) {
			return bad("length"), true
		}
		if p[0] != rn.Priv {
			return bad("net"), true
		}
		k := new(big.Int).SetBytes(p[1:33])
		if !ref.ValidScalar(k) {
			return bad("range"), true
		}
		e := m.privExp(k, op.Net, r.in)
		e.obj.odd = len(p) == 34
		return e, true
	case "phex":
		k := ref.ParsePrivHex(r.in)
		if k == nil {
			return bad("hex"), true
		}
		return m.privExp(k, op.Net, ""), true
	case "pubhex":
		p := ref.ParsePub(r.in)
		if p == nil {
			return bad("point"), true
		}
		return m.pubExp(p, op.Net), true
	case "rawpub":
		k, _ := new(big.Int).SetString(string(op.S), 16)
		if k == nil || !ref.ValidScalar(k) {
			return bad("range"), true
		}
		return m.pubExp(mulG(k), op.Net), true
	case "pub":
		a, ok := m.priv(t, op.A)
		if !ok {
			return expect{}, false
		}
		return m.pubExp(mulG(a.k), a.net), true
	case "fmt":
		a, ok := m.pub(t, op.A)
		if !ok {
			return expect{}, false
		}
		return expect{st: "ok", v: []string{hex.EncodeToString(ref.PubBytes(a.pt, op.C))}}, true
	case "addr":
		a, ok := m.pub(t, op.A)
		if !ok {
			return expect{}, false
		}
		return expect{st: "ok", v: []string{ref.Address(a.pt, op.C, m.w.rnets[a.net])}}, true
	case "addk", "mulk":
		a, ok1 := m.priv(t, op.A)
		b, ok2 := m.priv(t, op.B)
		if !ok1 || !ok2 {
			return expect{}, false
		}
		if m.w.rnets[a.net] != m.w.rnets[b.net] {
			return bad("net"), true
		}
		k := new(big.Int)
		if op.K == "addk" {
			k.Add(a.k, b.k)
		} else {
			k.Mul(a.k, b.k)
		}
		k.Mod(k, ref.N)
		if a.k.Cmp(b.k) == 0 {
			if a.odd != b.odd {
				// one of them came with the compression flag: whether they are
				// the same key is not specified
				e := m.privExp(k, a.net, "")
				e.st = "any"
				return e, true
			}
			return bad("same"), true
		}
		if k.Sign() == 0 {
			return bad("zero"), true
		}
		e := m.privExp(k, a.net, "")
		if m.w.spelling(a.net, b.net) {
			e.st = "any"
		}
		return e, true
	case "addp":
		a, ok1 := m.pub(t, op.A)
		b, ok2 := m.pub(t, op.B)
		if !ok1 || !ok2 {
			return expect{}, false
		}
		if m.w.rnets[a.net] != m.w.rnets[b.net] {
			return bad("net"), true
		}
		p := ref.Add(a.pt, b.pt)
		if p == nil {
			return bad("zero"), true
		}
		e := m.pubExp(p, a.net)
		if m.w.spelling(a.net, b.net) {
			e.st = "any"
		}
		return e, true
	case "seed":
		if _, ok := ref.DecodeMnemonic(r.in, words[op.WL]); !ok {
			return bad("phrase"), true
		}
		s := refSeed(r.in, string(op.P))
		return expect{st: "ok", v: []string{hex.EncodeToString(s)}, obj: mobj{kind: 's', txt: string(s)}}, true
	case "mnem":
		if !wordsOK(op.N) {
			return bad("words"), true
		}
		if len(words[op.WL]) < 2048 {
			return bad("list"), true
		}
		if r.must {
			return bad("entropy"), true
		}
		want := op.N / 3 * 4
		if len(r.ent) != want {
			if r.out.St != "ok" && r.soft {
				return expect{st: "any", noVals: true}, true
			}
			return expect{st: "ok", why: "draw", v: []string{fmt.Sprintf("<a phrase made of exactly %d bytes, %d were drawn>", want, len(r.ent))}}, true
		}
		e := expect{st: "ok", v: []string{ref.Mnemonic(r.ent, words[op.WL])}, obj: mobj{kind: 't'}}
		if r.soft {
			e.st = "any"
		}
		return e, true
	case "gen":
		if r.must {
			return expect{st: "panic", why: "entropy"}, true
		}
		e := expect{st: "ok"}
		if r.soft {
			e.st = "any"
		}
		return e, true
	case "rekey":
		a, ok := m.priv(t, op.A)
		if !ok {
			return expect{}, false
		}
		k := hexInt(string(op.S))
		a.k, a.wif, a.odd = k, ref.WIF(k, m.w.rnets[a.net]), false
		if op.A < 0 {
			m.objs[t][-1-op.A] = a
		}
		return expect{st: "ok"}, true
	}
	return expect{}, false
}

// genIdentity: calibrated at the start of a process: a generated key is the
// last 32 bytes drawn.
var genIdentity = false

// judge compares one recorded call with the model and returns the differences.
func (m *model) judge(t, i int, r *rec, hung string) []mism {
	var ms []mism
	add := func(facet, why, f string, a ...any) {
		ms = append(ms, mism{facet, why, t, i, fmt.Sprintf("task %d call %d %s: ", t, i, describe(r)) + fmt.Sprintf(f, a...)})
	}
	if !r.done {
		if r.out.St == "pending" && hung != "" {
			add("hang", hung, "the call never returns (%s)", hung)
		}
		return ms
	}
	if r.out.St == "skip" {
		return nil
	}
	e, ok := m.expectOp(t, r)
	if !ok {
		return nil
	}
	switch r.out.St {
	case "exit":
		add("exit", e.why, "the process would exit: %s", r.out.Msg)
		return ms
	case "hang":
		add("hang", e.why, "does not finish: %s", r.out.Msg)
		return ms
	case "panic":
		if e.st != "panic" {
			add("panic", e.why, "panic: %s", r.out.Msg)
		}
		return ms
	}
	if r.op.K == "rekey" {
		return nil
	}
	// no value may come with an error, no nil with success
	if r.out.St == "err" {
		if len(r.out.V) > 0 && r.out.V[0] != "<nil>" && r.out.V[0] != "" {
			add("errval", e.why, "returns an error (%s) together with a value %v", r.out.Msg, r.out.V)
		}
	} else {
		for _, v := range r.out.V {
			if v == "<nil>" || v == "nil" {
				add("nilok", e.why, "succeeds with an unusable result %v", r.out.V)
				return ms
			}
		}
		if r.op.K == "seed" && r.out.V[0] == "" {
			add("nilok", e.why, "succeeds with no seed")
			return ms
		}
		if r.op.K == "mnem" && r.out.V[0] == "" {
			add("nilok", e.why, "succeeds with no phrase")
			return ms
		}
	}
	if e.st == "panic" {
		add("status", e.why, "returns %s instead of panicking", r.out)
		return ms
	}
	if e.st != "any" && r.out.St != e.st {
		if e.st == "err" {
			add("status", e.why, "must fail (%s) but returns %s", e.why, r.out)
		} else {
			add("status", e.why, "must succeed with %v but fails: %s", e.v, r.out.Msg)
		}
		return ms
	}
	if r.out.St != "ok" || e.noVals {
		return ms
	}
	if r.op.K == "gen" {
		m.judgeGen(t, i, r, add)
		return ms
	}
	good := true
	names := []string{"str"}
	switch r.op.K {
	case "wif", "phex", "addk", "mulk":
		names = []string{"key", "hex", "wif", "net"}
	case "pubhex", "pub", "rawpub", "addp":
		names = []string{"x", "y", "net"}
	case "check":
		names = []string{"bool"}
	case "seed":
		names = []string{"seed"}
	}
	for j := range e.v {
		g, x := r.out.V[j], e.v[j]
		same := g == x
		switch {
		case names[j] == "net":
			same = strings.EqualFold(g, x)
		case names[j] == "hex" && r.op.K == "phex":
			same = same || g == r.in // in the digits that it came in
		}
		if !same {
			good = false
			add(names[j], e.why, "%s is %s, must be %s", names[j], g, x)
		}
	}
	if good {
		m.objs[t][i] = e.obj
	}
	return ms
}

func (m *model) judgeGen(t, i int, r *rec, add func(string, string, string, ...any)) {
	net := r.op.Net
	k, ok := new(big.Int).SetString(r.out.V[0], 16)
	if !ok || !ref.ValidScalar(k) {
		add("key", "", "generated key %s is out of range", r.out.V[0])
		return
	}
	if len(r.ent) < 32 {
		add("derive", "", "only %d bytes of entropy were drawn for key %s", len(r.ent), r.out.V[0])
		return
	}
	if genIdentity && !bytes.Equal(r.ent[len(r.ent)-32:], k.FillBytes(make([]byte, 32))) {
		add("derive", "", "key %s is not made of the bytes that this call drew (%x)", r.out.V[0], r.ent)
		return
	}
	e := m.privExp(k, net, "")
	good := true
	for j, n := range []string{"key", "hex", "wif", "net"} {
		g, x := r.out.V[j], e.v[j]
		same := g == x
		if n == "net" {
			same = strings.EqualFold(g, x)
		}
		if !same {
			good = false
			add(n, "", "%s is %s, must be %s", n, g, x)
		}
	}
	if good {
		m.objs[t][i] = e.obj
	}
}

func describe(r *rec) string {
	s := opText(r.op)
	if r.in != "" || r.op.K == "wif" || r.op.K == "phex" || r.op.K == "pubhex" || r.op.K == "check" || r.op.K == "seed" {
		in := r.in
		if len(in) > 200 {
			in = in[:200] + "..."
		}
		s += fmt.Sprintf(" of %q", in)
	}
	if r.op.Ent != nil {
		s += fmt.Sprintf(" [%d bytes drawn in %d reads, source error: %v]", len(r.ent), r.reads, r.must)
	}
	return s
}

// judgeAll judges a finished run.
func judgeAll(w *world, ts []*taskRun) []mism {
	m := &model{w: w}
	for _, t := range ts {
		m.objs = append(m.objs, make([]mobj, len(t.recs)))
	}
	var all []mism
	for ti, t := range ts {
		for i := range t.recs {
			r := &t.recs[i]
			r.ikey = m.inputKey(ti, r)
			ms := m.judge(ti, i, r, t.hung)
			r.good = len(ms) == 0
			all = append(all, ms...)
		}
	}
	return all
}

// inputKey names the call with everything that its result depends on.
func (m *model) inputKey(t int, r *rec) string {
	op := r.op
	if !r.done || r.out.St == "skip" {
		return ""
	}
	net := ""
	if op.Net >= 0 && op.Net < len(m.w.rnets) {
		net = m.w.netStr(op.Net)
	}
	known := true
	priv := func(i int) string {
		a, ok := m.priv(t, i)
		if !ok {
			known = false
			return ""
		}
		return a.k.Text(16) + "," + m.w.netStr(a.net) + "," + a.wif
	}
	pub := func(i int) string {
		a, ok := m.pub(t, i)
		if !ok {
			known = false
			return ""
		}
		return a.pt.X.Text(16) + "," + a.pt.Y.Text(16) + "," + m.w.netStr(a.net)
	}
	k := ""
	switch op.K {
	case "check":
		k = r.in
	case "wif", "phex", "pubhex":
		k = net + "," + r.in
	case "pub":
		k = priv(op.A)
	case "fmt", "addr":
		k = pub(op.A)
	case "addk", "mulk":
		k = priv(op.A) + ";" + priv(op.B)
	case "addp":
		k = pub(op.A) + ";" + pub(op.B)
	case "seed":
		if op.WL == wlSynth {
			return ""
		}
		k = fmt.Sprint(op.WL, ",", string(op.P), ",", r.in)
	default:
		return ""
	}
	if !known {
		return ""
	}
	return op.K + fmt.Sprint(op.C) + k
}

// what calls did right in this process, until now
var wasRight = map[string]bool{}

// laterResults: after an owner has overwritten results or arguments, a call that
// was right before is wrong. Only for runs in which nothing ran at the same time.
func laterResults(ar *apiRun) string {
	if ar.stats.Switches > 0 {
		return ""
	}
	var l []*rec
	for _, t := range ar.ts {
		for i := range t.recs {
			if r := &t.recs[i]; r.ikey != "" {
				l = append(l, r)
			}
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].seq < l[j].seq })
	for _, r := range l {
		if !r.good && wasRight[r.ikey] && overwrites > 0 {
			return fmt.Sprintf("after results and arguments of earlier calls were overwritten by their owners, %s gives %s, which it did not before", describe(r), r.out)
		}
		if r.good {
			wasRight[r.ikey] = true
		}
	}
	return ""
}
