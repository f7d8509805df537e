package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// genStore: a wallet creates secrets, stores them, crashes and restores.
func genStore(r *rng, sp *Spec) {
	sp.Scen = "store"
	r.nets(sp, r.n(2))
	st := &StoreSpec{}
	sp.Store = st
	fam := &family{}
	nt := 1 + r.n(2)
	for t := 0; t < nt; t++ {
		b := &builder{r: r, sp: sp, fam: fam}
		n := 1 + r.n(3)
		for i := 0; i < n; i++ {
			net := r.net(sp)
			switch r.n(10) {
			case 0, 1, 2: // generated key
				a := b.put(Op{K: "gen", Net: net, Ent: r.keyEnt()}, 'k', nil)
				st.Items = append(st.Items, Item{Task: t, Op: -1 - a, Kind: "priv", Net: net})
				b.observe(a, "priv")
			case 3: // imported key
				k := fam.next(r)
				op := Op{K: "phex", S: Str(randCase(r, ref.Hex32(k))), Net: net}
				odd := false
				if r.p(0.5) {
					op = Op{K: "wif", S: Str(ref.WIF(k, sp.rnet(net))), Net: net}
					if odd = r.p(0.5); odd {
						op.S = Str(ref.CompressedWIF(k, sp.rnet(net)))
					}
				}
				a := b.put(op, 'k', nil)
				st.Items = append(st.Items, Item{Task: t, Op: -1 - a, Kind: "priv", Net: net, Odd: odd})
				b.observe(a, "priv")
			case 4, 5: // combined key, often a short one
				k := fam.next(r)
				mul := r.p(0.4)
				x := b.put(Op{K: "phex", S: Str(ref.Hex32(k)), Net: net}, 'k', nil)
				y := b.put(Op{K: "wif", S: Str(ref.WIF(r.partner(k, mul), sp.rnet(net))), Net: net}, 'k', nil)
				name := "addk"
				if mul {
					name = "mulk"
				}
				a := b.put(Op{K: name, A: x, B: y}, 'k', nil)
				st.Items = append(st.Items, Item{Task: t, Op: -1 - a, Kind: "priv", Net: net})
				b.observe(a, "priv")
			case 6: // public key
				a := 0
				if r.p(0.2) {
					h := hex.EncodeToString(ref.PubBytes(smallPoints[r.n(len(smallPoints))], r.p(0.5)))
					a = b.put(Op{K: "pubhex", S: Str(h), Net: net}, 'p', nil)
				} else {
					a = b.impPub(fam.next(r), net)
				}
				st.Items = append(st.Items, Item{Task: t, Op: -1 - a, Kind: "pub", Net: net})
				b.observe(a, "pub")
			case 7: // combined public key
				k := fam.next(r)
				x, y := b.impPub(k, net), b.impPub(r.partner(k, false), net)
				a := b.put(Op{K: "addp", A: x, B: y, C: r.p(0.5)}, 'p', nil)
				st.Items = append(st.Items, Item{Task: t, Op: -1 - a, Kind: "pub", Net: net})
				b.observe(a, "pub")
			default:
				w := wordCounts[r.n(5)]
				wl := r.goodList()
				it := Item{Task: t, Kind: "mnem", WL: wl, Pass: r.pass()}
				a := b.put(Op{K: "mnem", N: w, WL: wl, Ent: r.phraseEnt(w / 3 * 4)}, 't', nil)
				it.Op = -1 - a
				st.Items = append(st.Items, it)
				b.put(Op{K: "seed", A: a, T: "txt", P: it.Pass, WL: wl}, 's', nil)
			}
		}
		sp.Tasks = append(sp.Tasks, TaskSpec{b.ops})
	}
	sp.Sched = r.policy()

	lastSynced := false
	put := func() {
		i := r.n(len(st.Items))
		s := StoreStep{K: "put", Item: i}
		switch st.Items[i].Kind {
		case "priv":
			s.Fmt = pick(r, "wif", "hex")
		case "pub":
			s.Fmt = pick(r, "fc", "fu")
		default:
			s.Fmt = "mnem"
		}
		if r.p(0.06) {
			s.Keep = 1 + r.n(30) // disk full
		}
		st.Steps = append(st.Steps, s)
		lastSynced = false
	}
	rounds := 1 + r.n(3)
	for q := 0; q < rounds; q++ {
		for i := 0; i < 1+r.n(4); i++ {
			put()
			if r.p(0.5) {
				st.Steps = append(st.Steps, StoreStep{K: pick(r, "sync", "sync", "sync", "sync", "syncfail")})
				lastSynced = true
			}
		}
		if r.p(0.8) {
			if !lastSynced && r.p(0.3) {
				st.Steps = append(st.Steps, StoreStep{K: "sync"})
			}
			c := StoreStep{K: "crash", Keep: r.n(200)}
			if r.p(0.3) {
				c.Mut = r.muts(60, b58)
			}
			st.Steps = append(st.Steps, c)
		}
		rs := StoreStep{K: "restore", Conc: 1 + r.n(3), Pol: r.policy()}
		if r.p(0.12) {
			rs.K = "child"
		}
		st.Steps = append(st.Steps, rs)
	}
}

// observe adds the calls that show everything about a key.
func (b *builder) observe(a int, kind string) {
	p := a
	if kind == "priv" {
		p = b.put(Op{K: "pub", A: a}, 'p', nil)
	}
	b.put(Op{K: "fmt", A: p, C: true}, 0, nil)
	b.put(Op{K: "fmt", A: p}, 0, nil)
	b.put(Op{K: "addr", A: p, C: true}, 0, nil)
	b.put(Op{K: "addr", A: p}, 0, nil)
}

// view is what the calls that create and observe an item showed.
type view struct {
	ok   bool
	outs []Out
}

func viewLen(kind string) int {
	switch kind {
	case "priv":
		return 6
	case "pub":
		return 5
	}
	return 2
}

func viewOf(recs []rec, op int, kind string) view {
	n := viewLen(kind)
	v := view{ok: true}
	for i := 0; i < n; i++ {
		if op+i >= len(recs) || !recs[op+i].done {
			if i == 0 {
				v.ok = false
			}
			v.outs = append(v.outs, Out{St: "missing"})
			continue
		}
		if i == 0 && recs[op].out.St != "ok" {
			v.ok = false
		}
		v.outs = append(v.outs, recs[op+i].out)
	}
	return v
}

type diskRec struct {
	item int
	fmt  string
	text string
}

type storeRun struct {
	first  *apiRun
	extra  []*apiRun
	counts map[string]int64
	kids   int
}

func exportText(v view, kind, f string) (string, bool) {
	i, j := 0, 0
	switch f {
	case "wif":
		j = 2
	case "hex":
		j = 1
	case "fc":
		i = 1
	case "fu":
		i = 2
	}
	if o := v.outs[i]; o.St == "ok" && j < len(o.V) {
		return o.V[j], true
	}
	return "", false
}

// runStore plays the wallet. Every record that was durable when it was restored
// must give back the item it was made from.
func runStore(sp *Spec) (*storeRun, *Violation) {
	sr := &storeRun{counts: map[string]int64{}}
	first := runAPI(sp)
	sr.first = first
	views := make([]view, len(sp.Store.Items))
	for i, it := range sp.Store.Items {
		if it.Task < len(first.ts) {
			views[i] = viewOf(first.ts[it.Task].recs, it.Op, it.Kind)
		}
	}
	var durable, pending []byte
	var simTime int64
	acked := map[string]diskRec{} // records that were synced, by line
	var unsynced []string
	recOf := map[string]diskRec{}
	viol := func(f string, a ...any) *Violation {
		return &Violation{Prop: "C07", Kind: "restore", Detail: fmt.Sprintf(f, a...)}
	}
	for si, st := range sp.Store.Steps {
		sr.counts["disk."+st.K]++
		if st.Jump != 0 {
			simrt.ClockJump(st.Jump)
		}
		switch st.K {
		case "put":
			v := views[st.Item]
			if !v.ok {
				continue
			}
			it := sp.Store.Items[st.Item]
			text, ok := exportText(v, it.Kind, st.Fmt)
			if !ok {
				continue
			}
			// an imported key is kept as the text that it came as
			if src := &first.ts[it.Task].recs[it.Op]; src.op.K == "wif" && st.Fmt == "wif" || src.op.K == "phex" && st.Fmt == "hex" {
				text = src.in
			}
			line := fmt.Sprintf("%s %d %d %s", st.Fmt, it.Net, it.WL, text)
			rec := "\n" + line + "\n"
			if st.Keep > 0 && st.Keep < len(rec) {
				// disk full: short write, not acknowledged
				pending = append(pending, rec[:st.Keep]...)
				sr.counts["disk.shortwrite"]++
				continue
			}
			pending = append(pending, rec...)
			recOf[line] = diskRec{st.Item, st.Fmt, text}
			unsynced = append(unsynced, line)
			simTime += 1e6
		case "sync":
			durable = append(durable, pending...)
			pending = nil
			for _, l := range unsynced {
				acked[l] = recOf[l]
			}
			unsynced = nil
			simTime += 1e7
		case "syncfail":
			simTime += 1e7
		case "crash":
			if len(pending) > 0 {
				k := st.Keep
				if k > len(pending) {
					k = len(pending)
				}
				if k < len(pending) {
					sr.counts["disk.torn"]++
				}
				tail := string(pending[:k])
				if len(st.Mut) > 0 && k > 0 {
					tail = applyMuts(tail, st.Mut)
					sr.counts["disk.damagedtail"]++
				}
				durable = append(durable, tail...)
				pending = nil
			}
			unsynced = nil
			simTime += 1e9
		case "restore", "child":
			img := append(append([]byte(nil), durable...), pending...)
			rsp, lines := restoreSpec(sp, string(img), acked, st)
			if len(rsp.Tasks) == 0 {
				continue
			}
			var outs [][]Out
			if st.K == "child" && childOK {
				sr.kids++
				o, err := runChild(rsp)
				if err != nil {
					fail("recovery process: " + err.Error())
				}
				outs = o
			} else {
				ar := runAPI(rsp)
				sr.extra = append(sr.extra, ar)
				outs = outsOf(ar)
			}
			simTime += 1e8
			for _, l := range lines {
				if l.item < 0 {
					continue
				}
				it := sp.Store.Items[l.item]
				if l.lost {
					return sr, viol("harness lost a record") // cannot happen
				}
				want := views[l.item]
				got := view{ok: true}
				n := viewLen(it.Kind)
				for i := 0; i < n; i++ {
					o := Out{St: "missing"}
					if l.op+i < len(outs[l.task]) {
						o = outs[l.task][l.op+i]
					}
					got.outs = append(got.outs, o)
				}
				s := sameView(it, l.fmt, want, got)
				if s == "" {
					s = sameText(it.Kind, l.fmt, l.text, got)
				}
				if s != "" {
					return sr, viol("step %d (%s): the durable record %q of item %d does not restore: %s", si, st.K, l.text, l.item, s)
				}
			}
		}
	}
	sr.counts["simtime"] = simTime
	return sr, nil
}

type restLine struct {
	item     int
	fmt      string
	text     string
	task, op int
	lost     bool
}

// restoreSpec turns what is on the disk into the calls of the recovering wallet.
func restoreSpec(sp *Spec, img string, acked map[string]diskRec, st StoreStep) (*Spec, []restLine) {
	rsp := &Spec{Prop: sp.Prop, Scen: "restore", Nets: sp.Nets, Perm: sp.Perm, Sched: st.Pol}
	n := st.Conc
	if n < 1 {
		n = 1
	}
	bs := make([]*builder, n)
	for i := range bs {
		bs[i] = &builder{r: newRng(1), sp: rsp}
	}
	var lines []restLine
	seen := map[string]bool{}
	for _, l := range strings.Split(img, "\n") {
		if l == "" || seen[l] {
			continue
		}
		seen[l] = true
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 {
			continue
		}
		net, err1 := strconv.Atoi(f[1])
		wl, err2 := strconv.Atoi(f[2])
		if err1 != nil || err2 != nil || net < 0 || net >= sp.nnets() || wl < 0 || wl > 11 {
			continue
		}
		t := len(lines) % n
		b := bs[t]
		rl := restLine{item: -1, fmt: f[0], text: f[3], task: t, op: len(b.ops)}
		pass := Str("")
		if d, ok := acked[l]; ok {
			rl.item = d.item
			pass = sp.Store.Items[d.item].Pass
		}
		switch f[0] {
		case "wif":
			b.observe(b.put(Op{K: "wif", S: Str(f[3]), Net: net}, 'k', nil), "priv")
		case "hex":
			b.observe(b.put(Op{K: "phex", S: Str(f[3]), Net: net}, 'k', nil), "priv")
		case "fc", "fu":
			b.observe(b.put(Op{K: "pubhex", S: Str(f[3]), Net: net}, 'p', nil), "pub")
		case "mnem":
			b.put(Op{K: "seed", S: Str(f[3]), P: pass, WL: wl}, 's', nil)
		default:
			continue
		}
		lines = append(lines, rl)
	}
	for _, b := range bs {
		if len(b.ops) > 0 || n == 1 {
			rsp.Tasks = append(rsp.Tasks, TaskSpec{b.ops})
		}
	}
	return rsp, lines
}

// sameView: the restored item is the stored one.
func sameView(it Item, f string, want, got view) string {
	kind := it.Kind
	if kind == "mnem" {
		w, g := want.outs[1], got.outs[0]
		if g.St != "ok" {
			return "deriving the seed: " + g.String()
		}
		if w.St == "ok" && w.V[0] != g.V[0] {
			return fmt.Sprintf("seed is %s, was %s", g.V[0], w.V[0])
		}
		if x := hex.EncodeToString(refSeed(want.outs[0].V[0], string(it.Pass))); x != g.V[0] {
			return fmt.Sprintf("seed is %s, the BIP-39 seed is %s", g.V[0], x)
		}
		return ""
	}
	names := []string{"import", "public key", "compressed format", "uncompressed format", "compressed address", "uncompressed address"}
	if kind == "pub" {
		names = append(names[:1], names[2:]...)
	}
	for i := range want.outs {
		w, g := want.outs[i], got.outs[i]
		if w.St != "ok" {
			continue // could not be observed before it was stored
		}
		if g.St != "ok" {
			return names[i] + ": " + g.String()
		}
		for j := range w.V {
			a, b := w.V[j], g.V[j]
			if i == 0 && kind == "priv" && j == 1 {
				a, b = strings.ToLower(a), strings.ToLower(b)
			}
			if i == 0 && j == 2 && it.Odd && f == "hex" {
				continue // the hex does not say that the WIF was a compressed one
			}
			if a != b {
				return fmt.Sprintf("%s: %v, was %v", names[i], g.V, w.V)
			}
		}
	}
	return ""
}

// sameText: exporting the restored key gives the text that was stored.
func sameText(kind, f, text string, got view) string {
	if kind == "mnem" {
		return ""
	}
	t, ok := exportText(got, kind, f)
	if !ok || t == text {
		return ""
	}
	if f != "wif" && text != strings.ToLower(text) && strings.EqualFold(t, text) {
		return "" // digits in capitals may come back small
	}
	return fmt.Sprintf("exporting it again gives %s", t)
}

func outsOf(ar *apiRun) [][]Out {
	var l [][]Out
	for _, t := range ar.ts {
		var o []Out
		for i := range t.recs {
			x := t.recs[i].out
			if !t.recs[i].done {
				x = Out{St: "hang"}
			}
			o = append(o, x)
		}
		l = append(l, o)
	}
	return l
}

var childOK = true

// runChild restores in a fresh process.
func runChild(sp *Spec) ([][]Out, error) {
	b, err := json.Marshal(sp)
	if err != nil {
		return nil, err
	}
	rd, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command("/proc/self/exe", "recover")
	c.Stdin = bytes.NewReader(b)
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	c.ExtraFiles = []*os.File{wr}
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	if err := c.Start(); err != nil {
		return nil, err
	}
	wr.Close()
	var outs [][]Out
	err = json.NewDecoder(rd).Decode(&outs)
	rd.Close()
	werr := c.Wait()
	if err != nil || werr != nil {
		// the recovering process died
		n := 0
		for _, t := range sp.Tasks {
			var o []Out
			for range t.Ops {
				o = append(o, Out{St: "exit", Msg: fmt.Sprint("recovering process died: ", werr)})
				n++
			}
			outs = append(outs, o)
		}
		if n == 0 {
			return nil, err
		}
	}
	return outs, nil
}

var _ = hex.EncodeToString
