package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"log"
	"math/big"
	"os"
	"regexp"
	"strings"
	"syscall"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// logSink is the destination of the process log.
type logSink struct {
	buf  bytes.Buffer
	plan LogPlan
	n    int
}

var sink = &logSink{}
var logFaults int64

func (l *logSink) Write(p []byte) (int, error) {
	l.n++
	l.buf.Write(p)
	for i := 0; i < l.plan.Stall; i++ {
		yield(-10)
	}
	if l.plan.Fail > 0 && l.n%l.plan.Fail == 0 {
		logFaults++
		return 0, errors.New("no space left on device")
	}
	if l.plan.Short > 0 && l.n%l.plan.Short == 0 && len(p) > 0 {
		logFaults++
		return len(p) / 2, nil
	}
	return len(p), nil
}

var brokenStd *os.File
var realStd [2]os.File

func setLog(p LogPlan) {
	if p.Std == 1 {
		if brokenStd == nil {
			brokenStd, _ = os.Open("/dev/null")
		}
		if brokenStd != nil {
			realStd = [2]os.File{*os.Stdout, *os.Stderr}
			*os.Stdout, *os.Stderr = *brokenStd, *brokenStd
		}
	}
	sink.plan = p
	sink.n = 0
	log.SetOutput(sink)
}
func resetLog() {
	if sink.plan.Std == 1 && brokenStd != nil {
		*os.Stdout, *os.Stderr = realStd[0], realStd[1]
	}
	sink.plan = LogPlan{}
}

// stdText is what has been written to the standard streams since the last call.
var stdOff [3]int64

func stdText() string {
	var s strings.Builder
	for fd := 1; fd <= 2; fd++ {
		for {
			b := make([]byte, 65536)
			n, err := syscall.Pread(fd, b, stdOff[fd])
			if n <= 0 || err != nil {
				break
			}
			s.Write(b[:n])
			stdOff[fd] += int64(n)
		}
	}
	return s.String()
}

var stamp = regexp.MustCompile(`\d{4}[/-]\d\d[/-]\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)?`)

// captured is everything the code under test wrote since the last call.
func captured() string {
	s := "log:" + sink.buf.String() + "\nstd:" + stdText()
	sink.buf.Reset()
	return stamp.ReplaceAllString(s, "<time>")
}

// leakOps makes calls; shape decides what is called, sec the secrets in it.
func leakOps(shape, sec *rng) []Op {
	var ops []Op
	key := func() *big.Int {
		if shape.p(0.35) {
			return sec.scalar() // unusual ones: short, tiny, patterned
		}
		for {
			k := sec.randScalar()
			if k.BitLen() == 256 && k.Bit(255) == 1 && k.Cmp(new(big.Int).Rsh(ref.N, 1)) > 0 {
				return k
			}
		}
	}
	pass := func() Str {
		if shape.p(0.3) {
			return sec.pass()
		}
		return Str(hex.EncodeToString(sec.bytes(6)))
	}
	entropy := func(n int) []byte {
		if shape.p(0.35) {
			return sec.entropy(n)
		}
		b := sec.bytes(n)
		b[0] |= 0x80
		return b
	}
	nets := []ref.Net{{Priv: 0x80}, {Priv: 0xEF, Pub: 0x6F}}
	put := func(op Op) int { ops = append(ops, op); return -len(ops) }
	n := 4 + shape.n(8)
	for i := 0; i < n; i++ {
		net := shape.n(2)
		k := key()
		switch shape.n(18) {
		case 0:
			p := put(Op{K: "pub", A: put(Op{K: "phex", S: Str(ref.Hex32(k)), Net: net})})
			put(Op{K: "addr", A: p, C: true})
			put(Op{K: "fmt", A: p})
		case 1:
			put(Op{K: "wif", S: Str(ref.WIF(k, nets[net])), Net: net})
		case 2:
			put(Op{K: "wif", S: Str(ref.CompressedWIF(k, nets[net])), Net: net})
		case 3: // wrong character
			w := []byte(ref.WIF(k, nets[net]))
			j := 1 + shape.n(50)
			w[j%len(w)] = pick(shape, byte('0'), 'O', 'l', '!')
			put(Op{K: pick(shape, "wif", "check"), S: Str(w), Net: net})
		case 4: // wrong checksum
			b := append([]byte{nets[net].Priv}, k.FillBytes(make([]byte, 32))...)
			c := ref.Checksum(b)
			c[shape.n(4)] ^= 1 << shape.n(8)
			put(Op{K: pick(shape, "wif", "check"), S: Str(ref.B58Encode(append(b, c...))), Net: net})
		case 5: // other network
			put(Op{K: "wif", S: Str(ref.WIF(k, nets[1-net])), Net: net})
		case 6: // other length
			b := append([]byte{nets[net].Priv}, k.FillBytes(make([]byte, 32))...)
			put(Op{K: "wif", S: Str(ref.B58Check(b[:10+shape.n(20)])), Net: net})
		case 7: // hex with a bad digit, or cut, or out of range
			h := ref.Hex32(k)
			switch shape.n(3) {
			case 0:
				j := shape.n(64)
				h = h[:j] + "g" + h[j+1:]
			case 1:
				h = h[:shape.n(64)]
			default:
				h = "ffffffffffffffffffffffffffffffff" + h[32:]
			}
			put(Op{K: "phex", S: Str(h), Net: net})
		case 8, 9: // combination
			q := key()
			a := put(Op{K: "phex", S: Str(ref.Hex32(k)), Net: net})
			n2 := net
			switch shape.n(5) {
			case 0:
				q = k
			case 1:
				q = new(big.Int).Sub(ref.N, k)
			case 2:
				n2 = 1 - net
			}
			c := put(Op{K: "wif", S: Str(ref.WIF(q, nets[n2])), Net: n2})
			put(Op{K: pick(shape, "addk", "mulk"), A: a, B: c})
		case 10: // public keys
			q := key()
			if shape.n(3) == 0 {
				q = new(big.Int).Sub(ref.N, k)
			}
			comp := shape.p(0.5)
			a := put(Op{K: "pubhex", S: Str(hex.EncodeToString(ref.PubBytes(mulG(k), comp))), Net: net})
			c := put(Op{K: "pubhex", S: Str(hex.EncodeToString(ref.PubBytes(mulG(q), comp))), Net: net})
			put(Op{K: "addp", A: a, B: c, C: comp})
		case 11, 12: // generation
			e := &Ent{Pre: strings.Repeat(pick(shape, "00", "ff"), 32*shape.n(3)) + ref.Hex32(k), Seed: sec.u64(), Fail: -1}
			if shape.p(0.4) {
				e.Fail = shape.n(33)
				e.Err = shape.n(len(entErrors))
				e.With = shape.p(0.5)
			}
			put(Op{K: "gen", Net: net, Ent: e})
		case 13, 14:
			w := wordCounts[shape.n(5)]
			wl := shape.n(9)
			b := entropy(w / 3 * 4)
			e := &Ent{Pre: hex.EncodeToString(b), Seed: sec.u64(), Fail: -1}
			if shape.p(0.4) {
				e.Fail = shape.n(w / 3 * 4)
				e.Err = shape.n(len(entErrors))
				e.With = shape.p(0.5)
			}
			a := put(Op{K: "mnem", N: w, WL: wl, Ent: e})
			put(Op{K: "seed", A: a, T: "txt", P: pass(), WL: wl})
		default: // seed
			w := wordCounts[shape.n(5)]
			wl := shape.n(9)
			b := entropy(w / 3 * 4)
			s := strings.Split(ref.Mnemonic(b, words[wl]), " ")
			switch shape.n(6) {
			case 0: // unknown word
				s[shape.n(w)] = hex.EncodeToString(sec.bytes(5))
			case 1: // wrong checksum
				i := 0
				for k := range words[wl] {
					if words[wl][k] == s[w-1] {
						i = k
					}
				}
				s[w-1] = words[wl][i^1]
			case 2: // lost word
				s = s[1:]
			case 3: // lost words: still a supported length
				if len(s) > 12 {
					s = s[3:]
				}
			}
			if shape.p(0.08) {
				// words of a list that is too long
				wl = wlLarge
				for j := range s {
					s[j] = words[wl][sec.n(2048)]
				}
				s[shape.n(len(s))] = words[wl][2048+sec.n(900)]
			}
			put(Op{K: "seed", S: Str(strings.Join(s, " ")), P: pass(), WL: wl})
		}
	}
	return ops
}

func genLeak(r *rng, sp *Spec) {
	if r.p(0.3) {
		// several callers; nothing secret may be found in what is written
		switch r.n(4) {
		case 0:
			genEntropy(r, sp, 0.3)
		case 1:
			genSeeds(r, sp)
		default:
			genConc(r, sp, 0.4, 0)
		}
		sp.Scen = "leak-scan"
		sp.Log = LogPlan{Fail: r.n(4), Short: r.n(4)}
		return
	}
	sp.Scen = "leak"
	s := r.u64()
	sp.Tasks = []TaskSpec{{leakOps(&rng{s}, newRng(r.u64()))}}
	sp.Leak = &LeakSpec{B: leakOps(&rng{s}, newRng(r.u64()))}
	sp.Log = LogPlan{Fail: r.n(4), Short: r.n(4), Stall: r.n(5), Std: r.n(2)}
	sp.Sched = simrt.Policy{Seed: r.u64()}
}

// runLeak compares what is written for two sets of secrets, and what is returned
// with a broken log.
func runLeak(sp *Spec) (*apiRun, *Violation, map[string]int64) {
	counts := map[string]int64{}
	quiet := *sp
	quiet.Log = LogPlan{}
	other := quiet
	other.Tasks = []TaskSpec{{sp.Leak.B}}
	captured()
	a1 := runAPI(&quiet)
	t1 := captured()
	b := runAPI(&other)
	t2 := captured()
	a2 := runAPI(&quiet)
	t3 := captured()
	f0 := logFaults
	a3 := runAPI(sp)
	captured()
	counts["log.fault"] = logFaults - f0
	counts["log.brokenstd"] = int64(sp.Log.Std)
	counts["log.bytes"] = int64(len(t1))
	viol := func(kind, f string, a ...any) *Violation {
		return &Violation{Prop: sp.Prop, Kind: kind, Detail: fmt.Sprintf(f, a...)}
	}
	st := func(ar *apiRun) string {
		s := ""
		for i := range ar.ts[0].recs {
			s += ar.ts[0].recs[i].out.St + " "
		}
		return s
	}
	vals := func(ar *apiRun) string {
		s := ""
		for i := range ar.ts[0].recs {
			r := &ar.ts[0].recs[i]
			s += r.out.St + fmt.Sprint(r.out.V)
		}
		return s
	}
	if vals(a1) != vals(a3) && vals(a1) == vals(a2) {
		return a1, viol("logfault", "results change when the log destination fails: %s with a broken log, %s without", clip(vals(a3)), clip(vals(a1))), counts
	}
	if s := scan(a1, t1); s != "" {
		return a1, viol("leak", "%s", s), counts
	}
	if st(a1) == st(b) {
		counts["leak.compared"]++
		if d := diffText(t1, t3, t2); d != "" {
			return a1, viol("leak", "output depends on secrets: %s", d), counts
		}
	} else {
		counts["leak.shape"]++
	}
	return a1, nil, counts
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

var token = regexp.MustCompile(`\s+`)

// diffText: a and a2 come from the same secrets, b from others. Tokens in which
// a and a2 differ carry no information; b must equal a elsewhere.
func diffText(a, a2, b string) string {
	if a == b {
		return ""
	}
	ta, ta2, tb := token.Split(a, -1), token.Split(a2, -1), token.Split(b, -1)
	if len(ta) != len(ta2) {
		return "" // output is not repeatable at all
	}
	for i := range ta {
		if i >= len(tb) {
			return fmt.Sprintf("%q is missing with other secrets", clip(ta[i]))
		}
		if ta[i] != ta2[i] {
			continue
		}
		if ta[i] != tb[i] {
			return fmt.Sprintf("%q is written with one set of secrets, %q with another", clip(ta[i]), clip(tb[i]))
		}
	}
	if len(tb) > len(ta) {
		return fmt.Sprintf("%q is written only with other secrets", clip(tb[len(ta)]))
	}
	return ""
}

// public holds the windows of numbers that are no secret: the curve parameters
// and their neighbours, which unusual keys resemble.
var public = map[string]string{}

func initPublic() {
	m := map[string]string{}
	two := new(big.Int).Lsh(bigOne, 256)
	half := new(big.Int).Rsh(ref.N, 1)
	g := ref.MulG(bigOne)
	for _, k := range []*big.Int{ref.N, ref.P, two, half, g.X, g.Y} {
		for d := int64(-3); d <= 3; d++ {
			x := new(big.Int).Add(k, big.NewInt(d))
			windows(m, "public", x.Text(10), 14)
			windows(m, "public", x.Text(16), 14)
			b := x.Bytes()
			windows(m, "public", base64.StdEncoding.EncodeToString(b), 14)
			windows(m, "public", fmt.Sprint(b), 20)
		}
	}
	for d := 0; d < 300; d++ {
		x := new(big.Int).Lsh(bigOne, uint(d))
		windows(m, "public", x.Text(10), 14)
	}
	public = m
}

// windows of a text that are long enough to give it away
func windows(set map[string]string, what, s string, n int) {
	s = strings.ToLower(s)
	for i := 0; i+n <= len(s); i++ {
		w := s[i : i+n]
		var seen [256]bool
		kinds := 0
		for j := 0; j < n; j++ {
			if !seen[w[j]] {
				seen[w[j]] = true
				kinds++
			}
		}
		if kinds < 5 || public[w] != "" {
			continue // says nothing, or is part of a well-known number
		}
		set[w] = what
	}
}

// scan looks for secrets of the run in what was written.
func scan(ar *apiRun, out string) string {
	body := strings.TrimSuffix(strings.TrimPrefix(out, "log:"), "\nstd:")
	// errors and panics, which callers log
	seen := map[string]bool{}
	for _, t := range ar.ts {
		for i := range t.recs {
			if o := &t.recs[i].out; (o.St == "err" || o.St == "panic") && o.Msg != "" && !seen[o.Msg] {
				seen[o.Msg] = true
				body += "\n" + o.Msg
			}
		}
	}
	if strings.TrimSpace(body) == "" {
		return ""
	}
	if len(public) == 0 {
		initPublic()
	}
	const n = 14
	set := map[string]string{}
	said := map[string]string{}
	num := func(what string, k *big.Int) {
		if k == nil || k.BitLen() < 64 {
			return
		}
		b := k.FillBytes(make([]byte, 32))
		windows(set, what, k.Text(10), n)
		windows(set, what, fmt.Sprintf("%x", b), n)
		windows(set, what, base64.StdEncoding.EncodeToString(b), n)
		windows(set, what, fmt.Sprint(b), 20)
	}
	text := func(what, s string) {
		if len(s) >= n {
			windows(set, what, s, n)
			windows(set, what, fmt.Sprintf("%x", s), n)
			windows(set, what, fmt.Sprint([]byte(s)), 20)
		}
	}
	phrase := func(what, s string) {
		w := strings.Fields(s)
		for i := 0; i+3 <= len(w); i++ {
			if w[i] != w[i+1] {
				said[strings.Join(w[i:i+3], " ")] = what
			}
		}
	}
	for _, t := range ar.ts {
		for i := range t.recs {
			r := &t.recs[i]
			at := fmt.Sprintf(" of task %d call %d (%s)", t.id, i, opText(r.op))
			if r.obj.priv != nil && len(r.out.V) >= 3 {
				k, _ := new(big.Int).SetString(r.out.V[0], 16)
				num("private key"+at, k)
				text("WIF"+at, r.out.V[2])
			}
			switch r.op.K {
			case "wif":
				text("WIF"+at, r.in)
			case "phex":
				text("private key hex"+at, r.in)
			case "seed":
				phrase("phrase"+at, r.in)
				if ent, _ := ref.DecodeMnemonic(r.in, words[r.op.WL]); ent != nil {
					text("entropy"+at, hex.EncodeToString(ent))
					text("entropy"+at, fmt.Sprint(ent))
					text("entropy"+at, new(big.Int).SetBytes(ent).Text(10))
				}
				text("passphrase"+at, string(r.op.P))
				if len(r.out.V) > 0 {
					text("seed"+at, r.out.V[0])
					text("seed"+at, fmt.Sprint(r.obj.seed))
				}
			case "mnem":
				if len(r.out.V) > 0 {
					phrase("phrase"+at, r.out.V[0])
				}
			}
			for o := 0; o+32 <= len(r.ent); o += 32 {
				num("entropy"+at, new(big.Int).SetBytes(r.ent[o:o+32]))
			}
			if r.op.K == "mnem" {
				text("entropy"+at, hex.EncodeToString(r.ent))
				text("entropy"+at, fmt.Sprint(r.ent))
			}
		}
	}
	low := strings.ToLower(body)
	for _, l := range []int{n, 20} {
		for i := 0; i+l <= len(low); i++ {
			if what, ok := set[low[i:i+l]]; ok {
				return fmt.Sprintf("part of the %s is written or in an error: %q", what, clip(low[i:i+l]))
			}
		}
	}
	f := strings.Fields(body)
	for i := 0; i+3 <= len(f); i++ {
		for _, cut := range []string{"", "[]\"',:;"} {
			g := make([]string, 3)
			for j := range g {
				g[j] = strings.Trim(f[i+j], cut)
			}
			if what, ok := said[strings.Join(g, " ")]; ok {
				return fmt.Sprintf("words of the %s are written or in an error: %q", what, strings.Join(g, " "))
			}
		}
	}
	return ""
}

// runScan runs several callers and looks through what was written.
func runScan(sp *Spec) (*apiRun, *Violation) {
	captured()
	ar := runAPI(sp)
	if s := scan(ar, captured()); s != "" {
		return ar, &Violation{Prop: sp.Prop, Kind: "leak", Detail: s}
	}
	return ar, nil
}
