package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif.local/sim/instr"
)

// Build is an instrumented worker, made from the current tree.
type Build struct {
	Plain   string // worker
	Race    string // worker under the race detector
	Level   string // how much of the code could be instrumented
	Sites   []instr.Site
	DSites  int
	Secs    float64
	Scratch string
	Rand    bool     // choices of the Go runtime are simulated
	Why     []string // why fuller instrumentation was not possible
}

const ecdsaPath = "github.com/aureleoules/ecdsa"

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "GO111MODULE": "on", "GOSUMDB": "off"}
	var out []string
	for _, e := range env {
		k, _, _ := strings.Cut(e, "=")
		if _, ok := set[k]; ok || k == "GOMAXPROCS" || k == "GORACE" || k == "GODEBUG" {
			continue
		}
		out = append(out, e)
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	return out
}

func run(dir string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = goEnv()
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	if err != nil {
		return so.String(), fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, se.String())
	}
	return so.String(), nil
}

var requireLine = regexp.MustCompile(`^\s*(?:require\s+)?([^\s()]+\.[^\s()]+/[^\s]+)\s+(v[^\s]+)`)

// requires of /repo's go.mod.
func requires(mod string) map[string]string {
	out := map[string]string{}
	for _, l := range strings.Split(mod, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "module") {
			continue
		}
		if m := requireLine.FindStringSubmatch(l); m != nil {
			out[m[1]] = m[2]
		}
	}
	return out
}

// prepare instruments repo and builds the workers; race only if wanted.
func prepare(root, repo string, race bool) (*Build, error) {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		return nil, err
	}
	b := &Build{Scratch: scratch}
	simDir := filepath.Join(root, "sim")
	modText, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return b, err
	}
	sumText, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	req := requires(string(modText))

	// where the curve dependency lives
	ecdsaDir := ""
	if v, ok := req[ecdsaPath]; ok {
		gp, err := run(repo, "go", "env", "GOMODCACHE")
		if err != nil {
			return b, err
		}
		d := filepath.Join(strings.TrimSpace(gp), ecdsaPath+"@"+v)
		if _, err := os.Stat(d); err == nil {
			ecdsaDir = d
		}
	}

	mod := "module verif.local/sim\n\ngo 1.25\n\nrequire github.com/aureleoules/btc v0.0.0\n"
	var names []string
	for n := range req {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		mod += fmt.Sprintf("require %s %s\n", n, req[n])
	}
	mod += "replace github.com/aureleoules/btc => " + repo + "\n"
	withDep := mod
	if ecdsaDir != "" {
		withDep += "replace " + ecdsaPath + " => " + filepath.Join(scratch, "ecdsa") + "\n"
	}

	levels := []struct {
		name           string
		lib, sync, dep bool
	}{
		{"library and curve dependency, with simulated locks and goroutines", true, true, true},
		// without simulated locks there must be no switch inside the library
		{"library, with simulated locks and goroutines", true, true, false},
		{"none", false, false, false},
	}
	var lastErr error
	for li, lv := range levels {
		dir := filepath.Join(scratch, fmt.Sprint("l", li))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return b, err
		}
		replace := map[string]string{}
		b.Sites = nil
		b.DSites = 0
		if lv.lib {
			sites, err := instrumentTree(repo, dir, lv.sync, replace)
			if err != nil {
				lastErr = err
				b.Why = append(b.Why, lv.name+": "+err.Error())
				continue
			}
			b.Sites = sites
		}
		m := mod
		if lv.dep && ecdsaDir != "" {
			n, err := copyDep(ecdsaDir, filepath.Join(scratch, "ecdsa"), 1000000)
			if err != nil {
				lastErr = err
				b.Why = append(b.Why, lv.name+": "+err.Error())
				continue
			}
			b.DSites = n
			m = withDep
		}
		if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(m), 0o644); err != nil {
			return b, err
		}
		if err := os.WriteFile(filepath.Join(dir, "go.sum"), sumText, 0o644); err != nil {
			return b, err
		}
		plain := filepath.Join(dir, "worker")
		if ov := randOverlay(repo, simDir, dir); ov != nil {
			// with the runtime's own choices under control, if that builds
			rep := map[string]string{}
			for k, v := range replace {
				rep[k] = v
			}
			for k, v := range ov {
				rep[k] = v
			}
			if err := compile(simDir, dir, rep, plain, false, lv.lib); err == nil {
				replace = rep
				b.Rand = true
			}
		}
		if err := compile(simDir, dir, replace, plain, false, lv.lib); err != nil {
			lastErr = err
			b.Why = append(b.Why, lv.name+": "+err.Error())
			continue
		}
		b.Plain, b.Level = plain, lv.name
		if race {
			r := filepath.Join(dir, "worker-race")
			rep := map[string]string{}
			for k, v := range replace {
				rep[k] = v
			}
			if p, t, err := poolOverlay(repo); err == nil {
				f := filepath.Join(dir, "pool.go")
				if os.WriteFile(f, []byte(t), 0o644) == nil {
					rep[p] = f
				}
			}
			if err := compile(simDir, dir, rep, r, true, lv.lib); err != nil {
				if err = compile(simDir, dir, replace, r, true, lv.lib); err != nil {
					return b, err
				}
			}
			b.Race = r
		}
		b.Secs = time.Since(start).Seconds()
		return b, nil
	}
	return b, lastErr
}

func compile(simDir, dir string, replace map[string]string, out string, race, lib bool) error {
	ov := filepath.Join(dir, "overlay.json")
	if race {
		ov = filepath.Join(dir, "overlay-race.json")
	}
	j, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return err
	}
	args := []string{"build", "-modfile=" + filepath.Join(dir, "go.mod"), "-overlay=" + ov, "-o", out}
	if race {
		args = append(args, "-race")
	}
	if !lib {
		args = append(args, "-ldflags=-X main.level=none")
	}
	args = append(args, "./worker")
	_, err := run(simDir, "go", args...)
	return err
}

// instrumentTree instruments all library packages below repo.
func instrumentTree(repo, dir string, sync bool, replace map[string]string) ([]instr.Site, error) {
	var all []instr.Site
	n := 0
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			base := filepath.Base(p)
			if p != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || base == "examples") {
				return filepath.SkipDir
			}
			if p != repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		t, sites, err := instr.File(p, src, instr.Options{Yield: "Y", Sync: sync, Calls: true}, len(all)+1)
		if err != nil {
			return err
		}
		all = append(all, sites...)
		n++
		to := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(p)))
		if err := os.WriteFile(to, t, 0o644); err != nil {
			return err
		}
		replace[p] = to
		return nil
	})
	return all, err
}

// copyDep makes an instrumented copy of the curve dependency.
func copyDep(from, to string, first int) (int, error) {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return 0, err
	}
	files, sites, err := instr.Dir(from, instr.Options{Yield: "D", Calls: true}, first)
	if err != nil {
		return 0, err
	}
	for n, t := range files {
		if err := os.WriteFile(filepath.Join(to, filepath.Base(n)), t, 0o644); err != nil {
			return 0, err
		}
	}
	m, err := os.ReadFile(filepath.Join(from, "go.mod"))
	if err != nil {
		m = []byte("module " + ecdsaPath + "\n\ngo 1.12\n")
	}
	return len(sites), os.WriteFile(filepath.Join(to, "go.mod"), m, 0o644)
}

// randOverlay replaces the choices that the Go runtime makes at random (select,
// map iteration, math/rand) by a stream of the simulator, if the library uses
// any of them. It needs a build of the runtime, so it is not always on.
func randOverlay(repo, simDir, dir string) map[string]string {
	if !instr.Random(repo) {
		return nil
	}
	gr, err := run(repo, "go", "env", "GOROOT")
	if err != nil {
		return nil
	}
	src := filepath.Join(strings.TrimSpace(gr), "src")
	out := map[string]string{}
	n := 0
	edit := func(file string, pairs ...string) bool {
		p := filepath.Join(src, file)
		b, err := os.ReadFile(p)
		if err != nil {
			return false
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				return false
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		n++
		to := filepath.Join(dir, fmt.Sprintf("rt%d.go", n))
		if os.WriteFile(to, []byte(s), 0o644) != nil {
			return false
		}
		out[p] = to
		return true
	}
	ok := edit("runtime/select.go", "cheaprandn(uint32(norder + 1))", "uint32(simRand() % uint64(norder+1))") &&
		edit("runtime/rand.go",
			"func maps_rand() uint64 {\n\treturn rand()\n", "func maps_rand() uint64 {\n\treturn simRand()\n",
			"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n",
			"//go:linkname maps_rand ", `var simRandState uint64

//go:linkname simRand
//go:nosplit
func simRand() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	z := simRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:linkname simRandSeed
func simRandSeed(s uint64) { simRandState = s }

//go:linkname maps_rand `) &&
		edit("math/rand/rand.go", "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simRand\n") &&
		edit("math/rand/v2/rand.go", "//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simRand\n")
	if !ok {
		return nil
	}
	to := filepath.Join(dir, "zz_seed.go")
	if os.WriteFile(to, []byte(`package simrt

import _ "unsafe"

//go:linkname runtimeSeed runtime.simRandSeed
func runtimeSeed(uint64)

func init() { SeedRuntime = runtimeSeed }
`), 0o644) != nil {
		return nil
	}
	out[filepath.Join(simDir, "simrt", "zz_seed.go")] = to
	return out
}

// poolOverlay is sync.Pool without pooling: the real one drops objects at random
// in race builds and orders unrelated goroutines through recycled objects, which
// would hide races and break replay.
func poolOverlay(repo string) (string, string, error) {
	gr, err := run(repo, "go", "env", "GOROOT")
	if err != nil {
		return "", "", err
	}
	p := filepath.Join(strings.TrimSpace(gr), "src", "sync", "pool.go")
	src, err := os.ReadFile(p)
	if err != nil {
		return "", "", err
	}
	s := string(src)
	put, get := "func (p *Pool) Put(x any) {\n", "func (p *Pool) Get() any {\n"
	if !strings.Contains(s, put) || !strings.Contains(s, get) {
		return "", "", fmt.Errorf("unknown pool.go")
	}
	s = strings.Replace(s, put, put+"\tif race.Enabled {\n\t\treturn\n\t}\n", 1)
	s = strings.Replace(s, get, get+"\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n", 1)
	return p, s, nil
}
