// Command vsim decides properties of github.com/aureleoules/btc by seeded
// deterministic simulation.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"syscall"
)

// die ends with an error of the check: neither held nor violated.
func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	cleanup()
	os.Exit(code)
}

var scratchDirs []string

func cleanup() {
	for _, d := range scratchDirs {
		if filepath.Base(d) != d && len(filepath.Base(d)) > 5 && filepath.Base(d)[:5] == "vsim-" {
			os.RemoveAll(d)
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: vsim check|replay|determinism|spec ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "", "quick or thorough")
	seed := fs.String("seed", "", "seed (default VERIF_SEED, else 1)")
	root := fs.String("root", "/verif", "directory of the framework")
	repo := fs.String("repo", "/repo", "tree to check")
	scale := fs.Float64("scale", 1, "multiply the number of runs")
	lives := fs.Int("lives", 0, "number of lives (determinism)")
	keep := fs.Bool("keep", false, "keep the scratch directory")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	s := uint64(1)
	if *seed == "" {
		*seed = os.Getenv("VERIF_SEED")
	}
	if *seed != "" {
		n, err := strconv.ParseInt(*seed, 10, 64)
		if err != nil {
			die(2, "bad seed %q", *seed)
		}
		s = uint64(n)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-sig
		die(2, "interrupted")
	}()
	code := 0
	c := &Checker{Prop: *prop, Tier: *tier, Seed: s, Root: *root, Repo: *repo, Scale: *scale}
	switch cmd {
	case "check":
		code = c.check()
	case "replay":
		if fs.NArg() != 1 {
			die(2, "usage: vsim replay FILE")
		}
		code = c.replay(fs.Arg(0))
	case "determinism":
		code = c.determinism(*lives)
	case "build":
		b, err := prepare(*root, *repo, true)
		if b != nil {
			scratchDirs = append(scratchDirs, b.Scratch)
		}
		if err != nil {
			die(2, "build: %v", err)
		}
		j, _ := json.Marshal(map[string]any{"plain": b.Plain, "race": b.Race, "level": b.Level, "sites": len(b.Sites), "dsites": b.DSites, "secs": b.Secs})
		fmt.Println(string(j))
	default:
		die(2, "unknown command %s", cmd)
	}
	if !*keep {
		cleanup()
	}
	os.Exit(code)
}
