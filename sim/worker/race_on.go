//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

func init() { raceBuild = true }

func raceErrors() int { return runtime.RaceErrors() }

// raceText is the first report of the race detector, shortened.
func raceText() string {
	p := os.Getenv("VERIF_RACE_LOG")
	if p == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil {
		return ""
	}
	var l []string
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		if strings.HasPrefix(s, "github.com/aureleoules/") || strings.HasPrefix(s, "Write at") || strings.HasPrefix(s, "Read at") || strings.HasPrefix(s, "Previous") {
			if i := strings.Index(s, " at 0x"); i > 0 {
				s = s[:i]
			}
			l = append(l, s)
		}
		if len(l) >= 12 {
			break
		}
	}
	return ": " + strings.Join(l, "; ")
}
