package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

// Job and Summary: see the worker.
type Job struct {
	Prop  string  `json:"prop,omitempty"`
	Seed  uint64  `json:"seed"`
	Life  uint64  `json:"life"`
	From  int     `json:"from"`
	To    int     `json:"to"`
	Tier  string  `json:"tier"`
	Specs []*Spec `json:"specs,omitempty"`
	Trace bool    `json:"trace,omitempty"`
	First bool    `json:"first,omitempty"`
	Gen   bool    `json:"gen,omitempty"`

	Calib  bool     `json:"calib,omitempty"`
	Exact  *bool    `json:"exact,omitempty"`
	Canary []string `json:"canary,omitempty"`
}

type Summary struct {
	Done    bool             `json:"done"`
	Counts  map[string]int64 `json:"counts"`
	Pairs   []uint64         `json:"pairs"`
	Exact   bool             `json:"exact"`
	BadList int              `json:"badlist"`
	Err     string           `json:"err,omitempty"`
	Canary  []string         `json:"canary,omitempty"`
}

// life is the outcome of one worker process.
type life struct {
	runs    []RunResult
	sum     Summary
	died    string // how the process ended, if it did not finish
	timeout bool
	stderr  string
	wall    time.Duration
}

// viol is the violation the life ended with, if any.
func (l *life) viol() *RunResult {
	if n := len(l.runs); n > 0 && l.runs[n-1].Viol != nil {
		return &l.runs[n-1]
	}
	return nil
}

var execNo int64

// calib is what a process of its own found out about the library, so that the
// others start with an untouched one.
var calib *Summary

func calibrate(scratch, bin string) {
	calib = nil
	l, err := runJob(scratch, bin, false, Job{Calib: true}, 60*time.Second)
	if err == nil && l.sum.Done {
		calib = &l.sum
	}
}

// runJob runs one worker process; it is ended if a run takes longer than limit.
func runJob(scratch, bin string, race bool, job Job, limit time.Duration) (*life, error) {
	no := atomic.AddInt64(&execNo, 1)
	dir := filepath.Join(scratch, fmt.Sprint("x", no))
	if err := os.Mkdir(dir, 0o755); err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	if calib != nil {
		job.Exact, job.Canary = &calib.Exact, calib.Canary
	}
	in, err := json.Marshal(job)
	if err != nil {
		return nil, err
	}
	open := func(n string) (*os.File, error) {
		return os.OpenFile(filepath.Join(dir, n), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o644)
	}
	so, err := open("out")
	if err != nil {
		return nil, err
	}
	defer so.Close()
	se, err := open("err")
	if err != nil {
		return nil, err
	}
	defer se.Close()
	rd, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c := exec.Command(bin, "run")
	c.Dir = dir
	c.Stdin = bytes.NewReader(in)
	c.Stdout, c.Stderr = so, se
	c.ExtraFiles = []*os.File{wr}
	cpus := simrt.CPUs(job.Life)
	if len(job.Specs) > 0 && job.Specs[0].CPUs > 0 {
		cpus = job.Specs[0].CPUs
	}
	c.Env = []string{fmt.Sprint("VERIF_CPUS=", cpus), "GOMAXPROCS=1", "HOME=" + dir, "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C", "GODEBUG=randautoseed=0"}
	if race {
		lp := filepath.Join(dir, "race")
		c.Env = append(c.Env, "GORACE=log_path="+lp+" halt_on_error=0 exitcode=0", "VERIF_RACE_LOG="+lp)
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	start := time.Now()
	if err := c.Start(); err != nil {
		wr.Close()
		rd.Close()
		return nil, err
	}
	wr.Close()
	l := &life{}
	timer := time.AfterFunc(limit, func() {
		l.timeout = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	})
	dec := json.NewDecoder(rd)
	for {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			break
		}
		var probe struct {
			Counts map[string]int64 `json:"counts"`
			Tick   bool             `json:"tick"`
		}
		json.Unmarshal(raw, &probe)
		if probe.Counts != nil {
			if err := json.Unmarshal(raw, &l.sum); err != nil {
				break
			}
			continue
		}
		if probe.Tick {
			timer.Reset(limit)
			continue
		}
		var r RunResult
		if err := json.Unmarshal(raw, &r); err != nil {
			break
		}
		l.runs = append(l.runs, r)
		timer.Reset(limit) // every run gets its time
	}
	rd.Close()
	werr := c.Wait()
	if !timer.Stop() {
		l.timeout = true
	}
	l.wall = time.Since(start)
	if l.sum.Err != "" {
		return l, fmt.Errorf("worker: %s", l.sum.Err)
	}
	if !l.sum.Done {
		b, _ := os.ReadFile(filepath.Join(dir, "err"))
		l.stderr = head(string(b), 4000)
		l.died = fmt.Sprint("worker ended early: ", werr)
		if l.timeout {
			l.died = fmt.Sprintf("a run did not end within %v", limit)
		}
	}
	return l, nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// fatal is the reason the Go runtime gave for ending the process.
func fatal(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		for _, p := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds", "SIGSEGV", "unexpected fault address"} {
			if strings.HasPrefix(strings.TrimSpace(l), p) {
				return strings.TrimSpace(l)
			}
		}
	}
	return ""
}
