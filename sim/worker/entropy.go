package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"verif.local/sim/simrt"
)

const maxDraw = 16384

// env is the simulated environment of one task: the entropy source as this
// caller sees it. Only go:norace code touches it during a run.
type env struct {
	ent      *Ent
	pre      []byte
	off      int // bytes delivered in the present call
	buf      [maxDraw]byte
	reads    int
	chunk    int
	failed   bool // the planned error has been reported
	mustFail bool // an error came before the bytes asked for
	softErr  bool // an error came together with all the bytes asked for
	hang     bool
	stall    int // 1: waiting in a stalled read; 2: has been
	zero     int // empty reads in a row
	shorts   int64
	empties  int64
	errs     [32]int64
}

type tempError struct{}

func (tempError) Error() string   { return "resource temporarily unavailable" }
func (tempError) Temporary() bool { return true }
func (tempError) Timeout() bool   { return true }

var entErrors = []error{
	errors.New("entropy source failed"),
	io.EOF,
	io.ErrUnexpectedEOF,
	syscall.EINTR,
	syscall.EIO,
	syscall.EAGAIN,
	&os.PathError{Op: "read", Path: "/dev/urandom", Err: syscall.ENOSYS},
	tempError{},
	os.ErrDeadlineExceeded,
	&os.PathError{Op: "read", Path: "/dev/random", Err: syscall.EINTR},
	&os.PathError{Op: "open", Path: "/dev/urandom", Err: syscall.EMFILE},
	fmt.Errorf("random source: %w", io.EOF),
	context.DeadlineExceeded,
	context.Canceled,
	io.ErrNoProgress,
	io.ErrShortBuffer,
	io.ErrClosedPipe,
	os.ErrPermission,
	&os.SyscallError{Syscall: "getrandom", Err: syscall.ENOMEM},
	errors.New(""),
}

var entErrNames = []string{"custom", "EOF", "unexpected EOF", "EINTR", "EIO", "EAGAIN", "PathError", "temporary", "deadline", "read EINTR", "open EMFILE", "wrapped EOF",
	"context deadline", "canceled", "no progress", "short buffer", "closed pipe", "permission", "getrandom ENOMEM", "empty text"}

func (e *env) begin(ent *Ent, pre []byte) {
	e.ent, e.pre = ent, pre
	e.off, e.reads, e.chunk, e.zero = 0, 0, 0, 0
	e.failed, e.mustFail, e.softErr, e.hang = false, false, false, false
	e.stall = 0
}

func (e *env) delivered() []byte { return append([]byte(nil), e.buf[:e.off]...) }

//go:norace
func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (e *env) byteAt(i int) byte {
	if i < len(e.pre) {
		return e.pre[i]
	}
	j := i - len(e.pre)
	return byte(mix(e.ent.Seed+uint64(j/8)*0x9e3779b97f4a7c15) >> (8 * uint(j%8)))
}

var mainEnv = &env{}
var defaultEnt = &Ent{Fail: -1, Seed: 1}

var stalls int64 // so far
var heldUp int64 // times that nobody could run

// stuck: nobody can run. If all calls that are not finished are generation
// calls, the source goes on.
//
//go:norace
func (ar *apiRun) stuck() bool {
	any := false
	for _, t := range ar.ts {
		if r := t.now; r != nil && !r.done && r.op.K != "gen" && r.op.K != "mnem" {
			return false
		}
		any = any || t.env.stall == 1
	}
	if !any {
		return false
	}
	heldUp++
	for _, t := range ar.ts {
		if t.env.stall == 1 {
			t.env.stall = 2
		}
	}
	return true
}

// simReader is the process-wide secure random source of the simulation.
type simReader struct{}

type hangPanic struct{}

// level is "none" if the library could not be instrumented. Its locks are then
// real ones, and tasks must not switch while it is active.
var level string

//go:norace
func yield(site int32) {
	if level != "none" && simrt.Active() {
		simrt.Y(site)
	}
}

//go:norace
func (simReader) Read(p []byte) (int, error) {
	e := mainEnv
	if t := simrt.Cur(); t != nil {
		yield(-8)
		if d, ok := t.Data.(*env); ok && d != nil {
			e = d
		}
	}
	ent := e.ent
	if ent == nil {
		ent = defaultEnt
		e.ent = ent
	}
	if ent.Stall > 0 && e.stall == 0 && e.off >= ent.Stall-1 && level != "none" && simrt.Active() && simrt.OnStuck != nil {
		// nothing comes until everybody else has done all they can
		e.stall = 1
		stalls++
		for e.stall == 1 {
			simrt.Block()
		}
	}
	e.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if e.failed && ent.Sticky {
		e.mustFail = true
		e.errs[ent.Err&31]++
		return 0, entErrors[ent.Err%len(entErrors)]
	}
	n := len(p)
	if len(ent.Chunks) > 0 {
		c := ent.Chunks[e.chunk%len(ent.Chunks)]
		e.chunk++
		if c == 0 && e.zero < 5 {
			// an empty read without an error is legal
			e.zero++
			e.empties++
			return 0, nil
		}
		e.zero = 0
		if c > 0 && c < n {
			n = c
			e.shorts++
		}
	}
	var err error
	if ent.Fail >= 0 && !e.failed && e.off+n >= ent.Fail {
		n = ent.Fail - e.off
		if n < 0 {
			n = 0
		}
		if n == 0 || ent.With {
			e.failed = true
			err = entErrors[ent.Err%len(entErrors)]
			e.errs[ent.Err&31]++
			if n < len(p) {
				e.mustFail = true
			} else {
				e.softErr = true
			}
		}
	}
	if e.off+n > maxDraw {
		e.hang = true
		panic(hangPanic{})
	}
	for i := 0; i < n; i++ {
		b := e.byteAt(e.off)
		p[i] = b
		e.buf[e.off] = b
		e.off++
	}
	yield(-9)
	return n, err
}
