package main

import (
	"verif.local/sim/simrt"
)

// Spec is one simulated run, written out: everything that happens in the run is
// a function of it and of the code under test.
type Spec struct {
	Prop string    `json:"prop"`
	Scen string    `json:"scen"`
	Run  int       `json:"run"`
	Nets []NetSpec `json:"nets,omitempty"` // networks 2, 3, ...; 0 and 1 are the package's
	// the networks are the objects that earlier runs of this life used, changed by their owner
	Reuse bool `json:"reuse,omitempty"`

	Keys []KeySpec `json:"keys,omitempty"` // private keys all tasks share
	Pubs []KeySpec `json:"pubs,omitempty"` // public keys all tasks share

	Tasks []TaskSpec   `json:"tasks"`
	Sched simrt.Policy `json:"sched"`
	Log   LogPlan      `json:"log,omitempty"`

	Perm uint64 `json:"perm,omitempty"` // order of the words in the caller's own list

	Clock int64 `json:"clock,omitempty"` // where the clock starts

	CPUs int  `json:"cpus,omitempty"` // processors of the machine, as the library sees it
	Warm bool `json:"warm,omitempty"` // the process made a few calls before its first run

	Watch bool       `json:"watch,omitempty"` // check shared objects at every library yield
	Store *StoreSpec `json:"store,omitempty"`
	Party *PartySpec `json:"party,omitempty"`
	Leak  *LeakSpec  `json:"leak,omitempty"`

	Endure *EndureSpec `json:"endure,omitempty"`
}

// NetSpec is a network with its prefixes in hex.
type NetSpec struct {
	Priv string `json:"priv"`
	Pub  string `json:"pub"`
}

// KeySpec is a shared key: a scalar, its network and how it comes to be.
type KeySpec struct {
	K   string `json:"k"`
	Net int    `json:"net"`
	Via string `json:"via,omitempty"` // "", "hex", "wif", "pub", "comp"
}

// TaskSpec is one simulated caller.
type TaskSpec struct {
	Ops []Op `json:"ops"`
}

// Op is one call. Object references: n >= 0 is a shared object, n < 0 the
// result of this task's operation -1-n.
type Op struct {
	K    string `json:"k"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	S    Str    `json:"s,omitempty"`
	T    string `json:"t,omitempty"` // take the text from object A instead: wif, hex, cwif, WIF's lower-case hex, fc, fu, txt
	P    Str    `json:"p,omitempty"`
	Net  int    `json:"net,omitempty"`
	N    int    `json:"n,omitempty"`
	WL   int    `json:"wl,omitempty"`
	C    bool   `json:"c,omitempty"`
	Ent  *Ent   `json:"ent,omitempty"`
	Jump int64  `json:"jump,omitempty"` // the clock jumps by this before the call
	Scr  int    `json:"scr,omitempty"`  // 1: overwrite the result afterwards; 2: call with own copies of the arguments and overwrite those
}

// Ent is what the entropy source does during one call.
type Ent struct {
	Pre    string `json:"pre,omitempty"` // first bytes, hex
	Seed   uint64 `json:"seed"`          // then this stream
	Chunks []int  `json:"chunks,omitempty"`
	Fail   int    `json:"fail"` // byte offset of the error, -1 for none
	Err    int    `json:"err,omitempty"`
	With   bool   `json:"with,omitempty"` // error comes together with the bytes before it
	Sticky bool   `json:"sticky,omitempty"`
	Stall  int    `json:"stall,omitempty"` // the source stalls when it has delivered at least this many bytes, less one
}

// LogPlan is what the log destination does.
type LogPlan struct {
	Fail  int `json:"fail,omitempty"`  // every n-th write fails
	Short int `json:"short,omitempty"` // every n-th write is short
	Stall int `json:"stall,omitempty"` // yields per write
	Std   int `json:"std,omitempty"`   // 1: writes to the standard streams fail
}

// StoreSpec: a wallet on a simulated disk with crashes. The wallet writes a log
// of records; what was not synced when the machine crashes may be lost, torn or
// damaged.
type StoreSpec struct {
	Items []Item      `json:"items"`
	Steps []StoreStep `json:"steps"`
}

// Item is a secret of the wallet: created by a task's operation, observed by the
// following ones.
type Item struct {
	Task int    `json:"task"`
	Op   int    `json:"op"`
	Kind string `json:"kind"` // priv, pub, mnem
	Net  int    `json:"net,omitempty"`
	WL   int    `json:"wl,omitempty"`
	Pass Str    `json:"pass,omitempty"`
	Odd  bool   `json:"odd,omitempty"` // imported from a compressed WIF
}

// StoreStep is one step of the wallet or of the disk.
type StoreStep struct {
	K    string       `json:"k"` // put, sync, syncfail, crash, restore, child, rot
	Item int          `json:"item,omitempty"`
	Fmt  string       `json:"fmt,omitempty"`  // wif, hex, fc, fu, mnem
	Jump int64        `json:"jump,omitempty"` // the clock jumps
	Keep int          `json:"keep,omitempty"` // crash: how many unsynced bytes survive; put: bytes written before the disk is full, 0 for all
	Mut  []Mut        `json:"mut,omitempty"`  // crash: damage to the unsynced tail
	Conc int          `json:"conc,omitempty"` // restore: number of tasks
	Pol  simrt.Policy `json:"pol"`
}

// Mut is one damage to text.
type Mut struct {
	K string `json:"k"`
	I int    `json:"i"`
	J int    `json:"j,omitempty"`
	C string `json:"c,omitempty"`
}

// PartySpec: several parties combining key shares over a simulated network.
type PartySpec struct {
	Shares []string   `json:"shares"`
	Net    []int      `json:"net"` // network of each party
	Comp   []bool     `json:"comp"`
	Acts   []NetAct   `json:"acts,omitempty"`
	Crash  []CrashAct `json:"crash,omitempty"`
	Parts  []PartAct  `json:"parts,omitempty"`
	Orders [][]int    `json:"orders"` // orders in which private shares are combined
	Until  int        `json:"until"`  // faults stop then
}

// NetAct is what happens to the n-th message.
type NetAct struct {
	N     int   `json:"n"`
	Drop  bool  `json:"drop,omitempty"`
	Delay int   `json:"delay,omitempty"`
	Dup   int   `json:"dup,omitempty"`
	Mut   []Mut `json:"mut,omitempty"`
}

// CrashAct crashes a node after some calls of a tick and restarts it later.
type CrashAct struct {
	Node  int `json:"node"`
	At    int `json:"at"`
	After int `json:"after,omitempty"`
	Down  int `json:"down"`
}

// PartAct cuts the network into two sides for a while.
type PartAct struct {
	Side int `json:"side"` // bit mask of nodes on one side
	At   int `json:"at"`
	For  int `json:"for"`
}

// LeakSpec: the same calls on two sets of secrets of the same shape.
type LeakSpec struct {
	B []Op `json:"b"`
}

// EndureSpec: rounds of very many calls in one process.
type EndureSpec struct {
	Kinds []string `json:"kinds"`
	N     int      `json:"n"` // calls per round
	Tasks int      `json:"tasks"`
	Seed  uint64   `json:"seed"`
}

// Violation of a property in a run.
type Violation struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// RunResult is what the worker reports of a run.
type RunResult struct {
	Run      int            `json:"run"`
	Scen     string         `json:"scen"`
	Hash     uint64         `json:"hash"`  // everything observed
	Sched    uint64         `json:"sched"` // the interleaving
	Ops      int            `json:"ops"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"sw"`
	Tasks    int            `json:"tasks"`
	SimTime  int64          `json:"simtime"`
	Viol     *Violation     `json:"viol,omitempty"`
	Trace    []simrt.Switch `json:"trace,omitempty"`
	Sites    []uint64       `json:"sites,omitempty"` // of each switch: site left, site entered
	Spec     *Spec          `json:"spec,omitempty"`
	Faults   int64          `json:"faults"`
}
