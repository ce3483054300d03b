package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

// Op is one operation of a workload thread.
type Op struct {
	K string   `json:"k"`
	A []int64  `json:"a,omitempty"`
	S []string `json:"s,omitempty"`
}

func (o Op) a(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

func (o Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Program is the explicit workload of one run: a scenario's parameters and the
// operations of each of its threads.
type Program struct {
	P map[string]int64 `json:"p,omitempty"`
	T [][]Op           `json:"t"`
}

// Fault is one injected fault, placed at the n-th occurrence of a fault point
// ("write#3").
type Fault struct {
	At   string `json:"at"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg,omitempty"`
}

// FaultPlan either draws faults from the seed or, in a replay, lists them.
type FaultPlan struct {
	Mode  string   `json:"mode"` // "none", "seed", "list"
	Rate  int      `json:"rate,omitempty"`
	Max   int      `json:"max,omitempty"`
	Kinds []string `json:"kinds,omitempty"`
	List  []Fault  `json:"list,omitempty"`
}

type Sched struct {
	Mode     int      `json:"mode"`
	PSwitch  uint32   `json:"pswitch,omitempty"`
	PCTDepth int      `json:"pctdepth,omitempty"`
	PCTLen   uint64   `json:"pctlen,omitempty"`
	StallP   uint32   `json:"stallp,omitempty"`
	StallLen uint64   `json:"stalllen,omitempty"`
	Tick     int64    `json:"tick,omitempty"`
	At       []uint64 `json:"at,omitempty"`
	C        []uint32 `json:"c,omitempty"`
}

// Case is one exactly repeatable simulated run.
type Case struct {
	Prop     string    `json:"property"`
	Scenario string    `json:"scenario"`
	Seed     uint64    `json:"seed"`
	Prog     Program   `json:"program"`
	Faults   FaultPlan `json:"faults"`
	Sched    Sched     `json:"sched"`
	MaxSteps uint64    `json:"max_steps"`

	big int64 // size of the one large file of the run
}

func (c *Case) p(name string) int64 { return c.Prog.P[name] }

func (c *Case) set(name string, v int64) {
	if c.Prog.P == nil {
		c.Prog.P = map[string]int64{}
	}
	c.Prog.P[name] = v
}

func (c *Case) thread(ops ...Op) { c.Prog.T = append(c.Prog.T, ops) }

// faults chooses a fault plan: none in about half of the runs, otherwise a
// random subset of the given kinds at a random rate.
func (c *Case) genFaults(r *Rand, kinds ...string) {
	c.Faults = FaultPlan{Mode: "none"}
	if r.P(9, 20) || len(kinds) == 0 {
		return
	}
	var ks []string
	for len(ks) == 0 {
		for _, k := range kinds {
			if r.P(1, 2) {
				ks = append(ks, k)
			}
		}
	}
	c.Faults = FaultPlan{Mode: "seed", Rate: r.Pick(10, 40, 120, 300), Max: r.Pick(1, 1, 2, 4, 1000), Kinds: ks}
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Scenario struct {
	Prop   string
	Name   string
	Weight int
	Gen    func(r *Rand, c *Case)
	Body   func(r *Run)
	// Crash runs in the controller after an injected crash.
	Crash func(r *Run)
	// Restart, if set, is the body of the process started after a crash.
	Restart func(r *Run)
	// After runs in the controller once the run has gone quiet.
	After     func(r *Run, reason int)
	AllowLive bool // threads may legitimately still be blocked at the end
}

var scenarios []*Scenario

func reg(s *Scenario) { scenarios = append(scenarios, s) }

type Run struct {
	Case *Case
	Sc   *Scenario
	K    *Kernel

	Vio     *Violation
	Fired   []Fault
	fcount  map[string]int
	frng    *Rand
	crashed bool

	Rng  *Rand // for the body
	Ops  int   // operations whose outcome was checked
	Hist []string
	done bool

	noStdFaults bool
	faultsOff   bool // after a crash, no further faults are injected
	X           any  // scenario state
}

func (r *Run) logf(f string, a ...any) {
	if len(r.Hist) < 3000 {
		r.Hist = append(r.Hist, fmt.Sprintf("[g%d t=%d] ", runtime.SimGoid(), runtime.SimNow()-simStartMono)+fmt.Sprintf(f, a...))
	}
}

// fail records the violation and stops the run. From a thread of the run it
// does not return.
func (r *Run) fail(class, f string, a ...any) {
	if r.Vio == nil {
		r.Vio = &Violation{class, fmt.Sprintf(f, a...)}
	}
	runtime.SimKill()
}

func (r *Run) check(ok bool, class, f string, a ...any) {
	if !ok {
		r.fail(class, f, a...)
	}
}

func (r *Run) op(k string) {
	r.Ops++
	h := uint64(0)
	for i := 0; i < len(k); i++ {
		h = h*131 + uint64(k[i])
	}
	runtime.SimNote(h<<8 ^ runtime.SimGoid())
}

// fault is a fault point. kinds are the faults that make sense here.
func (r *Run) fault(name string, kinds []string) *Fault {
	n := r.fcount[name]
	r.fcount[name] = n + 1
	if r.faultsOff {
		return nil
	}
	plan := &r.Case.Faults
	switch plan.Mode {
	case "list":
		at := fmt.Sprintf("%s#%d", name, n)
		for i := range plan.List {
			if plan.List[i].At == at {
				f := plan.List[i]
				ok := false
				for _, k := range kinds {
					ok = ok || k == f.Kind
				}
				if !ok {
					return nil
				}
				r.Fired = append(r.Fired, f)
				r.logf("FAULT %s %s", f.At, f.Kind)
				return &f
			}
		}
		return nil
	case "seed":
		x := r.frng.U64()
		if int(x%1000) >= plan.Rate || len(r.Fired) >= plan.Max {
			return nil
		}
		var ok []string
		for _, k := range kinds {
			for _, e := range plan.Kinds {
				if k == e {
					ok = append(ok, k)
				}
			}
		}
		if len(ok) == 0 {
			return nil
		}
		f := Fault{At: fmt.Sprintf("%s#%d", name, n), Kind: ok[r.frng.N(len(ok))], Arg: int64(r.frng.N(1 << 20))}
		if f.Kind == "delay" {
			f.Arg = int64(r.frng.N(10)) * int64(r.frng.Pick(1000, 1000000, 1000000000))
		}
		r.Fired = append(r.Fired, f)
		r.logf("FAULT %s %s", f.At, f.Kind)
		return &f
	}
	return nil
}

func (r *Run) crash() {
	r.crashed = true
	r.logf("CRASH")
	runtime.SimKill()
	for {
		runtime.SimYield()
	}
}

// guard turns a panic of code under test into a violation.
func (r *Run) guard(what string) {
	if e := recover(); e != nil {
		r.fail("panic", "%s panicked: %v\n%s", what, e, trimStack(debug.Stack()))
	}
}

func trimStack(b []byte) string {
	var keep []string
	l := strings.Split(string(b), "\n")
	for i := 0; i+1 < len(l); i++ {
		if strings.Contains(l[i+1], "/repo/") && !strings.HasPrefix(l[i], "\t") {
			keep = append(keep, strings.TrimSpace(l[i])+" "+strings.TrimSpace(l[i+1]))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, "\n")
}

// simGo starts a harness thread that is not under test.
func (r *Run) simGo(what string, f func()) {
	go func() {
		defer r.guard(what)
		f()
	}()
}

func simSleep(d int64) { time.Sleep(time.Duration(d)) }

func yields(n int64) {
	for i := int64(0); i < n; i++ {
		runtime.SimYield()
	}
}

const simStartMono = int64(1_000_000_000)
const simStartWall = int64(1_700_000_000_000_000_000)

type Result struct {
	Vio      *Violation
	Fired    []Fault
	Stats    runtime.SimStats
	Reason   int
	Cut      bool // out of memory for garbage: not judged
	Ops      int
	Crashed  bool
	Hist     []string
	Trace    []string
	Syscalls map[string]int
}

// heldMax is what a run that hit the memory limit may still hold after a
// collection before it counts as allocating without end.
const heldMax = 512 << 20

func findScenario(prop, name string) *Scenario {
	for _, s := range scenarios {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// runCase executes one case. It must be called on the main goroutine, with
// GOMAXPROCS=1.
func runCase(c *Case) *Result {
	sc := findScenario(c.Prop, c.Scenario)
	if sc == nil {
		infra("no scenario %s/%s", c.Prop, c.Scenario)
	}
	r := &Run{Case: c, Sc: sc, fcount: map[string]int{}, frng: NewRand(c.Seed ^ 0xfa17), Rng: NewRand(c.Seed ^ 0xb0d1)}
	r.K = newKernel(r)
	theKernel = r.K
	s := &c.Sched
	cfg := &runtime.SimConfig{Seed: c.Seed, Mode: s.Mode, PSwitch: s.PSwitch, PCTDepth: s.PCTDepth, PCTLen: s.PCTLen,
		StallP: s.StallP, StallLen: s.StallLen, MaxSteps: c.MaxSteps, Tick: s.Tick, Start: simStartMono, Wall: simStartWall,
		RepAt: s.At, RepC: s.C}
	in, out, er := os.Stdin, os.Stdout, os.Stderr
	runtime.SimStart(cfg)
	os.Stdin = os.NewFile(fdStdin, "/dev/stdin")
	os.Stdout = os.NewFile(fdStdout, "/dev/stdout")
	os.Stderr = os.NewFile(fdStderr, "/dev/stderr")
	body := func(f func(*Run)) {
		go func() {
			defer r.guard("the workload")
			f(r)
			r.done = true
		}()
	}
	body(sc.Body)
	reason := runtime.SimWait()
	if r.crashed && r.Vio == nil {
		r.crashed = true
		if sc.Crash != nil {
			sc.Crash(r)
		}
		if sc.Restart != nil && r.Vio == nil {
			r.done = false
			r.faultsOff = true
			r.K.restart()
			runtime.SimRestart()
			os.Stdin = os.NewFile(fdStdin, "/dev/stdin")
			os.Stdout = os.NewFile(fdStdout, "/dev/stdout")
			body(sc.Restart)
			reason = runtime.SimWait()
		}
	}
	bloat := false
	if r.Vio == nil {
		switch {
		case reason == runtime.SimOverrun:
			r.fail("livelock", "no progress: the run did not finish within %d scheduling steps", c.MaxSteps)
		case reason == runtime.SimBloat:
			bloat = true // judged below, once the garbage is gone
		case reason == runtime.SimIdle && !r.done:
			r.fail("deadlock", "the run stopped with %d thread(s) blocked for ever and nothing left to wake them", runtime.SimLive())
		case reason == runtime.SimIdle && !sc.AllowLive && runtime.SimLive() > 0:
			r.fail("leak", "%d thread(s) are still blocked after all work was done", runtime.SimLive())
		}
	}
	if r.Vio == nil && sc.After != nil && !bloat {
		func() {
			defer r.guard("the final check")
			sc.After(r, reason)
		}()
	}
	res := &Result{Vio: r.Vio, Fired: r.Fired, Reason: reason, Ops: r.Ops, Crashed: r.crashed, Hist: r.Hist, Trace: r.K.Trace, Syscalls: r.K.Calls}
	runtime.SimStop(&res.Stats)
	os.Stdin, os.Stdout, os.Stderr = in, out, er
	theKernel = nil
	if bloat {
		// nothing is collected during a run; what counts is what it still holds
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heldMax {
			r.fail("livelock", "no progress: the run allocates memory without end")
			res.Vio = r.Vio
		} else {
			res.Cut = true
		}
		runtime.KeepAlive(r)
	}
	return res
}

// restart gives the kernel a new process: descriptors gone, files kept.
func (k *Kernel) restart() {
	k.fds = map[int]*openFile{fdStdin: {std: 1}, fdStdout: {std: 2}, fdStderr: {std: 3}}
	k.umask, k.cwd, k.cwdPath = k.umask0, k.cwd0, k.cwdPath0
}

// genCase derives a complete case from a seed.
func genCase(prop string, seed uint64, only string) *Case {
	r := NewRand(seed*0x9e3779b97f4a7c15 ^ fnv([]byte(prop)))
	var ws []int
	var ss []*Scenario
	for _, s := range scenarios {
		if s.Prop == prop && (only == "" || only == s.Name) {
			ss = append(ss, s)
			ws = append(ws, s.Weight)
		}
	}
	if len(ss) == 0 {
		infra("no scenario for %s %s", prop, only)
	}
	sc := ss[r.W(ws...)]
	c := &Case{Prop: prop, Scenario: sc.Name, Seed: seed, MaxSteps: 10_000_000}
	c.Faults.Mode = "none"
	switch r.W(10, 25, 20, 10, 35) {
	case 0:
		c.Sched = Sched{Mode: runtime.SimRandom, PSwitch: 0}
	case 1:
		c.Sched = Sched{Mode: runtime.SimRandom, PSwitch: uint32(r.Pick(200, 1000, 3000))}
	case 2:
		c.Sched = Sched{Mode: runtime.SimRandom, PSwitch: uint32(r.Pick(8000, 20000))}
	case 3:
		c.Sched = Sched{Mode: runtime.SimRandom, PSwitch: 50000}
	case 4:
		c.Sched = Sched{Mode: runtime.SimPCT, PCTDepth: r.N(6), PCTLen: uint64(r.Pick(30, 100, 300, 1000, 4000))}
	}
	if c.Sched.Mode == runtime.SimRandom && r.P(1, 4) {
		c.Sched.StallP = uint32(r.Pick(50, 300, 1500))
		c.Sched.StallLen = uint64(r.Pick(10, 100, 1000))
	}
	c.Sched.Tick = int64(r.Pick(0, 1, 1, 100, 10000))
	sc.Gen(r, c)
	return c
}
