package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gostsim check|worker|run|replay|list ...")
		os.Exit(2)
	}
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "check":
		driverMain(args)
	case "replayfile":
		replayMain(args)
	case "list":
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name, s.Weight)
		}
	case "worker":
		simProcess()
		workerMain(args)
	case "try":
		simProcess()
		tryMain()
	case "seed":
		simProcess()
		seedMain(args)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// simProcess prepares a process for simulated runs: one processor, no
// asynchronous preemption (set by the parent through GODEBUG), no garbage
// collection inside a run.
func simProcess() {
	if runtime.GOMAXPROCS(0) != 1 {
		fmt.Fprintln(os.Stderr, "INFRA: start with GOMAXPROCS=1 GODEBUG=asyncpreemptoff=1")
		os.Exit(3)
	}
	runtime.MemProfileRate = 0
	debug.SetGCPercent(-1)
	debug.SetPanicOnFault(false)
	runtime.GC()
	for i := 0; i < 10; i++ {
		runtime.Gosched()
	}
	installHook()
}

type hashRec struct {
	Seed  uint64
	Hash  uint64
	Steps uint64
}

type workerOut struct {
	Runs, Ops       int
	Steps, Decs     uint64
	Switches, Jumps uint64
	Stalls          uint64
	SimS            float64
	Faults          map[string]int
	FaultRuns       int
	Crashes         int
	Scen            map[string]int
	Sys             map[string]int
	Nontrivial      int
	Cut             int
	Samples         []hashRec
	Next            uint64 // next seed index, for a successor process
	Why             string // "budget", "recycle", "violation"
	Case            *Case  // violating case, as generated
	Explicit        *Case  // violating case, with faults and schedule spelled out
	Vio             *Violation
	Wall            float64
}

func explicit(c *Case, res *Result) *Case {
	d := *c
	d.Faults = FaultPlan{Mode: "list", List: res.Fired}
	if !res.Stats.DevOverflow {
		d.Sched.Mode = runtime.SimReplay
		d.Sched.At = append([]uint64(nil), res.Stats.DevAt...)
		d.Sched.C = append([]uint32(nil), res.Stats.DevC...)
		d.Sched.StallP = 0
		d.Sched.PSwitch, d.Sched.PCTDepth, d.Sched.PCTLen, d.Sched.StallLen = 0, 0, 0, 0
	}
	return &d
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed0 := fs.Uint64("seed0", 1, "")
	stride := fs.Uint64("stride", 1, "")
	first := fs.Uint64("first", 0, "first index")
	last := fs.Uint64("last", 1<<62, "last index (exclusive)")
	budget := fs.Float64("budget", 5, "seconds")
	only := fs.String("scenario", "", "")
	progress := fs.String("progress", "", "")
	hashes := fs.String("hashes", "", "")
	fs.Parse(args)
	var pf *os.File
	if *progress != "" {
		var err error
		if pf, err = os.OpenFile(*progress, os.O_RDWR|os.O_CREATE, 0o644); err != nil {
			infra("%v", err)
		}
	}
	o := &workerOut{Faults: map[string]int{}, Scen: map[string]int{}, Sys: map[string]int{}, Why: "budget"}
	start := time.Now()
	seen := map[uint64]struct{}{}
	var buf [8]byte
	i := *first
	var ms runtime.MemStats
	for ; i < *last; i++ {
		if time.Since(start).Seconds() > *budget {
			break
		}
		seed := *seed0 + i**stride
		if pf != nil {
			binary.LittleEndian.PutUint64(buf[:], i+1)
			pf.WriteAt(buf[:], 0)
		}
		c := genCase(*prop, seed, *only)
		res := runCase(c)
		o.Runs++
		o.Ops += res.Ops
		st := &res.Stats
		o.Steps += st.Steps
		o.Decs += st.Decisions
		o.Switches += st.Switches
		o.Jumps += st.Jumps
		o.Stalls += st.Stalls
		if d := st.Now - simStartMono; d > 0 {
			o.SimS += float64(d) / 1e9
		}
		for _, f := range res.Fired {
			o.Faults[f.Kind]++
		}
		if len(res.Fired) > 0 {
			o.FaultRuns++
		}
		if res.Crashed {
			o.Crashes++
		}
		o.Scen[c.Scenario]++
		for k, n := range res.Syscalls {
			o.Sys[k] += n
		}
		if res.Cut {
			o.Cut++
		}
		if res.Ops > 0 && (st.Switches > 2 || len(res.Fired) > 0) {
			o.Nontrivial++
			if len(seen) < 4_000_000 {
				h := st.Hash ^ mix(uint64(res.Ops)) ^ mix(uint64(len(res.Fired))<<32)
				seen[h] = struct{}{}
			}
		}
		if o.Runs <= 3 || mix(seed)%997 == 0 && len(o.Samples) < 40 {
			o.Samples = append(o.Samples, hashRec{seed, st.Hash, st.Steps})
		}
		if res.Vio != nil {
			o.Why = "violation"
			o.Case = c
			o.Explicit = explicit(c, res)
			o.Vio = res.Vio
			i++
			break
		}
		if o.Runs%256 == 0 || st.Steps > 20000 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 192<<20 {
				runtime.GC()
				for k := 0; k < 20; k++ {
					runtime.Gosched()
				}
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 96<<20 || ms.Sys > 3<<30 || runtime.NumGoroutine() > 30000 {
					o.Why = "recycle"
					i++
					break
				}
			}
		}
	}
	o.Next = i
	o.Wall = time.Since(start).Seconds()
	if *hashes != "" {
		b := make([]byte, 0, len(seen)*8)
		for h := range seen {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		f, err := os.OpenFile(*hashes, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
		if err != nil {
			infra("%v", err)
		}
		f.Write(b)
		f.Close()
	}
	j, _ := json.Marshal(o)
	os.Stdout.Write(append(j, '\n'))
}

type tryOut struct {
	Vio   *Violation
	Exp   *Case
	Hash  uint64
	Steps uint64
	Fired []Fault
	Hist  []string
	Trace []string
}

// tryMain runs the case on standard input and prints what happened.
func tryMain() {
	var c Case
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		infra("%v", err)
	}
	res := runCase(&c)
	j, _ := json.Marshal(tryOut{res.Vio, explicit(&c, res), res.Stats.Hash, res.Stats.Steps, res.Fired, res.Hist, res.Trace})
	os.Stdout.Write(append(j, '\n'))
}

// seedMain runs single seeds and prints them; a debugging aid, and the
// determinism check.
func seedMain(args []string) {
	fs := flag.NewFlagSet("seed", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	only := fs.String("scenario", "", "")
	verbose := fs.Bool("v", false, "")
	seeds := fs.String("seeds", "", "comma separated")
	fs.Parse(args)
	for _, s := range strings.Split(*seeds, ",") {
		var seed uint64
		fmt.Sscan(s, &seed)
		c := genCase(*prop, seed, *only)
		res := runCase(c)
		fmt.Printf("%d %d %d\n", seed, res.Stats.Hash, res.Stats.Steps)
		if *verbose {
			j, _ := json.Marshal(c)
			fmt.Printf("case %s\n", j)
			fmt.Printf("reason=%d ops=%d steps=%d decisions=%d switches=%d live=%d now=%d faults=%v\n", res.Reason, res.Ops, res.Stats.Steps, res.Stats.Decisions, res.Stats.Switches, res.Stats.Goroutines, res.Stats.Now-simStartMono, res.Fired)
			for _, l := range res.Hist {
				fmt.Println("  ", l)
			}
			for _, l := range res.Trace {
				fmt.Println("   sys", l)
			}
			if res.Vio != nil {
				fmt.Printf("VIO %s: %s\n", res.Vio.Class, res.Vio.Msg)
			}
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
