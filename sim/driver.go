package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var selfExe string

func simCmd(ctx context.Context, args ...string) *exec.Cmd {
	cmd := exec.CommandContext(ctx, selfExe, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "GOGC=off")
	return cmd
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string     `json:"property"`
	Violation Violation  `json:"violation"`
	Case      *Case      `json:"case,omitempty"`
	Batch     *batchSpec `json:"batch,omitempty"` // fallback: a run that depends on earlier runs in its process
	Seed      uint64     `json:"seed"`
	Original  *Case      `json:"generated_case,omitempty"`
	History   []string   `json:"history,omitempty"`
	Syscalls  []string   `json:"syscalls,omitempty"`
	HowTo     string     `json:"how_to_replay"`
}

type batchSpec struct {
	Seed0, Stride, First, Last uint64
}

const hangLimit = 75 * time.Second

// tryCase runs a case in a fresh process.
func tryCase(c *Case, limit time.Duration) (*tryOut, *Violation) {
	in, _ := json.Marshal(c)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := simCmd(ctx, "try")
	cmd.Stdin = bytes.NewReader(in)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	err := cmd.Run()
	var t tryOut
	if err == nil && json.Unmarshal(out.Bytes(), &t) == nil {
		return &t, t.Vio
	}
	return nil, deathClass(ctx, err, er.String())
}

func deathClass(ctx context.Context, err error, stderr string) *Violation {
	if ctx.Err() != nil {
		return &Violation{"hang", "a simulated run did not end: the code loops without reaching a scheduling point"}
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		return &Violation{"infra", stderr}
	}
	return &Violation{"process-crash", "the process died: " + firstLines(stderr, 12)}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func runBatch(prop string, b *batchSpec) *Violation {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := simCmd(ctx, "worker", "-prop", prop, "-seed0", fmt.Sprint(b.Seed0), "-stride", fmt.Sprint(b.Stride), "-first", fmt.Sprint(b.First), "-last", fmt.Sprint(b.Last), "-budget", "240")
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	err := cmd.Run()
	var o workerOut
	if err == nil && json.Unmarshal(out.Bytes(), &o) == nil {
		return o.Vio
	}
	return deathClass(ctx, err, er.String())
}

func replayMain(args []string) {
	selfExe, _ = os.Executable()
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v *Violation
	if rp.Case != nil {
		var t *tryOut
		t, v = tryCase(rp.Case, hangLimit)
		if t != nil {
			for _, l := range t.Hist {
				fmt.Println("  ", l)
			}
		}
	} else {
		v = runBatch(rp.Property, rp.Batch)
	}
	if v == nil {
		fmt.Println("no violation: the property holds on this replay")
		return
	}
	if v.Class == "infra" {
		fmt.Fprintln(os.Stderr, v.Msg)
		os.Exit(2)
	}
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	os.Exit(1)
}

type found struct {
	v     *Violation
	orig  *Case
	exp   *Case
	batch batchSpec
}

func driverMain(args []string) {
	selfExe, _ = os.Executable()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	budget := fs.Float64("budget", 20, "search seconds")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("scenario", "", "")
	procs := fs.Int("procs", 0, "")
	fs.Parse(args)
	start := time.Now()
	n := *procs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	tmp, err := os.MkdirTemp("", "gostsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	base := *seed * 1_000_000_007
	var mu sync.Mutex
	total := &workerOut{Faults: map[string]int{}, Scen: map[string]int{}, Sys: map[string]int{}}
	var hits []found
	var infraMsg string
	stop := make(chan struct{})
	var once sync.Once
	ctx, cancelAll := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			first := uint64(0)
			for {
				select {
				case <-stop:
					return
				default:
				}
				left := time.Until(deadline).Seconds()
				if left <= 0.05 {
					return
				}
				prog := filepath.Join(tmp, fmt.Sprintf("p%d", w))
				os.WriteFile(prog, make([]byte, 8), 0o644)
				wctx, cancel := context.WithCancel(ctx)
				a := []string{"worker", "-prop", *prop, "-seed0", fmt.Sprint(base + uint64(w)), "-stride", fmt.Sprint(n), "-first", fmt.Sprint(first),
					"-budget", fmt.Sprint(left), "-progress", prog, "-hashes", filepath.Join(tmp, fmt.Sprintf("h%d", w)), "-scenario", *only}
				cmd := simCmd(wctx, a...)
				var out, er bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &er
				if err := cmd.Start(); err != nil {
					mu.Lock()
					infraMsg = err.Error()
					mu.Unlock()
					cancel()
					return
				}
				// hang detection
				wdone := make(chan struct{})
				hung := false
				go func() {
					last, since := uint64(0), time.Now()
					for {
						select {
						case <-wdone:
							return
						case <-time.After(time.Second):
						}
						b, _ := os.ReadFile(prog)
						if len(b) == 8 {
							if x := binary.LittleEndian.Uint64(b); x != last {
								last, since = x, time.Now()
							}
						}
						if time.Since(since) > hangLimit {
							hung = true
							cancel()
							return
						}
					}
				}()
				err := cmd.Wait()
				close(wdone)
				stopped := ctx.Err() != nil
				cancel()
				if stopped {
					return
				}
				var o workerOut
				if err == nil && json.Unmarshal(out.Bytes(), &o) == nil {
					mu.Lock()
					merge(total, &o)
					if o.Vio != nil {
						hits = append(hits, found{o.Vio, o.Case, o.Explicit, batchSpec{base + uint64(w), uint64(n), first, o.Next}})
					}
					mu.Unlock()
					if o.Vio != nil {
						once.Do(func() { close(stop); cancelAll() })
						return
					}
					first = o.Next
					continue
				}
				// the worker died or hung
				b, _ := os.ReadFile(prog)
				var idx uint64
				if len(b) == 8 {
					idx = binary.LittleEndian.Uint64(b)
				}
				var v *Violation
				if hung {
					v = &Violation{"hang", "a simulated run did not end"}
				} else {
					v = deathClass(context.Background(), err, er.String())
				}
				mu.Lock()
				if v.Class == "infra" || idx == 0 {
					infraMsg = v.Msg
				} else {
					c := genCase(*prop, base+uint64(w)+(idx-1)*uint64(n), *only)
					hits = append(hits, found{v, c, nil, batchSpec{base + uint64(w), uint64(n), first, idx}})
				}
				mu.Unlock()
				once.Do(func() { close(stop); cancelAll() })
				return
			}
		}(w)
	}
	wg.Wait()
	cancelAll()
	searchWall := time.Since(start).Seconds()

	// union of the distinct executions seen by the workers
	distinct := map[uint64]struct{}{}
	for w := 0; w < n; w++ {
		b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("h%d", w)))
		for len(b) >= 8 {
			distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
			b = b[8:]
		}
	}
	os.RemoveAll(tmp)

	if infraMsg != "" && len(hits) == 0 {
		fmt.Fprintf(os.Stderr, "check %s could not run: %s\n", *prop, infraMsg)
		os.Exit(2)
	}

	det, detN := "not run", 0
	if len(hits) == 0 {
		det, detN = determinism(*prop, *only, total.Samples)
	}

	// confirm, minimise and report
	var replay string
	unconfirmed := 0
	for _, h := range hits {
		rp := confirm(*prop, h)
		if rp == nil {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "note: seed %d reported %q once, but it did not reproduce in a fresh process\n", h.orig.Seed, h.v.Msg)
			continue
		}
		dir := filepath.Join(*verif, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		replay = filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, rp.Seed))
		rp.HowTo = "bash " + filepath.Join(*verif, "replay.sh") + " " + replay
		j, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(replay, j, 0o644)
		fmt.Printf("%s %s\n", rp.Violation.Class, rp.Violation.Msg)
		fmt.Printf("seed %d; minimised program: %s\n", rp.Seed, progString(rp))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
		break
	}
	violations := 0
	if replay != "" {
		violations = 1
	}
	writeEvidence(*verif, *prop, *tier, *seed, total, len(distinct), searchWall, time.Since(start).Seconds(), violations, unconfirmed, det, detN, n)
	if violations > 0 {
		os.Exit(1)
	}
	fmt.Printf("%s held: %d simulated runs, %d checked operations, %d distinct executions, %.1f simulated s, %.1f s\n", *prop, total.Runs, total.Ops, len(distinct), total.SimS, time.Since(start).Seconds())
}

func progString(rp *Replay) string {
	if rp.Case == nil {
		return "(needs the preceding runs of its batch)"
	}
	j, _ := json.Marshal(rp.Case.Prog)
	f, _ := json.Marshal(rp.Case.Faults.List)
	s := fmt.Sprintf("%s faults %s, %d schedule deviations", j, f, len(rp.Case.Sched.At))
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func merge(t, o *workerOut) {
	t.Runs += o.Runs
	t.Ops += o.Ops
	t.Steps += o.Steps
	t.Decs += o.Decs
	t.Switches += o.Switches
	t.Jumps += o.Jumps
	t.Stalls += o.Stalls
	t.SimS += o.SimS
	t.FaultRuns += o.FaultRuns
	t.Crashes += o.Crashes
	t.Nontrivial += o.Nontrivial
	t.Cut += o.Cut
	t.Samples = append(t.Samples, o.Samples...)
	t.Wall += o.Wall
	for k, v := range o.Faults {
		t.Faults[k] += v
	}
	for k, v := range o.Scen {
		t.Scen[k] += v
	}
	for k, v := range o.Sys {
		t.Sys[k] += v
	}
}

// determinism runs sampled seeds again, in one fresh process and in another
// order, and compares the execution hashes.
func determinism(prop, only string, s []hashRec) (string, int) {
	if len(s) > 60 {
		s = s[:60]
	}
	if len(s) == 0 {
		return "no samples", 0
	}
	var seeds []string
	want := map[uint64]hashRec{}
	for i := len(s) - 1; i >= 0; i-- {
		seeds = append(seeds, strconv.FormatUint(s[i].Seed, 10))
		want[s[i].Seed] = s[i]
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := simCmd(ctx, "seed", "-prop", prop, "-scenario", only, "-seeds", strings.Join(seeds, ","))
	out, err := cmd.Output()
	if err != nil {
		return "could not re-run: " + err.Error(), 0
	}
	n, bad := 0, 0
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		var a, h, st uint64
		if k, _ := fmt.Sscan(l, &a, &h, &st); k == 3 {
			n++
			if w := want[a]; w.Hash != h || w.Steps != st {
				bad++
				fmt.Fprintf(os.Stderr, "note: seed %d is not reproducible (hash %d/%d steps %d/%d)\n", a, w.Hash, h, w.Steps, st)
			}
		}
	}
	if bad > 0 {
		return fmt.Sprintf("%d of %d re-run seeds differed", bad, n), n
	}
	return "all re-run seeds gave the identical execution", n
}

func confirm(prop string, h found) *Replay {
	rp := &Replay{Property: prop, Seed: h.orig.Seed, Original: h.orig}
	limit := hangLimit
	var cur *Case
	var class string
	for _, c := range []*Case{h.exp, h.orig} {
		if c == nil {
			continue
		}
		t, v := tryCase(c, limit)
		if v != nil && v.Class != "infra" {
			cur, class = c, v.Class
			rp.Violation = *v
			if t != nil {
				if t.Exp != nil && c == h.orig {
					if _, v2 := tryCase(t.Exp, limit); v2 != nil && v2.Class == class {
						cur = t.Exp
					}
				}
			}
			break
		}
	}
	if cur == nil {
		b := h.batch
		if v := runBatch(prop, &b); v != nil && v.Class != "infra" {
			rp.Violation = *v
			rp.Batch = &b
			return rp
		}
		return nil
	}
	if class != "hang" {
		cur = minimise(cur, class, 25*time.Second)
	}
	t, v := tryCase(cur, limit)
	if v != nil {
		rp.Violation = *v
	}
	if t != nil {
		rp.History, rp.Syscalls = t.Hist, t.Trace
	}
	rp.Case = cur
	return rp
}

func cloneCase(c *Case) *Case {
	j, _ := json.Marshal(c)
	var d Case
	json.Unmarshal(j, &d)
	return &d
}

// minimise removes threads, operations, faults and scheduling deviations for
// as long as the same kind of violation remains.
func minimise(c *Case, class string, limit time.Duration) *Case {
	end := time.Now().Add(limit)
	var mu sync.Mutex
	_ = &mu
	// attempt runs candidates in parallel and returns the first (in order)
	// that still fails.
	attempt := func(cands []*Case) *Case {
		for len(cands) > 0 && time.Now().Before(end) {
			k := 8
			if k > len(cands) {
				k = len(cands)
			}
			ok := make([]*Case, k)
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					t, v := tryCase(cands[i], 20*time.Second)
					if v != nil && v.Class == class {
						ok[i] = cands[i]
						// adopt the deviations and faults that were really used
						if t != nil && t.Exp != nil && cands[i].Sched.Mode == runtime.SimReplay && cands[i].Faults.Mode == "list" {
							ok[i] = t.Exp
						}
					}
				}(i)
			}
			wg.Wait()
			for _, x := range ok {
				if x != nil {
					return x
				}
			}
			cands = cands[k:]
		}
		return nil
	}
	size := func(c *Case) int {
		n := len(c.Faults.List) + len(c.Sched.At)
		for _, t := range c.Prog.T {
			n += 1 + len(t)
		}
		return n
	}
	for round := 0; round < 12 && time.Now().Before(end); round++ {
		before := size(c)
		// 1. the whole schedule, then all faults
		var cs []*Case
		if len(c.Sched.At) > 0 {
			d := cloneCase(c)
			d.Sched.At, d.Sched.C = nil, nil
			cs = append(cs, d)
		}
		if len(c.Faults.List) > 0 {
			d := cloneCase(c)
			d.Faults.List = nil
			cs = append(cs, d)
		}
		if x := attempt(cs); x != nil {
			c = x
		}
		// 2. threads
		for i := 0; i < len(c.Prog.T); {
			if len(c.Prog.T[i]) == 0 {
				i++
				continue
			}
			d := cloneCase(c)
			d.Prog.T[i] = []Op{}
			if x := attempt([]*Case{d}); x != nil {
				c = x
			}
			i++
		}
		// 3. operations, in shrinking chunks
		for i := range c.Prog.T {
			for ch := (len(c.Prog.T[i]) + 1) / 2; ch >= 1; ch /= 2 {
				for lo := 0; lo < len(c.Prog.T[i]) && time.Now().Before(end); {
					var cs []*Case
					var los []int
					for k := 0; k < 8 && lo+k*ch < len(c.Prog.T[i]); k++ {
						d := cloneCase(c)
						l := lo + k*ch
						h := l + ch
						if h > len(d.Prog.T[i]) {
							h = len(d.Prog.T[i])
						}
						d.Prog.T[i] = append(append([]Op{}, d.Prog.T[i][:l]...), d.Prog.T[i][h:]...)
						cs = append(cs, d)
						los = append(los, l)
					}
					if x := attempt(cs); x != nil {
						c = x
						lo = los[0]
						for k := range cs {
							if len(cs[k].Prog.T[i]) == len(x.Prog.T[i]) {
								break
							}
						}
						// stay at lo: the next chunk has moved here
						if len(cs) == 1 {
							continue
						}
					} else {
						lo += ch * len(cs)
					}
				}
			}
		}
		// 4. faults
		for i := 0; i < len(c.Faults.List); {
			d := cloneCase(c)
			d.Faults.List = append(append([]Fault{}, d.Faults.List[:i]...), d.Faults.List[i+1:]...)
			if x := attempt([]*Case{d}); x != nil && len(x.Faults.List) < len(c.Faults.List) {
				c = x
			} else {
				i++
			}
		}
		// 5. scheduling deviations, in shrinking chunks
		for ch := (len(c.Sched.At) + 1) / 2; ch >= 1; ch /= 2 {
			for lo := 0; lo < len(c.Sched.At) && time.Now().Before(end); {
				d := cloneCase(c)
				h := lo + ch
				if h > len(d.Sched.At) {
					h = len(d.Sched.At)
				}
				d.Sched.At = append(append([]uint64{}, d.Sched.At[:lo]...), d.Sched.At[h:]...)
				d.Sched.C = append(append([]uint32{}, d.Sched.C[:lo]...), d.Sched.C[h:]...)
				if x := attempt([]*Case{d}); x != nil && len(x.Sched.At) < len(c.Sched.At) {
					c = x
				} else {
					lo += ch
				}
			}
		}
		if size(c) >= before {
			break
		}
	}
	return c
}

var realComponents = map[string][]string{
	"common": {"gost library (every statement of /repo's current working tree, plus a scheduling point before each)", "Go standard library (sync, os, io, fmt, time, internal/poll) and runtime channels, semaphores and timers"},
	"stub":   {"thread scheduler (seeded, one processor)", "monotonic and wall clock", "runtime random numbers", "kernel: file system, descriptors, standard streams (in memory)"},
}

func writeEvidence(verif, prop, tier string, seed uint64, t *workerOut, distinct int, searchWall, wall float64, violations, unconfirmed int, det string, detN, procs int) {
	h := searchWall / 3600
	if h == 0 {
		h = 1e-9
	}
	var samples []any
	for i, s := range t.Samples {
		if i >= 6 {
			break
		}
		c := genCase(prop, s.Seed, "")
		pj, _ := json.Marshal(c.Prog)
		fj, _ := json.Marshal(c.Faults)
		if len(pj) > 700 {
			pj = append(pj[:700], "..."...)
		}
		samples = append(samples, fmt.Sprintf("seed %d: scenario %s, execution hash %016x, %d scheduling steps, faults %s, program %s", s.Seed, c.Scenario, s.Hash, s.Steps, fj, pj))
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("seed %d", seed))
	}
	scen := []string{}
	for _, k := range sortedKeys(t.Scen) {
		scen = append(scen, fmt.Sprintf("%s: %d runs", k, t.Scen[k]))
	}
	sort.Strings(scen)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":              t.Runs,
			"distinct_nontrivial":      distinct,
			"rule":                     "evaluations = simulated runs, one seed each (a seed decides scenario, workload, schedule and faults); distinct_nontrivial = distinct execution hashes (scheduling deviations, system calls with their results, operations) among runs with checked operations and more than two context switches or a fired fault",
			"samples":                  samples,
			"simulated_runs":           t.Runs,
			"nontrivial_runs":          t.Nontrivial,
			"runs_cut_for_memory":      t.Cut,
			"runs_and_seeds_per_hour":  int64(float64(t.Runs) / h),
			"checked_operations":       t.Ops,
			"simulated_seconds":        t.SimS,
			"scheduling_steps":         t.Steps,
			"scheduling_decisions":     t.Decs,
			"context_switches":         t.Switches,
			"idle_clock_jumps":         t.Jumps,
			"faults_injected":          t.Faults,
			"thread_stalls_injected":   t.Stalls,
			"runs_with_faults":         t.FaultRuns,
			"process_crashes_injected": t.Crashes,
			"simulated_system_calls":   t.Sys,
			"scenarios":                scen,
			"real_components":          realComponents["common"],
			"stub_components":          realComponents["stub"],
			"determinism_check":        fmt.Sprintf("%s (%d seeds re-run in another process)", det, detN),
			"unconfirmed_reports":      unconfirmed,
			"worker_processes":         procs,
		},
		"assumptions": []string{
			"a scheduling point before every statement of the library and at every simulated system call; the Go runtime and standard library run unpreempted between their blocking operations",
			"sequentially consistent memory (one processor): weak-memory effects of unsynchronised access are seen only as interleavings",
			"the simulated kernel follows Linux semantics for the calls that were made; a process crash keeps all completed writes",
			"seeded search: schedules and faults not drawn by the seeds of this run are not covered",
		},
		"wall_s":     wall,
		"violations": violations,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0o644)
}
