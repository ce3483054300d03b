package main

import (
	"fmt"
	"runtime"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

// ---- P03: threads ----

type thr struct {
	h        gost.JoinHandle
	spawned  bool
	started  int
	finished bool
	effects  int64
	want     int64
	sawFin   bool // some observer has seen IsFinished true
}

type thrWorld struct {
	ts   []*thr
	gate chan struct{}
}

// work is the function run in a spawned thread.
func (r *Run) work(x *thr, kind string, n int64, after func()) func() {
	return func() {
		x.started++
		if x.started != 1 {
			r.fail("once", "the function of one Spawn ran %d times", x.started)
		}
		defer func() {
			if e := recover(); e != nil {
				r.fail("panic", "%v", e)
			}
		}()
		for i := int64(0); i < n; i++ {
			x.effects++
			switch kind {
			case "sleep":
				simSleep(n * 1000)
			case "long":
				simSleep(n * 65_000_000_000)
			case "gsleep":
				gost.Sleep(gost.DurationFromMicros(gost.U64(n)))
			default:
				runtime.SimYield()
			}
		}
		if after != nil {
			after()
		}
		if kind == "goexit" {
			x.finished = true
			runtime.Goexit()
		}
		x.finished = true
	}
}

func (r *Run) isFinished(x *thr, who string) bool {
	before := x.finished
	saw := x.sawFin
	f := x.h.IsFinished()
	r.op("isfinished")
	if f && !x.finished {
		r.fail("early", "%s: IsFinished is true while the thread's function is still running", who)
	}
	if !f && saw {
		r.fail("monotonic", "%s: IsFinished went back from true to false", who)
	}
	_ = before
	if f {
		x.sawFin = true
	}
	return bool(f)
}

func (r *Run) join(x *thr, who string) {
	res := x.h.Join()
	r.op("join")
	if !x.finished {
		r.fail("early", "%s: Join returned while the thread's function was still running", who)
	}
	if x.effects != x.want {
		r.fail("effects", "%s: after Join only %d of %d writes of the thread are visible", who, x.effects, x.want)
	}
	r.check(bool(res.IsOk()), "result", "%s: Join of a finished thread is not Ok", who)
	// Join returned: the thread is finished from now on
	if !r.isFinished(x, who) {
		r.fail("finished", "%s: IsFinished is false after Join returned", who)
	}
}

func init() {
	reg(&Scenario{Prop: "P03", Name: "spawn-join", Weight: 10,
		Gen: func(r *Rand, c *Case) {
			n := r.Many(1, 5, 60)
			var main []Op
			for i := 0; i < n; i++ {
				main = append(main, Op{K: "spawn", A: []int64{int64(i), int64(r.Pick(0, 0, 1, 3, 20))}, S: []string{r.PickS("run", "run", "run", "sleep", "sleep", "gsleep", "gsleep", "goexit", "nested", "nested", "long")}})
				for r.P(1, 3) {
					main = append(main, Op{K: r.PickS("join", "fin", "yield", "sleep"), A: []int64{int64(r.N(i + 1)), int64(r.N(30))}})
				}
			}
			for i, m := 0, r.N(8); i < m; i++ {
				main = append(main, Op{K: r.PickS("join", "join", "fin", "yield", "sleep"), A: []int64{int64(r.N(n)), int64(r.N(30))}})
			}
			c.thread(main...)
			// observers get copies of the handles and use them concurrently
			for t, m := 0, r.N(5); t < m; t++ {
				var ops []Op
				for i, k := 0, r.Range(1, 8); i < k; i++ {
					ops = append(ops, Op{K: r.PickS("join", "fin", "fin", "pollfin", "yield", "sleep"), A: []int64{int64(r.N(n)), int64(r.N(30))}})
				}
				c.thread(ops...)
			}
		},
		Body: func(r *Run) {
			w := &thrWorld{}
			n := 0
			for _, op := range r.Case.Prog.T[0] {
				if op.K == "spawn" && int(op.a(0)) >= n {
					n = int(op.a(0)) + 1
				}
			}
			ready := make([]chan struct{}, n)
			for i := 0; i < n; i++ {
				w.ts = append(w.ts, &thr{})
				ready[i] = make(chan struct{})
			}
			do := func(who string, op Op) {
				if op.K == "yield" {
					yields(op.a(1))
					return
				}
				if op.K == "sleep" {
					simSleep(op.a(1) * 1000)
					return
				}
				i := int(op.a(0))
				if i >= n || !w.ts[i].spawned {
					return
				}
				x := w.ts[i]
				switch op.K {
				case "join":
					r.join(x, who)
				case "fin":
					r.isFinished(x, who)
				case "pollfin":
					after := 0
					for k := 0; !r.isFinished(x, who); k++ {
						// back off, so that lower-priority threads get to run
						simSleep(1000 << min(k, 22))
						if x.finished {
							after++
						}
						if after > 100 {
							r.fail("progress", "IsFinished is still false long after the thread's function ended")
						}
					}
					r.check(x.effects == x.want, "effects", "%s: IsFinished but only %d of %d writes are visible", who, x.effects, x.want)
				}
			}
			left := 0
			done := make(chan struct{})
			obs := r.Case.Prog.T[1:]
			left = len(obs) + 1
			fin := func() {
				left--
				if left == 0 {
					close(done)
				}
			}
			for t := range obs {
				t := t
				r.simGo("an observer", func() {
					for _, op := range obs[t] {
						do(fmt.Sprintf("observer %d", t), op)
					}
					fin()
				})
			}
			for _, op := range r.Case.Prog.T[0] {
				if op.K == "spawn" {
					x := w.ts[op.a(0)]
					if x.spawned {
						continue
					}
					x.want = op.a(1)
					kind := op.s(0)
					var after func()
					if kind == "nested" {
						inner := &thr{want: 2}
						after = func() {
							inner.h = gost.Spawn(r.work(inner, "run", 2, nil))
							r.join(inner, "a spawned thread")
						}
					}
					x.h = gost.Spawn(r.work(x, kind, op.a(1), after))
					x.spawned = true
					r.op("spawn")
				} else {
					do("main", op)
				}
			}
			fin()
			<-done
			// every handle can be joined again at the end, whoever joined before
			for i, x := range w.ts {
				if x.spawned && (i+len(obs))%2 == 0 {
					r.join(x, "main, at the end,")
					r.join(x, "main, once more,")
				}
			}
			r.X = w
		},
		After: func(r *Run, reason int) {
			for i, x := range r.X.(*thrWorld).ts {
				if x.spawned && (x.started != 1 || !x.finished) {
					r.fail("once", "thread %d: its function ran %d times, finished=%v", i, x.started, x.finished)
				}
			}
		}})
	// Spawn does not wait for the function: the function waits for something
	// its spawner does later. IsFinished never blocks either.
	reg(&Scenario{Prop: "P03", Name: "gated", Weight: 4,
		Gen: func(r *Rand, c *Case) {
			c.set("threads", int64(r.Many(1, 6, 12)))
			c.set("joiners", int64(r.N(4)))
			c.set("polls", int64(r.N(5)))
			c.set("drop", int64(r.N(2)))
			c.set("hold", int64(r.Pick(0, 1000, 5000000000, longHold(r))))
		},
		Body: func(r *Run) {
			c := r.Case
			n := int(c.p("threads"))
			gate := make(chan struct{})
			var ts []*thr
			for i := 0; i < n; i++ {
				x := &thr{want: int64(i % 3)}
				f := r.work(x, "run", x.want, nil)
				x.h = gost.Spawn(func() {
					<-gate
					f()
				})
				r.op("spawn")
				ts = append(ts, x)
			}
			left := 0
			joined := make(chan struct{}, 64)
			for j := int64(0); j < c.p("joiners"); j++ {
				for _, x := range ts {
					x := x
					left++
					r.simGo("a joiner", func() {
						r.join(x, "a joiner")
						joined <- struct{}{}
					})
				}
			}
			for k := int64(0); k < c.p("polls"); k++ {
				for _, x := range ts {
					r.check(!r.isFinished(x, "main"), "early", "IsFinished is true although the thread is blocked")
				}
				yields(3)
			}
			simSleep(c.p("hold"))
			close(gate)
			for ; left > 0; left-- {
				<-joined
			}
			if c.p("drop") == 0 {
				for _, x := range ts {
					r.join(x, "main")
				}
			}
			r.X = ts
		},
		After: func(r *Run, reason int) {
			for i, x := range r.X.([]*thr) {
				r.check(x.started == 1 && x.finished, "once", "thread %d never joined: its function ran %d times, finished=%v", i, x.started, x.finished)
			}
		}})
	// a tree of threads, each spawning and joining children
	reg(&Scenario{Prop: "P03", Name: "tree", Weight: 2,
		Gen: func(r *Rand, c *Case) {
			c.set("depth", int64(r.Range(1, 4)))
			c.set("width", int64(r.Range(1, 3)))
			c.set("join", int64(r.N(3)))
		},
		Body: func(r *Run) {
			c := r.Case
			var rec func(d int64) int64
			rec = func(d int64) int64 {
				if d == 0 {
					yields(2)
					return 1
				}
				w := int(c.p("width"))
				sums := make([]int64, w)
				hs := make([]gost.JoinHandle, w)
				for i := 0; i < w; i++ {
					i := i
					hs[i] = gost.Spawn(func() { sums[i] = rec(d - 1) })
				}
				total := int64(1)
				for i := 0; i < w; i++ {
					j := i
					if c.p("join") == 1 {
						j = w - 1 - i
					}
					r.check(bool(hs[j].Join().IsOk()), "result", "Join is not Ok")
					r.op("join")
					r.check(sums[j] != 0, "effects", "the child's result is not visible after Join")
					total += sums[j]
				}
				return total
			}
			got := rec(c.p("depth"))
			want := int64(0)
			p := int64(1)
			for d := int64(0); d <= c.p("depth"); d++ {
				want += p
				p *= c.p("width")
			}
			r.check(got == want, "once", "%d thread functions ran, want %d", got, want)
		}})

	// many threads alive at once, each of which waits for one spawned after it
	reg(&Scenario{Prop: "P03", Name: "crowd", Weight: 1, Gen: genCrowd,
		Body: func(r *Run) {
			r.crowd(func(f func()) func() {
				h := gost.Spawn(f)
				return func() { r.check(bool(h.Join().IsOk()), "result", "Join is not Ok") }
			})
		}})

	// ---- P04: Sleep ----
	reg(&Scenario{Prop: "P04", Name: "sleepers", Weight: 10, AllowLive: true,
		Gen: func(r *Rand, c *Case) {
			for t, n := 0, r.Many(1, 6, 100); t < n; t++ {
				var ops []Op
				for i, m := 0, r.Range(1, 5); i < m; i++ {
					secs, nanos := int64(0), int64(0)
					switch r.W(20, 20, 20, 20, 8) {
					case 0:
						nanos = int64(r.Pick(0, 1, 2, 999, 1000, 999999, 1000000, 999999999, r.N(1000000000)))
					case 1:
						secs, nanos = int64(r.N(100)), int64(r.Pick(0, 1, 5, 500000000, 999999999, r.N(1000000000)))
					case 2:
						secs, nanos = int64(r.Pick(60, 3600, 86400, 31536000, r.N(1<<30))), int64(r.Pick(0, 7, r.N(1000000000)))
					case 3:
						nanos = int64(r.N(1 << 32)) // carries into the seconds
						secs = int64(r.N(10))
					case 4:
						secs, nanos = int64(r.Pick(1<<32, 1<<33, 9223372036, 9223372037, 1<<40, 1<<62)), int64(r.Pick(0, 854775807, 854775808, 999999999))
					}
					k := r.PickS("new", "new", "new", "secs", "millis", "micros", "nanos")
					ops = append(ops, Op{K: k, A: []int64{secs, nanos}})
					if r.P(1, 5) {
						ops = append(ops, Op{K: "wall", A: []int64{int64(r.Pick(-86400, -3600, -1, 1, 3600, 86400*365))}})
					}
				}
				if r.P(1, 10) {
					ops = append(ops, Op{K: r.PickS("nanos", "micros", "millis", "secs"), A: []int64{-1, 0}})
				}
				c.thread(ops...)
			}
			if r.P(1, 3) {
				c.set("busy", int64(r.N(200)))
			}
			c.set("spawn", int64(r.N(2)))
		},
		Body: func(r *Run) {
			c := r.Case
			one := func(t int, ops []Op) {
				for _, op := range ops {
					if op.K == "wall" {
						runtime.SimWallJump(op.a(0) * 1e9)
						r.Fired = append(r.Fired, Fault{At: "wall", Kind: "clockjump", Arg: op.a(0)})
						continue
					}
					s, ns := uint64(op.a(0)), uint64(op.a(1))
					var d gost.Duration
					// wantS, wantN: the requested time
					var wantS, wantN uint64
					switch op.K {
					case "new":
						d = gost.DurationNew(gost.U64(s), gost.U32(ns))
						wantS, wantN = s+ns/1e9, ns%1e9
					case "secs":
						d = gost.DurationFromSecs(gost.U64(s))
						wantS = s
					case "millis":
						m := s*1000 + ns/1e6
						if s >= 1<<54 {
							m = s
						}
						d = gost.DurationFromMillis(gost.U64(m))
						wantS, wantN = m/1000, m%1000*1e6
					case "micros":
						m := s*1000000 + ns/1e3
						if s >= 1<<43 {
							m = s
						}
						d = gost.DurationFromMicros(gost.U64(m))
						wantS, wantN = m/1e6, m%1e6*1e3
					case "nanos":
						m := s*1e9 + ns
						if s >= 1<<33 {
							m = s
						}
						d = gost.DurationFromNanos(gost.U64(m))
						wantS, wantN = m/1e9, m%1e9
					}
					t0, s0 := runtime.SimNow(), runtime.SimSteps()
					gost.Sleep(d)
					el := runtime.SimNow() - t0
					r.op("sleep")
					if wantS > 9000000000 {
						r.fail("early", "Sleep of %d s returned after %d ns", wantS, el)
					}
					want := int64(wantS*1e9 + wantN)
					if el < want {
						r.fail("early", "Sleep(%s %d s + %d ns) returned after %d ns: %d ns too early", op.K, wantS, wantN, el, want-el)
					}
					// time also passes while threads run (tick per step)
					slack := int64(runtime.SimSteps()-s0+16)*c.Sched.Tick + 1000
					if el-want > slack {
						r.fail("late", "Sleep(%s %d s + %d ns) returned %d ns late (at most %d ns of that is the time threads ran)", op.K, wantS, wantN, el-want, slack)
					}
				}
			}
			if n := c.p("busy"); n > 0 {
				r.simGo("a busy thread", func() {
					for i := int64(0); i < n; i++ {
						yields(10)
					}
				})
			}
			for t := range c.Prog.T {
				t := t
				if c.p("spawn") == 1 {
					gost.Spawn(func() {
						defer r.guard("a sleeping thread")
						one(t, c.Prog.T[t])
					})
				} else {
					r.simGo("a sleeping thread", func() { one(t, c.Prog.T[t]) })
				}
			}
		}})

	// ---- P05: futures ----
	regFut()
}

type fut struct {
	started, finished int
	want              int64
	spawned           bool
	await             func(who string)
}

type futBox struct {
	A int64
	S string
	P *int64
}

// mkFut spawns a computation of one of several result types.
func (r *Run) mkFut(x *fut, typ string, n int64, v int64, gate chan struct{}) {
	x.want = v
	comp := func() {
		x.started++
		if x.started != 1 {
			r.fail("once", "the computation of one Spawn ran %d times", x.started)
		}
		if gate != nil {
			<-gate
		}
		yields(n)
		if n > 10 {
			simSleep(n * 100)
		}
	}
	ok := func(b bool, who string, got any) {
		r.op("await")
		if x.finished != 1 {
			r.fail("early", "%s: Await returned before the computation finished", who)
		}
		if !b {
			r.fail("value", "%s: Await returned %v, want the value computed from %d", who, got, v)
		}
	}
	x.spawned = true
	switch typ {
	case "int":
		f := gokio.Spawn(func() int64 { comp(); x.finished++; return v })
		x.await = func(who string) { g := f.Await(); ok(g == v, who, g) }
	case "isize":
		f := gokio.Spawn(func() gost.ISize { comp(); x.finished++; return gost.ISize(v) })
		x.await = func(who string) { g := f.Await(); ok(g == gost.ISize(v), who, g) }
	case "string":
		w := fmt.Sprint("value ", v)
		f := gokio.Spawn(func() string { comp(); x.finished++; return w })
		x.await = func(who string) { g := f.Await(); ok(g == w, who, g) }
	case "struct":
		p := new(int64)
		f := gokio.Spawn(func() futBox { comp(); *p = v; x.finished++; return futBox{v, "s", p} })
		x.await = func(who string) {
			g := f.Await()
			ok(g.A == v && g.S == "s" && g.P == p && *g.P == v, who, g)
		}
	case "ptr":
		f := gokio.Spawn(func() *futBox { comp(); x.finished++; return &futBox{A: v} })
		var first *futBox
		x.await = func(who string) {
			g := f.Await()
			if g == nil {
				ok(false, who, "nil")
				return
			}
			if first == nil {
				first = g
			}
			ok(g.A == v && g == first, who, *g)
		}
	case "slice":
		f := gokio.Spawn(func() []int64 { comp(); x.finished++; return []int64{v, v + 1} })
		x.await = func(who string) { g := f.Await(); ok(len(g) == 2 && g[0] == v && g[1] == v+1, who, g) }
	case "unit":
		f := gokio.Spawn(func() gost.Unit { comp(); x.finished++; return gost.Unit{} })
		x.await = func(who string) { f.Await(); ok(true, who, nil) }
	case "result":
		f := gokio.Spawn(func() gost.Result[gost.I64] {
			comp()
			x.finished++
			if v%2 == 0 {
				return gost.Err[gost.I64](fmt.Errorf("e%d", v))
			}
			return gost.Ok(gost.I64(v))
		})
		x.await = func(who string) {
			g := f.Await()
			if v%2 == 0 {
				ok(bool(g.IsErr()) && g.UnwrapErr().Error() == fmt.Sprint("e", v), who, "wrong result")
			} else {
				ok(bool(g.IsOk()) && g.Unwrap() == gost.I64(v), who, "wrong result")
			}
		}
	case "nilany":
		f := gokio.Spawn(func() any { comp(); x.finished++; return nil })
		x.await = func(who string) { g := f.Await(); ok(g == nil, who, g) }
	}
}

func genCrowd(r *Rand, c *Case) {
	c.set("chain", int64(r.N(2)))
	if c.p("chain") == 1 {
		c.set("n", int64(r.Pick(r.Range(2, 20), r.Range(20, 200), r.Range(200, 1200))))
	} else {
		c.set("n", int64(r.Pick(r.Range(2, 20), r.Range(20, 200))))
	}
	c.set("rounds", int64(r.Pick(1, 1, 2)))
}

// crowd starts n functions; each ends only when one started after it has ended.
// start returns what waits for the end.
func (r *Run) crowd(start func(func()) func()) {
	n := int(r.Case.p("n"))
	for round := int64(0); round < r.Case.p("rounds"); round++ {
		ran := 0
		if r.Case.p("chain") == 1 {
			var link func(i int)
			link = func(i int) {
				if i < n {
					wait := start(func() { link(i + 1) })
					r.op("spawn")
					wait()
					r.op("join")
				}
				ran++
			}
			link(0)
			ran--
		} else {
			gates := make([]chan struct{}, n+1)
			for i := range gates {
				gates[i] = make(chan struct{})
			}
			var waits []func()
			for i := 0; i < n; i++ {
				i := i
				waits = append(waits, start(func() {
					<-gates[i+1]
					ran++
					close(gates[i])
				}))
				r.op("spawn")
			}
			close(gates[n])
			for _, w := range waits {
				w()
				r.op("join")
			}
		}
		r.check(ran == n, "once", "%d of %d functions ran", ran, n)
	}
}

func regFut() {
	reg(&Scenario{Prop: "P05", Name: "crowd", Weight: 1, Gen: genCrowd,
		Body: func(r *Run) {
			k := 0
			r.crowd(func(f func()) func() {
				k++
				v := k
				fu := gokio.Spawn(func() int { f(); return v })
				return func() { r.check(fu.Await() == v, "value", "Await gave another value") }
			})
		}})
	reg(&Scenario{Prop: "P05", Name: "futures", Weight: 10,
		Gen: func(r *Rand, c *Case) {
			n := r.Many(1, 6, 60)
			var main []Op
			typs := []string{"int", "isize", "string", "struct", "ptr", "slice", "unit", "result", "nilany"}
			for i := 0; i < n; i++ {
				main = append(main, Op{K: "spawn", A: []int64{int64(i), int64(r.Pick(0, 0, 1, 4, 30)), int64(r.N(1000))}, S: []string{r.PickS(typs...)}})
				for r.P(1, 3) {
					main = append(main, Op{K: r.PickS("await", "yield", "sleep"), A: []int64{int64(r.N(i + 1)), int64(r.N(30))}})
				}
			}
			for i, m := 0, r.N(8); i < m; i++ {
				main = append(main, Op{K: r.PickS("await", "await", "yield", "sleep"), A: []int64{int64(r.N(n)), int64(r.N(30))}})
			}
			c.thread(main...)
			for t, m := 0, r.N(5); t < m; t++ {
				var ops []Op
				for i, k := 0, r.Range(1, 6); i < k; i++ {
					ops = append(ops, Op{K: r.PickS("await", "await", "yield", "sleep"), A: []int64{int64(r.N(n)), int64(r.N(30))}})
				}
				c.thread(ops...)
			}
		},
		Body: func(r *Run) {
			n := 0
			for _, op := range r.Case.Prog.T[0] {
				if op.K == "spawn" && int(op.a(0)) >= n {
					n = int(op.a(0)) + 1
				}
			}
			fs := make([]*fut, n)
			for i := range fs {
				fs[i] = &fut{}
			}
			do := func(who string, op Op) {
				switch op.K {
				case "yield":
					yields(op.a(1))
				case "sleep":
					simSleep(op.a(1) * 1000)
				case "await":
					if i := int(op.a(0)); i < n && fs[i].await != nil {
						fs[i].await(who)
					}
				}
			}
			obs := r.Case.Prog.T[1:]
			left := len(obs) + 1
			done := make(chan struct{})
			fin := func() {
				left--
				if left == 0 {
					close(done)
				}
			}
			for t := range obs {
				t := t
				r.simGo("an awaiting thread", func() {
					for _, op := range obs[t] {
						do(fmt.Sprintf("thread %d", t), op)
					}
					fin()
				})
			}
			for _, op := range r.Case.Prog.T[0] {
				if op.K == "spawn" {
					if x := fs[op.a(0)]; !x.spawned {
						r.mkFut(x, op.s(0), op.a(1), op.a(2), nil)
						r.op("spawn")
					}
				} else {
					do("main", op)
				}
			}
			fin()
			<-done
			r.X = fs
		},
		After: func(r *Run, reason int) {
			for i, x := range r.X.([]*fut) {
				if x.spawned {
					r.check(x.started == 1 && x.finished == 1, "once", "future %d: its computation started %d times and finished %d times", i, x.started, x.finished)
				}
			}
		}})
	// the computation waits for something done after Spawn returned; awaiters
	// wait for the computation
	reg(&Scenario{Prop: "P05", Name: "gated", Weight: 4,
		Gen: func(r *Rand, c *Case) {
			c.set("n", int64(r.Range(1, 5)))
			c.set("awaiters", int64(r.N(4)))
			c.set("typ", int64(r.N(7)))
			c.set("hold", int64(r.Pick(0, 1000, 5000000000, longHold(r))))
			c.set("again", int64(r.N(3)))
		},
		Body: func(r *Run) {
			c := r.Case
			typs := []string{"int", "isize", "string", "struct", "ptr", "slice", "result"}
			gate := make(chan struct{})
			var fs []*fut
			for i := int64(0); i < c.p("n"); i++ {
				x := &fut{}
				r.mkFut(x, typs[(c.p("typ")+i)%7], i*3, 100+i, gate)
				fs = append(fs, x)
				r.op("spawn")
			}
			left := 0
			got := make(chan struct{}, 64)
			for j := int64(0); j < c.p("awaiters"); j++ {
				for _, x := range fs {
					x := x
					left++
					r.simGo("an awaiting thread", func() {
						x.await("an awaiting thread")
						got <- struct{}{}
					})
				}
			}
			yields(10)
			simSleep(c.p("hold"))
			close(gate)
			for ; left > 0; left-- {
				<-got
			}
			for k := int64(0); k < c.p("again"); k++ {
				for _, x := range fs {
					x.await("main")
				}
			}
			r.X = fs
		},
		After: func(r *Run, reason int) {
			for i, x := range r.X.([]*fut) {
				r.check(x.started == 1 && x.finished == 1, "once", "future %d: its computation started %d times and finished %d times", i, x.started, x.finished)
			}
		}})
}
