package main

import (
	"runtime"

	"github.com/myyrakle/gost"
)

// ---- P01: mutual exclusion and visibility ----

type guarded struct {
	A, B int64
	Log  []int64
	M    map[int64]int64
}

// lockBox is the harness's view of one mutex and its shadow state.
type lockBox struct {
	mu      *gost.Mutex[guarded]
	holder  uint64 // 0 none, else goid+1
	holders int
	ver     int64
	log     []int64
	inAny   int // threads inside any mutex call
	calls   int // mutex calls started
	acq     int
}

func (r *Run) enter(b *lockBox, g *guarded, who string) {
	b.holders++
	if b.holders != 1 {
		r.fail("exclusion", "%d threads hold the mutex at once (%s got it while it was held)", b.holders, who)
	}
	b.holder = runtime.SimGoid() + 1
	b.acq++
	r.op("acquire")
	if g == nil {
		r.fail("value", "%s got a nil pointer to the protected value", who)
	}
	r.seen(b, g, who)
}

func (r *Run) seen(b *lockBox, g *guarded, who string) {
	if g.A != b.ver || g.B != b.ver*3+1 {
		r.fail("visibility", "%s sees A=%d B=%d, the last holder left version %d (B=%d)", who, g.A, g.B, b.ver, b.ver*3+1)
	}
	if len(g.Log) != len(b.log) {
		r.fail("visibility", "%s sees %d log entries, previous holders appended %d", who, len(g.Log), len(b.log))
	}
	for i := range b.log {
		if g.Log[i] != b.log[i] {
			r.fail("visibility", "%s: log[%d]=%d, want %d", who, i, g.Log[i], b.log[i])
		}
	}
	if g.M[7] != b.ver {
		r.fail("visibility", "%s: map entry %d, want %d", who, g.M[7], b.ver)
	}
}

// update changes the value in several steps, with scheduling points between.
func (r *Run) update(b *lockBox, g *guarded, n int64, v int64) {
	a := g.A
	yields(n)
	g.A = a + 1
	yields(n)
	g.B = g.A*3 + 1
	yields(n)
	g.Log = append(g.Log, v)
	g.M[7] = g.A
	b.ver++
	b.log = append(b.log, v)
	yields(n)
	r.seen(b, g, "the holder itself, after updating,")
}

func (r *Run) leave(b *lockBox) {
	b.holders--
	b.holder = 0
}

func newBoxes(n int) []*lockBox {
	var bs []*lockBox
	for i := 0; i < n; i++ {
		mu := gost.MutexNew(guarded{B: 1, M: map[int64]int64{}})
		bs = append(bs, &lockBox{mu: &mu})
	}
	return bs
}

func (r *Run) lockOp(b *lockBox, op Op, t int, tryMust bool) {
	v := int64(t)<<32 | int64(b.ver)
	switch op.K {
	case "lock", "locksleep", "lockpanic":
		b.inAny++
		b.calls++
		g := b.mu.Lock()
		b.inAny--
		r.enter(b, g, "Lock")
		crit := func() {
			defer func() {
				r.leave(b)
				b.inAny++
				b.calls++
				b.mu.Unlock()
				b.inAny--
				if e := recover(); e != nil && e != "workload" {
					panic(e)
				}
			}()
			r.update(b, g, op.a(1), v)
			if op.K == "locksleep" {
				simSleep(op.a(2))
				r.seen(b, g, "the holder itself, after sleeping,")
			}
			if op.K == "lockpanic" {
				panic("workload")
			}
		}
		crit()
	case "try":
		b.inAny++
		b.calls++
		busyBefore := b.inAny > 1
		held := b.holders > 0
		h0, a0 := b.holder, b.acq
		c0 := b.calls
		res := b.mu.TryLock()
		// reading the result runs library code, so other threads may run before
		// this one is recorded as the holder: it still counts as in the call
		if res.IsOk() == res.IsErr() {
			r.fail("trylock", "TryLock result is neither Ok nor Err")
		}
		r.op("try")
		if res.IsErr() {
			b.inAny--
			if tryMust && !busyBefore && !held && a0 == b.acq && c0 == b.calls && b.inAny == 0 && b.holders == 0 {
				r.fail("trylock", "TryLock failed although no thread held or was acquiring the mutex")
			}
			return
		}
		if held && h0 == b.holder && a0 == b.acq {
			r.fail("exclusion", "TryLock succeeded although another thread held the mutex throughout")
		}
		g := res.Unwrap()
		b.inAny--
		r.enter(b, g, "TryLock")
		r.update(b, g, op.a(1), v)
		r.leave(b)
		b.inAny++
		b.calls++
		b.mu.Unlock()
		b.inAny--
	case "sleep":
		simSleep(op.a(1))
	case "yield":
		yields(op.a(1))
	}
}

// longHold is how long a thread may keep a mutex at the longest: minutes, days,
// or years.
func longHold(r *Rand) int {
	return r.Pick(11, 61, 301, 3601, 90000, 10000000) * r.Pick(1, 1000, 1000000) * 1000
}

func genLockProg(r *Rand, c *Case, withPanic bool) {
	nb := int64(r.Pick(1, 1, 1, 2, 3))
	if r.N(40) == 0 {
		nb = int64(r.Pick(8, 33, 100, 300, 1100))
	}
	c.set("boxes", nb)
	nt := r.Many(2, 6, 90)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.Pick(1, 2, 3, 6, r.Many(7, 15, 700/nt)); i < n; i++ {
			b := int64(r.N(int(nb)))
			y := int64(r.Pick(0, 1, 1, 2, 5))
			switch r.W(50, 25, 10, 6, 6, 3) {
			case 0:
				ops = append(ops, Op{K: "lock", A: []int64{b, y}})
			case 1:
				ops = append(ops, Op{K: "try", A: []int64{b, y}})
			case 2:
				ops = append(ops, Op{K: "locksleep", A: []int64{b, y, int64(r.Pick(0, 1, 1000, 1500000, 50000000, 50000000, longHold(r)))}})
			case 3:
				ops = append(ops, Op{K: "sleep", A: []int64{b, int64(r.Pick(0, 1, 1000, 2000000))}})
			case 4:
				ops = append(ops, Op{K: "yield", A: []int64{b, int64(r.N(20))}})
			case 5:
				ops = append(ops, Op{K: "lockpanic", A: []int64{b, y}})
			}
		}
		c.thread(ops...)
	}
}

func runThreads(r *Run, f func(t int, ops []Op)) {
	left := len(r.Case.Prog.T)
	done := make(chan struct{})
	if left == 0 {
		return
	}
	for t := range r.Case.Prog.T {
		t := t
		r.simGo("a workload thread", func() {
			f(t, r.Case.Prog.T[t])
			left--
			if left == 0 {
				close(done)
			}
		})
	}
	<-done
}

func init() {
	reg(&Scenario{Prop: "P01", Name: "critical-sections", Weight: 10,
		Gen: func(r *Rand, c *Case) { genLockProg(r, c, true) },
		Body: func(r *Run) {
			bs := newBoxes(int(r.Case.p("boxes")))
			runThreads(r, func(t int, ops []Op) {
				for _, op := range ops {
					r.lockOp(bs[int(op.a(0))%len(bs)], op, t, false)
				}
			})
			for i, b := range bs {
				g := b.mu.Lock()
				r.enter(b, g, "the last Lock")
				r.leave(b)
				b.mu.Unlock()
				_ = i
			}
		}})
	// one lock handed over by the thread that did not take it, and nesting of
	// several locks in a fixed order
	reg(&Scenario{Prop: "P01", Name: "nested", Weight: 3,
		Gen: func(r *Rand, c *Case) {
			c.set("boxes", int64(r.Range(2, 4)))
			for t, n := 0, r.Many(2, 5, 70); t < n; t++ {
				var ops []Op
				for i, m := 0, r.Range(1, 6); i < m; i++ {
					ops = append(ops, Op{K: "nest", A: []int64{int64(r.N(16)), int64(r.N(3)), int64(r.N(4))}})
				}
				c.thread(ops...)
			}
		},
		Body: func(r *Run) {
			bs := newBoxes(int(r.Case.p("boxes")))
			runThreads(r, func(t int, ops []Op) {
				for _, op := range ops {
					var held []*lockBox
					var gs []*guarded
					for i, b := range bs {
						if op.a(0)>>i&1 == 1 {
							g := b.mu.Lock()
							r.enter(b, g, "Lock")
							held = append(held, b)
							gs = append(gs, g)
						}
					}
					for i, b := range held {
						r.update(b, gs[i], op.a(1), int64(t))
					}
					for i := range held {
						j := len(held) - 1 - i
						if op.a(2)&1 == 1 {
							j = i
						}
						r.seen(held[j], gs[j], "the holder, before unlocking,")
						r.leave(held[j])
						held[j].mu.Unlock()
					}
				}
			})
		}})
	reg(&Scenario{Prop: "P01", Name: "value-types", Weight: 2,
		Gen: func(r *Rand, c *Case) {
			for t, n := 0, r.Many(2, 5, 70); t < n; t++ {
				var ops []Op
				for i, m := 0, r.Range(1, 8); i < m; i++ {
					ops = append(ops, Op{K: r.PickS("int", "string", "vec", "ptr", "unit"), A: []int64{int64(r.N(4)), int64(r.N(2))}})
				}
				c.thread(ops...)
			}
		},
		Body: func(r *Run) {
			mi := gost.MutexNew[gost.ISize](5)
			ms := gost.MutexNew[gost.String]("")
			mv := gost.MutexNew(gost.VecNew[gost.I32]())
			cell := new(int64)
			mp := gost.MutexNew(cell)
			mu := gost.MutexNew(gost.Unit{})
			ni, ns, nv, np := int64(5), "", []int64{}, int64(0)
			in := map[string]int{}
			enter := func(k string) {
				in[k]++
				r.check(in[k] == 1, "exclusion", "%d threads hold the %s mutex at once", in[k], k)
			}
			// a plain increment by several threads loses updates unless excluded
			runThreads(r, func(t int, ops []Op) {
				for _, op := range ops {
					y := op.a(0)
					r.op(op.K)
					switch op.K {
					case "int":
						var p *gost.ISize
						if op.a(1) == 1 {
							if q := mi.TryLock(); q.IsOk() {
								p = q.Unwrap()
							}
						}
						if p == nil && op.a(1) == 1 {
							continue
						}
						if p == nil {
							p = mi.Lock()
						}
						enter("int")
						v := *p
						r.check(int64(v) == ni, "visibility", "the holder sees %d, want %d", v, ni)
						yields(y)
						*p = v + 1
						ni++
						in["int"]--
						mi.Unlock()
					case "string":
						p := ms.Lock()
						enter("string")
						v := *p
						yields(y)
						r.check(string(*p) == ns, "visibility", "the holder sees %q, want %q", *p, ns)
						*p = v + gost.String(rune('a'+t))
						ns += string(rune('a' + t))
						in["string"]--
						ms.Unlock()
					case "vec":
						p := mv.Lock()
						enter("vec")
						yields(y)
						p.Push(gost.I32(len(nv)))
						nv = append(nv, int64(len(nv)))
						yields(y)
						r.check(int(p.Len()) == len(nv), "visibility", "the shared Vec has %d elements, want %d", p.Len(), len(nv))
						in["vec"]--
						mv.Unlock()
					case "ptr":
						p := mp.Lock()
						enter("ptr")
						r.check(*p == cell, "value", "the protected pointer changed")
						v := **p
						yields(y)
						**p = v + 1
						np++
						r.check(**p == np, "visibility", "counter %d, want %d", **p, np)
						in["ptr"]--
						mp.Unlock()
					case "unit":
						mu.Lock()
						enter("unit")
						yields(y)
						in["unit"]--
						mu.Unlock()
					}
				}
			})
			r.check(int64(*mi.Lock()) == ni, "visibility", "final counter is not %d", ni)
			r.check(string(*ms.Lock()) == ns, "visibility", "final string is not %q", ns)
		}})

	// ---- P02: progress, TryLock ----
	reg(&Scenario{Prop: "P02", Name: "trylock-exact", Weight: 6,
		Gen: func(r *Rand, c *Case) { genLockProg(r, c, true) },
		Body: func(r *Run) {
			bs := newBoxes(int(r.Case.p("boxes")))
			runThreads(r, func(t int, ops []Op) {
				for _, op := range ops {
					r.lockOp(bs[int(op.a(0))%len(bs)], op, t, true)
				}
			})
			// once all threads are done every mutex is free again
			for i, b := range bs {
				for k := 0; k < 3; k++ {
					res := b.mu.TryLock()
					r.check(bool(res.IsOk()), "trylock", "mutex %d: TryLock failed after every holder had unlocked", i)
					r.enter(b, res.Unwrap(), "the final TryLock")
					r2 := b.mu.TryLock()
					r.check(bool(r2.IsErr()), "trylock", "mutex %d: TryLock succeeded while locked by TryLock", i)
					r.leave(b)
					b.mu.Unlock()
					g := b.mu.Lock()
					r.enter(b, g, "the final Lock")
					r3 := b.mu.TryLock()
					r.check(bool(r3.IsErr()), "trylock", "mutex %d: TryLock succeeded while locked by Lock", i)
					r.leave(b)
					b.mu.Unlock()
				}
			}
		}})
	// A holder that does not let go until every TryLock has returned: TryLock
	// must not wait for it. Lock callers queue up behind.
	reg(&Scenario{Prop: "P02", Name: "stalled-holder", Weight: 4,
		Gen: func(r *Rand, c *Case) {
			c.set("lockers", int64(r.N(4)))
			c.set("viaTry", int64(r.N(2)))
			c.set("hold", int64(r.Pick(0, 1000, 2000000, 1000000000, 3600000000000)))
			for t, n := 0, r.Many(1, 5, 70); t < n; t++ {
				var ops []Op
				for i, m := 0, r.Range(1, 6); i < m; i++ {
					ops = append(ops, Op{K: r.PickS("try", "try", "try", "sleep", "yield"), A: []int64{int64(r.Pick(0, 1, 1000, 1500000))}})
				}
				c.thread(ops...)
			}
		},
		Body: func(r *Run) {
			b := newBoxes(1)[0]
			var g *guarded
			if r.Case.p("viaTry") == 1 {
				g = b.mu.TryLock().Unwrap()
				r.enter(b, g, "TryLock")
			} else {
				g = b.mu.Lock()
				r.enter(b, g, "Lock")
			}
			got := 0
			nl := int(r.Case.p("lockers"))
			released := false
			all := make(chan struct{})
			for i := 0; i < nl; i++ {
				r.simGo("a Lock caller", func() {
					g := b.mu.Lock()
					r.check(released, "exclusion", "Lock returned while the mutex was held")
					r.enter(b, g, "Lock")
					r.update(b, g, 1, 1)
					r.leave(b)
					b.mu.Unlock()
					got++
					if got == nl {
						close(all)
					}
				})
			}
			simSleep(r.Case.p("hold"))
			runThreads(r, func(t int, ops []Op) {
				for _, op := range ops {
					switch op.K {
					case "try":
						res := b.mu.TryLock()
						r.op("try")
						r.check(bool(res.IsErr()), "exclusion", "TryLock succeeded while another thread held the mutex")
						_ = res.UnwrapErr().Error()
					case "sleep":
						simSleep(op.a(0))
					case "yield":
						yields(op.a(0) & 15)
					}
				}
			})
			r.seen(b, g, "the holder")
			released = true
			r.leave(b)
			b.mu.Unlock()
			if nl > 0 {
				<-all
			}
			r.check(got == nl, "progress", "only %d of %d waiting Lock calls returned", got, nl)
		}})
	// Many mutexes at once: each is a lock of its own, so whatever is held of
	// the others, a free one can be had.
	reg(&Scenario{Prop: "P02", Name: "many-mutexes", Weight: 2,
		Gen: func(r *Rand, c *Case) {
			n := r.Pick(2, 5, 17, 64, 65, 130, 300)
			if r.N(60) == 0 {
				n = r.Pick(1000, 1100, 4200)
			}
			c.set("n", int64(n))
			c.set("share", int64(r.Pick(0, 10, 50, 90, 100, 100)))
			c.set("seed", int64(r.N(1<<30)))
			c.set("reach", int64(r.Pick(3, 20, n, n)))
			nt := r.Many(1, 3, 30)
			for t := 0; t < nt; t++ {
				var ops []Op
				for i, m := 0, r.Range(1, 3); i < m; i++ {
					ops = append(ops, Op{K: r.PickS("try", "lock"), A: []int64{int64(r.N(1 << 20))}})
				}
				c.thread(ops...)
			}
		},
		Body: func(r *Run) {
			n, reach := int(r.Case.p("n")), int(r.Case.p("reach"))
			bs := newBoxes(n)
			rr := NewRand(uint64(r.Case.p("seed")))
			held := make([]bool, n)
			for i, b := range bs {
				if int64(rr.N(100)) >= r.Case.p("share") {
					continue
				}
				held[i] = true
				if rr.N(2) == 0 {
					r.enter(b, b.mu.Lock(), "Lock")
				} else {
					q := b.mu.TryLock()
					r.check(bool(q.IsOk()), "trylock", "TryLock of mutex %d of %d, which no thread ever touched, failed", i, n)
					r.enter(b, q.Unwrap(), "TryLock")
				}
			}
			busy := make([]int, n)
			runThreads(r, func(t int, ops []Op) {
				for _, op := range ops {
					for k := 0; k < n && k < reach; k++ {
						i := int((op.a(0) + int64(k)) % int64(n))
						b := bs[i]
						free := !held[i] && busy[i] == 0
						if op.K == "lock" && !held[i] {
							busy[i]++
							b.calls++
							r.enter(b, b.mu.Lock(), "Lock")
							r.leave(b)
							b.mu.Unlock()
							busy[i]--
							continue
						}
						a0 := b.calls
						b.calls++
						busy[i]++
						q := b.mu.TryLock()
						r.op("try")
						if held[i] {
							r.check(bool(q.IsErr()), "exclusion", "TryLock of mutex %d succeeded while it was held", i)
						} else if q.IsOk() {
							r.enter(b, q.Unwrap(), "TryLock")
							r.leave(b)
							b.mu.Unlock()
						} else if free && busy[i] == 1 && b.calls == a0+1 {
							r.fail("trylock", "TryLock of mutex %d of %d failed although it was free", i, n)
						}
						busy[i]--
					}
				}
			})
			for i, b := range bs {
				if held[i] {
					r.leave(b)
					b.mu.Unlock()
				}
			}
		}})
	// No starvation: while others take and release the lock over and over, a
	// waiting Lock returns within a bounded number of their acquisitions.
	reg(&Scenario{Prop: "P02", Name: "barging", Weight: 3,
		Gen: func(r *Rand, c *Case) {
			c.set("bargers", int64(r.Range(1, 4)))
			c.set("waiters", int64(r.Range(1, 3)))
			c.set("hold", int64(r.Pick(0, 1, 3)))
			c.set("sleep", int64(r.Pick(0, 0, 100, 200000, 2000000)))
			c.set("try", int64(r.N(3)))
			c.Sched.StallP = 0
			if c.Sched.Tick < 100 {
				c.Sched.Tick = 100
			}
			if c.Sched.Mode == runtime.SimPCT || c.Sched.PSwitch < 1000 {
				c.Sched = Sched{Mode: runtime.SimRandom, PSwitch: 8000, Tick: c.Sched.Tick}
			}
		},
		Body: func(r *Run) {
			b := newBoxes(1)[0]
			c := r.Case
			waiting := int(c.p("waiters"))
			nb := int(c.p("bargers"))
			left := waiting + nb
			done := make(chan struct{})
			fin := func() {
				left--
				if left == 0 {
					close(done)
				}
			}
			hold := func(g *guarded) {
				r.enter(b, g, "Lock")
				yields(c.p("hold"))
				if s := c.p("sleep"); s > 0 {
					simSleep(s)
				}
				r.leave(b)
				b.mu.Unlock()
			}
			for i := 0; i < nb; i++ {
				i := i
				r.simGo("a barging thread", func() {
					for k := 0; waiting > 0; k++ {
						if k > 60000 {
							r.fail("starvation", "a Lock call is still waiting after another thread took and released the mutex %d times", k)
						}
						if c.p("try") == 1 && i == 0 {
							if q := b.mu.TryLock(); q.IsOk() {
								hold(q.Unwrap())
							} else {
								yields(1)
								if c.p("sleep") > 0 {
									simSleep(1000)
								}
							}
						} else {
							hold(b.mu.Lock())
						}
					}
					fin()
				})
			}
			for i := 0; i < waiting; i++ {
				r.simGo("a waiting thread", func() {
					yields(5)
					hold(b.mu.Lock())
					waiting--
					fin()
				})
			}
			<-done
		}})
}
