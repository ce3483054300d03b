package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/myyrakle/gost"
)

// Collections shared by threads: P15 to P20.
//
// Every object pairs a collection of the library with a small model. Models
// hold int64 codes; elems maps codes to elements of the type under test.

// rec is ordered by K alone, so that equal-but-distinguishable elements exist.
type rec struct {
	K   int32
	Tag int32
}

func (a rec) Cmp(b rec) gost.Ordering {
	switch {
	case a.K < b.K:
		return gost.OrderingLess
	case a.K > b.K:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}
func (a rec) Eq(b rec) gost.Bool   { return a == b }
func (a rec) Clone() rec           { return a }
func (a rec) Display() gost.String { return gost.String(fmt.Sprintf("%d/%d", a.K, a.Tag)) }

type ordered[T any] interface {
	comparable
	gost.Ord[T]
}

type elems[T comparable] struct {
	name string
	zero int64
	mk   func(v int64) T
	num  func(x T) int64
	cmp  func(a, b int64) int
	str  func(v int64) string
	bare bool // elements have no methods: nothing to clone, compare or print them with
	refs bool // elements are references to something that can change

	noClone bool  // elements have no Clone method
	lim     int64 // codes are below it (0: there are enough of them)
}

// code is v, made a code of an element.
func (e *elems[T]) code(v int64) int64 {
	if e.lim > 0 {
		return (v%e.lim + e.lim) % e.lim
	}
	return v
}

// fit makes an operation's operands codes of elements.
func (e *elems[T]) fit(op Op) Op {
	return fit2(e, e, op)
}

func fit2[K comparable, V comparable](ek *elems[K], ev *elems[V], op Op) Op {
	if ek.lim+ev.lim > 0 && op.K != "bulk" && op.K != "drain" && op.K != "new" {
		op.A = append([]int64(nil), op.A...)
		if len(op.A) > 1 {
			op.A[0], op.A[1] = ek.code(op.A[0]), ev.code(op.A[1])
		}
	}
	return op
}

func (e *elems[T]) bulk(op Op) []int64 {
	vs := bulkValues(op)
	for i, v := range vs {
		vs[i] = e.code(v)
	}
	return vs
}

func (e *elems[T]) is(t T, v int64) bool { return e.num(t) == v }

// apart checks that a clone's elements are clones too.
func (e *elems[T]) apart(x *cx, what string, of, clone []T) {
	if !e.refs {
		return
	}
	in := map[T]bool{}
	for _, t := range of {
		in[t] = true
	}
	for _, t := range clone {
		if in[t] && e.num(t) != e.zero {
			x.check(false, "content", "%s: the clone shares %s with what it was made from: a change in one changes the other", what, e.str(e.num(t)))
		}
	}
}

// textOf is the text of a collection; the debugging text is the same.
func textOf(b int64, v interface {
	Display() gost.String
	Debug() gost.String
}) string {
	if b%4 == 0 {
		return string(v.Debug())
	}
	return string(v.Display())
}

// lacks tells whether the elements cannot do what an operation needs.
func (e *elems[T]) lacks(op Op) bool {
	if e.bare {
		switch op.K {
		case "dedup", "contains", "sort", "sortun", "clone", "eq", "display":
			return true
		case "bsearch":
			return op.a(1)%2 == 0
		}
	}
	if e.noClone && op.K == "clone" {
		return true
	}
	return false
}

// A bare element has no methods at all.
type bare struct{ V int64 }

var elBare = &elems[bare]{name: "bare struct", zero: 0, bare: true,
	mk:  func(v int64) bare { return bare{v} },
	num: func(x bare) int64 { return x.V },
	cmp: sgn,
	str: func(v int64) string { return fmt.Sprintf("{%d}", v) }}

// copies checks that each element is a clone of its own (one may be the original).
func (e *elems[T]) copies(x *cx, what string, of []T) {
	if !e.refs {
		return
	}
	in := map[T]bool{}
	for i, t := range of {
		x.check(!in[t] || e.num(t) == e.zero, "content", "%s: element %d is the same as an earlier one, not a clone of its own: a change in one changes the other", what, i)
		in[t] = true
	}
}

func sgn(a, b int64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

var elI32 = &elems[gost.I32]{name: "I32", zero: 50,
	mk:  func(v int64) gost.I32 { return gost.I32(v - 50) },
	num: func(x gost.I32) int64 { return int64(x) + 50 },
	cmp: sgn,
	str: func(v int64) string { return strconv.FormatInt(v-50, 10) }}

var elStr = &elems[gost.String]{name: "String", zero: -1,
	mk: func(v int64) gost.String {
		if v == -1 {
			return ""
		}
		return gost.String("s" + strconv.FormatInt(v, 10))
	},
	num: func(x gost.String) int64 {
		if x == "" {
			return -1
		}
		n, err := strconv.ParseInt(string(x[1:]), 10, 64)
		if err != nil || x[0] != 's' {
			return -999
		}
		return n
	},
	cmp: func(a, b int64) int {
		x, y := "s"+strconv.FormatInt(a, 10), "s"+strconv.FormatInt(b, 10)
		if a == -1 {
			x = ""
		}
		if b == -1 {
			y = ""
		}
		return strings.Compare(x, y)
	},
	str: func(v int64) string {
		if v == -1 {
			return ""
		}
		return "s" + strconv.FormatInt(v, 10)
	}}

func recKey(v int64) int64 { return v >> 2 }

var elRec = &elems[rec]{name: "record", zero: 0,
	mk:  func(v int64) rec { return rec{int32(v >> 2), int32(v & 3)} },
	num: func(x rec) int64 { return int64(x.K)<<2 | int64(x.Tag&3) },
	cmp: func(a, b int64) int { return sgn(a>>2, b>>2) },
	str: func(v int64) string { return fmt.Sprintf("%d/%d", v>>2, v&3) }}

// A cell is an element that can change in place.
type cell struct{ v int64 }

func (a *cell) num() int64 {
	if a == nil {
		return -1
	}
	return a.v
}
func (a *cell) Cmp(b *cell) gost.Ordering {
	switch sgn(a.num(), b.num()) {
	case -1:
		return gost.OrderingLess
	case 1:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}
func (a *cell) Eq(b *cell) gost.Bool { return a.num() == b.num() }
func (a *cell) Clone() *cell {
	if a == nil {
		return nil
	}
	return &cell{a.v}
}
func (a *cell) Display() gost.String { return gost.String(fmt.Sprintf("&%d", a.num())) }

var elCell = &elems[*cell]{name: "reference", zero: -1, refs: true,
	mk: func(v int64) *cell {
		if v == -1 {
			return nil
		}
		return &cell{v}
	},
	num: func(x *cell) int64 { return x.num() },
	cmp: sgn,
	str: func(v int64) string { return fmt.Sprintf("&%d", v) }}

// nearly is m or a sequence that differs from it in one place.
func nearly(m []int64, op Op, zero int64) []int64 {
	r := NewRand(uint64(op.a(0))*8191 + uint64(op.a(1)))
	o := append([]int64(nil), m...)
	i := r.N(len(m) + 1)
	if i == len(m) && i > 0 {
		i--
	}
	switch k := r.N(6); {
	case k == 0:
		return append(o[:i:i], append([]int64{op.a(0)}, o[i:]...)...)
	case len(m) == 0:
	case k == 1:
		return append(o[:i:i], o[i+1:]...)
	case k == 2:
		o[i] = op.a(1)
	case k == 3:
		o[i] = zero
	case k == 4:
		j := r.N(len(m))
		o[i], o[j] = o[j], o[i]
	}
	return o
}

// lazily puts off the making of a text that is rarely needed.
type lazily func() string

func (l lazily) String() string { return l() }

func (e *elems[T]) lazy(vs []int64) fmt.Stringer {
	return lazily(func() string { return e.list(vs) })
}

func (e *elems[T]) list(vs []int64) string {
	var s []string
	for i, v := range vs {
		if i == 40 {
			s = append(s, fmt.Sprintf("... (%d)", len(vs)))
			break
		}
		s = append(s, e.str(v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (e *elems[T]) nums(xs []T) []int64 {
	var o []int64
	for _, x := range xs {
		o = append(o, e.num(x))
	}
	return o
}

func sameList(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(a []int64) []int64 {
	b := append([]int64(nil), a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func sameBag(a, b []int64) bool { return sameList(sorted(a), sorted(b)) }

func optStr[T comparable](e *elems[T], o gost.Option[T]) string {
	if bool(o.IsNone()) {
		return "None"
	}
	return "Some(" + e.str(e.num(o.Unwrap())) + ")"
}

func wantStr[T comparable](e *elems[T], v int64, ok bool) string {
	if !ok {
		return "None"
	}
	return "Some(" + e.str(v) + ")"
}

// coll is a collection of the library next to its model.
type coll interface {
	do(x *cx, op Op, other coll) coll // a non-nil result is a new object
	verify(x *cx, what string)
	size() int
	readOnly(k string) bool
	kinds() []string // operation kinds, for generation
}

// cx is the context of one operation.
type cx struct {
	r   *Run
	who string
	cb  bool // callbacks may panic
}

func (x *cx) check(ok bool, class, f string, a ...any) {
	if !ok {
		x.r.fail(class, "%s: %s", x.who, fmt.Sprintf(f, a...))
	}
}

type cbPanic struct{}

// callback is called by every function handed to the library.
func (x *cx) callback() {
	if f := x.r.fault("callback", []string{"panic"}); f != nil {
		panic(cbPanic{})
	}
}

// call runs f and reports whether an injected callback panic came through.
func (x *cx) call(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(cbPanic); ok {
				panicked = true
				return
			}
			panic(e)
		}
	}()
	f()
	return false
}

func pred(v, m int64) bool {
	switch m % 5 {
	case 0:
		return v%2 == 0
	case 1:
		return v%3 != 0
	case 2:
		return true
	case 3:
		return false
	}
	return v%7 < 3
}

func dedupKey(v, m int64) int64 {
	switch m % 3 {
	case 0:
		return v
	case 1:
		return v / 2
	}
	return v % 3
}

// order m: a total preorder of codes.
func orderBy[T comparable](e *elems[T], m int64) func(a, b int64) int {
	switch m % 4 {
	case 0:
		return e.cmp
	case 1:
		return func(a, b int64) int { return e.cmp(b, a) }
	case 2:
		return func(a, b int64) int { return sgn(a%5, b%5) }
	}
	return func(a, b int64) int { return sgn(a/3, b/3) }
}

func toOrd(c int) gost.Ordering {
	switch {
	case c < 0:
		return gost.OrderingLess
	case c > 0:
		return gost.OrderingGreater
	}
	return gost.OrderingEqual
}

func isSorted(m []int64, cmp func(a, b int64) int) bool {
	for i := 1; i < len(m); i++ {
		if cmp(m[i-1], m[i]) > 0 {
			return false
		}
	}
	return true
}

// ---- the shared-state harness ----

const collSlots = 2 // private objects per thread

type slot struct{ c coll }

type collFactory struct {
	name string
	mk   func(x *cx, variant int64) coll
}

// wide are the factories at the end of the list that are there for their
// element types; they are chosen less often.
func pickType(r *Rand, fs []collFactory, wide int) int64 {
	if n := len(fs) - wide; wide > 0 && r.P(1, 3) {
		return int64(n + r.N(wide))
	} else {
		return int64(r.N(n))
	}
}

func collBody(fs []collFactory, quiet bool) func(*Run) {
	return func(r *Run) {
		c := r.Case
		f := fs[int(c.p("type"))%len(fs)]
		nS := int(c.p("shared"))
		if nS < 1 {
			nS = 1
		}
		x0 := &cx{r: r, who: "main (" + f.name + ")"}
		locks := make([]gost.Mutex[slot], nS)
		all := []*slot{}
		shared := make([]*slot, nS) // for readers, who need no lock
		for i := range locks {
			locks[i] = gost.MutexNew(slot{f.mk(x0, c.p("variant"))})
		}
		for i := range locks {
			shared[i] = locks[i].Lock()
			locks[i].Unlock()
		}
		// set-up by the main thread
		for _, op := range c.Prog.T[0] {
			s := locks[int(op.a(2))%nS].Lock()
			if s.c.readOnly(op.K) || op.K == "bulk" || op.K == "new" || op.a(3) == 0 {
				s.c.do(x0, op, nil)
			}
			locks[int(op.a(2))%nS].Unlock()
		}
		left := len(c.Prog.T) - 1
		done := make(chan struct{})
		if left == 0 {
			left = 1
		}
		priv := make([][]*slot, len(c.Prog.T))
		for t := range c.Prog.T {
			for i := 0; i < collSlots; i++ {
				s := &slot{f.mk(x0, 0)}
				priv[t] = append(priv[t], s)
				all = append(all, s)
			}
		}
		one := func(t int, ops []Op) {
			x := &cx{r: r, who: fmt.Sprintf("thread %d (%s)", t, f.name)}
			for _, op := range ops {
				if op.K == "yield" {
					yields(op.a(0))
					continue
				}
				tgt, oth := int(op.a(2)), int(op.a(3))
				// who is locked, in index order
				var held []int
				if tgt < nS {
					held = append(held, tgt)
				}
				other := priv[t][0]
				if oth >= nS {
					other = priv[t][oth%collSlots]
				} else if oth != tgt {
					held = append(held, oth)
				}
				sort.Ints(held)
				got := map[int]*slot{}
				if c.p("lock") == 1 {
					for _, h := range held {
						if op.a(4)&2 != 0 {
							for wait := int64(1000); got[h] == nil; wait *= 2 {
								if t := locks[h].TryLock(); bool(t.IsOk()) {
									got[h] = t.Unwrap()
								} else {
									simSleep(wait)
								}
							}
						} else {
							got[h] = locks[h].Lock()
						}
					}
				}
				get := func(i int) *slot {
					if i < nS {
						if got[i] != nil {
							return got[i]
						}
						return shared[i]
					}
					return priv[t][i%collSlots]
				}
				me := get(tgt)
				if oth < nS && oth != tgt {
					other = get(oth)
				}
				if other == me {
					other = priv[t][(tgt+1)%collSlots]
					if other == me {
						other = priv[t][tgt%collSlots^1]
					}
				}
				if c.p("lock") == 1 || me.c.readOnly(op.K) || tgt >= nS {
					if f := r.fault("hold", []string{"delay"}); f != nil && len(held) > 0 {
						simSleep(f.Arg)
					}
					nw := me.c.do(x, op, other.c)
					if nw != nil {
						// a new object becomes one of the thread's own
						priv[t][int(op.a(4)>>2)%collSlots].c = nw
					}
					r.op(op.K)
				}
				if c.p("lock") == 1 {
					for i := len(held) - 1; i >= 0; i-- {
						locks[held[i]].Unlock()
					}
				}
			}
		}
		for t := range c.Prog.T[1:] {
			t := t
			gost.Spawn(func() {
				defer r.guard("an operation on a shared collection")
				one(t+1, c.Prog.T[1+t])
				left--
				if left == 0 {
					close(done)
				}
			})
		}
		if len(c.Prog.T) > 1 {
			<-done
		}
		for i := range locks {
			s := locks[i].Lock()
			s.c.verify(x0, "at the end")
			locks[i].Unlock()
		}
		for _, s := range all {
			s.c.verify(x0, "at the end (an object of one thread)")
		}
	}
}

// genColl writes the programs of a run.
func genColl(fs []collFactory, wide int, lock bool, bulk bool) func(r *Rand, c *Case) {
	return func(r *Rand, c *Case) {
		c.set("type", pickType(r, fs, wide))
		c.set("variant", int64(r.N(6)))
		c.set("lock", 0)
		nS := 1
		if lock {
			c.set("lock", 1)
			nS = r.Pick(1, 1, 2)
		}
		c.set("shared", int64(nS))
		dom := int64(r.Pick(4, 10, 30, 100, 1000))
		proto := fs[c.p("type")].mk(&cx{}, 0)
		kinds := proto.kinds()
		var ro []string
		for _, k := range kinds {
			if proto.readOnly(k) {
				ro = append(ro, k)
			}
		}
		// a run concentrates on some of the operations
		var hot []string
		for i, n := 0, r.Range(2, 6); i < n; i++ {
			hot = append(hot, kinds[r.N(len(kinds))])
		}
		val := func() int64 {
			if r.P(1, 20) {
				return int64(r.N(100000))
			}
			return int64(r.N(int(dom)))
		}
		mkOp := func(ks []string) Op {
			return Op{K: ks[r.N(len(ks))], A: []int64{val(), val(), int64(r.N(nS)), int64(r.N(nS + collSlots)), int64(r.N(16))}}
		}
		var setup []Op
		if r.P(1, 3) {
			setup = append(setup, Op{K: "new", A: []int64{int64(r.N(4)), int64(r.N(20)), int64(r.N(nS)), 0, 0}})
		}
		if r.P(3, 4) {
			n := int64(r.Pick(1, 2, 5, 7, 8, 12, 15, 16, 30))
			if bulk {
				n = int64(r.Pick(3, 11, 12, 13, 20, 40, 80, 150))
				if r.P(1, 25) {
					n = int64(r.Pick(300, 700, 1600))
				}
			} else if r.P(1, 30) {
				n = int64(r.Pick(100, 200, 400))
			}
			for i := 0; i < nS; i++ {
				setup = append(setup, Op{K: "bulk", A: []int64{n, int64(r.N(1000)), int64(i), int64(r.N(4)), dom}})
			}
		}
		if !lock {
			for i, n := 0, r.N(20); i < n; i++ {
				op := mkOp(kinds)
				op.A[3] = 0
				setup = append(setup, op)
			}
		}
		c.thread(setup...)
		nt := r.Pick(1, 2, 2, 3, 4)
		if !lock {
			nt = r.Range(2, 4)
		}
		for t := 0; t < nt; t++ {
			var ops []Op
			for i, n := 0, r.Pick(2, 5, 10, 20, 40); i < n; i++ {
				var op Op
				switch {
				case !lock:
					op = mkOp(ro)
				case r.P(1, 2):
					op = mkOp(hot)
				default:
					op = mkOp(kinds)
				}
				if lock && r.P(1, 4) {
					op.A[2] = int64(nS + r.N(collSlots)) // work on an object of its own
				}
				if bulk && r.P(1, 30) {
					op = Op{K: r.PickS("bulk", "drain"), A: []int64{int64(r.Pick(5, 12, 30, 100)), int64(r.N(1000)), op.A[2], int64(r.N(4)), dom}}
				}
				ops = append(ops, op)
				if r.P(1, 10) {
					ops = append(ops, Op{K: "yield", A: []int64{int64(r.N(20))}})
				}
			}
			c.thread(ops...)
		}
		if lock {
			c.genFaults(r, "panic", "panic", "delay")
		} else {
			c.genFaults(r, "panic")
		}
		c.MaxSteps = 150_000_000
	}
}

// genLarge writes a long history of one collection that grows to thousands of
// elements and shrinks again.
func genLarge(fs []collFactory, wide int, huge bool) func(r *Rand, c *Case) {
	return func(r *Rand, c *Case) {
		c.set("type", pickType(r, fs, wide))
		c.set("variant", int64(r.N(6)))
		c.set("lock", 1)
		c.set("shared", 1)
		proto := fs[c.p("type")].mk(&cx{}, 0)
		var hot []string
		for _, k := range proto.kinds() {
			switch k {
			case "insert", "remove", "push", "pop", "pushb", "pushf", "popb", "popf", "append", "reserve", "get":
				hot = append(hot, k)
			}
		}
		dom := int64(r.Pick(1000, 5000, 50000))
		huge := huge && r.P(1, 5)
		if r.P(1, 40) { // past every number that fits in sixteen bits
			n := int64(r.Range(32000, 70000))
			c.thread(Op{K: "bulk", A: []int64{n, int64(r.N(100000)), 0, int64(r.N(4)), n * 4}})
			ks := proto.kinds()
			var ops []Op
			for i, m := 0, r.Range(4, 12); i < m; i++ {
				ops = append(ops, Op{K: ks[r.N(len(ks))], A: []int64{int64(r.N(int(n))), int64(r.N(int(n))), 0, int64(r.N(1 + collSlots)), int64(r.N(16))}})
			}
			if r.Bool() {
				ops = append(ops, Op{K: "drain", A: []int64{int64(r.Range(100, 70000)), int64(r.N(1000)), 0, int64(r.N(4)), 0}})
			}
			c.thread(ops...)
			c.MaxSteps = 1_000_000_000
			return
		}
		size := func() int64 {
			return int64(r.Pick(r.Range(10, 100), r.Range(100, 600), r.Range(500, 1100), r.Range(1000, 3000)))
		}
		bulk := func() Op {
			return Op{K: "bulk", A: []int64{size(), int64(r.N(100000)), 0, int64(r.Pick(0, 1, 2, 3, 3)), dom}}
		}
		first := bulk()
		if huge { // a deep tree: thinly filled nodes, filled up here and there
			first.A[0], first.A[3] = int64(r.Range(2000, 9000)), int64(r.Pick(0, 1, 3, 4, 4, 4, 4))
			dom = first.A[0] * 5
			first.A[4] = dom
		}
		c.thread(first)
		var ops []Op
		for i, n := 0, r.Range(2, 10); i < n; i++ {
			switch r.N(3) {
			case 0:
				op := bulk()
				if r.P(1, 4) {
					op.A[2] = 1 + int64(r.N(collSlots)) // an object to append
				}
				ops = append(ops, op)
			case 1:
				ops = append(ops, Op{K: "drain", A: []int64{size(), int64(r.N(1000)), 0, int64(r.N(4)), 0}})
			case 2:
				for j, m := 0, r.Pick(5, 20, 100, 200); j < m && len(hot) > 0; j++ {
					ops = append(ops, Op{K: hot[r.N(len(hot))], A: []int64{int64(r.N(int(dom))), int64(r.N(int(dom))), 0, int64(r.N(1 + collSlots)), int64(r.N(16))}})
				}
			}
			if r.P(1, 3) {
				ks := proto.kinds()
				ops = append(ops, Op{K: ks[r.N(len(ks))], A: []int64{int64(r.N(int(dom))), int64(r.N(int(dom))), 0, int64(r.N(1 + collSlots)), int64(r.N(16))}})
			}
		}
		c.thread(ops...)
		c.genFaults(r, "panic")
		c.MaxSteps = 300_000_000
	}
}

// bulkValues is a run of n codes: ascending, descending, shuffled or random.
func bulkValues(op Op) []int64 {
	n, seed := op.a(0), op.a(1)
	r := NewRand(uint64(seed))
	base := seed % 50
	var vs []int64
	for i := int64(0); i < n; i++ {
		switch op.a(3) {
		case 0:
			vs = append(vs, base+i)
		case 1:
			vs = append(vs, base+n-1-i)
		case 2:
			vs = append(vs, base+i*3)
		case 4:
			vs = append(vs, base+i*5)
		default:
			d := int(op.a(4))
			if d < 1 {
				d = 1
			}
			vs = append(vs, int64(r.N(d)))
		}
	}
	if op.a(3) == 2 {
		for i := len(vs) - 1; i > 0; i-- {
			j := r.N(i + 1)
			vs[i], vs[j] = vs[j], vs[i]
		}
	}
	return vs
}

func regColl(prop string, bulk bool, fs, wide []collFactory) {
	n := len(wide)
	fs = append(fs, wide...)
	reg(&Scenario{Prop: prop, Name: "large", Weight: 1, Gen: genLarge(fs, n, prop == "P15"), Body: collBody(fs, false)})
	reg(&Scenario{Prop: prop, Name: "shared", Weight: 60, Gen: genColl(fs, n, true, bulk), Body: collBody(fs, false)})
	reg(&Scenario{Prop: prop, Name: "readers", Weight: 20, Gen: genColl(fs, n, false, bulk), Body: collBody(fs, false)})
}
