package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"syscall"

	"github.com/myyrakle/gost"
)

// P06: an operation of gokio does what the operation of the same name of gost
// does. Two equal directories, "t<2i>" and "t<2i+1>"; the plain operation runs
// on the first, its gokio counterpart on the second, and everything
// observable is compared.

func twin(s string, from, to int) string {
	return strings.ReplaceAll(s, fmt.Sprintf("t%d/b/c", from), fmt.Sprintf("t%d/b/c", to))
}

func twinOp(op Op, from, to int) Op {
	o := Op{K: op.K, A: append([]int64(nil), op.A...)}
	for _, s := range op.S {
		o.S = append(o.S, twin(s, from, to))
	}
	return o
}

type twinPair struct {
	a, b   *fsW
	i      int
	broken bool // an injected failure hit the gokio side only
}

func errnoOf(e error) string {
	var n syscall.Errno
	if errors.As(e, &n) {
		return n.Error()
	}
	return "other"
}

// rel renders a tree relative to its root, for comparison.
func (w *fsW) rel(t tree, other *fsW) tree {
	o := tree{}
	for p, e := range t {
		e.ino = 0
		e.to = twin(e.to, w.t, other.t)
		o[strings.Replace(p, w.root, other.root, 1)] = e
	}
	return o
}

// compare judges the gokio result rb against the plain result ra.
func (tp *twinPair) compare(r *Run, op Op, ra, rb fsRes, mark int) {
	_, eintr, hard, fdesc := tp.b.faults(mark)
	if fdesc != "" {
		fdesc = " (injected: " + fdesc + ")"
	}
	r.op(op.K)
	r.logf("%v: plain ok=%v err=%v, gokio ok=%v err=%v%s", op, ra.ok, ra.err, rb.ok, rb.err, fdesc)
	if rb.bad != "" && ra.bad == "" {
		r.fail("result", "gokio %v: %s%s", op, rb.bad, fdesc)
	}
	// a failed look at the target may also make a rename onto it go ahead
	if (eintr || hard) && (!rb.ok || op.K == "rename") {
		tp.broken = true
		return
	}
	if ra.ok != rb.ok {
		r.fail("outcome", "%v: ok=%v err=%v from gost, ok=%v err=%v from gokio, in equal directories%s", op, ra.ok, ra.err, rb.ok, rb.err, fdesc)
	}
	if !ra.ok && errnoOf(ra.err) != errnoOf(rb.err) {
		r.fail("outcome", "%v failed with %v from gost and with %v from gokio, in equal directories%s", op, ra.err, rb.err, fdesc)
	}
	if string(ra.data) != string(rb.data) {
		r.fail("value", "%v: gost returned %d bytes (%s), gokio %d bytes (%s)%s", op, len(ra.data), trunc(ra.data), len(rb.data), trunc(rb.data), fdesc)
	}
	if la, lb := tp.listing(ra, tp.a), tp.listing(rb, tp.b); la != lb {
		r.fail("value", "%v: gost returned entries [%s], gokio [%s]%s", op, la, lb, fdesc)
	}
	want, got := tp.a.rel(tp.a.snap(), tp.b), tp.b.rel(tp.b.snap(), tp.b)
	if d := want.diff(got); len(d) > 0 {
		r.fail("effect", "%v left different files behind: %s (want = what gost left)%s", op, explain(d, want, got), fdesc)
	}
}

func (tp *twinPair) listing(f fsRes, w *fsW) string {
	var out []string
	for i := gost.USize(0); f.ok && i < f.vec.Len(); i++ {
		e := f.vec.GetUnchecked(i)
		out = append(out, fmt.Sprintf("%s %s %v%v%v", e.FileName, twin(string(e.Path), w.t, tp.a.t), e.FileType.IsDir(), e.FileType.IsFile(), e.FileType.IsSymlink()))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// await mode: 0 once; 1 twice; 2 from another thread too; 3 not at all
func (tp *twinPair) begin(r *Run, op Op, mode int64) func() {
	opB := twinOp(op, tp.a.t, tp.b.t)
	ra := doSync(op)
	mark := len(r.K.FaultLog)
	aw := doAsync(opB)
	return func() {
		var rb fsRes
		switch mode {
		case 3:
			// never awaited: it must happen all the same
			simSleep(1000 * 1e9)
			_, eintr, hard, fdesc := tp.b.faults(mark)
			if eintr || hard {
				tp.broken = true
				return
			}
			r.op(op.K)
			want, got := tp.a.rel(tp.a.snap(), tp.b), tp.b.rel(tp.b.snap(), tp.b)
			if d := want.diff(got); len(d) > 0 {
				r.fail("effect", "%v, started and not awaited, did not do what gost did: %s (%s)", op, explain(d, want, got), fdesc)
			}
			return
		case 1:
			rb = aw()
			again := aw()
			tp.same(r, op, rb, again)
		case 2:
			var other fsRes
			done := make(chan struct{})
			r.simGo("a second awaiter", func() {
				other = aw()
				close(done)
			})
			rb = aw()
			<-done
			tp.same(r, op, rb, other)
		default:
			rb = aw()
		}
		tp.compare(r, op, ra, rb, mark)
	}
}

func (tp *twinPair) same(r *Run, op Op, x, y fsRes) {
	if x.ok != y.ok || x.err != y.err || string(x.data) != string(y.data) || tp.listing(x, tp.b) != tp.listing(y, tp.b) {
		r.fail("await", "gokio %v: two Awaits of one future differ: ok=%v err=%v %s and ok=%v err=%v %s", op, x.ok, x.err, trunc(x.data), y.ok, y.err, trunc(y.data))
	}
}

func genTwin(r *Rand, c *Case) {
	n := r.Pick(1, 1, 2, 3)
	gs := genFsWorld(r, c, n, false)
	delete(c.Prog.P, "cap") // shared by both sides, so not equal for them
	// duplicate the set-up: even directories first, then their twins
	var setup []Op
	for _, op := range c.Prog.T[0] {
		for i := n - 1; i >= 0; i-- {
			// t<i> becomes t<2i>; go down so that names do not collide
			op = twinOp(op, i, 2*i+100)
		}
		for i := 0; i < n; i++ {
			op = twinOp(op, 2*i+100, 2*i)
		}
		setup = append(setup, op)
	}
	c.Prog.T[0] = nil
	for _, op := range setup {
		c.Prog.T[0] = append(c.Prog.T[0], op)
		for i := 0; i < n; i++ {
			if o := twinOp(op, 2*i, 2*i+1); o.S[0] != op.S[0] {
				c.Prog.T[0] = append(c.Prog.T[0], o)
			}
		}
	}
	for i, g := range gs {
		ops := genFsOps(r, c, g, r.Pick(1, 3, 6, 10))
		for j := range ops {
			if ops[j].K == "readdir" && !strings.Contains(ops[j].s(0), baseDir(i)) {
				ops[j].S[0] = baseDir(i) + "/.." // the directories both sides share have no twin
			}
			ops[j] = twinOp(ops[j], i, 2*i)
			if len(ops[j].A) > 3 {
				ops[j].A[3] = int64(r.W(6, 3, 2, 2))
			}
		}
		// two threads' worth of directories per pair, one program each
		c.thread(ops...)
		c.thread()
	}
	c.set("batch", int64(r.N(2)))
	c.set("rot", int64(r.N(4)))
	c.genFaults(r, "short", "delay", "delay", "EIO", "EINTR", "EMFILE", "EACCES", "ENOSPC")
	c.MaxSteps = 6_000_000 + 150*uint64(c.big)
}

func twinBody(r *Run) {
	r.buildWorld()
	var ps []*twinPair
	progs := r.Case.Prog.T[1:]
	for i := 0; 2*i+1 < len(progs); i++ {
		tp := &twinPair{i: i}
		tp.a = &fsW{r: r, k: r.K, t: 2 * i, root: fmt.Sprintf("/w/t%d", 2*i)}
		tp.b = &fsW{r: r, k: r.K, t: 2*i + 1, root: fmt.Sprintf("/w/t%d", 2*i+1)}
		ps = append(ps, tp)
	}
	r.K.hardOK = func(p string) bool {
		for _, tp := range ps {
			if tp.b.mine(p) {
				return true
			}
		}
		return false
	}
	ops := func(i int) []Op { return progs[2*i] }
	if r.Case.p("batch") == 1 {
		// one operation per pair in flight at a time, awaited in some order
		for j := 0; ; j++ {
			var fin []func()
			for i, tp := range ps {
				if o := ops(i); j < len(o) && fsOps[o[j].K] && !tp.broken {
					fin = append(fin, tp.begin(r, o[j], o[j].a(3)))
				}
			}
			if len(fin) == 0 {
				all := true
				for i := range ps {
					all = all && j >= len(ops(i))
				}
				if all {
					break
				}
			}
			for x := range fin {
				fin[(x+int(r.Case.p("rot")))%len(fin)]()
			}
		}
		return
	}
	left := len(ps)
	if left == 0 {
		return
	}
	done := make(chan struct{})
	for i, tp := range ps {
		i, tp := i, tp
		r.simGo("a file system thread", func() {
			for _, op := range ops(i) {
				if fsOps[op.K] && !tp.broken {
					tp.begin(r, op, op.a(3))()
				}
			}
			left--
			if left == 0 {
				close(done)
			}
		})
	}
	<-done
}

// Many operations of gokio in flight at once on files of their own: each has
// its own effect and its own result, however they overlap.
func inflightBody(r *Run) {
	k := r.K
	c := r.Case
	k.ioMax = int(c.p("iomax"))
	n := len(c.Prog.T[0])
	k.mkdirAll("/w/s", 0o755, 1000)
	type job struct {
		op   Op
		want fsRes
		aw   func() fsRes
	}
	var js []*job
	for i := 0; i < n; i++ {
		op := c.Prog.T[0][i]
		p := fmt.Sprintf("s/%d", i)
		j := &job{op: Op{K: op.K, S: []string{p}, A: op.A}}
		switch op.K {
		case "read", "readstr":
			k.put("/w/"+p, pattern(op.a(0), op.a(1)), 0o644, 1000)
			j.want = fsRes{ok: true, data: pattern(op.a(0), op.a(1))}
		case "rmfile":
			k.put("/w/"+p, []byte("x"), 0o644, 1000)
			j.want.ok = true
		case "rmdir":
			k.mkdirAll("/w/"+p, 0o755, 1000)
			j.want.ok = true
		case "copy", "rename":
			k.put("/w/"+p, pattern(op.a(0), op.a(1)), 0o644, 1000)
			j.op.S = append(j.op.S, p+"-to")
			j.want.ok = true
		case "readdir":
			k.put("/w/"+p+"/only-"+fmt.Sprint(i), nil, 0o644, 1000)
			j.want.ok = true
		case "missing":
			j.op.K = "read"
		default:
			j.want.ok = true
		}
		js = append(js, j)
	}
	check := func(i int, who string) {
		j := js[i]
		f := j.aw()
		r.op("await")
		if f.ok != j.want.ok || string(f.data) != string(j.want.data) {
			r.fail("value", "%s: awaiting gokio %v gave ok=%v err=%v data %s, want ok=%v data %s", who, j.op, f.ok, f.err, trunc(f.data), j.want.ok, trunc(j.want.data))
		}
		p := "/w/" + j.op.S[0]
		node := k.look(p)
		bad := false
		switch j.op.K {
		case "write":
			bad = node == nil || string(node.data) != string(pattern(j.op.a(0), j.op.a(1)))
		case "rmfile", "rmdir":
			bad = node != nil
		case "mkdir":
			bad = node == nil || !node.isDir()
		case "rename", "copy":
			to := k.look(p + "-to")
			bad = to == nil || string(to.data) != string(pattern(j.op.a(0), j.op.a(1))) || (node == nil) != (j.op.K == "rename")
		case "readdir":
			bad = f.vec.Len() != 1 || string(f.vec.GetUnchecked(0).FileName) != fmt.Sprint("only-", i)
		}
		if bad {
			r.fail("effect", "%s: gokio %v was awaited with ok=%v, but its effect is not there: %s is %v", who, j.op, f.ok, p, entOf(node))
		}
	}
	s0 := len(js)
	for _, j := range js {
		j.aw = doAsync(j.op)
	}
	left := len(c.Prog.T) - 1
	done := make(chan struct{})
	for t := range c.Prog.T[1:] {
		t := t
		r.simGo("an awaiting thread", func() {
			for _, op := range c.Prog.T[1+t] {
				if int(op.a(0)) < s0 {
					check(int(op.a(0)), fmt.Sprintf("thread %d", t))
				}
			}
			left--
			if left == 0 {
				close(done)
			}
		})
	}
	if left > 0 {
		<-done
	}
	for i := range js {
		check(i, "main")
	}
}

// Threads start operations of gokio on the same few files, and await them at
// once or later. What ran while no other operation that changes its files was
// in flight has one possible outcome: that of the files as they were.

type overJob struct {
	op     Op
	aw     func() fsRes
	quiet  bool // no other change in flight when it was started
	gen    int
	before map[string]*string
}

type overW struct {
	r      *Run
	flying map[string]int // changes in flight, per file; "" for all
	gen    map[string]int // changes begun or ended so far
}

func (o *overW) name(i int64) string { return fmt.Sprintf("s/%d", i) }

// paths gives the files an operation looks at and those it changes.
func overPaths(op Op) (all, mut []string) {
	switch op.K {
	case "read", "readstr":
		return op.S[:1], nil
	case "readdir":
		return []string{""}, nil
	case "rename":
		return op.S, op.S
	case "copy":
		return op.S, op.S[1:]
	}
	return op.S[:1], op.S[:1]
}

// paths is overPaths, but with renames about, a file has no name of its own.
func (o *overW) paths(op Op) (all, mut []string) {
	all, mut = overPaths(op)
	if o.r.Case.p("renames") == 1 {
		all = []string{""}
	}
	return
}

func (o *overW) files() map[string]*string {
	m := map[string]*string{}
	for n, f := range o.r.K.look("/w/s").kids {
		d := string(f.data)
		m["s/"+n] = &d
	}
	return m
}

func (o *overW) mark(mut []string, d int) {
	for _, p := range mut {
		o.flying[p] += d
		o.gen[p]++
	}
	if len(mut) > 0 {
		o.flying[""] += d
		o.gen[""]++
	}
}

func (o *overW) start(op Op) *overJob {
	all, mut := o.paths(op)
	j := &overJob{op: op, quiet: true, before: o.files()}
	for _, p := range all {
		j.quiet = j.quiet && o.flying[p] == 0
	}
	o.mark(mut, 1)
	for _, p := range all {
		j.gen += o.gen[p]
	}
	j.aw = doAsync(op)
	return j
}

func (o *overW) finish(j *overJob) {
	r, op := o.r, j.op
	f := j.aw()
	all, mut := o.paths(op)
	now := 0
	for _, p := range all {
		now += o.gen[p]
	}
	after := o.files()
	o.mark(mut, -1)
	r.op(op.K)
	r.logf("%v: ok=%v err=%v %s quiet=%v", op, f.ok, f.err, trunc(f.data), j.quiet && now == j.gen)
	if !j.quiet || now != j.gen || r.Vio != nil {
		return
	}
	want, ok := map[string]*string{}, true
	for k, v := range j.before {
		want[k] = v
	}
	src := j.before[op.s(0)]
	var data string
	switch op.K {
	case "write":
		d := string(pattern(op.a(0), op.a(1)))
		want[op.s(0)] = &d
	case "rmfile":
		ok = src != nil
		delete(want, op.s(0))
	case "rename":
		if ok = src != nil; ok && op.s(0) != op.s(1) {
			want[op.s(1)] = src
			delete(want, op.s(0))
		}
	case "copy":
		if ok = src != nil; ok {
			want[op.s(1)] = src
		}
	case "read", "readstr":
		if ok = src != nil; ok {
			data = *src
		}
	}
	what := func(p *string) string {
		if p == nil {
			return "nothing"
		}
		return trunc([]byte(*p))
	}
	if f.ok != ok || string(f.data) != data {
		r.fail("value", "gokio %v, with no other change in flight, gave ok=%v err=%v data %s; the file holds %s", op, f.ok, f.err, trunc(f.data), what(src))
	}
	for _, p := range mut {
		if (want[p] == nil) != (after[p] == nil) || want[p] != nil && *want[p] != *after[p] {
			r.fail("effect", "gokio %v, with no other change in flight, was awaited with ok=%v, but %s holds %s, not %s", op, f.ok, p, what(after[p]), what(want[p]))
		}
	}
	if op.K == "readdir" {
		var got, names []string
		for i := gost.USize(0); f.ok && i < f.vec.Len(); i++ {
			got = append(got, string(f.vec.GetUnchecked(i).Path))
		}
		for n := range after {
			names = append(names, n)
		}
		sort.Strings(got)
		sort.Strings(names)
		if strings.Join(got, " ") != strings.Join(names, " ") {
			r.fail("value", "gokio %v, with no change in flight, gave %v; there are %v", op, got, names)
		}
	}
}

func overBody(r *Run) {
	k := r.K
	c := r.Case
	k.ioMax = int(c.p("iomax"))
	k.mkdirAll("/w/s", 0o755, 1000)
	o := &overW{r: r, flying: map[string]int{}, gen: map[string]int{}}
	for i := int64(0); i < c.p("files"); i++ {
		k.put("/w/"+o.name(i), pattern(20+i, 7000+i), 0o644, 1000)
	}
	left := len(c.Prog.T)
	done := make(chan struct{})
	for t := range c.Prog.T {
		t := t
		r.simGo("a thread", func() {
			var later []*overJob
			for _, op := range c.Prog.T[t] {
				switch op.K {
				case "yield":
					yields(op.a(0))
				case "await":
					if len(later) > 0 {
						i := int(op.a(0)) % len(later)
						o.finish(later[i])
						later = append(later[:i], later[i+1:]...)
					}
				default:
					x := Op{K: op.K, A: []int64{op.a(2), op.a(3)}, S: []string{o.name(op.a(0)), o.name(op.a(1))}}
					if op.K == "readdir" {
						x.S = []string{"s"}
					}
					j := o.start(x)
					if op.a(4) == 0 {
						o.finish(j)
					} else {
						later = append(later, j)
					}
				}
			}
			for _, j := range later {
				o.finish(j)
			}
			if left--; left == 0 {
				close(done)
			}
		})
	}
	<-done
}

func genOver(r *Rand, c *Case) {
	files := int64(r.Pick(1, 1, 2, 3))
	c.set("files", files)
	if r.P(1, 2) {
		c.set("iomax", int64(r.Pick(1, 3, 100)))
	}
	some := r.N(3)
	kinds := [][]string{
		{"write", "read"},
		{"write", "read", "readstr", "copy"},
		{"write", "read", "readstr", "copy", "rename", "rmfile", "readdir"},
	}[some]
	if some == 2 {
		c.set("renames", 1)
	}
	for t, n := 0, r.Pick(1, 2, 2, 3); t < n; t++ {
		var ops []Op
		for i, m := 0, r.Range(2, 9); i < m; i++ {
			switch r.N(8) {
			case 0:
				ops = append(ops, Op{K: "yield", A: []int64{int64(r.Pick(1, 10, 50))}})
			case 1, 2:
				ops = append(ops, Op{K: "await", A: []int64{int64(r.N(4))}})
			default:
				k := kinds[r.N(len(kinds))]
				later := 0
				if k != "write" && k != "rename" && k != "rmfile" {
					later = r.N(2)
				} else if r.P(1, 4) {
					later = 1
				}
				ops = append(ops, Op{K: k, A: []int64{int64(r.N(int(files))), int64(r.N(int(files))), int64(r.Pick(0, 1, 30, 200)), int64(r.N(1000)), int64(later)}})
			}
		}
		c.thread(ops...)
	}
	c.genFaults(r, "short", "delay", "delay")
	c.MaxSteps = 3_000_000
}

func init() {
	reg(&Scenario{Prop: "P06", Name: "same-file", Weight: 4, Gen: genOver, Body: overBody})
	reg(&Scenario{Prop: "P06", Name: "twin", Weight: 8, Gen: genTwin, Body: twinBody})
	reg(&Scenario{Prop: "P06", Name: "in-flight", Weight: 3,
		Gen: func(r *Rand, c *Case) {
			var ops []Op
			n := r.Pick(1, 2, 4, 8, r.Many(12, 16, 150))
			if r.P(1, 3) {
				c.set("iomax", int64(r.Pick(1, 3, 100, 512)))
			}
			for i := 0; i < n; i++ {
				ops = append(ops, Op{K: r.PickS("write", "write", "read", "readstr", "copy", "rename", "mkdir", "rmdir", "rmfile", "readdir", "missing"),
					A: []int64{int64(r.Pick(0, 1, 100, 511, 512, 513, 700)), int64(r.N(1000))}})
			}
			c.thread(ops...)
			for t, m := 0, r.N(4); t < m; t++ {
				var as []Op
				for i, q := 0, r.Range(1, 6); i < q; i++ {
					as = append(as, Op{K: "await", A: []int64{int64(r.N(n))}})
				}
				c.thread(as...)
			}
			c.genFaults(r, "short", "delay")
		},
		Body: inflightBody})
}
