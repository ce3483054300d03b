package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"runtime"

	"github.com/myyrakle/gost"
)

// ---- P10: several threads on the same few names ----
//
// The history of calls must be linearizable: there is an order of the calls,
// agreeing with real time, in which a sequential file tree gives exactly the
// outcomes the threads saw and ends in the tree that is there.

type nsModel map[string]string // path -> "/" for a directory, else an identity

func (m nsModel) clone() nsModel {
	c := nsModel{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (m nsModel) key() string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (m nsModel) empty(p string) bool {
	for k := range m {
		if strings.HasPrefix(k, p+"/") {
			return false
		}
	}
	return true
}

// apply returns the tree after op succeeded, or nil if op must fail; refuse
// reports that a failure is acceptable even so.
func (m nsModel) apply(op Op) (after nsModel, refuse bool) {
	p, q := op.s(0), op.s(1)
	dirOK := func(p string) bool { d := path.Dir(p); return d == "." || m[d] == "/" }
	switch op.K {
	case "mkdir":
		if m[p] != "" || !dirOK(p) {
			return nil, false
		}
		after = m.clone()
		after[p] = "/"
	case "rmdir":
		if m[p] != "/" || !m.empty(p) {
			return nil, false
		}
		after = m.clone()
		delete(after, p)
	case "rmfile":
		if m[p] == "" || m[p] == "/" {
			return nil, false
		}
		after = m.clone()
		delete(after, p)
	case "touch":
		if m[p] == "/" || !dirOK(p) {
			return nil, false
		}
		after = m.clone()
		after[p] = op.s(1)
	case "rename":
		if m[p] == "" || !dirOK(q) {
			return nil, false
		}
		if p == q {
			return m, m[p] == "/"
		}
		if strings.HasPrefix(q, p+"/") {
			return nil, false
		}
		if m[q] == "/" {
			if m[p] != "/" || !m.empty(q) {
				return nil, false
			}
			refuse = true
		} else if m[q] != "" && m[p] == "/" {
			return nil, false
		}
		after = m.clone()
		delete(after, q)
		for k, v := range m {
			if k == p || strings.HasPrefix(k, p+"/") {
				delete(after, k)
				after[q+k[len(p):]] = v
			}
		}
	}
	return after, refuse
}

type nsCall struct {
	op         Op
	ok         bool
	err        error
	start, end uint64 // end 0: the process crashed before it returned
}

func (c nsCall) String() string {
	s := fmt.Sprintf("%s %s", c.op.K, strings.Join(c.op.S, " "))
	switch {
	case c.end == 0:
		return s + " -> crashed"
	case c.ok:
		return s + " -> Ok"
	}
	return s + fmt.Sprintf(" -> Err(%v)", c.err)
}

// linearize searches for an order of the calls that explains them.
func linearize(init nsModel, final string, calls []*nsCall) bool {
	if len(calls) > 30 {
		return true
	}
	seen := map[string]bool{}
	var rec func(done uint32, m nsModel) bool
	rec = func(done uint32, m nsModel) bool {
		mk := m.key()
		pending := true
		for i, c := range calls {
			if done&(1<<i) == 0 && c.end != 0 {
				pending = false
			}
		}
		if pending && mk == final {
			return true
		}
		k := fmt.Sprint(done, mk)
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, c := range calls {
			if done&(1<<i) != 0 {
				continue
			}
			first := true // nothing undone returned before c began
			for j, d := range calls {
				if j != i && done&(1<<j) == 0 && d.end != 0 && d.end < c.start {
					first = false
				}
			}
			if !first {
				continue
			}
			after, refuse := m.apply(c.op)
			if (c.ok || c.end == 0) && after != nil && rec(done|1<<i, after) {
				return true
			}
			if !c.ok && c.end != 0 && (after == nil || refuse) && rec(done|1<<i, m) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

type nsState struct {
	init  nsModel
	calls []*nsCall
}

func (r *Run) nsTree() nsModel {
	m := nsModel{}
	root := r.K.look("/w/s")
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		for name, c := range n.kids {
			q := path.Join(p, name)
			if c.isDir() {
				m[q] = "/"
				rec(q, c)
			} else {
				m[q] = "f:" + string(c.data)
			}
		}
	}
	if root != nil {
		rec("", root)
	}
	return m
}

func nsVerdict(r *Run) {
	st, ok := r.X.(*nsState)
	if !ok || r.Vio != nil {
		return
	}
	final := r.nsTree()
	if !linearize(st.init, final.key(), st.calls) {
		var s []string
		sort.SliceStable(st.calls, func(i, j int) bool { return st.calls[i].start < st.calls[j].start })
		for _, c := range st.calls {
			s = append(s, fmt.Sprintf("[%d..%d] %v", c.start, c.end, c))
		}
		r.fail("atomicity", "no order of the concurrent calls explains their outcomes and the final tree: start %q; calls %s; end %q", st.init.key(), strings.Join(s, ", "), final.key())
	}
}

func nsBody(r *Run) {
	for _, op := range r.Case.Prog.T[0] {
		p := path.Join("/w/s", op.s(0))
		if r.K.look(path.Dir(p)) == nil && path.Dir(op.s(0)) != "." {
			continue
		}
		if op.K == "dir" {
			r.K.mkdirAll(p, 0o777, 1000)
		} else if n := r.K.look(p); n == nil {
			r.K.put(p, []byte(op.s(0)+op.s(1)), 0o644, 1000)
		}
	}
	r.K.mkdirAll("/w/s", 0o777, 1000)
	st := &nsState{init: r.nsTree()}
	r.X = st
	left := len(r.Case.Prog.T) - 1
	if left <= 0 {
		return
	}
	done := make(chan struct{})
	for t := range r.Case.Prog.T[1:] {
		t := t
		r.simGo("a contending thread", func() {
			for _, op := range r.Case.Prog.T[1+t] {
				if op.K == "yield" {
					yields(op.a(0))
					continue
				}
				c := &nsCall{op: Op{K: op.K, S: append([]string(nil), op.S...)}}
				real := Op{K: op.K, S: []string{"s/" + op.s(0)}}
				if op.K == "rename" {
					real.S = append(real.S, "s/"+op.s(1))
				}
				if op.K == "touch" {
					c.op.S[1] = "f:"
				}
				c.start = runtime.SimSteps()
				st.calls = append(st.calls, c)
				var f fsRes
				switch {
				case op.K == "touch":
					f, _ = fromResult(gost.Write(gost.String(real.s(0)), nil))
				case op.a(0) == 1:
					f = doAsync(real)()
				default:
					f = doSync(real)
				}
				c.ok, c.err = f.ok, f.err
				c.end = runtime.SimSteps()
				if f.bad != "" {
					r.fail("result", "%v: %s", op, f.bad)
				}
				r.op(op.K)
				r.logf("%v", c)
			}
			left--
			if left == 0 {
				close(done)
			}
		})
	}
	<-done
}

// ---- P11: listing a directory while others add and remove entries ----

type life struct {
	typ        byte
	from, till uint64 // may exist between these; till 0: still may
}

func churnBody(r *Run) {
	c := r.Case
	k := r.K
	k.direntN = int(c.p("dirent"))
	k.dtUnk = c.p("dtunk") == 1
	k.mkdirAll("/w/s", 0o777, 1000)
	stable := map[string]byte{}
	for _, op := range c.Prog.T[0] {
		p := "/w/s/" + op.s(0)
		switch op.K {
		case "file":
			k.put(p, nil, 0o644, 1000)
			stable[op.s(0)] = 'f'
		case "dir":
			k.mkdirAll(p, 0o755, 1000)
			stable[op.s(0)] = 'd'
		case "link":
			k.putLink(p, "anywhere")
			stable[op.s(0)] = 'l'
		}
	}
	lives := map[string][]*life{}
	left := len(c.Prog.T) - 1
	if left <= 0 {
		return
	}
	done := make(chan struct{})
	for t := range c.Prog.T[1:] {
		t := t
		r.simGo("a directory thread", func() {
			for _, op := range c.Prog.T[1+t] {
				switch op.K {
				case "yield":
					yields(op.a(0))
				case "add":
					name := fmt.Sprintf("t%d-%s", t, op.s(0))
					ls := lives[name]
					if len(ls) > 0 && ls[len(ls)-1].till == 0 {
						continue
					}
					l := &life{typ: "df"[op.a(0)&1], from: runtime.SimSteps()}
					lives[name] = append(ls, l)
					if l.typ == 'd' {
						gost.CreateDir(gost.String("s/" + name))
					} else {
						gost.Write(gost.String("s/"+name), nil)
					}
				case "del":
					name := fmt.Sprintf("t%d-%s", t, op.s(0))
					ls := lives[name]
					if len(ls) == 0 || ls[len(ls)-1].till != 0 {
						continue
					}
					l := ls[len(ls)-1]
					if l.typ == 'd' {
						gost.RemoveDir(gost.String("s/" + name))
					} else {
						gost.RemoveFile(gost.String("s/" + name))
					}
					l.till = runtime.SimSteps()
				case "list":
					s0 := runtime.SimSteps()
					lop := Op{K: "readdir", S: []string{"s"}}
					var f fsRes
					if op.a(0) == 1 {
						f = doAsync(lop)()
					} else {
						f = doSync(lop)
					}
					s1 := runtime.SimSteps()
					r.op("list")
					if !f.ok {
						r.fail("err", "listing a directory that others change failed: %v %s", f.err, f.bad)
					}
					seen := map[string]bool{}
					for i := gost.USize(0); i < f.vec.Len(); i++ {
						e := f.vec.GetUnchecked(i)
						name := string(e.FileName)
						if seen[name] {
							r.fail("entry", "a listing has %q twice", name)
						}
						seen[name] = true
						typ := byte(0)
						switch {
						case bool(e.FileType.IsDir()):
							typ = 'd'
						case bool(e.FileType.IsFile()):
							typ = 'f'
						case bool(e.FileType.IsSymlink()):
							typ = 'l'
						}
						okay := stable[name] == typ && typ != 0
						for _, l := range lives[name] {
							okay = okay || l.typ == typ && l.from <= s1 && (l.till == 0 || l.till >= s0)
						}
						if !okay {
							r.fail("entry", "a listing has %q of type %q, which was not in the directory at any time during the call", name, typ)
						}
					}
					var names []string
					for name := range stable {
						names = append(names, name)
					}
					sort.Strings(names)
					for _, name := range names {
						if !seen[name] {
							r.fail("entry", "a listing lacks %q, which was in the directory all the time", name)
						}
					}
				}
			}
			left--
			if left == 0 {
				close(done)
			}
		})
	}
	<-done
}

func init() {
	names := []string{"a", "b", "a/x", "a/y", "b/x", "c"}
	reg(&Scenario{Prop: "P10", Name: "contenders", Weight: 5,
		Gen: func(r *Rand, c *Case) {
			var setup []Op
			for _, n := range names {
				if r.P(1, 2) {
					k := r.PickS("dir", "file")
					if strings.Contains(n, "/") {
						k = r.PickS("file", "file", "dir")
					} else if r.P(1, 2) {
						k = "dir"
					}
					setup = append(setup, Op{K: k, S: []string{n, "!"}})
				}
			}
			ok := setup[:0]
			dirs := map[string]bool{".": true}
			for _, o := range setup { // parents come first in names
				if dirs[path.Dir(o.S[0])] {
					ok = append(ok, o)
					if o.K == "dir" {
						dirs[o.S[0]] = true
					}
				}
			}
			c.thread(ok...)
			nt := r.Range(2, 4)
			hot := names[r.N(len(names))]
			pick := func() string {
				if r.P(1, 2) {
					return hot
				}
				return names[r.N(len(names))]
			}
			for t := 0; t < nt; t++ {
				var ops []Op
				for i, m := 0, r.Range(1, 4); i < m; i++ {
					op := Op{K: r.PickS("mkdir", "rmdir", "rmfile", "rename", "rename", "touch"), S: []string{pick(), pick()}, A: []int64{int64(r.N(4))}}
					ops = append(ops, op)
					if r.P(1, 5) {
						ops = append(ops, Op{K: "yield", A: []int64{int64(r.N(10))}})
					}
				}
				c.thread(ops...)
			}
			c.genFaults(r, "delay", "delay", "crash")
		},
		Body:  nsBody,
		After: func(r *Run, reason int) { nsVerdict(r) },
		Crash: nsVerdict})
	reg(&Scenario{Prop: "P11", Name: "churn", Weight: 4,
		Gen: func(r *Rand, c *Case) {
			if r.P(2, 3) {
				c.set("dirent", int64(r.Pick(1, 2, 3, 10)))
			}
			c.set("dtunk", int64(r.N(2)))
			var setup []Op
			for i, n := 0, r.Pick(0, 1, 3, 8, 20); i < n; i++ {
				setup = append(setup, Op{K: r.PickS("file", "file", "dir", "link"), S: []string{fmt.Sprintf("%c-stable-%d", 'a'+r.N(26), i)}})
			}
			c.thread(setup...)
			for t, n := 0, r.Range(2, 4); t < n; t++ {
				var ops []Op
				lister := t == 0 || r.P(1, 3)
				for i, m := 0, r.Range(1, 8); i < m; i++ {
					if lister && r.P(2, 3) {
						ops = append(ops, Op{K: "list", A: []int64{int64(r.N(3))}})
						continue
					}
					ops = append(ops, Op{K: r.PickS("add", "add", "del"), A: []int64{int64(r.N(2))}, S: []string{fmt.Sprint(r.N(3))}})
				}
				c.thread(ops...)
			}
			c.genFaults(r, "delay", "short")
		},
		Body: churnBody})
}
