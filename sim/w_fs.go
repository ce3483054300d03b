package main

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
)

// ---- file contents ----

func pattern(size, seed int64) []byte {
	b := make([]byte, size)
	x := uint64(seed)*0x9e3779b97f4a7c15 + 1
	for i := range b {
		if i%8 == 0 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
		}
		b[i] = byte(x >> (uint(i%8) * 8))
	}
	if seed%3 == 0 { // text
		for i := range b {
			b[i] = "abc xyz\n\r\t{}é"[int(b[i])%13]
		}
	}
	return b
}

func toGost(b []byte) []gost.Byte {
	if b == nil {
		return nil
	}
	out := make([]gost.Byte, len(b))
	for i := range b {
		out[i] = gost.Byte(b[i])
	}
	return out
}

func fromGost(b []gost.Byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[i] = byte(b[i])
	}
	return out
}

// ---- snapshots ----

type ent struct {
	kind byte // d, f, l
	mode uint32
	size int
	hash uint64
	ino  uint64
	to   string
}

func (e ent) String() string {
	switch e.kind {
	case 0:
		return "absent"
	case 'd':
		return fmt.Sprintf("directory %04o", e.mode)
	case 'l':
		return "symlink to " + e.to
	case 's':
		return fmt.Sprintf("socket %04o", e.mode)
	}
	return fmt.Sprintf("file %04o, %d bytes, content %x", e.mode, e.size, e.hash&0xffffff)
}

func (n *inode) contentHash() uint64 {
	if n.hgen != n.gen+1 {
		n.hash = fnv(n.data)
		n.hgen = n.gen + 1
	}
	return n.hash
}

func entOf(n *inode) ent {
	switch {
	case n == nil:
		return ent{}
	case n.isDir():
		return ent{kind: 'd', mode: n.mode & 0o7777}
	case n.isLnk():
		return ent{kind: 'l', to: n.target}
	case n.isSock():
		return ent{kind: 's', mode: n.mode & 0o7777, ino: n.ino}
	}
	return ent{kind: 'f', mode: n.mode & 0o7777, size: len(n.data), hash: n.contentHash(), ino: n.ino}
}

type tree map[string]ent

func snapTree(n *inode, p string, t tree) {
	t[p] = entOf(n)
	if n.isDir() {
		for name, c := range n.kids {
			snapTree(c, p+"/"+name, t)
		}
	}
}

func (t tree) clone() tree {
	c := tree{}
	for k, v := range t {
		c[k] = v
	}
	return c
}

func sameEnt(a, b ent) bool {
	a.ino, b.ino = 0, 0
	return a == b
}

// diff lists the paths that differ.
func (t tree) diff(o tree) []string {
	var d []string
	for k, v := range t {
		if w, ok := o[k]; !ok || !sameEnt(v, w) {
			d = append(d, k)
		}
	}
	for k := range o {
		if _, ok := t[k]; !ok {
			d = append(d, k)
		}
	}
	sort.Strings(d)
	return d
}

func explain(d []string, want, got tree) string {
	var s []string
	for i, p := range d {
		if i == 6 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%s: want %v, have %v", p, want[p], got[p]))
	}
	return strings.Join(s, "; ")
}

// ---- one thread's private part of the file system ----

type fsW struct {
	r    *Run
	k    *Kernel
	t    int
	root string // absolute
	last tree   // expected state between operations
	busy *fsOp  // operation in flight
	open bool   // the thread is inside an operation
}

type fsOp struct {
	op     Op
	prop   string
	before tree
	expOk  tree           // the tree if the operation succeeds; nil if it must fail
	target string         // the path an unfinished write may have left in between
	data   []byte         // what the target may hold a prefix of
	also   tree           // second acceptable outcome of success
	mark   int            // fault log position
	may    map[string]int // paths the operation may affect
}

func (w *fsW) snap() tree {
	t := tree{}
	if n := w.k.look(w.root); n != nil {
		snapTree(n, w.root, t)
	}
	return t
}

func (w *fsW) mine(p string) bool { return p == w.root || strings.HasPrefix(p, w.root+"/") }

func (w *fsW) openFds() []string {
	var o []string
	for fd, f := range w.k.fds {
		if f.n != nil && w.mine(f.path) {
			o = append(o, fmt.Sprintf("%s (fd %d)", f.path, fd-fdBase))
		}
	}
	sort.Strings(o)
	return o
}

// faults since the operation began, on this thread's paths.
func (w *fsW) faults(mark int) (soft, eintr, hard bool, desc string) {
	var ds []string
	for _, f := range w.k.FaultLog[mark:] {
		if !w.mine(f.path) && strings.HasPrefix(f.path, "/w/t") && strings.Count(f.path, "/") > 2 {
			continue // a path of another thread
		}
		ds = append(ds, f.call+":"+f.kind)
		switch f.kind {
		case "short", "delay":
			soft = true
		case "EINTR":
			eintr = true
		default:
			hard = true
		}
	}
	return soft, eintr, hard, strings.Join(ds, ",")
}

// viol reports a violation if it concerns the property being checked.
func (w *fsW) viol(prop, class, f string, a ...any) {
	if prop != w.r.Case.Prop {
		return
	}
	w.r.fail(class, f, a...)
}

func (k *Kernel) canon(dir *inode, name string) string { return path.Join(k.pathOf(dir), name) }

func (k *Kernel) fullPath(n *inode, dir *inode, name string) string {
	if n != nil && n.isDir() {
		return k.pathOf(n)
	}
	return k.canon(dir, name)
}

// plan computes what the operation must do, from the state before it.
func (w *fsW) plan(op Op) *fsOp {
	k := w.k
	o := &fsOp{op: op, before: w.snap(), mark: len(k.FaultLog), may: map[string]int{}}
	p := op.s(0)
	switch op.K {
	case "mkdir":
		o.prop = "P10"
		if dir, name, e := k.mkdirCheck(k.cwd0, p); e == 0 {
			c := k.canon(dir, name)
			o.expOk = o.before.clone()
			o.expOk[c] = ent{kind: 'd', mode: 0o777 &^ k.umask0}
		}
	case "rmdir", "rmfile":
		o.prop = "P10"
		if dir, name, _, e := k.unlinkCheck(k.cwd0, p, op.K == "rmdir"); e == 0 {
			o.expOk = o.before.clone()
			delete(o.expOk, k.canon(dir, name))
		}
	case "rename":
		o.prop = "P10"
		pl, e := k.renameCheck(k.cwd0, p, k.cwd0, op.s(1), 0)
		if e == 0 {
			o.expOk = o.before.clone()
			if pl.f1 != pl.f2 {
				from, to := k.canon(pl.d1, pl.n1), k.canon(pl.d2, pl.n2)
				moved := tree{}
				for q, v := range o.before {
					if q == from || strings.HasPrefix(q, from+"/") {
						delete(o.expOk, q)
						moved[to+q[len(from):]] = v
					}
				}
				for q, v := range moved {
					o.expOk[q] = v
				}
			}
			if pl.f2 != nil && pl.f2.isDir() {
				// renaming onto an existing directory may be refused
				o.may["refuse"] = 1
			}
		}
	case "write":
		o.prop = "P07"
		o.data = pattern(op.a(0), op.a(1))
		if dir, name, n, e := k.openCheck(k.cwd0, p, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC); e == 0 {
			o.target = k.canon(dir, name)
			o.expOk = o.before.clone()
			if n == nil {
				o.expOk[o.target] = ent{kind: 'f', mode: 0o666 &^ k.umask0, size: len(o.data), hash: fnv(o.data)}
			} else {
				o.expOk[o.target] = ent{kind: 'f', mode: n.mode & 0o7777, size: len(o.data), hash: fnv(o.data)}
			}
			// an open descriptor for reading as well is a possible way to do it
			if n != nil && !k.access(n, 4) {
				o.may["refuse"] = 1
			}
		}
	case "copy":
		o.prop = "P09"
		sdir, sname, src, e := k.openCheck(k.cwd0, p, syscall.O_RDONLY)
		_, _ = sdir, sname
		if e == 0 && src != nil && src.isReg() {
			o.data = src.data
			dir, name, _, e := k.openCheck(k.cwd0, op.s(1), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC)
			if _, _, dst, _ := k.walk(k.cwd0, op.s(1), true, true); dst == src {
				// copying a file onto itself: refused or not, nothing changes
				o.expOk = o.before
				o.data = nil
				o.may["refuse"] = 1
			} else if e == 0 {
				o.target = k.canon(dir, name)
				o.expOk = o.before.clone()
				o.expOk[o.target] = ent{kind: 'f', mode: src.mode & 0o777, size: len(src.data), hash: src.contentHash()}
				o.data = append([]byte(nil), src.data...)
			}
		}
	case "read", "readstr":
		o.prop = "P08"
		if _, _, n, e := k.openCheck(k.cwd0, p, syscall.O_RDONLY); e == 0 && n.isReg() {
			o.expOk = o.before
			o.data = n.data
		}
	case "readdir":
		o.prop = "P11"
		if _, _, n, e := k.openCheck(k.cwd0, p, syscall.O_RDONLY); e == 0 && n.isDir() {
			o.expOk = o.before
			if !k.access(n, 1) {
				o.may["refuse"] = 1
			}
		}
	}
	if k.cap >= 0 && (op.K == "write" || op.K == "copy") {
		o.may["nospace"] = 1
	}
	return o
}

// outcome of one call, whichever way it was made
type fsRes struct {
	ok   bool
	err  error
	data []byte
	vec  gost.Vec[gost.DirEntry]
	bad  string
}

func fromResult[T any](res gost.Result[T]) (fsRes, bool) {
	var f fsRes
	f.ok = bool(res.IsOk())
	if f.ok == bool(res.IsErr()) {
		f.bad = "the result is neither Ok nor Err"
		return f, false
	}
	if !f.ok {
		f.err = res.UnwrapErr()
		if f.err == nil {
			f.bad = "Err without an error"
		}
		return f, false
	}
	return f, true
}

func doSync(op Op) (f fsRes) {
	p, q := gost.String(op.s(0)), gost.String(op.s(1))
	switch op.K {
	case "mkdir":
		f, _ = fromResult(gost.CreateDir(p))
	case "rmdir":
		f, _ = fromResult(gost.RemoveDir(p))
	case "rmfile":
		f, _ = fromResult(gost.RemoveFile(p))
	case "rename":
		f, _ = fromResult(gost.Rename(p, q))
	case "copy":
		f, _ = fromResult(gost.Copy(p, q))
	case "write":
		f, _ = fromResult(gost.Write(p, toGost(pattern(op.a(0), op.a(1)))))
	case "read":
		res := gost.Read(p)
		ok := false
		if f, ok = fromResult(res); ok {
			f.data = fromGost(res.Unwrap())
		}
	case "readstr":
		res := gost.ReadToString(p)
		ok := false
		if f, ok = fromResult(res); ok {
			f.data = []byte(string(res.Unwrap()))
		}
	case "readdir":
		res := gost.ReadDir(p)
		ok := false
		if f, ok = fromResult(res); ok {
			f.vec = res.Unwrap()
		}
	}
	return f
}

// doAsync starts the gokio operation and returns a function that awaits it.
func doAsync(op Op) func() fsRes {
	p, q := gost.String(op.s(0)), gost.String(op.s(1))
	unit := func(fu gost.Future[gost.Result[any]]) func() fsRes {
		return func() fsRes { f, _ := fromResult(fu.Await()); return f }
	}
	switch op.K {
	case "mkdir":
		return unit(gokio.CreateDir(p))
	case "rmdir":
		return unit(gokio.RemoveDir(p))
	case "rmfile":
		return unit(gokio.RemoveFile(p))
	case "rename":
		return unit(gokio.Rename(p, q))
	case "copy":
		return unit(gokio.Copy(p, q))
	case "write":
		return unit(gokio.Write(p, toGost(pattern(op.a(0), op.a(1)))))
	case "read":
		fu := gokio.Read(p)
		return func() fsRes {
			res := fu.Await()
			f, ok := fromResult(res)
			if ok {
				f.data = fromGost(res.Unwrap())
			}
			return f
		}
	case "readstr":
		fu := gokio.ReadToString(p)
		return func() fsRes {
			res := fu.Await()
			f, ok := fromResult(res)
			if ok {
				f.data = []byte(string(res.Unwrap()))
			}
			return f
		}
	case "readdir":
		fu := gokio.ReadDir(p)
		return func() fsRes {
			res := fu.Await()
			f, ok := fromResult(res)
			if ok {
				f.vec = res.Unwrap()
			}
			return f
		}
	}
	return func() fsRes { return fsRes{bad: "unknown op"} }
}

var fsOps = map[string]bool{"mkdir": true, "rmdir": true, "rmfile": true, "rename": true, "copy": true, "write": true, "read": true, "readstr": true, "readdir": true}

// step runs one operation and checks its outcome.
func (w *fsW) step(op Op) {
	r := w.r
	if !fsOps[op.K] {
		if op.K == "yield" {
			yields(op.a(0))
		}
		return
	}
	o := w.plan(op)
	if d := w.last.diff(o.before); len(d) > 0 {
		w.viol("P12", "confinement", "between two operations of thread %d its files changed: %s", w.t, explain(d, w.last, o.before))
	}
	w.busy = o
	panicked := true
	var res fsRes
	func() {
		defer func() {
			if panicked {
				e := recover()
				w.viol(o.prop, "panic", "%v panicked: %v", op, e)
				panicked = true
			}
		}()
		if op.a(3) == 1 {
			res = doAsync(op)()
		} else {
			res = doSync(op)
		}
		panicked = false
	}()
	after := w.snap()
	w.busy = nil
	w.last = after
	r.op(op.K)
	soft, eintr, hard, fdesc := w.faults(o.mark)
	_ = soft
	if fdesc != "" {
		fdesc = " (injected: " + fdesc + ")"
	}
	if fds := w.openFds(); len(fds) > 0 {
		w.viol("P12", "fd-leak", "%v left %s open%s", op, strings.Join(fds, ", "), fdesc)
	}
	if panicked {
		return
	}
	if res.bad != "" {
		w.viol(o.prop, "result", "%v: %s%s", op, res.bad, fdesc)
		return
	}
	r.logf("%v -> ok=%v err=%v%s", op, res.ok, res.err, fdesc)

	if res.ok {
		if o.expOk == nil {
			w.viol(o.prop, "ok", "%v returned Ok but cannot have succeeded%s: %s", op, fdesc, w.why(o))
			return
		}
		if d := o.expOk.diff(after); len(d) > 0 {
			w.viol(o.prop, "effect", "%v returned Ok%s, but: %s", op, fdesc, explain(d, o.expOk, after))
			w.confined(o, after, fdesc)
			return
		}
		switch op.K {
		case "read", "readstr":
			if string(res.data) != string(o.data) {
				w.viol(o.prop, "content", "%v returned Ok with %d bytes (%s), the file holds %d bytes (%s)%s", op, len(res.data), trunc(res.data), len(o.data), trunc(o.data), fdesc)
			}
		case "readdir":
			w.checkDir(o, res, fdesc)
		}
		return
	}
	// Err
	if o.expOk != nil && !eintr && !hard && len(o.may) == 0 {
		w.viol(o.prop, "err", "%v returned Err(%v)%s, but nothing stands in its way", op, res.err, fdesc)
	}
	if o.expOk == nil || (o.target == "" || len(o.may) > 0 && o.may["nospace"] == 0) && !hard && !eintr {
		if d := o.before.diff(after); len(d) > 0 {
			w.viol(o.prop, "effect", "%v returned Err(%v)%s, yet changed: %s", op, res.err, fdesc, explain(d, o.before, after))
		}
	} else {
		w.partial(o, after, o.prop, fmt.Sprintf("after %v returned Err(%v)%s", op, res.err, fdesc))
	}
	w.confined(o, after, fdesc)
}

// confined: whatever the outcome, only the paths the operation names change.
func (w *fsW) confined(o *fsOp, after tree, fdesc string) {
	for _, p := range o.before.diff(after) {
		if !w.names(o, p) {
			w.viol("P12", "confinement", "%v%s changed %s, which it does not name: was %v, is %v", o.op, fdesc, p, o.before[p], after[p])
		}
	}
}

// names reports whether the operation may change path p.
func (w *fsW) names(o *fsOp, p string) bool {
	if o.target != "" {
		return p == o.target
	}
	if o.expOk != nil {
		for _, q := range o.before.diff(o.expOk) {
			if p == q {
				return true
			}
		}
	}
	return false
}

func (w *fsW) why(o *fsOp) string {
	if o.op.K == "rename" || o.op.K == "copy" {
		return fmt.Sprintf("%q is %v, %q is %v", o.op.s(0), entOf(w.lookRel(o.op.s(0))), o.op.s(1), entOf(w.lookRel(o.op.s(1))))
	}
	return fmt.Sprintf("%q was %v", o.op.s(0), o.before[w.k.abs(w.k.cwd0, o.op.s(0))])
}

func (w *fsW) lookRel(p string) *inode {
	_, _, n, _ := w.k.walk(w.k.cwd0, p, false, true)
	return n
}

// partial checks the state an unfinished operation may leave behind: what was
// there before, or the target with a prefix of the new content.
func (w *fsW) partial(o *fsOp, after tree, prop, when string) {
	for _, p := range o.before.diff(after) {
		if p != o.target {
			if o.target == "" && o.expOk != nil && len(o.expOk.diff(after)) == 0 {
				return // a single-step operation that took effect
			}
			w.viol(prop, "effect", "%s %s changed from %v to %v", when, p, o.before[p], after[p])
			w.viol("P12", "confinement", "%s %s changed from %v to %v", when, p, o.before[p], after[p])
			return
		}
		e := after[p]
		if e.kind == 0 {
			if o.before[p].kind != 0 {
				w.viol(prop, "effect", "%s the target %s is gone", when, p)
			}
			continue
		}
		n := w.k.look(p)
		if e.kind != 'f' || len(n.data) > len(o.data) || string(n.data) != string(o.data[:len(n.data)]) {
			if sameEnt(ent{kind: 'f', size: e.size, hash: e.hash}, ent{kind: 'f', size: o.before[p].size, hash: o.before[p].hash}) {
				continue // old content, mode changed
			}
			w.viol(prop, "effect", "%s the target %s holds %d bytes (%s): neither its old content nor a prefix of the new (%d bytes, %s)", when, p, len(n.data), trunc(n.data), len(o.data), trunc(o.data))
		}
	}
}

func (w *fsW) checkDir(o *fsOp, res fsRes, fdesc string) {
	_, _, n, _ := w.k.walk(w.k.cwd0, o.op.s(0), true, true)
	if n == nil {
		return
	}
	seen := map[string]int{}
	for i := gost.USize(0); i < res.vec.Len(); i++ {
		e := res.vec.GetUnchecked(i)
		name := string(e.FileName)
		seen[name]++
		c := n.kids[name]
		if c == nil {
			w.viol("P11", "entry", "%v lists %q, which does not exist%s", o.op, name, fdesc)
			return
		}
		if seen[name] > 1 {
			w.viol("P11", "entry", "%v lists %q twice%s", o.op, name, fdesc)
		}
		if got, want := filepath.Clean(string(e.Path)), filepath.Join(o.op.s(0), name); got != want {
			w.viol("P11", "path", "%v: entry %q has path %q, want %q%s", o.op, name, e.Path, want, fdesc)
		} else if at := w.atPath(string(e.Path)); at != c {
			w.viol("P11", "path", "%v: entry %q has path %q, where another entry or none is%s", o.op, name, e.Path, fdesc)
		}
		d, f, l := bool(e.FileType.IsDir()), bool(e.FileType.IsFile()), bool(e.FileType.IsSymlink())
		if d != c.isDir() || f != c.isReg() || l != c.isLnk() {
			w.viol("P11", "type", "%v: entry %q is %v, but IsDir=%v IsFile=%v IsSymlink=%v%s", o.op, name, entOf(c), d, f, l, fdesc)
		}
	}
	for name := range n.kids {
		if seen[name] == 0 {
			w.viol("P11", "entry", "%v does not list %q (%d of %d entries listed)%s", o.op, name, len(seen), len(n.kids), fdesc)
		}
	}
}

// atPath is what a path names, whoever asks.
func (w *fsW) atPath(p string) *inode {
	_, _, n, _ := w.k.walk(w.k.cwd0, p, false, true)
	return n
}

// ---- worlds ----

func (r *Run) buildWorld() {
	k, c := r.K, r.Case
	k.umask = uint32(c.p("umask"))
	k.umask0 = k.umask
	k.uid = uint32(c.p("uid"))
	k.ioMax = int(c.p("iomax"))
	k.direntN = int(c.p("dirent"))
	k.dtUnk = c.p("dtunk") == 1
	type chm struct {
		n *inode
		m uint32
	}
	var later []chm
	for t := range c.Prog.T[1:] {
		k.mkdirAll("/w/"+baseDir(t), 0o755, 1000)
	}
	for _, op := range c.Prog.T[0] {
		p := path.Join("/w", op.s(0))
		if n := k.look(path.Dir(p)); n == nil || !n.isDir() || n.kids[path.Base(p)] != nil {
			continue
		}
		switch op.K {
		case "file":
			n := k.put(p, pattern(op.a(0), op.a(2)), 0o600, 1000)
			later = append(later, chm{n, uint32(op.a(1))})
		case "proc":
			n := k.put(p, pattern(op.a(0), op.a(2)), 0o600, 1000)
			n.proc = true
			later = append(later, chm{n, uint32(op.a(1))})
		case "sock":
			n := k.put(p, nil, 0o600, 1000)
			n.mode = sIFSOCK | uint32(op.a(1))
		case "dir":
			n := k.mkdirAll(p, 0o755, 1000)
			later = append(later, chm{n, uint32(op.a(1))})
		case "link":
			k.putLink(p, op.s(1))
		}
	}
	for _, l := range later {
		l.n.mode = l.n.mode&sIFMT | l.m
	}
	k.ro = c.p("ro") == 1
	if c.p("cap") > 0 {
		k.cap = k.used + c.p("cap") - 1
	} else {
		k.cap = -1
	}
}

var oddNames = []string{"a b", ".hidden", "ünï", "new\nline", "-rf", "x{}y", "...", "日本"}

// baseDir is where thread t works, relative to the working directory. It lies
// two levels below the thread's own directory, so that ".." behind a symlink
// stays inside it.
func baseDir(t int) string { return fmt.Sprintf("t%d/b/c", t) }

type nameGen struct {
	r    *Rand
	t    int
	dirs []string // relative to the thread root, "" is the root
	all  []string
	link []string
}

func (g *nameGen) fresh() string {
	d := g.dirs[g.r.N(len(g.dirs))]
	n := ""
	switch g.r.W(20, 4, 1) {
	case 0:
		n = g.r.PickS("f", "g", "h", "d", "e", "n") + fmt.Sprint(g.r.N(4))
	case 1:
		n = oddNames[g.r.N(len(oddNames))]
	case 2:
		n = strings.Repeat("L", g.r.Pick(200, 255, 256))
	}
	return path.Join(d, n)
}

// pick names a path for an operation, in one of several spellings.
func (g *nameGen) pick() string {
	r := g.r
	var p string
	if r.P(7, 10) && len(g.all) > 0 {
		p = g.all[r.N(len(g.all))]
	} else {
		p = g.fresh()
	}
	return g.spell(p)
}

func (g *nameGen) spell(p string) string {
	r := g.r
	root := baseDir(g.t)
	full := path.Join(root, p)
	switch r.W(50, 15, 5, 5, 5, 4, 2, 1, 1, 3) {
	case 1:
		return "/w/" + full
	case 2:
		return "./" + full
	case 3:
		return full + "/"
	case 4:
		return root + "//" + p
	case 5:
		d := g.dirs[r.N(len(g.dirs))]
		if d != "" && strings.Count(d, "/") < 2 {
			return root + "/" + d + "/" + strings.Repeat("../", strings.Count(d, "/")+1) + p
		}
	case 6:
		return full + "/below"
	case 7:
		return ""
	case 8:
		return root
	case 9:
		return path.Join(root, "missing", path.Base("x"+p))
	}
	return full
}

// dotted is a path that ends in a dot element, also behind a symlink.
func (g *nameGen) dotted() string {
	r := g.r
	root := baseDir(g.t)
	if d := g.dirs[r.N(len(g.dirs))]; d != "" {
		root += "/" + d
	}
	switch r.N(7) {
	case 0:
		return "."
	case 1:
		return r.PickS("..", "../w", "/", "//", "./")
	case 2:
		return root + r.PickS("/.", "/./", "/.//.")
	case 3, 4:
		return root + r.PickS("/..", "/../", "/../.")
	}
	if len(g.link) == 0 {
		return root + "/.."
	}
	l := baseDir(g.t) + "/" + g.link[r.N(len(g.link))]
	return l + r.PickS("/..", "/.", "/../", "/")
}

func genFsWorld(r *Rand, c *Case, nt int, small bool) []*nameGen {
	c.set("umask", int64(r.Pick(0o22, 0o22, 0o22, 0o77, 0, 0o27, 0o177)))
	c.set("uid", int64(r.Pick(1000, 1000, 1000, 1000, 1000, 1000, 0)))
	if r.P(1, 2) {
		c.set("iomax", int64(r.Pick(1, 3, 7, 100, 512, 4096, 5000)))
	}
	if r.P(1, 2) {
		c.set("dirent", int64(r.Pick(1, 2, 3, 10)))
	}
	if r.P(1, 4) {
		c.set("dtunk", 1)
	}
	if r.P(1, 40) {
		c.set("ro", 1)
	}
	if r.P(1, 10) {
		c.set("cap", 1+int64(r.Pick(0, 1, 100, 511, 1000, 5000)))
	}
	var setup []Op
	var gs []*nameGen
	for t := 0; t < nt; t++ {
		g := &nameGen{r: r, t: t, dirs: []string{""}}
		root := baseDir(t)
		n := r.Pick(2, 5, 8, 12)
		if r.P(1, 30) {
			n = r.Pick(60, 130, 300)
			if (c.Prop == "P11" || c.Prop == "P06") && r.P(1, 8) {
				n = r.Pick(600, 1030, 2060, 4100)
			}
		}
		named := map[string]bool{}
		for i := 0; i < n; i++ {
			p := g.fresh()
			if n > 20 && r.P(9, 10) {
				p = path.Join(g.dirs[len(g.dirs)-1], fmt.Sprintf("many-%d-%s", i, strings.Repeat("x", r.N(60))))
			}
			if named[p] || len(path.Base(p)) > 255 {
				continue
			}
			perm := int64(0o644)
			if r.P(1, 3) {
				perm = int64(r.Pick(0o600, 0o400, 0o444, 0o755, 0o000, 0o200, 0o777, 0o640, 0o664, 0o1644))
			}
			switch r.W(50, 25, 15, 4, 2) {
			case 0:
				setup = append(setup, Op{K: "file", S: []string{path.Join(root, p)}, A: []int64{fsSize(r, c), perm, int64(r.N(1000))}})
			case 1:
				perm = 0o755
				if r.P(1, 5) {
					perm = int64(r.Pick(0o555, 0o700, 0o777, 0o000, 0o311))
				}
				setup = append(setup, Op{K: "dir", S: []string{path.Join(root, p)}, A: []int64{0, perm}})
				g.dirs = append(g.dirs, p)
			case 2:
				to := ""
				switch r.W(4, 3, 2, 1) {
				case 0:
					if len(g.all) > 0 {
						to = "/w/" + path.Join(root, g.all[r.N(len(g.all))])
					} else {
						to = "/w/" + root
					}
				case 1:
					if len(g.all) > 0 && path.Dir(p) == "." {
						to = g.all[r.N(len(g.all))]
					} else {
						to = "."
					}
				case 2:
					to = "/w/" + path.Join(root, "dangling", "x")
					if r.Bool() {
						to = "/w/" + path.Join(root, fmt.Sprint("dangling", r.N(3)))
					}
				case 3:
					to = path.Base(p) // loop
				}
				setup = append(setup, Op{K: "link", S: []string{path.Join(root, p), to}})
				g.link = append(g.link, p)
			case 3:
				setup = append(setup, Op{K: "proc", S: []string{path.Join(root, p)}, A: []int64{int64(r.Pick(0, 1, 100, 511, 512, 513, 2000)), 0o444, int64(r.N(1000))}})
			case 4:
				setup = append(setup, Op{K: "sock", S: []string{path.Join(root, p)}, A: []int64{0, 0o755}})
			}
			g.all = append(g.all, p)
			named[p] = true
		}
		gs = append(gs, g)
	}
	c.thread(setup...)
	return gs
}

func fsSize(r *Rand, c *Case) int64 {
	if m := c.p("iomax"); m > 0 && m < 100 {
		return int64(r.Pick(0, 1, 2, 10, 100, 511, 512, 513, 600))
	}
	switch r.W(80, 60, 24, 8, 2) {
	case 4:
		n := r.Pick(65535, 65536, 65537, 70000, 100000, 131071, 131072, 131073, 196608, 200000, 262143, 262144, 262145)
		if r.P(1, 40) {
			n = r.Pick(1<<20-1, 1<<20, 1<<20+1, 1500000, 1<<21, 1<<21+1, 1<<22+1)
		}
		if c.big == 0 { // one per run: they take their time
			c.big = int64(n)
			return c.big
		}
	case 0:
		return int64(r.Pick(0, 1, 2, 10, 100, 511, 512, 513, 600, 1000))
	case 1:
		return int64(r.N(3000))
	case 2:
		return int64(r.Pick(4095, 4096, 4097, 8191, 8192, 8193, 10000))
	}
	return int64(r.Pick(32767, 32768, 32769, 50000))
}

// genFsOps gives a thread operations, mostly of the kinds in focus.
func genFsOps(r *Rand, c *Case, g *nameGen, n int, focus ...string) []Op {
	all := []string{"mkdir", "rmdir", "rmfile", "rename", "copy", "write", "read", "readstr", "readdir"}
	var ops []Op
	for i := 0; i < n; i++ {
		k := all[r.N(len(all))]
		if r.P(3, 4) && len(focus) > 0 {
			k = focus[r.N(len(focus))]
		}
		op := Op{K: k, S: []string{g.pick()}, A: []int64{0, 0, 0, 0}}
		switch k {
		case "readdir":
			if r.P(1, 8) {
				op.S[0] = g.dotted()
			}
		case "rename", "copy":
			op.S = append(op.S, g.pick())
			if r.P(1, 12) {
				op.S[1] = op.S[0]
			}
		case "write":
			op.A[0] = fsSize(r, c)
			op.A[1] = int64(r.N(1000))
		}
		ops = append(ops, op)
		if k == "mkdir" || k == "write" || k == "rename" || k == "copy" {
			// later operations should find what this one made
			q := op.S[len(op.S)-1]
			root := baseDir(g.t)
			q = path.Clean(q)
			q = strings.TrimPrefix(strings.TrimPrefix(q, "/w/"), root+"/")
			if q != root && q != "." && !strings.HasPrefix(q, "/") && !strings.HasPrefix(q, "t") {
				g.all = append(g.all, q)
				if k == "mkdir" {
					g.dirs = append(g.dirs, q)
				}
			}
		}
	}
	return ops
}

type fsWorld struct {
	ws     []*fsW
	outer  tree // everything outside the threads' directories
	gokioN int
}

func (r *Run) outerSnap() tree {
	t := tree{}
	snapTree(r.K.root, "", t)
	for p := range t {
		if strings.HasPrefix(p, "/w/t") {
			delete(t, p)
		}
	}
	return t
}

func fsBody(r *Run) {
	r.buildWorld()
	fw := &fsWorld{outer: r.outerSnap()}
	r.X = fw
	for t := range r.Case.Prog.T[1:] {
		w := &fsW{r: r, k: r.K, t: t, root: fmt.Sprintf("/w/t%d", t)}
		w.last = w.snap()
		fw.ws = append(fw.ws, w)
	}
	left := len(fw.ws)
	if left == 0 {
		return
	}
	done := make(chan struct{})
	for t, w := range fw.ws {
		t, w := t, w
		r.simGo("a file system thread", func() {
			for _, op := range r.Case.Prog.T[1+t] {
				w.step(op)
			}
			left--
			if left == 0 {
				close(done)
			}
		})
	}
	<-done
}

// fsQuiet: nothing outside the threads' own directories ever changes, and no
// descriptor outlives the operations.
func fsQuiet(r *Run) {
	fw, ok := r.X.(*fsWorld)
	if !ok || len(fw.ws) == 0 {
		return
	}
	w := fw.ws[0]
	if d := fw.outer.diff(r.outerSnap()); len(d) > 0 {
		w.viol("P12", "confinement", "files outside the named paths changed: %s", explain(d, fw.outer, r.outerSnap()))
	}
	for _, w := range fw.ws {
		if w.busy == nil {
			if d := w.last.diff(w.snap()); len(d) > 0 {
				w.viol("P12", "confinement", "files of thread %d changed after its last operation: %s", w.t, explain(d, w.last, w.snap()))
			}
		}
	}
}

func fsAfter(r *Run, reason int) {
	fsQuiet(r)
	fw, ok := r.X.(*fsWorld)
	if !ok || len(fw.ws) == 0 {
		return
	}
	w := fw.ws[0]
	if n := r.K.openFds(); n > 0 {
		w.viol("P12", "fd-leak", "%d descriptors are still open when all operations have returned", n)
	}
	if r.K.BadClose > 0 {
		w.viol("P12", "fd-misuse", "%d closes of descriptors that were not open", r.K.BadClose)
	}
	if r.K.umask != r.K.umask0 {
		w.viol("P12", "process-state", "the file mode creation mask is %#o when all operations have returned, was %#o: files of others are created with other permissions", r.K.umask, r.K.umask0)
	}
	if r.K.cwd != r.K.cwd0 {
		w.viol("P12", "process-state", "the working directory is %s when all operations have returned, was %s: the paths of others lead elsewhere", r.K.cwdPath, r.K.cwdPath0)
	}
	if r.K.StdClosed > 0 {
		w.viol("P12", "fd-misuse", "a standard stream was closed")
	}
}

// fsCrash checks what a process crash left behind.
func fsCrash(r *Run) {
	fsQuiet(r)
	fw, ok := r.X.(*fsWorld)
	if !ok {
		return
	}
	for _, w := range fw.ws {
		o := w.busy
		if o == nil {
			continue
		}
		after := w.snap()
		r.logf("thread %d was in %v when the process crashed", w.t, o.op)
		if o.expOk == nil {
			if d := o.before.diff(after); len(d) > 0 {
				w.viol(o.prop, "crash", "after a crash in the middle of %v, which could only fail: %s", o.op, explain(d, o.before, after))
			}
		} else if len(o.expOk.diff(after)) > 0 {
			w.partial(o, after, o.prop, fmt.Sprintf("after a crash in the middle of %v", o.op))
		}
		w.confined(o, after, " (process crash)")
		w.last = after
		w.busy = nil
	}
}

// fsRestart is the process after the crash: the library works on what the
// crash left, and an interrupted operation can be done again.
func fsRestart(r *Run) {
	fw := r.X.(*fsWorld)
	for t, w := range fw.ws {
		w.busy = nil
		w.last = w.snap()
		for _, op := range r.Case.Prog.T[1+t] {
			w.step(op)
		}
		var files []string
		for p, e := range w.last {
			if e.kind == 'f' {
				files = append(files, p)
			}
		}
		sort.Strings(files)
		for _, p := range files {
			w.step(Op{K: "read", S: []string{p}})
		}
		w.step(Op{K: "readdir", S: []string{w.root}})
	}
}

var fsFaults = []string{"EINTR", "EIO", "EMFILE", "ENOSPC", "EACCES", "short", "delay"}

func regFs(prop, name string, weight int, crash bool, focus ...string) {
	reg(&Scenario{Prop: prop, Name: name, Weight: weight,
		Gen: func(r *Rand, c *Case) {
			nt := r.Pick(1, 1, 2, 3)
			gs := genFsWorld(r, c, nt, false)
			for _, g := range gs {
				ops := genFsOps(r, c, g, r.Pick(1, 3, 6, 12), focus...)
				if prop == "P12" {
					for i := range ops {
						if r.P(1, 3) && fsOps[ops[i].K] {
							ops[i].A[3] = 1
						}
					}
				}
				c.thread(ops...)
			}
			if crash {
				c.genFaults(r, "crash", "crash", "crashmid", "EIO", "short", "delay")
				c.Faults.Mode = "seed"
				if c.Faults.Rate == 0 {
					c.Faults = FaultPlan{Mode: "seed", Rate: r.Pick(20, 60, 150), Max: 3, Kinds: []string{"crash", "crashmid"}}
				}
			} else {
				c.genFaults(r, fsFaults...)
			}
			c.MaxSteps = 6_000_000 + 150*uint64(c.big)
		},
		Body: fsBody, After: fsAfter,
		Crash: fsCrash, Restart: fsRestart})
}

func init() {
	regFs("P07", "write", 6, false, "write")
	regFs("P07", "write-crash", 2, true, "write")
	regFs("P08", "read", 6, false, "read", "readstr")
	regFs("P09", "copy", 6, false, "copy", "copy", "copy", "write")
	regFs("P09", "copy-crash", 2, true, "copy")
	regFs("P10", "namespace", 6, false, "mkdir", "rmdir", "rmfile", "rename")
	regFs("P10", "namespace-crash", 1, true, "mkdir", "rmdir", "rmfile", "rename")
	regFs("P11", "readdir", 6, false, "readdir", "readdir", "mkdir", "write", "rename")
	regFs("P12", "all", 6, false)
	regFs("P12", "all-crash", 3, true)
}
