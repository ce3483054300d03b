package main

// The simulated kernel: an in-memory Unix file system, file descriptors,
// standard streams and their faults. It serves every system call that package
// syscall issues while a simulation runs (see syscall.SimHook in the overlay).

import (
	"fmt"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

const fdBase = 1 << 20
const (
	fdStdin  = fdBase
	fdStdout = fdBase + 1
	fdStderr = fdBase + 2
	fdFirst  = fdBase + 16
)

const (
	sIFMT   = syscall.S_IFMT
	sIFDIR  = syscall.S_IFDIR
	sIFREG  = syscall.S_IFREG
	sIFSOCK = 0o140000
	sIFLNK  = syscall.S_IFLNK
)

type inode struct {
	ino    uint64
	mode   uint32 // type and permission bits
	uid    uint32
	nlink  int
	data   []byte
	kids   map[string]*inode
	parent *inode // directories
	target string
	proc   bool // pseudo file: stat says size 0, reads deliver data
	mtime  int64
	gen    int // changes of the content
	hgen   int
	hash   uint64
}

func (n *inode) isDir() bool  { return n.mode&sIFMT == sIFDIR }
func (n *inode) isReg() bool  { return n.mode&sIFMT == sIFREG }
func (n *inode) isSock() bool { return n.mode&sIFMT == sIFSOCK }
func (n *inode) isLnk() bool  { return n.mode&sIFMT == sIFLNK }

type openFile struct {
	n     *inode
	off   int64
	flags int
	path  string
	ents  []string // directory listing snapshot
	epos  int
	std   int // 1 stdin, 2 stdout, 3 stderr
	refs  int
	dirty bool // written through this descriptor
}

type sysEvent struct {
	Gid  uint64
	Name string
	Path string
	Ret  string
}

type Kernel struct {
	r        *Run
	root     *inode
	cwd      *inode
	cwdPath  string
	nextIno  uint64
	fds      map[int]*openFile
	nextFd   int
	umask    uint32
	umask0   uint32 // before the library ran
	cwd0     *inode
	cwdPath0 string
	uid      uint32
	cap      int64 // bytes; <0 unlimited
	used     int64
	ro       bool // whole file system read-only
	dtUnk    bool // getdents reports DT_UNKNOWN
	direntN  int  // max entries per getdents call, 0 unlimited
	ioMax    int  // max bytes per read/write/copy call, 0 unlimited

	stdin     []byte
	stdinEOF  bool
	stdinErr  syscall.Errno
	stdinWake chan struct{}
	stdinMax  int // max bytes per read, 0 unlimited
	readers   int
	Stdout    []byte
	StdoutW   []string // one entry per write call
	Stderr    []byte

	nsys    uint64
	Calls   map[string]int
	Trace   []string        // bounded
	Touched map[string]bool // "op path" of every mutating call, for confinement checks
	noTrace bool

	FaultLog []sysFault
	hardOK   func(p string) bool // where faults may fail a call; nil: anywhere

	BadClose  int // closes of a descriptor that is not open
	StdClosed int // closes of a standard stream
}

func newKernel(r *Run) *Kernel {
	k := &Kernel{r: r, fds: map[int]*openFile{}, nextFd: fdFirst, umask: 0o022, umask0: 0o022, uid: 1000, cap: -1, nextIno: 2,
		Calls: map[string]int{}, Touched: map[string]bool{}}
	k.root = &inode{ino: 1, mode: sIFDIR | 0o755, nlink: 2, kids: map[string]*inode{}}
	k.root.parent = k.root
	k.mkdirAll("/w", 0o755, 1000)
	k.mkdirAll("/dev", 0o755, 0)
	k.cwd = k.look("/w")
	k.cwdPath = "/w"
	k.cwd0, k.cwdPath0 = k.cwd, k.cwdPath
	k.fds[fdStdin] = &openFile{std: 1}
	k.fds[fdStdout] = &openFile{std: 2}
	k.fds[fdStderr] = &openFile{std: 3}
	k.stdinWake = make(chan struct{})
	return k
}

// ---- direct access, for set-up, other processes and oracles ----

func (k *Kernel) newInode(mode uint32, uid uint32) *inode {
	k.nextIno++
	n := &inode{ino: k.nextIno, mode: mode, uid: uid, nlink: 1}
	if n.isDir() {
		n.kids = map[string]*inode{}
		n.nlink = 2
	}
	return n
}

func (k *Kernel) mkdirAll(p string, perm uint32, uid uint32) *inode {
	cur := k.root
	for _, c := range strings.Split(strings.Trim(p, "/"), "/") {
		if c == "" {
			continue
		}
		n := cur.kids[c]
		if n == nil {
			n = k.newInode(sIFDIR|perm, uid)
			n.parent = cur
			cur.kids[c] = n
		}
		cur = n
	}
	return cur
}

// look finds an inode by absolute path without following a final symlink.
func (k *Kernel) look(p string) *inode {
	_, _, n, _ := k.walk(k.root, p, false, true)
	return n
}

func (k *Kernel) stat(p string) *inode {
	_, _, n, _ := k.walk(k.root, p, true, true)
	return n
}

func (k *Kernel) put(p string, data []byte, perm uint32, uid uint32) *inode {
	dir := k.mkdirAll(path.Dir(p), 0o755, 1000)
	n := k.newInode(sIFREG|perm, uid)
	n.data = append([]byte(nil), data...)
	k.used += int64(len(data))
	dir.kids[path.Base(p)] = n
	return n
}

func (k *Kernel) putLink(p, target string) *inode {
	dir := k.mkdirAll(path.Dir(p), 0o755, 1000)
	n := k.newInode(sIFLNK|0o777, 1000)
	n.target = target
	dir.kids[path.Base(p)] = n
	return n
}

// snapshot renders the whole tree; two equal snapshots mean an equal tree.
func (k *Kernel) snapshot() map[string]string {
	m := map[string]string{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		switch {
		case n.isDir():
			m[p] = fmt.Sprintf("dir %o", n.mode&0o7777)
			for name, c := range n.kids {
				rec(path.Join(p, name), c)
			}
		case n.isLnk():
			m[p] = "link " + n.target
		default:
			m[p] = fmt.Sprintf("file %o #%d %q", n.mode&0o7777, n.ino, trunc(n.data))
		}
	}
	rec("/", k.root)
	return m
}

func trunc(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%s...(%d bytes, sum %x)", b[:48], len(b), fnv(b))
	}
	return string(b)
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func diffSnap(a, b map[string]string) string {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var d []string
	for _, k := range keys {
		if a[k] != b[k] {
			x, y := a[k], b[k]
			if x == "" {
				x = "absent"
			}
			if y == "" {
				y = "absent"
			}
			d = append(d, fmt.Sprintf("%s: %s -> %s", k, x, y))
		}
	}
	return strings.Join(d, "; ")
}

func (k *Kernel) openFds() int {
	n := 0
	for _, f := range k.fds {
		if f.std == 0 {
			n++
		}
	}
	return n
}

func (k *Kernel) feed(b []byte) {
	k.stdin = append(k.stdin, b...)
	k.wakeStdin()
}

func (k *Kernel) closeStdin() {
	k.stdinEOF = true
	k.wakeStdin()
}

func (k *Kernel) wakeStdin() {
	close(k.stdinWake)
	k.stdinWake = make(chan struct{})
}

// ---- path resolution ----

// walk resolves p. It returns the parent directory, the final name and the
// inode (nil when absent but the parent exists).
func (k *Kernel) walk(at *inode, p string, follow, god bool) (dir *inode, name string, n *inode, e syscall.Errno) {
	links := 0
	return k.walk1(at, p, follow, god, &links)
}

func (k *Kernel) walk1(at *inode, p string, follow, god bool, links *int) (*inode, string, *inode, syscall.Errno) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(p) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	cur := at
	if p[0] == '/' {
		cur = k.root
	}
	var parts []string
	for _, c := range strings.Split(p, "/") {
		if c != "" {
			parts = append(parts, c)
		}
	}
	trailing := p[len(p)-1] == '/'
	if len(parts) == 0 {
		return cur.parent, "/", cur, 0
	}
	for i, c := range parts {
		last := i == len(parts)-1
		if !cur.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if !god && !k.access(cur, 1) {
			return nil, "", nil, syscall.EACCES
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		var n *inode
		switch c {
		case ".":
			n = cur
		case "..":
			n = cur.parent
		default:
			n = cur.kids[c]
		}
		if n == nil {
			if last {
				return cur, c, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		if n.isLnk() && (!last || follow || trailing) {
			*links++
			if *links > 40 {
				return nil, "", nil, syscall.ELOOP
			}
			rest := strings.Join(parts[i+1:], "/")
			t := n.target
			if rest != "" {
				t += "/" + rest
			}
			if trailing {
				t += "/"
			}
			return k.walk1(cur, t, follow, god, links)
		}
		if last {
			if trailing && !n.isDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			if c == "." || c == ".." {
				return n.parent, c, n, 0
			}
			return cur, c, n, 0
		}
		cur = n
	}
	return nil, "", nil, syscall.ENOENT
}

// access: want is a mask of 4 read, 2 write, 1 execute/search.
func (k *Kernel) access(n *inode, want uint32) bool {
	if k.uid == 0 {
		return true
	}
	m := n.mode & 7
	if n.uid == k.uid {
		m = (n.mode >> 6) & 7
	}
	return m&want == want
}

func (k *Kernel) base(fd int) (*inode, syscall.Errno) {
	if fd == -100 {
		return k.cwd, 0
	}
	f := k.fds[fd]
	if f == nil || f.n == nil {
		return nil, syscall.EBADF
	}
	return f.n, 0
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 16]byte)(unsafe.Pointer(p))
	for i := range b {
		if b[i] == 0 {
			return string(b[:i])
		}
	}
	return ""
}

func mem(p uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), n)
}

// ---- system call entry ----

var theKernel *Kernel

type sysRet struct {
	r uintptr
	e syscall.Errno
}

func installHook() {
	syscall.SimHook = func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno, handled bool) {
		if !runtime.SimInRun() {
			return 0, 0, 0, false
		}
		k := theKernel
		if k == nil {
			return 0, 0, 0, false
		}
		r, e := k.syscall(trap, a1, a2, a3, a4, a5, a6)
		if e != 0 {
			return ^uintptr(0), 0, e, true
		}
		return r, 0, 0, true
	}
}

var sysNames = map[uintptr]string{
	0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 8: "lseek", 16: "ioctl",
	17: "pread", 18: "pwrite", 19: "readv", 20: "writev", 21: "access", 32: "dup", 33: "dup2", 40: "sendfile", 72: "fcntl", 73: "flock",
	74: "fsync", 75: "fdatasync", 76: "truncate", 77: "ftruncate", 78: "getdents", 79: "getcwd", 80: "chdir", 82: "rename", 83: "mkdir",
	84: "rmdir", 86: "link", 87: "unlink", 88: "symlink", 89: "readlink", 90: "chmod", 91: "fchmod", 92: "chown", 95: "umask", 93: "fchown", 94: "lchown",
	162: "sync", 217: "getdents64", 221: "fadvise", 257: "openat", 258: "mkdirat", 260: "fchownat", 262: "newfstatat", 263: "unlinkat",
	264: "renameat", 265: "linkat", 266: "symlinkat", 267: "readlinkat", 268: "fchmodat", 269: "faccessat", 275: "splice", 277: "sync_file_range",
	280: "utimensat", 285: "fallocate", 292: "dup3", 306: "syncfs", 316: "renameat2", 318: "getrandom", 326: "copy_file_range", 332: "statx",
	439: "faccessat2", 452: "fchmodat2", 437: "openat2",
}

// fault classes per call
var (
	fkOpen  = []string{"EINTR", "EIO", "EMFILE", "ENOSPC", "EACCES", "delay", "crash"}
	fkOpenR = []string{"EINTR", "EIO", "EMFILE", "EACCES", "delay", "crash"}
	fkRead  = []string{"EINTR", "EIO", "short", "delay", "crash"}
	fkWrite = []string{"EINTR", "EIO", "ENOSPC", "short", "delay", "crash", "crashmid"}
	fkCopy  = []string{"EINTR", "EIO", "ENOSPC", "short", "delay", "crash", "crashmid"}
	fkClose = []string{"EIO", "delay", "crash"}
	fkMeta  = []string{"EIO", "ENOSPC", "EACCES", "delay", "crash"}
	fkDents = []string{"EIO", "EINTR", "short", "delay", "crash"}
	fkStat  = []string{"EIO", "delay", "crash"}
	fkStdin = []string{"EINTR", "short", "delay"}
	fkStdou = []string{"EINTR", "short", "delay", "crash", "crashmid"}
)

func softOnly(ks []string) []string {
	var o []string
	for _, k := range ks {
		if k == "short" || k == "delay" || k == "crash" {
			o = append(o, k)
		}
	}
	return o
}

var faultErrno = map[string]syscall.Errno{"EINTR": syscall.EINTR, "EIO": syscall.EIO, "EMFILE": syscall.EMFILE, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES}

func (k *Kernel) syscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno) {
	runtime.SimYield()
	k.nsys++
	name := sysNames[trap]
	k.Calls[name]++
	var ff []string
	std := 0
	if trap <= 20 && (trap == 0 || trap == 1 || trap == 19 || trap == 20) {
		if f := k.fds[k.fd(a1)]; f != nil {
			std = f.std
		}
	}
	switch trap {
	case 0, 17, 19:
		ff = fkRead
		if std == 1 {
			ff = fkStdin
		}
	case 1, 18, 20:
		ff = fkWrite
		if std >= 2 {
			ff = fkStdou
		}
	case 2, 257:
		flags := int(a3)
		if trap == 2 {
			flags = int(a2)
		}
		ff = fkOpenR
		if flags&(syscall.O_CREAT) != 0 {
			ff = fkOpen
		}
	case 3:
		ff = fkClose
	case 326, 40, 275:
		ff = fkCopy
	case 217, 78:
		ff = fkDents
	case 4, 5, 6, 262, 332, 89, 267:
		ff = fkStat
	case 82, 83, 84, 86, 87, 88, 258, 263, 264, 265, 266, 316, 76, 77, 74, 75, 90, 91, 268, 452, 285:
		ff = fkMeta
	}
	var f *Fault
	if ff != nil && !(k.r.noStdFaults && std != 0) {
		if k.hardOK != nil && !k.hardOK(k.callPath(trap, a1, a2, a4)) {
			ff = softOnly(ff)
		}
		f = k.r.fault(name, ff)
	}
	crashAfter := false
	short := -1
	if f != nil {
		k.FaultLog = append(k.FaultLog, sysFault{k.callPath(trap, a1, a2, a4), name, f.Kind})
		switch f.Kind {
		case "delay":
			time.Sleep(time.Duration(f.Arg))
		case "crash":
			if f.Arg&1 == 0 {
				k.trace("crash before %s", name)
				k.r.crash()
			}
			crashAfter = true
		case "crashmid":
			short = int(f.Arg)
			crashAfter = true
		case "short":
			short = int(f.Arg)
		default:
			// A close that fails still releases the descriptor. As with a
			// write-back file system, it may mean that data was lost.
			if trap == 3 {
				if o := k.fds[k.fd(a1)]; o != nil && o.dirty && len(o.n.data) > 0 {
					keep := int(f.Arg) % len(o.n.data)
					k.used -= int64(len(o.n.data) - keep)
					o.n.data = o.n.data[:keep:keep]
					o.n.gen++
				}
				k.doClose(k.fd(a1))
			}
			k.trace("%s = %s (injected)", name, f.Kind)
			runtime.SimYield()
			return 0, faultErrno[f.Kind]
		}
	}
	r, e := k.dispatch(trap, name, short, a1, a2, a3, a4, a5, a6)
	if crashAfter {
		k.trace("crash after %s", name)
		k.r.crash()
	}
	runtime.SimNote(uint64(trap)<<32 ^ uint64(e) ^ runtime.SimGoid()<<16)
	runtime.SimYield()
	return r, e
}

func (k *Kernel) trace(f string, a ...any) {
	if k.noTrace || len(k.Trace) > 400 {
		return
	}
	k.Trace = append(k.Trace, fmt.Sprintf("[g%d] ", runtime.SimGoid())+fmt.Sprintf(f, a...))
}

type sysFault struct{ path, call, kind string }

// callPath is the absolute path a call is about.
func (k *Kernel) callPath(trap, a1, a2, a4 uintptr) string {
	switch trap {
	case 2, 4, 6, 21, 76, 82, 83, 84, 86, 87, 89, 90:
		return k.abs(k.cwd, cstr(a1))
	case 257, 258, 262, 263, 264, 265, 267, 268, 269, 316, 332, 439, 452:
		at, e := k.base(int(int32(a1)))
		if e != 0 {
			return ""
		}
		return k.abs(at, cstr(a2))
	}
	if f := k.fds[k.fd(a1)]; f != nil {
		return f.path
	}
	return ""
}

// fd maps the process's standard descriptors to the simulated ones.
func (k *Kernel) fd(a uintptr) int {
	fd := int(int32(a))
	if fd >= 0 && fd <= 2 {
		return fdBase + fd
	}
	return fd
}

func rnd(short, n int) int {
	// partial transfer of n bytes: at least one byte, fewer than n
	if short < 0 || n <= 1 {
		return n
	}
	return 1 + short%(n-1)
}

func (k *Kernel) lim(n int) int {
	if k.ioMax > 0 && n > k.ioMax {
		return k.ioMax
	}
	return n
}

func (k *Kernel) dispatch(trap uintptr, name string, short int, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno) {
	const atCWD = -100
	switch trap {
	case 0: // read
		return k.doRead(k.fd(a1), a2, int(a3), -1, short)
	case 17:
		return k.doRead(k.fd(a1), a2, int(a3), int64(a4), short)
	case 1:
		return k.doWrite(k.fd(a1), mem(a2, int(a3)), -1, short)
	case 18:
		return k.doWrite(k.fd(a1), mem(a2, int(a3)), int64(a4), short)
	case 19, 20:
		total := uintptr(0)
		iov := unsafe.Slice((*syscall.Iovec)(unsafe.Pointer(a2)), int(a3))
		for _, v := range iov {
			if v.Len == 0 {
				continue
			}
			var r uintptr
			var e syscall.Errno
			if trap == 19 {
				r, e = k.doRead(k.fd(a1), uintptr(unsafe.Pointer(v.Base)), int(v.Len), -1, short)
			} else {
				r, e = k.doWrite(k.fd(a1), mem(uintptr(unsafe.Pointer(v.Base)), int(v.Len)), -1, short)
			}
			if e != 0 {
				if total > 0 {
					return total, 0
				}
				return 0, e
			}
			total += r
			if r < uintptr(v.Len) {
				break
			}
		}
		return total, 0
	case 2:
		return k.doOpen(atCWD, cstr(a1), int(a2), uint32(a3))
	case 257:
		return k.doOpen(int(int32(a1)), cstr(a2), int(a3), uint32(a4))
	case 3:
		return 0, k.doClose(k.fd(a1))
	case 4, 6:
		return 0, k.doStat(atCWD, cstr(a1), a2, trap == 4)
	case 5:
		f := k.fds[k.fd(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		k.fillStat(f.n, a2)
		return 0, 0
	case 262:
		const atSymlinkNofollow, atEmptyPath = 0x100, 0x1000
		p := cstr(a2)
		if p == "" && a4&atEmptyPath != 0 {
			f := k.fds[k.fd(a1)]
			if f == nil {
				return 0, syscall.EBADF
			}
			k.fillStat(f.n, a3)
			return 0, 0
		}
		return 0, k.doStat(int(int32(a1)), p, a3, a4&atSymlinkNofollow == 0)
	case 332:
		return 0, k.doStatx(int(int32(a1)), cstr(a2), a3&0x100 == 0, a3&0x1000 != 0, a5)
	case 8:
		return k.doSeek(k.fd(a1), int64(a2), int(a3))
	case 16:
		return 0, syscall.ENOTTY
	case 21:
		return 0, k.doAccess(atCWD, cstr(a1), uint32(a2))
	case 269, 439:
		return 0, k.doAccess(int(int32(a1)), cstr(a2), uint32(a3))
	case 32, 33, 292:
		f := k.fds[k.fd(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		fd := k.nextFd
		if trap != 32 {
			fd = k.fd(a2)
			if g := k.fds[fd]; g != nil {
				k.doClose(fd)
			}
		} else {
			k.nextFd++
		}
		k.fds[fd] = f
		f.refs++
		return uintptr(fd), 0
	case 40: // sendfile(out, in, *off, count)
		return k.doCopy(k.fd(a2), a3, k.fd(a1), 0, int(a4), short)
	case 326: // copy_file_range(in, *offin, out, *offout, len, flags)
		return k.doCopy(k.fd(a1), a2, k.fd(a3), a4, int(a5), short)
	case 275:
		return 0, syscall.EINVAL
	case 72:
		f := k.fds[k.fd(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		switch int(a2) {
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			fd := k.nextFd
			k.nextFd++
			k.fds[fd] = f
			f.refs++
			return uintptr(fd), 0
		case syscall.F_GETFL:
			return uintptr(f.flags &^ (syscall.O_CREAT | syscall.O_TRUNC | syscall.O_EXCL)), 0
		}
		return 0, 0
	case 73, 221, 277, 162, 306:
		return 0, 0
	case 74, 75:
		if k.fds[k.fd(a1)] == nil {
			return 0, syscall.EBADF
		}
		return 0, 0
	case 76:
		_, _, n, e := k.walk(k.cwd, cstr(a1), true, false)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		return 0, k.doTrunc(n, int64(a2), true)
	case 77:
		f := k.fds[k.fd(a1)]
		if f == nil || f.n == nil {
			return 0, syscall.EBADF
		}
		if f.flags&3 == syscall.O_RDONLY {
			return 0, syscall.EINVAL
		}
		return 0, k.doTrunc(f.n, int64(a2), false)
	case 285:
		return 0, syscall.EOPNOTSUPP
	case 79:
		s := k.cwdPath + "\x00"
		if int(a2) < len(s) {
			return 0, syscall.ERANGE
		}
		copy(mem(a1, int(a2)), s)
		return uintptr(len(s)), 0
	case 80:
		_, _, n, e := k.walk(k.cwd, cstr(a1), true, false)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if !n.isDir() {
			return 0, syscall.ENOTDIR
		}
		k.cwd = n
		k.cwdPath = path.Clean(path.Join(k.cwdPath, cstr(a1)))
		return 0, 0
	case 82:
		return 0, k.doRename(atCWD, cstr(a1), atCWD, cstr(a2), 0)
	case 264:
		return 0, k.doRename(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4), 0)
	case 316:
		return 0, k.doRename(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4), int(a5))
	case 83:
		return 0, k.doMkdir(atCWD, cstr(a1), uint32(a2))
	case 258:
		return 0, k.doMkdir(int(int32(a1)), cstr(a2), uint32(a3))
	case 84:
		return 0, k.doUnlink(atCWD, cstr(a1), true)
	case 87:
		return 0, k.doUnlink(atCWD, cstr(a1), false)
	case 263:
		return 0, k.doUnlink(int(int32(a1)), cstr(a2), a3&0x200 != 0)
	case 86:
		return 0, k.doLink(atCWD, cstr(a1), atCWD, cstr(a2))
	case 265:
		return 0, k.doLink(int(int32(a1)), cstr(a2), int(int32(a3)), cstr(a4))
	case 88:
		return 0, k.doSymlink(cstr(a1), atCWD, cstr(a2))
	case 266:
		return 0, k.doSymlink(cstr(a1), int(int32(a2)), cstr(a3))
	case 89:
		return k.doReadlink(atCWD, cstr(a1), a2, int(a3))
	case 267:
		return k.doReadlink(int(int32(a1)), cstr(a2), a3, int(a4))
	case 90:
		return 0, k.doChmod(atCWD, cstr(a1), uint32(a2))
	case 268, 452:
		return 0, k.doChmod(int(int32(a1)), cstr(a2), uint32(a3))
	case 91:
		f := k.fds[k.fd(a1)]
		if f == nil || f.n == nil {
			return 0, syscall.EBADF
		}
		return 0, k.chmod(f.n, uint32(a2), f.path)
	case 92, 93, 94, 260, 280:
		return 0, 0
	case 95:
		old := k.umask
		k.umask = uint32(a1) & 0o777
		k.trace("umask(%#o) = %#o", k.umask, old)
		return uintptr(old), 0
	case 102, 104, 107, 108:
		return uintptr(k.uid), 0
	case 39:
		return 4711, 0
	case 110:
		return 1, 0
	case 217, 78:
		return k.doGetdents(k.fd(a1), a2, int(a3), short)
	case 318:
		b := mem(a1, int(a2))
		for i := range b {
			b[i] = byte(runtime.SimDraw())
		}
		return a2, 0
	case 437:
		return 0, syscall.ENOSYS
	}
	infra("system call %d is not simulated", trap)
	return 0, syscall.ENOSYS
}

func infra(f string, a ...any) {
	syscall.SimHook = nil
	syscall.Write(2, []byte(fmt.Sprintf("INFRA: "+f+"\n", a...)))
	syscall.Exit(3)
}

func (k *Kernel) doRead(fd int, p uintptr, n int, at int64, short int) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.std == 1 {
		return k.readStdin(mem(p, n), short)
	}
	if f.std != 0 || f.flags&3 == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	if f.n.isDir() {
		return 0, syscall.EISDIR
	}
	off := f.off
	if at >= 0 {
		off = at
	}
	if n == 0 || off >= int64(len(f.n.data)) {
		k.trace("read(%s) = 0", f.path)
		return 0, 0
	}
	m := len(f.n.data) - int(off)
	if m > n {
		m = n
	}
	m = rnd(short, k.lim(m))
	copy(mem(p, m), f.n.data[off:int(off)+m])
	if at < 0 {
		f.off += int64(m)
	}
	k.trace("read(%s,%d) = %d", f.path, n, m)
	return uintptr(m), 0
}

func (k *Kernel) readStdin(b []byte, short int) (uintptr, syscall.Errno) {
	k.readers++
	for len(k.stdin) == 0 && !k.stdinEOF && k.stdinErr == 0 {
		<-k.stdinWake
		runtime.SimYield()
	}
	k.readers--
	if len(k.stdin) == 0 {
		if k.stdinErr != 0 {
			return 0, k.stdinErr
		}
		return 0, 0
	}
	m := len(b)
	if m > len(k.stdin) {
		m = len(k.stdin)
	}
	if k.stdinMax > 0 && m > k.stdinMax {
		m = k.stdinMax
	}
	m = rnd(short, m)
	copy(b, k.stdin[:m])
	k.stdin = k.stdin[m:]
	return uintptr(m), 0
}

func (k *Kernel) doWrite(fd int, b []byte, at int64, short int) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	m := len(b)
	if f.std >= 2 {
		m = rnd(short, k.lim(m))
		if f.std == 2 {
			k.Stdout = append(k.Stdout, b[:m]...)
			k.StdoutW = append(k.StdoutW, string(b[:m]))
		} else {
			k.Stderr = append(k.Stderr, b[:m]...)
		}
		return uintptr(m), 0
	}
	if f.std != 0 || f.flags&3 == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	m = rnd(short, k.lim(m))
	n, e := k.store(f, b[:m], at)
	k.trace("write(%s,%d) = %d %v", f.path, len(b), n, e)
	return uintptr(n), e
}

func (k *Kernel) store(f *openFile, b []byte, at int64) (int, syscall.Errno) {
	off := f.off
	if f.flags&syscall.O_APPEND != 0 {
		off = int64(len(f.n.data))
	}
	if at >= 0 {
		off = at
	}
	m := len(b)
	end := off + int64(m)
	if grow := end - int64(len(f.n.data)); grow > 0 && k.cap >= 0 && k.used+grow > k.cap {
		room := k.cap - k.used
		end = int64(len(f.n.data)) + room
		m = int(end - off)
		if m <= 0 {
			return 0, syscall.ENOSPC
		}
	}
	if end > int64(len(f.n.data)) {
		k.used += end - int64(len(f.n.data))
		if old := len(f.n.data); int64(cap(f.n.data)) >= end {
			f.n.data = f.n.data[:end]
			clear(f.n.data[old:])
		} else {
			nd := make([]byte, end, end+end/2)
			copy(nd, f.n.data)
			f.n.data = nd
		}
	}
	copy(f.n.data[off:], b[:m])
	if at < 0 {
		f.off = off + int64(m)
	}
	f.n.mtime = runtime.SimWall()
	f.n.gen++
	if m > 0 {
		f.dirty = true
	}
	k.touch("write", f.path)
	return m, 0
}

func (k *Kernel) touch(op, p string) { k.Touched[op+" "+p] = true }

func (k *Kernel) doCopy(in int, pin uintptr, out int, pout uintptr, n int, short int) (uintptr, syscall.Errno) {
	fi, fo := k.fds[in], k.fds[out]
	if fi == nil || fo == nil {
		return 0, syscall.EBADF
	}
	if fi.n == nil {
		return 0, syscall.EINVAL
	}
	if fi.flags&3 == syscall.O_WRONLY || (fo.std == 0 && fo.flags&3 == syscall.O_RDONLY) {
		return 0, syscall.EBADF
	}
	if fi.n.isDir() || fi.n.proc {
		return 0, syscall.EINVAL
	}
	off := fi.off
	if pin != 0 {
		off = *(*int64)(unsafe.Pointer(pin))
	}
	if off >= int64(len(fi.n.data)) {
		return 0, 0
	}
	m := len(fi.n.data) - int(off)
	if m > n {
		m = n
	}
	m = rnd(short, k.lim(m))
	buf := append([]byte(nil), fi.n.data[off:int(off)+m]...)
	var e syscall.Errno
	if fo.std >= 2 {
		var r uintptr
		r, e = k.doWrite(out, buf, -1, -1)
		m = int(r)
	} else {
		at := int64(-1)
		if pout != 0 {
			at = *(*int64)(unsafe.Pointer(pout))
		}
		m, e = k.store(fo, buf, at)
		if pout != 0 && e == 0 {
			*(*int64)(unsafe.Pointer(pout)) += int64(m)
		}
	}
	if e != 0 {
		return 0, e
	}
	if pin != 0 {
		*(*int64)(unsafe.Pointer(pin)) += int64(m)
	} else {
		fi.off += int64(m)
	}
	k.trace("copy(%s -> %s) = %d", fi.path, fo.path, m)
	return uintptr(m), 0
}

func (k *Kernel) abs(at *inode, p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Join(k.pathOf(at), p)
}

func (k *Kernel) pathOf(d *inode) string {
	if d == k.root {
		return "/"
	}
	if d.parent != nil && d.parent.kids != nil {
		for n, c := range d.parent.kids {
			if c == d {
				return path.Join(k.pathOf(d.parent), n)
			}
		}
	}
	return "(deleted)"
}

func (k *Kernel) doOpen(at int, p string, flags int, mode uint32) (uintptr, syscall.Errno) {
	b, e := k.base(at)
	if e != 0 {
		return 0, e
	}
	r, e := k.open1(b, p, flags, mode)
	k.trace("open(%q,%#x) = %v", p, flags, e)
	return r, e
}

// openCheck says what open would do, without doing it. n is nil when the file
// would be created as name in dir.
func (k *Kernel) openCheck(b *inode, p string, flags int) (*inode, string, *inode, syscall.Errno) {
	follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0)
	dir, name, n, e := k.walk(b, p, follow, false)
	if e != 0 {
		return nil, "", nil, e
	}
	wr := flags&3 != syscall.O_RDONLY
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return nil, "", nil, syscall.ENOENT
		}
		if strings.HasSuffix(p, "/") {
			return nil, "", nil, syscall.EISDIR
		}
		if k.ro {
			return nil, "", nil, syscall.EROFS
		}
		if !k.access(dir, 3) {
			return nil, "", nil, syscall.EACCES
		}
		return dir, name, nil, 0
	}
	if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
		return nil, "", nil, syscall.EEXIST
	}
	if n.isLnk() {
		return nil, "", nil, syscall.ELOOP
	}
	if n.isDir() && (wr || flags&syscall.O_CREAT != 0) {
		return nil, "", nil, syscall.EISDIR
	}
	if !n.isDir() && flags&syscall.O_DIRECTORY != 0 {
		return nil, "", nil, syscall.ENOTDIR
	}
	want := uint32(4)
	switch flags & 3 {
	case syscall.O_WRONLY:
		want = 2
	case syscall.O_RDWR:
		want = 6
	}
	if !k.access(n, want) {
		return nil, "", nil, syscall.EACCES
	}
	if n.isSock() {
		return nil, "", nil, syscall.ENXIO
	}
	if wr && k.ro {
		return nil, "", nil, syscall.EROFS
	}
	return dir, name, n, 0
}

func (k *Kernel) open1(b *inode, p string, flags int, mode uint32) (uintptr, syscall.Errno) {
	dir, name, n, e := k.openCheck(b, p, flags)
	if e != 0 {
		return 0, e
	}
	if n == nil {
		n = k.newInode(sIFREG|mode&0o7777&^k.umask, k.uid)
		dir.kids[name] = n
		k.touch("create", path.Join(k.pathOf(dir), name))
	} else if flags&syscall.O_TRUNC != 0 && n.isReg() {
		k.used -= int64(len(n.data))
		n.data = nil
		n.gen++
		n.mtime = runtime.SimWall()
		k.touch("trunc", k.abs(b, p))
	}
	fd := k.nextFd
	k.nextFd++
	k.fds[fd] = &openFile{n: n, flags: flags, path: k.abs(b, p)}
	return uintptr(fd), 0
}

func (k *Kernel) doClose(fd int) syscall.Errno {
	f := k.fds[fd]
	if f == nil {
		k.BadClose++
		return syscall.EBADF
	}
	if f.std != 0 {
		k.StdClosed++
	}
	delete(k.fds, fd)
	return 0
}

func (k *Kernel) fillStat(n *inode, p uintptr) {
	st := (*syscall.Stat_t)(unsafe.Pointer(p))
	*st = syscall.Stat_t{}
	if n == nil { // standard stream
		st.Mode = syscall.S_IFIFO | 0o600
		st.Nlink = 1
		return
	}
	st.Dev = 7
	st.Ino = n.ino
	st.Mode = n.mode
	st.Nlink = uint64(n.nlink)
	st.Uid = n.uid
	st.Gid = n.uid
	st.Blksize = 4096
	switch {
	case n.isDir():
		st.Size = 4096
	case n.isLnk():
		st.Size = int64(len(n.target))
	case !n.proc:
		st.Size = int64(len(n.data))
		st.Blocks = (st.Size + 511) / 512
	}
	st.Mtim = syscall.NsecToTimespec(n.mtime)
}

func (k *Kernel) find(at int, p string, follow bool) (*inode, syscall.Errno) {
	b, e := k.base(at)
	if e != 0 {
		return nil, e
	}
	_, _, n, e := k.walk(b, p, follow, false)
	if e != 0 {
		return nil, e
	}
	if n == nil {
		return nil, syscall.ENOENT
	}
	return n, 0
}

func (k *Kernel) doStat(at int, p string, out uintptr, follow bool) syscall.Errno {
	n, e := k.find(at, p, follow)
	k.trace("stat(%q) = %v", p, e)
	if e != 0 {
		return e
	}
	k.fillStat(n, out)
	return 0
}

func (k *Kernel) doStatx(at int, p string, follow, empty bool, out uintptr) syscall.Errno {
	var n *inode
	if p == "" && empty {
		f := k.fds[at]
		if f == nil {
			return syscall.EBADF
		}
		n = f.n
	} else {
		var e syscall.Errno
		if n, e = k.find(at, p, follow); e != 0 {
			return e
		}
	}
	b := mem(out, 256)
	for i := range b {
		b[i] = 0
	}
	put32 := func(o int, v uint32) { *(*uint32)(unsafe.Pointer(out + uintptr(o))) = v }
	put64 := func(o int, v uint64) { *(*uint64)(unsafe.Pointer(out + uintptr(o))) = v }
	put32(0, 0x7ff)
	put32(4, 4096)
	put32(16, uint32(n.nlink))
	put32(20, n.uid)
	put32(24, n.uid)
	*(*uint16)(unsafe.Pointer(out + 28)) = uint16(n.mode)
	put64(32, n.ino)
	sz := len(n.data)
	if n.isDir() {
		sz = 4096
	} else if n.isLnk() {
		sz = len(n.target)
	} else if n.proc {
		sz = 0
	}
	put64(40, uint64(sz))
	put64(48, uint64(sz+511)/512)
	return 0
}

func (k *Kernel) doSeek(fd int, off int64, whence int) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.std != 0 {
		return 0, syscall.ESPIPE
	}
	switch whence {
	case 0:
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.n.data))
	default:
		return 0, syscall.EINVAL
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	f.off = off
	if f.n.isDir() && off == 0 {
		f.ents = nil
		f.epos = 0
	}
	return uintptr(off), 0
}

func (k *Kernel) doAccess(at int, p string, mode uint32) syscall.Errno {
	n, e := k.find(at, p, true)
	if e != 0 {
		return e
	}
	if mode&2 != 0 && k.ro {
		return syscall.EROFS
	}
	if mode != 0 && !k.access(n, mode) {
		return syscall.EACCES
	}
	return 0
}

func (k *Kernel) doTrunc(n *inode, l int64, check bool) syscall.Errno {
	if n.isDir() {
		return syscall.EISDIR
	}
	if l < 0 {
		return syscall.EINVAL
	}
	if check && !k.access(n, 2) {
		return syscall.EACCES
	}
	if k.ro {
		return syscall.EROFS
	}
	d := make([]byte, l)
	copy(d, n.data)
	if grow := l - int64(len(n.data)); k.cap >= 0 && grow > 0 && k.used+grow > k.cap {
		return syscall.ENOSPC
	}
	k.used += l - int64(len(n.data))
	n.data = d
	n.gen++
	return 0
}

func (k *Kernel) doMkdir(at int, p string, mode uint32) syscall.Errno {
	b, e := k.base(at)
	if e != 0 {
		return e
	}
	e = k.mkdir1(b, p, mode)
	k.trace("mkdir(%q) = %v", p, e)
	return e
}

func (k *Kernel) mkdirCheck(b *inode, p string) (*inode, string, syscall.Errno) {
	dir, name, n, e := k.walk(b, strings.TrimRight(p, "/")+map[bool]string{true: "/", false: ""}[strings.Trim(p, "/") == "" && p != ""], false, false)
	if e != 0 {
		return nil, "", e
	}
	if n != nil {
		return nil, "", syscall.EEXIST
	}
	if k.ro {
		return nil, "", syscall.EROFS
	}
	if !k.access(dir, 3) {
		return nil, "", syscall.EACCES
	}
	return dir, name, 0
}

func (k *Kernel) mkdir1(b *inode, p string, mode uint32) syscall.Errno {
	dir, name, e := k.mkdirCheck(b, p)
	if e != 0 {
		return e
	}
	n := k.newInode(sIFDIR|mode&0o1777&^k.umask, k.uid)
	n.parent = dir
	dir.kids[name] = n
	dir.nlink++
	k.touch("mkdir", path.Join(k.pathOf(dir), name))
	return 0
}

func (k *Kernel) doUnlink(at int, p string, rmdir bool) syscall.Errno {
	b, e := k.base(at)
	if e != 0 {
		return e
	}
	e = k.unlink1(b, p, rmdir)
	k.trace("unlink(%q,rmdir=%v) = %v", p, rmdir, e)
	return e
}

// unlinkCheck says what unlink or rmdir of p would do, without doing it.
func (k *Kernel) unlinkCheck(b *inode, p string, rmdir bool) (*inode, string, *inode, syscall.Errno) {
	q := p
	if rmdir {
		q = strings.TrimRight(p, "/")
		if q == "" && p != "" {
			return nil, "", nil, syscall.EBUSY
		}
		// a trailing slash makes the kernel follow a symlink, and rmdir of the
		// resolved name then fails with ENOTDIR
		if q != p {
			if _, _, n, e := k.walk(b, q, false, false); e == 0 && n != nil && n.isLnk() {
				return nil, "", nil, syscall.ENOTDIR
			}
		}
	}
	dir, name, n, e := k.walk(b, q, false, false)
	if e != 0 {
		return nil, "", nil, e
	}
	if name == "." {
		return nil, "", nil, syscall.EINVAL
	}
	if name == ".." {
		return nil, "", nil, syscall.ENOTEMPTY
	}
	if n == nil {
		return nil, "", nil, syscall.ENOENT
	}
	if n == k.root {
		return nil, "", nil, syscall.EBUSY
	}
	if rmdir && !n.isDir() {
		return nil, "", nil, syscall.ENOTDIR
	}
	if !rmdir && n.isDir() {
		return nil, "", nil, syscall.EISDIR
	}
	if !k.access(dir, 3) {
		return nil, "", nil, syscall.EACCES
	}
	if k.ro {
		return nil, "", nil, syscall.EROFS
	}
	if rmdir && len(n.kids) > 0 {
		return nil, "", nil, syscall.ENOTEMPTY
	}
	return dir, name, n, 0
}

func (k *Kernel) unlink1(b *inode, p string, rmdir bool) syscall.Errno {
	dir, name, n, e := k.unlinkCheck(b, p, rmdir)
	if e != 0 {
		return e
	}
	full := path.Join(k.pathOf(dir), name)
	delete(dir.kids, name)
	if rmdir {
		dir.nlink--
		n.nlink = 0
		k.touch("rmdir", full)
	} else {
		n.nlink--
		if n.nlink == 0 {
			k.used -= int64(len(n.data))
		}
		k.touch("unlink", full)
	}
	return 0
}

func (k *Kernel) doRename(a1 int, p1 string, a2 int, p2 string, flags int) syscall.Errno {
	b1, e := k.base(a1)
	if e != 0 {
		return e
	}
	b2, e := k.base(a2)
	if e != 0 {
		return e
	}
	e = k.rename1(b1, p1, b2, p2, flags)
	k.trace("rename(%q,%q) = %v", p1, p2, e)
	return e
}

type renamePlan struct {
	d1, d2 *inode
	n1, n2 string
	f1, f2 *inode
}

// renameCheck says what rename would do, without doing it.
func (k *Kernel) renameCheck(b1 *inode, p1 string, b2 *inode, p2 string, flags int) (*renamePlan, syscall.Errno) {
	trim := func(p string) string {
		q := strings.TrimRight(p, "/")
		if q == "" && p != "" {
			return "/"
		}
		return q
	}
	d1, n1, f1, e := k.walk(b1, trim(p1), false, false)
	if e != 0 {
		return nil, e
	}
	d2, n2, f2, e := k.walk(b2, trim(p2), false, false)
	if e != 0 {
		return nil, e
	}
	for _, n := range []string{n1, n2} {
		if n == "." || n == ".." || n == "/" {
			return nil, syscall.EBUSY
		}
	}
	if f1 == nil {
		return nil, syscall.ENOENT
	}
	if !f1.isDir() && (trim(p1) != p1 || trim(p2) != p2) {
		return nil, syscall.ENOTDIR
	}
	if flags&1 != 0 && f2 != nil {
		return nil, syscall.EEXIST
	}
	if !k.access(d1, 3) || !k.access(d2, 3) {
		return nil, syscall.EACCES
	}
	if k.ro {
		return nil, syscall.EROFS
	}
	pl := &renamePlan{d1, d2, n1, n2, f1, f2}
	if f1 == f2 {
		return pl, 0
	}
	if f1.isDir() {
		for p := d2; ; p = p.parent {
			if p == f1 {
				return nil, syscall.EINVAL
			}
			if p == k.root {
				break
			}
		}
	}
	if f2 != nil {
		if f1.isDir() && !f2.isDir() {
			return nil, syscall.ENOTDIR
		}
		if !f1.isDir() && f2.isDir() {
			return nil, syscall.EISDIR
		}
		if f2.isDir() {
			if len(f2.kids) > 0 {
				return nil, syscall.ENOTEMPTY
			}
		}
	}
	return pl, 0
}

func (k *Kernel) rename1(b1 *inode, p1 string, b2 *inode, p2 string, flags int) syscall.Errno {
	pl, e := k.renameCheck(b1, p1, b2, p2, flags)
	if e != 0 {
		return e
	}
	d1, d2, n1, n2, f1, f2 := pl.d1, pl.d2, pl.n1, pl.n2, pl.f1, pl.f2
	if f1 == f2 {
		return 0
	}
	if f2 != nil {
		if f2.isDir() {
			d2.nlink--
		} else {
			f2.nlink--
			if f2.nlink == 0 {
				k.used -= int64(len(f2.data))
			}
		}
	}
	k.touch("rename-from", path.Join(k.pathOf(d1), n1))
	k.touch("rename-to", path.Join(k.pathOf(d2), n2))
	delete(d1.kids, n1)
	d2.kids[n2] = f1
	if f1.isDir() {
		d1.nlink--
		d2.nlink++
		f1.parent = d2
	}
	return 0
}

func (k *Kernel) doLink(a1 int, p1 string, a2 int, p2 string) syscall.Errno {
	b2, e := k.base(a2)
	if e != 0 {
		return e
	}
	n, e := k.find(a1, p1, false)
	if e != 0 {
		return e
	}
	dir, name, f, e := k.walk(b2, p2, false, false)
	if e != 0 {
		return e
	}
	if f != nil {
		return syscall.EEXIST
	}
	if n.isDir() {
		return syscall.EPERM
	}
	if !k.access(dir, 3) {
		return syscall.EACCES
	}
	if k.ro {
		return syscall.EROFS
	}
	dir.kids[name] = n
	n.nlink++
	k.touch("link", path.Join(k.pathOf(dir), name))
	k.trace("link(%q,%q)", p1, p2)
	return 0
}

func (k *Kernel) doSymlink(target string, at int, p string) syscall.Errno {
	b, e := k.base(at)
	if e != 0 {
		return e
	}
	dir, name, f, e := k.walk(b, p, false, false)
	if e != 0 {
		return e
	}
	if f != nil {
		return syscall.EEXIST
	}
	if !k.access(dir, 3) {
		return syscall.EACCES
	}
	n := k.newInode(sIFLNK|0o777, k.uid)
	n.target = target
	dir.kids[name] = n
	k.touch("symlink", path.Join(k.pathOf(dir), name))
	return 0
}

func (k *Kernel) doReadlink(at int, p string, out uintptr, n int) (uintptr, syscall.Errno) {
	f, e := k.find(at, p, false)
	if e != 0 {
		return 0, e
	}
	if !f.isLnk() {
		return 0, syscall.EINVAL
	}
	m := len(f.target)
	if m > n {
		m = n
	}
	copy(mem(out, m), f.target)
	return uintptr(m), 0
}

func (k *Kernel) doChmod(at int, p string, mode uint32) syscall.Errno {
	n, e := k.find(at, p, true)
	if e != 0 {
		return e
	}
	return k.chmod(n, mode, p)
}

func (k *Kernel) chmod(n *inode, mode uint32, p string) syscall.Errno {
	if k.ro {
		return syscall.EROFS
	}
	if n.uid != k.uid && k.uid != 0 {
		return syscall.EPERM
	}
	n.mode = n.mode&sIFMT | mode&0o7777
	k.touch("chmod", p)
	k.trace("chmod(%s,%o)", p, mode)
	return 0
}

func (k *Kernel) doGetdents(fd int, out uintptr, n int, short int) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.n == nil || !f.n.isDir() {
		return 0, syscall.ENOTDIR
	}
	if f.ents == nil {
		for name := range f.n.kids {
			f.ents = append(f.ents, name)
		}
		sort.Strings(f.ents)
		// directory order is the file system's own, not alphabetical
		for i := len(f.ents) - 1; i > 0; i-- {
			j := int(runtime.SimDraw() % uint64(i+1))
			f.ents[i], f.ents[j] = f.ents[j], f.ents[i]
		}
		f.ents = append([]string{".", ".."}, f.ents...)
		f.epos = 0
	}
	max := k.direntN
	if short >= 0 {
		max = 1 + short%4
	}
	b := mem(out, n)
	o := 0
	cnt := 0
	for f.epos < len(f.ents) && (max == 0 || cnt < max) {
		name := f.ents[f.epos]
		var c *inode
		switch name {
		case ".":
			c = f.n
		case "..":
			c = f.n.parent
		default:
			c = f.n.kids[name]
		}
		if c == nil { // removed meanwhile
			f.epos++
			continue
		}
		rl := (19 + len(name) + 1 + 7) &^ 7
		if o+rl > n {
			break
		}
		rec := b[o : o+rl]
		for i := range rec {
			rec[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&rec[0])) = c.ino
		*(*int64)(unsafe.Pointer(&rec[8])) = int64(f.epos + 1)
		*(*uint16)(unsafe.Pointer(&rec[16])) = uint16(rl)
		t := byte(c.mode >> 12)
		if k.dtUnk {
			t = 0
		}
		rec[18] = t
		copy(rec[19:], name)
		o += rl
		f.epos++
		cnt++
	}
	k.trace("getdents(%s) = %d entries", f.path, cnt)
	return uintptr(o), 0
}
