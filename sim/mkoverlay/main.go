// mkoverlay generates the build overlay of the deterministic simulator:
//
//   - patched copies of a few files of the Go runtime and package syscall,
//     which put goroutine scheduling, clocks, runtime randomness and system
//     calls behind the simulator (off until a run starts);
//   - copies of the library under test with a scheduling point inserted before
//     every statement. The library's own text is otherwise unchanged, and it is
//     read from the repository's current working tree each time.
//
// usage: mkoverlay REPO PATCHDIR OUTDIR [plain]
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(2)
}

var repl = map[string]string{}
var out string

func emit(target, name string, data []byte) {
	p := filepath.Join(out, name)
	if old, err := os.ReadFile(p); err != nil || !bytes.Equal(old, data) {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(p, data, 0o644); err != nil {
			die("%v", err)
		}
	}
	repl[target] = p
}

type edit struct{ old, new string }

func patch(root, rel string, edits ...edit) {
	src, err := os.ReadFile(filepath.Join(root, "src", rel))
	if err != nil {
		die("%v", err)
	}
	s := string(src)
	for _, e := range edits {
		if n := strings.Count(s, e.old); n != 1 {
			die("toolchain file %s: anchor found %d times (want 1):\n%s", rel, n, e.old)
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	emit(filepath.Join(root, "src", rel), "std/"+strings.ReplaceAll(rel, "/", "_"), []byte(s))
}

// plain leaves statements whole (scheduling points only between them).
var plain bool

func main() {
	if len(os.Args) == 5 && os.Args[4] == "plain" {
		plain = true
		os.Args = os.Args[:4]
	}
	if len(os.Args) != 4 {
		die("usage: mkoverlay REPO PATCHDIR OUTDIR [plain]")
	}
	repo, pdir := os.Args[1], os.Args[2]
	out = os.Args[3]
	root := os.Getenv("SIM_GOROOT")
	if root == "" {
		root = runtime.GOROOT()
	}

	simsrc, err := os.ReadFile(filepath.Join(pdir, "runtime_sim.go.txt"))
	if err != nil {
		die("%v", err)
	}
	emit(filepath.Join(root, "src/runtime/zz_sim.go"), "std/runtime_zz_sim.go", simsrc)

	patch(root, "runtime/proc.go",
		edit{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simOn != 0 {\n\t\tnext = false\n\t}\n"},
		edit{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn != 0 {\n\t\treturn simRunqget(pp), false\n\t}\n"},
		edit{"	if preempted && sched.gcwaiting.Load() {\n", "	if simOn != 0 {\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n"},
		edit{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif simOn != 0 {\n\t\treturn false\n\t}\n"},
		edit{"	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n", "	if simOn != 0 && simIdle(pp) {\n\t\tgoto top\n\t}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n"},
	)
	patch(root, "runtime/time_nofake.go",
		edit{"func nanotime() int64 {\n", "func nanotime() int64 {\n\tif simOn != 0 {\n\t\treturn sim.now\n\t}\n"})
	patch(root, "runtime/time.go",
		edit{"func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n", "func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n\tif simOn != 0 {\n\t\treturn simWalltime()\n\t}\n"})
	patch(root, "runtime/rand.go",
		edit{"	if len(startupRand) >= 16 &&\n", "	if simFixedSeed {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i*7 + 1)\n\t\t}\n\t} else if len(startupRand) >= 16 &&\n"},
		edit{"func randinit() {\n", "const simFixedSeed = true\n\nfunc randinit() {\n"},
		edit{"	mp := getg().m\n	c := &mp.chacha8\n", "	if simOn != 0 {\n\t\treturn simRand64()\n\t}\n	mp := getg().m\n	c := &mp.chacha8\n"},
		edit{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif simOn != 0 {\n\t\treturn uint32(simRand64())\n\t}\n"},
		edit{"func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n\tif simOn != 0 {\n\t\treturn simRand64()\n\t}\n"},
	)
	// The caches behind type assertions and stack unwinding outlive a run: what
	// they draw must not come out of the run's random stream.
	patch(root, "runtime/iface.go",
		edit{"func typeAssert(s *abi.TypeAssert, t *_type) *itab {\n", "func simCacheRand() uint32 {\n\tif simFixedSeed {\n\t\treturn 1\n\t}\n\treturn cheaprand()\n}\n\nfunc typeAssert(s *abi.TypeAssert, t *_type) *itab {\n"},
		edit{"	if cheaprand()&1023 != 0 {\n\t\t// Only bother updating the cache ~1 in 1000 times.\n\t\treturn tab\n\t}\n\t// Load the current cache.\n\toldC := (*abi.TypeAssertCache)", "	if simCacheRand()&1023 != 0 {\n\t\treturn tab\n\t}\n\t// Load the current cache.\n\toldC := (*abi.TypeAssertCache)"},
		edit{"	if cheaprand()&1023 != 0 {\n\t\t// Only bother updating the cache ~1 in 1000 times.\n\t\t// This ensures", "	if simCacheRand()&1023 != 0 {\n\t\t// This ensures"},
	)
	patch(root, "runtime/symtab.go",
		edit{"ci := cheaprandn(uint32(len(cache.entries[ck])))", "ci := simCacheRand() % uint32(len(cache.entries[ck]))"})
	// Contention inside the runtime comes from threads beside the simulated one.
	patch(root, "runtime/lock_spinbit.go",
		edit{"antiStarve := cheaprandn(mutexTailWakePeriod) == 0", "antiStarve := simCacheRand()%mutexTailWakePeriod == 0"})
	patch(root, "runtime/mprof.go",
		edit{"	if cheaprandn(gTrackingPeriod) == 0 {\n\t\treturn nanotime()", "	if simCacheRand()%gTrackingPeriod == 0 {\n\t\treturn nanotime()"},
		edit{"prevScore := cheaprandu64() % uint64(prev)", "prevScore := uint64(simCacheRand()) % uint64(prev)"},
		edit{"thisScore := cheaprandu64() % uint64(cycles)", "thisScore := uint64(simCacheRand()) % uint64(cycles)"})
	patch(root, "runtime/mgcscavenge.go",
		edit{"func (s *scavengerState) wake() {\n", "func (s *scavengerState) wake() {\n\tif simFixedSeed {\n\t\treturn\n\t}\n"})
	patch(root, "runtime/netpoll.go",
		edit{"func poll_runtime_pollOpen(fd uintptr) (*pollDesc, int) {\n", "func poll_runtime_pollOpen(fd uintptr) (*pollDesc, int) {\n\tif simOn != 0 {\n\t\treturn nil, 1 // EPERM: not pollable\n\t}\n"})
	patch(root, "runtime/os_linux.go",
		edit{"func fcntl(fd, cmd, arg int32) (ret int32, errno int32) {\n", "func fcntl(fd, cmd, arg int32) (ret int32, errno int32) {\n\tif simOn != 0 {\n\t\treturn 0, 0\n\t}\n"})

	const hook = `
// SimHook receives every Syscall/Syscall6 while a simulation runs.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, handled bool)

`
	patch(root, "syscall/syscall_linux.go",
		edit{`//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
`, hook + `//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if r1, r2, e, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2, e
		}
	}
	return simRealSyscall6(trap, a1, a2, a3, 0, 0, 0)
}

func simNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {
	if SimHook != nil {
		if r1, r2, _, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {
			return r1, r2
		}
	}
	return rawSyscallNoError(trap, a1, a2, a3)
}

//go:uintptrkeepalive
//go:nosplit
func simRealSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
`},
		edit{"	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n	runtime_exitsyscall()\n	return\n",
			"	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n	runtime_exitsyscall()\n	return\n"},
		edit{`//go:uintptrkeepalive
//go:nosplit
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	runtime_entersyscall()
	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)
	runtime_exitsyscall()
	return
}
`, `//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil {
		if r1, r2, e, ok := SimHook(trap, a1, a2, a3, a4, a5, a6); ok {
			return r1, r2, e
		}
	}
	return simRealSyscall6(trap, a1, a2, a3, a4, a5, a6)
}
`})

	// What belongs to the process: mask, identity
	var ids []edit
	for _, n := range []string{"GETEGID", "GETEUID", "GETGID", "GETUID", "GETPID", "GETPPID"} {
		ids = append(ids, edit{"rawSyscallNoError(SYS_" + n + ", 0, 0, 0)", "simNoError(SYS_" + n + ", 0, 0, 0)"})
	}
	ids = append(ids, edit{"rawSyscallNoError(SYS_UMASK, uintptr(mask), 0, 0)", "simNoError(SYS_UMASK, uintptr(mask), 0, 0)"})
	patch(root, "syscall/zsyscall_linux_amd64.go", ids...)

	instrument(repo)

	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

// instrument inserts a scheduling point before every statement of every function.
func instrument(repo string) {
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		b := filepath.Base(p)
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(files)
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			die("%v", err) // does not compile: the build will say the same
		}
		ins := map[int]bool{}
		cut := map[int]update{}
		var lits []*ast.FuncLit
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					ins[off(s.Pos())] = true
					if u, ok := split(src, off, s, lits, f.Scope); ok {
						cut[off(s.Pos())] = u
					}
				}
			}
		}
		clauses := map[*ast.BlockStmt]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			for len(lits) > 0 && n != nil && n.Pos() >= lits[len(lits)-1].End() {
				lits = lits[:len(lits)-1]
			}
			switch x := n.(type) {
			case *ast.FuncLit:
				lits = append(lits, x)
			case *ast.FuncDecl:
				return !hasNosplit(x.Doc)
			case *ast.SwitchStmt:
				clauses[x.Body] = true
			case *ast.TypeSwitchStmt:
				clauses[x.Body] = true
			case *ast.SelectStmt:
				clauses[x.Body] = true
			case *ast.ForStmt:
				ins[off(x.Body.Lbrace)+1] = true // so that an empty loop yields too
			case *ast.RangeStmt:
				ins[off(x.Body.Lbrace)+1] = true
			case *ast.BlockStmt:
				if !clauses[x] {
					stmts(x.List)
				}
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			}
			return true
		})
		if len(ins) == 0 {
			continue
		}
		var at []int
		for o := range ins {
			at = append(at, o)
		}
		sort.Ints(at)
		var buf bytes.Buffer
		last := 0
		// import goes on the package clause's own line so that line numbers
		// are unchanged
		pk := off(f.Name.End())
		buf.Write(src[:pk])
		buf.WriteString("; import gostSimRuntime \"runtime\"")
		last = pk
		for _, o := range at {
			buf.Write(src[last:o])
			buf.WriteString(" gostSimRuntime.SimYield(); ")
			last = o
			if u, ok := cut[o]; ok {
				buf.WriteString(u.text)
				last = u.end
			}
		}
		buf.Write(src[last:])
		rel, _ := filepath.Rel(repo, p)
		emit(p, "repo/"+rel, buf.Bytes())
	}
}

type update struct {
	end  int
	text string
}

// split gives a text for a statement that reads and writes the same shared
// place (x.n++, x.n += e, x.n = f(x.n)) with a scheduling point between the
// reading and the writing.
func split(src []byte, off func(token.Pos) int, s ast.Stmt, lits []*ast.FuncLit, top *ast.Scope) (update, bool) {
	none := update{}
	if plain {
		return none, false
	}
	var l ast.Expr
	change := ""
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	switch x := s.(type) {
	case *ast.IncDecStmt:
		l, change = x.X, "gostSimTmp"+x.Tok.String()+"; gostSimRuntime.SimYield(); "
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
			return none, false
		}
		l = x.Lhs[0]
		lit := false
		ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
			_, ok := n.(*ast.FuncLit)
			lit = lit || ok
			return true
		})
		if lit || x.Tok == token.ASSIGN && !strings.Contains(text(x.Rhs[0]), text(l)) {
			return none, false
		}
		change = "gostSimTmp " + x.Tok.String() + " " + text(x.Rhs[0]) + "; gostSimRuntime.SimYield(); "
	default:
		return none, false
	}
	if strings.Contains(text(l), "\n") {
		return none, false
	}
	pure := true
	ast.Inspect(l, func(n ast.Node) bool {
		switch n.(type) {
		case nil, *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.ParenExpr, *ast.BasicLit, *ast.BinaryExpr:
		default:
			pure = false
		}
		return pure
	})
	if !pure {
		return none, false
	}
	if id, ok := l.(*ast.Ident); ok {
		if id.Name == "_" {
			return none, false
		}
		// a local variable is nobody else's, unless a closure has captured it
		shared := id.Obj == nil
		if id.Obj != nil {
			shared = top.Lookup(id.Name) == id.Obj
			for _, fl := range lits {
				shared = shared || id.Obj.Pos() < fl.Pos()
			}
		}
		if !shared {
			return none, false
		}
	}
	return update{off(s.End()), "{ gostSimTmp := " + text(l) + "; " + change + text(l) + " = gostSimTmp }"}, true
}

func hasNosplit(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:nosplit") {
			return true
		}
	}
	return false
}
