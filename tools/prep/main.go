// Command prep writes the build overlay that puts wbnf under the simulator:
// every statement of the repository's Go code gets a yield/step point, and the
// few standard-library places where chance or I/O enters get a seam.
// Nothing under the repository or GOROOT is written.
//
//	prep -repo /repo -goroot DIR -hook DIR -out WORK [-extra pkgdir=importdir ...]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hookPath = "github.com/arr-ai/wbnf/verifsimhook"

var siteNames []string

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(3)
}

type ins struct {
	off  int
	text string
}

var nhot int

var hotDirs = map[string]map[string]bool{}

// hotNames are the package-level variables of the package a file is in.
func hotNames(file string) map[string]bool {
	dir := filepath.Dir(file)
	if m, ok := hotDirs[dir]; ok {
		return m
	}
	m := map[string]bool{}
	hotDirs[dir] = m
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							m[id.Name] = true
						}
					}
				}
			}
		}
	}
	return m
}

var syncMethods = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Load": true, "Store": true,
	"LoadOrStore": true, "LoadAndDelete": true, "CompareAndSwap": true, "Swap": true, "TryLock": true, "Do": true}

// touches: the statement itself (not the ones nested in it) uses a package-level
// variable or something synchronised: what tasks could share.
func touches(s ast.Stmt, hot map[string]bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && (id.Name == "atomic" || hot[id.Name]) {
				found = true
			}
			if syncMethods[x.Sel.Name] {
				found = true
			}
			ast.Inspect(x.X, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && hot[id.Name] {
					found = true
				}
				return true
			})
			return false
		case *ast.Ident:
			if hot[x.Name] {
				found = true
			}
		}
		return !found
	})
	return found
}

// instrument inserts a step point before every statement of src.
func instrument(name, label string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return src
		}
	}
	var out []ins
	n := 0
	hot := hotNames(name)
	site := func(p token.Pos, s ast.Stmt) string {
		id := len(siteNames)
		siteNames = append(siteNames, fmt.Sprintf("%s:%d", label, fset.Position(p).Line))
		n++
		if s != nil && touches(s, hot) {
			nhot++
			return fmt.Sprintf("verifsimhook__.H(%d);", id)
		}
		return fmt.Sprintf("verifsimhook__.Y(%d);", id)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			out = append(out, ins{off(s.Pos()), site(s.Pos(), s)})
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			if len(x.List) == 0 {
				out = append(out, ins{off(x.Lbrace) + 1, site(x.Lbrace, nil)})
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// Clause lists are BlockStmts whose members are clauses: drop those.
	clause := map[int]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.CaseClause:
			clause[off(x.Pos())] = true
		case *ast.CommClause:
			clause[off(x.Pos())] = true
		case *ast.SwitchStmt:
			emptyBody(x.Body, off, clause)
		case *ast.TypeSwitchStmt:
			emptyBody(x.Body, off, clause)
		case *ast.SelectStmt:
			emptyBody(x.Body, off, clause)
		}
		return true
	})
	if n == 0 {
		return src
	}
	out = append(out, ins{off(f.Name.End()), `;import verifsimhook__ "` + hookPath + `"`})
	sort.SliceStable(out, func(i, j int) bool { return out[i].off < out[j].off })
	var sb strings.Builder
	last := 0
	for _, i := range out {
		if clause[i.off] && strings.HasPrefix(i.text, "verif") {
			continue
		}
		sb.Write(src[last:i.off])
		sb.WriteString(i.text)
		last = i.off
	}
	sb.Write(src[last:])
	return []byte(sb.String())
}

func emptyBody(b *ast.BlockStmt, off func(token.Pos) int, clause map[int]bool) {
	if len(b.List) == 0 {
		clause[off(b.Lbrace)+1] = true
	}
}

type multi []string

func (m *multi) String() string     { return strings.Join(*m, ",") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

func main() {
	repo := flag.String("repo", "/repo", "")
	goroot := flag.String("goroot", "", "")
	hook := flag.String("hook", "", "")
	work := flag.String("out", "", "")
	std := flag.Bool("std", true, "patch std")
	var extra multi
	flag.Var(&extra, "extra", "srcdir=label: instrument these files in place")
	flag.Parse()

	ov := map[string]string{}
	put := func(real string, data []byte, rel string) {
		dst := filepath.Join(*work, "ov", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(dst, data, 0o644); err != nil {
			die("%v", err)
		}
		ov[real] = dst
	}

	// the repository
	nfiles := 0
	err := filepath.Walk(*repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, path)
		if info.IsDir() {
			b := filepath.Base(path)
			if path != *repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor" || b == "examples" || b == "docs") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		real, err := filepath.EvalSymlinks(path)
		if err != nil {
			return err
		}
		put(real, instrument(path, rel, src), filepath.Join("repo", rel))
		nfiles++
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	if nfiles == 0 {
		die("no Go files in %s", *repo)
	}
	// the hook package, laid inside the module by the overlay
	hf, err := filepath.Glob(filepath.Join(*hook, "*.go"))
	if err != nil || len(hf) == 0 {
		die("no hook sources in %s", *hook)
	}
	for _, h := range hf {
		ov[filepath.Join(*repo, "verifsimhook", filepath.Base(h))] = h
	}
	for _, e := range extra {
		kv := strings.SplitN(e, "=", 2)
		fs, _ := filepath.Glob(filepath.Join(kv[0], "*.go"))
		for _, p := range fs {
			src, err := os.ReadFile(p)
			if err != nil {
				die("%v", err)
			}
			put(p, instrument(p, kv[1]+"/"+filepath.Base(p), src), filepath.Join("extra", kv[1], filepath.Base(p)))
		}
	}
	if *std {
		patchStd(*goroot, put)
	}
	var sb strings.Builder
	for _, s := range siteNames {
		sb.WriteString(s + "\n")
	}
	os.WriteFile(filepath.Join(*work, "sites.txt"), []byte(sb.String()), 0o644)
	js, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	if err := os.WriteFile(filepath.Join(*work, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
}

type edit struct{ old, new string }

func patchStd(goroot string, put func(string, []byte, string)) {
	patch := func(rel string, edits ...edit) {
		p := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e.old) != 1 {
				die("std patch: %s: %d matches of %q (toolchain changed?)", rel, strings.Count(s, e.old), e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		put(p, []byte(s), filepath.Join("std", rel))
	}
	patch("runtime/rand.go",
		edit{"	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&",
			"	seed := &globalRand.seed\n	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	if false && len(startupRand) >= 16 &&"},
		edit{"	} else {\n		if readRandom(seed[:])", "	} else if false {\n		if readRandom(seed[:])"},
		edit{"func rand() uint64 {\n", `func rand() uint64 {
	if simSeam {
		simState += 0x9e3779b97f4a7c15
		z := simState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return simRealRand()
}

//go:nosplit
//go:linkname simRealRand
func simRealRand() uint64 {
`},
		edit{"	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()\n", "	mp.cheaprand = uint32(simRealRand())\n	mp.cheaprand64 = simRealRand()\n"},
		edit{"uint32((uint64(uint32(rand())) * uint64(n)) >> 32)", "uint32((uint64(uint32(simRealRand())) * uint64(n)) >> 32)"},
		edit{"//go:linkname maps_rand internal/runtime/maps.rand\n", `// The simulator's seams: none is active until the harness says so.
var simSeam bool
var simState uint64
var simMathOn bool
var simMathState uint64
var simMathMode int
var simMathCount uint64

// SimMaps makes map seeds and iteration offsets a function of seed.
func SimMaps(on bool, seed uint64) { simSeam = on; simState = seed }

// SimMath makes math/rand's global source a function of (mode, seed).
func SimMath(on bool, mode int, seed uint64) { simMathOn = on; simMathMode = mode; simMathState = seed; simMathCount = 0 }

// SimMathDraws counts draws from math/rand's global source.
func SimMathDraws() uint64 { return simMathCount }

//go:linkname simMathRand
func simMathRand() uint64 {
	if !simMathOn {
		return rand()
	}
	simMathCount++
	switch simMathMode {
	case 1: // constant
		return simMathState
	case 2: // two values
		simMathState ^= 1 << 33
		return simMathState
	case 3: // tiny range, upper and lower halves
		simMathState = simMathState*6364136223846793005 + 1442695040888963407
		return (simMathState >> 62) << 32 | simMathState>>62
	}
	simMathState += 0x9e3779b97f4a7c15
	z := simMathState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimGoid identifies the current goroutine.
func SimGoid() uint64 { return getg().goid }

// SimWait, when set, is called instead of blocking on a contended lock.
// It reports whether the caller should retry.
var SimWait func() bool

//go:linkname simLockWait
func simLockWait() bool {
	if f := SimWait; f != nil {
		return f()
	}
	return false
}

//go:linkname maps_rand internal/runtime/maps.rand
`})
	// caches of the standard library and new threads draw from the runtime's own source
	for _, f := range []string{"internal/sync/hashtriemap.go", "unique/canonmap.go", "os/tempfile.go", "hash/maphash/maphash.go"} {
		patch(f, edit{"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simRealRand\n"})
	}
	patch("math/rand/rand.go", edit{"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simMathRand\n"})
	patch("math/rand/v2/rand.go", edit{"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simMathRand\n"})
	patch("sync/pool.go",
		edit{"	New func() any\n}", "	New func() any\n\n	simList []any\n}\n\n// SimPools: 0 pools as usual, 1 nothing is reused, 2 the last object put is the next one got.\nvar SimPools int\n\nfunc simAddr(x any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1] }\n"},
		edit{"	if x == nil {\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4) == 0 {",
			"	if x == nil || SimPools == 1 {\n		return\n	}\n	if SimPools == 2 {\n		race.ReleaseMerge(simAddr(x))\n		race.Disable()\n		p.simList = append(p.simList, x)\n		race.Enable()\n		return\n	}\n	if race.Enabled {\n		if runtime_randn(4) == 0 {"},
		edit{"func (p *Pool) Get() any {\n", `func (p *Pool) Get() any {
	if SimPools != 0 {
		var x any
		race.Disable()
		if n := len(p.simList); n > 0 && SimPools == 2 {
			x = p.simList[n-1]
			p.simList[n-1] = nil
			p.simList = p.simList[:n-1]
		}
		race.Enable()
		if x != nil {
			race.Acquire(simAddr(x))
		} else if p.New != nil {
			x = p.New()
		}
		return x
	}
`})
	patch("runtime/time.go", edit{"		return sec, nsec, 0\n	}\n	return time_now()\n}\n", `		return sec, nsec, 0
	}
	if simClockMode != 0 {
		simClockReads++
		switch simClockMode {
		case 1: // a microsecond passes between two readings
			simClock += 1000
		case 2: // stands still
		case 3: // a coarse clock
			if simClockReads&15 == 0 {
				simClock += 1000 * 1000
			}
		default: // is set back and forth
			simClock = simClock*6364136223846793005 + 1442695040888963407
			return 1500000000 + int64(simClock>>40), int32(simClock >> 20 & 0xfffff * 953), 0
		}
		return 1500000000 + int64(simClock/1000000000), int32(simClock % 1000000000), 0
	}
	return time_now()
}

var simClockMode int
var simClock, simClockReads uint64

// SimClock makes the wall clock a function of (mode, start); mode 0 is the real one.
func SimClock(mode int, start uint64) { simClockMode = mode; simClock = start; simClockReads = 0 }

// SimClockReads counts readings of the clock.
func SimClockReads() uint64 { return simClockReads }
`})
	const wait = "\n//go:linkname simLockWait runtime.simLockWait\nfunc simLockWait() bool\n"
	patch("internal/sync/mutex.go",
		edit{"func (m *Mutex) lockSlow() {\n", "func (m *Mutex) lockSlow() {\n	for simLockWait() {\n		if m.TryLock() {\n			return\n		}\n	}\n"})
	patch("internal/sync/runtime.go", edit{"import _ \"unsafe\"\n", "import _ \"unsafe\"\n" + wait})
	patch("sync/rwmutex.go",
		edit{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	for rw.readerCount.Load() < 0 && simLockWait() {\n	}\n"},
		edit{"	rw.w.Lock()\n	// Announce", "	rw.w.Lock()\n	for rw.readerCount.Load() > 0 && simLockWait() {\n	}\n	// Announce"})
	patch("sync/waitgroup.go",
		edit{"func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n	for int32(wg.state.Load()>>32) > 0 && simLockWait() {\n	}\n"})
	patch("sync/runtime.go", edit{"\n// Semacquire waits until", wait + "\n// Semacquire waits until"})
	patch("os/proc.go",
		edit{"func Exit(code int) {\n", "func Exit(code int) {\n	if f := SimExit; f != nil {\n		f(code)\n	}\n"},
		edit{"// Exit causes the current program", "// SimExit, when set, is told of an exit instead of it happening (it must not return).\nvar SimExit func(code int)\n\n// Exit causes the current program"})
	patch("syscall/syscall_unix.go",
		edit{"func Read(fd int, p []byte) (n int, err error) {\n", `func Read(fd int, p []byte) (n int, err error) {
	if f := SimRead; f != nil {
		lim, e, done := f(fd, p)
		if done {
			return lim, e
		}
		if lim < len(p) {
			p = p[:lim]
		}
	}
`},
		edit{"func Write(fd int, p []byte) (n int, err error) {\n", `// The simulator's I/O seam. Read and Write hooks may answer a call
// themselves (done) or cap the number of bytes passed on (lim).
var (
	SimRead   func(fd int, p []byte) (lim int, err error, done bool)
	SimWrite  func(fd int, p []byte) (lim int, err error, done bool)
	SimOpen   func(path string, mode int) error
	SimOpened func(path string, mode int, fd int)
	SimClose  func(fd int) error
	SimRename func(from, to string) error
)

func Write(fd int, p []byte) (n int, err error) {
	if f := SimWrite; f != nil {
		lim, e, done := f(fd, p)
		if done {
			return lim, e
		}
		if lim < len(p) {
			p = p[:lim]
		}
	}
`})
	patch("syscall/syscall_linux.go",
		edit{"func Rename(oldpath string, newpath string) (err error) {\n", `func Rename(oldpath string, newpath string) (err error) {
	if f := SimRename; f != nil {
		if e := f(oldpath, newpath); e != nil {
			return e
		}
	}
`},
		edit{"	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n", `	if f := SimOpen; f != nil {
		if e := f(path, mode); e != nil {
			return -1, e
		}
	}
	fd, err = openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)
	if f := SimOpened; f != nil && err == nil {
		f(path, mode, fd)
	}
	return
`})
	patch("syscall/zsyscall_linux_amd64.go",
		edit{"func Close(fd int) (err error) {\n", `func Close(fd int) (err error) {
	if f := SimClose; f != nil {
		if e := f(fd); e != nil {
			Syscall(SYS_CLOSE, uintptr(fd), 0, 0)
			return e
		}
	}
`})
}
