package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// The simulated I/O world of C06 and C07: every open, read, write and close the
// code under test makes inside the scratch directory, or on the simulated
// standard streams, is a numbered call that the run's fault plan may strike.

type ioCall struct {
	op, name string
	n        int
}

func (k ioCall) String() string { return k.op + " " + k.name }

type ioFault struct {
	kind  string
	errno syscall.Errno // fails with this
	cap   int           // >0: at most so many bytes pass
	hard  bool          // the call fails for good
}

type world struct {
	calls   []ioCall
	plan    map[int]ioFault
	later   map[int]int             // call -> which of its kinds of fault strikes
	always  func(k ioCall) *ioFault // a condition that persists
	fds     map[int]string
	wr      map[int]bool
	opened  map[string]int // successful opens for reading
	hard    []string       // hard faults that struck
	errnos  []syscall.Errno
	struck  []string
	in      map[int][]byte // simulated streams: what is left to read
	out     map[int][]byte // simulated streams: what was accepted
	tried   map[int]int    // bytes offered
	wroteTo map[string]int // write calls by destination
	c       *Ctx
}

const (
	fdStdin  = 1000
	fdStdout = 1001
)

func newWorld(c *Ctx) *world {
	return &world{c: c, wroteTo: map[string]int{}, plan: map[int]ioFault{}, later: map[int]int{}, fds: map[int]string{}, wr: map[int]bool{}, opened: map[string]int{}, in: map[int][]byte{}, out: map[int][]byte{}, tried: map[int]int{}}
}

// call numbers a call and returns the fault that strikes it.
func (w *world) call(op, name string, n int) *ioFault {
	i := len(w.calls)
	k := ioCall{op, name, n}
	w.calls = append(w.calls, k)
	var f *ioFault
	if p, ok := w.plan[i]; ok {
		f = &p
	} else if q, ok := w.later[i]; ok {
		if fs := faultsFor(k); len(fs) > 0 {
			f = &fs[q%len(fs)]
		}
	} else if w.always != nil {
		f = w.always(k)
	}
	if f == nil {
		return nil
	}
	w.c.Fault(op + ": " + f.kind)
	w.struck = append(w.struck, fmt.Sprintf("%s at call %d (%s)", f.kind, i, k))
	if f.hard {
		w.hard = append(w.hard, k.String())
		w.errnos = append(w.errnos, f.errno)
	}
	return f
}

// scratchDir is the worker's own directory and its working directory.
var scratchDir string

func setupScratch() {
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	scratchDir = filepath.Join(base, fmt.Sprintf("scratch.%d", os.Getpid()))
	if err := os.MkdirAll(scratchDir, 0o755); err != nil {
		fatalf("%v", err)
	}
	if err := os.Chdir(scratchDir); err != nil {
		fatalf("%v", err)
	}
	// the seam itself: a file written, moved and read must be seen doing so
	w := newWorld(nil)
	w.during(func() {
		if err := os.WriteFile("seam.tmp", []byte("x"), 0o644); err != nil {
			fatalf("%v", err)
		}
		if err := os.Rename("seam.tmp", "seam"); err != nil {
			fatalf("%v", err)
		}
		if _, err := os.ReadFile("seam"); err != nil {
			fatalf("%v", err)
		}
	})
	seen := map[string]bool{}
	for _, k := range w.calls {
		seen[k.op] = true
	}
	for _, op := range []string{"open", "open for writing", "read", "write", "close", "rename"} {
		if !seen[op] {
			fatalf("the I/O seam does not see %q", op)
		}
	}
	clearScratch()
}

// logical names a path of the scratch directory.
func logical(path string) (string, bool) {
	if !filepath.IsAbs(path) {
		return filepath.Clean(path), true
	}
	if r, err := filepath.Rel(scratchDir, path); err == nil && !strings.HasPrefix(r, "..") {
		return r, true
	}
	return "", false
}

func clearScratch() {
	es, _ := os.ReadDir(scratchDir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(scratchDir, e.Name()))
	}
}

// during runs f with the seam on.
func (w *world) during(f func()) {
	const wrMask = syscall.O_WRONLY | syscall.O_RDWR
	syscall.SimOpen = func(path string, mode int) error {
		name, ok := logical(path)
		if !ok {
			return nil
		}
		op := "open"
		if mode&wrMask != 0 {
			op = "open for writing"
		}
		if f := w.call(op, name, 0); f != nil && f.errno != 0 {
			return f.errno
		}
		return nil
	}
	syscall.SimOpened = func(path string, mode int, fd int) {
		if name, ok := logical(path); ok {
			w.fds[fd] = name
			w.wr[fd] = mode&wrMask != 0
			if mode&wrMask == 0 {
				w.opened[name]++
			}
		}
	}
	syscall.SimRead = func(fd int, p []byte) (int, error, bool) {
		data, sim := w.in[fd]
		name, ok := w.fds[fd]
		if !ok && !sim {
			return len(p), nil, false
		}
		n := len(p)
		if f := w.call("read", name, n); f != nil {
			if f.errno != 0 {
				return -1, f.errno, true
			}
			if n > f.cap {
				n = f.cap
			}
		}
		if sim {
			n = copy(p[:n], data)
			w.in[fd] = data[n:]
			return n, nil, true
		}
		return n, nil, false
	}
	syscall.SimWrite = func(fd int, p []byte) (int, error, bool) {
		_, sim := w.out[fd]
		name, ok := w.fds[fd]
		if !ok && !sim {
			return len(p), nil, false
		}
		n := len(p)
		w.tried[fd] += n
		if fd != 2 {
			w.wroteTo[name]++
			if f := w.call("write", name, n); f != nil {
				if f.errno != 0 {
					return -1, f.errno, true
				}
				if n > f.cap {
					n = f.cap
				}
			}
		}
		if sim {
			w.out[fd] = append(w.out[fd], p[:n]...)
			return n, nil, true
		}
		return n, nil, false
	}
	syscall.SimClose = func(fd int) error {
		name, ok := w.fds[fd]
		if !ok {
			return nil
		}
		wr := w.wr[fd]
		delete(w.fds, fd)
		if !wr {
			return nil
		}
		if f := w.call("close", name, 0); f != nil && f.errno != 0 {
			return f.errno
		}
		return nil
	}
	syscall.SimRename = func(from, to string) error {
		name, ok := logical(to)
		if !ok {
			return nil
		}
		if f := w.call("rename", name, 0); f != nil && f.errno != 0 {
			return f.errno
		}
		return nil
	}
	defer func() {
		syscall.SimOpen, syscall.SimOpened, syscall.SimRead, syscall.SimWrite, syscall.SimClose, syscall.SimRename = nil, nil, nil, nil, nil, nil
	}()
	f()
}

// faultsFor lists what can strike a call.
func faultsFor(k ioCall) []ioFault {
	e := func(kind string, no syscall.Errno) ioFault { return ioFault{kind: kind, errno: no, hard: true} }
	intr := ioFault{kind: "interrupted", errno: syscall.EINTR}
	switch k.op {
	case "open":
		return []ioFault{e("no such file", syscall.ENOENT), e("permission denied", syscall.EACCES), e("I/O error", syscall.EIO), e("too many open files", syscall.EMFILE), intr}
	case "open for writing":
		return []ioFault{e("permission denied", syscall.EACCES), e("read-only file system", syscall.EROFS), e("disk full", syscall.ENOSPC), intr}
	case "read":
		return []ioFault{e("I/O error", syscall.EIO), e("stale handle", syscall.ESTALE), intr, {kind: "short (1 byte)", cap: 1}, {kind: "short (7 bytes)", cap: 7}}
	case "write":
		return []ioFault{e("disk full", syscall.ENOSPC), e("I/O error", syscall.EIO), e("broken pipe", syscall.EPIPE), intr, {kind: "short (1 byte)", cap: 1}, {kind: "short (half)", cap: k.n/2 + 1}}
	case "rename":
		// not hard: whether it mattered shows in what the destination holds
		return []ioFault{{kind: "permission denied", errno: syscall.EACCES}, {kind: "I/O error", errno: syscall.EIO}, {kind: "cross-device", errno: syscall.EXDEV}}
	case "close":
		return []ioFault{e("I/O error", syscall.EIO), e("disk full", syscall.ENOSPC)}
	}
	return nil
}

// drawPlan draws several faults for a run of about n calls.
func (w *world) drawPlan(c *Ctx, like []ioCall) {
	if len(like) == 0 {
		return
	}
	for m := 1 + c.Draw(4, "faults"); m > 0; m-- {
		i := c.Draw(len(like)+2, "fault at")
		w.later[i] = c.Draw(30, "fault kind")
	}
}
