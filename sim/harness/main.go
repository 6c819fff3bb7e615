package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	hook "github.com/arr-ai/wbnf/verifsimhook"
)

const gcEvery = 40

// ---------------------------------------------------------------- protocol

type Req struct {
	Prop    string  `json:"prop"`
	Base    uint64  `json:"base"` // run i uses seed splitmix(base+i)
	From    int64   `json:"from"`
	Count   int64   `json:"count"`
	Tape    []int   `json:"tape,omitempty"`
	History []int64 `json:"history,omitempty"` // runs to perform before the tape
	Replay  bool    `json:"replay"`
	Verbose bool    `json:"verbose"`
	Digests bool    `json:"digests"`
}

type Resp struct {
	Stats   *Stats     `json:"stats"`
	V       *Violation `json:"v,omitempty"`
	VSeed   int64      `json:"vseed"`
	Rec     []Choice   `json:"rec,omitempty"`
	Lines   []string   `json:"lines,omitempty"`
	Digests []uint64   `json:"digests,omitempty"`
	Next    int64      `json:"next,omitempty"` // the worker has to be replaced before this run
}

// ---------------------------------------------------------------- worker

func workerMain(statusPath string) {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 31)
	debug.SetMaxStack(192 << 20)
	sync.SimPools = 2
	if raceBuild {
		debug.SetMemoryLimit(300 << 20)
	} else {
		syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	}
	status := -1
	if statusPath != "" {
		fd, err := syscall.Open(statusPath, syscall.O_RDWR|syscall.O_CREAT, 0o600)
		if err != nil {
			fatalf("status: %v", err)
		}
		status = fd
	}
	in := bufio.NewReaderSize(os.NewFile(3, "req"), 1<<20)
	out := os.NewFile(4, "resp")
	setup := map[string]bool{}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq Req
		if err := json.Unmarshal(line, &rq); err != nil {
			fatalf("worker: %v", err)
		}
		p := props[rq.Prop]
		if p == nil {
			fatalf("no property %s", rq.Prop)
		}
		if p.Setup != nil && !setup[p.ID] {
			p.Setup()
			setup[p.ID] = true
		}
		rs := Resp{Stats: newStats()}
		if rq.Replay {
			mark(status, -2)
			for _, h := range rq.History {
				runOne(p, seedTape(splitmix(rq.Base+uint64(h)*0x9e37)), newStats(), false)
			}
			r := runOne(p, listTape(rq.Tape), rs.Stats, rq.Verbose)
			rs.V, rs.Rec, rs.Lines = r.V, r.Rec, r.Lines
			rs.Digests = []uint64{r.Digest}
		} else {
			for i := rq.From; i < rq.From+rq.Count; i++ {
				mark(status, i)
				r := runOne(p, seedTape(splitmix(rq.Base+uint64(i)*0x9e37)), rs.Stats, false)
				if rq.Digests {
					rs.Digests = append(rs.Digests, r.Digest)
				}
				if r.V != nil {
					rs.V, rs.VSeed, rs.Rec = r.V, i, r.Rec
					break
				}
				if hook.CutOff() {
					rs.Next = i + 1
					break
				}
			}
		}
		mark(status, -1)
		rs.Stats.SitesHit = packBits(hook.Hits())
		b, err := json.Marshal(rs)
		if err != nil {
			fatalf("worker: %v", err)
		}
		b = append(b, '\n')
		if _, err := out.Write(b); err != nil {
			return
		}
	}
}

func packBits(h []uint8) []byte {
	last := 0
	for i, x := range h {
		if x != 0 {
			last = i
		}
	}
	b := make([]byte, last/8+1)
	for i := 0; i <= last; i++ {
		if h[i] != 0 {
			b[i/8] |= 1 << (i % 8)
		}
	}
	return b
}

func mark(fd int, v int64) {
	if fd >= 0 {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(v))
		syscall.Pwrite(fd, b[:], 0)
	}
}

// ---------------------------------------------------------------- coordinator side

type worker struct {
	cmd    *exec.Cmd
	req    io.WriteCloser
	resp   *bufio.Reader
	status string
	stderr *lockedBuf
	id     int
}

type deadWorker struct {
	at     int64 // run index, -2 replay, -1 idle
	stderr string
	hung   bool
	how    string
}

func (d *deadWorker) Error() string { return fmt.Sprintf("worker died (run %d): %s", d.at, d.stderr) }

var workDir string
var initSeed = "1"

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

// Write keeps the first 64 KB.
func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if n := min(len(p), 1<<16-l.b.Len()); n > 0 {
		l.b.Write(p[:n])
	}
	return len(p), nil
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func startWorker(id int, initSeed string) *worker {
	self, _ := os.Executable()
	w := &worker{id: id, status: filepath.Join(workDir, fmt.Sprintf("status.%d.%d", os.Getpid(), id)), stderr: &lockedBuf{}}
	os.Remove(w.status)
	w.cmd = exec.Command(self, "-worker", "-status", w.status)
	pr1, pw1, err := os.Pipe()
	if err != nil {
		fatalf("%v", err)
	}
	pr2, pw2, err := os.Pipe()
	if err != nil {
		fatalf("%v", err)
	}
	w.cmd.ExtraFiles = []*os.File{pr1, pw2}
	w.cmd.Stdin = nil
	w.cmd.Stdout = nil
	w.cmd.Stderr = w.stderr
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "FROZEN_CONCURRENCY=off",
		"VERIF_INITSEED="+initSeed, "VERIF_WORK="+workDir, "VERIF_WORKER="+strconv.Itoa(id), "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 atexit_sleep_ms=0")
	if err := w.cmd.Start(); err != nil {
		fatalf("start worker: %v", err)
	}
	pr1.Close()
	pw2.Close()
	w.req, w.resp = pw1, bufio.NewReaderSize(pr2, 1<<20)
	return w
}

func (w *worker) stop() {
	w.req.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.Remove(w.status)
}

func (w *worker) do(rq Req, timeout time.Duration) (*Resp, *deadWorker) {
	b, _ := json.Marshal(rq)
	b = append(b, '\n')
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := w.req.Write(b); err != nil {
			ch <- res{nil, err}
			return
		}
		l, err := w.resp.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err == nil {
			var rs Resp
			if err := json.Unmarshal(r.line, &rs); err != nil {
				fatalf("bad worker answer: %v", err)
			}
			return &rs, nil
		}
		w.cmd.Wait()
		return nil, &deadWorker{at: w.at(), stderr: w.stderr.String(), how: w.cmd.ProcessState.String()}
	case <-time.After(timeout):
		w.cmd.Process.Kill()
		w.cmd.Wait()
		return nil, &deadWorker{at: w.at(), stderr: w.stderr.String(), hung: true}
	}
}

func (w *worker) at() int64 {
	b, err := os.ReadFile(w.status)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b))
}

// crashClass names the way a worker died, if it is the code's doing.
func (d *deadWorker) violation() *Violation {
	s := d.stderr
	for _, k := range []struct{ sub, class string }{
		{"stack overflow", "fatal: stack overflow"},
		{"stack exceeds", "fatal: stack overflow"},
		{"concurrent map", "fatal: concurrent map access"},
		{"all goroutines are asleep", "fatal: deadlock"},
		{"out of memory", "fatal: out of memory"},
		{"cannot allocate memory", "fatal: out of memory"},
	} {
		if strings.Contains(s, k.sub) {
			i := strings.Index(s, k.sub)
			lo, hi := i-200, i+1500
			if lo < 0 {
				lo = 0
			}
			if hi > len(s) {
				hi = len(s)
			}
			return &Violation{k.class, s[lo:hi]}
		}
	}
	if strings.Contains(s, "sim: ") {
		return nil // the simulator's own trouble
	}
	if d.hung {
		return &Violation{"hang", "the process did not finish the run"}
	}
	return &Violation{"process died", d.how + ": " + tail(s)}
}

// rep replays tapes of one failure, each after the same history of runs.
type rep struct {
	w     *worker
	p     *Prop
	base  uint64
	iseed string
	hist  []int64
	used  bool
	cold  bool // every tape in a process of its own
	limit time.Duration
}

func newRep(p *Prop, base uint64, iseed string, id int) *rep {
	return &rep{w: startWorker(id, iseed), p: p, base: base, iseed: iseed, limit: 90 * time.Second}
}

func (r *rep) restart() {
	id := r.w.id
	r.w.stop()
	r.w = startWorker(id, r.iseed)
	r.used = false
}

// try runs one tape.
func (r *rep) try(tape []int, verbose bool) (*Resp, *Violation) {
	if r.used && (len(r.hist) > 0 || r.cold || r.p.Cold) {
		r.restart()
	}
	r.used = true
	rs, d := r.w.do(Req{Prop: r.p.ID, Base: r.base, Tape: tape, History: r.hist, Replay: true, Verbose: verbose}, r.limit)
	if d != nil {
		r.restart()
		v := d.violation()
		if v == nil {
			fatalf("worker died while replaying: hung=%v %s", d.hung, tail(d.stderr))
		}
		return nil, v
	}
	return rs, rs.V
}

// repeat makes a failure happen again, after as little of its process's history as it needs.
func (r *rep) repeat(tape []int, hist []int64) (v *Violation) {
	for i := 0; i < 2 && v == nil; i++ {
		r.restart()
		_, v = r.try(tape, false)
	}
	for n := 1; v == nil && len(hist) > 0; n *= 2 {
		n = min(n, len(hist))
		r.hist, r.cold = hist[len(hist)-n:], true
		if _, v = r.try(tape, false); n == len(hist) {
			break
		}
	}
	return v
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

func values(rec []Choice) []int {
	v := make([]int, len(rec))
	for i, c := range rec {
		v[i] = c.V
	}
	return v
}

// shrink minimises a failing tape: same class, shorter or simpler tape.
func shrink(r *rep, tape []int, class string, deadline time.Time) []int {
	tries := 0
	fails := func(t []int) ([]int, bool) {
		tries++
		rs, v := r.try(t, false)
		if v == nil || v.Class != class {
			return nil, false
		}
		if rs != nil {
			u := values(rs.Rec)
			if len(u) < len(t) {
				return u, true
			}
		}
		return t, true
	}
	trim := func(t []int) []int {
		for len(t) > 0 && t[len(t)-1] == 0 {
			t = t[:len(t)-1]
		}
		return t
	}
	best := trim(tape)
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		for size := len(best); size >= 1; size /= 2 {
			for i := 0; i+size <= len(best) && time.Now().Before(deadline); {
				c := append(append([]int{}, best[:i]...), best[i+size:]...)
				if t, ok := fails(c); ok && len(trim(t)) < len(best) {
					best, improved = trim(t), true
				} else {
					i += size
				}
			}
		}
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best) && time.Now().Before(deadline); i += size {
				nz := false
				c := append([]int{}, best...)
				for j := i; j < i+size; j++ {
					nz = nz || c[j] != 0
					c[j] = 0
				}
				if !nz {
					continue
				}
				if _, ok := fails(c); ok {
					best, improved = trim(c), true
				}
			}
		}
		for i := 0; i < len(best) && time.Now().Before(deadline); i++ {
			for lo, hi := 0, best[i]; i < len(best) && lo < hi; {
				mid := (lo + hi) / 2
				c := append([]int{}, best...)
				c[i] = mid
				if _, ok := fails(c); ok {
					best = trim(c)
					hi = mid
					improved = true
				} else {
					lo = mid + 1
				}
			}
		}
	}
	return best
}

type ReplayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario,omitempty"` // of a known finding
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Seed     uint64   `json:"verif_seed"`
	Run      int64    `json:"run_index"`
	InitSeed string   `json:"init_seed"`
	Base     uint64   `json:"base"`
	History  []int64  `json:"history,omitempty"` // runs of the same seed performed before, in the same process
	Tape     []Choice `json:"tape"`
	Values   []int    `json:"values"`
	Trace    []string `json:"trace"`
}

// ---------------------------------------------------------------- coordinator

func coordinate(p *Prop, seed uint64, tier string, evidence string, replayDir string, known string, nw int, budget int) int {
	start := time.Now()
	if budget == 0 {
		budget = p.Quick
		if tier == "thorough" {
			budget = p.Thorough
		}
	}
	base := splitmix(seed*0x2545f4914f6cdd1d + fnvs(p.ID))
	for _, key := range p.Findings {
		if code := scenario(p, key, known, replayDir); code != 0 {
			return code
		}
	}
	deadline := start.Add(time.Duration(budget) * time.Second)
	type found struct {
		v     *Violation
		idx   int64
		rec   []int
		iseed string
		hist  []int64
	}
	var mu sync.Mutex
	total := newStats()
	states, sigs := map[uint64]bool{}, map[uint64]bool{}
	sites := map[int]bool{}
	var viol []found
	var wg sync.WaitGroup
	var errs []string
	stopAll, killed := false, 0
	batch := int64(24)
	if p.Batch > 0 {
		batch = p.Batch
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			// workers differ in the chance that entered at start-up
			iseed := strconv.FormatUint(seed*1000+uint64(i), 10)
			w := startWorker(i, iseed)
			defer func() { w.stop() }()
			var hist []int64
			life := 0
			for k := int64(i); ; k += int64(nw) {
				if life++; life > p.life() {
					w.stop()
					w = startWorker(i, iseed)
					hist, life = nil, 1
				}
				mu.Lock()
				if stopAll || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				mu.Unlock()
				from, to := k*batch, k*batch+batch
			more:
				again := false
				rs, d := w.do(Req{Prop: p.ID, Base: base, From: from, Count: to - from}, 180*time.Second)
				if d != nil {
					w.stop()
					w = startWorker(i, iseed)
					v := d.violation()
					mu.Lock()
					if strings.Contains(d.how, "signal: killed") && d.stderr == "" && killed < 4 {
						// ended from outside (memory): not the code's doing unless it recurs
						killed++
						hist, life = nil, 0
						mu.Unlock()
						continue
					}
					if v == nil || d.at < 0 {
						errs = append(errs, fmt.Sprintf("worker %d died in run %d hung=%v: %s", i, d.at, d.hung, tail(d.stderr)))
					} else {
						for r := from; r < d.at; r++ {
							hist = append(hist, r)
						}
						viol = append(viol, found{v, d.at, nil, iseed, hist})
					}
					stopAll = true
					mu.Unlock()
					return
				}
				mu.Lock()
				merge(total, rs.Stats, states, sigs, sites)
				end := to
				if rs.V != nil {
					end = rs.VSeed
				}
				for r := from; r < end; r++ {
					hist = append(hist, r)
				}
				if rs.V == nil && rs.Next > 0 && rs.Next < to {
					from, again = rs.Next, true
				}
				if rs.V != nil {
					viol = append(viol, found{rs.V, rs.VSeed, values(rs.Rec), iseed, hist})
					stopAll = true
				}
				mu.Unlock()
				if rs.Next > 0 {
					w.stop()
					w = startWorker(i, iseed)
					hist, life = nil, 0
				}
				if again {
					goto more
				}
			}
		}(i)
	}
	wg.Wait()
	runWall := time.Since(start).Seconds()
	sort.Slice(viol, func(i, j int) bool { return viol[i].idx < viol[j].idx })
	code := 0
	nviol := 0
	if len(viol) > 0 {
		// the earliest failure that can be repeated
		var f found
		var r *rep
		var v *Violation
		for _, f = range viol[:min(len(viol), 5)] {
			r = newRep(p, base, f.iseed, 100)
			if f.rec == nil {
				// died: the tape is what its seed draws
				f.rec = recoverTape(base, f.idx)
			}
			if v = r.repeat(f.rec, f.hist); v != nil {
				break
			}
			r.w.stop()
			fmt.Fprintf(os.Stderr, "sim: run %d failed (%s: %s) but its replay did not\n", f.idx, f.v.Class, f.v.Msg)
		}
		note := ""
		if v == nil {
			// Something outside the simulator's control decides: report the failure as it was seen.
			f = viol[0]
			if f.rec == nil {
				f.rec = recoverTape(base, f.idx)
			}
			r = newRep(p, base, f.iseed, 100)
			r.hist, v = f.hist, f.v
			note = "seen once; the code depends on something the simulator does not control, so the replay may not fail"
		}
		defer func() { r.w.stop() }()
		best := f.rec
		var rs *Resp
		v2 := v
		if note == "" {
			need := r.hist
			for try := 0; try < 2; try++ {
				// the second time from fresh processes only
				r.cold = r.cold || try > 0
				r.hist, best = need, f.rec
				if v.Class != "hang" {
					until := time.Now().Add(40 * time.Second)
					if len(r.hist) > 0 {
						shrinkHistory(r, best, v.Class, until.Add(-15*time.Second))
					}
					best = shrink(r, best, v.Class, until)
				}
				r.restart()
				if rs, v2 = r.try(best, true); v2 != nil && v2.Class == v.Class {
					break
				}
			}
			if v2 == nil || v2.Class != v.Class {
				best = f.rec
				for r.hist = need; ; r.hist = f.hist {
					r.restart()
					if rs, v2 = r.try(best, true); v2 != nil || len(r.hist) == len(f.hist) {
						break
					}
				}
			}
			if v2 == nil {
				v2 = v
				note = "repeated once, but not by the recorded replay: the code depends on something the simulator does not control"
			}
		}
		if note != "" {
			v2 = &Violation{v2.Class, v2.Msg + "\n(" + note + ")"}
		}
		rf := ReplayFile{Property: p.ID, Class: v2.Class, Message: v2.Msg, Seed: seed, Run: f.idx, InitSeed: f.iseed, Values: best, Base: base, History: r.hist}
		if rs != nil {
			rf.Tape, rf.Trace = rs.Rec, rs.Lines
		}
		if v2.Class == "data race" {
			time.Sleep(300 * time.Millisecond) // the detector's report comes through a pipe
			if t := r.w.stderr.String(); strings.Contains(t, "DATA RACE") {
				rf.Trace = append(rf.Trace, strings.Split(tail(t), "\n")...)
			}
		}
		os.MkdirAll(replayDir, 0o755)
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, f.idx))
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatalf("%v", err)
		}
		fmt.Printf("run %d (VERIF_SEED=%d): %s\n%s\n", f.idx, seed, v2.Class, v2.Msg)
		for _, l := range rf.Trace {
			fmt.Println("  | " + clip(l))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
		nviol = 1
	} else if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, "sim: "+errs[0])
		return 2
	}
	if total.Runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "sim: no run completed")
		return 2
	}
	writeEvidence(p, evidence, seed, tier, total, len(states), len(sigs), len(sites), runWall, nviol, nw)
	fmt.Printf("%s: %d runs, %d distinct states, %d violations, %.0fs\n", p.ID, total.Runs, len(states), nviol, runWall)
	return code
}

// scenario performs the run of a finding. What it finds is a violation unless
// the committed list has it.
func scenario(p *Prop, key, known, replayDir string) int {
	r := newRep(props[p.ID+"/"+key], 1, "1", 0)
	defer func() { r.w.stop() }()
	rs, v := r.try(nil, true)
	if v == nil {
		return 0
	}
	if b, err := os.ReadFile(known); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if rest, ok := strings.CutPrefix(l, "finding: property="+p.ID+" "+key+" "); ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, key, rest)
				return 0
			}
		}
	}
	rf := ReplayFile{Property: p.ID, Scenario: key, Class: v.Class, Message: v.Msg, Base: 1, InitSeed: "1"}
	if rs != nil {
		rf.Trace = rs.Lines
	}
	os.MkdirAll(replayDir, 0o755)
	path := filepath.Join(replayDir, p.ID+"-"+key+".json")
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatalf("%v", err)
	}
	fmt.Printf("%s: %s\n%s\nVIOLATION property=%s replay=%s\n", key, v.Class, v.Msg, p.ID, path)
	return 1
}

// shrinkHistory drops the earlier runs the failure does not need.
func shrinkHistory(r *rep, tape []int, class string, deadline time.Time) {
	for size := len(r.hist); size >= 1; size /= 2 {
		for i := 0; i+size <= len(r.hist) && time.Now().Before(deadline); {
			old := r.hist
			r.hist = append(append([]int64{}, old[:i]...), old[i+size:]...)
			if _, v := r.try(tape, false); v == nil || v.Class != class {
				r.hist = old
				i += size
			}
		}
	}
}

// recoverTape is what a seeded tape draws: a run that killed its worker did not
// return its choices, but raw draws reduced modulo the bounds met give them again.
func recoverTape(base uint64, idx int64) []int {
	st := splitmix(base + uint64(idx)*0x9e37)
	out := make([]int, 0, 20000)
	for i := 0; i < 20000; i++ {
		st += 0x9e3779b97f4a7c15
		out = append(out, int(splitmix(st)>>11))
	}
	return out
}

func fnvs(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func merge(t, s *Stats, states, sigs map[uint64]bool, sites map[int]bool) {
	t.Runs += s.Runs
	t.Steps += s.Steps
	t.Nontriv += s.Nontriv
	t.Choices += s.Choices
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for _, h := range s.States {
		if len(states) < 30_000_000 {
			states[h] = true
		}
	}
	for _, h := range s.Sigs {
		if len(sigs) < 30_000_000 {
			sigs[h] = true
		}
	}
	if len(t.Samples) < 4 {
		t.Samples = append(t.Samples, s.Samples...)
	}
	for i, b := range s.SitesHit {
		for k := 0; k < 8; k++ {
			if b&(1<<k) != 0 {
				sites[i*8+k] = true
			}
		}
	}
}

func writeEvidence(p *Prop, path string, seed uint64, tier string, s *Stats, states, sigs, sites int, wall float64, nviol, nw int) {
	if path == "" {
		return
	}
	nsites := 0
	if b, err := os.ReadFile(filepath.Join(workDir, "sites.txt")); err == nil {
		nsites = bytes.Count(b, []byte("\n"))
	}
	cov := map[string]any{
		"evaluations":              s.Runs,
		"distinct_nontrivial":      sigs,
		"rule":                     p.Rule,
		"samples":                  s.Samples,
		"nontrivial_runs":          s.Nontriv,
		"distinct_states":          states,
		"distinct_states_measure":  p.Measure,
		"runs_per_hour":            int64(float64(s.Runs) / wall * 3600),
		"seeds":                    "each run has its own seed, so seeds per hour is runs_per_hour",
		"simulated_steps":          s.Steps,
		"simulated_time":           "the library reads no clock; simulated time is counted in instrumented statements (simulated_steps), and a simulated clock drawn per run answers should the code ask for the time",
		"choices_drawn":            s.Choices,
		"faults_injected":          s.Faults,
		"probes":                   s.Probes,
		"code_sites_reached":       sites,
		"code_sites_instrumented":  nsites,
		"components_real":          p.Real,
		"components_stubbed":       p.Stub,
		"worker_processes":         nw,
		"runs_from_one_seed_value": "run i of VERIF_SEED s is a pure function of (s, i) and the code",
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": wall, "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
}

func main() {
	isWorker := flag.Bool("worker", false, "")
	statusPath := flag.String("status", "", "")
	propID := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	evidence := flag.String("evidence", "", "")
	replayDir := flag.String("replays", "", "")
	replay := flag.String("replay", "", "replay file")
	known := flag.String("known", "", "the known findings")
	selftest := flag.Int64("selftest", 0, "determinism self-test over n runs")
	nw := flag.Int("workers", 8, "")
	budget := flag.Int("budget", 0, "seconds")
	one := flag.Int64("one", -1, "run one index verbosely")
	oracle := flag.Bool("oracle", false, "")
	flag.Parse()
	if *isWorker {
		workerMain(*statusPath)
		return
	}
	if *oracle {
		oracleMain()
		return
	}
	workDir = os.Getenv("VERIF_WORK")
	if workDir == "" {
		workDir = os.TempDir()
	}
	if *replay != "" {
		os.Exit(replayMain(*replay))
	}
	p := props[*propID]
	if p == nil {
		fatalf("unknown property %q", *propID)
	}
	if *one >= 0 {
		base := splitmix(*seed*0x2545f4914f6cdd1d + fnvs(p.ID))
		r := newRep(p, base, strconv.FormatUint(*seed*1000, 10), 0)
		rs, v := r.try(recoverTape(base, *one), true)
		if rs != nil {
			for _, l := range rs.Lines {
				fmt.Println("  | " + clip(l))
			}
		}
		if v != nil {
			fmt.Println(v.Class, v.Msg)
		}
		r.w.stop()
		return
	}
	if *selftest > 0 {
		os.Exit(selfTest(p, *seed, *selftest))
	}
	os.Exit(coordinate(p, *seed, *tier, *evidence, *replayDir, *known, *nw, *budget))
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatalf("%v", err)
	}
	if props[rf.Property] == nil {
		fatalf("unknown property %q", rf.Property)
	}
	id := rf.Property
	if rf.Scenario != "" {
		id += "/" + rf.Scenario
	}
	r := newRep(props[id], rf.Base, rf.InitSeed, 0)
	r.hist = rf.History
	rs, v := r.try(rf.Values, true)
	r.w.stop()
	if rs != nil {
		for _, l := range rs.Lines {
			fmt.Println("  | " + clip(l))
		}
	}
	if v == nil {
		fmt.Println("replay: the property held")
		return 0
	}
	fmt.Printf("%s\n%s\n", v.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// selfTest runs the same seeds in differently shaped batches over several
// processes and compares event digests.
func selfTest(p *Prop, seed uint64, n int64) int {
	base := splitmix(seed*0x2545f4914f6cdd1d + fnvs(p.ID))
	iseed := strconv.FormatUint(seed*1000, 10)
	collect := func(nw int, batch int64) map[int64]uint64 {
		out := map[int64]uint64{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		var next int64
		for i := 0; i < nw; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				w := startWorker(i, iseed)
				defer func() { w.stop() }()
				for {
					mu.Lock()
					from := next
					next += batch
					mu.Unlock()
					if from >= n {
						return
					}
					to := from + batch
				more:
					rs, d := w.do(Req{Prop: p.ID, Base: base, From: from, Count: to - from, Digests: true}, 300*time.Second)
					if d != nil {
						fatalf("selftest: %v", d)
					}
					if rs.V != nil {
						fatalf("selftest: run %d: %v", rs.VSeed, rs.V)
					}
					mu.Lock()
					for k, dg := range rs.Digests {
						out[from+int64(k)] = dg
					}
					mu.Unlock()
					if rs.Next > 0 {
						w.stop()
						w = startWorker(i, iseed)
						if rs.Next < to {
							from = rs.Next
							goto more
						}
					}
				}
			}(i)
		}
		wg.Wait()
		return out
	}
	a := collect(8, 16)
	bad := 0
	for _, cfg := range []struct {
		nw    int
		batch int64
	}{{5, 7}, {2, 32}, {8, 3}} {
		b := collect(cfg.nw, cfg.batch)
		for i := int64(0); i < n; i++ {
			if a[i] != b[i] {
				bad++
				if bad < 10 {
					fmt.Printf("selftest %s: run %d differs between processes\n", p.ID, i)
				}
			}
		}
	}
	fmt.Printf("selftest %s: %d runs x 4 process layouts, %d differences\n", p.ID, n, bad)
	if bad > 0 {
		return 2
	}
	return 0
}
