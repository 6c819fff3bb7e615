// Package verifsimhook is laid into the module under test by the simulator's
// build overlay. Y is called before every statement of the module's code.
//
// With one task it counts steps (a run that exceeds its limit is stopped by a
// panic). With several tasks it is the scheduler's hand: exactly one task holds
// the baton, and it gives it up only here or when it would block on a lock. The
// baton is passed by plain memory in functions the race detector does not see,
// so the simulated schedule adds no happens-before edge between tasks and the
// detector still judges the code's own synchronisation.
package verifsimhook

import (
	"runtime"
	"strconv"
	"syscall"

	"github.com/arr-ai/hash"
)

const MaxTasks = 8

// StepLimit is the panic value that stops a run that does not end.
type StepLimit struct{}

func (StepLimit) Error() string { return "simulator: step limit exceeded" }

// Deadlock is the panic value that unwinds tasks that wait for each other.
type Deadlock struct{}

func (Deadlock) Error() string { return "simulator: deadlock" }

const (
	ready = iota
	blocked
	external
	done
)

var (
	mode     int32
	steps    int64
	limit    int64
	exceeded bool
	cutOff   bool

	cur      int32
	ntasks   int32
	goids    [MaxTasks]uint64
	state    [MaxTasks]int32
	gap      int64
	lastSite int32
	trace    uint64
	foreign  int64
	dead     bool

	hits [1 << 16]uint8
)

// InitSeed decides the chance that enters during package initialisation: map
// seeds, the random source and the hash seeds of the persistent collections
// (which may not change once a collection exists).
var InitSeed uint64 = 1

func init() {
	if s, ok := syscall.Getenv("VERIF_INITSEED"); ok {
		InitSeed, _ = strconv.ParseUint(s, 10, 64)
	}
	n := InitSeed
	runtime.SimMaps(true, n)
	runtime.SimMath(true, 0, n^0x5851f42d4c957f2d)
	key := make([]byte, 128)
	var words [4]uintptr
	for i := range key {
		n = n*6364136223846793005 + 1442695040888963407
		key[i] = byte(n >> 56)
		words[i%4] = uintptr(n>>7) | 1
	}
	if hash.SetSeeds(key, nil) != nil {
		if err := hash.SetSeeds(nil, words[:]); err != nil {
			panic(err)
		}
	}
	runtime.SimWait = simWait
}

// Y is the step and yield point.
//
//go:norace
func Y(site int32) {
	switch mode {
	case 0:
	case 1:
		hits[site&0xffff] = 1
		steps++
		if steps >= limit || steps&0xffff == 0 && tooDeep() {
			overflow()
		}
	default:
		yield(site, false)
	}
}

// H is Y before a statement that touches what tasks could share.
//
//go:norace
func H(site int32) {
	if mode == 2 {
		yield(site, hotOn)
		return
	}
	Y(site)
}

// hotOn: every H is a scheduling point.
var hotOn, lastHot bool

// HotPoints makes every H a scheduling point of the next Multi.
//
//go:norace
func HotPoints(on bool) { hotOn = on }

// Hot tells whether the last scheduling point was one of those.
//
//go:norace
func Hot() bool { return lastHot }

// Now is the number of steps taken so far.
//
//go:norace
func Now() int64 { return steps }

var deepPC [1]uintptr

// tooDeep: recursion that would exhaust the stack, which Go cannot survive, is
// stopped like any other run that does not end.
//
//go:norace
func tooDeep() bool { return runtime.Callers(100_000, deepPC[:]) > 0 }

//go:norace
func overflow() {
	exceeded, cutOff = true, true
	panic(StepLimit{})
}

//go:norace
func yield(site int32, hot bool) {
	g := runtime.SimGoid()
	c := cur
	if c < 0 || goids[c] != g {
		t := whoami(g)
		if t < 0 {
			foreign++
			return
		}
		// back from blocking outside the simulator: queue for the baton
		state[t] = ready
		await(t)
		c = t
	}
	hits[site&0xffff] = 1
	steps++
	if steps >= limit {
		overflow()
	}
	gap--
	if gap > 0 && !hot {
		return
	}
	lastSite, lastHot = site, hot
	trace = (trace ^ uint64(site)<<4 ^ uint64(c)) * 0x100000001b3
	cur = -1
	await(c)
}

//go:norace
func whoami(g uint64) int32 {
	for t := int32(0); t < ntasks; t++ {
		if goids[t] == g {
			return t
		}
	}
	return -1
}

//go:norace
func await(t int32) {
	for cur != t {
		runtime.Gosched()
	}
	if dead {
		panic(Deadlock{})
	}
}

//go:norace
func simWait() bool {
	if mode != 2 {
		return false
	}
	t := whoami(runtime.SimGoid())
	if t < 0 || cur != t {
		return false
	}
	state[t] = blocked
	trace = (trace ^ 0xb10c ^ uint64(t)) * 0x100000001b3
	cur = -1
	await(t)
	return true
}

// Single runs f on the calling goroutine under the step limit.
//
//go:norace
func Single(max int64) {
	steps, limit, exceeded, mode = 0, max, false, 1
}

// Budget lowers the limit to n more steps and returns the limit it replaced.
//
//go:norace
func Budget(n int64) int64 {
	old := limit
	if steps+n < limit {
		limit = steps + n
	}
	return old
}

// SetLimit restores a limit.
//
//go:norace
func SetLimit(l int64) { limit, exceeded = l, false }

// CutOff tells whether code was ever stopped in the middle in this process:
// what it left behind (a lock it held) says nothing about the code.
//
//go:norace
func CutOff() bool { return cutOff }

// Off turns the step points off.
//
//go:norace
func Off() { mode = 0 }

//go:norace
func Suspend() int32 { m := mode; mode = 0; return m }

//go:norace
func Resume(m int32) { mode = m }

//go:norace
func Steps() (int64, bool) { return steps, exceeded }

//go:norace
func Foreign() int64 { return foreign }

// Hits marks in dst the sites reached so far.
//
//go:norace
func Hits() []uint8 { return hits[:] }

// Outcome of a multi-task run.
type Outcome struct {
	Steps    int64
	Trace    uint64
	Switches int
	Exceeded bool
	Deadlock bool
	External int
}

// Multi runs the tasks to completion. pick is called on the caller's goroutine
// at every scheduling point: it gets the tasks that can run, the task that ran
// last (-1 at first) and the site it stopped at, and returns the index into
// runnable and the number of steps until the next scheduling point.
//
//go:norace
func Multi(tasks []func(), max int64, pick func(runnable []int, last int, site int32) (int, int64)) Outcome {
	n := len(tasks)
	if n > MaxTasks {
		panic("too many tasks")
	}
	steps, limit, exceeded, trace, dead, foreign = 0, max, false, 14695981039346656037, false, 0
	lastSite, cur, gap, lastHot = -1, -1, 0, false
	ntasks = int32(n)
	fin := make(chan struct{}, n)
	for i := range tasks {
		state[i] = ready
		goids[i] = 0
		go taskMain(int32(i), tasks[i], fin)
	}
	for i := 0; i < n; i++ {
		for goids[i] == 0 {
			runtime.Gosched()
		}
	}
	mode = 2
	var out Outcome
	last := -1
	var run []int
	for {
		run = run[:0]
		ndone, nblocked, next := 0, 0, 0
		for i := 0; i < n; i++ {
			switch state[i] {
			case ready:
				run = append(run, i)
			case done:
				ndone++
			case blocked:
				nblocked++
			case external:
				next++
			}
		}
		if ndone == n {
			break
		}
		if len(run) == 0 {
			if next > 0 {
				runtime.Gosched()
				continue
			}
			// everyone left waits for a lock nobody will release
			out.Deadlock = true
			dead = true
			for i := 0; i < n; i++ {
				if state[i] == blocked {
					state[i] = ready
				}
			}
			continue
		}
		k, g := pick(run, last, lastSite)
		t := run[k]
		gap = g
		out.Switches++
		wasBlocked := [MaxTasks]bool{}
		for i := 0; i < n; i++ {
			wasBlocked[i] = state[i] == blocked
		}
		before := steps
		cur = int32(t)
		spins := 0
		for cur != -1 {
			runtime.Gosched()
			spins++
			if spins > 20000 {
				// the holder is blocked outside the simulator
				if cur == int32(t) {
					state[t] = external
					cur = -1
					out.External++
				}
				break
			}
		}
		last = t
		if state[t] == blocked && steps == before {
			continue // nothing moved: whoever waits still waits
		}
		for i := 0; i < n; i++ {
			if wasBlocked[i] && state[i] == blocked {
				state[i] = ready
			}
		}
	}
	mode = 0
	for i := 0; i < n; i++ {
		<-fin // orders the tasks' effects before the caller's reads
	}
	out.Steps, out.Trace, out.Exceeded = steps, trace, exceeded
	return out
}

//go:norace
func taskMain(t int32, f func(), fin chan struct{}) {
	defer func() {
		finish(t)
		fin <- struct{}{}
	}()
	goids[t] = runtime.SimGoid()
	for cur != t {
		runtime.Gosched()
	}
	f()
}

//go:norace
func finish(t int32) {
	if cur != t { // came back from an external block
		state[t] = ready
		for cur != t {
			runtime.Gosched()
		}
	}
	state[t] = done
	cur = -1
}
