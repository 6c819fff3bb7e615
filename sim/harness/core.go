package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	hook "github.com/arr-ai/wbnf/verifsimhook"
)

// ---------------------------------------------------------------- choice tape

// Choice is one decision of a run: 0 is always the simplest.
type Choice struct {
	L string `json:"l"`
	N int    `json:"n"`
	V int    `json:"v"`
}

// Tape is the only source of choice in a run: a PRNG while recording, a list
// while replaying (0 past its end).
type Tape struct {
	state  uint64
	replay []int
	isRep  bool
	Rec    []Choice
}

func splitmix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func seedTape(seed uint64) *Tape { return &Tape{state: seed} }
func listTape(v []int) *Tape     { return &Tape{replay: v, isRep: true} }

func (t *Tape) Draw(n int, label string) int {
	if n <= 0 {
		panic("Draw of nothing: " + label)
	}
	v := 0
	if t.isRep {
		if i := len(t.Rec); i < len(t.replay) {
			v = t.replay[i]
			if v >= n || v < 0 {
				v = ((v % n) + n) % n
			}
		}
	} else {
		t.state += 0x9e3779b97f4a7c15
		v = int(splitmix(t.state) >> 11 % uint64(n))
	}
	t.Rec = append(t.Rec, Choice{label, n, v})
	return v
}

// ---------------------------------------------------------------- a run

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Ctx is what a property sees of one simulated run.
type Ctx struct {
	T       *Tape
	Verbose bool
	Lines   []string
	Stats   *Stats
	digest  uint64
	states  []uint64
	nontriv bool
	outcome string
	sample  string
	cleanup []func()
}

// Stats is accumulated over runs.
type Stats struct {
	Runs     int64            `json:"runs"`
	Steps    int64            `json:"steps"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Nontriv  int64            `json:"nontriv"`
	States   []uint64         `json:"states"`
	Sigs     []uint64         `json:"sigs"` // one digest per non-trivial run
	Choices  int64            `json:"choices"`
	Samples  []string         `json:"samples"`
	SitesHit []byte           `json:"sites"`
}

func newStats() *Stats { return &Stats{Faults: map[string]int64{}, Probes: map[string]int64{}} }

func (c *Ctx) Draw(n int, label string) int { return c.T.Draw(n, label) }

// Chance is true with probability num/den, and false in the simplest run.
func (c *Ctx) Chance(num, den int, label string) bool { return c.T.Draw(den, label) >= den-num }

// Pick weights: index i with probability w[i]/sum; order the simplest first.
func (c *Ctx) Weighted(label string, w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	v := c.T.Draw(s, label)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func (c *Ctx) Logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	c.digest = splitmix(c.digest ^ h.Sum64())
	if c.Verbose {
		c.Lines = append(c.Lines, s)
		if os.Getenv("VERIF_TRACE") != "" {
			fmt.Fprintln(os.Stderr, s)
		}
	}
}

func (c *Ctx) Fault(kind string) { c.Stats.Faults[kind]++ }
func (c *Ctx) Probe(name string) { c.Stats.Probes[name]++ }

// State records a state or interleaving reached (distinct ones are counted).
func (c *Ctx) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			h.Write([]byte(p))
		case uint64:
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(p >> (8 * i))})
			}
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0})
	}
	c.states = append(c.states, h.Sum64())
}

// Nontrivial marks the run as one that exercised what the property is about.
func (c *Ctx) Nontrivial() { c.nontriv = true }

func (c *Ctx) Sample(f string, a ...any) {
	if c.sample == "" {
		c.sample = fmt.Sprintf(f, a...)
	}
}

// Defer registers something to undo when the run ends.
func (c *Ctx) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

type violationPanic struct{ v Violation }

// Fail ends the run with a violation of the property.
func (c *Ctx) Fail(class, f string, a ...any) {
	panic(violationPanic{Violation{class, fmt.Sprintf(f, a...)}})
}

// Prop is one property's simulation.
type Prop struct {
	ID string
	// Run performs one simulated run.
	Run func(c *Ctx)
	// Limit is the step limit of one run (0: default).
	Limit int64
	// Level of the manifest, rule for the evidence.
	Level string
	Rule  string
	// Real and stubbed components, for the evidence.
	Real, Stub string
	// Measure says what State counts.
	Measure string
	// Assumptions for the evidence.
	Assumptions []string
	// Setup runs once per worker process.
	Setup func()
	// Multi: the property runs tasks (no single-task step counting).
	Multi bool
	// Cold: a failure is judged in new processes only (it may live in global state).
	Cold bool
	// Life is the number of batches a worker process lives, Batch their size.
	Life  int
	Batch int64
	// Findings are scenarios of defects that may be listed as known.
	Findings []string
	// Budget in seconds for quick and thorough.
	Quick, Thorough int
}

func (p *Prop) life() int {
	if p.Life > 0 {
		return p.Life
	}
	return 40
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type RunResult struct {
	V       *Violation
	Rec     []Choice
	Lines   []string
	Digest  uint64
	Nontriv bool
}

const defaultLimit = 400_000_000

// pinSeams puts every source of chance under the run's control.
func pinSeams(mapSeed uint64, mathMode int, mathSeed uint64) {
	runtime.SimMaps(true, mapSeed)
	runtime.SimMath(true, mathMode, mathSeed)
	runtime.SimClock(1+int((mapSeed-1)%4), mapSeed*86_400_000_000_123)
}

var runCount int

func runOne(p *Prop, t *Tape, st *Stats, verbose bool) (res RunResult) {
	runCount++
	if runCount%gcEvery == 0 || raceBuild && runCount%6 == 0 {
		runtime.GC()
	}
	c := &Ctx{T: t, Stats: st, Verbose: verbose, digest: 0x1234567}
	pinSeams(1, 0, 1)
	limit := p.Limit
	if limit == 0 {
		limit = defaultLimit
	}
	func() {
		defer func() {
			hook.Off()
			r := recover()
			for i := len(c.cleanup) - 1; i >= 0; i-- {
				c.cleanup[i]()
			}
			if r == nil {
				if _, over := hook.Steps(); over {
					res.V = &Violation{"nontermination", "step limit exceeded (and the stop was swallowed)"}
				}
				return
			}
			switch r := r.(type) {
			case violationPanic:
				res.V = &r.v
			case abandoned:
				st.Probes["abandoned: takes too long"]++
			case hook.StepLimit:
				res.V = &Violation{"nontermination", fmt.Sprintf("more than %d simulated steps; stack:\n%s", limit, trimStack(debug.Stack()))}
			default:
				res.V = &Violation{"panic", fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))}
			}
		}()
		hook.Single(limit)
		p.Run(c)
	}()
	s, _ := hook.Steps()
	st.Runs++
	st.Steps += s
	c.digest = splitmix(c.digest ^ uint64(s)) // the self-test compares step counts too
	st.Choices += int64(len(t.Rec))
	if c.nontriv {
		st.Nontriv++
		st.Sigs = append(st.Sigs, c.digest)
	}
	if len(st.States) < 200000 {
		st.States = append(st.States, c.states...)
	}
	if len(st.Samples) < 2 && c.sample != "" && c.nontriv {
		st.Samples = append(st.Samples, c.sample)
	}
	res.Rec, res.Lines, res.Digest, res.Nontriv = t.Rec, c.Lines, c.digest, c.nontriv
	return res
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var out []string
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			ls = ls[i+2:]
			break
		}
	}
	for _, l := range ls {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// noSteps runs harness work without counting or yielding.
func noSteps(f func()) {
	m := hook.Suspend()
	defer hook.Resume(m)
	f()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

// abandoned ends a run without a verdict: code stopped in the middle may leave
// anything behind, so nothing after that can be judged.
type abandoned struct{}

// within runs f, which is abandoned with the whole run if it takes more than n
// steps: for what costs more than the property's concern.
func within(n int64, f func()) {
	if !bounded(n, f) {
		panic(abandoned{})
	}
}

// bounded runs f with at most n steps and reports whether it ended. If it did
// not, that is the verdict: nothing else can be judged.
func bounded(n int64, f func()) (ok bool) {
	old := hook.Budget(n)
	defer func() {
		hook.SetLimit(old)
		if r := recover(); r != nil {
			if _, is := r.(hook.StepLimit); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	_, over := hook.Steps() // a String method's panic is swallowed by fmt
	return !over
}
