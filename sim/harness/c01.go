package main

import (
	"fmt"
	"sort"
	"sync"

	hook "github.com/arr-ai/wbnf/verifsimhook"
)

// C01: several callers at once, interleaved at statement granularity by a seeded
// scheduler, under the race detector.

const c01MaxTasks = 4

func init() {
	scripts["C01"] = drawC01
	register(&Prop{
		ID: "C01", Run: runC01, Setup: setupLib, Limit: 1 << 40, Level: "exploration", Quick: 55, Thorough: 900, Cold: true, Life: 3, Batch: 12,
		Rule:    "a run is non-trivial if at least two tasks ran operations and the scheduler switched between unfinished tasks; distinct runs are counted by the digest of script, schedule and outcomes",
		Measure: "distinct interleavings: digests of the sequence of (task, statement) at which the scheduler switched",
		Real:    "the whole library and its dependencies, built with the race detector; the Go runtime's locks",
		Stub:    "the choice of the task that runs next (one runs at a time; switches at every statement of the module and at every lock wait are the scheduler's); host callbacks, writers and visitors are simulated",
		Assumptions: []string{
			"the detector sees conflicting accesses by happens-before, so a race is reported even if the schedule drawn does not make it visible; accesses inside the standard library are seen as well",
			"at most 4 tasks of at most 4 operations each (6 when they only parse)",
		},
	})
}

func drawC01(c *Ctx) *script {
	if c.Chance(1, 4, "parse battery") {
		return drawBattery(c)
	}
	opt := opOpt{exts: true, invalid: true, small: c.Chance(1, 2, "small grammars"), base: 4}
	nbase := c.Draw(6, "shared values")
	if nbase < opt.base {
		opt.base = nbase
	}
	opt.minOps, opt.maxOps = nbase, nbase
	s := drawScript(c, opt)
	s.base = len(s.ops)
	s.own = make([]int, len(s.ops))
	nt := 2 + c.Draw(c01MaxTasks-1, "tasks")
	per := make([]int, nt)
	for t := range per {
		per[t] = 1 + c.Draw(3, "operations")
	}
	// twins: the same kind of operation in every task
	var twin []opKind
	if c.Chance(1, 2, "same operations") {
		twin = []opKind{opKind(c.Draw(int(nOps), "operation"))}
	}
	for t := 0; t < nt; t++ {
		s.task = t + 1
		s.o.bias = twin
		s.o.base = 0
		s.draw(c, len(s.ops)+per[t])
	}
	return s
}

// drawBattery: one grammar with commitments, many small parses.
func drawBattery(c *Ctx) *script {
	s := &script{o: opOpt{exts: c.Chance(1, 3, "host"), small: true, cuts: true, only: true, bias: []opKind{opTerms}}}
	s.draw(c, 1+c.Draw(2, "grammars"))
	s.o.bias = []opKind{opCompileG}
	s.draw(c, 2*len(s.ops))
	s.base = len(s.ops)
	s.own = make([]int, len(s.ops))
	s.o.bias = []opKind{opParse}
	for t := 2 + c.Draw(c01MaxTasks-1, "tasks"); t > 0; t-- {
		s.task = t
		s.draw(c, len(s.ops)+2+c.Draw(5, "parses"))
	}
	return s
}

func runC01(c *Ctx) {
	s := scripts["C01"](c)
	for i, o := range s.ops {
		c.Logf("#%d task %d: %v", i, s.own[i], o)
	}
	tape := values(c.T.Rec)
	vals := make([]*opVal, len(s.ops))
	before := make([]string, len(s.ops))
	for i := 0; i < s.base; i++ {
		vals[i] = s.run1(i, func(j int) *opVal { return vals[j] })
		before[i] = canonWithin(vals[i])
	}
	var tasks []func()
	nt := 0
	for _, t := range s.own {
		nt = max(nt, t)
	}
	forms := make([]string, len(s.ops))
	ran := make([]bool, len(s.ops))
	died := make([]string, nt+1)
	for t := 1; t <= nt; t++ {
		t := t
		tasks = append(tasks, func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case hook.StepLimit, hook.Deadlock:
					default:
						died[t] = fmt.Sprint(r)
					}
				}
			}()
			for i := s.base; i < len(s.ops); i++ {
				if s.own[i] != t {
					continue
				}
				v := s.exec(i, func(j int) *opVal { return vals[j] })
				vals[i] = v
				forms[i] = v.canon()
				ran[i] = true
			}
		})
	}
	// pooled objects: handed from task to task, or never (which orders nothing)
	sync.SimPools = 1 + c.Draw(2, "pools hand over")
	defer func() { sync.SimPools = 2 }()
	races := raceErrors()
	const most = 3_000_000
	// how often the scheduler switches: from every statement to hardly ever
	grain := []int64{1 << 40, 2000, 300, 40, 6, 1}[c.Draw(6, "granularity")]
	// preemptions are drawn; past the drawn ones the scheduler is a PRNG
	left := 400
	st := uint64(c.Draw(1<<30, "schedule"))
	// stalls: a task that touches something shared is held there while the others go on
	stalls := 0
	if c.Chance(1, 2, "stalls") {
		stalls = 1 + c.Draw(6, "how many")
	}
	hook.HotPoints(stalls > 0)
	defer hook.HotPoints(false)
	after := 0 // shared points before the next stall
	span := []int{4, 16, 64, 256}[c.Draw(4, "points between stalls")]
	held, until := -1, int64(0)
	st = splitmix(st)
	after = int(st>>33) % span
	pick := func(run []int, last int, site int32) (int, int64) {
		if stalls > 0 && hook.Hot() && last >= 0 && held < 0 {
			if after--; after < 0 && len(run) > 1 {
				stalls--
				st = splitmix(st)
				held, after = last, int(st>>40)%span
				until = hook.Now() + []int64{3, 30, 300, 3000, 30000, 300000}[int(st>>20&0xffff)%6]
				c.Stats.Faults["task stalled at shared state"]++
			}
		}
		if held >= 0 {
			var free []int
			for _, t := range run {
				if t != held {
					free = append(free, t)
				}
			}
			if len(free) == 0 || hook.Now() >= until {
				for i, t := range run {
					if t == held {
						held = -1
						return i, 1 + 4*grain
					}
				}
				held = -1
			} else {
				run2 := free[int(splitmix(st^uint64(hook.Now()))>>33)%len(free)]
				for i, t := range run {
					if t == run2 {
						return i, min(1+4*grain, until-hook.Now())
					}
				}
			}
		}
		if stalls > 0 && hook.Hot() {
			for i, t := range run {
				if t == last { // a shared point that is not taken
					return i, 1 + grain
				}
			}
		}
		if len(run) == 1 {
			return 0, grain + 1
		}
		st = splitmix(st)
		k := int(st>>33) % len(run)
		g := 1 + int64(st&0xffffff)%(2*grain)
		if left > 0 {
			left--
			if x := c.Draw(4, "stay"); x == 0 { // the simplest schedule keeps the running task
				for i, t := range run {
					if t == last {
						k = i
					}
				}
			}
		}
		return k, g
	}
	// the second half is fair: whatever the tasks wait for, they get it
	const unfair = most / 2
	out := hook.Multi(tasks, most, func(run []int, last int, site int32) (int, int64) {
		if left := unfair - hook.Now(); left > 0 {
			k, g := pick(run, last, site)
			return k, min(g, left)
		}
		for i, t := range run {
			if t > last {
				return i, 100
			}
		}
		return 0, 100
	})
	hook.Single(1 << 40)
	c.Stats.Steps += out.Steps
	c.State(out.Trace)
	c.Logf("schedule: %d switches, trace %x, %d blocked outside", out.Switches, out.Trace, out.External)
	c.Stats.Faults["preemption"] += int64(out.Switches)
	if out.Deadlock {
		c.Fail("deadlock", "the tasks wait for each other")
	}
	for t, d := range died {
		if d != "" {
			c.Fail("panic", "task %d: %s", t, d)
		}
	}
	if n := raceErrors(); n > races {
		c.Fail("data race", "%d conflicting unsynchronised accesses were reported by the race detector", n-races)
	}
	if out.Exceeded {
		// measured elsewhere: here they were stopped in the middle
		total, known := int64(0), true
		for i := s.base; i < len(s.ops) && known; i++ {
			rs, died := ask(oracleReq{Prop: "C01", Tape: tape, Op: i, MapSeed: 1, MathSeed: 1}, 1)
			if known = died == "" && rs.OK[0]; known {
				total += rs.Steps
			}
		}
		if known && total < (most-unfair)/4 {
			c.Fail("no progress", "the tasks did not end within %d steps together, but take %d alone", most, total)
		}
		c.Probe("too long")
		return
	}
	for i := range s.ops {
		if i >= s.base && !ran[i] {
			continue
		}
		v := s.fresh(i)
		t := canonWithin(v)
		if i >= s.base && ran[i] && t != forms[i] {
			c.Fail("concurrent outcome differs", "#%d %v (task %d) gave something else than alone\n%s", i, s.ops[i], s.own[i], diffText(t, forms[i]))
		}
		if i >= s.base && ran[i] {
			c.Probe(opNames[s.ops[i].kind])
		}
	}
	for i := 0; i < s.base; i++ {
		if t := canonWithin(vals[i]); t != before[i] {
			c.Fail("shared value changed", "#%d %v\n%s", i, s.ops[i], diffText(before[i], t))
		}
	}
	for i := s.base; i < len(s.ops); i++ {
		if ran[i] {
			if t := canonWithin(vals[i]); t != forms[i] {
				c.Fail("earlier result disturbed", "#%d %v\n%s", i, s.ops[i], diffText(forms[i], t))
			}
			c.Logf("#%d -> %s", i, forms[i])
		}
	}
	if out.Switches > nt {
		c.Nontrivial()
		kinds := []string{}
		for i := s.base; i < len(s.ops); i++ {
			kinds = append(kinds, fmt.Sprintf("%d:%s", s.own[i], opNames[s.ops[i].kind]))
		}
		sort.Strings(kinds)
		c.Sample("%v", kinds)
	}
}
