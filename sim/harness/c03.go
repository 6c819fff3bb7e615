package main

// C03: the same operations under different map orders, hash seeds, random
// numbers and in other processes.

func init() {
	opt := opOpt{minOps: 3, maxOps: 12, exts: true, invalid: true, base: 4,
		bias: []opKind{opCompile, opCodegen, opTreeView, opDiff, opGramText, opErrText, opParse}}
	scripts["C03"] = func(c *Ctx) *script { return drawScript(c, opt) }
	register(&Prop{
		ID: "C03", Run: runC03, Setup: setupLib, Limit: 1 << 40, Level: "exploration", Quick: 45, Thorough: 600,
		Rule:    "a run is non-trivial if at least three operations gave a comparable outcome in every pass; distinct runs are counted by the digest of script and outcomes",
		Measure: "distinct (operation, canonical outcome) pairs",
		Real:    "the whole library (compiler, validator, parsers, AST conversion, unparsing, tree views, diff, code generation) and its dependencies; oracle processes are the same program",
		Stub:    "map seeds and iteration order, math/rand's global source and the hash seeds of the persistent collections are drawn; host callbacks and writers are simulated",
		Assumptions: []string{
			"iteration order is varied through the runtime's own map seeds and iteration offsets, so every order drawn is one the runtime can produce",
			"the text of a panic is not compared, only that the operation panics",
			"a run with an operation that exceeds 2000000 simulated steps is abandoned: nothing that follows a stop in mid-statement is judged",
		},
	})
}

var mathSeeds = []uint64{1, 0, ^uint64(0), 1 << 63, 0x9e3779b97f4a7c15}

func runC03(c *Ctx) {
	s := scripts["C03"](c)
	for i, o := range s.ops {
		c.Logf("#%d %v", i, o)
	}
	script := values(c.T.Rec)
	passes := 2 + c.Draw(3, "passes")
	var ref []string
	var first []*opVal
	judge := func(i int, t string, how string) {
		if t != ref[i] {
			c.Fail("outcome depends on chance", "#%d %v gives something else %s\n%s", i, s.ops[i], how, diffText(ref[i], t))
		}
	}
	for k := 0; k < passes; k++ {
		ms, mm, rs := 1, 0, 0
		if k > 0 {
			ms, mm, rs = 1+c.Draw(1000, "map seed"), c.Draw(2, "random source"), c.Draw(len(mathSeeds), "random seed")
			c.Fault("map order redrawn")
			c.Fault([]string{"clock: ticking", "clock: standing still", "clock: coarse", "clock: set back and forth"}[(ms-1)%4])
			c.Fault([]string{"random numbers redrawn", "random source constant"}[mm])
		}
		pinSeams(uint64(ms), mm, mathSeeds[rs])
		vals := s.seq(nil)
		for i, v := range vals {
			t := canonWithin(v)
			if k == 0 {
				ref = append(ref, t)
				if m := addressRE.FindString(t); m != "" {
					c.Fail("memory address in the outcome", "#%d %v: %s in\n%s", i, s.ops[i], m, t)
				}
				c.State(opNames[s.ops[i].kind], t)
				continue
			}
			judge(i, t, "under another map order or random source")
		}
		if k == 0 {
			first = vals
			continue
		}
		// what was returned earlier reads the same under this order
		for i, v := range first {
			judge(i, canonWithin(v), "when the result is read under another map order or random source")
		}
	}
	if c.Chance(1, 6, "another process") {
		is := 1 + c.Draw(1000, "its seeds")
		rq := oracleReq{Prop: "C03", Tape: script, Op: -1, MapSeed: uint64(1 + c.Draw(1000, "map seed")),
			MathMode: c.Draw(2, "random source"), MathSeed: mathSeeds[c.Draw(len(mathSeeds), "random seed")]}
		rs, died := ask(rq, uint64(is))
		pinSeams(1, 0, 1)
		if died != "" {
			c.Fail("fails in another process", "the script ran here, but another process died: %s", died)
		}
		c.Fault("process with other hash seeds")
		for i := range s.ops {
			if rs.OK[i] {
				judge(i, rs.Canon[i], "in another process")
			}
		}
	}
	n := 0
	for i, t := range ref {
		n++
		c.Logf("#%d -> %s", i, t)
		c.Probe(opNames[s.ops[i].kind])
		if first[i].panicky {
			c.Probe("panics: " + opNames[s.ops[i].kind])
		}
		if first[i].err != nil {
			c.Probe("error: " + opNames[s.ops[i].kind])
		}
		if first[i].absent {
			c.Probe("operand absent: " + opNames[s.ops[i].kind])
		}
	}
	if n >= 3 {
		c.Nontrivial()
		c.Sample("%v", s.ops)
	}
}
