package main

// C02: long histories of operations, many of them aborted, on shared instances.

func init() {
	opt := opOpt{minOps: 4, maxOps: 16, exts: true, invalid: true, base: 4, bias: []opKind{opParse, opParse, opParse, opUnparse, opWalk, opToAST, opToTree, opCompileG}}
	scripts["C02"] = func(c *Ctx) *script {
		s := &script{o: opt}
		s.o.again = c.Chance(1, 4, "repeated operations")
		s.oneHost = c.Chance(1, 3, "one table of handlers")
		if c.Chance(1, 4, "siblings") {
			// two grammars that differ in one thing go through the same
			s.o.exts, s.o.small = c.Chance(1, 4, "host"), c.Chance(1, 2, "small grammars")
			after := [][]opKind{{opParse, opToAST}, {opParse, opToAST, opToTree}, {opParse, opUnparse, opTreeText}, {opParse, opToAST, opTreeView, opASTText},
				{opWalk, opCodegen, opNewFromAst}, {opGramText, opParse, opErrText}, {opCompileG, opParse, opToAST}}
			tour := after[c.Draw(len(after), "tour")]
			s.plan = append(append([]opKind{opCompile}, tour...), -1)
			s.plan = append(s.plan, tour...)
			s.tour = len(s.plan)
			if c.Chance(1, 2, "homonyms") {
				a, b := homonyms(c)
				s.next = []*gram{a, b}
			}
			s.draw(c, len(s.plan)+c.Draw(3, "more"))
			return s
		}
		s.draw(c, opt.minOps+c.Draw(opt.maxOps-opt.minOps+1, "operations"))
		return s
	}
	register(&Prop{
		ID: "C02", Run: runC02, Setup: setupLib, Limit: 1 << 40, Level: "exploration", Quick: 50, Thorough: 600, Cold: true, Life: 12,
		Rule:    "a run is non-trivial if it compared at least one outcome with the same operation on new instances and re-read at least three earlier results; distinct runs are counted by the digest of script and outcomes",
		Measure: "distinct (kind of previous operation and how it ended, operation, canonical outcome) triples",
		Real:    "the whole library and its dependencies; the reference is the same code on new instances, in this process and in a new one",
		Stub:    "host callbacks (that take input, fail, stop, panic, parse), writers that fail, visitors that stop or panic; map order and random numbers are fixed",
		Assumptions: []string{
			"what a user can see of a result is its canonical form: trees, ASTs, grammars, texts, error texts, residues and scope bindings",
			"a run with an operation that exceeds 2000000 simulated steps is abandoned: nothing that follows a stop in mid-statement is judged",
		},
	})
}

func runC02(c *Ctx) {
	s := scripts["C02"](c)
	for i, o := range s.ops {
		c.Logf("#%d %v", i, o)
	}
	tape := values(c.T.Rec)
	forms := make([]string, len(s.ops))
	var vals []*opVal
	prev := ""
	rereads, compared := 0, 0
	s.seq(func(i int, v *opVal) {
		vals = append(vals, v)
		if v.bad != "" {
			c.Fail("argument changed", "#%d %v: %s", i, s.ops[i], v.bad)
		}
		forms[i] = canonWithin(v)
		for j := 0; j <= i; j++ {
			if t := canonWithin(vals[j]); t != forms[j] {
				if j == i {
					c.Fail("result changes when read again", "#%d %v\n%s", i, s.ops[i], diffText(forms[i], t))
				}
				c.Fail("earlier result disturbed", "#%d %v changed what #%d %v had returned\n%s", i, s.ops[i], j, s.ops[j], diffText(forms[j], t))
			}
			rereads++
		}
		end := "ends"
		switch {
		case v.panicky:
			end = "panics"
			c.Fault("panic through " + opNames[s.ops[i].kind])
		case v.err != nil:
			end = "fails"
			c.Fault("failed " + opNames[s.ops[i].kind])
		}
		if s.ops[i].kind == opUnparse && s.ops[i].fail > 0 {
			c.Fault("failing writer")
		}
		if s.ops[i].kind == opWalk && s.ops[i].fail > 0 {
			c.Fault("walk stopped")
		}
		c.State(prev, opNames[s.ops[i].kind], forms[i])
		c.Logf("#%d -> %s", i, forms[i])
		prev = opNames[s.ops[i].kind] + end
		c.Probe(opNames[s.ops[i].kind])
		if v.absent {
			c.Probe("operand absent")
		}
	})
	compare := func(i int, t, where string) {
		if t != forms[i] {
			c.Fail("outcome depends on history", "#%d %v gave something else %s\n%s", i, s.ops[i], where, diffText(forms[i], t))
		}
		compared++
	}
	for i := range s.ops {
		if !vals[i].absent && c.Chance(1, 4, "on new instances") {
			compare(i, canonWithin(s.fresh(i)), "on new instances")
		}
	}
	asks := 0
	switch {
	case s.tour > 0:
		asks = 2
	case c.Chance(1, 2, "in a new process"):
		asks = 1
	}
	for ; asks > 0; asks-- {
		i := len(s.ops) - 1 - c.Draw(len(s.ops), "operation")
		if s.tour > 0 && c.Chance(2, 3, "of the tour") {
			i = min(s.tour, len(s.ops)) - 1 - c.Draw(min(s.tour, len(s.ops))/2, "operation")
		}
		if !vals[i].absent {
			rs, died := ask(oracleReq{Prop: "C02", Tape: tape, Op: i, MapSeed: 1, MathSeed: 1}, 1)
			if died != "" {
				c.Fail("fails in a new process", "#%d %v ended here, but a new process died: %s", i, s.ops[i], died)
			}
			if rs.OK[0] {
				compare(i, rs.Canon[0], "in a new process")
				c.Probe("compared with a new process")
			}
		}
	}
	for j := range vals {
		if t := canonWithin(vals[j]); t != forms[j] {
			c.Fail("earlier result disturbed", "operations on new instances changed what #%d %v had returned\n%s", j, s.ops[j], diffText(forms[j], t))
		}
	}
	if compared > 0 && rereads >= 3 {
		c.Nontrivial()
		c.Sample("%v", s.ops)
	}
}
