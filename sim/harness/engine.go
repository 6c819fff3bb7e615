package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"
)

// The parse engine of C04, C05 and C11: a generated grammar is run by the
// model, which draws what every callback does as it is called; then the real
// parser runs with callbacks that replay those outcomes and must behave
// exactly as the model did.

type engOpt struct {
	gen       genOpt
	text      int // n in 6 runs go through the grammar text
	exts      bool
	escapes   int // n in 6 runs
	nested    int // weight of callbacks that run a parse
	fails     int // weight of callback failures
	inert     int // weight of callbacks that consume nothing
	mathModes bool
	pump      bool // some inputs are long
	stepCheck bool
	reports   bool // C10
	spoil     bool // add something to most inputs, so that they fail
	maxParses int
}

type stopErr struct{ id int }

func (e *stopErr) Error() string { return fmt.Sprintf("stop %d", e.id) }
func (e *stopErr) IsStopError()  {}

type engine struct {
	pump              int
	c                 *Ctx
	o                 engOpt
	grams             []*mgram
	ps                []parser.Parsers
	exts              parser.ExternalRefs
	extSet            map[string]bool
	esc               *escSpec
	names             []string
	fatal             error // a fatal error an earlier parse returned
	soft              error
	oldFatal, oldSoft []mwhy
	reports           int
	src               string
	m                 *model
	next              int // next call expected of the real parser
	errs              map[int]error
	real              []string
	current           int // grammar being parsed
	nest              int
	printed           bool
}

var escapes = []escSpec{{"${", "}"}, {"{:", ":}"}, {"!", ";"}, {"a$", "$"}}

// rxq quotes a literal for a regular expression.
func rxq(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			sb.WriteByte('\\')
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func runEngine(c *Ctx, o engOpt) {
	e := &engine{c: c, o: o, extSet: map[string]bool{}, exts: parser.ExternalRefs{}}
	if o.exts {
		o.gen.exts = []string{"e1", "e2"}
		if c.Chance(1, 12, "missing handler") {
			o.gen.exts = append(o.gen.exts, "gone")
		}
	}
	g := genGrammar(c, o.gen)
	text := !hasCut(g) && c.Draw(6, "route") >= 6-o.text
	if o.exts {
		for _, n := range []string{"e1", "e2"} {
			e.extSet[n] = true
			e.exts[n] = e.callback(n)
		}
		if c.Draw(6, "escapes?") >= 6-o.escapes {
			e.esc = &escapes[c.Draw(len(escapes), "escape")]
			e.exts["*"+rxq(e.esc.open)+"()"+rxq(e.esc.close)] = e.callback("escape")
		}
	}
	if !e.add(g, text) {
		c.Probe("grammar refused")
		return
	}
	if o.exts && o.nested > 0 && c.Chance(1, 2, "second grammar") {
		og := o.gen
		og.prefix, og.maxRules, og.depth, og.stacks = "q", 2, 2, false
		g2 := genGrammar(c, og)
		if !e.add(g2, false) {
			return
		}
	}
	parses := 1 + c.Draw(o.maxParses, "parses")
	for i := 0; i < parses; i++ {
		if !e.parse(i) {
			return
		}
	}
}

// add compiles a grammar and prepares the model's.
func (e *engine) add(g *gram, text bool) bool {
	var ps parser.Parsers
	if text {
		var err error
		ps, err = wbnf.Compile(g.text(), nil)
		if err != nil {
			e.c.Logf("refused: %v", err)
			return false
		}
	} else {
		ps = g.terms().Compile(nil)
	}
	e.c.Logf("grammar (text route %v)\n%s", text, g)
	e.grams = append(e.grams, newMgram(g, text))
	e.ps = append(e.ps, ps)
	return true
}

func (e *engine) drawOutcome(m *model, k *mcall, escape bool) {
	c := e.c
	o := &k.out
	rest := len(m.src) - k.pos
	w := []int{10, e.o.fails * 3, e.o.fails, 1, bw(e.fatal != nil, 1), bw(e.soft != nil, 1), bw(m.nest < 2 && len(m.calls) < 30, e.o.nested)}
	o.kind = c.Weighted("outcome", w...)
	switch o.kind {
	case oNested:
		n := &nestedSpec{}
		n.g = c.Draw(len(e.grams), "nested grammar")
		n.exts = c.Chance(2, 3, "nested callbacks")
		n.inPlace = c.Chance(1, 2, "nested in place")
		n.convert = c.Chance(2, 3, "convert")
		o.nested = n
	default:
		if escape {
			if i := strings.Index(m.src[k.pos:], e.esc.close); i >= 0 && !c.Chance(1, 5, "off the mark") {
				o.n = i
				break
			}
		}
		o.n = []int{1, 2, 0, 3, 1}[c.Draw(4+bw(e.o.inert == 0, 1), "consume")]
		if e.o.inert > 0 && c.Draw(6, "inert") < e.o.inert {
			o.n = 0
		}
		if o.n > rest {
			o.n = rest
		}
	}
	o.val = c.Weighted("value", 5, 3, 2, 1)
}

func (e *engine) callback(name string) parser.ExternalRef {
	return func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
		mode := hook.Suspend()
		k, o := e.enter(name, scope, input)
		hook.Resume(mode)
		eat := func() (s parser.Scanner) {
			input.Eat(o.n, &s)
			return
		}
		value := func(s parser.Scanner) parser.TreeElement {
			switch o.val {
			case 1:
				return s
			case 2:
				return parser.Node{Tag: "h", Children: []parser.TreeElement{s}}
			case 3:
				return nil
			}
			return hostVal{k}
		}
		switch o.kind {
		case oOK:
			return value(eat()), nil
		case oErr:
			eat()
			e.errs[k] = fmt.Errorf("callback error %d", k)
			return nil, e.errs[k]
		case oStop:
			eat()
			e.errs[k] = &stopErr{k}
			return nil, e.errs[k]
		case oUnconsumed:
			at := *input
			if k%2 == 0 {
				at.Eat(o.n, new(parser.Scanner))
				var s parser.Scanner
				at2 := *input
				at2.Eat(o.n, &s)
				e.errs[k] = parser.UnconsumedInput(at, value(s))
			} else {
				s := eat()
				e.errs[k] = parser.UnconsumedInput(*input, value(s))
			}
			return nil, e.errs[k]
		case oOldFatal:
			e.errs[k] = e.fatal
			return nil, e.fatal
		case oOldSoft:
			e.errs[k] = e.soft
			return nil, e.soft
		}
		n := o.nested
		var exts parser.ExternalRefs
		if n.exts {
			exts = e.exts
		}
		in := input
		if !n.inPlace {
			cp := *input
			in = &cp
		}
		cur := e.current
		e.current = n.g
		e.nest++
		tree, err := e.ps[n.g].ParseWithExternals(parser.Rule(e.grams[n.g].g.start()), in, exts)
		e.nest--
		e.current = cur
		if err == nil {
			*input = *in
			return tree, nil
		}
		if u, ok := err.(parser.UnconsumedInputError); ok && n.convert {
			*input = *u.Residue()
			return u.Result(), nil
		}
		e.errs[k] = err
		return nil, err
	}
}

// enter checks a call against the model's and returns what it does.
func (e *engine) enter(name string, scope parser.Scope, input *parser.Scanner) (int, *outcome) {
	k := e.next
	e.next++
	if k >= len(e.m.calls) {
		e.c.Fail("extra-call", "callback %s called at offset %d after the %d calls the grammar prescribes (input %q)", name, input.Offset(), len(e.m.calls), e.src)
	}
	want := e.m.calls[k]
	if want.name != name || want.pos != input.Offset() || e.nest != want.depth {
		e.c.Fail("wrong-call", "call %d is %s at offset %d (depth %d), the grammar prescribes %s at offset %d (depth %d), input %q", k, name, input.Offset(), e.nest, want.name, want.pos, want.depth, e.src)
	}
	if input.String() != e.src[want.pos:] {
		e.c.Fail("wrong-input", "call %d (%s at %d) sees the input %q, not %q", k, name, want.pos, input.String(), e.src[want.pos:])
	}
	var sb strings.Builder
	for _, n := range e.grams[e.current].names {
		if n == want.skip || !scope.Has(n) {
			continue
		}
		_, v, ok := scope.GetVal(n)
		if ok {
			fmt.Fprintf(&sb, "%s=%s;", n, canonTree(v))
		}
	}
	if sb.String() != want.binds {
		e.c.Fail("wrong-bindings", "call %d (%s at %d) sees the bindings %q, the grammar prescribes %q", k, name, want.pos, sb.String(), want.binds)
	}
	return k, &want.out
}

func (e *engine) input() string {
	c := e.c
	ext := func(string) string {
		switch c.Draw(4, "ext text") {
		case 0:
			return literals[c.Draw(len(literals), "lit")]
		case 1:
			return "ab"[:1+c.Draw(2, "len")]
		case 2:
			g := e.grams[c.Draw(len(e.grams), "grammar")].g
			if g != e.grams[0].g {
				return g.derive(c, g.start(), nil, nil)
			}
		}
		return ""
	}
	var esc func() string
	if e.esc != nil {
		esc = func() string {
			s := []string{"", "x", "ab", "1"}[c.Draw(4, "esc text")]
			return e.esc.open + s + e.esc.close
		}
	}
	g := e.grams[0].g
	s := mutate(c, g.derivePumped(c, g.start(), ext, esc, e.pump))
	if e.o.spoil && c.Chance(2, 3, "spoil") {
		at := c.Draw(len(s)+1, "at")
		s = s[:at] + []string{"?", "", "a", "\n"}[c.Draw(4, "with")] + s[min(len(s), at+c.Draw(3, "drop")):]
	}
	return s
}

func (e *engine) parse(round int) bool {
	c := e.c
	e.pump = 0
	longest, most := 80, 20000
	if e.o.pump && c.Chance(1, 25, "long input") {
		e.pump = 1 + c.Draw(1100, "repetitions")
		longest, most = 1<<14, 400_000
	}
	e.src = e.input()
	if len(e.src) > longest {
		e.src = e.src[:longest]
	}
	if len(e.src) > 200 {
		c.Probe("long inputs")
	}
	e.next, e.errs, e.nest, e.current = 0, map[int]error{}, 0, 0
	m := &model{src: e.src, grams: e.grams, cur: e.grams[0], exts: e.extSet, esc: e.esc, max: most, draw: e.drawOutcome, live: e.o.exts, oldFatal: e.oldFatal, oldSoft: e.oldSoft}
	e.m = m
	var want mresult
	long := false
	mode := hook.Suspend()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tooLong); !ok {
					panic(r)
				}
				long = true
			}
		}()
		want = m.run(e.grams[0].g.start(), 0)
	}()
	hook.Resume(mode)
	c.Logf("parse %d of %q", round, e.src)
	if long {
		c.Probe("too expensive for the model")
		return false
	}
	for i, k := range m.calls {
		c.Logf("  call %d: %s at %d [%s] depth %d -> %s n=%d", i, k.name, k.pos, k.binds, k.depth, outNames[k.out.kind], k.out.n)
	}
	c.Logf("  model: %s (%d steps, %d calls)", want, m.steps, len(m.calls))
	if e.o.mathModes {
		mm := c.Draw(4, "random source")
		ms := uint64(c.Draw(5, "random value"))
		runtime.SimMath(true, mm, []uint64{1, 0, ^uint64(0), 1 << 63, 0x9e3779b97f4a7c15}[ms])
		cm := c.Draw(4, "clock")
		runtime.SimClock(1+cm, ms*977)
		c.Fault([]string{"clock: ticking", "clock: standing still", "clock: coarse", "clock: set back and forth"}[cm])
		c.Fault([]string{"random source: pseudo-random", "random source: constant", "random source: two values", "random source: four values"}[mm])
	}
	exts := e.exts
	if !e.o.exts {
		exts = nil
	}
	in := parser.NewScanner(e.src)
	var tree parser.TreeElement
	var err error
	budget := int64(m.steps)*stepsPerModelStep + 10000
	if !bounded(budget, func() {
		tree, err = e.ps[0].ParseWithExternals(parser.Rule(e.grams[0].g.start()), in, exts)
	}) {
		c.Fail("nontermination", "parsing %q takes more than %d steps; the grammar's own search ends after %d (%d callbacks)", e.src, budget, m.steps, len(m.calls))
	}
	runtime.SimMath(true, 0, 1)
	got := ""
	switch x := err.(type) {
	case nil:
		got = "ok at " + fmt.Sprint(in.Offset()) + ": " + canonTree(tree)
	case parser.UnconsumedInputError:
		got = "unconsumed at " + fmt.Sprint(x.Residue().Offset()) + ": " + canonTree(x.Result())
		if want.class == "raw unconsumed" {
			got = want.class
		} else if x.Residue().Offset() != in.Offset() {
			c.Fail("scanner", "parse of %q leaves the scanner at %d but reports the rest from %d", e.src, in.Offset(), x.Residue().Offset())
		}
	case parser.FatalError:
		got = "hard"
		defer func() { // known to callbacks of later parses
			if e.fatal = err; want.fail != nil {
				e.oldFatal = want.fail.why
			}
		}()
	case parser.StopError:
		got = "stop"
	default:
		got = "soft"
		if _, ok := err.(parser.ParseError); ok {
			defer func() {
				if e.soft = err; want.fail != nil {
					e.oldSoft = want.fail.why
				}
			}()
		}
	}
	c.Logf("  real:  %s", got)
	if want.fail != nil && want.fail.raw {
		if x := e.errs[want.fail.call]; x != nil && !sameErr(x, err) {
			c.Fail("error-replaced", "parse of %q: callback %d returned %v, the parse returned %v", e.src, want.fail.call, x, err)
		}
	}
	if got != want.String() {
		c.Fail("outcome", "parse of %q:\n got  %s\n want %s\n%d callbacks", e.src, got, want, len(m.calls))
	}
	if e.next != len(m.calls) {
		c.Fail("missing-call", "parse of %q made %d callback calls, the grammar prescribes %d", e.src, e.next, len(m.calls))
	}
	if e.o.reports && err != nil {
		e.report(want, err, in)
	}
	if e.o.stepCheck && err != nil && !e.printed && (want.fail == nil || want.fail.deep <= 40) && c.Chance(1, 3, "print") {
		e.printed = true
		printErr(c, err, "after the parse")
	}
	// evidence
	faults := 0
	for _, k := range m.calls {
		if k.out.kind != oOK {
			faults++
		}
		c.Fault("callback: " + outNames[k.out.kind])
		if k.out.kind == oOK && k.out.n == 0 {
			c.Fault("callback: success without consuming")
		}
	}
	if m.backs > 0 {
		c.Probe("parses that backtracked")
	}
	if m.fails > 0 {
		c.Probe("parses with a failure after a commitment")
	}
	c.Probe("parse result " + want.class)
	sig := fmt.Sprintf("%s|%d|%d", want.class, m.backs, m.fails)
	for _, k := range m.calls {
		sig += fmt.Sprintf("|%s%d%d", k.name, k.out.kind, k.pos)
	}
	c.State(sig)
	switch {
	case e.o.exts && !e.o.mathModes && !e.o.stepCheck:
		if faults > 0 {
			c.Nontrivial()
		}
	case e.o.mathModes:
		if m.fails > 0 || m.backs > 0 && faults > 0 {
			c.Nontrivial()
		}
	default:
		if m.backs > 0 || len(m.calls) > 0 {
			c.Nontrivial()
		}
	}
	c.Sample("%q: %s, %d callbacks (%d failing), %d alternatives abandoned", e.src, want.class, len(m.calls), faults, m.backs)
	return true
}

// stepsPerModelStep bounds the real parser's work: the measured ratio is below
// 160 on every run so far.
const stepsPerModelStep = 1000

// sameErr: identity where errors have one, text otherwise.
func sameErr(a, b error) bool {
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if ta.Kind() == reflect.Ptr {
		return a == b
	}
	// the text of a deeply nested failure is long: what it costs is C10's concern
	var ta1, tb1 string
	within(1_000_000, func() { ta1, tb1 = a.Error(), b.Error() })
	return ta1 == tb1
}

func init() {
	base := genOpt{cuts: true, stacks: true, scoped: true, refs: true, anyRef: true, look: true, delims: true, sepEdges: true, assoc: true, wrap: true, macros: true}
	real := "grammar text compiler, term compiler, parser, scopes, scanners"
	register(&Prop{
		ID: "C04", Level: "fault_enumeration", Quick: 25, Thorough: 900,
		Rule:    "a run counts when at least one callback failed, stopped the parse, handed back unconsumed input or ran a parse of its own",
		Real:    real,
		Stub:    "host callbacks (simulated: outcome drawn per call)",
		Measure: "distinct (result class, backtracks, sequence of callback, position, outcome)",
		Assumptions: []string{
			"the reference model (sim/harness/model.go) states the ordered-choice, commitment and callback semantics; it was checked against the unchanged tree over millions of runs",
			"callbacks are deterministic given their call: they neither share state with each other nor keep the scanner",
			"not generated: nested grammars inside stack levels, callbacks that parse with the scope they were handed",
		},
		Run: func(c *Ctx) {
			runEngine(c, engOpt{gen: base, text: 2, exts: true, escapes: 3, nested: 2, fails: 2, maxParses: 2})
		},
	})
	register(&Prop{
		ID: "C05", Level: "fault_enumeration", Quick: 25, Thorough: 900,
		Rule:    "a run counts when a parse failed after a commitment, or backtracked around failing callbacks",
		Real:    real,
		Stub:    "host callbacks, the global random source (constant, two-valued, four-valued, pseudo-random)",
		Measure: "distinct (result class, backtracks, failures after commitment, sequence of callback, position, outcome)",
		Assumptions: []string{
			"the reference model (sim/harness/model.go) states the ordered-choice, commitment and callback semantics; it was checked against the unchanged tree over millions of runs",
			"callbacks are deterministic given their call: they neither share state with each other nor keep the scanner",
			"not generated: nested grammars inside stack levels, callbacks that parse with the scope they were handed",
		},
		Run: func(c *Ctx) {
			if c.Chance(1, 400, "many parses") {
				churn(c)
				return
			}
			runEngine(c, engOpt{gen: base, text: 3, exts: c.Chance(1, 2, "callbacks"), escapes: 1, nested: 6, fails: 1, mathModes: true, pump: true, maxParses: 5})
		},
	})
	nl := base
	nl.nullLoops = true
	register(&Prop{
		ID: "C11", Findings: []string{"host-left-recursion"}, Level: "exploration", Quick: 25, Thorough: 900, Limit: 1 << 40,
		Rule:    "a run counts when the parse backtracked or called back",
		Real:    real,
		Stub:    "host callbacks (simulated: outcome drawn per call)",
		Measure: "distinct (result class, backtracks, sequence of callback, position, outcome)",
		Assumptions: []string{
			"the reference model (sim/harness/model.go) states the ordered-choice, commitment and callback semantics; it was checked against the unchanged tree over millions of runs",
			"callbacks are deterministic given their call: they neither share state with each other nor keep the scanner",
			"not generated: nested grammars inside stack levels, callbacks that parse with the scope they were handed",
		},
		Run: func(c *Ctx) {
			if c.Chance(1, 3, "any recursion") {
				runFree(c)
				return
			}
			runEngine(c, engOpt{gen: nl, text: 2, exts: c.Chance(2, 3, "callbacks"), escapes: 2, nested: 1, fails: 2, inert: 3, stepCheck: true, pump: true, maxParses: 2})
		},
	})
}
