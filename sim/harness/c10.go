package main

import (
	"errors"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"
)

// C10: failure reports. A failing parse or compilation is done twice; one error
// is printed at once, its twin for the first time after the parser, the scanner
// and the input have been used for other things. The model says what the report
// has to name.

func init() {
	base := genOpt{cuts: true, stacks: true, scoped: true, refs: true, anyRef: true, look: true, delims: true, sepEdges: true, assoc: true, wrap: true, macros: true, depth: 3}
	register(&Prop{
		ID: "C10", Level: "exploration", Quick: 30, Thorough: 600, Limit: 1 << 40,
		Rule:    "a run counts when an error was printed at once, printed late after other activity, and compared with what the reference model says the report has to name",
		Real:    "grammar compilers, parser, errors and their printing",
		Stub:    "host callbacks (simulated: outcome drawn per call)",
		Measure: "distinct (error text, activity between failure and printing)",
		Assumptions: []string{
			"a report names a failed terminal when an expect/actual pair shows the terminal and the input that was left",
			"the terminals a report has to name are those whose failure made the enclosing term fail: the failing item of a sequence, every alternative of a choice, the item that ended a repetition too early",
			fmt.Sprintf("printing is finite if it takes at most 200000 + %d steps and allocates at most 64 MB + %d bytes per byte of text and level of nesting", reportSteps, reportBytes),
		},
		Run: func(c *Ctx) {
			if c.Chance(1, 4, "compilation") {
				runCompileReport(c)
				return
			}
			runEngine(c, engOpt{gen: base, text: 3, exts: c.Chance(1, 2, "callbacks"), escapes: 1, nested: 4, fails: 2, maxParses: 3, reports: true, spoil: true})
		},
	})
}

const (
	reportSteps = 3
	reportBytes = 30
)

var drawing = strings.NewReplacer("│", "", "├", "", "└", "", "─", "", " ", "", "\n", "", "\t", "", "\r", "")

// squeeze drops layout: white space and the lines of the tree.
func squeeze(s string) string { return drawing.Replace(s) }

var pairRE = regexp.MustCompile(`expect:\x1b\[1;37m[^\x1b]*\x1b\[0m\x1b\[1;31m([^\x1b]*)\x1b\[0mactual:\x1b\[1;37m[^\x1b]*\x1b\[0m\x1b\[1;31m([^\x1b]*)\x1b\[0m`)

type pair struct{ want, rest string }

func pairsOf(text string) (ps []pair) {
	for _, m := range pairRE.FindAllStringSubmatch(squeeze(text), -1) {
		ps = append(ps, pair{m[1], m[2]})
	}
	return
}

// shown is the part of the input a report shows.
func shown(rest string) string {
	rest = strings.TrimSpace(rest)
	if len(rest) > 40 {
		rest = rest[:40] + "..."
	}
	return squeeze(rest)
}

func (p pair) names(w mwhy) bool {
	return w.tok && strings.Contains(p.want, squeeze(w.want)) && p.rest == shown(w.rest)
}

// print renders an error and bounds the work.
func printErr(c *Ctx, err error, how string) (text string) {
	var m0, m1 runtime.MemStats
	const most = 20_000_000
	old := hook.Budget(most)
	s0, _ := hook.Steps()
	measure := c.Chance(1, 3, "measure memory")
	if measure {
		runtime.ReadMemStats(&m0)
	}
	func() {
		defer func() {
			hook.SetLimit(old)
			if r := recover(); r != nil {
				switch r := r.(type) {
				case hook.StepLimit:
					c.Fail("endless report", "printing a %T %s takes more than %d steps", err, how, most)
				case violationPanic:
					panic(r)
				default:
					c.Fail("report panics", "printing a %T %s panics: %v", err, how, r)
				}
			}
		}()
		text = err.Error()
	}()
	s1, over := hook.Steps()
	if over {
		c.Fail("endless report", "printing a %T %s takes more than %d steps", err, how, most)
	}
	lines := strings.Split(text, "\n")
	depth := 1
	for _, l := range lines {
		n := 1
		for {
			if strings.HasPrefix(l, "│   ") {
				l = l[len("│   "):]
			} else if strings.HasPrefix(l, "    ") {
				l = l[4:]
			} else {
				break
			}
			n++
		}
		depth = max(depth, n)
	}
	size := int64(len(text)+200) * int64(depth)
	if statOn {
		statMax("length", int64(len(text)))
		statMax("depth", int64(depth))
		statMax("steps per byte and level x1000", (s1-s0)*1000/size)
	}
	if s1-s0 > 200_000+size*reportSteps {
		c.Fail("endless report", "printing %d bytes %d levels deep takes %d steps", len(text), depth, s1-s0)
	}
	if measure {
		runtime.ReadMemStats(&m1)
		used := int64(m1.TotalAlloc - m0.TotalAlloc)
		if statOn {
			statMax("bytes per byte and level x1000", used*1000/size)
		}
		if used > 64<<20+size*reportBytes {
			c.Fail("endless report", "printing %d bytes %d levels deep allocates %d bytes", len(text), depth, used)
		}
	}
	if i := strings.Index(text, "(PANIC="); i >= 0 {
		c.Fail("report panics", "part of the text of a %T panicked while it was printed: %s", err, text[max(0, i-80):min(len(text), i+80)])
	}
	if m := addressRE.FindString(text); m != "" {
		c.Fail("address in a report", "a %T printed %s shows a memory address: %s", err, how, m)
	}
	return text
}

var statOn = os.Getenv("SIM_STAT") != ""

var statMaxes = map[string]int64{}

func statMax(k string, v int64) {
	if v > statMaxes[k] {
		statMaxes[k] = v
		f, _ := os.OpenFile(os.Getenv("SIM_STAT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		fmt.Fprintln(f, k, v)
		f.Close()
	}
}

// stable prints err at once and twin after some activity.
func stable(c *Ctx, err, twin error, act func() string) string {
	text := printErr(c, err, "at once")
	did := ""
	for n := 1 + c.Draw(4, "activities"); n > 0; n-- {
		did += act() + ", "
	}
	if t := printErr(c, twin, "late"); t != text {
		c.Fail("report changes", "an error printed at once and its twin printed after %sdiffer: %s", did, diffText(text, t))
	}
	for n := c.Draw(3, "again"); n > 0; n-- {
		did += act() + ", "
		switch c.Draw(3, "way") {
		case 0:
			if t := printErr(c, err, "again"); t != text {
				c.Fail("report changes", "an error printed twice with %sin between: %s", did, diffText(text, t))
			}
		case 1:
			if t := fmt.Sprintf("%v", twin); t != text {
				c.Fail("report changes", "an error printed with %%v after %s: %s", did, diffText(text, t))
			}
		case 2:
			if t := fmt.Errorf("wrapped: %w", err).Error(); t != "wrapped: "+text {
				c.Fail("report changes", "an error printed wrapped after %s: %s", did, diffText("wrapped: "+text, t))
			}
		}
	}
	c.State(text, did)
	c.Logf("  report: %s(%d bytes)", did, len(text))
	c.Nontrivial()
	return text
}

// report checks the error of the parse just made.
func (e *engine) report(want mresult, err error, in *parser.Scanner) {
	c := e.c
	if e.reports >= 2 {
		return
	}
	if f := want.fail; f != nil && (f.deep > 80 || f.deep > 25 && !c.Chance(1, 8, "print a deep report")) {
		c.Probe("report too deep to print") // its length grows with the cube of the depth
		return
	}
	e.reports++
	// the twin: the same parse again
	e.next, e.errs, e.nest, e.current = 0, map[int]error{}, 0, 0
	exts := e.exts
	if !e.o.exts {
		exts = nil
	}
	in2 := parser.NewScanner(e.src)
	rule := parser.Rule(e.grams[0].g.start())
	_, twin := e.ps[0].ParseWithExternals(rule, in2, exts)
	if twin == nil {
		c.Fail("outcome", "parse of %q fails once and succeeds the second time", e.src)
	}
	plain := func(_ parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
		var s parser.Scanner
		if len(input.String()) == 0 {
			return nil, errors.New("no more")
		}
		input.Eat(1, &s)
		return s, nil
	}
	others := parser.ExternalRefs{"e1": plain, "e2": plain, "gone": plain}
	var kept []error
	text := stable(c, err, twin, func() string {
		switch c.Draw(7, "activity") {
		case 0:
			*in2 = *parser.NewScanner(e.input() + "q")
			within(200_000, func() {
				_, x := e.ps[0].ParseWithExternals(rule, in2, others)
				kept = append(kept, x)
			})
			return "another parse with the scanner"
		case 1:
			*in = *parser.NewScanner(strings.Repeat("z", 100)).Skip(c.Draw(100, "skip"))
			*in2 = *in
			return "the scanners moved"
		case 2:
			pinSeams(uint64(2+c.Draw(100, "map seed")), 0, 1)
			return "another map order"
		case 3:
			runtime.GC()
			return "a collection"
		case 4:
			for _, x := range []error{err, twin} {
				if u, ok := x.(parser.UnconsumedInputError); ok {
					within(200_000, func() { e.ps[0].ParseWithExternals(rule, u.Residue(), others) })
				}
			}
			return "parsing of the rest"
		case 5:
			if len(kept) > 0 && kept[len(kept)-1] != nil {
				printErr(c, kept[len(kept)-1], "(another)")
				return "another report"
			}
			return "nothing"
		default:
			within(300_000, func() {
				_, x := wbnf.Compile(e.grams[0].g.text()+mistakes[c.Draw(len(mistakes), "mistake")], nil)
				kept = append(kept, x)
			})
			return "a compilation"
		}
	})
	pinSeams(1, 0, 1)
	if want.fail == nil { // unconsumed
		at := want.pos
		line, col := 1+strings.Count(e.src[:at], "\n"), at-strings.LastIndex(e.src[:at], "\n")
		if !strings.Contains(text, fmt.Sprintf(":%d:%d:", line, col)) || !strings.Contains(squeeze(text), squeeze(e.src[at:])) {
			c.Fail("report misleads", "the input %q is left from %d (line %d column %d), the report says %q", e.src, at, line, col, text)
		}
		return
	}
	checkNamed(c, e.src, text, want.fail.why)
}

func checkNamed(c *Ctx, src, text string, why []mwhy) {
	flat := squeeze(text)
	got := pairsOf(text)
	for _, w := range why {
		if !w.tok {
			if !strings.Contains(flat, squeeze(w.want)) {
				c.Fail("report omits a cause", "parse of %q: the report does not say %q:\n%s", src, w.want, text)
			}
			continue
		}
		ok := false
		for _, p := range got {
			ok = ok || p.names(w)
		}
		if !ok {
			c.Fail("report omits a cause", "parse of %q: the report does not say that %q was expected where %q is left:\n%s", src, w.want, w.rest, text)
		}
	}
	for _, p := range got {
		ok := false
		for _, w := range why {
			ok = ok || p.names(w)
		}
		if !ok {
			c.Fail("report misleads", "parse of %q: the report says that %q was expected where %q is left, which is not why the parse failed:\n%s", src, p.want, p.rest, text)
		}
	}
	c.Probe(fmt.Sprintf("causes named: %d", min(len(got), 6)))
}

// runCompileReport: errors of compilation.
func runCompileReport(c *Ctx) {
	g := drawGram(c, opOpt{small: true})
	text := g.text()
	kind := c.Draw(3, "mistake")
	switch kind {
	case 0:
		text = mutate(c, text)
	case 1:
		text += mistakes[c.Draw(len(mistakes), "mistake")]
	default:
		text += extras[c.Draw(len(extras), "extra")].text + mistakes[c.Draw(len(mistakes), "mistake")] + mistakes[c.Draw(len(mistakes), "mistake")]
	}
	c.Logf("compile %q", text)
	var err, twin error
	panicked := false
	compile := func(t string) (x error) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(hook.StepLimit); is {
					panic(r)
				}
				panicked = true
			}
		}()
		_, x = wbnf.Compile(t, nil)
		return
	}
	if within(2_000_000, func() { err = compile(text) }); err == nil || panicked {
		return
	}
	within(4_000_000, func() { twin = compile(text) })
	if twin == nil {
		c.Fail("outcome", "compiling %q fails once and not the second time", text)
	}
	report := stable(c, err, twin, func() string {
		switch c.Draw(3, "activity") {
		case 0:
			within(2_000_000, func() { compile(text[:len(text)*2/3] + ";") })
			return "another compilation"
		case 1:
			runtime.GC()
			return "a collection"
		default:
			pinSeams(uint64(2+c.Draw(100, "map seed")), 0, 1)
			return "another map order"
		}
	})
	pinSeams(1, 0, 1)
	c.Probe(fmt.Sprintf("compile error %T", err))
	for _, p := range pairsOf(report) {
		ok := false
		for i := 0; i <= len(text) && !ok; i++ {
			ok = shown(text[i:]) == p.rest
		}
		if !ok {
			c.Fail("report misleads", "compiling %q: the report shows %q as the input, which is not there:\n%s", text, p.rest, report)
		}
	}
}
