package main

import (
	"fmt"
	"io"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"
)

// runFree: grammar texts whose rules refer to each other in any way. Whatever
// the compiler accepts has to parse within bounds.
func runFree(c *Ctx) {
	g := genGrammar(c, genOpt{stacks: true, scoped: true, look: true, refs: c.Chance(1, 2, "refs"), anyRef: true, delims: true, sepEdges: true, assoc: true, nullLoops: true, free: true, macros: true, depth: 2 + c.Draw(2, "depth"), maxRules: 4})
	text := g.text()
	if c.Chance(1, 8, "more macros") {
		text += macroGraph(c)
	}
	c.Logf("grammar\n%s", text)
	var ps parser.Parsers
	var err error
	panicked := ""
	const most = 60_000_000
	if !bounded(most, func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(hook.StepLimit); is {
					panic(r)
				}
				panicked = fmt.Sprint(r)
			}
		}()
		ps, err = wbnf.Compile(text, nil)
	}) {
		c.Fail("nontermination", "compiling takes more than %d steps:\n%s", most, text)
	}
	if panicked != "" {
		c.Probe("compilation panics: " + panicked)
		return
	}
	if err != nil {
		c.Probe("refused")
		c.Logf("refused")
		c.State(text)
		return
	}
	mg := newMgram(g, true)
	for i := 0; i < 3; i++ {
		src := g.derive(c, g.start(), nil, nil)
		if i > 0 {
			src = mutate(c, src)
		}
		if len(src) > 40 {
			src = src[:40]
		}
		m := &model{src: src, grams: []*mgram{mg}, cur: mg, max: 20000, active: map[active]int{}}
		var want mresult
		long, rec := false, ""
		noSteps(func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case tooLong:
					long = true
				case leftRec:
					rec = r.rule
				default:
					panic(r)
				}
			}()
			want = m.run(g.start(), 0)
		})
		c.Logf("parse of %q: %s", src, want)
		if long {
			c.Probe("too expensive for the model")
			return
		}
		budget := int64(m.steps)*stepsPerModelStep + 10000
		var tree parser.TreeElement
		if !bounded(budget, func() { tree, err = ps.Parse(parser.Rule(g.start()), parser.NewScanner(src)) }) {
			if rec != "" {
				c.Fail("left recursion accepted", "the grammar compiles, but parsing %q enters rule %s over and over without taking input:\n%s", src, rec, text)
			}
			c.Fail("nontermination", "parsing %q takes more than %d steps; the grammar's own search ends after %d:\n%s", src, budget, m.steps, text)
		}
		if rec != "" {
			c.Probe("left recursion that ends")
			continue
		}
		c.State(text, want.class, src)
		c.Probe("accepted and parsed: " + want.class)
		c.Nontrivial()
		if err == nil {
			conversions(c, ps, tree)
		} else if want.fail == nil || want.fail.deep <= 40 {
			printErr(c, err, "after the parse")
		}
	}
	c.Sample("%s", text)
}

// macroGraph: macros that call each other in any way.
func macroGraph(c *Ctx) string {
	s := ""
	n := 1 + c.Draw(4, "macros")
	for i := 0; i < n; i++ {
		s += fmt.Sprintf(".macro K%d(v) { v", i)
		for k := c.Draw(3, "calls"); k > 0; k-- {
			s += fmt.Sprintf([]string{" %%!K%d(v)", " (v | %%!K%d(v \"k\"))?", " %%!K%d(%%!K%[1]d(v))", " (?=%%!K%d(v))*"}[c.Draw(4, "how")], c.Draw(n, "callee"))
		}
		s += " }\n"
	}
	return s + "k -> %!K0(\"v\");\n"
}

func treeSize(e parser.TreeElement) (n int) {
	n = 1
	if x, ok := e.(parser.Node); ok {
		for _, k := range x.Children {
			n += treeSize(k)
		}
	}
	return
}

// conversions: what is done with a tree ends too.
func conversions(c *Ctx, ps parser.Parsers, tree parser.TreeElement) {
	size := int64(treeSize(tree))
	var br ast.Branch
	try := func(what string, f func()) {
		budget := 200_000 + conversionSteps*size
		if !bounded(budget, func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(hook.StepLimit); is {
						panic(r)
					}
				}
			}()
			s0, _ := hook.Steps()
			f()
			s1, _ := hook.Steps()
			if statOn {
				statMax("conversion "+what+" steps per node", (s1-s0)/size)
			}
		}) {
			c.Fail("nontermination", "%s of a tree of %d nodes takes more than %d steps: %s", what, size, budget, canonTree(tree))
		}
	}
	try("conversion to an AST", func() { br = ast.FromParserNode(ps.Grammar(), tree) })
	try("unparsing", func() { ps.Unparse(tree, io.Discard) })
	if br == nil {
		return
	}
	try("conversion from an AST", func() { ast.ToParserNode(ps.Grammar(), br) })
	try("the tree view", func() { ast.BuildTreeView("r", br, false) })
	try("printing", func() { _ = br.String() })
	c.Probe("trees converted")
}

const conversionSteps = 20_000

// A rule that is reached again behind a host callback is left-recursive if the
// callback takes nothing: the grammar cannot tell, and the parser does not.
func init() {
	register(&Prop{ID: "C11/host-left-recursion", Limit: 1 << 40, Run: func(c *Ctx) {
		text := `r -> %%e r | "x";`
		ps, err := wbnf.Compile(text, nil)
		if err != nil {
			return
		}
		exts := parser.ExternalRefs{"e": func(parser.Scope, *parser.Scanner) (parser.TreeElement, error) { return hostVal{}, nil }}
		const most = 200_000
		if !bounded(most, func() { ps.ParseWithExternals("r", parser.NewScanner("x"), exts) }) {
			c.Fail("nontermination", "parsing \"x\" with %s takes more than %d steps when the host callback succeeds without consuming", text, most)
		}
	}})
}
