package main

import (
	"github.com/arr-ai/wbnf/parser"
)

// churn: one fatal error, held by the host, comes back from a callback in parse
// after parse. Wherever the callback stands, it was issued by none of the
// choices and repetitions around it, so it ends every one of these parses,
// however many there were before.
func churn(c *Ctx) {
	of := func(k kind, ts ...*gterm) *gterm { return &gterm{k: k, sub: ts} }
	S := func(s string) *gterm { return &gterm{k: kS, s: s} }
	ext := &gterm{k: kExt, s: "e"}
	shapes := []func() *gterm{
		func() *gterm { return of(kOneof, ext, S("x")) },
		func() *gterm { return of(kSeq, &gterm{k: kQuant, sub: []*gterm{ext}}, S("x")) },
		func() *gterm { return of(kOneof, of(kOneof, ext, S("y")), S("x")) },
		func() *gterm {
			return of(kSeq, &gterm{k: kQuant, max: 1, sub: []*gterm{of(kOneof, S("y"), ext)}}, S("x"))
		},
		func() *gterm {
			return of(kOneof, of(kSeq, &gterm{k: kQuant, min: 1, sub: []*gterm{of(kSeq, S("x"), ext)}}, S("y")), S("x"))
		},
		func() *gterm { return of(kOneof, of(kSeq, of(kCut, S("x")), of(kOneof, ext, S("y"))), S("x")) },
	}
	var ps []parser.Parsers
	for n := 1 + c.Draw(2, "grammars"); n > 0; n-- {
		g := &gram{rules: []grule{{"r0", of(kSeq, of(kCut, S("(")), shapes[c.Draw(len(shapes), "shape")]())}}}
		c.Logf("%s", g)
		ps = append(ps, g.terms().Compile(nil))
	}
	var held error
	exts := parser.ExternalRefs{"e": func(parser.Scope, *parser.Scanner) (parser.TreeElement, error) { return nil, held }}
	maker := (&gram{rules: []grule{{"r0", of(kSeq, of(kCut, S("(")), of(kOneof, of(kSeq, of(kCut, S("a")), S("b")), S("x")))}}}).terms().Compile(nil)
	_, held = maker.Parse("r0", parser.NewScanner([]string{"(a", "(", "(z"}[c.Draw(3, "failing input")]))
	if _, is := held.(parser.FatalError); !is {
		c.Fail("commitment lost", "a parse that fails after its commitment reports %T", held)
	}
	most := []int{300, 3000, 20000, 140000}[c.Weighted("parses", 10, 6, 2, 1)]
	c.Logf("%d parses", most)
	for i := 0; i < most; i++ {
		var err error
		if !bounded(200_000, func() { _, err = ps[i%len(ps)].ParseWithExternals("r0", parser.NewScanner("(xy"), exts) }) {
			c.Fail("nontermination", "a parse of three characters takes more than 200000 steps")
		}
		if _, is := err.(parser.FatalError); !is {
			c.Fail("foreign fatal error absorbed", "the fatal error of an earlier parse, returned by a callback, does not end parse %d of %d: %v", i, most, err)
		}
		if i+1 == most && !sameErr(held, err) {
			c.Fail("error-replaced", "the callback returned %v, the parse %v", held, err)
		}
	}
	c.Fault("earlier fatal error returned again")
	c.Probe("parses with a held fatal error")
	c.State("churn", most)
	c.Nontrivial()
}
