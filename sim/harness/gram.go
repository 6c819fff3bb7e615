package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// The simulator's own representation of grammars. It is printed as wbnf text,
// turned into parser terms, and interpreted by the reference model.

type kind int

const (
	kS kind = iota
	kRE
	kRule
	kSeq
	kOneof
	kStack
	kDelim
	kQuant
	kNamed
	kRef
	kExt
	kLook
	kScoped
	kCut
	kMacro // call of macro s with the arguments sub
	kArg   // parameter s of the macro being defined
)

type gterm struct {
	k           kind
	s           string // literal, regexp, rule, name, ident
	def         *gterm // back-reference default
	sub         []*gterm
	min, max    int
	assoc       int // -1 <: , 0 :, 1 :>
	lead, trail bool
	rules       []grule // scoped
}

type grule struct {
	name string
	t    *gterm
}

type gram struct {
	rules  []grule
	wrap   string // regexp with () or ""
	macros []gmacro
}

type gmacro struct {
	name   string
	params []string
	body   *gterm
}

// plain is the grammar with its macros expanded.
func (g *gram) plain() *gram {
	if len(g.macros) == 0 {
		return g
	}
	defs := map[string]gmacro{}
	for _, m := range g.macros {
		defs[m.name] = m
	}
	out := &gram{wrap: g.wrap}
	for _, r := range g.rules {
		out.rules = append(out.rules, grule{r.name, r.t.expand(defs, nil)})
	}
	return out
}

func (t *gterm) expand(defs map[string]gmacro, args map[string]*gterm) *gterm {
	switch t.k {
	case kArg:
		return args[t.s]
	case kMacro:
		m := defs[t.s]
		actual := map[string]*gterm{}
		for i, p := range m.params {
			actual[p] = t.sub[i].expand(defs, args)
		}
		return m.body.expand(defs, actual)
	}
	c := *t
	c.sub = nil
	for _, s := range t.sub {
		c.sub = append(c.sub, s.expand(defs, args))
	}
	c.rules = nil
	for _, r := range t.rules {
		c.rules = append(c.rules, grule{r.name, r.t.expand(defs, args)})
	}
	return &c
}

// positions calls f with every place that holds a subterm.
func (t *gterm) positions(f func(at **gterm)) {
	for i := range t.sub {
		f(&t.sub[i])
		t.sub[i].positions(f)
	}
	for i := range t.rules {
		t.rules[i].t.positions(f)
	}
}

// movable: the term means the same wherever its text is.
func (t *gterm) movable() bool {
	switch {
	case t.k == kStack, t.k == kCut, t.k == kRule && t.s == "@":
		return false
	}
	for _, s := range t.sub {
		if !s.movable() {
			return false
		}
	}
	for _, r := range t.rules {
		if r.t.k != kStack && !r.t.movable() {
			return false
		}
	}
	return true
}

func (t *gterm) any(f func(*gterm) bool) bool {
	if f(t) {
		return true
	}
	for _, s := range t.sub {
		if s.any(f) {
			return true
		}
	}
	for _, r := range t.rules {
		if r.t.any(f) {
			return true
		}
	}
	return false
}

// abstract moves terms of the grammar into macros.
func (g *gram) abstract(c *Ctx) {
	for n := c.Draw(3, "macros"); n > 0; n-- {
		var at []**gterm
		for i := range g.rules {
			g.rules[i].t.positions(func(p **gterm) {
				if (*p).movable() && (*p).k != kArg {
					at = append(at, p)
				}
			})
		}
		if len(at) == 0 {
			return
		}
		p := at[c.Draw(len(at), "which term")]
		m := gmacro{name: fmt.Sprintf("M%d", len(g.macros)), body: *p}
		call := &gterm{k: kMacro, s: m.name}
		for k := c.Draw(3, "parameters"); k > 0; k-- {
			at := []**gterm{&m.body}
			m.body.positions(func(p **gterm) { at = append(at, p) })
			a := at[c.Draw(len(at), "argument")]
			if !(*a).movable() || (*a).any(func(t *gterm) bool { return t.k == kArg }) || a == &m.body && c.Chance(1, 2, "not all") {
				continue
			}
			name := fmt.Sprintf("p%d", len(m.params))
			m.params = append(m.params, name)
			call.sub = append(call.sub, *a)
			*a = &gterm{k: kArg, s: name}
		}
		*p = call
		g.macros = append(g.macros, m)
		if c.Chance(1, 2, "call it again") {
			g.reuse(c, m)
		}
	}
}

// reuse replaces a literal by another call.
func (g *gram) reuse(c *Ctx, m gmacro) {
	call := &gterm{k: kMacro, s: m.name}
	for range m.params {
		call.sub = append(call.sub, &gterm{k: kS, s: literals[c.Draw(len(literals), "lit")]})
	}
	if m.body.any(func(t *gterm) bool { return t.k == kMacro }) {
		return
	}
	t := call.expand(map[string]gmacro{m.name: m}, nil)
	if !consumes(t) || t.any(func(t *gterm) bool { return t.k == kRule || t.k == kRef && t.def == nil || t.k == kNamed }) {
		return
	}
	var at []**gterm
	for i := range g.rules {
		g.rules[i].t.positions(func(p **gterm) {
			if (*p).k == kS {
				at = append(at, p)
			}
		})
	}
	if len(at) > 0 {
		*at[c.Draw(len(at), "where")] = call
	}
}

func (g *gram) start() string { return g.rules[0].name }

// ---------------------------------------------------------------- generation

type genOpt struct {
	text      bool // must be expressible as wbnf text (no explicit cuts)
	exts      []string
	cuts      bool
	stacks    bool
	scoped    bool
	refs      bool
	anyRef    bool // back-references to values of any shape
	look      bool
	delims    bool
	sepEdges  bool // delimiters with optional leading/trailing separators
	assoc     bool
	nullLoops bool // unbounded repetition of bodies that can match nothing
	wrap      bool
	macros    bool // moves terms into macros
	maxRules  int
	depth     int
	free      bool   // rules may refer to any rule anywhere: left recursion
	prefix    string // rule name prefix, keeps names of different grammars apart
}

type gen struct {
	c     *Ctx
	o     genOpt
	names []string // all rule names visible
	nuniq int
	known map[string]bool // names of repetition-safe rules
}

var literals = []string{"a", "b", "c", "ab", "x", "+", ",", "if", "(", ")", "aa", "xy", "abcdefgh", "select a", "%d"}
var regexes = []string{`[a-c]`, `[a-c]+`, `\d+`, `[xy]+`, `b*`, `x(y|z)`, `(?:ab)+c?`, `\w`}

// nullable in every way a regular expression can be
var nullables = []string{`b*`, `x{0,2}`, `a|`, `(a|b|)`, `(?:)`, `(x?y?)*`, `\b`, `\B|c`, `^`, `$`, `(?i:A?)`, `b*?`, `(?:ab){0}c*`, `[^ab]*`}

func genGrammar(c *Ctx, o genOpt) *gram {
	if o.maxRules == 0 {
		o.maxRules = 4
	}
	if o.depth == 0 {
		o.depth = 3
	}
	g := &gen{c: c, o: o}
	n := 1 + c.Draw(o.maxRules, "rules")
	for i := 0; i < n; i++ {
		g.names = append(g.names, fmt.Sprintf("%sr%d", o.prefix, i))
	}
	out := &gram{}
	for i := 0; i < n; i++ {
		out.rules = append(out.rules, grule{g.names[i], g.ruleBody(i)})
	}
	if o.wrap && c.Chance(1, 3, "wrap") {
		out.wrap = `\s*()\s*`
	}
	if o.macros && c.Chance(1, 4, "with macros") {
		out.abstract(c)
	}
	return out
}

func (g *gen) ruleBody(i int) *gterm {
	if g.o.stacks && g.c.Chance(1, 6, "stack") {
		return g.stack(i, g.o.depth)
	}
	return g.term(i, true, g.o.depth, scopeNames{})
}

func (g *gen) stack(i, depth int) *gterm {
	{
		defer func(b bool) { g.o.scoped = b }(g.o.scoped)
		g.o.scoped = false
		// level 1 refers to the next by @; the last level refers to nothing at its head
		n := 2 + g.c.Draw(2, "levels")
		st := &gterm{k: kStack}
		for l := 0; l < n; l++ {
			var t *gterm
			if l == n-1 {
				t = g.term(i, true, depth-2, scopeNames{})
				if g.c.Chance(1, 2, "paren level") {
					t = &gterm{k: kOneof, sub: []*gterm{{k: kSeq, sub: []*gterm{{k: kS, s: "("}, {k: kRule, s: "@"}, {k: kS, s: ")"}}}, t}}
				}
			} else {
				switch g.c.Draw(3, "level kind") {
				case 0:
					t = &gterm{k: kDelim, sub: []*gterm{{k: kRule, s: "@"}, g.lit()}, assoc: g.assoc()}
				case 1:
					t = &gterm{k: kOneof, sub: []*gterm{{k: kSeq, sub: []*gterm{g.consumer(), {k: kRule, s: "@"}}}, {k: kRule, s: "@"}}}
				default:
					t = &gterm{k: kSeq, sub: []*gterm{{k: kRule, s: "@"}, {k: kQuant, max: 1, sub: []*gterm{g.consumer()}}}}
				}
			}
			st.sub = append(st.sub, t)
		}
		return st
	}
}

func (g *gen) assoc() int {
	if !g.o.assoc {
		return 0
	}
	return []int{0, 1, -1}[g.c.Draw(3, "assoc")]
}

// scopeNames: names bound so far in enclosing sequences (for back-references).
type scopeNames struct{ bound []string }

func (g *gen) lit() *gterm {
	return &gterm{k: kS, s: literals[g.c.Draw(len(literals), "lit")]}
}

func (g *gen) consumer() *gterm {
	if g.c.Chance(1, 3, "re?") {
		return &gterm{k: kRE, s: regexes[g.c.Draw(4, "re")]}
	}
	return g.lit()
}

func (g *gen) terminal() *gterm {
	if g.c.Chance(1, 3, "re?") {
		if g.o.free && g.c.Chance(1, 2, "nullable") {
			return &gterm{k: kRE, s: nullables[g.c.Draw(len(nullables), "re")]}
		}
		return &gterm{k: kRE, s: regexes[g.c.Draw(len(regexes), "re")]}
	}
	t := g.lit()
	if g.o.cuts && g.c.Chance(1, 4, "cut?") {
		return &gterm{k: kCut, sub: []*gterm{t}}
	}
	return t
}

// term makes a term. head: nothing has been consumed since the start of rule
// ri, so only later rules may be referred to.
func (g *gen) term(ri int, head bool, depth int, sn scopeNames) *gterm {
	c := g.c
	if g.o.free {
		ri, head = -1, false
	}
	if depth <= 0 {
		return g.leaf(ri, head, sn)
	}
	switch c.Weighted("term", 3, 6, 5, 3, bw(g.o.delims, 2), bw(g.o.look, 1), bw(g.o.scoped, 1), bw(len(g.o.exts) > 0, 4), bw(g.o.cuts, 1)) {
	case 0:
		return g.leaf(ri, head, sn)
	case 1:
		n := 2 + c.Draw(3, "seq len")
		t := &gterm{k: kSeq}
		inner := sn
		h := head
		for i := 0; i < n; i++ {
			x := g.term(ri, h, depth-1, inner)
			if g.o.refs && c.Chance(1, 4, "name?") && (nameable(x) || g.o.anyRef && x.k == kRule) {
				nm := fmt.Sprintf("n%d", g.nuniq)
				g.nuniq++
				x = &gterm{k: kNamed, s: nm, sub: []*gterm{x}}
				if g.o.anyRef || refSafe(x.sub[0]) {
					inner.bound = append(append([]string{}, inner.bound...), nm)
				}
				if c.Chance(1, 4, "repeat named") {
					x = &gterm{k: kQuant, max: 1, sub: []*gterm{x}}
					if consumes(x.sub[0]) && c.Chance(1, 2, "more") {
						x.min, x.max = c.Draw(2, "min"), 0
					}
				}
			}
			t.sub = append(t.sub, x)
			if consumes(x) {
				h = false
			}
		}
		return t
	case 2:
		n := 2 + c.Draw(3, "alts")
		t := &gterm{k: kOneof}
		for i := 0; i < n; i++ {
			t.sub = append(t.sub, g.term(ri, head, depth-1, sn))
		}
		return t
	case 3:
		body := g.term(ri, head, depth-1, sn)
		q := &gterm{k: kQuant, sub: []*gterm{body}}
		switch c.Draw(5, "quant") {
		case 0:
			q.max = 1
		case 1:
		case 2:
			q.min = 1
		case 3:
			q.min = c.Draw(3, "min")
			q.max = max(1, q.min+[]int{1, 2, 0}[c.Draw(3, "max")])
		case 4:
			q.min = 2
		}
		if q.max == 0 && !consumes(body) && !g.o.nullLoops {
			q.sub[0] = &gterm{k: kSeq, sub: []*gterm{g.consumer(), body}}
		}
		return q
	case 4:
		d := &gterm{k: kDelim, assoc: g.assoc()}
		body := g.term(ri, head, depth-1, sn)
		sep := g.lit()
		if c.Chance(1, 4, "sep term") {
			sep = &gterm{k: kSeq, sub: []*gterm{g.lit(), g.term(ri, false, depth-2, sn)}}
		}
		if g.o.free && c.Chance(1, 2, "any sep") {
			sep = g.term(ri, false, depth-1, sn)
		}
		if g.o.sepEdges {
			d.lead = c.Chance(1, 4, "lead")
			d.trail = c.Chance(1, 4, "trail")
		}
		d.sub = []*gterm{body, sep}
		return d
	case 5:
		return &gterm{k: kLook, sub: []*gterm{g.term(ri, head, depth-1, sn)}}
	case 6:
		// a local rule that shadows or extends
		nm := fmt.Sprintf("%sl%d", g.o.prefix, g.nuniq)
		g.nuniq++
		if c.Chance(1, 3, "shadow") && len(g.names) > ri+1 {
			nm = g.names[ri+1+c.Draw(len(g.names)-ri-1, "which")]
		}
		local := &gterm{k: kSeq, sub: []*gterm{g.consumer(), g.term(ri, false, depth-2, scopeNames{})}}
		if g.o.free && c.Chance(1, 2, "any local rule") {
			local = g.term(ri, false, depth-1, scopeNames{})
		} else if refersTo(local, nm) {
			local = &gterm{k: kSeq, sub: []*gterm{g.consumer(), g.terminal()}}
		}
		if later := len(g.names) - ri - 1; later > 0 && c.Chance(1, 6, "another name") {
			if n := g.names[ri+1+c.Draw(later, "which")]; n != nm {
				local = &gterm{k: kRule, s: n}
			}
		}
		if g.o.stacks && c.Chance(1, 6, "local stack") {
			if st := g.stack(ri, depth); g.o.free || !refersTo(st, nm) {
				local = st
			}
		}
		body := &gterm{k: kSeq, sub: []*gterm{{k: kRule, s: nm}, g.term(ri, false, depth-1, sn)}}
		if c.Chance(1, 6, "only a name") {
			return &gterm{k: kScoped, sub: []*gterm{{k: kRule, s: nm}}, rules: []grule{{nm, local}}}
		}
		if g.o.free && c.Chance(1, 2, "other order") {
			body.sub[0], body.sub[1] = body.sub[1], body.sub[0]
		}
		return &gterm{k: kScoped, sub: []*gterm{body}, rules: []grule{{nm, local}}}
	case 7:
		return &gterm{k: kExt, s: g.o.exts[c.Draw(len(g.o.exts), "ext")]}
	default:
		return &gterm{k: kCut, sub: []*gterm{g.term(ri, head, depth-1, sn)}}
	}
}

func (g *gen) leaf(ri int, head bool, sn scopeNames) *gterm {
	c := g.c
	lo := 0
	if head {
		lo = ri + 1
	}
	switch c.Weighted("leaf", 5, bw(len(g.names) > lo, 3), bw(g.o.refs && len(sn.bound) > 0, 2), bw(len(g.o.exts) > 0, 2), bw(g.o.refs, 1)) {
	case 1:
		return &gterm{k: kRule, s: g.names[lo+c.Draw(len(g.names)-lo, "rule")]}
	case 2:
		return &gterm{k: kRef, s: sn.bound[c.Draw(len(sn.bound), "ref")]}
	case 3:
		return &gterm{k: kExt, s: g.o.exts[c.Draw(len(g.o.exts), "ext")]}
	case 4:
		return &gterm{k: kRef, s: "nx", def: g.lit()}
	}
	return g.terminal()
}

func bw(b bool, w int) int {
	if b {
		return w
	}
	return 0
}

func refersTo(t *gterm, rule string) bool {
	if t.k == kRule && t.s == rule {
		return true
	}
	for _, s := range t.sub {
		if refersTo(s, rule) {
			return true
		}
	}
	for _, r := range t.rules {
		if refersTo(r.t, rule) {
			return true
		}
	}
	return false
}

// nameable: naming a term whose tag the name decides or which is a terminal.
func nameable(t *gterm) bool { return t.k != kNamed && t.k != kRule && t.k != kScoped }

// refSafe: a back-reference to a value of this term is well defined.
func refSafe(t *gterm) bool {
	switch t.k {
	case kS, kRE:
		return true
	case kCut:
		return refSafe(t.sub[0])
	case kSeq, kQuant, kOneof:
		for _, s := range t.sub {
			if !refSafe(s) {
				return false
			}
		}
		return true
	}
	return false
}

// consumes: every success consumes at least one byte (conservative).
func consumes(t *gterm) bool {
	switch t.k {
	case kS:
		return t.s != ""
	case kRE:
		return !regexp.MustCompile(`\A(?:` + t.s + `)`).MatchString("")
	case kSeq:
		for _, s := range t.sub {
			if consumes(s) {
				return true
			}
		}
		return false
	case kOneof:
		for _, s := range t.sub {
			if !consumes(s) {
				return false
			}
		}
		return len(t.sub) > 0
	case kQuant:
		return t.min > 0 && consumes(t.sub[0])
	case kDelim, kNamed, kCut:
		return consumes(t.sub[0])
	}
	return false
}

// ---------------------------------------------------------------- wbnf text

func (g *gram) text() string {
	var sb strings.Builder
	for i, r := range g.rules {
		fmt.Fprintf(&sb, "%s -> %s;\n", r.name, r.t.str(0))
		if i == 0 {
			for _, m := range g.macros {
				fmt.Fprintf(&sb, ".macro %s(%s) { %s }\n", m.name, strings.Join(m.params, ", "), m.body.str(0))
			}
		}
	}
	if g.wrap != "" {
		fmt.Fprintf(&sb, ".wrapRE -> /{%s};\n", g.wrap)
	}
	return sb.String()
}

// levels: 0 stack, 1 oneof, 2 seq, 3 named/quant, 4 atom
func (t *gterm) str(level int) string {
	paren := func(min int, s string) string {
		if level > min {
			return "(" + s + ")"
		}
		return s
	}
	join := func(sep string, l int) string {
		var ps []string
		for _, s := range t.sub {
			ps = append(ps, s.str(l))
		}
		return strings.Join(ps, sep)
	}
	switch t.k {
	case kS:
		return `"` + t.s + `"`
	case kRE:
		return `/{` + t.s + `}`
	case kRule:
		return t.s
	case kSeq:
		switch len(t.sub) {
		case 0:
			return "()"
		case 1:
			return t.sub[0].str(level)
		}
		return paren(2, join(" ", 3))
	case kOneof:
		if len(t.sub) == 1 {
			return t.sub[0].str(level)
		}
		return paren(1, join(" | ", 2))
	case kStack:
		return paren(0, join(" > ", 1))
	case kNamed:
		return paren(3, t.s+"="+t.sub[0].str(5))
	case kQuant:
		op := fmt.Sprintf("{%d,%d}", t.min, t.max)
		switch [2]int{t.min, t.max} {
		case [2]int{0, 0}:
			op = "*"
		case [2]int{1, 0}:
			op = "+"
		case [2]int{0, 1}:
			op = "?"
		}
		if t.max == 0 && t.min > 1 {
			op = fmt.Sprintf("{%d,}", t.min)
		}
		return paren(3, t.sub[0].str(4)+op)
	case kDelim:
		op := map[int]string{0: ":", 1: ":>", -1: "<:"}[t.assoc]
		if t.lead {
			op += ","
		}
		tr := ""
		if t.trail {
			tr = ","
		}
		return paren(3, t.sub[0].str(4)+op+t.sub[1].str(4)+tr)
	case kRef:
		if t.def != nil {
			return "%" + t.s + "=" + t.def.str(5)
		}
		return "%" + t.s
	case kExt:
		return "%%" + t.s
	case kLook:
		return "(?=" + t.sub[0].str(0) + ")"
	case kScoped:
		var sb strings.Builder
		for _, r := range t.rules {
			fmt.Fprintf(&sb, "%s -> %s; ", r.name, r.t.str(0))
		}
		return "(" + t.sub[0].str(2) + " {" + sb.String() + "})"
	case kCut:
		return "‹cut " + t.sub[0].str(0) + "›"
	case kArg:
		return t.s
	case kMacro:
		var ps []string
		for _, s := range t.sub {
			l := 0
			if s.any(func(t *gterm) bool { return t.k == kDelim }) {
				l = 4 // a trailing separator's comma
			}
			ps = append(ps, s.str(l))
		}
		return "%!" + t.s + "(" + strings.Join(ps, ", ") + ")"
	}
	panic("str")
}

func (g *gram) String() string { return g.text() }

// ---------------------------------------------------------------- parser terms

func (g *gram) terms() parser.Grammar {
	g = g.plain()
	out := parser.Grammar{}
	for _, r := range g.rules {
		out[parser.Rule(r.name)] = r.t.term()
	}
	if g.wrap != "" {
		out[parser.WrapRE] = parser.RE(g.wrap)
	}
	return out
}

func (t *gterm) term() parser.Term {
	subs := func() []parser.Term {
		out := make([]parser.Term, 0, len(t.sub))
		for _, s := range t.sub {
			out = append(out, s.term())
		}
		return out
	}
	switch t.k {
	case kS:
		return parser.S(t.s)
	case kRE:
		return parser.RE(t.s)
	case kRule:
		return parser.Rule(t.s)
	case kSeq:
		return parser.Seq(subs())
	case kOneof:
		return parser.Oneof(subs())
	case kStack:
		return parser.Stack(subs())
	case kNamed:
		return parser.Eq(t.s, t.sub[0].term())
	case kQuant:
		return parser.Quant{Term: t.sub[0].term(), Min: t.min, Max: t.max}
	case kDelim:
		return parser.Delim{Term: t.sub[0].term(), Sep: t.sub[1].term(), Assoc: parser.Associativity(t.assoc), CanStartWithSep: t.lead, CanEndWithSep: t.trail}
	case kRef:
		r := parser.REF{Ident: t.s}
		if t.def != nil {
			r.Default = t.def.term()
		}
		return r
	case kExt:
		return parser.ExtRef(t.s)
	case kLook:
		return parser.LookAhead{Term: t.sub[0].term()}
	case kScoped:
		g := parser.Grammar{}
		for _, r := range t.rules {
			g[parser.Rule(r.name)] = r.t.term()
		}
		return parser.ScopedGrammar{Term: t.sub[0].term(), Grammar: g}
	case kCut:
		return parser.CutPoint{Term: t.sub[0].term()}
	}
	panic("term")
}

// ---------------------------------------------------------------- inputs

type deriver struct {
	c      *Ctx
	rules  map[string]*gterm
	stacks map[string][]*gterm
	budget int
	pump   int // repeats one unbounded repetition this often
	most   int
	vals   map[string]string
	esc    func() string
	ext    func(name string) string
}

// derive writes a text the grammar probably accepts.
func (g *gram) derive(c *Ctx, rule string, ext func(name string) string, esc func() string) string {
	return g.derivePumped(c, rule, ext, esc, 0)
}

// derivePumped repeats one of the repetitions pump times.
func (g *gram) derivePumped(c *Ctx, rule string, ext func(name string) string, esc func() string, pump int) string {
	g = g.plain()
	d := &deriver{c: c, rules: map[string]*gterm{}, budget: 60, pump: pump, most: 60, vals: map[string]string{}, ext: ext, esc: esc}
	for _, r := range g.rules {
		d.rules[r.name] = r.t
	}
	var sb strings.Builder
	d.walk(&gterm{k: kRule, s: rule}, nil, 0, &sb)
	s := sb.String()
	if g.wrap != "" && c.Chance(1, 2, "space") && len(s) > 0 {
		i := c.Draw(len(s)+1, "space at")
		s = s[:i] + " " + s[i:]
	}
	return s
}

// level carries the enclosing stack so that @ can be followed.
type level struct {
	st *gterm
	i  int
}

func (d *deriver) walk(t *gterm, lv *level, depth int, sb *strings.Builder) {
	d.budget--
	if d.budget < -200 || depth > 14 || sb.Len() > d.most {
		return
	}
	if d.esc != nil && d.budget > 0 && (t.k == kRule || t.k == kSeq || t.k == kOneof || t.k == kRE) && d.c.Chance(1, 12, "esc?") {
		sb.WriteString(d.esc())
		return
	}
	switch t.k {
	case kS:
		sb.WriteString(t.s)
	case kRE:
		sb.WriteString(d.sample(t.s))
	case kRule:
		if t.s == "@" {
			if lv != nil {
				j := (lv.i + 1) % len(lv.st.sub)
				d.walk(lv.st.sub[j], &level{lv.st, j}, depth+1, sb)
			}
			return
		}
		r := d.rules[t.s]
		if r == nil {
			return
		}
		if r.k == kStack {
			d.walk(r.sub[0], &level{r, 0}, depth+1, sb)
		} else {
			d.walk(r, nil, depth+1, sb)
		}
	case kSeq:
		for _, s := range t.sub {
			d.walk(s, lv, depth+1, sb)
		}
	case kOneof:
		i := 0
		if d.budget > 0 {
			i = d.c.Draw(len(t.sub), "alt")
		} else {
			i = len(t.sub) - 1
		}
		d.walk(t.sub[i], lv, depth+1, sb)
	case kStack:
		d.walk(t.sub[0], &level{t, 0}, depth+1, sb)
	case kDelim:
		if t.lead && d.c.Chance(1, 3, "lead") {
			d.walk(t.sub[1], lv, depth+1, sb)
		}
		d.walk(t.sub[0], lv, depth+1, sb)
		for n := d.c.Draw(3, "seps"); n > 0 && d.budget > 0; n-- {
			a := sb.Len()
			d.walk(t.sub[1], lv, depth+1, sb)
			d.walk(t.sub[0], lv, depth+1, sb)
			d.repeat(a, sb)
		}
		if t.trail && d.c.Chance(1, 3, "trail") {
			d.walk(t.sub[1], lv, depth+1, sb)
		}
	case kQuant:
		n := t.min
		if d.budget > 0 {
			n += d.c.Draw(3, "reps")
		}
		if t.max > 0 && n > t.max {
			n = t.max
		}
		for ; n > 0; n-- {
			a := sb.Len()
			d.walk(t.sub[0], lv, depth+1, sb)
			if t.max == 0 {
				d.repeat(a, sb)
			}
		}
	case kNamed:
		a := sb.Len()
		d.walk(t.sub[0], lv, depth+1, sb)
		d.vals[t.s] = sb.String()[a:]
	case kRef:
		if v, ok := d.vals[t.s]; ok {
			sb.WriteString(v)
		} else if t.def != nil {
			d.walk(t.def, lv, depth+1, sb)
		}
	case kExt:
		if d.ext != nil {
			sb.WriteString(d.ext(t.s))
		}
	case kLook:
	case kScoped:
		saved := map[string]*gterm{}
		for _, r := range t.rules {
			saved[r.name] = d.rules[r.name]
			d.rules[r.name] = r.t
		}
		d.walk(t.sub[0], lv, depth+1, sb)
		for k, v := range saved {
			d.rules[k] = v
		}
	case kCut:
		d.walk(t.sub[0], lv, depth+1, sb)
	}
}

// repeat writes what was written since a once more, many times.
func (d *deriver) repeat(a int, sb *strings.Builder) {
	s := sb.String()[a:]
	if d.pump == 0 || s == "" || len(s) > 12 || !d.c.Chance(1, 2, "pump here") {
		return
	}
	sb.WriteString(strings.Repeat(s, d.pump))
	d.most += len(s) * d.pump
	d.pump = 0
}

func (d *deriver) sample(re string) string {
	pool := []string{"a", "b", "c", "1", "x", "y", "ab", "abc", "", "xy", "xz", "abab", "bb", "42"}
	re = `\A(?:` + re + `)\z`
	r := regexp.MustCompile(re)
	k := d.c.Draw(len(pool), "re sample")
	for i := range pool {
		if s := pool[(k+i)%len(pool)]; r.MatchString(s) {
			return s
		}
	}
	return "a"
}

// mutate perturbs a text.
func mutate(c *Ctx, s string) string {
	for n := c.Weighted("mutations", 6, 3, 1); n > 0; n-- {
		switch c.Draw(3, "mutation") {
		case 0: // drop
			if len(s) > 0 {
				i := c.Draw(len(s), "at")
				s = s[:i] + s[i+1:]
			}
		case 1: // insert
			i := c.Draw(len(s)+1, "at")
			s = s[:i] + literals[c.Draw(len(literals), "ins")] + s[i:]
		case 2: // truncate
			if len(s) > 0 {
				s = s[:c.Draw(len(s), "cut at")]
			}
		}
	}
	return s
}
