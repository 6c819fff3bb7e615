package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"
)

// The operations of the library as C01, C02, C03 and C10 use them. A script is
// a list of operations whose operands are results of earlier ones; what an
// operation returns is judged by its canonical form.

type opKind int

const (
	opTerms      opKind = iota // a grammar value built by hand
	opCompile                  // wbnf.Compile of a text
	opCompileG                 // Grammar.Compile of a grammar value
	opParse                    // parse, possibly with callbacks
	opToAST                    // ast.FromParserNode
	opToTree                   // ast.ToParserNode
	opUnparse                  // to a writer that may fail
	opTreeView                 //
	opASTText                  //
	opGramText                 //
	opDiff                     // diff.Grammars
	opNodeDiff                 // diff.NewNodeDiff
	opCodegen                  // everything `gen` writes
	opWalk                     // the grammar walker, visitors may stop or panic
	opNewFromAst               //
	opSelfParse                // wbnf.ParseString
	opErrText                  //
	opASTQuery                 // Which, First, All, Choice, Scanner
	opTreeText                 //
	opCoreParse                // the shared built-in parser
	opGrammarFn                // wbnf.Grammar(): a fresh built-in parser
	opMacro                    // ast.NewExtRefTreeElement
	nOps
)

var opNames = [nOps]string{"terms", "compile text", "compile grammar", "parse", "to AST", "to tree", "unparse", "tree view", "print AST", "print grammar",
	"compare grammars", "compare trees", "generate code", "walk", "grammar from AST", "parse grammar text", "print error", "query AST", "print tree", "parse with core", "built-in grammar", "wrap as external"}

// what an operation needs and gives
const (
	tGram = 1 << iota
	tPS
	tNode // Parsers with a GrammarNode
	tTree
	tAST
	tErr
)

type cbAct struct {
	kind int // 0 take n bytes, 1 error, 2 stop, 3 panic, 4 nested parse, 5 error after taking n bytes, 6 host value
	n    int
}

type opSpec struct {
	kind  opKind
	a, b  int // operands: earlier operations
	g     *gram
	text  string
	rule  string
	in    string
	acts  []cbAct // nil: parse without callbacks
	esc   int     // which of escapeSets
	fail  int     // writer: fails at this call (0: never); walk: stops at this visit
	part  int     // writer: bytes taken by the failing call; walk: 1 abort 2 exit 3 panic
	nest  int     // operation whose parser a nested parse uses (-1: none)
	start int     // scanner handed over starts here
	extra []int
	again int // how often it is repeated
	res   int // import resolver: 0 none, 1 a resolver, n+1 one that panics at its n-th call
}

type opVal struct {
	typ     int
	gr      parser.Grammar
	ps      parser.Parsers
	te      parser.TreeElement
	br      ast.Branch
	node    ast.Node
	err     error
	texts   []string
	scopes  []parser.Scope
	panicky bool
	left    *parser.Scanner // where a parse left its scanner
	bad     string          // an argument was changed
	absent  bool            // an operand was not there
}

type hostPanic struct{ n int }
type softErr struct{ n int }

func (e softErr) Error() string { return fmt.Sprintf("host error %d", e.n) }

type opHost int

func (opHost) IsExtra() {}

// ---------------------------------------------------------------- canonical forms

func canonScanner(s parser.Scanner) string {
	if s.IsNil() {
		return "nil"
	}
	return fmt.Sprintf("%d+%d:%q@%s", s.Offset(), len(s.String()), s.String(), s.Filename())
}

func fullTree(e parser.TreeElement, sb *strings.Builder) {
	switch e := e.(type) {
	case nil:
		sb.WriteString("none")
	case parser.Node:
		fmt.Fprintf(sb, "%s", e.Tag)
		switch x := e.Extra.(type) {
		case nil:
		case ast.Branch:
			sb.WriteString("║")
			canonAST(x, sb)
		default:
			fmt.Fprintf(sb, "║%T:%v", x, x)
		}
		sb.WriteString("[")
		for i, c := range e.Children {
			if i > 0 {
				sb.WriteString(" ")
			}
			fullTree(c, sb)
		}
		sb.WriteString("]")
	case parser.Scanner:
		sb.WriteString(canonScanner(e))
	default:
		fmt.Fprintf(sb, "%T", e)
	}
}

func canonAST(n ast.Node, sb *strings.Builder) {
	switch n := n.(type) {
	case nil:
		sb.WriteString("nil")
	case ast.Branch:
		ks := make([]string, 0, len(n))
		for k := range n {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		sb.WriteString("(")
		for _, k := range ks {
			fmt.Fprintf(sb, "%q:", k)
			switch c := n[k].(type) {
			case ast.One:
				canonAST(c.Node, sb)
			case ast.Many:
				sb.WriteString("[")
				for _, x := range c {
					canonAST(x, sb)
					sb.WriteString(" ")
				}
				sb.WriteString("]")
			default:
				fmt.Fprintf(sb, "%T", c)
			}
			sb.WriteString(" ")
		}
		sb.WriteString(")")
	case ast.Leaf:
		sb.WriteString(canonScanner(parser.Scanner(n)))
	case ast.Extra:
		fmt.Fprintf(sb, "%T:%v", n.Data, n.Data)
	default:
		fmt.Fprintf(sb, "%T", n)
	}
}

func canonScope(s parser.Scope) string {
	var ks []string
	for _, k := range s.Keys().Elements() {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=", k)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(hook.StepLimit); is {
						panic(r)
					}
					sb.WriteString("-")
				}
			}()
			if _, v, ok := s.GetVal(k); ok {
				fullTree(v, &sb)
			}
		}()
		sb.WriteString("; ")
	}
	return sb.String()
}

// canon is everything a user can see of a result.
func (v *opVal) canon() string {
	var sb strings.Builder
	if v.panicky {
		sb.WriteString("panics\n")
	}
	if v.bad != "" {
		sb.WriteString(v.bad + "\n")
	}
	if v.typ&(tGram|tPS) != 0 {
		g := v.gr
		if v.typ&tPS != 0 {
			g = v.ps.Grammar()
		}
		fmt.Fprintf(&sb, "grammar %#v\n", g)
	}
	if v.node != nil {
		sb.WriteString("node ")
		canonAST(v.node, &sb)
		sb.WriteString("\n")
	}
	if v.te != nil {
		sb.WriteString("tree ")
		fullTree(v.te, &sb)
		sb.WriteString("\n")
	}
	if v.br != nil {
		sb.WriteString("ast ")
		canonAST(v.br, &sb)
		sb.WriteString("\n")
	}
	if v.err != nil {
		fmt.Fprintf(&sb, "error %T %s\n", v.err, v.err.Error())
		var u parser.UnconsumedInputError
		if errors.As(v.err, &u) {
			sb.WriteString("residue " + canonScanner(*u.Residue()) + " result ")
			fullTree(u.Result(), &sb)
			sb.WriteString("\n")
		}
	}
	for _, t := range v.texts {
		fmt.Fprintf(&sb, "text %s\n", t)
	}
	for _, s := range v.scopes {
		fmt.Fprintf(&sb, "scope %s\n", canonScope(s))
	}
	return sb.String()
}

var addressRE = regexp.MustCompile(`0x[0-9a-f]{8,}|%!v\(PANIC=`)

// ---------------------------------------------------------------- drawing a script

type opOpt struct {
	minOps, maxOps int
	exts           bool
	invalid        bool // grammar texts with mistakes
	small          bool
	base           int // the first operations are compilations and parses
	bias           []opKind
	only           bool // nothing but bias
	cuts           bool // always with commitments
	again          bool // operations may be repeated many times
}

var mistakes = []string{
	"u1 -> nowhere;\n", "u2 -> \"q\" missing | absent;\n", "r0 -> \"again\";\n", "l1 -> l2 \"a\" | l3; l2 -> l1; l3 -> l3;\n",
	"l4 -> \"z\"? l5; l5 -> l4 | l6; l6 -> l5 l4;\n", "bad -> /{(};\n", "bad2 -> /{[z-a]};\n", "qq -> \"a\"{3,1};\n", "q0 -> \"a\"{0,0};\n",
	".macro M(x) { x x }\nm1 -> %!M(\"a\", \"b\");\n", "m2 -> %!N(\"a\");\n", ".macro M(x, x) { x }\n", "dup -> x=\"a\" x=\"b\" dup2; dup2 -> \"a\";\n",
	".macro P(x) { x \"p\" }\n.macro P(y) { y }\nm3 -> %!P(\"a\");\n", "syntax -> ;\n", "qt -> \"a\"{3,1} \"b\"{3,1} (\"c\"{5,2})?;\n", "h1 -> /{x*} h2; h2 -> /{y?} h1; h3 -> /{(z|)} h3;\n",
	"h4 -> /{^} h5 | h6; h5 -> /{x?} h4; h6 -> /{$} h5 h4;\n", ".macro L0(x) { x %!L1(x) }\n.macro L1(x) { %!L0(x) | %!L1(\"q\") }\n",
	"un3 -> nowhere nowhere absent; un4 -> absent;\n", ".import lib/gone.wbnf;\n", ".import lib/bad.wbnf;\n", ".import lib/dup.wbnf;\n", "nn -> r0=\"x\" r0=\"y\";\n",
	"e1 -> \"unterminated;\n", "ref -> %nope;\n", "s -> ((a));\n",
}

// extras are added to drawn grammars: rules with inputs they take.
var extras = []struct {
	text, rule string
	ins        []string
}{
	{".macro Twice(x, y) { x y x }\nm4 -> %!Twice(\"q\", r0) | %!Twice(/{[0-9]}, \"s\");\n", "m4", []string{"1s2", "qaq", "1s"}},
	{"// a comment\nc1 -> \"c1\" | c2;\nc2 -> /{\\d+ \\_ x} x=\"t\"{2,5} y=(\"u\" | \"v\")+;\n", "c1", []string{"c1", "12 xttuv", "12 xt"}},
	{"exp -> @:\"+\" > @:>\"*\" > @<:\"^\" > \"-\"? @ > /{\\d+} | \"(\" @ \")\";\n", "exp", []string{"1+2*3", "-(1^2^3)*4+5", "1+", "(((1)))*2*3*4+-5"}},
	{"sc -> n:\",\" { n -> k \"=\" v; k -> /{\\w}; v -> k | \"0\"; } ;\n", "sc", []string{"a=b,c=0", "a=", "a=b,,"}},
	{"foo -> fooNode Foo; fooNode -> \"fn\" | FOO; Foo -> x=\"f\" X=\"g\"; FOO -> /{F};\n", "foo", []string{"fnfg", "Ffg", "fn"}},
	{"foo_bar -> fooBar FooBar; fooBar -> /{fb}; FooBar -> x_y=\"1\" xY=\"2\";\n", "foo_bar", []string{"fb12", "fb2"}},
	{"la -> (?=\"k\") /{\\w+} | \"k\" \"l\"; \n", "la", []string{"kq", "l", "k"}},
	{"em -> () | \"em\";\n", "em", []string{"", "em"}},
	{"bk -> q=/{[ab]} \"-\" %q | %zz=\"dflt\" \"end\";\n", "bk", []string{"a-a", "a-b", "dfltend"}},
	{"bl -> \"{\" bl* \"}\" | bw; bw -> /{\\w+} (\"!\" bl)?;\n", "bl", []string{"{a{b c}{}}", "{a!{b!c}}", "{{{", "a!b!c!d"}},
	{"st -> \"if\" st \"then\" st (\"else\" st)? | \"(\" st \")\" | w=/{[xyz]} ((\"=\" | \":=\") w=/{[xyz]})*;\n", "st", []string{"ifxthenyelsez", "if(x=y)thenifythenz", "ifx", "x=y:=z"}},
	{"p1 -> @:\";\" > (\"n\" | \"[\" @ \"]\"):\",\" ;\n", "p1", []string{"n,n;n", "[n]"}},
	{"ws -> \"a\" ws2*; ws2 -> i=\"b\" j=\"c\"? | i=\"d\"; .wrapRE -> /{\\s*()\\s*};\n", "ws", []string{" a b c b d ", "ab"}},
	{".import lib/a.wbnf;\nu8 -> ia ib;\n", "u8", []string{"iaib7", "ibib", "ia"}},
	{".import lib/c.wbnf;\nu9 -> \"u9\" ic;\n", "ic", []string{"ia,ib,ib3", "ia,"}},
	{".import lib/d.wbnf;\n.import lib/b.wbnf\n", "id", []string{"id(id)", "idie", "id(idie"}},
}

// libFiles are what grammars import.
var libFiles = map[string]string{
	"a":   ".import lib/b.wbnf;\nia -> \"ia\" | ib;\n",
	"b":   "ib -> \"ib\" x=/{[0-9]}?;\n",
	"c":   ".import lib/b.wbnf\n.import lib/a.wbnf\nic -> ia:\",\";\n",
	"d":   ".import lib/e.wbnf\nid -> \"id\" ie?;\n",
	"e":   ".import lib/d.wbnf\nie -> \"ie\" | \"(\" id \")\";\n",
	"bad": "oops -> \n",
	"dup": "r0 -> \"dup\";\n",
}

// setupLib makes a directory with the importable files the working directory.
func setupLib() {
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	root := filepath.Join(base, "libroot")
	if _, err := os.Stat(root); err != nil {
		tmp, err := os.MkdirTemp(base, "lib.")
		if err == nil {
			err = os.Mkdir(filepath.Join(tmp, "lib"), 0o755)
		}
		for n, t := range libFiles {
			if err == nil {
				err = os.WriteFile(filepath.Join(tmp, "lib", n+".wbnf"), []byte(t), 0o644)
			}
		}
		if err != nil {
			fatalf("%v", err)
		}
		if os.Rename(tmp, root) != nil {
			os.RemoveAll(tmp) // another process was faster
		}
	}
	if err := os.Chdir(root); err != nil {
		fatalf("%v", err)
	}
}

// opResolver is the host's: it may panic.
type opResolver struct{ n, bad int }

func (r *opResolver) Resolve(from, path string) string {
	r.n++
	if r.n == r.bad {
		panic(hostPanic{r.n})
	}
	return path
}

// renamed gives rules names that collide in generated code.
func renamed(g *gram, names map[string]string) *gram {
	m := func(s string) string {
		if n, ok := names[s]; ok {
			return n
		}
		return s
	}
	var fix func(t *gterm) *gterm
	fixRules := func(rs []grule) (out []grule) {
		for _, r := range rs {
			out = append(out, grule{m(r.name), fix(r.t)})
		}
		return
	}
	fix = func(t *gterm) *gterm {
		c := *t
		if t.k == kRule || t.k == kRef || t.k == kNamed {
			c.s = m(t.s)
		}
		c.sub = nil
		for _, s := range t.sub {
			c.sub = append(c.sub, fix(s))
		}
		c.rules = fixRules(t.rules)
		return &c
	}
	out := &gram{rules: fixRules(g.rules), wrap: g.wrap}
	for _, mc := range g.macros {
		out.macros = append(out.macros, gmacro{mc.name, mc.params, fix(mc.body)})
	}
	return out
}

type script struct {
	ops     []opSpec
	o       opOpt
	base    int // operations before this one are everybody's
	own     []int
	task    int
	once    bool     // operations are not repeated
	plan    []opKind // of the next operations
	near    bool     // the next grammar is a sibling
	tour    int      // how many were planned
	planned bool
	next    []*gram // or these
	oneHost bool    // all parses are handed one table of handlers
	host    parser.ExternalRefs
}

// allowed: operation j may be an operand of the operation being drawn.
func (s *script) allowed(j int) bool { return s.own == nil || j < s.base || s.own[j] == s.task }

func (s *script) gives(i int) int {
	switch s.ops[i].kind {
	case opTerms, opNewFromAst:
		return tGram
	case opCompile:
		return tPS | tGram | tNode | tErr
	case opCompileG, opGrammarFn:
		return tPS | tGram
	case opParse, opCoreParse:
		return tTree | tErr
	case opToAST:
		return tAST
	case opToTree, opMacro:
		return tTree
	case opSelfParse:
		return tAST | tErr
	}
	return 0
}

func (s *script) pick(c *Ctx, want int, label string) int {
	var cand []int
	for i := range s.ops {
		if s.gives(i)&want != 0 && s.allowed(i) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return -1
	}
	if s.planned && c.Chance(2, 3, "latest") {
		return cand[len(cand)-1]
	}
	// the latest first: 0 is the simplest choice
	return cand[len(cand)-1-c.Draw(len(cand), label)]
}

// psOf is the parser a tree or AST operand came from.
func (s *script) psOf(i int) int {
	switch o := s.ops[i]; o.kind {
	case opParse, opToAST, opToTree, opMacro:
		return o.a
	case opCompile, opCompileG, opGrammarFn:
		return i
	}
	return -1
}

func drawGram(c *Ctx, o opOpt) *gram {
	if c.Chance(1, 3, "tiny") {
		o.small = true
	}
	go_ := genOpt{delims: true, sepEdges: true, refs: true, scoped: true, look: true, stacks: true, assoc: true, wrap: true, macros: true, maxRules: 3, depth: 3}
	if o.small {
		go_.depth, go_.maxRules = 2, 2
	}
	if o.exts {
		go_.exts = []string{"e1", "e2"}
	}
	g := genGrammar(c, go_)
	if c.Chance(1, 4, "colliding names") {
		g = renamed(g, []map[string]string{
			{"r1": "foo_bar", "r2": "fooBar"}, {"r1": "foo_bar", "r2": "FOO_BAR"}, {"r1": "foo_bar", "r2": "r0Node"}, {"r1": "foo_bar", "r2": "R0"},
			{"r1": "R0", "r2": "r_0"}, {"n1": "N0", "n3": "N2"}, {"r1": "ab", "r2": "aB", "n0": "Ab", "n1": "aB_"},
		}[c.Draw(7, "collision")])
	}
	return g
}

// withCuts marks commitments that texts cannot express.
func withCuts(c *Ctx, g *gram) *gram {
	g = g.plain()
	g = &gram{rules: append([]grule{}, g.rules...), wrap: g.wrap}
	n := 1 + c.Draw(3, "cuts")
	var fix func(t *gterm) *gterm
	fix = func(t *gterm) *gterm {
		k := *t
		k.sub = nil
		for _, s := range t.sub {
			k.sub = append(k.sub, fix(s))
		}
		if t.k == kS && n > 0 && c.Chance(1, 2, "cut here") {
			n--
			return &gterm{k: kCut, sub: []*gterm{&k}}
		}
		return &k
	}
	for i := range g.rules {
		g.rules[i].t = fix(g.rules[i].t)
	}
	return g
}

// ladder nests commitments in alternatives, so that one that lands in the wrong place shows.
func ladder() *gram {
	S := func(s string) *gterm { return &gterm{k: kS, s: s} }
	cut := func(t *gterm) *gterm { return &gterm{k: kCut, sub: []*gterm{t}} }
	of := func(k kind, ts ...*gterm) *gterm { return &gterm{k: k, sub: ts} }
	r := &gterm{k: kRule, s: "r0"}
	return &gram{rules: []grule{{"r0", of(kOneof,
		of(kSeq, cut(S("a")), r, S("b")),
		of(kSeq, cut(S("[")), &gterm{k: kQuant, sub: []*gterm{r}}, S("]")),
		S("c"), &gterm{k: kRE, s: "[ac]+b?"})}}}
}

func drawScript(c *Ctx, o opOpt) *script {
	s := &script{o: o}
	s.draw(c, o.minOps+c.Draw(o.maxOps-o.minOps+1, "operations"))
	return s
}

// draw adds operations until there are n.
func (s *script) draw(c *Ctx, n int) {
	o := s.o
	var grams []*gram
	for i := range s.ops {
		if s.ops[i].g != nil {
			grams = append(grams, s.ops[i].g)
		}
	}
	tries := 0
	gramOf := func(i int) *gram {
		for i >= 0 {
			if s.ops[i].g != nil {
				return s.ops[i].g
			}
			if s.ops[i].kind == opCompileG {
				i = s.ops[i].a
				continue
			}
			return nil
		}
		return nil
	}
	extraOf := func(i int) []int {
		for s.ops[i].kind == opCompileG {
			i = s.ops[i].a
		}
		return s.ops[i].extra
	}
	for len(s.ops) < n && tries < 60 {
		tries++
		var k opKind
		if s.planned = len(s.plan) > 0; s.planned {
			k = s.plan[0]
			s.plan = s.plan[1:]
			if k < 0 {
				k, s.near = opCompile, true
			}
		} else if len(s.ops) < o.base {
			k = []opKind{opCompile, opParse, opParse, opToAST, opTerms, opCompileG}[len(s.ops)%6]
			if len(s.ops)%6 == 0 && c.Chance(1, 3, "by hand") {
				k = opTerms
			}
		} else if len(o.bias) > 0 && (o.only || c.Chance(1, 2, "biased")) {
			k = o.bias[c.Draw(len(o.bias), "operation")]
		} else {
			k = opKind(c.Draw(int(nOps), "operation"))
		}
		op := opSpec{kind: k, a: -1, b: -1, nest: -1}
		ok := true
		need := func(want int, label string) int {
			i := s.pick(c, want, label)
			if i < 0 {
				ok = false
			}
			return i
		}
		switch k {
		case opTerms, opCompile:
			near := s.near
			s.near = false
			if len(s.next) > 0 {
				op.g = s.next[0]
				s.next = s.next[1:]
				grams = append(grams, op.g)
			} else if len(grams) > 0 && (near || c.Chance(1, 3, "grammar again")) {
				op.g = grams[c.Draw(len(grams), "which")]
				if near || c.Chance(1, 2, "nearly") {
					op.g = sibling(c, op.g)
					grams = append(grams, op.g)
				}
			} else {
				op.g = drawGram(c, o)
				grams = append(grams, op.g)
			}
			if k == opTerms && (o.cuts || c.Chance(1, 4, "cut points")) {
				if c.Chance(1, 3, "ladder") {
					op.g = ladder()
				} else {
					op.g = withCuts(c, op.g)
				}
			}
			if k == opCompile {
				op.text = op.g.text()
				if c.Chance(1, 3, "extras") {
					for m := 1 + c.Draw(3, "extra rules"); m > 0; m-- {
						x := c.Draw(len(extras), "extra")
						op.extra = append(op.extra, x)
						op.text += extras[x].text
					}
				}
				if c.Chance(1, 4, "resolver") {
					op.res = 1 + c.Draw(4, "panics at")
				}
				if o.invalid && len(s.ops) >= o.base && (!s.planned || c.Chance(1, 4, "even here")) && c.Chance(1, 2, "mistakes") {
					for m := 1 + c.Draw(3, "mistakes"); m > 0; m-- {
						op.text += mistakes[c.Draw(len(mistakes), "mistake")]
					}
				}
			}
		case opCompileG:
			op.a = need(tGram, "grammar")
		case opParse:
			if op.a = need(tPS, "parser"); op.a >= 0 {
				g := gramOf(op.a)
				if g == nil {
					op.rule, op.in = "grammar", selfTexts[c.Draw(len(selfTexts), "text")]
					break
				}
				op.rule = g.rules[c.Draw(len(g.rules), "rule")].name
				if xs := extraOf(op.a); len(xs) > 0 && c.Chance(1, 2, "extra rule") {
					x := extras[xs[c.Draw(len(xs), "which")]]
					op.rule, op.in = x.rule, x.ins[c.Draw(len(x.ins), "input")]
				} else {
					op.in = g.derive(c, op.rule, func(string) string { return "7" }, nil)
				}
				if c.Chance(1, 4, "mutate") {
					op.in = mutate(c, op.in)
				}
				if o.exts && (!o.only || c.Chance(1, 4, "host")) && c.Chance(9, 10, "callbacks") {
					op.acts = []cbAct{}
					for m := c.Draw(5, "planned callbacks"); m > 0; m-- {
						op.acts = append(op.acts, cbAct{c.Weighted("act", 12, 2, 1, 1, 2, 1, 2), []int{1, 0, 2}[c.Weighted("bytes", 8, 1, 1)]})
					}
					if c.Chance(1, 6, "escape") {
						op.esc = 1 + c.Weighted("escapes", 5, 2, 1, 1, 1)
					}
					if op.esc > 0 && len(op.in) > 0 {
						at := c.Draw(len(op.in), "escape at")
						op.in = op.in[:at] + "${z}" + op.in[at:]
					}
					op.nest = s.pick(c, tPS, "nested parser")
				}
				op.start = c.Draw(3, "scanner offset")
				if c.Chance(1, 5, "continue") {
					for j := len(s.ops) - 1; j >= 0; j-- {
						if s.ops[j].kind == opParse && s.allowed(j) {
							op.b = j
							break
						}
					}
				}
			}
		case opToAST, opMacro, opUnparse:
			if op.b = need(tTree, "tree"); op.b >= 0 {
				op.a = s.psOf(op.b)
				if c.Chance(1, 8, "another grammar") {
					op.a = s.pick(c, tPS, "grammar")
				}
				ok = op.a >= 0
			}
			if k == opUnparse && c.Chance(1, 2, "writer fails") {
				op.fail, op.part = 1+c.Draw(6, "call"), c.Draw(3, "part")
			}
		case opToTree:
			if op.b = need(tAST, "ast"); op.b >= 0 {
				op.a = s.psOf(op.b)
				ok = op.a >= 0
			}
		case opTreeView, opASTText, opASTQuery:
			op.a = need(tAST|tNode, "ast")
			op.fail = c.Draw(2, "skip")
		case opGramText:
			op.a = need(tGram|tPS, "grammar")
		case opDiff:
			op.a = need(tGram|tPS, "grammar")
			op.b = need(tGram|tPS, "grammar")
		case opNodeDiff:
			op.a = need(tTree, "tree")
			op.b = need(tTree, "tree")
		case opCodegen, opNewFromAst:
			op.a = need(tNode, "grammar")
		case opWalk:
			op.a = need(tNode, "grammar")
			if c.Chance(1, 2, "stop") {
				op.fail, op.part = 1+c.Draw(20, "visit"), 1+c.Draw(3, "how")
			}
		case opSelfParse:
			op.text = selfTexts[c.Draw(len(selfTexts), "text")]
			if len(grams) > 0 && c.Chance(1, 2, "grammar text") {
				op.text = grams[c.Draw(len(grams), "which")].text()
			}
			if c.Chance(1, 4, "mutate") {
				op.text = mutate(c, op.text)
			}
		case opCoreParse:
			op.text = selfTexts[c.Draw(len(selfTexts), "text")]
			if c.Chance(1, 4, "mutate") {
				op.text = mutate(c, op.text)
			}
		case opErrText:
			op.a = need(tErr, "error")
		case opTreeText:
			op.a = need(tTree, "tree")
		}
		if !ok {
			if len(s.ops) == 0 || s.pick(c, tPS, "any") < 0 {
				op = opSpec{kind: opCompile, a: -1, b: -1, nest: -1, g: drawGram(c, o)}
				grams = append(grams, op.g)
				op.text = op.g.text()
			} else {
				n--
				continue
			}
		}
		if o.again && c.Chance(1, 8, "again") {
			op.again = []int{1, 4, 30, 150}[c.Draw(4, "times")]
		}
		s.ops = append(s.ops, op)
		if s.own != nil {
			s.own = append(s.own, s.task)
		}
	}
}

var selfTexts = []string{
	`a -> "x";`, `a -> b c*; b -> "x" | /{y+}; c -> ",";`, `a -> x="1":>"+" > @ "2" > "3";`, `a -> (?="k") %q="d" {1,3};`,
	`a -> b { b -> "c"; } ; .macro M(p) { p } d -> %!M("q") %%ext;`, "// only\na -> ();", `a -> `, `-> "b";`,
}

func (o opSpec) String() string {
	s := opNames[o.kind]
	if o.a >= 0 {
		s += fmt.Sprintf(" #%d", o.a)
	}
	if o.b >= 0 {
		s += fmt.Sprintf(" #%d", o.b)
	}
	switch o.kind {
	case opTerms:
		s += " " + o.g.text()
	case opCompile, opSelfParse, opCoreParse:
		s += " " + o.text
		if o.res > 0 {
			s += fmt.Sprintf(" (resolver %d)", o.res)
		}
	case opParse:
		s += fmt.Sprintf(" rule %s of %q from %d", o.rule, o.in, o.start)
		if o.acts != nil {
			s += fmt.Sprintf(" callbacks %v escape %v", o.acts, o.esc)
		}
	case opUnparse, opWalk:
		s += fmt.Sprintf(" fail at %d (%d)", o.fail, o.part)
	}
	if o.again > 0 {
		s += fmt.Sprintf(", %d times", 1+o.again)
	}
	return s
}

// ---------------------------------------------------------------- execution

const opSteps, canonSteps = 2_000_000, 5_000_000

type opWriter struct {
	buf  bytes.Buffer
	n    int
	fail int
	part int
}

func (w *opWriter) Write(p []byte) (int, error) {
	w.n++
	if w.fail > 0 && w.n >= w.fail {
		k := min(w.part, len(p))
		w.buf.Write(p[:k])
		return k, errors.New("writer failed")
	}
	w.buf.Write(p)
	return len(p), nil
}

// guard runs f, turning the code's panics into a result.
func (v *opVal) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case hook.StepLimit, hook.Deadlock, violationPanic:
				panic(r)
			case hostPanic:
				v.texts = append(v.texts, fmt.Sprintf("host panic %d", r.n))
			}
			v.panicky = true
		}
	}()
	f()
}

// exec performs one operation on the operands get returns.
func (s *script) exec(i int, get func(i int) *opVal) *opVal {
	o := &s.ops[i]
	v := &opVal{}
	var a, b *opVal
	if o.a >= 0 {
		a = get(o.a)
	}
	if o.b >= 0 {
		b = get(o.b)
	}
	absent := func(bad bool) bool {
		v.absent = v.absent || bad
		return bad
	}
	say := func(f string, args ...any) { v.texts = append(v.texts, fmt.Sprintf(f, args...)) }
	switch o.kind {
	case opTerms:
		v.typ, v.gr = tGram, o.g.terms()
	case opCompile:
		v.guard(func() {
			var res wbnf.ImportResolver
			if o.res > 0 {
				res = &opResolver{bad: o.res - 1}
			}
			ps, err := wbnf.Compile(o.text, res)
			if err != nil {
				v.typ, v.err = tErr, err
				return
			}
			v.typ, v.ps, v.gr = tPS|tGram|tNode, ps, ps.Grammar()
			v.node = ps.Node().(wbnf.GrammarNode).Node
		})
	case opCompileG:
		if absent(a.typ&tGram == 0) {
			break
		}
		v.guard(func() {
			v.ps = a.gr.Compile(nil)
			v.typ, v.gr = tPS|tGram, v.ps.Grammar()
		})
	case opGrammarFn:
		v.ps = wbnf.Grammar()
		v.typ, v.gr = tPS|tGram, v.ps.Grammar()
	case opParse:
		if absent(a.typ&tPS == 0 || !a.ps.HasRule(parser.Rule(o.rule))) {
			break
		}
		s.parse(o, a, v, get)
	case opCoreParse:
		v.guard(func() {
			v.te, v.err = wbnf.Core().Parse("grammar", parser.NewScanner(o.text))
			v.typ = tTree | tErr
		})
	case opSelfParse:
		v.guard(func() {
			n, err := wbnf.ParseString(o.text)
			if err != nil {
				v.typ, v.err = tErr, err
				return
			}
			v.typ, v.br = tAST, n.Node.(ast.Branch)
		})
	case opToAST:
		if absent(a.typ&tPS == 0 || b.te == nil) {
			break
		}
		v.guard(func() {
			v.br = ast.FromParserNode(a.ps.Grammar(), b.te)
			v.typ = tAST
		})
	case opMacro:
		if absent(a.typ&tPS == 0 || b.te == nil) {
			break
		}
		v.guard(func() {
			v.te = ast.NewExtRefTreeElement(a.ps.Grammar(), b.te)
			v.typ = tTree
		})
	case opToTree:
		if absent(a.typ&tPS == 0 || b.br == nil) {
			break
		}
		v.guard(func() {
			v.te = ast.ToParserNode(a.ps.Grammar(), b.br)
			v.typ = tTree
		})
	case opUnparse:
		if absent(a.typ&tPS == 0 || b.te == nil) {
			break
		}
		w := &opWriter{fail: o.fail, part: o.part}
		v.guard(func() {
			n, err := a.ps.Unparse(b.te, w)
			say("%d %v", n, err)
		})
		say("%q", w.buf.String())
	case opTreeView, opASTText, opASTQuery:
		var n ast.Node
		if a.br != nil {
			n = a.br
		} else if a.node != nil {
			n = a.node
		}
		if absent(n == nil) {
			break
		}
		switch o.kind {
		case opTreeView:
			v.guard(func() { say("%s", ast.BuildTreeView("root", n, o.fail == 1)) })
		case opASTText:
			v.guard(func() { say("%s", n.String()) })
		default:
			v.guard(func() { say("%s", canonScanner(n.Scanner())) })
			v.guard(func() {
				br := n.(ast.Branch)
				var ks []string
				for k := range br {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					var sb strings.Builder
					for _, x := range ast.All(br, k) {
						canonAST(x, &sb)
					}
					canonAST(ast.First(br, k), &sb)
					say("%s %s", k, sb.String())
				}
				name, _ := ast.Which(br, append(ks, "zz")...)
				say("%s %d %v", name, ast.Choice(br), br.ContentEquals(br))
			})
		}
	case opGramText:
		if absent(a.typ&(tGram|tPS) == 0) {
			break
		}
		v.guard(func() { say("%s", a.gr.String()) })
	case opDiff:
		if absent(a.typ&(tGram|tPS) == 0 || b.typ&(tGram|tPS) == 0) {
			break
		}
		v.guard(func() {
			d := diff.Grammars(a.gr, b.gr)
			say("%v %#v", d.Equal(), d)
		})
	case opNodeDiff:
		an, ok1 := a.te.(parser.Node)
		bn, ok2 := b.te.(parser.Node)
		if absent(!ok1 || !ok2) {
			break
		}
		v.guard(func() {
			d := diff.NewNodeDiff(&an, &bn)
			say("%v %s", d.Equal(), d.String())
		})
	case opCodegen:
		if absent(a.typ&tNode == 0) {
			break
		}
		v.guard(func() {
			var start string
			for _, st := range (wbnf.GrammarNode{Node: a.node}).AllStmt() {
				if p := st.OneProd(); p != nil {
					start = p.OneIdent().String()
					break
				}
			}
			types := codegen.MakeTypes(wbnf.GrammarNode{Node: a.node})
			var buf bytes.Buffer
			err := codegen.Write(&buf, codegen.TemplateData{
				CommandLine: "sim", PackageName: "p", StartRule: codegen.IdentName(start), StartRuleTypeName: codegen.GoTypeName(start),
				Grammar:       codegen.MakeGrammarString(a.gr),
				MiddleSection: append(types.Get(), codegen.GetVisitorWriter(types.Types(), start)),
			})
			say("%v %s", err, buf.String())
		})
	case opNewFromAst:
		if absent(a.typ&tNode == 0) {
			break
		}
		v.guard(func() {
			v.gr = wbnf.NewFromAst(wbnf.GrammarNode{Node: a.node})
			v.typ = tGram
		})
	case opWalk:
		if absent(a.typ&tNode == 0) {
			break
		}
		v.guard(func() { s.walk(o, a, say) })
	case opErrText:
		if absent(a.err == nil) {
			break
		}
		v.guard(func() { say("%s", a.err.Error()) })
	case opTreeText:
		if absent(a.te == nil) {
			break
		}
		v.guard(func() {
			say("%v %[1]q", a.te)
			if n, ok := a.te.(parser.Node); ok {
				var sb strings.Builder
				fullTree(n.Normalize(), &sb)
				say("%s", sb.String())
			}
		})
	}
	return v
}

// escapes a host can hand over: two that are fit, one without an end, one that is no regexp.
var escapeKeys = []string{`*\$\{()\}`, `*<<()>>`, `*\$`, `*(()\}`}

// escapeSets are those handed over together, by opSpec.esc.
var escapeSets = []int{0, 1, 3, 5, 8, 4}

func (s *script) parse(o *opSpec, a, v *opVal, get func(i int) *opVal) {
	pad := strings.Repeat("\n", o.start)
	in := parser.NewScannerWithFilename(pad+o.in, "in.txt").Skip(len(pad))
	if o.b >= 0 {
		if l := get(o.b).left; l != nil {
			cp := *l
			in = &cp
		}
	}
	given := *in
	before := canonScanner(given)
	defer func() {
		cp := *in
		v.left = &cp
		if canonScanner(given) != before {
			v.bad = "a copy of the scanner handed to a parse changed"
		}
	}()
	if o.acts == nil {
		v.guard(func() {
			v.te, v.err = a.ps.Parse(parser.Rule(o.rule), in)
			v.typ = tTree | tErr
		})
		v.texts = append(v.texts, "left "+canonScanner(*in))
		return
	}
	calls := 0
	cb := func(name string) parser.ExternalRef {
		return func(sc parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
			n := calls
			calls++
			v.texts = append(v.texts, fmt.Sprintf("call %s at %s", name, canonScanner(*input)))
			if len(v.scopes) < 6 {
				v.scopes = append(v.scopes, sc)
			}
			act := cbAct{0, 1}
			if n < len(o.acts) {
				act = o.acts[n]
			}
			var took parser.Scanner
			take := func() { input.Eat(min(act.n, len(input.String())), &took) }
			switch act.kind {
			case 1:
				return nil, softErr{n}
			case 2:
				return nil, &stopErr{n}
			case 3:
				panic(hostPanic{n})
			case 4:
				if o.nest >= 0 && calls < 12 {
					if np := get(o.nest); np.typ&tPS != 0 {
						for _, r := range []parser.Rule{"r0", "foo_bar"} {
							if np.ps.HasRule(r) {
								te, err := np.ps.Parse(r, input)
								if err != nil {
									v.texts = append(v.texts, err.Error())
									return nil, err
								}
								return te, nil
							}
						}
					}
				}
				take()
			case 5:
				take()
				return nil, softErr{n}
			case 6:
				take()
				return parser.Node{Tag: "host", Extra: opHost(n)}, nil
			default:
				take()
			}
			return took, nil
		}
	}
	exts := parser.ExternalRefs{}
	if s.oneHost && !s.once {
		// a host that keeps one table of handlers and changes its entries
		if s.host == nil {
			s.host = exts
		}
		exts = s.host
		for k := range exts {
			delete(exts, k)
		}
	}
	exts["e1"], exts["e2"] = cb("e1"), cb("e2")
	for i, k := range escapeKeys {
		if escapeSets[o.esc]&(1<<i) != 0 {
			exts[k] = cb(k)
		}
	}
	n := len(exts)
	defer func() {
		if len(exts) != n || exts["e1"] == nil || exts["e2"] == nil {
			v.bad = "the handlers handed to a parse changed"
		}
	}()
	v.guard(func() {
		v.te, v.err = a.ps.ParseWithExternals(parser.Rule(o.rule), in, exts)
		v.typ = tTree | tErr
	})
	v.texts = append(v.texts, "left "+canonScanner(*in))
}

func (s *script) walk(o *opSpec, a *opVal, say func(string, ...any)) {
	n := 0
	visit := func(what string, x fmt.Stringer) wbnf.Stopper {
		n++
		say("%s %s", what, x)
		if n == o.fail {
			switch o.part {
			case 1:
				return wbnf.Aborter
			case 2:
				return wbnf.NodeExiter
			default:
				panic(hostPanic{n})
			}
		}
		return nil
	}
	ret := wbnf.WalkerOps{
		EnterStmtNode:   func(x wbnf.StmtNode) wbnf.Stopper { return visit("stmt", x.Node) },
		EnterProdNode:   func(x wbnf.ProdNode) wbnf.Stopper { return visit("prod", x.Node) },
		ExitProdNode:    func(x wbnf.ProdNode) wbnf.Stopper { return visit("end prod", x.Node) },
		EnterAtomNode:   func(x wbnf.AtomNode) wbnf.Stopper { return visit("atom", x.Node) },
		EnterQuantNode:  func(x wbnf.QuantNode) wbnf.Stopper { return visit("quant", x.Node) },
		EnterIdentNode:  func(x wbnf.IdentNode) wbnf.Stopper { return visit("ident", x.Node) },
		ExitTermNode:    func(x wbnf.TermNode) wbnf.Stopper { return visit("end term", x.Node) },
		EnterPragmaNode: func(x wbnf.PragmaNode) wbnf.Stopper { return visit("pragma", x.Node) },
	}.Walk(wbnf.GrammarNode{Node: a.node})
	say("%v", ret)
}

// run1 executes operation i within a bound of steps.
func (s *script) run1(i int, get func(i int) *opVal) *opVal {
	var v *opVal
	s0, _ := hook.Steps()
	for n := 0; n <= s.ops[i].again; n++ {
		bad := ""
		if v != nil {
			bad = v.bad
		}
		within(opSteps, func() { v = s.exec(i, get) })
		if bad != "" {
			v.bad = bad
		}
		if s1, _ := hook.Steps(); s.once || s1-s0 > 300_000 {
			break
		}
	}
	return v
}

// cone marks the operations that operation i needs, itself included.
func (s *script) cone(i int, in map[int]bool) {
	if i < 0 || in[i] {
		return
	}
	in[i] = true
	o := &s.ops[i]
	s.cone(o.a, in)
	s.cone(o.b, in)
	s.cone(o.nest, in)
}

// fresh executes operation i and what it needs on new instances.
func (s *script) fresh(i int) *opVal {
	s.once = true
	defer func() { s.once = false }()
	need := map[int]bool{}
	s.cone(i, need)
	memo := map[int]*opVal{}
	for j := 0; j <= i; j++ {
		if need[j] {
			memo[j] = s.run1(j, func(k int) *opVal { return memo[k] })
		}
	}
	return memo[i]
}

// seq executes all operations in order on shared instances.
func (s *script) seq(each func(i int, v *opVal)) []*opVal {
	vals := make([]*opVal, len(s.ops))
	for i := range s.ops {
		vals[i] = s.run1(i, func(j int) *opVal { return vals[j] })
		if each != nil {
			each(i, vals[i])
		}
	}
	return vals
}

// canonWithin: the canonical form.
func canonWithin(v *opVal) (s string) {
	within(canonSteps, func() { s = v.canon() })
	return s
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-120)
	cut := func(s string) string {
		if lo > len(s) {
			return ""
		}
		s = s[lo:]
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		return s
	}
	return fmt.Sprintf("they differ from byte %d:\n--- %q\n+++ %q", i, cut(a), cut(b))
}
