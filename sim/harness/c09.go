//go:build simgen

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"

	"verifsim/gen/expr"
	"verifsim/gen/jsn"
	"verifsim/gen/scope"
	"verifsim/gen/tree"
)

// C09: walks that visitors stop. The visitors are the simulator's: each call
// gets the answer the run's plan prescribes.

type walkPkg struct {
	name  string
	parse func(string) (any, error)
	text  func(c *Ctx) (string, map[string][]string) // an input and its leaves by node type
	ops   reflect.Type
	iface reflect.Type
	stop  reflect.Type
	// the package's own stoppers
	exiter, aborter any
}

func pkgOf[Ops any, W any, S any](name string, parse func(string) (any, error), exiter, aborter any, text func(c *Ctx) (string, map[string][]string)) *walkPkg {
	return &walkPkg{name, parse, text, reflect.TypeFor[Ops](), reflect.TypeFor[W](), reflect.TypeFor[S](), exiter, aborter}
}

type simStopper struct {
	exit, abort bool
	id          int
}

func (s *simStopper) ExitNode() bool { return s.exit }
func (s *simStopper) Abort() bool    { return s.abort }

// sent writes a random sentence and remembers its leaves.
type sent struct {
	c      *Ctx
	sb     strings.Builder
	leaves map[string][]string
	budget int
}

func (s *sent) w(t string) { s.sb.WriteString(t) }
func (s *sent) leaf(typ, text string) {
	s.sb.WriteString(text + " ")
	s.leaves[typ] = append(s.leaves[typ], text)
}
func (s *sent) n(max int, l string) int {
	if s.budget <= 0 {
		return 0
	}
	s.budget--
	return s.c.Draw(max, l)
}

func (s *sent) jsn(depth int) {
	k := s.n(5, "value")
	if depth <= 0 && k < 2 {
		k = 3
	}
	switch k {
	case 1:
		s.w("[")
		for i := s.n(4, "elems"); i >= 1; i-- {
			s.jsn(depth - 1)
			if i > 1 {
				s.w(",")
			}
		}
		s.w("]")
	case 2:
		s.leaf("StrNode", []string{`""`, `"a"`, `"bc"`}[s.n(3, "str")])
	case 3:
		s.w([]string{"true", "false", "null"}[s.n(3, "op")] + " ")
	case 4:
		s.w("{")
		for i := 1 + s.n(3, "pairs"); i >= 1; i-- {
			s.leaf("StrNode", []string{`"k"`, `"l"`, `"m"`}[s.n(3, "key")])
			s.w(": ")
			s.jsn(depth - 1)
			if i > 1 {
				s.w(", ")
			}
		}
		s.w("}")
	default:
		s.leaf("NumNode", []string{"1", "23", "0"}[s.n(3, "num")])
	}
}

func (s *sent) expr(depth int) {
	k := s.n(6, "expr")
	if depth <= 0 {
		k %= 2
	}
	switch k {
	case 1:
		s.leaf("IdentNode", []string{"a", "b1", "h"}[s.n(3, "ident")])
	case 2:
		s.expr(depth - 1)
		s.w("+")
		s.expr(depth - 1)
	case 3:
		s.w("(")
		s.expr(depth - 1)
		s.w("- ")
		s.expr(depth - 1)
		s.w(")")
	case 4:
		s.leaf("NumNode", "7")
		s.w("* ")
		s.leaf("IdentNode", "c")
	case 5:
		s.w("-(")
		s.expr(depth - 1)
		s.w(")")
	default:
		s.leaf("NumNode", []string{"1", "23", "0"}[s.n(3, "num")])
	}
}

func (s *sent) stmt(depth int) {
	k := s.n(3, "stmt")
	if depth <= 0 {
		k %= 2
	}
	switch k {
	case 1:
		s.w("print ")
		for i := 1 + s.n(3, "args"); i >= 1; i-- {
			s.expr(2)
			if i > 1 {
				s.w(",")
			}
		}
		s.w("; ")
	case 2:
		s.w("while ")
		s.expr(1)
		s.w("{ ")
		for i := s.n(3, "body"); i >= 1; i-- {
			s.stmt(depth - 1)
		}
		s.w("} ")
	default:
		s.leaf("IdentNode", []string{"a", "b", "c"}[s.n(3, "lhs")])
		s.w("= ")
		s.expr(2)
		s.w("; ")
	}
}

func (s *sent) word() { s.leaf("WordNode", []string{"x", "yy", "zed"}[s.n(3, "word")]) }
func (s *sent) entry() {
	s.word()
	s.w("= ")
	for i := 1 + s.n(3, "values"); i >= 1; i-- {
		if s.n(2, "quoted") == 1 {
			s.w("'")
			s.word()
			s.w("' ")
		} else {
			s.word()
		}
	}
	s.w(". ")
}

func (s *sent) section() {
	s.w("[")
	s.word()
	s.w("] ")
	if s.n(2, "head") == 1 {
		s.w("<")
		for i := 1 + s.n(3, "words"); i >= 1; i-- {
			s.word()
		}
		s.w(">")
	}
	if s.n(2, "tail") == 1 {
		s.w("(")
		for i := 1 + s.n(3, "entries"); i >= 1; i-- {
			s.entry()
			if i > 1 {
				s.w(",")
			}
		}
		s.w(")")
	}
}

func (s *sent) elem(depth int) {
	if depth <= 0 || s.n(3, "elem") == 0 {
		s.leaf("LeafNode", []string{"a", "b2", "3"}[s.n(3, "leaf")])
		return
	}
	s.w("(")
	s.leaf("LabelNode", []string{"A", "BC", "D"}[s.n(3, "label")])
	for i := s.n(4, "kids"); i >= 1; i-- {
		s.elem(depth - 1)
	}
	if s.n(2, "deco") == 1 {
		s.w("!")
		s.leaf("LabelNode", "Q")
		if s.n(2, "b") == 1 {
			s.w("?")
			s.leaf("LabelNode", "R")
		}
		s.w("<")
		s.leaf("LeafNode", "l")
		s.w(",")
		s.leaf("LeafNode", "r")
		s.w("> ")
	}
	s.w(") ")
}

func sentence(f func(s *sent)) func(c *Ctx) (string, map[string][]string) {
	return func(c *Ctx) (string, map[string][]string) {
		s := &sent{c: c, leaves: map[string][]string{}, budget: 60}
		f(s)
		return s.sb.String(), s.leaves
	}
}

var walkPkgs = []*walkPkg{
	pkgOf[wbnf.WalkerOps, wbnf.IsWalkableType, wbnf.Stopper]("wbnf", func(t string) (any, error) { return wbnf.ParseString(t) }, wbnf.NodeExiter, wbnf.Aborter, func(c *Ctx) (string, map[string][]string) {
		g := genGrammar(c, genOpt{delims: true, sepEdges: true, refs: true, scoped: true, look: true, stacks: true, assoc: true, exts: []string{"e"}, wrap: true, maxRules: 3, depth: 3})
		t := g.text()
		switch c.Draw(4, "extra") {
		case 1:
			t += ".macro M(x, y) { x \"m\" y }\nm -> %!M(\"q\", r0);\n"
		case 2:
			t = "// note\n" + t + ".import a/b.wbnf;\n"
		case 3:
			t += "z -> (@:\"+\" > \"1\") | ();\n"
		}
		l := map[string][]string{}
		for i := strings.Count(t, `"`) / 2; i > 0; i-- {
			l["StrNode"] = append(l["StrNode"], "")
		}
		for i := strings.Count(t, "/{"); i > 0; i-- {
			l["ReNode"] = append(l["ReNode"], "")
		}
		return t, l
	}),
	pkgOf[jsn.WalkerOps, jsn.IsWalkableType, jsn.Stopper]("jsn", func(t string) (any, error) { return jsn.ParseString(t) }, jsn.NodeExiter, jsn.Aborter, sentence(func(s *sent) { s.jsn(4) })),
	pkgOf[expr.WalkerOps, expr.IsWalkableType, expr.Stopper]("expr", func(t string) (any, error) { return expr.ParseString(t) }, expr.NodeExiter, expr.Aborter, sentence(func(s *sent) {
		for i := 1 + s.n(3, "stmts"); i >= 1; i-- {
			s.stmt(2)
		}
	})),
	pkgOf[scope.WalkerOps, scope.IsWalkableType, scope.Stopper]("scope", func(t string) (any, error) { return scope.ParseString(t) }, scope.NodeExiter, scope.Aborter, sentence(func(s *sent) {
		for i := 1 + s.n(4, "items"); i >= 1; i-- {
			if s.n(2, "section") == 1 {
				s.section()
			} else {
				s.entry()
			}
		}
	})),
	pkgOf[tree.WalkerOps, tree.IsWalkableType, tree.Stopper]("tree", func(t string) (any, error) { return tree.ParseString(t) }, tree.NodeExiter, tree.Aborter, sentence(func(s *sent) { s.elem(4) })),
}

type wev struct {
	exit  bool
	typ   string
	key   string
	match int // Enter of a node with children: its Exit
	node  reflect.Value
}

func (e wev) String() string {
	return map[bool]string{false: "Enter", true: "Exit"}[e.exit] + e.typ + " " + e.key
}

func nodeKey(v reflect.Value) string {
	s := fmt.Sprint(v.Field(0).Interface())
	return strings.Join(strings.Fields(s), " ")
}

// walk runs one walk of root with the visitors on, which answer says.
func (p *walkPkg) walk(root reflect.Value, on func(field string) bool, answer func(exit bool, v reflect.Value) any) any {
	ops := reflect.New(p.ops).Elem()
	for i := 0; i < p.ops.NumField(); i++ {
		f := p.ops.Field(i)
		if !on(f.Name) {
			continue
		}
		exit := strings.HasPrefix(f.Name, "Exit")
		ops.Field(i).Set(reflect.MakeFunc(f.Type, func(a []reflect.Value) []reflect.Value {
			out := reflect.New(p.stop).Elem()
			if s := answer(exit, a[0]); s != nil {
				out.Set(reflect.ValueOf(s))
			}
			return []reflect.Value{out}
		}))
	}
	return ops.MethodByName("Walk").Call([]reflect.Value{root})[0].Interface()
}

func (p *walkPkg) inner(t reflect.Type) bool {
	_, ok := p.ops.MethodByName("Walk" + t.Name())
	return ok
}

type wnode struct {
	v      reflect.Value
	groups [][]*wnode
}

// tree builds what is to be visited from the nodes' typed accessors.
func (p *walkPkg) tree(v reflect.Value) *wnode {
	n := &wnode{v: v}
	if !p.inner(v.Type()) {
		return n
	}
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 {
			continue
		}
		rt := m.Type.Out(0)
		var g []*wnode
		switch {
		case strings.HasPrefix(m.Name, "All") && rt.Kind() == reflect.Slice && rt.Elem().Implements(p.iface):
			r := v.Method(i).Call(nil)[0]
			for k := 0; k < r.Len(); k++ {
				g = append(g, p.tree(r.Index(k)))
			}
		case strings.HasPrefix(m.Name, "One") && rt.Kind() == reflect.Pointer && rt.Elem().Implements(p.iface):
			if _, both := t.MethodByName("All" + m.Name[3:]); both {
				continue
			}
			if r := v.Method(i).Call(nil)[0]; !r.IsNil() {
				g = append(g, p.tree(r.Elem()))
			}
		}
		if len(g) > 0 {
			n.groups = append(n.groups, g)
		}
	}
	return n
}

// check that log is a walk of n; returns the rest of the log.
func (p *walkPkg) check(n *wnode, log []wev, at int) (int, string) {
	name, key := n.v.Type().Name(), nodeKey(n.v)
	if at >= len(log) || log[at].exit || log[at].typ != name || log[at].key != key {
		return at, fmt.Sprintf("the walk does not enter %s %s", name, key)
	}
	start := at
	at++
	if !p.inner(n.v.Type()) {
		return at, ""
	}
	groups := append([][]*wnode{}, n.groups...)
	for at < len(log) && !log[at].exit {
		found := false
		for i, g := range groups {
			if len(g) > 0 && g[0].v.Type().Name() == log[at].typ && nodeKey(g[0].v) == log[at].key {
				var e string
				if at, e = p.check(g[0], log, at); e != "" {
					return at, e
				}
				groups[i] = g[1:]
				found = true
				break
			}
		}
		if !found {
			return at, fmt.Sprintf("inside %s %s the walk visits, out of turn: %s", name, key, log[at])
		}
	}
	for _, g := range groups {
		if len(g) > 0 {
			return at, fmt.Sprintf("the walk of %s %s does not visit %s %s", name, key, g[0].v.Type().Name(), nodeKey(g[0].v))
		}
	}
	if at >= len(log) || log[at].typ != name || log[at].key != key {
		return at, fmt.Sprintf("the walk does not exit %s %s", name, key)
	}
	log[start].match = at
	return at + 1, ""
}

const (
	wNone = iota
	wAbort
	wExit
	wNeither
)

func runC09(c *Ctx) {
	p := walkPkgs[c.Draw(len(walkPkgs), "walker")]
	mode := hook.Suspend()
	text, leaves := p.text(c)
	tree, err := p.parse(text)
	hook.Resume(mode)
	if err != nil {
		c.Probe("inputs not parsed")
		return
	}
	root := reflect.ValueOf(tree)
	c.Logf("%s walker over %q", p.name, text)
	all := func(string) bool { return true }
	record := func(root reflect.Value) []wev {
		var log []wev
		ret := p.walk(root, all, func(exit bool, v reflect.Value) any {
			log = append(log, wev{exit, v.Type().Name(), nodeKey(v), -1, v})
			return nil
		})
		if ret != nil {
			c.Fail("return", "%s: a walk nobody stopped returns %v (input %q)", p.name, ret, text)
		}
		return log
	}
	log := record(root)
	count := map[string][]string{}
	for _, e := range log {
		if !e.exit && leaves[e.typ] != nil {
			count[e.typ] = append(count[e.typ], e.key)
		}
	}
	for _, t := range sortedKeys(leaves) {
		if len(count[t]) != len(leaves[t]) {
			c.Fail("leaves", "%s: the walk of %q visits %d nodes of type %s, the input has %d", p.name, text, len(count[t]), t, len(leaves[t]))
		}
		if p.name != "wbnf" {
			var got, want []string
			for _, k := range count[t] {
				got = append(got, k[strings.Index(k, "‣")+len("‣"):])
			}
			for _, l := range leaves[t] {
				want = append(want, l)
			}
			sort.Strings(got)
			sort.Strings(want)
			for i := range got {
				if !strings.HasPrefix(strings.Trim(got[i], "\"`)"), strings.Trim(want[i], "\"`")) && !strings.Contains(got[i], want[i]) {
					c.Fail("leaves", "%s: the walk of %q visits %s %q, the input has %q", p.name, text, t, got, want)
				}
			}
		}
	}
	if rest, e := p.check(p.tree(root), log, 0); e != "" || rest != len(log) {
		if e == "" {
			e = "the walk visits more than the tree"
		}
		c.Fail("visits", "%s: %s (input %q)\n%v", p.name, e, text, log)
	}
	if c.Chance(1, 4, "walk a part") {
		root = log[c.Draw(len(log), "part")].node
		log = record(root)
		if rest, e := p.check(p.tree(root), log, 0); e != "" || rest != len(log) {
			c.Fail("visits", "%s: walking a part: %s (input %q)\n%v", p.name, e, text, log)
		}
	}
	try := func(plan map[int]int, off map[string]bool) {
		own := c.Draw(2, "whose stoppers") == 1
		on := func(f string) bool { return !off[f] }
		// what must happen
		var want []int
		aborted := -1
		for i := 0; i < len(log); i++ {
			e := log[i]
			if off[map[bool]string{false: "Enter", true: "Exit"}[e.exit]+e.typ] {
				continue
			}
			want = append(want, i)
			if plan[i] == wAbort {
				aborted = i
				break
			}
			if plan[i] == wExit && e.match >= 0 {
				i = e.match
			}
		}
		n := 0
		ret := p.walk(root, on, func(exit bool, v reflect.Value) any {
			if n >= len(want) {
				c.Fail("visit-after-stop", "%s: visitor called with %s %s after the walk was to end (plan %v, input %q)", p.name, v.Type().Name(), nodeKey(v), planText(plan, log), text)
			}
			i := want[n]
			n++
			e := log[i]
			if e.exit != exit || e.typ != v.Type().Name() || e.key != nodeKey(v) {
				c.Fail("wrong-visit", "%s: visit %d is (exit %v) %s %s, want %s (plan %v, input %q)", p.name, n-1, exit, v.Type().Name(), nodeKey(v), e, planText(plan, log), text)
			}
			switch plan[i] {
			case wAbort:
				if own {
					return p.aborter
				}
				return &simStopper{abort: true, id: i}
			case wExit:
				if e.match >= 0 {
					if own {
						return p.exiter
					}
					return &simStopper{exit: true, id: i}
				}
			case wNeither:
				if len(log) > 1 { // Walk of a leaf hands its visitor's answer back
					return &simStopper{id: i}
				}
			}
			return nil
		})
		if n != len(want) {
			c.Fail("missing-visit", "%s: the walk ends after %d visits, want %d, the next being %s (plan %v, input %q)", p.name, n, len(want), log[want[n]], planText(plan, log), text)
		}
		if aborted < 0 {
			if ret != nil {
				c.Fail("return", "%s: a walk nobody aborted returns %v (plan %v, input %q)", p.name, ret, planText(plan, log), text)
			}
			return
		}
		if own {
			if ret != p.aborter {
				c.Fail("return", "%s: a walk aborted at %s returns %v (input %q)", p.name, log[aborted], ret, text)
			}
			return
		}
		s, ok := ret.(*simStopper)
		if !ok || !s.abort || s.id != aborted {
			c.Fail("return", "%s: a walk aborted at %s returns %v (input %q)", p.name, log[aborted], ret, text)
		}
	}
	c.State(p.name, fmt.Sprint(log))
	if len(log) <= 40 {
		for i, e := range log {
			try(map[int]int{i: wAbort}, nil)
			c.Fault("visitor aborts")
			if e.match >= 0 {
				try(map[int]int{i: wExit}, nil)
				c.Fault("visitor exits node")
			}
		}
	}
	for k := 0; k < 12; k++ {
		plan := map[int]int{}
		off := map[string]bool{}
		for m := c.Draw(5, "answers"); m > 0; m-- {
			i := c.Draw(len(log), "at")
			plan[i] = []int{wExit, wNeither, wExit, wAbort}[c.Draw(4, "answer")]
			c.Fault([]string{"", "visitor aborts", "visitor exits node", "visitor answers neither"}[plan[i]])
		}
		for m := c.Draw(4, "absent visitors"); m > 0; m-- {
			off[p.ops.Field(c.Draw(p.ops.NumField(), "field")).Name] = true
		}
		try(plan, off)
	}
	if len(log) > 3 {
		c.Nontrivial()
	}
	c.Sample("%s: %d visits of %q", p.name, len(log), text)
}

func planText(plan map[int]int, log []wev) string {
	var ks []int
	for k := range plan {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s at %d (%s); ", []string{"none", "abort", "exit node", "neither"}[plan[k]], k, log[k])
	}
	return sb.String()
}

func init() {
	register(&Prop{
		ID: "C09", Level: "fault_enumeration", Quick: 20, Thorough: 600, Limit: 60_000_000,
		Rule:    "a run counts when a tree of more than three visits was walked with visitors stopping it at different points",
		Real:    "the library's grammar walker and four walkers generated by the working tree's code generator, with their parsers",
		Stub:    "the visitors (simulated: the answer of every call is prescribed)",
		Measure: "distinct (walker, tree walked)",
		Assumptions: []string{
			"the nodes to be visited are those the nodes' typed accessors return, cross-checked with the leaves the input was built from",
			"not decided: ExitNode answered at a leaf or by an exit visitor, an answer that is both",
		},
		Run: runC09,
	})
}
