package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// The reference model: an interpreter of the simulator's own grammars that
// shares no code with the parser. It fixes ordered choice, greedy repetition,
// commitment, back-references, escapes and host callbacks.

// ---------------------------------------------------------------- values

type mval interface{ canon(sb *strings.Builder) }

type mleaf struct {
	s   string
	off int
}
type mnode struct {
	tag, extra string
	kids       []mval
}
type mempty struct{}
type mhost struct{ id int }
type mnil struct{}

func (v mleaf) canon(sb *strings.Builder)  { fmt.Fprintf(sb, "%q@%d", v.s, v.off) }
func (v mempty) canon(sb *strings.Builder) { sb.WriteString("<>") }
func (v mhost) canon(sb *strings.Builder)  { fmt.Fprintf(sb, "h%d", v.id) }
func (v mnil) canon(sb *strings.Builder)   { sb.WriteString("nil") }
func (v *mnode) canon(sb *strings.Builder) {
	fmt.Fprintf(sb, "(%s|%s", v.tag, v.extra)
	for _, k := range v.kids {
		sb.WriteByte(' ')
		k.canon(sb)
	}
	sb.WriteByte(')')
}

func canonM(v mval) string {
	var sb strings.Builder
	v.canon(&sb)
	return sb.String()
}

// hostVal is what callbacks return.
type hostVal struct{ id int }

func (hostVal) IsTreeElement() {}

func canonTree(e parser.TreeElement) string {
	var sb strings.Builder
	canonTreeTo(&sb, e)
	return sb.String()
}

func canonTreeTo(sb *strings.Builder, e parser.TreeElement) {
	switch e := e.(type) {
	case nil:
		sb.WriteString("nil")
	case parser.Node:
		fmt.Fprintf(sb, "(%s|", e.Tag)
		switch x := e.Extra.(type) {
		case nil:
		case parser.Choice:
			fmt.Fprintf(sb, "c%d", int(x))
		case parser.Associativity:
			fmt.Fprintf(sb, "a%d", int(x))
		default:
			fmt.Fprintf(sb, "?%T", x)
		}
		for _, k := range e.Children {
			sb.WriteByte(' ')
			canonTreeTo(sb, k)
		}
		sb.WriteByte(')')
	case parser.Scanner:
		fmt.Fprintf(sb, "%q@%d", e.String(), e.Offset())
	case parser.Empty:
		sb.WriteString("<>")
	case hostVal:
		fmt.Fprintf(sb, "h%d", e.id)
	default:
		fmt.Fprintf(sb, "?%T", e)
	}
}

// ---------------------------------------------------------------- grammar

type menv struct {
	rules  map[string]*gterm
	parent *menv
	wrap   string
	subs   map[*gterm]*menv
}

func newEnv(rules []grule, wrap string, parent *menv) *menv {
	e := &menv{rules: map[string]*gterm{}, parent: parent, wrap: wrap, subs: map[*gterm]*menv{}}
	if wrap == "" && parent != nil {
		e.wrap = parent.wrap
	}
	for _, r := range rules {
		if r.t.k != kStack {
			e.rules[r.name] = r.t
			continue
		}
		at := r.name
		for i, l := range r.t.sub {
			next := r.name
			if j := (i + 1) % len(r.t.sub); j > 0 {
				next = fmt.Sprintf("%s@%d", r.name, j)
			}
			e.rules[at] = resolveAt(l, next)
			at = next
		}
	}
	return e
}

// resolveAt replaces @ in a level of a precedence stack.
func resolveAt(t *gterm, next string) *gterm {
	switch t.k {
	case kRule:
		if t.s == "@" {
			return &gterm{k: kRule, s: next}
		}
		return t
	case kCut:
		return resolveAt(t.sub[0], next) // commitments are not kept in levels
	case kScoped, kStack:
		panic("model: not allowed in a level")
	case kRef:
		return t
	}
	if len(t.sub) == 0 {
		return t
	}
	c := *t
	c.sub = nil
	for _, s := range t.sub {
		c.sub = append(c.sub, resolveAt(s, next))
	}
	return &c
}

func (e *menv) scoped(t *gterm) *menv {
	if s := e.subs[t]; s != nil {
		return s
	}
	s := newEnv(t.rules, "", e)
	e.subs[t] = s
	return s
}

// lookup finds a rule's body and the name its nodes get.
func (e *menv) lookup(name string) (*gterm, *menv, string) {
	as := name
	for n := 0; e != nil; {
		t, ok := e.rules[name]
		if !ok {
			e = e.parent
			as = name // a name of a rule outside gives way to that rule's own
			continue
		}
		if t.k != kRule {
			return t, e, as
		}
		// another name of a rule
		if n++; n > 40 {
			panic(leftRec{name})
		}
		name = t.s
	}
	return nil, nil, ""
}

// commits: success of this item of a sequence commits the rest of it.
func (e *menv) commits(t *gterm) bool {
	switch t.k {
	case kCut:
		return true
	case kNamed:
		return e.commits(t.sub[0])
	case kScoped:
		return e.scoped(t).commits(t.sub[0])
	case kRule:
		if b, be, _ := e.lookup(t.s); b != nil {
			return be.commits(b)
		}
	}
	return false
}

// ---------------------------------------------------------------- scope

type bind struct {
	name string
	val  mval // nil: bound to something that is not a value
	next *bind
}

func (b *bind) get(name string) (mval, bool) {
	for ; b != nil; b = b.next {
		if b.name == name {
			return b.val, true
		}
	}
	return nil, false
}

const (
	cutNone = iota
	cutOwned
	cutForced
)

type mscope struct {
	b   *bind
	cut int
}

// ---------------------------------------------------------------- outcomes

const (
	fSoft = iota
	fHard
	fStop
)

// mfail is a failure. raw: the callback's own error comes through unchanged.
type mfail struct {
	class int
	why   []mwhy
	deep  int // levels of the report
	raw   bool
	unc   bool // the raw error is an UnconsumedInputError
	call  int
}

// mwhy is one thing a failure report has to name: a terminal that did not match
// where rest was left of the input, or a text.
type mwhy struct {
	want, rest string
	tok        bool
}

const (
	oOK = iota
	oErr
	oStop
	oUnconsumed
	oOldFatal
	oOldSoft
	oNested
)

var outNames = []string{"success", "error", "stop", "unconsumed", "earlier fatal error", "earlier parse error", "nested parse"}

type outcome struct {
	kind   int
	n      int // bytes consumed
	val    int // 0 host value, 1 the text, 2 a node around the text, 3 nil
	nested *nestedSpec
}

type nestedSpec struct {
	g       int // which grammar
	exts    bool
	inPlace bool // parse on the callback's own scanner
	convert bool // turn unconsumed input into success
}

type mcall struct {
	name  string
	pos   int
	binds string
	skip  string // a name whose binding is not comparable
	depth int
	out   outcome
}

type escSpec struct{ open, close string }

// mgram is a grammar the model can run.
type mgram struct {
	g     *gram
	env   *menv
	names []string // names whose bindings callbacks observe
	cuts  []string // literals that commit because they occur once (text route)
}

// newMgram prepares a grammar; text: as the text compiler would build it.
func newMgram(g *gram, text bool) *mgram {
	g = g.plain()
	if text {
		g = textGrammar(g)
	}
	m := &mgram{g: g, env: newEnv(g.rules, g.wrap, nil)}
	seen := map[string]bool{"unbound": true}
	var walk func(t *gterm)
	rule := func(r grule) {
		seen[r.name] = true
		if r.t.k == kStack {
			for i := 1; i < len(r.t.sub); i++ {
				seen[fmt.Sprintf("%s@%d", r.name, i)] = true
			}
		}
	}
	walk = func(t *gterm) {
		if t.k == kNamed {
			seen[t.s] = true
		}
		for _, s := range t.sub {
			walk(s)
		}
		for _, r := range t.rules {
			rule(r)
			walk(r.t)
		}
	}
	for _, r := range g.rules {
		rule(r)
		walk(r.t)
	}
	for n := range seen {
		m.names = append(m.names, n)
	}
	sort.Strings(m.names)
	return m
}

// textGrammar: sequences and choices of one collapse, and literals that occur
// once in the whole grammar become commitments.
func textGrammar(g *gram) *gram {
	out := &gram{wrap: g.wrap}
	for _, r := range g.rules {
		out.rules = append(out.rules, grule{r.name, collapse(r.t)})
	}
	count := map[string]int{}
	var walk func(t *gterm)
	walk = func(t *gterm) {
		switch t.k {
		case kS:
			count[t.s]++
		case kRef:
			if t.def != nil {
				walk(t.def)
			}
		case kDelim:
			if t.lead || t.trail {
				walk(t.sub[1])
			}
		}
		for _, s := range t.sub {
			walk(s)
		}
		for _, r := range t.rules {
			walk(r.t)
		}
	}
	for _, r := range out.rules {
		walk(r.t)
	}
	var fix func(t *gterm) *gterm
	fix = func(t *gterm) *gterm {
		switch t.k {
		case kS:
			if count[t.s] == 1 {
				return &gterm{k: kCut, sub: []*gterm{t}}
			}
			return t
		case kLook, kRef:
			return t
		}
		c := *t
		c.sub = nil
		for _, s := range t.sub {
			c.sub = append(c.sub, fix(s))
		}
		c.rules = nil
		for _, r := range t.rules {
			c.rules = append(c.rules, grule{r.name, fix(r.t)})
		}
		return &c
	}
	for i, r := range out.rules {
		out.rules[i].t = fix(r.t)
	}
	return out
}

func collapse(t *gterm) *gterm {
	if (t.k == kSeq || t.k == kOneof) && len(t.sub) == 1 {
		return collapse(t.sub[0])
	}
	c := *t
	c.sub = nil
	for _, s := range t.sub {
		c.sub = append(c.sub, collapse(s))
	}
	c.rules = nil
	for _, r := range t.rules {
		c.rules = append(c.rules, grule{r.name, collapse(r.t)})
	}
	return &c
}

// ---------------------------------------------------------------- the run

type tooLong struct{}

// leftRec: a rule was entered again and again without taking input.
type leftRec struct{ rule string }

type active struct {
	t   *gterm
	pos int
}

type model struct {
	src   string
	grams []*mgram
	cur   *mgram
	exts  map[string]bool
	esc   *escSpec
	calls []*mcall
	draw  func(m *model, c *mcall, escape bool)
	steps int
	max   int
	depth int // recursion
	nest  int // parses inside callbacks
	fails int // alternatives and repetitions abandoned after a commitment
	backs int
	live  bool // whether callbacks are attached

	active map[active]int // not nil: look for left recursion

	oldFatal, oldSoft []mwhy // what the earlier errors callbacks return again have to name
}

type mresult struct {
	class string // ok unconsumed soft hard stop
	val   mval
	pos   int
	fail  *mfail
}

func (r mresult) String() string {
	if r.val != nil {
		return fmt.Sprintf("%s at %d: %s", r.class, r.pos, canonM(r.val))
	}
	return r.class
}

// run parses src from pos with a rule of the current grammar.
func (m *model) run(rule string, pos int) mresult {
	v, p, f := m.parse(&gterm{k: kRule, s: rule}, "", m.cur.env, mscope{}, pos)
	if f != nil {
		r := mresult{class: []string{"soft", "hard", "stop"}[f.class], fail: f}
		if f.unc {
			r.class = "raw unconsumed"
		}
		return r
	}
	if p == len(m.src) {
		return mresult{class: "ok", val: v, pos: p}
	}
	return mresult{class: "unconsumed", val: v, pos: p}
}

var reCache = map[string]*regexp.Regexp{}

func cachedRE(s string) *regexp.Regexp {
	if r := reCache[s]; r != nil {
		return r
	}
	r := regexp.MustCompile(s)
	reCache[s] = r
	return r
}

func (m *model) judge(sc mscope, why []mwhy, deep int) *mfail {
	if sc.cut == cutForced {
		m.fails++
		return &mfail{class: fHard, why: why, deep: deep + 1}
	}
	return &mfail{class: fSoft, why: why, deep: deep + 1}
}

func says(s string) []mwhy { return []mwhy{{want: s}} }

// token matches a terminal.
func (m *model) token(re, wrap string, pos int) (mval, int, bool) {
	pre := "(" + re + ")"
	if wrap != "" {
		pre = strings.Replace(wrap, "()", "(?:"+pre+")", 1)
	}
	loc := cachedRE(`(?m)\A` + pre).FindStringSubmatchIndex(m.src[pos:])
	if loc == nil {
		return nil, pos, false
	}
	g := len(loc) - 2
	return mleaf{m.src[pos+loc[g] : pos+loc[g+1]], pos + loc[g]}, pos + loc[1], true
}

func identOf(t *gterm) string {
	switch t.k {
	case kNamed, kRule:
		return t.s
	case kQuant:
		return identOf(t.sub[0])
	}
	return ""
}

// escape handles the escape check every construct makes first. own: the name
// under which the construct hides the binding from the callback.
func (m *model) escape(sc mscope, own string, pos int) (v mval, np int, f *mfail, took bool) {
	if !m.live || m.esc == nil || !strings.HasPrefix(m.src[pos:], m.esc.open) {
		return nil, pos, nil, false
	}
	pos += len(m.esc.open)
	v, pos, f = m.callback("escape", sc, own, pos, true)
	if f != nil {
		return nil, pos, f, true
	}
	if !strings.HasPrefix(m.src[pos:], m.esc.close) {
		return nil, pos, &mfail{class: fSoft, why: says("escape terminator")}, true
	}
	return v, pos + len(m.esc.close), nil, true
}

func (m *model) bindings(sc mscope, own string) string {
	var sb strings.Builder
	for _, n := range m.cur.names {
		if n == own {
			continue
		}
		if v, ok := sc.b.get(n); ok {
			fmt.Fprintf(&sb, "%s=%s;", n, canonM(v))
		}
	}
	return sb.String()
}

func (m *model) callback(name string, sc mscope, own string, pos int, escape bool) (mval, int, *mfail) {
	k := len(m.calls)
	c := &mcall{name: name, pos: pos, skip: own, binds: m.bindings(sc, own), depth: m.nest}
	m.calls = append(m.calls, c)
	if len(m.calls) > 400 {
		panic(tooLong{})
	}
	m.draw(m, c, escape)
	o := c.out
	value := func() mval {
		switch o.val {
		case 1:
			return mleaf{m.src[pos : pos+o.n], pos}
		case 2:
			return &mnode{tag: "h", kids: []mval{mleaf{m.src[pos : pos+o.n], pos}}}
		case 3:
			return mnil{}
		}
		return mhost{k}
	}
	switch o.kind {
	case oOK:
		return value(), pos + o.n, nil
	case oErr:
		return nil, pos, &mfail{class: fSoft, raw: true, call: k, why: says(fmt.Sprintf("callback error %d", k))}
	case oStop:
		return nil, pos, &mfail{class: fStop, raw: true, call: k, why: says(fmt.Sprintf("stop %d", k))}
	case oOldFatal:
		return nil, pos, &mfail{class: fHard, raw: true, call: k, why: m.oldFatal}
	case oOldSoft:
		return nil, pos, &mfail{class: fSoft, raw: true, call: k, why: m.oldSoft}
	case oUnconsumed:
		if escape {
			return value(), pos + o.n, nil
		}
		return nil, pos, &mfail{class: fSoft, raw: true, unc: true, call: k, why: says("unconsumed input")}
	case oNested:
		cur, live := m.cur, m.live
		m.cur, m.live = m.grams[o.nested.g], o.nested.exts
		m.nest++
		r := m.run(m.cur.g.start(), pos)
		m.nest--
		m.cur, m.live = cur, live
		switch r.class {
		case "ok":
			return r.val, r.pos, nil
		case "unconsumed":
			if escape || o.nested.convert {
				return r.val, r.pos, nil
			}
			return nil, pos, &mfail{class: fSoft, raw: true, unc: true, call: k, why: says("unconsumed input")}
		}
		f := *r.fail
		f.raw, f.call = true, k
		if r.fail.raw {
			f.call = r.fail.call
		}
		if f.unc && (escape || o.nested.convert) {
			panic(tooLong{}) // a callback error handed on as an escape's result: outside the model
		}
		return nil, pos, &f
	}
	panic("outcome")
}

func (m *model) parse(t *gterm, tag string, env *menv, sc mscope, pos int) (mval, int, *mfail) {
	m.steps++
	if m.steps > m.max || m.depth > 600 {
		panic(tooLong{})
	}
	switch t.k {
	case kRule:
		b, be, as := env.lookup(t.s)
		if b == nil {
			panic("model: no rule " + t.s)
		}
		// a rule that is another name for a rule is that rule's body under this name
		m.depth++
		if m.active != nil {
			k := active{b, pos}
			if m.active[k]++; m.active[k] > 60 {
				panic(leftRec{t.s})
			}
			defer func() { m.active[k]-- }()
		}
		v, p, f := m.parse(b, as, be, sc, pos)
		m.depth--
		return v, p, f
	case kNamed:
		return m.parse(t.sub[0], t.s, env, sc, pos)
	case kCut:
		return m.parse(t.sub[0], tag, env, sc, pos)
	case kScoped:
		return m.parse(t.sub[0], tag, env.scoped(t), sc, pos)
	case kS, kRE:
		if v, p, f, took := m.escape(sc, tag, pos); took {
			return v, p, f
		}
		re := t.s
		if t.k == kS {
			re = regexp.QuoteMeta(re)
		}
		v, p, ok := m.token(re, env.wrap, pos)
		if !ok {
			return nil, pos, m.judge(sc, []mwhy{{t.s, m.src[pos:], true}}, 0)
		}
		return v, p, nil
	case kSeq:
		if v, p, f, took := m.escape(sc, "", pos); took {
			return v, p, f
		}
		return m.seq(t.sub, nil, tag, env, sc, pos)
	case kOneof:
		if v, p, f, took := m.escape(sc, "", pos); took {
			return v, p, f
		}
		in := sc
		if in.cut != cutNone {
			in.cut = cutOwned
		}
		var why []mwhy
		deep := 0
		for i, s := range t.sub {
			v, p, f := m.parse(s, "", env, in, pos)
			if f == nil {
				return &mnode{or(tag, "|"), fmt.Sprintf("c%d", i), []mval{v}}, p, nil
			}
			if f.class != fSoft {
				return nil, pos, f
			}
			m.backs++
			why = append(why, f.why...)
			deep = max(deep, f.deep)
		}
		return nil, pos, m.judge(sc, why, deep)
	case kQuant:
		if v, p, f, took := m.escape(sc, "", pos); took {
			return v, p, f
		}
		return m.quant(t.min, t.max, tag, env, sc, pos, func(in mscope, pos int) (mval, int, *mfail) {
			return m.parse(t.sub[0], "", env, in, pos)
		})
	case kLook:
		if v, p, f, took := m.escape(sc, "", pos); took {
			return v, p, f
		}
		v, _, f := m.parse(t.sub[0], "", env, sc, pos)
		if f != nil {
			return nil, pos, f
		}
		return &mnode{or(tag, "?="), "", []mval{v}}, pos, nil
	case kDelim:
		if v, p, f, took := m.escape(sc, "", pos); took {
			return v, p, f
		}
		return m.delim(t, tag, env, sc, pos)
	case kRef:
		if v, p, f, took := m.escape(sc, "", pos); took {
			return v, p, f
		}
		bare := newEnv(nil, "", nil)
		if want, ok := sc.b.get(t.s); ok {
			again := again(want)
			if again == nil {
				return nil, pos, &mfail{class: fSoft}
			}
			v, p, f := m.parse(again, t.s, bare, sc, pos)
			if f != nil {
				return nil, pos, f
			}
			if !sameText(v, want) {
				return nil, pos, &mfail{class: fSoft}
			}
			return v, p, nil
		}
		if t.def != nil {
			return m.parse(t.def, t.s, bare, sc, pos)
		}
		return nil, pos, &mfail{class: fSoft}
	case kExt:
		if v, p, f, took := m.escape(sc, "", pos); took {
			return v, p, f
		}
		if !m.live || !m.exts[t.s] {
			return nil, pos, &mfail{class: fHard, why: says(t.s)}
		}
		return m.callback(t.s, sc, "", pos, false)
	}
	panic("model: term")
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// seq parses the items in turn; run, if set, parses item i instead of parse.
func (m *model) seq(items []*gterm, run []func(mscope, int) (mval, int, *mfail), tag string, env *menv, sc mscope, pos int) (mval, int, *mfail) {
	out := &mnode{tag: or(tag, "_")}
	for i, s := range items {
		var v mval
		var p int
		var f *mfail
		if run != nil && run[i] != nil {
			v, p, f = run[i](sc, pos)
		} else {
			v, p, f = m.parse(s, "", env, sc, pos)
		}
		if f != nil {
			if f.class != fSoft {
				return nil, pos, f
			}
			return nil, pos, m.judge(sc, f.why, f.deep)
		}
		if (run == nil || run[i] == nil) && env.commits(s) {
			sc.cut = cutForced
		}
		if id := identOf(s); id != "" {
			sc.b = &bind{id, v, sc.b}
		}
		pos = p
		out.kids = append(out.kids, v)
	}
	return out, pos, nil
}

func (m *model) quant(min, max int, tag string, env *menv, sc mscope, pos int, body func(mscope, int) (mval, int, *mfail)) (mval, int, *mfail) {
	in := sc
	if in.cut != cutNone {
		in.cut = cutOwned
	}
	out := &mnode{tag: or(tag, "?")}
	var why []mwhy
	deep := 0
	for max == 0 || len(out.kids) < max {
		m.steps++
		if m.steps > m.max {
			panic(tooLong{})
		}
		v, p, f := body(in, pos)
		if f != nil {
			if f.class != fSoft {
				return nil, pos, f
			}
			why, deep = f.why, f.deep
			break
		}
		if max == 0 && len(out.kids) >= min && p == pos {
			break // no progress: the iterations so far stand
		}
		out.kids = append(out.kids, v)
		pos = p
	}
	if len(out.kids) < min {
		return nil, pos, m.judge(sc, why, deep)
	}
	return out, pos, nil
}

// delim: [sep] (term (sep term)*) [sep], regrouped by associativity.
func (m *model) delim(t *gterm, tag string, env *menv, sc mscope, pos int) (mval, int, *mfail) {
	term, sep := t.sub[0], t.sub[1]
	type fn = func(mscope, int) (mval, int, *mfail)
	opt := func(in mscope, pos int) (mval, int, *mfail) {
		return m.quant(0, 1, "", env, in, pos, func(in mscope, pos int) (mval, int, *mfail) {
			return m.parse(sep, "", env, in, pos)
		})
	}
	rest := func(in mscope, pos int) (mval, int, *mfail) {
		return m.quant(0, 0, "", env, in, pos, func(in mscope, pos int) (mval, int, *mfail) {
			return m.seq([]*gterm{sep, term}, nil, "", env, in, pos)
		})
	}
	optT := &gterm{k: kQuant, max: 1, sub: []*gterm{sep}}
	restT := &gterm{k: kQuant, sub: []*gterm{{k: kSeq, sub: []*gterm{sep, term}}}}
	mainT := &gterm{k: kSeq, sub: []*gterm{term, restT}}
	main := func(in mscope, pos int) (mval, int, *mfail) {
		return m.seq([]*gterm{term, restT}, []fn{nil, rest}, "", env, in, pos)
	}
	var items []*gterm
	var runs []fn
	if t.lead {
		items, runs = append(items, optT), append(runs, opt)
	}
	items, runs = append(items, mainT), append(runs, main)
	if t.trail {
		items, runs = append(items, optT), append(runs, opt)
	}
	v, p, f := m.seq(items, runs, tag, env, sc, pos)
	if f != nil {
		return nil, pos, f
	}
	kids := v.(*mnode).kids
	var flat []mval
	if t.lead {
		if s := kids[0].(*mnode).kids; len(s) > 0 {
			flat = append(flat, mempty{}, s[0])
		}
		kids = kids[1:]
	}
	list := kids[0].(*mnode)
	flat = append(flat, list.kids[0])
	for _, x := range list.kids[1].(*mnode).kids {
		flat = append(flat, x.(*mnode).kids...)
	}
	if t.trail {
		if s := kids[1].(*mnode).kids; len(s) > 0 {
			flat = append(flat, s[0], mempty{})
		}
	}
	tg := or(tag, ":")
	switch n := len(flat); {
	case n > 1 && t.assoc > 0:
		v := flat[0]
		for i := 1; i < n; i += 2 {
			v = &mnode{tg, "a1", []mval{v, flat[i], flat[i+1]}}
		}
		return v, p, nil
	case n > 1 && t.assoc < 0:
		v := flat[n-1]
		for i := n - 2; i > 0; i -= 2 {
			v = &mnode{tg, "a-1", []mval{flat[i-1], flat[i], v}}
		}
		return v, p, nil
	}
	return &mnode{tg, "a0", flat}, p, nil
}

// again is the term that matches a value's text again, or nil.
func again(v mval) *gterm {
	switch v := v.(type) {
	case mleaf:
		return &gterm{k: kS, s: v.s}
	case *mnode:
		t := &gterm{k: kSeq}
		for _, k := range v.kids {
			if _, empty := k.(mempty); empty {
				continue
			}
			s := again(k)
			if s == nil {
				return nil
			}
			t.sub = append(t.sub, s)
		}
		return t
	}
	return nil
}

// sameText: the back-reference's match agrees with the value.
func sameText(a, b mval) bool {
	switch a := a.(type) {
	case mleaf:
		b, ok := b.(mleaf)
		return ok && a.s == b.s
	case *mnode:
		b, ok := b.(*mnode)
		if !ok {
			return false
		}
		if len(a.kids) == len(b.kids) {
			for i := range a.kids {
				if !sameText(a.kids[i], b.kids[i]) {
					return false
				}
			}
		}
		return true
	}
	return false
}
