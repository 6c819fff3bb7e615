package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"

	"github.com/arr-ai/wbnf/parser"
	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"
)

// C08: unparsing to a writer that fails.

var errInjected = errors.New("injected write failure")

// what writers report; none of it means anything to the library
var writeErrors = []error{
	errInjected, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress,
	os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC,
	&fs.PathError{Op: "write", Path: "out", Err: syscall.ENOSPC},
	transient{},
}

// transient is an error that says it will pass.
type transient struct{}

func (transient) Error() string   { return "try again" }
func (transient) Temporary() bool { return true }
func (transient) Timeout() bool   { return true }

// faultWriter accepts everything until call number at, of which it takes part
// of the bytes and fails; it records what it accepted.
type faultWriter struct {
	at, take int // take: bytes accepted of the failing call, clipped
	err      error
	calls    int
	failed   bool
	after    int // calls after the failure
	got      []byte
	lens     []int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	k := w.calls
	w.calls++
	if w.failed {
		w.after++
	}
	w.lens = append(w.lens, len(p))
	if k == w.at {
		w.failed = true
		n := w.take
		if n > len(p) {
			n = len(p)
		}
		w.got = append(w.got, p[:n]...)
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

type unparser func(w io.Writer) (int, error)

// leafText is the text of a tree's leaves in document order.
func leafText(e parser.TreeElement, sb *strings.Builder) {
	switch e := e.(type) {
	case parser.Node:
		for _, ch := range e.Children {
			leafText(ch, sb)
		}
	case parser.Scanner:
		sb.WriteString(e.String())
	}
}

func init() {
	register(&Prop{
		ID: "C08", Level: "fault_enumeration", Quick: 20, Thorough: 600,
		Rule:    "a run counts when a tree of at least two write calls was unparsed with a fault placed in every write call",
		Real:    "grammar compilation, parsing, Unparse of every term (parser package), the core wbnf grammar",
		Stub:    "the destination writer (simulated, fails on command)",
		Measure: "distinct (sequence of write lengths, failing call, bytes accepted, kind of failure)",
		Assumptions: []string{
			"writers obey io.Writer: a call that accepts fewer bytes than given returns an error",
			"trees are those whose terms the library can unparse: no external references, scoped grammars or associative delimiters",
		},
		Run: runC08,
	})
}

func runC08(c *Ctx) {
	var up unparser
	var tree parser.TreeElement
	var what string
	strict := true
	if c.Chance(1, 5, "core grammar") {
		// the tree of a grammar text under the library's own grammar
		g := genGrammar(c, genOpt{text: true, macros: true, stacks: true, delims: true, sepEdges: true, assoc: true, refs: true, look: true, maxRules: 4, depth: 3, wrap: true})
		text := g.text()
		core := wbnf.Core()
		t, err := core.Parse("grammar", parser.NewScanner(text))
		if err != nil {
			c.Fail("core-rejects", "the core grammar rejects a well-formed grammar: %v\n%s", err, text)
		}
		tree, what = t, text
		up = func(w io.Writer) (int, error) { return core.Unparse(tree, w) }
		c.Logf("core grammar text %q", text)
		strict = false // the core grammar has optional separators
	} else {
		o := genOpt{text: true, cuts: true, stacks: true, delims: true, look: true, maxRules: 4, depth: 3, wrap: true}
		if c.Chance(1, 3, "anything") {
			// every term there is; what of their trees can be unparsed is the library's to say
			strict = false
			o.refs, o.anyRef, o.sepEdges, o.assoc, o.scoped, o.macros = true, true, true, true, true, true
		}
		g := genGrammar(c, o)
		var ps parser.Parsers
		if c.Chance(1, 3, "text route") && !hasCut(g) {
			p, err := wbnf.Compile(g.text(), nil)
			if err != nil {
				return // the generated grammar is one the validator refuses
			}
			ps = p
		} else {
			ps = g.terms().Compile(nil)
		}
		in := mutate(c, g.derive(c, g.start(), nil, nil))
		var t parser.TreeElement
		var err error
		if !bounded(500000, func() { t, err = ps.Parse(parser.Rule(g.start()), parser.NewScanner(in)) }) {
			c.Probe("parse too expensive")
			return
		}
		if err != nil {
			c.Probe("input rejected")
			return
		}
		n, ok := t.(parser.Node)
		if !ok {
			n2 := t.(parser.Scanner)
			tree = n2
			term := ps.Grammar()[parser.Rule(g.start())]
			up = func(w io.Writer) (int, error) { return term.Unparse(ps.Grammar(), tree, w) }
		} else {
			tree = n
			switch {
			case ps.HasRule(parser.Rule(n.Tag)) && c.Chance(1, 2, "by tag"):
				up = func(w io.Writer) (int, error) { return ps.Unparse(tree, w) }
			case ps.HasRule(parser.Rule(n.Tag)) && c.Chance(1, 2, "by grammar"):
				up = func(w io.Writer) (int, error) { return ps.Grammar().Unparse(tree, w) }
			default:
				term := ps.Grammar()[parser.Rule(g.start())]
				up = func(w io.Writer) (int, error) { return term.Unparse(ps.Grammar(), tree, w) }
			}
		}
		what = in
		c.Logf("grammar %s", g)
		c.Logf("input %q", in)
	}

	// fault-free
	full := &faultWriter{at: -1}
	var n int
	var err error
	if !strict {
		if !tryPanics(func() { n, err = up(full) }) {
			c.Probe("tree the library cannot unparse")
			return
		}
	} else {
		n, err = up(full)
	}
	c.Logf("fault-free: %d calls, n=%d err=%v text %q", full.calls, n, err, full.got)
	if err != nil {
		c.Fail("error-without-fault", "unparse of %q failed without a fault: %v", what, err)
	}
	if n != len(full.got) {
		c.Fail("count-without-fault", "unparse of %q reported %d bytes, the writer accepted %d (%q)", what, n, len(full.got), full.got)
	}
	var leaves strings.Builder
	leafText(tree, &leaves)
	if strict && leaves.String() != string(full.got) {
		c.Fail("text-without-fault", "unparse wrote %q, the tree's leaves are %q", full.got, leaves.String())
	}
	// the result may be written through a buffer as well
	var sb strings.Builder
	n2, err2 := up(&sb)
	if n2 != n || err2 != nil || sb.String() != string(full.got) {
		c.Fail("writer-dependent", "unparse to a buffer: n=%d err=%v %q; to a writer: n=%d %q", n2, err2, sb.String(), n, full.got)
	}
	if full.calls == 0 {
		return
	}
	// a fault in every write call (sampled where there are many)
	calls := full.calls
	step := 1
	if calls > 40 {
		step = 1 + c.Draw(calls/20, "stride")
	}
	kinds := 0
	for k := c.Draw(step, "first"); k < calls; k += step {
		l := full.lens[k]
		for _, take := range takes(l) {
			kind := c.Draw(len(writeErrors), "error kind")
			e := writeErrors[kind]
			w := &faultWriter{at: k, take: take, err: e}
			n, err := up(w)
			switch {
			case l == 0:
				c.Fault("error on zero-length write")
			case take == 0:
				c.Fault("write error, nothing accepted")
			case take < l:
				c.Fault("short write")
			default:
				c.Fault("write error after accepting everything")
			}
			c.State(fmt.Sprint(full.lens, k, take, kind))
			kinds++
			c.Logf("fault at call %d (%d bytes), %d accepted: n=%d err=%v calls after %d", k, l, take, n, err, w.after)
			if err == nil {
				c.Fail("error-swallowed", "unparse of %q: write %d of %d failed (%v) but unparse reported success, n=%d", what, k, calls, e, n)
			}
			if err != e {
				c.Fail("error-replaced", "unparse of %q: write %d failed with %v, unparse returned %v", what, k, e, err)
			}
			if w.after > 0 {
				c.Fail("write-after-failure", "unparse of %q: %d writes after write %d failed", what, w.after, k)
			}
			if n != len(w.got) {
				c.Fail("count-at-fault", "unparse of %q: write %d of %d failed after %d of its %d bytes; reported count %d, the writer accepted %d", what, k, calls, take, l, n, len(w.got))
			}
			if !strings.HasPrefix(string(full.got), string(w.got)) {
				c.Fail("not-a-prefix", "unparse of %q wrote %q before failing, not a prefix of %q", what, w.got, full.got)
			}
		}
	}
	if kinds > 0 && calls >= 2 {
		c.Nontrivial()
		c.Sample("%q: %d write calls, %d faults placed", what, calls, kinds)
	}
	// and the same unparse afterwards, without a fault
	again := &faultWriter{at: -1}
	if n, err := up(again); err != nil || n != len(full.got) || string(again.got) != string(full.got) {
		c.Fail("after-faults", "unparse after faults: n=%d err=%v %q, before: %q", n, err, again.got, full.got)
	}
}

func takes(l int) []int {
	switch l {
	case 0:
		return []int{0}
	case 1:
		return []int{0, 1}
	}
	return []int{0, l / 2, l}
}

func hasCut(g *gram) bool {
	for _, r := range g.rules {
		if termHas(r.t, kCut) {
			return true
		}
	}
	return false
}

func termHas(t *gterm, k kind) bool {
	if t == nil {
		return false
	}
	if t.k == k || termHas(t.def, k) {
		return true
	}
	for _, s := range t.sub {
		if termHas(s, k) {
			return true
		}
	}
	for _, r := range t.rules {
		if termHas(r.t, k) {
			return true
		}
	}
	return false
}

// tryPanics runs f and reports whether it returned.
func tryPanics(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, stop := r.(hook.StepLimit); stop {
				panic(r)
			}
			if v, is := r.(violationPanic); is {
				panic(v)
			}
			ok = false
		}
	}()
	f()
	return true
}
