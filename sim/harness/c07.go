package main

import (
	"bytes"
	"fmt"
	goparser "go/parser"
	"go/token"
	"os"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd"
	"github.com/arr-ai/wbnf/parser"
	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"
	"github.com/sirupsen/logrus"
)

// C07: the command-line tool under I/O faults. The tool's Main runs in-process:
// its arguments, standard streams, file calls and exit are the simulator's.

type exited struct{ code int }

type cliRun struct {
	code   int
	out    []byte // what reached the destination
	stdout []byte
	msg    int // bytes of message offered to stdout or stderr
	after  []byte
	exists bool
}

var simStdin, simStdout *os.File

func setupC07() {
	setupScratch()
	simStdin = os.NewFile(fdStdin, "/dev/stdin")
	simStdout = os.NewFile(fdStdout, "/dev/stdout")
}

type cliCase struct {
	args  []string
	stdin []byte
	dest  string // output file, "" for stdout
	old   []byte // its content before, nil: it does not exist
	log   bool
}

// runCLI runs the tool once.
func (k *cliCase) run(c *Ctx, w *world) (r cliRun) {
	if k.dest != "" {
		os.Remove(k.dest)
		if k.old != nil {
			if err := os.WriteFile(k.dest, k.old, 0o644); err != nil {
				fatalf("%v", err)
			}
		}
	}
	args, in, out := os.Args, os.Stdin, os.Stdout
	os.Args, os.Stdin, os.Stdout = append([]string{"wbnf"}, k.args...), simStdin, simStdout
	w.in[fdStdin] = k.stdin
	w.fds[fdStdin] = "stdin"
	w.out[fdStdout] = []byte{}
	w.fds[fdStdout] = "stdout"
	w.out[2] = []byte{}
	os.SimExit = func(code int) { panic(exited{code}) }
	logrus.SetLevel(logrus.InfoLevel)
	// every run of the tool is a new process: chance enters afresh
	pinSeams(uint64(c.Draw(1000, "map seed")), 0, uint64(c.Draw(1000, "random seed")))
	func() {
		defer func() {
			os.Args, os.Stdin, os.Stdout = args, in, out
			os.SimExit = nil
			p := recover()
			switch p := p.(type) {
			case nil:
			case exited:
				r.code = p.code
			case hook.StepLimit:
				panic(p)
			default:
				// the runtime prints the panic and exits with status 2
				r.code = 2
				r.msg = len(fmt.Sprint(p))
			}
		}()
		w.during(func() {
			cmd.Main(cmd.VersionTags{Version: "sim"})
		})
	}()
	logrus.SetLevel(logrus.InfoLevel)
	r.stdout = w.out[fdStdout]
	r.msg += w.tried[2] + w.tried[fdStdout]
	r.out = r.stdout
	if k.dest != "" {
		b, err := os.ReadFile(k.dest)
		r.exists = err == nil
		r.out = b
	}
	return
}

func runC07(c *Ctx) {
	mode := hook.Suspend()
	defer hook.Resume(mode)
	clearScratch()
	iw := &impWorld{c: c, resolver: 0}
	nf := 1
	if c.Chance(1, 2, "imports") {
		nf += 1 + c.Draw(2, "imported files")
	}
	// file 0 is the grammar file itself; the tool resolves imports from the
	// working directory
	names := []string{"g.wbnf", "a.wbnf", "b.wbnf"}
	for i := 0; i < nf; i++ {
		iw.files = append(iw.files, &impFile{name: names[i]})
	}
	for i := 1; i < nf; i++ {
		iw.files[0].imports = append(iw.files[0].imports, i)
		iw.files[0].spell = append(iw.files[0].spell, 0)
	}
	valid := !c.Chance(1, 10, "invalid grammar")
	g := genGrammar(c, genOpt{delims: true, refs: true, scoped: true, stacks: true, maxRules: 2, depth: 2})
	f0 := iw.files[0]
	for _, r := range g.rules {
		f0.stmts = append(f0.stmts, fmt.Sprintf("%s -> %s;", r.name, r.t.str(0)))
	}
	for i := 1; i < nf; i++ {
		iw.files[i].stmts = iw.body(i)
		f0.at = append(f0.at, c.Draw(len(f0.stmts)+1, "import at"))
	}
	f0.bad = !valid
	for i := range iw.files {
		iw.write(i)
	}
	input := mutate(c, g.derive(c, g.start(), nil, nil))
	input = input[:min(len(input), 30)] // the cost of error texts grows with the depth of the parse
	if err := os.WriteFile("in.txt", []byte(input), 0o644); err != nil {
		fatalf("%v", err)
	}
	k := &cliCase{}
	start := g.start()
	if c.Chance(1, 12, "unknown start") {
		start = "nothere"
	}
	gen := c.Draw(2, "command") == 1
	scen := ""
	if gen {
		k.args = []string{[]string{"gen", "g"}[c.Draw(2, "alias")], "--grammar", "g.wbnf", "--pkg", "p", "--start", start}
		switch c.Draw(4, "output") {
		case 0:
			scen = "gen to stdout"
		case 1:
			k.args = append(k.args, "--output", "-")
			scen = "gen to -"
		default:
			k.dest = "out.go"
			k.args = append(k.args, "--output", k.dest)
			scen = "gen to a new file"
			if c.Chance(2, 3, "exists") {
				k.old = bytes.Repeat([]byte("// what was there before\n"), 1+c.Draw(400, "old size"))
				scen = "gen to an existing file"
			}
		}
	} else {
		k.args = []string{[]string{"test", "t"}[c.Draw(2, "alias")]}
		switch c.Draw(4, "input") {
		case 0:
			k.args = append(k.args, "--input", "in.txt", "--grammar", "g.wbnf", "--start", start)
			scen = "test a file"
		case 1:
			k.args = append(k.args, "--grammar", "g.wbnf", "--start", start)
			k.stdin = []byte(input)
			scen = "test stdin"
		case 2:
			k.args = append(k.args, "--input", "g.wbnf")
			scen = "test a grammar file"
		case 3:
			k.args = append(k.args, "--input", "-")
			k.stdin = []byte(iw.text(0))
			scen = "test a grammar from stdin"
		}
		if c.Chance(1, 2, "tree") {
			k.args = append(k.args, "--tree")
		}
		if c.Chance(1, 10, "verbose") {
			k.args = append(k.args, "-v")
		}
	}
	run := func(w *world) cliRun {
		hook.Resume(mode)
		defer hook.Suspend()
		var r cliRun
		old := hook.Budget(20_000_000)
		ended := bounded(20_000_000, func() { r = k.run(c, w) })
		_, over := hook.Steps()
		hook.SetLimit(old)
		if over || !ended {
			panic(tooLong{}) // an input this grammar backtracks over for ever: not this property's concern
		}
		return r
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooLong); !ok {
				panic(r)
			}
			c.Probe("scenario too expensive")
		}
	}()
	c.Logf("%s: %v", scen, k.args)
	for i, f := range iw.files {
		c.Logf("  %s:\n%s", f.name, iw.text(i))
	}
	c.Logf("  input %q", input)
	w0 := newWorld(c)
	ref := run(w0)
	c.Logf("  fault-free: exit %d, %d bytes, %d calls %v", ref.code, len(ref.out), len(w0.calls), w0.calls)
	k.sane(c, scen, gen, g, start, input, iw, ref)
	judge := func(what string, w *world, r cliRun) {
		c.Logf("  %s: struck %v -> exit %d, %d bytes", what, w.struck, r.code, len(r.out))
		if len(w.struck) > 0 {
			c.Nontrivial()
			c.State(scen, ref.code, fmt.Sprint(w.struck))
		}
		if r.code == 0 {
			if len(w.hard) > 0 {
				c.Fail("success-after-fault", "%s %v exits 0 although %v", scen, k.args, w.struck)
			}
			if ref.code != 0 {
				c.Fail("success-of-failing-run", "%s %v exits 0 after %v; without faults it exits %d", scen, k.args, w.struck, ref.code)
			}
			if !bytes.Equal(r.out, ref.out) {
				c.Fail("incomplete-output", "%s %v exits 0 after %v, but the destination has %d bytes that are not the %d of a fault-free run", scen, k.args, w.struck, len(r.out), len(ref.out))
			}
			return
		}
		if r.msg == 0 {
			c.Fail("silent-failure", "%s %v exits %d after %v without a message", scen, k.args, r.code, w.struck)
		}
		reading := len(w.hard) == 0 || strings.HasPrefix(w.hard[0], "open") || strings.HasPrefix(w.hard[0], "read")
		if k.dest != "" && w.wroteTo[k.dest] == 0 && reading {
			if !bytes.Equal(r.out, k.old) || r.exists != (k.old != nil) {
				c.Fail("output-touched", "%s %v fails (%v) before writing, but the output file changed from %d bytes (exists %v) to %d (exists %v)", scen, k.args, w.struck, len(k.old), k.old != nil, len(r.out), r.exists)
			}
		}
	}
	judge("again without faults", newWorld(c), run(newWorld(c)))
	if ref.code != 0 {
		judge("failing run", w0, ref)
	}
	if c.Chance(1, 2, "every call") {
		for i, call := range w0.calls {
			w := newWorld(c)
			fs := faultsFor(call)
			if len(fs) == 0 {
				continue
			}
			f := fs[c.Draw(len(fs), "kind")]
			w.plan[i] = f
			judge(fmt.Sprintf("%s at call %d (%s)", f.kind, i, call), w, run(w))
		}
	} else {
		for n := 1 + c.Draw(4, "plans"); n > 0; n-- {
			w := newWorld(c)
			w.drawPlan(c, w0.calls)
			judge("a plan of faults", w, run(w))
		}
	}
	if c.Chance(1, 4, "persistent") {
		w := newWorld(c)
		n := []int{1, 100, 1000}[c.Draw(3, "accepts")]
		room := 1 + c.Draw(len(ref.out)+10, "room")
		full := c.Chance(1, 2, "fills up")
		short := ioFault{kind: fmt.Sprintf("always short (%d)", n), cap: n}
		dead := faultsFor(ioCall{"write", "", 10})[0]
		w.always = func(x ioCall) *ioFault {
			if x.op != "write" {
				return nil
			}
			if full {
				if room <= 0 {
					return &dead
				}
				f := ioFault{kind: "disk fills up", cap: min(room, x.n)}
				room -= f.cap
				return &f
			}
			return &short
		}
		if n > 1 || full || len(ref.out) < 2000 {
			judge("short writes throughout", w, run(w))
		}
	}
	w := newWorld(c)
	r := run(w)
	judge("after the faults", w, r)
	if r.code != ref.code || !bytes.Equal(r.out, ref.out) {
		c.Fail("history", "%s %v: exit %d with %d bytes at first, exit %d with %d bytes after the faults", scen, k.args, ref.code, len(ref.out), r.code, len(r.out))
	}
	c.Sample("%s, exit %d, %d bytes, %d I/O calls", scen, ref.code, len(ref.out), len(w0.calls))
}

// sane checks that the fault-free output is complete.
func (k *cliCase) sane(c *Ctx, scen string, gen bool, g *gram, start, input string, iw *impWorld, r cliRun) {
	want, _, werr, mustFail := iw.expect()
	ok := werr == nil && !mustFail
	if gen {
		if !ok {
			if r.code == 0 {
				c.Fail("success-on-bad-grammar", "%s %v exits 0 on a grammar that does not compile", scen, k.args)
			}
			return
		}
		if r.code != 0 {
			c.Probe("gen refuses a valid grammar")
			return
		}
		f, err := goparser.ParseFile(token.NewFileSet(), "out.go", r.out, 0)
		if err != nil {
			c.Fail("incomplete-output", "%s %v exits 0, but the generated text is not a Go file: %v", scen, k.args, err)
		}
		if f.Name.Name != "p" {
			c.Fail("incomplete-output", "%s %v: package %s", scen, k.args, f.Name.Name)
		}
		return
	}
	tree := strings.Contains(strings.Join(k.args, " "), "--tree")
	var text string
	code := 0
	switch {
	case !ok:
		code = 1
	case strings.Contains(scen, "grammar"):
		n := want.Node().(wbnf.GrammarNode)
		_ = n
		return // printed from the tree with the imports merged: not rebuilt here
	case !want.HasRule(parser.Rule(start)):
		code = 1
	default:
		var el parser.TreeElement
		var err error
		m := hook.Suspend()
		hook.Resume(1)
		within(3_000_000, func() {
			el, err = want.Parse(parser.Rule(start), parser.NewScannerWithFilename(input, "in.txt"))
		})
		hook.Resume(m)
		if u, is := err.(parser.UnconsumedInputError); is {
			code, el = 1, u.Result()
		} else if err != nil {
			code = 1
		}
		if el == nil || err != nil {
			break
		}
		func() {
			defer func() {
				if recover() != nil {
					code = 1
				}
			}()
			b := ast.FromParserNode(want.Grammar(), el)
			if tree {
				text = fmt.Sprintln(ast.BuildTreeView(start, b, true))
			} else {
				text = fmt.Sprintln(b)
			}
		}()
	}
	if (code == 0) != (r.code == 0) {
		c.Fail("exit-status", "%s %v exits %d without faults, want %d", scen, k.args, r.code, code)
	}
	if code == 0 && string(r.out) != text {
		c.Fail("incomplete-output", "%s %v exits 0 with the output %q, want %q", scen, k.args, r.out, text)
	}
}

func init() {
	register(&Prop{
		ID: "C07", Level: "fault_enumeration", Quick: 25, Thorough: 900, Limit: 400_000_000,
		Rule:    "a run counts when at least one I/O call of the tool was struck by a fault",
		Real:    "the command-line tool (cmd.Main and everything below it), flag parsing, logging, code generator, go/format; real files in a scratch directory",
		Stub:    "the system-call boundary (open, read, write, close answers drawn by the simulator), standard input and output, process exit",
		Measure: "distinct (command and destination, fault-free status, faults that struck and where)",
		Assumptions: []string{
			"the tool runs in-process; an uncaught panic counts as the runtime's exit status 2 with its message",
			"a read that ends early without an error is a shorter file; such reads are not injected",
			"failures of standard error are not injected",
		},
		Setup: setupC07,
		Run:   runC07,
	})
}
