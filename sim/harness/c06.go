package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	hook "github.com/arr-ai/wbnf/verifsimhook"
	"github.com/arr-ai/wbnf/wbnf"
)

// C06: imports under file-system faults.

type impFile struct {
	name    string   // path below the scratch directory, "" for the root text
	stmts   []string // productions and macros, in order
	imports []int    // indices into files
	spell   []int    // how each import is spelt
	at      []int    // statement index each import precedes
	bad     bool     // does not parse
	missing bool
	dir     bool // a directory stands in its place
	version int
	twin    bool // has the text of an earlier file
}

type impWorld struct {
	c        *Ctx
	files    []*impFile // 0 is the root text
	resolver int        // 0 nil (paths from the working directory), 1 from the importing file, 2 table, 3 concatenation
	resolves int
	light    bool // many files, each small
}

// names that differ in directory only, and in case only
var impNames = []string{"", "a.wbnf", "b.wbnf", "d/c.wbnf", "d/e/g.wbnf", "A.wbnf", "d/a.wbnf", "d/e/a.wbnf"}

func (iw *impWorld) Resolve(from, path string) string {
	iw.resolves++
	switch iw.resolver {
	case 1:
		return filepath.Join(filepath.Dir(from), path)
	case 2: // a resolver that answers uncleaned absolute paths
		return scratchDir + "/./d/../" + path
	case 3: // as 1, by plain concatenation
		if from == "" {
			return path
		}
		return filepath.Dir(from) + "/" + path
	}
	return path
}

// pathOf spells the import of file j from file i.
func (iw *impWorld) pathOf(i, j, spell int) string {
	p := iw.files[j].name
	if iw.resolver == 1 || iw.resolver == 3 {
		r, err := filepath.Rel(filepath.Dir(iw.files[i].name), p)
		if err != nil {
			panic(err)
		}
		p = r
	}
	switch spell {
	case 1:
		return "./" + p
	case 2:
		return "d/../" + p
	}
	return p
}

func (iw *impWorld) text(i int) string {
	f := iw.files[i]
	var sb strings.Builder
	imp := func(at int) {
		for k, j := range f.imports {
			if f.at[k] == at {
				fmt.Fprintf(&sb, ".import %s;\n", iw.pathOf(i, j, f.spell[k]))
			}
		}
	}
	for n, s := range f.stmts {
		imp(n)
		sb.WriteString(s + "\n")
	}
	imp(len(f.stmts))
	if f.bad {
		sb.WriteString("oops -> ;;\n")
	}
	return sb.String()
}

// reach lists the files the root leads to.
func (iw *impWorld) reach() []int {
	seen := map[int]bool{0: true}
	out := []int{0}
	for n := 0; n < len(out); n++ {
		for _, j := range iw.files[out[n]].imports {
			if !seen[j] {
				seen[j] = true
				out = append(out, j)
			}
		}
	}
	return out
}

func (iw *impWorld) body(i int) []string {
	c := iw.c
	f := iw.files[i]
	o := genOpt{delims: true, refs: true, scoped: true, look: true, stacks: true, assoc: true, maxRules: 1 + c.Draw(2, "big"), depth: 1 + c.Draw(2, "deep"), prefix: fmt.Sprintf("f%dv%d", i, f.version)}
	if iw.light && i > 0 {
		o = genOpt{maxRules: 1, depth: 1, prefix: o.prefix}
	}
	g := genGrammar(c, o)
	var out []string
	if i == 0 {
		// the root uses what it imports
		s := "start -> " + g.start()
		for _, j := range f.imports {
			if !iw.files[j].twin {
				s += fmt.Sprintf(" | f%dentry", j)
			}
		}
		out = append(out, s+";")
	}
	for _, r := range g.rules {
		out = append(out, fmt.Sprintf("%s -> %s;", r.name, r.t.str(0)))
	}
	if i > 0 {
		e := fmt.Sprintf(`f%dentry -> "<%d.%d>" %s`, i, i, f.version, g.start())
		for _, j := range f.imports {
			if j > 0 && !iw.files[j].twin && c.Chance(1, 2, "use import") {
				e += fmt.Sprintf(" | f%dentry", j)
			}
		}
		out = append(out, e+";")
	}
	switch c.Draw(8, "extra") {
	case 1:
		out = append(out, fmt.Sprintf(".macro M%d(x) { x \"m\" x }", i), fmt.Sprintf(`f%dm -> %%!M%d("q");`, i, i))
	case 2:
		out = append(out, "// a comment")
	case 3:
		out = append(out, `.wrapRE -> /{\s*()\s*};`)
	case 4:
		out = append(out, `shared -> "s";`)
	}
	return out
}

func (iw *impWorld) write(i int) {
	f := iw.files[i]
	p := filepath.Join(scratchDir, f.name)
	os.RemoveAll(p)
	if f.missing {
		return
	}
	if f.dir {
		os.MkdirAll(p, 0o755)
		return
	}
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(iw.text(i)), 0o644); err != nil {
		fatalf("%v", err)
	}
}

// alter changes one letter of a file where it stands: its size stays, and (keep)
// its times do.
func (iw *impWorld) alter(i int, keep bool) bool {
	f := iw.files[i]
	p := filepath.Join(scratchDir, f.name)
	st, err := os.Stat(p)
	if err != nil || f.missing || f.dir {
		return false
	}
	changed := false
	for k, s := range f.stmts {
		t := strings.Replace(s, `-> "<`, `-> "[`, 1)
		if t == s {
			t = strings.Replace(s, `-> "[`, `-> "<`, 1)
		}
		if changed = t != s; changed {
			f.stmts[k] = t
			break
		}
	}
	if !changed {
		return false
	}
	h, err := os.OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		fatalf("%v", err)
	}
	if _, err := h.WriteAt([]byte(iw.text(i)), 0); err != nil {
		fatalf("%v", err)
	}
	h.Close()
	if keep {
		if err := os.Chtimes(p, st.ModTime(), st.ModTime()); err != nil {
			fatalf("%v", err)
		}
	}
	return true
}

type impResult struct {
	ps    parser.Parsers
	err   error
	panic any
}

func (iw *impWorld) compile(w *world) (r impResult) {
	var res wbnf.ImportResolver
	if iw.resolver > 0 {
		res = iw
	}
	root := iw.text(0)
	w.during(func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(hook.StepLimit); ok {
					panic(p)
				}
				r.panic = p
			}
		}()
		r.ps, r.err = wbnf.Compile(root, res)
	})
	return
}

// expect compiles the flattened text, without any import.
func (iw *impWorld) expect() (parser.Parsers, []string, error, bool) {
	var flat, names []string
	mustFail := false
	for _, i := range iw.reach() {
		f := iw.files[i]
		flat = append(flat, f.stmts...)
		mustFail = mustFail || f.bad || f.missing || f.dir
	}
	for _, s := range flat {
		if n, _, ok := strings.Cut(s, " -> "); ok {
			names = append(names, n)
		}
	}
	ps, err := wbnf.Compile(strings.Join(flat, "\n"), nil)
	return ps, names, err, mustFail
}

func stmtNames(ps parser.Parsers) []string {
	var out []string
	n, ok := ps.Node().(wbnf.GrammarNode)
	if !ok {
		return nil
	}
	for _, s := range n.AllStmt() {
		if p := s.OneProd(); p != nil {
			out = append(out, p.OneIdent().String())
		}
	}
	return out
}

func sortedCopy(s []string) []string {
	m := append([]string{}, s...)
	for i := range m {
		for j := i; j > 0 && m[j] < m[j-1]; j-- {
			m[j], m[j-1] = m[j-1], m[j]
		}
	}
	return m
}

// judge checks the outcome of a compilation in which the faults in w struck.
func (iw *impWorld) judge(what string, w *world, r impResult, want parser.Parsers, names []string, wantErr error, mustFail bool) {
	c := iw.c
	if r.panic != nil {
		c.Fail("panic", "%s: Compile panicked: %v (faults: %v)", what, r.panic, w.struck)
	}
	for n, k := range w.opened {
		if k > 1 {
			c.Fail("read-twice", "%s: %s was opened %d times in one compilation", what, n, k)
		}
	}
	if len(w.hard) > 0 {
		if r.err == nil {
			c.Fail("fault-ignored", "%s: Compile succeeded although %v", what, w.struck)
		}
		named := false
		for i, k := range w.hard {
			_, name, _ := strings.Cut(k, " ")
			named = named || errors.Is(r.err, w.errnos[i]) || strings.Contains(r.err.Error(), w.errnos[i].Error()) || strings.Contains(r.err.Error(), filepath.Base(name))
		}
		if !named {
			c.Fail("unnamed-fault", "%s: after %v Compile reports %q", what, w.struck, r.err)
		}
		return
	}
	if mustFail {
		if r.err == nil {
			c.Fail("bad-import-accepted", "%s: Compile succeeded although an imported file is missing, unreadable or malformed", what)
		}
		if r.err.Error() == "" {
			c.Fail("unnamed-fault", "%s: the error has no text", what)
		}
		return
	}
	if wantErr != nil {
		if r.err == nil {
			c.Fail("invalid-accepted", "%s: Compile succeeded, but the flattened grammar is invalid: %v", what, wantErr)
		}
		return
	}
	if r.err != nil {
		c.Fail("valid-rejected", "%s: Compile fails with %v (faults: %v), but the flattened grammar is valid", what, r.err, w.struck)
	}
	if !reflect.DeepEqual(r.ps.Grammar(), want.Grammar()) {
		c.Fail("different-grammar", "%s: the compiled grammar\n%v\nis not that of the flattened text\n%v", what, r.ps.Grammar(), want.Grammar())
	}
	if got := stmtNames(r.ps); got != nil && !reflect.DeepEqual(sortedCopy(got), sortedCopy(names)) {
		c.Fail("different-statements", "%s: the compiled grammar's statements define %v, not %v", what, got, names)
	}
	roots := 0
	for _, s := range iw.files[0].stmts {
		if strings.Contains(s, " -> ") {
			roots++
		}
	}
	if got := stmtNames(r.ps); got != nil && !reflect.DeepEqual(got[:roots], names[:roots]) {
		c.Fail("order", "%s: the importing text's rules %v do not come first in %v", what, names[:roots], got)
	}
}

var absOK = regexp.MustCompile(`^[a-zA-Z0-9.:/]+$`)

func runC06(c *Ctx) {
	mode := hook.Suspend()
	defer hook.Resume(mode)
	clearScratch()
	iw := &impWorld{c: c}
	n := 1 + c.Draw(len(impNames)-1, "files")
	shape := c.Weighted("graph", 40, 1, 1)
	if shape > 0 {
		n = 8 + c.Draw(24, "many files")
		iw.light = true
	}
	for i := 0; i <= n; i++ {
		f := &impFile{}
		if i < len(impNames) {
			f.name = impNames[i]
		} else {
			f.name = fmt.Sprintf("%sm%d.wbnf", []string{"", "d/", "d/e/"}[c.Draw(3, "directory")], i)
		}
		iw.files = append(iw.files, f)
	}
	iw.resolver = c.Draw(4, "resolver")
	os.MkdirAll(filepath.Join(scratchDir, "d", "e"), 0o755)
	for i, f := range iw.files {
		switch {
		case shape == 1 && i < n: // one after the other
			f.imports = []int{i + 1}
			f.spell = []int{0}
			continue
		case shape == 2 && i == 0: // all at once
			for j := 1; j <= n; j++ {
				f.imports = append(f.imports, j)
				f.spell = append(f.spell, 0)
			}
			continue
		case shape > 0 && !c.Chance(1, 5, "more imports"):
			continue
		}
		k := c.Draw(4, "imports")
		if i == 0 && k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			f.imports = append(f.imports, 1+c.Draw(n, "import"))
			sp := c.Draw(3, "spelling")
			if sp == 2 && (iw.resolver == 1 || iw.resolver == 3) {
				sp = 1
			}
			f.spell = append(f.spell, sp)
		}
	}
	twin := 0
	if n > 1 && c.Chance(1, 6, "twins") {
		// two files with the same text, byte for byte
		twin = 2 + c.Draw(n-1, "twin")
		iw.files[twin].twin = true
	}
	for i, f := range iw.files {
		f.stmts = iw.body(i)
		if i > 0 && i == twin {
			o := iw.files[1+c.Draw(i-1, "twin of")]
			o.imports, o.spell, o.at = nil, nil, nil
			f.imports, f.spell = nil, nil
			f.stmts = append([]string{}, o.stmts...)
		}
		for range f.imports {
			f.at = append(f.at, c.Draw(len(f.stmts)+1, "import at"))
		}
	}
	if c.Chance(1, 5, "spoilt file") {
		f := iw.files[1+c.Draw(n, "which")]
		switch c.Draw(3, "how") {
		case 0:
			f.missing = true
		case 1:
			f.bad = true
		case 2:
			f.dir = true
		}
	}
	for i := range iw.files[1:] {
		iw.write(i + 1)
	}
	compile := func(w *world) (r impResult) {
		hook.Resume(mode)
		defer hook.Suspend()
		return iw.compile(w)
	}
	for round := 0; ; round++ {
		want, names, wantErr, mustFail := iw.expect()
		c.Logf("round %d: resolver %d, want error %v, must fail %v", round, iw.resolver, wantErr != nil, mustFail)
		for _, i := range iw.reach() {
			f := iw.files[i]
			c.Logf("  file %d %q imports %v spelt %v missing %v bad %v dir %v\n%s", i, f.name, f.imports, f.spell, f.missing, f.bad, f.dir, iw.text(i))
		}
		w0 := newWorld(c)
		r0 := compile(w0)
		c.Logf("  fault-free: %d I/O calls, error %v", len(w0.calls), r0.err != nil)
		iw.judge("without faults", w0, r0, want, names, wantErr, mustFail)
		shape := fmt.Sprint(iw.resolver, wantErr != nil, mustFail)
		for _, i := range iw.reach() {
			shape += fmt.Sprint(i, iw.files[i].imports)
		}
		try := func(w *world, what string) {
			r := compile(w)
			c.Logf("  %s: struck %v -> error %v", what, w.struck, r.err != nil)
			iw.judge(what, w, r, want, names, wantErr, mustFail)
			if len(w.struck) > 0 {
				c.Nontrivial()
				c.State(shape, fmt.Sprint(w.struck))
			}
		}
		if len(w0.calls) > 0 {
			if len(w0.calls) <= 40 && c.Chance(1, 2, "every call") {
				for i, k := range w0.calls {
					fs := faultsFor(k)
					w := newWorld(c)
					f := fs[c.Draw(len(fs), "kind")]
					w.plan[i] = f
					try(w, fmt.Sprintf("%s at call %d (%s)", f.kind, i, k))
				}
			} else {
				for k := 1 + c.Draw(3, "plans"); k > 0; k-- {
					w := newWorld(c)
					w.drawPlan(c, w0.calls)
					try(w, "a plan of faults")
				}
			}
			if c.Chance(1, 3, "persistent") {
				w := newWorld(c)
				kind := []ioFault{{kind: "always short (1 byte)", cap: 1}, {kind: "always short (3 bytes)", cap: 3}}[c.Draw(2, "persistent kind")]
				cp := kind
				w.always = func(k ioCall) *ioFault {
					if k.op == "read" {
						return &cp
					}
					return nil
				}
				try(w, "short reads throughout")
			}
			// the fault has gone
			w := newWorld(c)
			r := compile(w)
			iw.judge("after the fault", w, r, want, names, wantErr, mustFail)
			if r.err != nil && r0.err != nil && r.err.Error() != r0.err.Error() {
				c.Fail("history", "the same compilation reports %q first and %q later", r0.err, r.err)
			}
			c.Sample("%d files, %d I/O calls, resolver %d", len(iw.reach()), len(w0.calls), iw.resolver)
		}
		if round >= 2 || !c.Chance(1, 2, "files change") {
			return
		}
		// some files change; the next compilation must see them
		for k := 1 + c.Draw(2, "changed"); k > 0; k-- {
			i := 1 + c.Draw(n, "which")
			f := iw.files[i]
			f.version++
			how := c.Draw(8, "change")
			if how >= 6 && iw.alter(i, how == 7) {
				c.Fault("file changed in place, size and times unchanged")
				continue
			}
			switch how {
			case 0:
				f.missing = !f.missing
			case 1:
				f.bad = !f.bad
			default:
				f.missing, f.bad, f.dir = false, false, false
			}
			f.twin = false
			f.stmts = iw.body(i)
			for k := range f.at {
				f.at[k] = min(f.at[k], len(f.stmts))
			}
			iw.write(i)
		}
		c.Fault("file changed between compilations")
	}
}

func init() {
	register(&Prop{
		ID: "C06", Level: "fault_enumeration", Quick: 25, Thorough: 900, Limit: 200_000_000,
		Rule:    "a run counts when at least one I/O call of a compilation with imports was struck by a fault",
		Real:    "grammar compiler, import loader, validator, parser; real files in a scratch directory",
		Stub:    "the system-call boundary (open and read answers drawn by the simulator), the import resolver",
		Measure: "distinct (import graph, resolver, verdict, faults that struck and where)",
		Assumptions: []string{
			"a file whose read ends early without an error is a shorter file; such reads are not injected",
			"the operating system's own short reads and EINTR are passed to Go's runtime, which resumes them",
			"file identity is the cleaned path: links and case-insensitive names are not generated",
		},
		Setup: setupScratch,
		Run:   runC06,
	})
}
