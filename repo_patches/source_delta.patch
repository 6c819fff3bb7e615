From e9e52dad8b66aace95524d5cb9f22c70227ba379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 01/30] fix: report the bytes a failing writer accepted from
 Unparse

---
 parser/unparse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/unparse.go b/parser/unparse.go
index 529e085..087ea65 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -22,9 +22,7 @@ func (t REF) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 
 func unparse(g Grammar, term Term, e TreeElement, w io.Writer, N *int) error {
 	n, err := term.Unparse(g, e, w)
-	if err == nil {
-		*N += n
-	}
+	*N += n
 	return err
 }
 
-- 
2.43.0


From 724c2a1884191758f2c7f5866694ef84a427f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 02/30] fix: resolve a rule wrapped in a cut point

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..0e42dd9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -803,5 +803,7 @@ func (t *cutPointParser) Parse(scope Scope, input *Scanner, output *TreeElement,
 }
 func (t *cutPointParser) AsTerm() Term { return t.t }
 func (t CutPoint) Parser(rule Rule, c cache) Parser {
-	return &cutPointParser{t.Term.Parser(rule, c), t}
+	p := &cutPointParser{t.Term.Parser(rule, c), t}
+	c.registerRule(&p.p)
+	return p
 }
-- 
2.43.0


From 7492dc16ede6fda89f26e49487839fb1a445e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:06 +0000
Subject: [PATCH 03/30] fix: AST conversion no longer adds scoped rules to the
 caller's grammar

---
 ast/from_parsernode.go | 5 ++++-
 ast/to_parsernode.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..8f5c26f 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -135,7 +135,10 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[string(t)])
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..19ffe06 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -105,7 +105,10 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
-- 
2.43.0


From 74d4b081f0f1e2bb632e50fc8dd8942d2a03bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:44 +0000
Subject: [PATCH 04/30] fix: compiling a scoped grammar no longer writes to the
 caller's grammar

The nested .wrapRE that compilation used to add to the caller's grammar is
inherited at compile time anyway, so the generated core grammar drops it.
---
 parser/parser.go    | 1 +
 wbnf/wbnfgrammar.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0e42dd9..a31c665 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -750,6 +750,7 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 	}
 	if wrap, has := c.grammar[WrapRE]; has {
 		if _, has := t.Grammar[WrapRE]; !has {
+			t.Grammar = t.Grammar.clone()
 			t.Grammar[WrapRE] = wrap
 		}
 	}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..b5ae249 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -50,7 +50,7 @@ func Grammar() parser.Parsers {
 			parser.Rule(`atom`)},
 		"pragma": parser.ScopedGrammar{Term: parser.Oneof{parser.Rule(`import`),
 			parser.Rule(`macrodef`)},
-			Grammar: parser.Grammar{".wrapRE": parser.RE(`\s*()\s*`),
+			Grammar: parser.Grammar{
 				"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
 					parser.Eq(`path`,
 						parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
-- 
2.43.0


From 7ce22f35561f9fd3f39e81d82486c59d71af1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 05/30] fix: give every commitment a unique cut-point identity
 instead of a random one

---
 parser/scope.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parser/scope.go b/parser/scope.go
index dfc9ae0..415ae11 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -2,9 +2,9 @@ package parser
 
 import (
 	"fmt"
-	"math/rand"
 	"regexp"
 	"strings"
+	"sync/atomic"
 
 	"github.com/arr-ai/frozen"
 )
@@ -73,17 +73,26 @@ func (s Scope) GetVal(ident string) (Parser, TreeElement, bool) {
 
 const cutpointkey = ".Cutpoint-key."
 
-type Cutpointdata int32
+type Cutpointdata int64
 
 func (c Cutpointdata) valid() bool { return c >= 0 }
 
 const invalidCutpoint = Cutpointdata(-1)
 
+// lastCutpoint is the last cut-point identity issued. Identities start above
+// the fixed one that marks a missing external handler.
+var lastCutpoint int64 = 1
+
+// newCutpoint issues an identity no other commitment in this process has, so
+// that a fatal error is only ever absorbed where it belongs.
+func newCutpoint() Cutpointdata {
+	return Cutpointdata(atomic.AddInt64(&lastCutpoint, 1))
+}
+
 func (s Scope) ReplaceCutPoint(force bool) (newScope Scope, prev, replacement Cutpointdata) {
 	prev = s.GetCutPoint()
 	if prev.valid() || force {
-		// TODO: What's with the random number?
-		replacement = Cutpointdata(rand.Int31()) //nolint:gosec
+		replacement = newCutpoint()
 		return s.With(cutpointkey, replacement), prev, replacement
 	}
 	return s, invalidCutpoint, invalidCutpoint
-- 
2.43.0


From 3dfccd0f6757114b3a64689cf357bb98aeeb1e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 06/30] fix: printing a failed repetition no longer recurses
 forever

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a31c665..081c61d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -582,10 +582,15 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	// out is reassigned by the return below, so the cause needs its own variable.
+	var causes []func() error
+	if cause := out; cause != nil {
+		causes = append(causes, func() error { return cause })
+	}
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, append(causes, func() error { return stk })...)
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From b64cc0f88c42f883e96ba2f785322f8172217c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 07/30] fix: a parse error describes the input where it failed,
 not where the scanner is when printed

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 081c61d..297f08f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -236,9 +236,10 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		actual := *input
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },
 			func() error { return stk },
 		)
 	}
@@ -266,9 +267,10 @@ func (p *reParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		actual := *input
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.re.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&actual)) },
 			func() error { return stk },
 		)
 	}
-- 
2.43.0


From fbf18bc48864569a243a88d21c93b46dafc34a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:09 +0000
Subject: [PATCH 08/30] fix: keep memory addresses out of parse errors

---
 parser/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/scope.go b/parser/scope.go
index 415ae11..f480dea 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -149,7 +149,7 @@ type call struct {
 func (c *call) Error() string {
 	var parts []string
 	for ; c != nil; c = c.next {
-		parts = append(parts, fmt.Sprintf("%+v", *c))
+		parts = append(parts, fmt.Sprintf("{ident:%s term:%+v}", c.ident, c.term))
 	}
 	return strings.Join(parts, "\n")
 }
-- 
2.43.0


From 88b159e73fe8f8211c800c4fe88cbbbe52346233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:15 +0000
Subject: [PATCH 09/30] fix: end an unbounded repetition whose term matches
 nothing

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 297f08f..9cde7d0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -576,6 +576,10 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			}
 			break
 		}
+		if p.t.Max == 0 && len(result) >= p.t.Min && start.Offset() == input.Offset() {
+			// Nothing was consumed, so nothing would ever stop the repetition.
+			break
+		}
 		result = append(result, v)
 		*input = start
 	}
-- 
2.43.0


From 21d3953433f0ed96e76f1611d2fe6c73b88a53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:19 +0000
Subject: [PATCH 10/30] fix: report cycles in a fixed order and without
 overwriting each other's path

---
 wbnf/recursion.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 4d5cdbe..f131875 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -63,9 +63,15 @@ func findPaths(name string, node *gnode, seen frozen.Set[string], current []stri
 		current = append(current, name)
 	}
 	var possibles [][]string
-	for k, next := range node.next {
+	names := make([]string, 0, len(node.next))
+	for k := range node.next {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+	for _, k := range names {
+		next := node.next[k]
 		if seen.Has(k) {
-			possibles = append(possibles, append(current[:], k))
+			possibles = append(possibles, append(append([]string{}, current...), k))
 		} else {
 			possibles = append(possibles, findPaths(k, next, seen.With(k), current)...)
 		}
-- 
2.43.0


From c95f22bc417615772bed618239385080cf52eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 11/30] fix: print tree views in a fixed order

---
 ast/treeview.go  | 9 ++++++++-
 gotree/gotree.go | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ast/treeview.go b/ast/treeview.go
index 2b47cb9..424a65a 100644
--- a/ast/treeview.go
+++ b/ast/treeview.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/gotree"
@@ -33,7 +34,13 @@ func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {
 
 	switch n := node.(type) {
 	case Branch:
-		for name, val := range n {
+		names := make([]string, 0, len(n))
+		for name := range n {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			val := n[name]
 			if skipAtNodes && strings.HasPrefix(name, "@") {
 				continue
 			}
diff --git a/gotree/gotree.go b/gotree/gotree.go
index 1fdf880..57e0ff4 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -79,7 +79,7 @@ func (t *tree) Print() string {
 
 // SortItems sorts the items of tree by the determined rank
 func (t *tree) SortItems() {
-	sort.Slice(t.items, func(i, j int) bool {
+	sort.SliceStable(t.items, func(i, j int) bool {
 		return t.items[i].Rank() < t.items[j].Rank()
 	})
 }
-- 
2.43.0


From 18318f11bfe956806321e94cbb1adf298e38f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:40 +0000
Subject: [PATCH 12/30] fix: a walker's Abort aborts the walk instead of only
 skipping the node

---
 cmd/codegen/template.go | 2 +-
 wbnf/wbnfgrammar.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/template.go b/cmd/codegen/template.go
index 1346fb0..2cb78ce 100644
--- a/cmd/codegen/template.go
+++ b/cmd/codegen/template.go
@@ -40,7 +40,7 @@ func (n *nodeExiter) ExitNode() bool {return true }
 func (n *nodeExiter) Abort() bool {return false }
 
 type aborter struct{}
-func (n *aborter) ExitNode() bool {return true }
+func (n *aborter) ExitNode() bool {return false }
 func (n *aborter) Abort() bool {return true }
 var (
 	NodeExiter = &nodeExiter{}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b5ae249..8c47513 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -119,7 +119,7 @@ func (n *nodeExiter) Abort() bool    { return false }
 
 type aborter struct{}
 
-func (n *aborter) ExitNode() bool { return true }
+func (n *aborter) ExitNode() bool { return false }
 func (n *aborter) Abort() bool    { return true }
 
 var (
-- 
2.43.0


From 9ecb8bf0bbef18b57462c909ea660cfa3fc0ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 13/30] fix: import each file once, so that cyclic, diamond and
 repeated imports compile

---
 wbnf/compile.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..8cd8f3a 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -307,7 +307,7 @@ type ImportResolver interface {
 }
 
 type compiler struct {
-	imports  map[string]GrammarNode
+	imported map[string]bool
 	resolver ImportResolver
 }
 
@@ -340,25 +340,24 @@ func (c *compiler) makeGrammar(filename, text string) (GrammarNode, error) {
 	return node, nil
 }
 
+// loadGrammarFile returns the grammar in a file, or an empty GrammarNode if the file has already been imported (or
+// is being imported): each file's rules are merged only once, whichever imports lead to it.
 func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 	filename = filepath.Clean(filename)
-	if _, has := c.imports[filename]; !has {
-		text, err := os.ReadFile(filename)
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		g, err := c.makeGrammar(filename, string(text))
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		c.imports[filename] = g
+	if c.imported[filename] {
+		return GrammarNode{}, nil
+	}
+	c.imported[filename] = true
+	text, err := os.ReadFile(filename)
+	if err != nil {
+		return GrammarNode{}, err
 	}
-	return c.imports[filename], nil
+	return c.makeGrammar(filename, string(text))
 }
 
 func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	c := compiler{
-		imports:  map[string]GrammarNode{},
+		imported: map[string]bool{},
 		resolver: resolver,
 	}
 	node, err := c.makeGrammar("", grammar)
-- 
2.43.0


From 9e71609f161679eee0372d4648f837aabfde1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 14/30] fix: gen and test report output that could not be
 written

---
 cmd/gen.go  |  6 +++---
 cmd/test.go | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index c43687b..6622809 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -79,10 +79,10 @@ func gen(c *cli.Context) error {
 
 	switch outFile {
 	case "", "-":
-		os.Stdout.Write(out)
+		_, err = os.Stdout.Write(out)
 	default:
-		os.WriteFile(outFile, out, 0644) //nolint:errcheck,gosec
+		err = os.WriteFile(outFile, out, 0644) //nolint:gosec
 	}
 
-	return nil
+	return err
 }
diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..1423130 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -97,12 +97,11 @@ func loadTestGrammar() parser.Parsers {
 func testWbnfFile(filename, grammar string) error {
 	g := wbnf.MustCompile(grammar, makeResolver(filename))
 	if printTree {
-		fmt.Println(ast.BuildTreeView("grammar", g.Node().(wbnf.GrammarNode).Node, true))
-	} else {
-		fmt.Println(g.Node().(ast.Node))
+		_, err := fmt.Println(ast.BuildTreeView("grammar", g.Node().(wbnf.GrammarNode).Node, true))
+		return err
 	}
-
-	return nil
+	_, err := fmt.Println(g.Node().(ast.Node))
+	return err
 }
 
 func test(c *cli.Context) error {
@@ -151,10 +150,14 @@ func test(c *cli.Context) error {
 		}
 	}
 	a := ast.FromParserNode(g.Grammar(), tree)
+	var printErr error
 	if printTree {
-		fmt.Println(ast.BuildTreeView(startingRule, a, true))
+		_, printErr = fmt.Println(ast.BuildTreeView(startingRule, a, true))
 	} else {
-		fmt.Println(a)
+		_, printErr = fmt.Println(a)
+	}
+	if printErr != nil {
+		return printErr
 	}
 	if err, ok := err.(parser.UnconsumedInputError); ok {
 		return err
-- 
2.43.0


From a965984bc61e9f084fc2069a26730fea9d1caee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:13 +0000
Subject: [PATCH 15/30] fix: code generation keeps no shared state and does not
 depend on map order or chance

---
 cmd/codegen/typebuilder.go     | 23 +++++++++++++++++++----
 cmd/codegen/types.go           | 32 ++++++++++++--------------------
 cmd/codegen/walkerinterface.go |  2 +-
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 4656c70..a92548c 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -1,7 +1,8 @@
 package codegen
 
 import (
-	"math/rand"
+	"sort"
+	"sync/atomic"
 
 	"github.com/arr-ai/frozen"
 	"github.com/arr-ai/wbnf/parser"
@@ -12,6 +13,13 @@ func makeTypesFromGrammar(g parser.Grammar) map[string]GrammarType {
 	return tm.walkGrammar("", g, mergeGrammarRules("", g, frozen.NewMap[string, any]()))
 }
 
+// termIDCounter numbers the branches of terms; only the difference between two numbers matters.
+var termIDCounter int64
+
+func nextTermID() int {
+	return int(atomic.AddInt64(&termIDCounter, 1))
+}
+
 type TypeMap map[string]GrammarType
 
 func (tm *TypeMap) merge(other TypeMap) TypeMap {
@@ -40,10 +48,17 @@ func mergeGrammarRules(prefix string, g parser.Grammar, knownRules frozen.Map[st
 
 func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules frozen.Map[string, any]) TypeMap {
 	result := map[string]GrammarType{}
-	for r, term := range g {
+	names := make([]string, 0, len(g))
+	for r := range g {
+		names = append(names, r.String())
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		r := parser.Rule(name)
+		term := g[r]
 		typeName := prefix + GoName(r.String())
 		tm.walkTerm(term, typeName, setWantOneGetter(),
-			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
+			pushRuleNameForStack(r.String(), typeName, knownRules), nextTermID())
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
 		newT := tm.findType(GoTypeName(typeName))
@@ -133,7 +148,7 @@ func (tm *TypeMap) walkTerm(
 	case parser.Oneof:
 		tm.pushType("", parentName, choice{parent: parentName})
 		for _, t := range t {
-			tm.walkTerm(t, parentName, quant, knownRules, rand.Int()) //nolint:gosec
+			tm.walkTerm(t, parentName, quant, knownRules, nextTermID())
 		}
 	case parser.Stack:
 		tm.handleSeq(t, parentName, quant, knownRules, termID)
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index d774694..75d2d8f 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -10,8 +10,6 @@ import (
 	"github.com/arr-ai/wbnf/wbnf"
 )
 
-var gotypemap map[string]string
-
 func GoTypeName(rule string) string {
 	return GoName(rule) + "Node"
 }
@@ -20,17 +18,7 @@ func GoName(rule string) string {
 	if strings.HasSuffix(rule, "Node") {
 		return strings.TrimSuffix(rule, "Node")
 	}
-	if gotypemap == nil {
-		gotypemap = map[string]string{}
-	}
-
-	if val, has := gotypemap[rule]; has {
-		return val
-	}
-
-	res := strcase.ToCamel(DropCaps(rule))
-	gotypemap[rule] = res
-	return res
+	return strcase.ToCamel(DropCaps(rule))
 }
 
 func DropCaps(rule string) string {
@@ -331,19 +319,23 @@ func (t namedRule) CallbackData() *callbackData {
 	return &callbackData{getter: GoName(t.name), walker: GoTypeName(t.returnType), isMany: t.count.wantAll()}
 }
 
+// sortedChildren returns a type's children ordered by name, leaving the type as it is.
+func sortedChildren(t GrammarType) []GrammarType {
+	children := append([]GrammarType{}, t.Children()...)
+	sort.SliceStable(children, func(i, j int) bool {
+		return strings.Compare(strings.ToUpper(children[i].Ident()), strings.ToUpper(children[j].Ident())) < 0
+	})
+	return children
+}
+
 func (t rule) TypeName() string        { return t.name }
 func (t rule) Ident() string           { return t.name }
 func (t rule) Children() []GrammarType { return t.childs }
 func (t rule) String() string {
 	out := fmt.Sprintf("type %s struct { ast.Node}\n func (%s) isWalkableType() {}\n",
 		GoTypeName(t.name), GoTypeName(t.name))
-	if len(t.Children()) > 0 {
-		orderedChildren := t.Children()
-		sort.Slice(orderedChildren, func(i, j int) bool {
-			return strings.Compare(strings.ToUpper(orderedChildren[i].Ident()),
-				strings.ToUpper(orderedChildren[j].Ident())) < 0
-		})
-		funcs := make([]string, 0, len(t.Children()))
+	if orderedChildren := sortedChildren(t); len(orderedChildren) > 0 {
+		funcs := make([]string, 0, len(orderedChildren))
 		for _, child := range orderedChildren {
 			funcs = append(funcs, child.String())
 		}
diff --git a/cmd/codegen/walkerinterface.go b/cmd/codegen/walkerinterface.go
index 30c6ec1..86f39ed 100644
--- a/cmd/codegen/walkerinterface.go
+++ b/cmd/codegen/walkerinterface.go
@@ -52,7 +52,7 @@ func (w *VisitorWriter) getTypeWalker(t GrammarType) string {
 	if fn := w.Enter{{.CtxName}}; fn != nil { 
 		if s := fn(node); s != nil { if s.ExitNode() { return nil } else if s.Abort() { return s} }\n}\n`)
 
-	for _, child := range t.Children() {
+	for _, child := range sortedChildren(t) {
 		funcs := child.CallbackData()
 		switch child := child.(type) {
 		case namedRule:
-- 
2.43.0


From 74200927405ca7f9a59f10c9728ce2cd859b74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 16/30] fix: report grammar and node differences in a fixed
 order

---
 parser/diff/nodes.go | 14 ++++++++++----
 parser/diff/terms.go |  7 +++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..ddd795c 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -38,11 +38,17 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if len(d.A.Children) != len(d.B.Children) {
 		fmt.Fprintf(w, "%slen(Children): %v != %v", prefix, len(d.A.Children), len(d.B.Children))
 	}
-	for i, t := range d.Types {
-		fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
+	for i := range d.A.Children {
+		if t, has := d.Types[i]; has {
+			fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
+		}
 	}
-	for i, d := range d.Children {
-		d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
+	for i := range d.A.Children {
+		child, has := d.Children[i]
+		if !has {
+			continue
+		}
+		child.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
 	}
 }
 
diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..b5201d2 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -3,6 +3,7 @@ package diff
 import (
 	"fmt"
 	"reflect"
+	"sort"
 
 	"github.com/arr-ai/wbnf/parser"
 )
@@ -56,6 +57,8 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 			diff.OnlyInB = append(diff.OnlyInB, rule)
 		}
 	}
+	sortRules(diff.OnlyInA)
+	sortRules(diff.OnlyInB)
 	if diff.Equal() != reflect.DeepEqual(a, b) {
 		panic(fmt.Sprintf(
 			"diff.Equal() == %v != %v == reflect.DeepEqual(a, b): %#v\n%#v\n%#v",
@@ -64,6 +67,10 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 	return diff
 }
 
+func sortRules(rules []parser.Rule) {
+	sort.Slice(rules, func(i, j int) bool { return rules[i] < rules[j] })
+}
+
 //-----------------------------------------------------------------------------
 
 type TermDiff interface {
-- 
2.43.0


From 34cc725cb481cbbf6ed2ceed00b3a4781da3738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 17/30] fix: a token is only a cut point if it occurs once,
 counting nested grammars and trailing separators

---
 wbnf/cutpoints.go   | 20 +++++++++++---------
 wbnf/wbnfgrammar.go |  6 +++---
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..0e74dda 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -58,6 +58,13 @@ func insertCutPoints(g parser.Grammar) parser.Grammar {
 }
 
 func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
+	return countStrings(g).Where(func(key string, val int) bool {
+		return val == 1
+	}).Keys()
+}
+
+// countStrings counts the occurrences of each S() token in a grammar, including the grammars nested in it.
+func countStrings(g parser.Grammar) frozen.Map[string, int] {
 	mergeFn := func(_ string, a, b int) int {
 		return a + b
 	}
@@ -85,8 +92,8 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		case parser.Delim:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 			out = out.Merge(forTerm(t.Sep), mergeFn)
-			if t.CanStartWithSep {
-				// ensure that a starting sep will never be a cutpoint
+			if t.CanStartWithSep || t.CanEndWithSep {
+				// ensure that a starting or trailing sep will never be a cutpoint
 				out = out.Merge(forTerm(t.Sep), mergeFn)
 			}
 		case parser.Quant:
@@ -95,10 +102,7 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.ScopedGrammar:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			incoming := frozen.NewMapFromKeys(
-				findUniqueStrings(t.Grammar),
-				func(string) int { return 1 })
-			out = out.Merge(incoming, mergeFn)
+			out = out.Merge(countStrings(t.Grammar), mergeFn)
 		case parser.REF:
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
@@ -114,9 +118,7 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 	for _, t := range g {
 		strings = strings.Merge(forTerm(t), mergeFn)
 	}
-	return strings.Where(func(key string, val int) bool {
-		return val == 1
-	}).Keys()
+	return strings
 }
 
 func rebuildGrammar(input parser.Grammar, callback func(t parser.Term) parser.Term) parser.Grammar {
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 8c47513..8ead709 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -58,7 +58,7 @@ func Grammar() parser.Parsers {
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})},
+					parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
@@ -70,11 +70,11 @@ func Grammar() parser.Parsers {
 					parser.S(`{`),
 					parser.Rule(`term`),
 					parser.S(`}`),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})}}},
+					parser.Opt(parser.S(`;`))}}},
 		"prod": parser.Seq{parser.Rule(`IDENT`),
 			parser.CutPoint{parser.S(`->`)},
 			parser.Some(parser.Rule(`term`)),
-			parser.CutPoint{parser.S(`;`)}},
+			parser.S(`;`)},
 		"quant": parser.Oneof{parser.Eq(`op`,
 			parser.RE(`[?*+]`)),
 			parser.Seq{parser.S(`{`),
-- 
2.43.0


From 1b2f9bf7a16a8202eb4c870d1f2321b93d226bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 18/30] fix: an escape between the items of a delimited list no
 longer breaks the list

---
 parser/parser.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9cde7d0..26dc9fa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -294,6 +294,7 @@ type seqParser struct {
 	t       Seq
 	parsers []Parser
 	put     putter
+	inDelim bool // part of a delim's expansion, which only the delim itself may escape
 }
 
 func identFromTerm(term Term) string {
@@ -338,8 +339,10 @@ func nodesEqual(a, b any) bool {
 
 func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.inDelim {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, len(p.parsers))
 	furthest := *input
@@ -476,11 +479,28 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 		child: seq.Parser(rule, c),
 		put:   tag(rule, delimTag),
 	}
+	markDelimExpansion(p.child)
 	c.registerRule(&p.child)
 
 	return p
 }
 
+// markDelimExpansion marks the sequences and repetitions a delim was expanded to. The delim picks their results apart,
+// so an escape may not stand in for one of them (it may for the delim, a term or a separator).
+func markDelimExpansion(p Parser) {
+	seq := p.(*seqParser)
+	seq.inDelim = true
+	for _, p := range seq.parsers {
+		switch p := p.(type) {
+		case *quantParser: // leading or trailing separator
+			p.inDelim = true
+		case *seqParser: // term (sep term)*
+			rest := p.parsers[1].(*quantParser)
+			p.inDelim, rest.inDelim, rest.term.(*seqParser).inDelim = true, true, true
+		}
+	}
+}
+
 type LRTGen struct {
 	sides   [2]Term
 	sep     Term
@@ -555,12 +575,16 @@ type quantParser struct {
 	t    Quant
 	term Parser
 	put  putter
+
+	inDelim bool // part of a delim's expansion, which only the delim itself may escape
 }
 
 func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.inDelim {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, p.t.Min)
 	var v TreeElement
-- 
2.43.0


From 29199108e9fb1afe3e05e6a8ace1fc17f39e2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 19/30] fix: a back-reference to a host value fails to match
 instead of panicking

---
 parser/parser.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 26dc9fa..1f6d771 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -702,19 +702,27 @@ func (t Named) AsTerm() Term { return t }
 
 //-----------------------------------------------------------------------------
 
+// termFromRefVal returns the term that matches the text of a value again, or nil if the value contains something that
+// has no text (the result of a host callback).
 func termFromRefVal(from TreeElement) Term {
-	var term Term
 	switch n := from.(type) {
 	case Node:
 		s := Seq{}
 		for _, v := range n.Children {
-			s = append(s, termFromRefVal(v))
+			if _, empty := v.(Empty); empty {
+				continue
+			}
+			t := termFromRefVal(v)
+			if t == nil {
+				return nil
+			}
+			s = append(s, t)
 		}
-		term = s
+		return s
 	case Scanner:
-		term = S(n.String())
+		return S(n.String())
 	}
-	return term
+	return nil
 }
 
 func (t *REF) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
@@ -725,6 +733,11 @@ func (t *REF) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call)
 	var v TreeElement
 	if _, expected, ok := scope.GetVal(t.Ident); ok {
 		term := termFromRefVal(expected)
+		if term == nil {
+			return newParseError(Rule(t.Ident), "Backref to a value that has no text")(invalidCutpoint,
+				func() error { return stk },
+			)
+		}
 		parser := term.Parser(Rule(t.Ident), cache{})
 		if err := parser.Parse(scope, input, &v, stk); err != nil {
 			return err
-- 
2.43.0


From 9c6c4ad48c36dc74bcb2d42e722473c19b659aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 20/30] fix: reject left recursion through delimiters,
 repetitions, lookahead, empty matches, stacks and nested grammars

---
 wbnf/compile.go   |   6 ++-
 wbnf/recursion.go | 133 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 138 insertions(+), 1 deletion(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 8cd8f3a..7cbec4e 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -367,7 +367,11 @@ func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	if err := validate(node); err != nil {
 		return parser.Parsers{}, err
 	}
-	return NewFromAst(node).Compile(node), nil
+	g := NewFromAst(node)
+	if err := checkLeftRecursion(g); err != nil {
+		return parser.Parsers{}, err
+	}
+	return g.Compile(node), nil
 }
 
 func MustCompile(grammar string, resolver ImportResolver) parser.Parsers {
diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index f131875..fc058e5 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -2,10 +2,13 @@ package wbnf
 
 import (
 	"fmt"
+	"regexp"
 	"sort"
 	"strings"
 
 	"github.com/arr-ai/frozen"
+
+	"github.com/arr-ai/wbnf/parser"
 )
 
 /*
@@ -144,3 +147,133 @@ func getSequenceDangerTerms(tree TermNode) frozen.Set[string] {
 	}
 	return result
 }
+
+// checkLeftRecursion rejects a grammar in which parsing a rule can lead back to that rule at the same place in the
+// input, which would never end. Unlike checkForRecursion it looks at the terms the parser will run: macros are expanded,
+// and nested grammars, stack levels and all terms that can match without consuming input are taken into account.
+func checkLeftRecursion(g parser.Grammar) error {
+	w := newHeadWalker(g, nil)
+	names := make([]string, 0, len(w.rules))
+	for rule := range w.rules {
+		names = append(names, string(rule))
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		if _, cycle := w.rule(parser.Rule(name), nil); cycle != nil {
+			return validationError{
+				msg:  fmt.Sprintf("Possible cycle(s) detected: \n\t%s", strings.Join(cycle, " > ")),
+				kind: PossibleCycleDetected,
+			}
+		}
+	}
+	return nil
+}
+
+// headWalker walks the terms of a grammar that can be reached without consuming any input.
+type headWalker struct {
+	rules    map[parser.Rule]parser.Term
+	nullable map[parser.Rule]bool // whether a rule already walked can match without consuming input
+	outer    *headWalker
+}
+
+func newHeadWalker(g parser.Grammar, outer *headWalker) *headWalker {
+	w := &headWalker{rules: map[parser.Rule]parser.Term{}, nullable: map[parser.Rule]bool{}, outer: outer}
+	for rule, term := range g {
+		stack, ok := term.(parser.Stack)
+		if !ok {
+			w.rules[rule] = term
+			continue
+		}
+		level := rule
+		for i, layer := range stack {
+			next := rule
+			if j := i + 1; j < len(stack) {
+				next = parser.Rule(fmt.Sprintf("%s%s%d", rule, parser.StackDelim, j))
+			}
+			w.rules[level] = layer.Resolve(parser.At, next)
+			level = next
+		}
+	}
+	return w
+}
+
+// step is a rule being walked, and the walker (hence the scope) it was found in.
+type step struct {
+	w    *headWalker
+	rule parser.Rule
+	prev *step
+}
+
+func (w *headWalker) rule(rule parser.Rule, path *step) (nullable bool, cycle []string) {
+	for w != nil && w.rules[rule] == nil {
+		w = w.outer
+	}
+	if w == nil {
+		return false, nil
+	}
+	if nullable, done := w.nullable[rule]; done {
+		return nullable, nil
+	}
+	cycle = []string{string(rule)}
+	for s := path; s != nil; s = s.prev {
+		cycle = append([]string{string(s.rule)}, cycle...)
+		if s.w == w && s.rule == rule {
+			return false, cycle
+		}
+	}
+	nullable, cycle = w.term(w.rules[rule], &step{w: w, rule: rule, prev: path})
+	w.nullable[rule] = nullable
+	return nullable, cycle
+}
+
+func (w *headWalker) term(term parser.Term, path *step) (nullable bool, cycle []string) {
+	switch t := term.(type) {
+	case parser.Rule:
+		return w.rule(t, path)
+	case parser.S:
+		return t == "", nil
+	case parser.RE:
+		re, err := regexp.Compile(`\A(?:` + string(t) + `)`)
+		return err == nil && re.MatchString(""), nil
+	case parser.Seq:
+		for _, item := range t {
+			if nullable, cycle = w.term(item, path); !nullable || cycle != nil {
+				return nullable, cycle
+			}
+		}
+		return true, nil
+	case parser.Oneof:
+		for _, option := range t {
+			n, cycle := w.term(option, path)
+			if cycle != nil {
+				return false, cycle
+			}
+			nullable = nullable || n
+		}
+		return nullable, nil
+	case parser.Quant:
+		nullable, cycle = w.term(t.Term, path)
+		return nullable || t.Min == 0, cycle
+	case parser.Delim:
+		if t.CanStartWithSep {
+			if _, cycle = w.term(t.Sep, path); cycle != nil {
+				return false, cycle
+			}
+		}
+		if nullable, cycle = w.term(t.Term, path); nullable && cycle == nil {
+			_, cycle = w.term(t.Sep, path)
+		}
+		return nullable, cycle
+	case parser.Named:
+		return w.term(t.Term, path)
+	case parser.CutPoint:
+		return w.term(t.Term, path)
+	case parser.LookAhead:
+		_, cycle = w.term(t.Term, path)
+		return true, cycle
+	case parser.ScopedGrammar:
+		return newHeadWalker(t.Grammar, w).term(t.Term, path)
+	}
+	// A back-reference or host callback: what it consumes is only known when it runs.
+	return false, nil
+}
-- 
2.43.0


From c7eb4e6e7211b0dcd95d134e578e789db946092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:26 +0000
Subject: [PATCH 21/30] fix: print deep trees and errors without quadratic
 copying

---
 gotree/gotree.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gotree/gotree.go b/gotree/gotree.go
index 57e0ff4..942b091 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -132,12 +132,12 @@ func (p *printer) printText(text string, spaces []bool, last bool) string {
 		indicator = lastItem
 	}
 
-	var out string
+	var out strings.Builder
 	lines := strings.Split(text, "\n")
 	for i := range lines {
 		text := lines[i]
 		if i == 0 {
-			out += result + indicator + text + newLine
+			out.WriteString(result + indicator + text + newLine)
 			continue
 		}
 		if last {
@@ -145,21 +145,21 @@ func (p *printer) printText(text string, spaces []bool, last bool) string {
 		} else {
 			indicator = continueItem
 		}
-		out += result + indicator + text + newLine
+		out.WriteString(result + indicator + text + newLine)
 	}
 
-	return out
+	return out.String()
 }
 
 func (p *printer) printItems(t []Tree, spaces []bool) string {
-	var result string
+	var result strings.Builder
 	for i, f := range t {
 		last := i == len(t)-1
-		result += p.printText(f.Text(), spaces, last)
+		result.WriteString(p.printText(f.Text(), spaces, last))
 		if len(f.Items()) > 0 {
 			spacesChild := append(spaces, last)
-			result += p.printItems(f.Items(), spacesChild)
+			result.WriteString(p.printItems(f.Items(), spacesChild))
 		}
 	}
-	return result
+	return result.String()
 }
-- 
2.43.0


From 502d127bbd8e000ebe539ee6ae1f9628f3fd274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:11 +0000
Subject: [PATCH 22/30] fix: a token that also occurs in a lookahead is not a
 cut point

---
 wbnf/cutpoints.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 0e74dda..29bbd19 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -107,7 +107,9 @@ func countStrings(g parser.Grammar) frozen.Map[string, int] {
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-		case parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead: // do nothing
+		case parser.LookAhead:
+			out = out.Merge(forTerm(t.Term), mergeFn)
+		case parser.RE, parser.Rule, parser.ExtRef: // do nothing
 		default:
 			panic(fmt.Errorf("findUniqueStrings: unexpected term type: %v %[1]T", t))
 		}
-- 
2.43.0


From 665fca96c49d464019ee03144dc1a7dd4049ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 23/30] fix: print a repetition of exactly one

---
 parser/terms.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 0142725..2fdd2a4 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -242,8 +242,6 @@ func (t Quant) String() string {
 		sb.WriteString("?")
 	case [2]int{1, 0}:
 		sb.WriteString("+")
-	case [2]int{1, 1}:
-		panic(errors.Inconceivable)
 	default:
 		sb.WriteString("{")
 		if t.Min != 0 {
-- 
2.43.0


From 49ae6289a8b2388ae494ad4586d556c1f00216d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 24/30] fix: converting an AST back ends when a repeated term
 matches nothing

---
 ast/to_parsernode.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 19ffe06..198a63f 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -74,6 +74,19 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
+// count returns the number of nodes that have not been pulled yet.
+func (b Branch) count() int {
+	n := 0
+	for _, children := range b {
+		if many, ok := children.(Many); ok {
+			n += len(many)
+		} else {
+			n++
+		}
+	}
+	return n
+}
+
 func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(g, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
@@ -139,13 +152,22 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			Extra: parser.NonAssociative,
 		}
 		terms := [2]parser.Term{t.Term, t.Sep}
-		i := 0
+		i, left := 0, 0
 		for ; ; i++ {
+			if i%2 == 1 {
+				left = b.count()
+			}
 			if child := b.toParserNode(g, terms[i%2], ctrs); child != nil {
 				v.Children = append(v.Children, child)
 			} else {
 				break
 			}
+			// A separator and a term that both match nothing would go on forever.
+			if i > 0 && i%2 == 0 && b.count() == left {
+				i--
+				v.Children = v.Children[:i]
+				break
+			}
 		}
 		if i%2 == 0 {
 			panic(errors.Inconceivable)
@@ -154,7 +176,11 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
 		for i := 0; !t.MaxLessThan(i); i++ {
+			left := b.count()
 			if v := b.toParserNode(g, t.Term, ctrs); v != nil {
+				if t.Max == 0 && i >= t.Min && b.count() == left {
+					break // A term that matches nothing would go on forever.
+				}
 				result.Children = append(result.Children, v)
 			} else {
 				break
-- 
2.43.0


From acdb1e05cda9464b7f16e11759b221dd1b72401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 25/30] fix: reject left recursion in nested grammars that
 follow other terms

---
 wbnf/recursion.go | 67 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index fc058e5..749ad13 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -152,18 +152,10 @@ func getSequenceDangerTerms(tree TermNode) frozen.Set[string] {
 // input, which would never end. Unlike checkForRecursion it looks at the terms the parser will run: macros are expanded,
 // and nested grammars, stack levels and all terms that can match without consuming input are taken into account.
 func checkLeftRecursion(g parser.Grammar) error {
-	w := newHeadWalker(g, nil)
-	names := make([]string, 0, len(w.rules))
-	for rule := range w.rules {
-		names = append(names, string(rule))
-	}
-	sort.Strings(names)
-	for _, name := range names {
-		if _, cycle := w.rule(parser.Rule(name), nil); cycle != nil {
-			return validationError{
-				msg:  fmt.Sprintf("Possible cycle(s) detected: \n\t%s", strings.Join(cycle, " > ")),
-				kind: PossibleCycleDetected,
-			}
+	if cycle := newHeadWalker(g, nil).check(); cycle != nil {
+		return validationError{
+			msg:  fmt.Sprintf("Possible cycle(s) detected: \n\t%s", strings.Join(cycle, " > ")),
+			kind: PossibleCycleDetected,
 		}
 	}
 	return nil
@@ -197,6 +189,57 @@ func newHeadWalker(g parser.Grammar, outer *headWalker) *headWalker {
 	return w
 }
 
+// check returns a cycle of the grammar or of a grammar nested in it.
+func (w *headWalker) check() (cycle []string) {
+	names := make([]string, 0, len(w.rules))
+	for rule := range w.rules {
+		names = append(names, string(rule))
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		if _, cycle = w.rule(parser.Rule(name), nil); cycle != nil {
+			return cycle
+		}
+	}
+	for _, name := range names {
+		if cycle = w.checkNested(w.rules[parser.Rule(name)]); cycle != nil {
+			return cycle
+		}
+	}
+	return nil
+}
+
+// checkNested checks the grammars nested in terms.
+func (w *headWalker) checkNested(terms ...parser.Term) (cycle []string) {
+	for _, term := range terms {
+		switch t := term.(type) {
+		case parser.Seq:
+			cycle = w.checkNested(t...)
+		case parser.Oneof:
+			cycle = w.checkNested(t...)
+		case parser.Quant:
+			cycle = w.checkNested(t.Term)
+		case parser.Delim:
+			cycle = w.checkNested(t.Term, t.Sep)
+		case parser.Named:
+			cycle = w.checkNested(t.Term)
+		case parser.CutPoint:
+			cycle = w.checkNested(t.Term)
+		case parser.LookAhead:
+			cycle = w.checkNested(t.Term)
+		case parser.ScopedGrammar:
+			nested := newHeadWalker(t.Grammar, w)
+			if cycle = nested.check(); cycle == nil {
+				cycle = nested.checkNested(t.Term)
+			}
+		}
+		if cycle != nil {
+			return cycle
+		}
+	}
+	return nil
+}
+
 // step is a rule being walked, and the walker (hence the scope) it was found in.
 type step struct {
 	w    *headWalker
-- 
2.43.0


From e054ec63bc04a8a787dedab64535b1257a9e92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 26/30] fix: reject left recursion behind regular expressions
 that match nothing only in context, such as \b

---
 wbnf/recursion.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 749ad13..caad435 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -2,7 +2,7 @@ package wbnf
 
 import (
 	"fmt"
-	"regexp"
+	"regexp/syntax"
 	"sort"
 	"strings"
 
@@ -276,8 +276,8 @@ func (w *headWalker) term(term parser.Term, path *step) (nullable bool, cycle []
 	case parser.S:
 		return t == "", nil
 	case parser.RE:
-		re, err := regexp.Compile(`\A(?:` + string(t) + `)`)
-		return err == nil && re.MatchString(""), nil
+		re, err := syntax.Parse(string(t), syntax.Perl)
+		return err == nil && matchesNothing(re), nil
 	case parser.Seq:
 		for _, item := range t {
 			if nullable, cycle = w.term(item, path); !nullable || cycle != nil {
@@ -320,3 +320,33 @@ func (w *headWalker) term(term parser.Term, path *step) (nullable bool, cycle []
 	// A back-reference or host callback: what it consumes is only known when it runs.
 	return false, nil
 }
+
+// matchesNothing reports whether a regular expression can match, somewhere in some input, without consuming any of it.
+func matchesNothing(re *syntax.Regexp) bool {
+	switch re.Op {
+	case syntax.OpNoMatch, syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
+		return false
+	case syntax.OpLiteral:
+		return len(re.Rune) == 0
+	case syntax.OpCapture, syntax.OpPlus:
+		return matchesNothing(re.Sub[0])
+	case syntax.OpRepeat:
+		return re.Min == 0 || matchesNothing(re.Sub[0])
+	case syntax.OpConcat:
+		for _, sub := range re.Sub {
+			if !matchesNothing(sub) {
+				return false
+			}
+		}
+		return true
+	case syntax.OpAlternate:
+		for _, sub := range re.Sub {
+			if matchesNothing(sub) {
+				return true
+			}
+		}
+		return false
+	}
+	// An optional or repeated expression, the empty one, or an assertion such as \b.
+	return true
+}
-- 
2.43.0


From 871bdb730979a5f2de90a40245e2706772a182c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 27/30] fix: reject left recursion behind back-references to
 values that may be empty

---
 wbnf/recursion.go | 95 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 94 insertions(+), 1 deletion(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index caad435..1a109ac 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -165,11 +165,20 @@ func checkLeftRecursion(g parser.Grammar) error {
 type headWalker struct {
 	rules    map[parser.Rule]parser.Term
 	nullable map[parser.Rule]bool // whether a rule already walked can match without consuming input
+	names    *boundNames          // shared with the walkers of nested grammars
 	outer    *headWalker
 }
 
+// boundNames holds the names that may be bound to a value without text, once emptyName has been asked for any.
+type boundNames struct{ empty map[string]bool }
+
 func newHeadWalker(g parser.Grammar, outer *headWalker) *headWalker {
 	w := &headWalker{rules: map[parser.Rule]parser.Term{}, nullable: map[parser.Rule]bool{}, outer: outer}
+	if outer != nil {
+		w.names = outer.names
+	} else {
+		w.names = &boundNames{}
+	}
 	for rule, term := range g {
 		stack, ok := term.(parser.Stack)
 		if !ok {
@@ -317,10 +326,94 @@ func (w *headWalker) term(term parser.Term, path *step) (nullable bool, cycle []
 	case parser.ScopedGrammar:
 		return newHeadWalker(t.Grammar, w).term(t.Term, path)
 	}
-	// A back-reference or host callback: what it consumes is only known when it runs.
+	if ref, ok := term.(parser.REF); ok {
+		if ref.Default != nil {
+			nullable, _ = newHeadWalker(nil, nil).term(ref.Default, nil)
+		}
+		return nullable || w.emptyName(ref.Ident), nil
+	}
+	// A host callback: what it consumes is only known when it runs.
 	return false, nil
 }
 
+// fresh returns a walker of the same grammar that has not walked any rule.
+func (w *headWalker) fresh() *headWalker {
+	if w == nil {
+		return nil
+	}
+	return &headWalker{rules: w.rules, nullable: map[parser.Rule]bool{}, names: w.names, outer: w.outer.fresh()}
+}
+
+// emptyName reports whether the grammar can bind name to a value without text, in which case a back-reference to name
+// consumes nothing.
+func (w *headWalker) emptyName(name string) bool {
+	if w.names.empty == nil {
+		w.names.empty = map[string]bool{}
+		for w.outer != nil {
+			w = w.outer
+		}
+		for more := true; more; {
+			more = false
+			for _, term := range w.rules {
+				more = w.markEmptyNames(term) || more
+			}
+		}
+	}
+	return w.names.empty[name]
+}
+
+// markEmptyNames marks the names that the terms, and those within them, bind to values without text. It reports
+// whether it found any that were not known yet.
+func (w *headWalker) markEmptyNames(terms ...parser.Term) (more bool) {
+	for _, term := range terms {
+		if name := boundName(term); name != "" && !w.names.empty[name] {
+			if nullable, _ := w.fresh().term(term, nil); nullable {
+				w.names.empty[name] = true
+				more = true
+			}
+		}
+		switch t := term.(type) {
+		case parser.Seq:
+			more = w.markEmptyNames(t...) || more
+		case parser.Oneof:
+			more = w.markEmptyNames(t...) || more
+		case parser.Quant:
+			more = w.markEmptyNames(t.Term) || more
+		case parser.Delim:
+			more = w.markEmptyNames(t.Term, t.Sep) || more
+		case parser.Named:
+			more = w.markEmptyNames(t.Term) || more
+		case parser.CutPoint:
+			more = w.markEmptyNames(t.Term) || more
+		case parser.LookAhead:
+			more = w.markEmptyNames(t.Term) || more
+		case parser.ScopedGrammar:
+			nested := newHeadWalker(t.Grammar, w)
+			more = nested.markEmptyNames(t.Term) || more
+			for _, rule := range nested.rules {
+				more = nested.markEmptyNames(rule) || more
+			}
+		}
+	}
+	return more
+}
+
+// boundName returns the name a term of a sequence binds its value to.
+func boundName(term parser.Term) string {
+	switch t := term.(type) {
+	case parser.Named:
+		if t.Name != "" {
+			return t.Name
+		}
+		return boundName(t.Term)
+	case parser.Rule:
+		return string(t)
+	case parser.Quant:
+		return boundName(t.Term)
+	}
+	return ""
+}
+
 // matchesNothing reports whether a regular expression can match, somewhere in some input, without consuming any of it.
 func matchesNothing(re *syntax.Regexp) bool {
 	switch re.Op {
-- 
2.43.0


From f4bb59ae8c946db36f6fbee4f35b51b0dee8c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 28/30] fix: a nested rule that is only another name for an
 outer rule no longer panics

---
 parser/parser.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1f6d771..e40dabd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -39,6 +39,19 @@ func (c cache) registerRules(parsers []Parser) {
 	}
 }
 
+// lookup follows rules that are only other names of rules. If they lead to a
+// rule of the grammar this one is nested in, it returns its name and no parser.
+func (c cache) lookup(rule Rule) (Parser, Rule) {
+	for {
+		p, local := c.parsers[rule]
+		alias, ok := p.(ruleParser)
+		if !local || !ok {
+			return p, rule
+		}
+		rule = alias.t
+	}
+}
+
 func (c cache) makeParsers(terms []Term) []Parser {
 	parsers := make([]Parser, 0, len(terms))
 	for _, t := range terms {
@@ -122,11 +135,14 @@ func (g Grammar) Compile(node any) Parsers {
 	}
 
 	for rule, rulePtrs := range c.rulePtrses {
-		p := c.parsers[rule]
+		p, _ := c.lookup(rule)
 		for _, rulePtr := range rulePtrs {
 			*rulePtr = p
 		}
 	}
+	for rule := range c.parsers {
+		c.parsers[rule], _ = c.lookup(rule)
+	}
 
 	return Parsers{
 		parsers: c.parsers,
@@ -812,8 +828,10 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		for {
 			switch r := term.(type) {
 			case Rule:
-				term = t.Grammar[r]
-				continue
+				if next, has := t.Grammar[r]; has {
+					term = next
+					continue
+				}
 			}
 			break
 		}
@@ -826,15 +844,15 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 	result := t.Term.Parser(name, cc)
 	cc.registerRule(&result)
 	for rule, rulePtrs := range cc.rulePtrses {
-		if _, has := t.Grammar[rule]; has {
+		if p, rule := cc.lookup(rule); p != nil {
 			// local rule, simply hook up the pointers
-			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
 			for _, rulePtr := range rulePtrs {
+				*rulePtr = ruleParser{t: rule}
 				c.registerRule(rulePtr)
 			}
 		}
-- 
2.43.0


From 7381e82f1ca07088641dc6a74912b9055073eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 29/30] fix: reject macros that call themselves instead of
 expanding them without end

---
 wbnf/recursion.go  | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 wbnf/validation.go |  4 ++++
 2 files changed, 51 insertions(+)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 1a109ac..a639f76 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -61,6 +61,53 @@ func checkForRecursion(tree GrammarNode) error {
 	return nil
 }
 
+// checkMacroRecursion rejects macros that call themselves, directly or through other macros: their expansion would
+// never end.
+func checkMacroRecursion(macros map[string]PragmaMacrodefNode) error {
+	calls := map[string][]string{}
+	names := make([]string, 0, len(macros))
+	for name, macro := range macros {
+		names = append(names, name)
+		var called []string
+		WalkerOps{EnterMacrocallNode: func(node MacrocallNode) Stopper {
+			called = append(called, node.OneName().String())
+			return nil
+		}}.Walk(*macro.OneTerm())
+		calls[name] = called
+	}
+	sort.Strings(names)
+
+	var badRoutes []string
+	done := map[string]bool{}
+	var visit func(name string, path []string)
+	visit = func(name string, path []string) {
+		for i, p := range path {
+			if p == name {
+				badRoutes = append(badRoutes, strings.Join(append(append([]string{}, path[i:]...), name), " > "))
+				return
+			}
+		}
+		if done[name] {
+			return
+		}
+		for _, next := range calls[name] {
+			visit(next, append(path, name))
+		}
+		done[name] = true
+	}
+	for _, name := range names {
+		visit(name, nil)
+	}
+
+	if len(badRoutes) > 0 {
+		return validationError{
+			msg:  fmt.Sprintf("Macro(s) calling themselves: \n\t%s", strings.Join(badRoutes, "\n\t")),
+			kind: PossibleCycleDetected,
+		}
+	}
+	return nil
+}
+
 func findPaths(name string, node *gnode, seen frozen.Set[string], current []string) [][]string {
 	if name != "" {
 		current = append(current, name)
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..1c675a7 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -52,6 +52,10 @@ func validate(tree GrammarNode) error {
 	}
 	v.walk(tree)
 
+	if cycles := checkMacroRecursion(macros); cycles != nil {
+		v.err = append(v.err, cycles)
+	}
+
 	if cycles := checkForRecursion(tree); cycles != nil {
 		v.err = append(v.err, cycles)
 	}
-- 
2.43.0


From 4eee266ade90597ee3155ef54be927384427f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 30/30] fix: replace macro parameters inside lookaheads and
 nested grammars

---
 wbnf/compile.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 7cbec4e..d0c770e 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -101,7 +101,8 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 	macro := gb.macros[name]
 	g := parser.Grammar{parser.Rule(name): gb.buildTerm(*macro.OneTerm())}
 
-	newg := rebuildGrammar(g, func(t parser.Term) parser.Term {
+	var callback func(t parser.Term) parser.Term
+	callback = func(t parser.Term) parser.Term {
 		switch t := t.(type) {
 		case parser.Rule:
 			for i, arg := range macro.AllArgs() {
@@ -109,9 +110,16 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 					return gb.buildTerm(node.AllTerm()[i])
 				}
 			}
+		case parser.LookAhead:
+			t.Term = fixTerm(t.Term, callback)
+			return t
+		case parser.ScopedGrammar:
+			t.Grammar = rebuildGrammar(t.Grammar, callback)
+			return t
 		}
 		return t
-	})
+	}
+	newg := rebuildGrammar(g, callback)
 	return newg[parser.Rule(name)]
 }
 
-- 
2.43.0

