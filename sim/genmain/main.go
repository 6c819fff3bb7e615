// Command genmain runs the repository's code generator (the command-line
// tool's own entry point) over the simulator's grammars.
//
//	genmain GRAMMARS OUT
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/arr-ai/wbnf/cmd"
)

func main() {
	in, out := os.Args[1], os.Args[2]
	fs, err := filepath.Glob(filepath.Join(in, "*.wbnf"))
	if err != nil || len(fs) == 0 {
		fmt.Fprintln(os.Stderr, "no grammars in", in)
		os.Exit(1)
	}
	for _, f := range fs {
		name := strings.TrimSuffix(filepath.Base(f), ".wbnf")
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		start, _, _ := strings.Cut(string(b), " ")
		if err := os.MkdirAll(filepath.Join(out, name), 0o755); err != nil {
			panic(err)
		}
		os.Args = []string{"wbnf", "gen", "--grammar", f, "--pkg", name, "--start", start, "--output", filepath.Join(out, name, name+".go")}
		cmd.Main(cmd.VersionTags{})
	}
}
