// instr copies Go source files with a call to the simulator's yield function
// in front of every statement (level 2) or at every function entry and loop
// iteration (level 1). Text is inserted on the existing lines, so positions in
// panics and race reports are those of the original file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type spec struct {
	Out   string   `json:"out"`
	RT    string   `json:"rt"`
	Files []string `json:"files"`
	Level int      `json:"level"`
	Lits  bool     `json:"lits"`
}

func main() {
	var s spec
	if err := json.NewDecoder(os.Stdin).Decode(&s); err != nil {
		fatal(err)
	}
	if s.Lits {
		literals(s.Files)
		return
	}
	files := map[string]string{}
	sites := []string{}
	for _, f := range s.Files {
		src, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		type ins struct{ off, site int }
		var at []ins
		seen := map[int]bool{}
		add := func(p token.Pos) {
			o := fset.Position(p).Offset
			if seen[o] {
				return
			}
			seen[o] = true
			pos := fset.PositionFor(p, false)
			sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(f), pos.Line))
			at = append(at, ins{o, len(sites) - 1})
		}
		list := func(l []ast.Stmt, entry bool) {
			for i, st := range l {
				if s.Level < 2 && !(entry && i == 0) {
					break
				}
				if _, ok := st.(*ast.EmptyStmt); ok {
					continue
				}
				add(st.Pos())
			}
		}
		// entry: the block starts a function or a loop iteration
		entry := map[*ast.BlockStmt]bool{}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil {
					entry[n.Body] = true
					add(n.Body.Lbrace + 1)
				}
			case *ast.FuncLit:
				entry[n.Body] = true
				add(n.Body.Lbrace + 1)
			case *ast.ForStmt:
				entry[n.Body] = true
				add(n.Body.Lbrace + 1)
			case *ast.RangeStmt:
				entry[n.Body] = true
				add(n.Body.Lbrace + 1)
			case *ast.BlockStmt:
				// the bodies of switch and select hold clauses, not statements
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				if s.Level >= 2 {
					l := n.List
					if entry[n] && len(l) > 0 {
						l = l[1:] // the entry call stands for the first statement
					}
					list(l, false)
				}
			case *ast.CaseClause:
				list(n.Body, false)
			case *ast.CommClause:
				list(n.Body, false)
			}
			return true
		})
		sort.Slice(at, func(i, j int) bool { return at[i].off < at[j].off })
		var b strings.Builder
		prev := 0
		po := fset.Position(file.Name.End()).Offset
		b.Write(src[:po])
		fmt.Fprintf(&b, "; import verif__rt %q", s.RT)
		prev = po
		for _, x := range at {
			b.Write(src[prev:x.off])
			fmt.Fprintf(&b, "verif__rt.Y(%d);", x.site)
			prev = x.off
		}
		b.Write(src[prev:])
		if len(at) == 0 {
			b.WriteString("\nvar _ = verif__rt.Y\n")
		}
		out := filepath.Join(s.Out, fmt.Sprintf("%d_%s", len(files), filepath.Base(f)))
		if err := os.WriteFile(out, []byte(b.String()), 0o644); err != nil {
			fatal(err)
		}
		files[f] = out
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"files": files, "sites": sites})
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

// literals counts the string, character and integer literals of the files.
func literals(fs []string) {
	strs, ints := map[string]int{}, map[string]int{}
	for _, f := range fs {
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		ast.Inspect(file, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING:
				if v, err := strconv.Unquote(l.Value); err == nil {
					strs[v]++
				}
			case token.CHAR:
				if v, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), 39); err == nil {
					strs[string(v)]++
				}
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					ints[strconv.FormatInt(v, 10)]++
				}
			}
			return true
		})
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"strings": strs, "ints": ints})
}
