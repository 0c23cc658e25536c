// instr copies the non-test Go files of a module and puts a scheduling point in
// front of every statement. Purely textual insertion at statement offsets: line
// numbers stay, and whatever compiles before compiles after.
//
// usage: instr SRC_ROOT OUT_DIR; writes OUT_DIR/overlay.json and OUT_DIR/sites.txt
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int
	text string
	prio int
}

func main() {
	root, out := os.Args[1], os.Args[2]
	full := len(os.Args) > 3 && os.Args[3] == "full"
	replace := map[string]string{}
	var sites []string
	var files []string
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if n := info.Name(); p != root && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		fail(err)
	}
	sort.Strings(files)
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			fail(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			fail(err)
		}
		rel, _ := filepath.Rel(root, p)
		var edits []edit
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				pos := fset.Position(s.Pos())
				id := len(sites) + 1
				sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
				edits = append(edits, edit{pos.Offset, fmt.Sprintf("axsimrt.AxYield(%d); ", id), 1})
			}
		}
		mark := func(at token.Pos) {
			pos := fset.Position(at)
			id := len(sites) + 1
			sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
			edits = append(edits, edit{pos.Offset, fmt.Sprintf("axsimrt.AxYield(%d); ", id), 2})
		}
		// wrap makes the evaluation of an atomic operation inside an expression a scheduling point of its own
		wrap := func(e ast.Expr) {
			call, ok := e.(*ast.CallExpr)
			if !full || !ok {
				return
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok || !atomicName(sel.Sel.Name) {
				return
			}
			pos := fset.Position(call.Pos())
			id := len(sites) + 1
			sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
			edits = append(edits, edit{pos.Offset, fmt.Sprintf("axsimrt.AxV(%d, ", id), 5},
				edit{fset.Position(call.End()).Offset, ")", -1})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				wrap(n.X)
				wrap(n.Y)
			case *ast.CallExpr:
				if len(n.Args) > 1 {
					for _, a := range n.Args {
						wrap(a)
					}
				}
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					mark(n.Body.Lbrace + 1)
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					mark(n.Body.Lbrace + 1)
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		edits = append(edits, edit{fset.Position(f.Name.End()).Offset, `; import axsimrt "runtime"`, 0})
		// The bodies of switch and select statements are blocks of clauses, not of statements.
		var bad = map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.SwitchStmt:
				b = n.Body
			case *ast.TypeSwitchStmt:
				b = n.Body
			case *ast.SelectStmt:
				b = n.Body
			}
			if b != nil {
				for _, s := range b.List {
					bad[fset.Position(s.Pos()).Offset] = true
				}
			}
			return true
		})
		sort.SliceStable(edits, func(i, j int) bool {
			if edits[i].off != edits[j].off {
				return edits[i].off < edits[j].off
			}
			return edits[i].prio < edits[j].prio
		})
		var sb strings.Builder
		last := 0
		for _, e := range edits {
			if e.prio == 1 && bad[e.off] {
				continue
			}
			sb.Write(src[last:e.off])
			sb.WriteString(e.text)
			last = e.off
		}
		sb.Write(src[last:])
		dst := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			fail(err)
		}
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			fail(err)
		}
		replace[p] = dst
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
	if err := os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644); err != nil {
		fail(err)
	}
}

func atomicName(n string) bool {
	for _, p := range []string{"Load", "Add", "Swap", "CompareAndSwap", "Or", "And"} {
		if n == p || strings.HasPrefix(n, p+"Int") || strings.HasPrefix(n, p+"Uint") || strings.HasPrefix(n, p+"Pointer") {
			return true
		}
	}
	return false
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}
