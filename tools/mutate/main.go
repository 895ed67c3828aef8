// mutate generates single-edit mutants of the library that compile and pass
// its tests, as overlay files, for measuring what the checks detect.
// usage: mutate REPO OUTDIR [file.go...]
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
	"context"
)

type mutant struct {
	file, fn, desc string
	src            []byte
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	files := os.Args[3:]
	if len(files) == 0 {
		m, _ := filepath.Glob(filepath.Join(repo, "*.go"))
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				files = append(files, filepath.Base(f))
			}
		}
	}
	var ms []mutant
	for _, f := range files {
		ms = append(ms, mutants(filepath.Join(repo, f))...)
	}
	fmt.Println("candidates", len(ms))
	os.MkdirAll(out, 0o755)
	var mu sync.Mutex
	n := 0
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 7; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			tmp, _ := os.MkdirTemp("", "mut")
			defer os.RemoveAll(tmp)
			for i := range ch {
				m := ms[i]
				f := filepath.Join(tmp, filepath.Base(m.file))
				os.WriteFile(f, m.src, 0o644)
				ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{m.file: f}})
				of := filepath.Join(tmp, "ov.json")
				os.WriteFile(of, ov, 0o644)
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-timeout", "15s", "-overlay", of, ".")
				cmd.Dir = repo
				var bb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &bb, &bb
				err := cmd.Run()
				cancel()
				if err == nil {
					mu.Lock()
					id := fmt.Sprintf("m%04d", i)
					n++
					mu.Unlock()
					d := filepath.Join(out, id)
					os.MkdirAll(d, 0o755)
					os.WriteFile(filepath.Join(d, filepath.Base(m.file)), m.src, 0o644)
					os.WriteFile(filepath.Join(d, "desc"), []byte(fmt.Sprintf("%s %s: %s\n", filepath.Base(m.file), m.fn, m.desc)), 0o644)
				}
			}
		}(w)
	}
	for i := range ms {
		ch <- i
	}
	close(ch)
	wg.Wait()
	fmt.Println("survivors of the tests", n)
}

func mutants(path string) []mutant {
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var out []mutant
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	cur := ""
	text := func(n ast.Node) string {
		return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	repl := func(n ast.Node, s string, desc string) {
		a, b := fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset
		ns := append(append(append([]byte(nil), src[:a]...), []byte(s)...), src[b:]...)
		o, err := format.Source(ns)
		if err != nil {
			return
		}
		if bytes.Equal(o, src) {
			return
		}
		old := text(n)
		if len(old) > 60 {
			old = old[:60] + "..."
		}
		out = append(out, mutant{path, cur, fmt.Sprintf("line %d: %s: %q -> %q", fset.Position(n.Pos()).Line, desc, old, trunc(s)), o})
	}
	flips := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
	}
	names := map[string]string{"GetFrom": "GetTo", "GetTo": "GetFrom", "from": "to", "to": "from", "incoming": "outgoing", "outgoing": "incoming",
		"IncomingEdge": "OutgoingEdge", "OutgoingEdge": "IncomingEdge", "head": "tail", "tail": "head", "next": "prev", "prev": "next",
		"AnyEdge": "OutgoingEdge", "GetSourceNode": "GetTargetNode", "GetTargetNode": "GetSourceNode", "First": "Last", "Last": "First",
		"useToNode": "useFromNode", "useFromNode": "useToNode", "HasAllSet": "HasAnySet", "GetNodes": "GetNodes", "oldLabels": "newLabels", "newLabels": "oldLabels",
		"nodeProperties": "edgeProperties", "edgeProperties": "nodeProperties", "g1": "g2", "v1": "v2", "v2": "v1", "l1": "l2", "l2": "l1", "Symbols": "LocalSymbols", "LocalSymbols": "Symbols",
		"i1": "i2", "i2": "i1", "edge1": "edge2", "node1": "node2", "source": "target", "target": "source", "Min": "Max", "Max": "Min", "min": "max", "max": "min",
		"ToLeft": "Undirected", "Undirected": "ToLeft", "labelListNext": "labelListCurrent"}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		cur = fd.Name.Name
		if fd.Recv != nil {
			cur = strings.TrimPrefix(text(fd.Recv.List[0].Type), "*") + "." + cur
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				repl(x.Cond, "!("+text(x.Cond)+")", "negate")
				repl(x.Cond, "("+text(x.Cond)+") || true", "cond true")
				repl(x.Cond, "("+text(x.Cond)+") && false", "cond false")
			case *ast.ForStmt:
			case *ast.BinaryExpr:
				for _, o := range flips[x.Op] {
					repl(x, text(x.X)+" "+o+" "+text(x.Y), "op")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					switch x.Value {
					case "0":
						repl(x, "1", "const")
					case "1":
						repl(x, "0", "const")
						repl(x, "2", "const")
					case "2":
						repl(x, "1", "const")
						repl(x, "0", "const")
					default:
						repl(x, "("+x.Value+"+1)", "const")
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					repl(x, `"zz"`, "string")
				}
			case *ast.Ident:
				if x.Name == "true" {
					repl(x, "false", "bool")
				} else if x.Name == "false" {
					repl(x, "true", "bool")
				} else if r, ok := names[x.Name]; ok {
					repl(x, r, "name")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					if x.Tok == token.BREAK {
						repl(x, "continue", "branch")
					} else if x.Tok == token.CONTINUE {
						repl(x, "break", "branch")
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					for _, r := range x.Results {
						if t := text(r); t == "err" {
							repl(r, "nil", "drop error")
						}
					}
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && s.Sel.Name == "Clone" {
					repl(x, text(s.X), "drop clone")
				}
				if len(x.Args) == 2 {
					repl(x, text(x.Fun)+"("+text(x.Args[1])+", "+text(x.Args[0])+")", "swap args")
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					alt := map[string]string{"add": "remove", "remove": "add", "Add": "Remove", "Remove": "Add", "PushBack": "PushFront"}
					if a, ok := alt[s.Sel.Name]; ok {
						repl(s.Sel, a, "method")
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					repl(x, text(x.X), "drop not")
				}
				if x.Op == token.SUB {
					repl(x, text(x.X), "drop minus")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					repl(x.Low, "0", "slice low")
				}
			case *ast.BlockStmt:
				stmts(x.List, repl, text)
			case *ast.CaseClause:
				stmts(x.Body, repl, text)
			}
			return true
		})
	}
	return out
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

type span struct{ a, b ast.Node }

func (s span) Pos() token.Pos { return s.a.Pos() }
func (s span) End() token.Pos { return s.b.End() }

func stmts(list []ast.Stmt, repl func(ast.Node, string, string), text func(ast.Node) string) {
	for i, s := range list {
		switch y := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
			repl(s, "", "delete")
		case *ast.AssignStmt:
			if y.Tok != token.DEFINE {
				repl(s, "", "delete")
			} else if len(y.Lhs) == 1 {
			}
		case *ast.BranchStmt:
			repl(s, "", "delete")
		case *ast.ReturnStmt:
			if len(y.Results) == 0 {
				repl(s, "", "delete")
			}
		}
		if i+1 < len(list) {
			t := list[i+1]
			switch s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.AssignStmt:
				switch t.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.AssignStmt:
					repl(span{s, t}, text(t)+"\n"+text(s), "swap stmts")
				}
			}
		}
	}
}
