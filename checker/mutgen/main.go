// mutgen makes one small change to a Go source tree: mutgen -dir DIR -i N; without -i it lists the places.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type place struct {
	file     string
	off, end int
	by       string
	what     string
}

func main() {
	dir := flag.String("dir", "/repo", "")
	n := flag.Int("i", -1, "")
	flag.Parse()
	var ps []place
	filepath.Walk(*dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(*dir, p)
		if fi.IsDir() && (rel == ".git" || rel == "test" || rel == "tool" || rel == "codegen" || strings.HasPrefix(rel, "example")) {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, ".pb.go") {
			ps = append(ps, scan(p, rel)...)
		}
		return nil
	})
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].file < ps[j].file })
	if *n < 0 {
		for i, p := range ps {
			fmt.Println(i, p.what)
		}
		return
	}
	p := ps[*n]
	src, _ := os.ReadFile(filepath.Join(*dir, p.file))
	fmt.Println(*n, p.what)
	os.WriteFile(filepath.Join(*dir, p.file), []byte(string(src[:p.off])+p.by+string(src[p.end:])), 0o644)
}

func scan(path, rel string) []place {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, nil, 0)
	if err != nil {
		return nil
	}
	src, _ := os.ReadFile(path)
	var out []place
	text := func(n ast.Node) string {
		return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	}
	one := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 90 {
			s = s[:90] + "…"
		}
		return s
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		add := func(n ast.Node, by, how string) {
			out = append(out, place{rel, fs.Position(n.Pos()).Offset, fs.Position(n.End()).Offset, by,
				fmt.Sprintf("%s:%d %s: %s: %s", rel, fs.Position(n.Pos()).Line, fd.Name.Name, how, one(text(n)))})
		}
		logs := func(n ast.Node) bool {
			t := text(n)
			return strings.HasPrefix(t, "l.") || strings.HasPrefix(t, "logger.") || strings.HasPrefix(t, "qrpc.Logger") || strings.HasPrefix(t, "Logger(") || strings.HasPrefix(t, "fmt.Print")
		}
		del := func(s ast.Stmt) {
			switch y := s.(type) {
			case *ast.ExprStmt:
				if !logs(y) {
					add(y, "", "delete")
				}
			case *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
				add(y, "", "delete")
			case *ast.AssignStmt:
				if y.Tok != token.DEFINE {
					add(y, "", "delete")
				}
			case *ast.IfStmt:
				if y.Else == nil {
					add(y, "", "delete")
				}
			case *ast.BranchStmt:
				add(y, "", "delete")
			case *ast.ReturnStmt:
				if fd.Type.Results == nil {
					add(y, "", "delete")
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.BlockStmt:
				for _, s := range y.List {
					del(s)
				}
				for i := 0; i+1 < len(y.List); i++ {
					a, b := y.List[i], y.List[i+1]
					ok := true
					for _, s := range []ast.Stmt{a, b} {
						switch z := s.(type) {
						case *ast.ExprStmt:
							ok = ok && !logs(z)
						case *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IfStmt, *ast.RangeStmt:
						default:
							ok = false
						}
					}
					if ok {
						out = append(out, place{rel, fs.Position(a.Pos()).Offset, fs.Position(b.End()).Offset, text(b) + "\n" + text(a),
							fmt.Sprintf("%s:%d %s: swap: %s <-> %s", rel, fs.Position(a.Pos()).Line, fd.Name.Name, one(text(a)), one(text(b)))})
					}
				}
			case *ast.CaseClause:
				for _, s := range y.Body {
					del(s)
				}
			case *ast.CommClause:
				for _, s := range y.Body {
					del(s)
				}
			case *ast.IfStmt:
				add(y.Cond, "!("+text(y.Cond)+")", "negate")
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
				for _, o := range alt[y.Op] {
					add(y, text(y.X)+" "+o+" "+text(y.Y), "op "+o)
				}
				if y.Op == token.LAND || y.Op == token.LOR {
					add(y, text(y.X), "left only")
					add(y, text(y.Y), "right only")
				}
			case *ast.BasicLit:
				if y.Kind == token.INT {
					add(y, "("+y.Value+"+1)", "+1")
				}
			case *ast.Ident:
				if y.Name == "true" {
					add(y, "false", "false")
				} else if y.Name == "false" {
					add(y, "true", "true")
				}
			case *ast.ReturnStmt:
				for _, r := range y.Results {
					if id, ok := r.(*ast.Ident); ok && strings.HasPrefix(strings.ToLower(id.Name), "err") {
						add(r, "nil", "nil")
					}
				}
			}
			return true
		})
	}
	return out
}
