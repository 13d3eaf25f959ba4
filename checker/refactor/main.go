// Command refactor rewrites a copy of the tree without changing what it does, to see whether the checks stay quiet.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	dir  = flag.String("dir", "", "tree to rewrite in place")
	mode = flag.String("mode", "", "rename, invert, closure, extract, cmp, temp, early, loop, copy")
	k    = flag.Int("k", 1, "rewrite one of k places")
	pick = flag.Int("i", 0, "which of the k")
	only = flag.String("only", "", "only in functions with this name")
)

type edit struct {
	off, end int
	s        string
}

var (
	eds  = map[string][]edit{}
	tail = map[string]string{}
	fset *token.FileSet
	n    int
)

func chosen(what string) bool {
	h := fnv.New32()
	h.Write([]byte(what))
	return int(h.Sum32()%uint32(*k)) == *pick
}

func src(f string) []byte { b, _ := os.ReadFile(f); return b }

func text(x ast.Node) string {
	a, b := fset.Position(x.Pos()), fset.Position(x.End())
	return string(src(a.Filename)[a.Offset:b.Offset])
}

func replace(x ast.Node, s string) bool {
	a, b := fset.Position(x.Pos()), fset.Position(x.End())
	for _, e := range eds[a.Filename] {
		if a.Offset < e.end && e.off < b.Offset {
			return false // one at a time
		}
	}
	eds[a.Filename] = append(eds[a.Filename], edit{a.Offset, b.Offset, s})
	n++
	return true
}

func main() {
	flag.Parse()
	os.Setenv("GOFLAGS", "-mod=readonly")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	d, _ := filepath.Abs(*dir)
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: d}, "./...")
	if err != nil {
		panic(err)
	}
	ren := map[types.Object]string{}
	for _, x := range ps {
		fset = x.Fset
		rel := strings.TrimPrefix(x.PkgPath, x.Module.Path)
		if strings.HasPrefix(rel, "/test") || strings.HasPrefix(rel, "/tool") || strings.HasSuffix(rel, "/pb") {
			continue
		}
		if *mode == "rename" {
			emb := map[string]bool{}
			for _, o := range x.TypesInfo.Defs {
				if v, ok := o.(*types.Var); ok && v.Embedded() {
					emb[v.Name()] = true
				}
			}
			for _, o := range x.TypesInfo.Defs {
				if o == nil || o.Exported() || o.Name() == "_" || o.Name() == "init" || o.Name() == "main" || emb[o.Name()] {
					continue
				}
				ok := false
				switch o := o.(type) {
				case *types.Var:
					ok = o.IsField() || o.Parent() == x.Types.Scope()
				case *types.Func, *types.TypeName, *types.Const:
					ok = o.Parent() == x.Types.Scope() || o.Parent() == nil
				}
				if f, isF := o.(*types.Func); isF && f.Type().(*types.Signature).Recv() != nil && types.IsInterface(f.Type().(*types.Signature).Recv().Type()) {
					ok = false
				}
				// methods that implement unexported interface methods keep their names
				if f, isF := o.(*types.Func); isF && ok {
					for _, q := range x.TypesInfo.Defs {
						if g, isG := q.(*types.Func); isG && g != f && g.Name() == f.Name() && g.Type().(*types.Signature).Recv() != nil && types.IsInterface(g.Type().(*types.Signature).Recv().Type()) {
							ok = false
						}
					}
				}
				if ok && chosen(o.Name()+fset.Position(o.Pos()).String()) {
					ren[o] = "zz" + strings.ToUpper(o.Name()[:1]) + o.Name()[1:]
				}
			}
		}
	}
	for _, x := range ps {
		fset = x.Fset
		rel := strings.TrimPrefix(x.PkgPath, x.Module.Path)
		if *mode == "rename" {
			for _, m := range []map[*ast.Ident]types.Object{x.TypesInfo.Defs, x.TypesInfo.Uses} {
				for id, o := range m {
					if s := ren[o]; o != nil && s != "" {
						replace(id, s)
					}
				}
			}
			continue
		}
		if strings.HasPrefix(rel, "/test") || strings.HasPrefix(rel, "/tool") || strings.HasSuffix(rel, "/pb") {
			continue
		}
		for _, f := range x.Syntax {
			rewrite(x, f)
		}
	}
	for f, es := range eds {
		b := src(f)
		sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
		for _, e := range es {
			b = []byte(string(b[:e.off]) + e.s + string(b[e.end:]))
		}
		b = append(b, []byte(tail[f])...)
		os.WriteFile(f, b, 0o644)
	}
	if *mode == "rename" {
		for o, s := range ren {
			fmt.Println(o.Name(), "->", s)
		}
	}
	fmt.Println(n, "edits")
}

func where(s ast.Node, fn *ast.FuncDecl) string {
	return fn.Name.Name + fmt.Sprint(fset.Position(s.Pos()).Line-fset.Position(fn.Pos()).Line) + fmt.Sprintf("%T", s)
}

func str(x any) string { var b bytes.Buffer; printer.Fprint(&b, fset, x); return b.String() }

// pure: no calls, no receives.
func pure(e ast.Node) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, isID := x.Fun.(*ast.Ident); !isID || id.Name != "len" && id.Name != "cap" {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return true
	})
	return ok
}

// leaves: control leaves the statements otherwise than at their end.
func leaves(list []ast.Stmt) bool {
	bad := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				bad = true
			case *ast.BranchStmt:
				switch {
				case x.Label != nil || x.Tok == token.GOTO || x.Tok == token.FALLTHROUGH:
					bad = true
				case x.Tok == token.BREAK && !loop && !sw:
					bad = true
				case x.Tok == token.CONTINUE && !loop:
					bad = true
				}
			case *ast.ForStmt:
				if m != n {
					walk(x.Body, true, sw)
					return false
				}
			case *ast.RangeStmt:
				if m != n {
					walk(x.Body, true, sw)
					return false
				}
			case *ast.SwitchStmt:
				if m != n {
					walk(x.Body, loop, true)
					return false
				}
			case *ast.TypeSwitchStmt:
				if m != n {
					walk(x.Body, loop, true)
					return false
				}
			case *ast.SelectStmt:
				if m != n {
					walk(x.Body, loop, true)
					return false
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "recover" || id.Name == "panic") {
					bad = true
				}
			}
			return true
		})
	}
	for _, s := range list {
		walk(&ast.BlockStmt{List: []ast.Stmt{s}}, false, false)
	}
	return bad
}

var extracted int

// extract: the statements as a call of a new function.
func extract(x *packages.Package, f *ast.File, fn *ast.FuncDecl, list []ast.Stmt) (string, bool) {
	if len(list) == 0 || leaves(list) {
		return "", false
	}
	from, to := list[0].Pos(), list[len(list)-1].End()
	vars := map[*types.Var]bool{} // true: changed
	order := []*types.Var{}
	bad := false
	qual := func(p *types.Package) string {
		if p == x.Types {
			return ""
		}
		for _, im := range f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		bad = true
		return p.Name()
	}
	local := func(v *types.Var) bool {
		return !v.IsField() && v.Parent() != nil && v.Parent() != x.Types.Scope() && v.Parent() != types.Universe && (v.Pos() < from || v.Pos() >= to)
	}
	note := func(id *ast.Ident, w bool) {
		v, ok := x.TypesInfo.Uses[id].(*types.Var)
		if !ok || v.Pkg() != x.Types || !local(v) {
			return
		}
		if _, seen := vars[v]; !seen {
			order = append(order, v)
		}
		vars[v] = vars[v] || w
	}
	root := func(e ast.Expr) *ast.Ident {
		for {
			switch y := e.(type) {
			case *ast.Ident:
				return y
			case *ast.SelectorExpr:
				if _, isPtr := x.TypesInfo.TypeOf(y.X).Underlying().(*types.Pointer); isPtr {
					return nil
				}
				e = y.X
			case *ast.IndexExpr:
				switch x.TypesInfo.TypeOf(y.X).Underlying().(type) {
				case *types.Array:
					e = y.X
				default:
					return nil
				}
			case *ast.ParenExpr:
				e = y.X
			default:
				return nil
			}
		}
	}
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.Ident:
				note(y, false)
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id := root(l); id != nil {
						note(id, true)
					}
				}
			case *ast.IncDecStmt:
				if id := root(y.X); id != nil {
					note(id, true)
				}
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{y.Key, y.Value} {
					if e != nil && y.Tok == token.ASSIGN {
						if id := root(e); id != nil {
							note(id, true)
						}
					}
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					if id := root(y.X); id != nil {
						note(id, true)
					}
				}
			case *ast.SelectorExpr:
				// pointer methods of a variable; structures are not copied
				if id := root(y.X); id != nil {
					if v, ok := x.TypesInfo.Uses[id].(*types.Var); ok {
						if _, isS := v.Type().Underlying().(*types.Struct); isS {
							note(id, true)
						}
					}
				}
			case *ast.FuncLit:
				// a variable a closure uses may change later
				ast.Inspect(y.Body, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok {
						note(id, true)
					}
					return true
				})
			}
			return true
		})
	}
	// declared inside and used after
	ast.Inspect(fn, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Pos() >= to {
			if v, ok := x.TypesInfo.Uses[id].(*types.Var); ok && v.Pos() >= from && v.Pos() < to {
				bad = true
			}
		}
		return true
	})
	// closures elsewhere that change a variable passed by value: pass the variable itself
	ast.Inspect(fn, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok && !(l.Pos() >= from && l.End() <= to) {
			ast.Inspect(l.Body, func(m ast.Node) bool {
				if as, ok := m.(*ast.AssignStmt); ok {
					for _, e := range as.Lhs {
						if id := root(e); id != nil {
							if v, ok := x.TypesInfo.Uses[id].(*types.Var); ok {
								if _, used := vars[v]; used && !(v.Pos() >= l.Pos() && v.Pos() < l.End()) {
									vars[v] = true
								}
							}
						}
					}
				}
				return true
			})
		}
		return true
	})
	var ps, as []string
	for _, v := range order {
		t := strings.ReplaceAll(types.TypeString(v.Type(), qual), "any", "interface{}")
		if vars[v] {
			ps = append(ps, v.Name()+" *"+t)
			as = append(as, "&"+v.Name())
		} else {
			ps = append(ps, v.Name()+" "+t)
			as = append(as, v.Name())
		}
	}
	if bad {
		return "", false
	}
	a, b := fset.Position(from), fset.Position(to)
	body := src(a.Filename)[a.Offset:b.Offset]
	var es []edit
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := x.TypesInfo.Uses[id].(*types.Var); ok && vars[v] {
					o := fset.Position(id.Pos()).Offset - a.Offset
					es = append(es, edit{o, o + len(id.Name), "(*" + id.Name + ")"})
				}
			}
			if kv, ok := n.(*ast.KeyValueExpr); ok {
				if id, isID := kv.Key.(*ast.Ident); isID {
					if v, ok := x.TypesInfo.Uses[id].(*types.Var); ok && v.IsField() {
						_ = v
					}
				}
			}
			return true
		})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
	for _, e := range es {
		body = []byte(string(body[:e.off]) + e.s + string(body[e.end:]))
	}
	extracted++
	name := fmt.Sprintf("part%dOf%s", extracted, strings.Title(fn.Name.Name))
	tail[a.Filename] += fmt.Sprintf("\nfunc %s(%s) {\n%s\n}\n", name, strings.Join(ps, ", "), body)
	return fmt.Sprintf("%s(%s)", name, strings.Join(as, ", ")), true
}

func rewrite(x *packages.Package, f *ast.File) {
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil || *only != "" && fn.Name.Name != *only {
			continue
		}
		astutil.Apply(fn, func(c *astutil.Cursor) bool {
			s := c.Node()
			if s == nil || !chosen(where2(s, fn)) {
				return true
			}
			switch *mode {
			case "invert":
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else == nil {
					return true
				}
				e, ok := i.Else.(*ast.BlockStmt)
				if !ok {
					return true
				}
				init := ""
				if i.Init != nil {
					init = text(i.Init) + "; "
				}
				replace(i, fmt.Sprintf("if %s!(%s) %s else %s", init, text(i.Cond), text(e), text(i.Body)))
			case "closure":
				switch y := s.(type) {
				case *ast.ExprStmt:
					call, ok := y.X.(*ast.CallExpr)
					if !ok || c.Index() < 0 {
						return true
					}
					if id, ok := call.Fun.(*ast.Ident); ok && (id.Name == "panic" || id.Name == "recover") {
						return true
					}
					replace(y, "func() { "+text(y)+" }()")
				case *ast.IncDecStmt:
					if c.Index() >= 0 {
						replace(y, "func() { "+text(y)+" }()")
					}
				}
			case "cmp":
				b, ok := s.(*ast.BinaryExpr)
				if !ok || !pure(b) {
					return true
				}
				switch b.Op {
				case token.EQL, token.NEQ:
					replace(b, text(b.Y)+" "+b.Op.String()+" "+text(b.X))
				case token.LSS:
					replace(b, "!("+text(b.X)+" >= "+text(b.Y)+")")
				case token.GTR:
					replace(b, text(b.Y)+" < "+text(b.X))
				case token.LEQ:
					replace(b, "!("+text(b.X)+" > "+text(b.Y)+")")
				case token.GEQ:
					replace(b, text(b.Y)+" <= "+text(b.X))
				}
			case "demorgan":
				i, ok := s.(*ast.IfStmt)
				if !ok {
					return true
				}
				b, ok := i.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.LAND && b.Op != token.LOR {
					return true
				}
				op := "||"
				if b.Op == token.LOR {
					op = "&&"
				}
				replace(b, "!(!("+text(b.X)+") "+op+" !("+text(b.Y)+"))")
			case "nest":
				// if a && b { } => if a { if b { } }
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil {
					return true
				}
				b, ok := i.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.LAND {
					return true
				}
				init := ""
				if i.Init != nil {
					init = text(i.Init) + "; "
				}
				replace(i, fmt.Sprintf("if %s%s {\nif %s %s\n}", init, text(b.X), text(b.Y), text(i.Body)))
			case "cond":
				// the condition in a variable
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init != nil || c.Index() < 0 {
					return true
				}
				n++
				replace(i.Cond, fmt.Sprintf("cond%d := %s; cond%d", n, text(i.Cond), n))
			case "early":
				// if c { ...; return }; rest  =>  if c { ... } else { rest }, at the end of a function without results
				b, ok := s.(*ast.BlockStmt)
				if !ok || b != fn.Body || fn.Type.Results != nil {
					return true
				}
				for j, t := range b.List {
					i, ok := t.(*ast.IfStmt)
					if !ok || i.Else != nil || len(i.Body.List) == 0 || j+1 >= len(b.List) {
						continue
					}
					r, ok := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt)
					if !ok {
						continue
					}
					rest := string(src(fset.Position(b.Pos()).Filename)[fset.Position(b.List[j+1].Pos()).Offset:fset.Position(b.Rbrace).Offset])
					if strings.Contains(rest, ":\n") && strings.Contains(rest, "goto") {
						continue
					}
					body := string(src(fset.Position(b.Pos()).Filename)[fset.Position(i.Body.Lbrace).Offset:fset.Position(r.Pos()).Offset])
					init := ""
					if i.Init != nil {
						init = text(i.Init) + "; "
					}
					a := fset.Position(i.Pos())
					eds[a.Filename] = append(eds[a.Filename], edit{a.Offset, fset.Position(b.Rbrace).Offset, "if " + init + text(i.Cond) + " " + body + "} else {\n" + rest + "\n}\n"})
					n++
					return false
				}
			case "temp":
				// the arguments of a call in variables
				y, ok := s.(*ast.ExprStmt)
				if !ok || c.Index() < 0 {
					return true
				}
				call, ok := y.X.(*ast.CallExpr)
				if !ok || len(call.Args) == 0 || call.Ellipsis.IsValid() {
					return true
				}
				if id, ok := call.Fun.(*ast.Ident); ok {
					if _, isB := x.TypesInfo.Uses[id].(*types.Builtin); isB {
						return true
					}
				}
				if !pure(call.Fun) {
					return true
				}
				sig, _ := x.TypesInfo.TypeOf(call.Fun).Underlying().(*types.Signature)
				if sig == nil || sig.Variadic() {
					return true
				}
				var l, r []string
				for j, a := range call.Args {
					if tv := x.TypesInfo.Types[a]; tv.Value != nil || tv.IsNil() {
						return true
					}
					if _, isT := x.TypesInfo.TypeOf(a).(*types.Tuple); isT {
						return true
					}
					l = append(l, fmt.Sprintf("arg%d", j))
					r = append(r, text(a))
				}
				replace(y, fmt.Sprintf("{\n%s := %s\n%s(%s)\n}", strings.Join(l, ", "), strings.Join(r, ", "), text(call.Fun), strings.Join(l, ", ")))
			case "loop":
				r, ok := s.(*ast.RangeStmt)
				if !ok || r.Tok != token.DEFINE {
					return true
				}
				if _, isS := x.TypesInfo.TypeOf(r.X).Underlying().(*types.Slice); !isS {
					return true
				}
				has := false
				ast.Inspect(r.Body, func(m ast.Node) bool {
					if _, ok := m.(*ast.BranchStmt); ok {
						has = has || m.(*ast.BranchStmt).Label != nil
					}
					return true
				})
				if _, lab := c.Parent().(*ast.LabeledStmt); lab || has {
					return true
				}
				key, val := "iter", ""
				if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
					key = id.Name
				}
				if id, ok := r.Value.(*ast.Ident); ok && id.Name != "_" {
					val = fmt.Sprintf("%s := all[%s]\n", id.Name, key)
				}
				body := text(r.Body)
				replace(r, fmt.Sprintf("for all, %s := %s, 0; %s < len(all); %s++ {\n%s%s", key, text(r.X), key, key, val, body[1:]))
			case "extract":
				var list []ast.Stmt
				switch y := s.(type) {
				case *ast.BlockStmt:
					if y == fn.Body {
						return true
					}
					list = y.List
				case *ast.CaseClause:
					list = y.Body
				case *ast.CommClause:
					list = y.Body
				}
				one(x, f, fn, list)
			case "extract1":
				// single statements: loops, switches, ifs
				switch y := s.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.IfStmt:
					if c.Index() >= 0 {
						one(x, f, fn, []ast.Stmt{y.(ast.Stmt)})
					}
				}
			case "extract2":
				// pairs of statements
				b, ok := s.(*ast.BlockStmt)
				if !ok {
					return true
				}
				for j := 0; j+1 < len(b.List); j++ {
					if one(x, f, fn, b.List[j:j+2]) {
						j++
					}
				}
			case "swap":
				// exchange assignments to fields or variables that do not depend on each other
				b, ok := s.(*ast.BlockStmt)
				if !ok {
					return true
				}
				for j := 0; j+1 < len(b.List); j++ {
					p, ok1 := b.List[j].(*ast.AssignStmt)
					q, ok2 := b.List[j+1].(*ast.AssignStmt)
					if !ok1 || !ok2 || !pure(p) || !pure(q) {
						continue
					}
					if touches(p, q) || touches(q, p) {
						continue
					}
					a, e := fset.Position(p.Pos()), fset.Position(q.End())
					eds[a.Filename] = append(eds[a.Filename], edit{a.Offset, e.Offset, text(q) + "\n" + text(p)})
					n++
					j++
				}
			}
			return true
		}, nil)
	}
}

func touches(p, q *ast.AssignStmt) bool {
	for _, l := range p.Lhs {
		w := str(l)
		if strings.ContainsAny(w, "[*") {
			return true
		}
		bad := false
		ast.Inspect(q, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok && str(e) == w {
				bad = true
			}
			if _, ok := n.(*ast.StarExpr); ok {
				bad = true
			}
			return true
		})
		if bad {
			return true
		}
	}
	return false
}

func where2(s ast.Node, fn *ast.FuncDecl) string { return where(s, fn) }

func one(x *packages.Package, f *ast.File, fn *ast.FuncDecl, list []ast.Stmt) bool {
	if len(list) == 0 {
		return false
	}
	switch list[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return false
	}
	a, b := fset.Position(list[0].Pos()), fset.Position(list[len(list)-1].End())
	for _, e := range eds[a.Filename] {
		if a.Offset < e.end && e.off < b.Offset {
			return false
		}
	}
	old := tail[a.Filename]
	s, ok := extract(x, f, fn, list)
	if !ok {
		tail[a.Filename] = old
		return false
	}
	eds[a.Filename] = append(eds[a.Filename], edit{a.Offset, b.Offset, s})
	n++
	return true
}
