package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// A second view of the tree: functions the rules do not know are put back into their callers, and so are function
// literals called where they stand. The program does the same, so a property that can be decided on this view holds.

type inliner struct {
	read  func(string) []byte
	ps    []*packages.Package
	fset  *token.FileSet
	known map[string]bool
	decls map[types.Object]*inlined
	n     int
	over  map[string][]byte
	// calls of go and defer statements, and those of bodies that cannot stand in the caller
	started map[*ast.CallExpr]bool
}

type inlined struct {
	x     *packages.Package
	f     *ast.File
	d     *ast.FuncDecl // or
	l     *ast.FuncLit
	typ   *ast.FuncType
	body  *ast.BlockStmt
	sig   *types.Signature
	uses  int  // references in the module
	done  int  // of them put back
	ok    bool // its body can stand where it is called
	lit   bool // it can become a function literal
	keep  bool // others may call it
	calls map[types.Object]bool
}

type inlEdit struct {
	off, end int
	s        string
}

// inlineNew rewrites the tree once; nil when there is nothing to do.
func inlineNew(ps []*packages.Package, over map[string][]byte, round int) map[string][]byte {
	var base []*nameEntry
	json.Unmarshal(namesJSON, &base)
	il := &inliner{ps: ps, known: map[string]bool{}, decls: map[types.Object]*inlined{}, n: round * 1000, over: over}
	for _, e := range base {
		il.known[e.key()] = true
	}
	il.read = func(f string) []byte {
		if b, ok := over[f]; ok {
			return b
		}
		b, _ := os.ReadFile(f)
		return b
	}
	mine := func(x *packages.Package) bool {
		if x.Module == nil {
			return false
		}
		pk := strings.TrimPrefix(strings.TrimPrefix(x.PkgPath, x.Module.Path), "/")
		return !hasPrefixAny(pk, "test", "tool")
	}
	for _, x := range ps {
		il.fset = x.Fset
		if !mine(x) {
			continue
		}
		pk := strings.TrimPrefix(strings.TrimPrefix(x.PkgPath, x.Module.Path), "/")
		for _, f := range x.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "_" {
					continue
				}
				fn, _ := x.TypesInfo.Defs[fd.Name].(*types.Func)
				if fn == nil {
					continue
				}
				sig := fn.Type().(*types.Signature)
				owner := ""
				if r := sig.Recv(); r != nil {
					owner = typeBase(r.Type())
				}
				if il.known["func "+pk+" "+owner+" "+fd.Name.Name] {
					continue
				}
				c := &inlined{x: x, f: f, d: fd, typ: fd.Type, body: fd.Body, sig: sig}
				c.ok, c.keep = il.inlinable(c), fn.Exported()
				c.lit = sig.TypeParams().Len() == 0 && sig.RecvTypeParams().Len() == 0
				il.decls[fn] = c
			}
		}
	}
	il.started = map[*ast.CallExpr]bool{}
	for _, x := range ps {
		for _, f := range x.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				switch y := n.(type) {
				case *ast.GoStmt:
					il.started[y.Call] = true
				case *ast.DeferStmt:
					il.started[y.Call] = true
				}
				return true
			})
		}
		for _, o := range x.TypesInfo.Uses {
			if c := il.decls[o]; c != nil {
				c.uses++
			}
		}
	}
	// functions calling each other first become part of each other
	for _, c := range il.decls {
		c.calls = map[types.Object]bool{}
		ast.Inspect(c.body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := c.x.TypesInfo.Uses[id]; il.decls[o] != nil {
					c.calls[o] = true
				}
			}
			return true
		})
	}
	for o, c := range il.decls {
		seen := map[types.Object]bool{}
		var rec func(q types.Object)
		rec = func(q types.Object) {
			if seen[q] {
				return
			}
			seen[q] = true
			for t := range il.decls[q].calls {
				if t == o {
					c.ok, c.lit = false, false
				}
				rec(t)
			}
		}
		rec(o)
	}
	eds := map[string][]inlEdit{}
	any := false
	for _, x := range ps {
		if !mine(x) {
			continue
		}
		for _, f := range x.Syntax {
			es := il.file(x, f)
			if len(es) > 0 {
				name := x.Fset.Position(f.Pos()).Filename
				eds[name] = append(eds[name], es...)
				any = true
			}
		}
	}
	for _, c := range il.decls {
		if c.uses == c.done && (c.ok || c.lit) && !c.keep {
			a, b := il.fset.Position(c.d.Pos()), il.fset.Position(c.d.End())
			if c.d.Doc != nil {
				a = il.fset.Position(c.d.Doc.Pos())
			}
			clean := true
			var keep []inlEdit
			for _, e := range eds[a.Filename] {
				if e.off >= a.Offset && e.end <= b.Offset {
					continue // goes away with the function
				}
				keep = append(keep, e)
			}
			if clean {
				eds[a.Filename] = append(keep, inlEdit{a.Offset, b.Offset, ""})
				any = true
			}
		}
	}
	if !any {
		return nil
	}
	out := map[string][]byte{}
	for k, v := range over {
		out[k] = v
	}
	for f, es := range eds {
		sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
		src := il.read(f)
		var b bytes.Buffer
		at := 0
		for _, e := range es {
			if e.off < at {
				continue
			}
			b.Write(src[at:e.off])
			b.WriteString(e.s)
			at = e.end
		}
		b.Write(src[at:])
		out[f] = b.Bytes()
	}
	return out
}

// inlinable: nothing in the body is tied to the function itself.
func (il *inliner) inlinable(c *inlined) bool {
	if c.sig.TypeParams().Len() > 0 || c.sig.RecvTypeParams().Len() > 0 {
		return false
	}
	ok := true
	ast.Inspect(c.body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.FuncLit:
			// recover there is about the function it is deferred in
			return true
		case *ast.DeferStmt, *ast.LabeledStmt:
			if il.owner(c.body, n) {
				ok = false
			}
		case *ast.BranchStmt:
			if y.Tok == token.GOTO {
				ok = false
			}
		case *ast.CallExpr:
			if id, isID := y.Fun.(*ast.Ident); isID && id.Name == "recover" && il.owner(c.body, n) {
				ok = false
			}
		}
		return true
	})
	return ok
}

// owner: the node belongs to the body itself, not to a function literal in it.
func (il *inliner) owner(body *ast.BlockStmt, n ast.Node) bool {
	r := true
	ast.Inspect(body, func(m ast.Node) bool {
		if l, ok := m.(*ast.FuncLit); ok && l.Pos() <= n.Pos() && n.End() <= l.End() {
			r = false
		}
		return true
	})
	return r
}

func (il *inliner) text(x ast.Node) string {
	a, b := il.fset.Position(x.Pos()), il.fset.Position(x.End())
	src := il.read(a.Filename)
	if b.Offset > len(src) {
		return ""
	}
	return string(src[a.Offset:b.Offset])
}

// callee: what the call runs, when it can be put in its place.
func (il *inliner) callee(x *packages.Package, f *ast.File, e ast.Expr) (*ast.CallExpr, *inlined) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	call, ok := e.(*ast.CallExpr)
	if !ok {
		return nil, nil
	}
	switch fun := call.Fun.(type) {
	case *ast.FuncLit:
		sig, _ := x.TypesInfo.TypeOf(fun).(*types.Signature)
		if sig == nil {
			return nil, nil
		}
		c := &inlined{x: x, f: f, l: fun, typ: fun.Type, body: fun.Body, sig: sig}
		if il.inlinable(c) {
			return call, c
		}
	case *ast.Ident:
		if c := il.decls[x.TypesInfo.Uses[fun]]; c != nil && c.ok {
			return call, c
		}
	case *ast.SelectorExpr:
		if c := il.decls[x.TypesInfo.Uses[fun.Sel]]; c != nil && c.ok && c.x == x {
			return call, c
		}
	}
	return nil, nil
}

// file: the calls of a file put in place, at most one of two that overlap.
func (il *inliner) file(x *packages.Package, f *ast.File) []inlEdit {
	var es []inlEdit
	free := func(n ast.Node) bool {
		a, b := il.fset.Position(n.Pos()).Offset, il.fset.Position(n.End()).Offset
		for _, e := range es {
			if a < e.end && e.off < b {
				return false
			}
		}
		return true
	}
	put := func(n ast.Node, s string, c *inlined) {
		a, b := il.fset.Position(n.Pos()).Offset, il.fset.Position(n.End()).Offset
		es = append(es, inlEdit{a, b, s})
		if c.d != nil {
			c.done++
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if o := x.TypesInfo.Defs[fd.Name]; il.decls[o] != nil && (il.decls[o].ok || il.decls[o].lit) && il.decls[o].uses > 0 && !il.decls[o].keep {
			// goes into its callers: what it calls follows in the next round
			continue
		}
		hasGoto := false
		ast.Inspect(fd, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO {
				hasGoto = true
			}
			return true
		})
		astutil.Apply(fd, nil, func(cur *astutil.Cursor) bool {
			s, ok := cur.Node().(ast.Stmt)
			if !ok {
				if e, isE := cur.Node().(ast.Expr); isE && free(e) {
					if t, c, n := il.value(x, f, e, cur.Parent()); c != nil {
						put(n, t, c)
					}
				}
				return true
			}
			if fs, isFor := s.(*ast.ForStmt); isFor && fs.Cond != nil && free(fs.Cond) && free(fs.Body) {
				if call, c := il.firstCall(x, f, fs.Cond); c != nil {
					if t, rs, ok := il.expand(x, f, call, c); ok && len(rs) == 1 {
						body := il.text(fs.Body)
						at := il.fset.Position(fs.Body.Lbrace).Offset
						es = append(es, inlEdit{il.fset.Position(fs.Cond.Pos()).Offset, il.fset.Position(fs.Cond.End()).Offset, ""})
						es = append(es, inlEdit{at, at + len(body), "{\n" + t + "if !(" + il.swap(fs.Cond, call, rs[0]) + ") {\nbreak\n}\n" + body[1:]})
						if c.d != nil {
							c.done++
						}
					}
				}
				return true
			}
			if cur.Index() < 0 && !(cur.Name() == "Else" && isIf(s)) || !free(s) {
				return true
			}
			switch cur.Parent().(type) {
			case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.IfStmt:
			default:
				return true
			}
			if _, isCase := s.(*ast.CaseClause); isCase {
				return true
			}
			if _, isComm := s.(*ast.CommClause); isComm {
				return true
			}
			if cc, isComm := cur.Parent().(*ast.CommClause); isComm && cc.Comm == s {
				return true
			}
			// a call inside the statement, evaluated before anything else
			hoist := func(es ...ast.Expr) {
				call, c := il.firstCall(x, f, es...)
				if c == nil {
					return
				}
				t, rs, ok := il.expand(x, f, call, c)
				if !ok || len(rs) != 1 {
					return
				}
				as, isAs := s.(*ast.AssignStmt)
				_, isDecl := s.(*ast.DeclStmt)
				if isDecl || isAs && as.Tok == token.DEFINE {
					if !hasGoto {
						put(s, t+il.swap(s, call, rs[0]), c)
					}
					return
				}
				put(s, "{\n"+t+il.swap(s, call, rs[0])+"\n}", c)
			}
			switch y := s.(type) {
			case *ast.ExprStmt:
				call, c := il.callee(x, f, y.X)
				if c == nil {
					hoist(y.X)
					return true
				}
				if t, rs, ok := il.expand(x, f, call, c); ok {
					r := ""
					for _, v := range rs {
						r += "_ = " + v + "; "
					}
					put(s, "{\n"+t+r+"\n}", c)
				}
			case *ast.AssignStmt:
				var call *ast.CallExpr
				var c *inlined
				if len(y.Rhs) == 1 && (y.Tok == token.ASSIGN || y.Tok == token.DEFINE) {
					call, c = il.callee(x, f, y.Rhs[0])
				}
				if c == nil {
					if y.Tok == token.DEFINE {
						hoist(y.Rhs...)
					} else {
						hoist(append(append([]ast.Expr{}, y.Lhs...), y.Rhs...)...)
					}
					return true
				}
				for _, l := range y.Lhs {
					// evaluated before the call
					if _, isID := l.(*ast.Ident); !isID && !plain(l) {
						return true
					}
				}
				if y.Tok == token.DEFINE && hasGoto {
					return true
				}
				if t, rs, ok := il.expand(x, f, call, c); ok && len(rs) == len(y.Lhs) {
					var ls []string
					for _, l := range y.Lhs {
						ls = append(ls, il.text(l))
					}
					as := strings.Join(ls, ", ") + " " + y.Tok.String() + " " + strings.Join(rs, ", ")
					if y.Tok == token.DEFINE {
						put(s, t+as, c)
					} else {
						put(s, "{\n"+t+as+"\n}", c)
					}
				}
			case *ast.ReturnStmt:
				var call *ast.CallExpr
				var c *inlined
				if len(y.Results) == 1 {
					call, c = il.callee(x, f, y.Results[0])
				}
				if c == nil {
					hoist(y.Results...)
					return true
				}
				if t, rs, ok := il.expand(x, f, call, c); ok {
					put(s, "{\n"+t+"return "+strings.Join(rs, ", ")+"\n}", c)
				}
			case *ast.SendStmt:
				hoist(y.Chan, y.Value)
			case *ast.IncDecStmt:
				hoist(y.X)
			case *ast.GoStmt:
				hoist(callOperands(y.Call)...)
			case *ast.DeferStmt:
				hoist(callOperands(y.Call)...)
			case *ast.RangeStmt:
				hoist(y.X)
			case *ast.SwitchStmt:
				if y.Init == nil && y.Tag != nil {
					hoist(y.Tag)
				}
			case *ast.DeclStmt:
				if g, isG := y.Decl.(*ast.GenDecl); isG && g.Tok == token.VAR && len(g.Specs) == 1 {
					hoist(g.Specs[0].(*ast.ValueSpec).Values...)
				}
			case *ast.SelectStmt:
				var all []ast.Expr
				for _, k := range y.Body.List {
					switch m := k.(*ast.CommClause).Comm.(type) {
					case *ast.SendStmt:
						all = append(all, m.Chan, m.Value)
					case *ast.ExprStmt:
						all = append(all, recvFrom(m.X))
					case *ast.AssignStmt:
						all = append(all, recvFrom(m.Rhs[0]))
					}
				}
				hoist(all...)
			case *ast.IfStmt:
				if as, isAs := y.Init.(*ast.AssignStmt); isAs && len(as.Rhs) == 1 {
					call, c := il.callee(x, f, as.Rhs[0])
					if c == nil || as.Tok != token.DEFINE && as.Tok != token.ASSIGN {
						return true
					}
					for _, l := range as.Lhs {
						if _, isID := l.(*ast.Ident); !isID {
							return true
						}
					}
					if t, rs, ok := il.expand(x, f, call, c); ok && len(rs) == len(as.Lhs) {
						tx := il.text(y)
						a, b := il.fset.Position(as.Rhs[0].Pos()).Offset-il.fset.Position(y.Pos()).Offset, il.fset.Position(as.Rhs[0].End()).Offset-il.fset.Position(y.Pos()).Offset
						put(s, "{\n"+t+tx[:a]+strings.Join(rs, ", ")+tx[b:]+"\n}", c)
					}
					return true
				}
				if y.Init != nil {
					return true
				}
				hoist(y.Cond)
			}
			return true
		})
	}
	return es
}

func isIf(s ast.Stmt) bool {
	_, ok := s.(*ast.IfStmt)
	return ok
}

func recvFrom(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X
	}
	return e
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// callOperands: what a go or defer statement evaluates right away.
func callOperands(c *ast.CallExpr) []ast.Expr {
	var es []ast.Expr
	if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		es = append(es, s.X)
	}
	return append(es, c.Args...)
}

// swap: the text of n with the call replaced.
func (il *inliner) swap(n, call ast.Node, by string) string {
	t := il.text(n)
	o := il.fset.Position(n.Pos()).Offset
	return t[:il.fset.Position(call.Pos()).Offset-o] + by + t[il.fset.Position(call.End()).Offset-o:]
}

// firstCall: the call evaluated before every other, when it can be put in its place.
func (il *inliner) firstCall(x *packages.Package, f *ast.File, es ...ast.Expr) (*ast.CallExpr, *inlined) {
	var call *ast.CallExpr
	var c *inlined
	var visit func(e ast.Expr) bool // false: stop
	all := func(es ...ast.Expr) bool {
		for _, e := range es {
			if e != nil && !visit(e) {
				return false
			}
		}
		return true
	}
	visit = func(e ast.Expr) bool {
		switch y := e.(type) {
		case *ast.ParenExpr:
			return visit(y.X)
		case *ast.SelectorExpr:
			return visit(y.X)
		case *ast.StarExpr:
			return visit(y.X)
		case *ast.TypeAssertExpr:
			return visit(y.X)
		case *ast.IndexExpr:
			return all(y.X, y.Index)
		case *ast.SliceExpr:
			return all(y.X, y.Low, y.High, y.Max)
		case *ast.KeyValueExpr:
			return all(y.Key, y.Value)
		case *ast.CompositeLit:
			return all(y.Elts...)
		case *ast.UnaryExpr:
			return visit(y.X) && y.Op != token.ARROW
		case *ast.BinaryExpr:
			if !visit(y.X) {
				return false
			}
			if y.Op != token.LAND && y.Op != token.LOR {
				return visit(y.Y)
			}
			return !acts(y.Y)
		case *ast.CallExpr:
			if tv := x.TypesInfo.Types[y.Fun]; tv.IsType() {
				return all(y.Args...)
			}
			if _, isLit := y.Fun.(*ast.FuncLit); !isLit && !visit(y.Fun) || !all(y.Args...) {
				return false
			}
			if tv := x.TypesInfo.Types[y.Fun]; tv.IsBuiltin() {
				switch b := unparen(y.Fun).(type) {
				case *ast.Ident:
					return b.Name == "len" || b.Name == "cap" || b.Name == "new" || b.Name == "append"
				}
				return false
			}
			call, c = il.callee(x, f, y)
			return false
		}
		return true
	}
	all(es...)
	return call, c
}

// acts: evaluating it may call or wait for something.
func acts(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			r = true
		case *ast.UnaryExpr:
			r = r || y.Op == token.ARROW
		}
		return true
	})
	return r
}

// value: an unknown function as a value, or one called by go or defer or
// one whose body is tied to it, becomes a function literal.
func (il *inliner) value(x *packages.Package, f *ast.File, e ast.Expr, parent ast.Node) (string, *inlined, ast.Node) {
	var o types.Object
	var recv ast.Expr
	switch y := e.(type) {
	case *ast.Ident:
		if se, ok := parent.(*ast.SelectorExpr); ok && se.Sel == y {
			return "", nil, nil
		}
		o = x.TypesInfo.Uses[y]
	case *ast.SelectorExpr:
		o = x.TypesInfo.Uses[y.Sel]
		recv = y.X
	default:
		return "", nil, nil
	}
	c := il.decls[o]
	if c == nil || !c.lit || c.x != x {
		return "", nil, nil
	}
	if call, ok := parent.(*ast.CallExpr); ok && unparen(call.Fun) == e && c.ok && !il.started[call] {
		return "", nil, nil // the body goes there
	}
	if (recv != nil) != (c.sig.Recv() != nil) {
		return "", nil, nil
	}
	qual, good := il.qualifier(x, f)
	if !il.sameNames(x, c, e.Pos()) {
		return "", nil, nil
	}
	head := ""
	if r := c.sig.Recv(); r != nil {
		id, isID := recv.(*ast.Ident)
		if !isID || !il.constant(x, x.TypesInfo.Uses[id]) {
			return "", nil, nil
		}
		t := x.TypesInfo.TypeOf(recv)
		if !types.Identical(t, r.Type()) {
			return "", nil, nil
		}
		if r.Name() != "" && r.Name() != "_" && r.Name() != id.Name {
			// the parameters may hide the name
			for i := 0; i < c.sig.Params().Len(); i++ {
				if c.sig.Params().At(i).Name() == id.Name {
					return "", nil, nil
				}
			}
			for i := 0; i < c.sig.Results().Len(); i++ {
				if c.sig.Results().At(i).Name() == id.Name {
					return "", nil, nil
				}
			}
			head = r.Name() + " := " + id.Name + "; _ = " + r.Name() + "\n"
		}
	}
	ty := types.TypeString(types.NewSignatureType(nil, nil, nil, c.sig.Params(), c.sig.Results(), c.sig.Variadic()), qual)
	if !*good {
		return "", nil, nil
	}
	body := il.text(c.body)
	return replaceWord(ty, "any", "interface{}") + " {\n" + head + body[1:], c, e
}

// constant: a variable of a function that is set once.
func (il *inliner) constant(x *packages.Package, o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.Parent() == x.Types.Scope() {
		return false
	}
	n := 0
	for _, f := range x.Syntax {
		if v.Pos() < f.Pos() || v.Pos() > f.End() {
			continue
		}
		ast.Inspect(f, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, ok := unparen(l).(*ast.Ident); ok && x.TypesInfo.Uses[id] == o {
						n++
					}
				}
			case *ast.UnaryExpr:
				if id, ok := unparen(y.X).(*ast.Ident); ok && y.Op == token.AND && x.TypesInfo.Uses[id] == o {
					n++
				}
			case *ast.IncDecStmt:
				if id, ok := unparen(y.X).(*ast.Ident); ok && x.TypesInfo.Uses[id] == o {
					n++
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{y.Key, y.Value} {
					if id, ok := l.(*ast.Ident); ok && x.TypesInfo.Uses[id] == o {
						n++
					}
				}
			}
			return true
		})
	}
	return n == 0
}

// plain: nothing is called to evaluate it and nothing else changes it.
func plain(e ast.Expr) bool {
	switch y := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return plain(y.X)
	case *ast.ParenExpr:
		return plain(y.X)
	}
	return false
}

// qualifier names packages as the file does.
func (il *inliner) qualifier(x *packages.Package, f *ast.File) (types.Qualifier, *bool) {
	good := true
	return func(p *types.Package) string {
		if p == x.Types {
			return ""
		}
		for _, im := range f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		good = false
		return p.Name()
	}, &good
}

// sameNames: the names of the body mean the same at the place.
func (il *inliner) sameNames(x *packages.Package, c *inlined, pos token.Pos) bool {
	if c.d == nil {
		return true
	}
	good := true
	inner := il.innermost(x, pos)
	ast.Inspect(c.d, func(n ast.Node) bool {
		y, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := c.x.TypesInfo.Uses[y]
		if o == nil {
			return true
		}
		if o.Parent() != x.Types.Scope() && o.Parent() != types.Universe {
			if _, isPkg := o.(*types.PkgName); !isPkg {
				return true
			}
		}
		_, got := inner.LookupParent(o.Name(), pos)
		if p, isPkg := o.(*types.PkgName); isPkg {
			q, _ := got.(*types.PkgName)
			if q == nil || q.Imported() != p.Imported() {
				good = false
			}
		} else if got != o {
			good = false
		}
		return true
	})
	return good
}

// expand: the text running the body for the call, and the variables with its results.
func (il *inliner) expand(x *packages.Package, f *ast.File, call *ast.CallExpr, c *inlined) (string, []string, bool) {
	if c.x != x {
		return "", nil, false
	}
	qual, good := il.qualifier(x, f)
	ts := func(t types.Type) string {
		s := types.TypeString(t, qual)
		return replaceWord(s, "any", "interface{}")
	}
	if !il.sameNames(x, c, call.Pos()) {
		return "", nil, false
	}
	il.n++
	id := fmt.Sprintf("inl%d", il.n)
	var b strings.Builder
	var rs []string
	res := c.sig.Results()
	for i := 0; i < res.Len(); i++ {
		v := fmt.Sprintf("%sr%d", id, i)
		rs = append(rs, v)
		fmt.Fprintf(&b, "var %s %s\n", v, ts(res.At(i).Type()))
	}
	// arguments
	var ls, as []string
	if r := c.sig.Recv(); r != nil && c.d != nil {
		se, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return "", nil, false
		}
		sel := x.TypesInfo.Selections[se]
		if sel == nil || sel.Kind() != types.MethodVal {
			return "", nil, false
		}
		e := il.text(se.X)
		t := sel.Recv()
		for _, i := range sel.Index()[:len(sel.Index())-1] {
			st := structOfPtr(t)
			if st == nil {
				return "", nil, false
			}
			e += "." + st.Field(i).Name()
			t = st.Field(i).Type()
		}
		_, have := t.Underlying().(*types.Pointer)
		_, want := r.Type().(*types.Pointer)
		switch {
		case have && !want:
			e = "*" + e
		case want && !have:
			e = "&" + e
		}
		if r.Name() != "" && r.Name() != "_" {
			ls = append(ls, r.Name())
			as = append(as, e)
		}
	}
	ps := c.sig.Params()
	args := call.Args
	var rest []ast.Expr
	last := -1
	if c.sig.Variadic() && !call.Ellipsis.IsValid() {
		last = ps.Len() - 1
		if len(args) < last {
			return "", nil, false
		}
		args, rest = args[:last:last], args[last:]
		args = append(args, nil)
	}
	if ps.Len() != len(args) {
		return "", nil, false
	}
	var subs []inlEdit
	for i := 0; i < ps.Len(); i++ {
		n := ps.At(i).Name()
		if n == "" {
			n = "_"
		}
		var a string
		if i == last {
			var el []string
			for _, r := range rest {
				el = append(el, il.text(r))
			}
			a = ts(ps.At(i).Type()) + "{" + strings.Join(el, ", ") + "}"
			if len(el) == 0 {
				a = "(" + ts(ps.At(i).Type()) + ")(nil)"
			}
		} else {
			if es, ok := il.pointed(x, c, ps.At(i), args[i]); ok {
				subs = append(subs, es...)
				continue
			}
			a = il.text(args[i])
			at := x.TypesInfo.TypeOf(args[i])
			if tv := x.TypesInfo.Types[args[i]]; tv.Value != nil || tv.IsNil() || !types.Identical(at, ps.At(i).Type()) {
				t := ts(ps.At(i).Type())
				a = "(" + t + ")(" + a + ")"
			}
		}
		ls = append(ls, n)
		as = append(as, a)
	}
	sort.Slice(subs, func(i, j int) bool { return subs[i].off < subs[j].off })
	fmt.Fprintf(&b, "%s:\nfor {\n", id)
	if len(ls) > 0 {
		all := true
		for _, l := range ls {
			all = all && l == "_"
		}
		op := ":="
		if all {
			op = "="
		}
		fmt.Fprintf(&b, "%s %s %s\n", strings.Join(ls, ", "), op, strings.Join(as, ", "))
		for _, l := range ls {
			if l != "_" {
				fmt.Fprintf(&b, "_ = %s\n", l)
			}
		}
	}
	named := res.Len() > 0 && res.At(0).Name() != ""
	if named {
		for i := 0; i < res.Len(); i++ {
			if n := res.At(i).Name(); n != "_" {
				fmt.Fprintf(&b, "var %s %s\n_ = %s\n", n, ts(res.At(i).Type()), n)
			}
		}
	}
	if !*good {
		return "", nil, false
	}
	b.WriteString("{\n")
	// the body with its returns
	base := il.fset.Position(c.body.Lbrace).Offset + 1
	end := il.fset.Position(c.body.Rbrace).Offset
	src := il.read(il.fset.Position(c.body.Lbrace).Filename)
	if end > len(src) {
		return "", nil, false
	}
	var es []inlEdit
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				s := ""
				if len(y.Results) > 0 {
					var vs []string
					for _, e := range y.Results {
						vs = append(vs, il.textWith(e, subs))
					}
					s = strings.Join(rs, ", ") + " = " + strings.Join(vs, ", ") + "\n"
				} else if named {
					for i := 0; i < res.Len(); i++ {
						if n := res.At(i).Name(); n != "_" {
							s += rs[i] + " = " + n + "\n"
						}
					}
				}
				es = append(es, inlEdit{il.fset.Position(y.Pos()).Offset, il.fset.Position(y.End()).Offset, "{\n" + s + "break " + id + "\n}"})
				return false
			}
			return true
		})
	}
	for _, s := range c.body.List {
		walk(s)
	}
	for _, q := range subs {
		in := false
		for _, e := range es {
			in = in || q.off >= e.off && q.end <= e.end
		}
		if !in {
			es = append(es, q)
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
	at := base
	for _, e := range es {
		b.Write(src[at:e.off])
		b.WriteString(e.s)
		at = e.end
	}
	b.Write(src[at:end])
	b.WriteString("\n}\n")
	fmt.Fprintf(&b, "break %s\n}\n", id)
	return b.String(), rs, true
}

// textWith: the text of n with edits.
func (il *inliner) textWith(n ast.Node, es []inlEdit) string {
	a, b := il.fset.Position(n.Pos()), il.fset.Position(n.End())
	src := il.read(a.Filename)
	if b.Offset > len(src) {
		return ""
	}
	var w strings.Builder
	at := a.Offset
	for _, e := range es {
		if e.off < at || e.end > b.Offset {
			continue
		}
		w.Write(src[at:e.off])
		w.WriteString(e.s)
		at = e.end
	}
	w.Write(src[at:b.Offset])
	return w.String()
}

// pointed: a parameter given the address of a variable stands for the variable itself.
func (il *inliner) pointed(x *packages.Package, c *inlined, p *types.Var, arg ast.Expr) ([]inlEdit, bool) {
	u, ok := unparen(arg).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND || p.Name() == "" || p.Name() == "_" {
		return nil, false
	}
	v, ok := unparen(u.X).(*ast.Ident)
	if !ok {
		return nil, false
	}
	if vo, ok := x.TypesInfo.Uses[v].(*types.Var); !ok || vo.Parent() == x.Types.Scope() {
		return nil, false
	}
	var root ast.Node = c.d
	if c.d == nil {
		root = c.l
	}
	var es []inlEdit
	good := true
	off := func(n ast.Node) (int, int) {
		return il.fset.Position(n.Pos()).Offset, il.fset.Position(n.End()).Offset
	}
	used := map[*ast.Ident]bool{}
	ast.Inspect(root, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.Ident:
			if o := c.x.TypesInfo.Defs[y]; o != nil && o != types.Object(p) && y.Name == v.Name {
				if ov, isVar := o.(*types.Var); !isVar || !ov.IsField() {
					good = false
				}
			}
			if c.x.TypesInfo.Uses[y] == types.Object(p) && !used[y] {
				a, b := off(y)
				es = append(es, inlEdit{a, b, "(&" + v.Name + ")"})
			}
		case *ast.ParenExpr:
			if st, ok := y.X.(*ast.StarExpr); ok {
				if id, ok := unparen(st.X).(*ast.Ident); ok && c.x.TypesInfo.Uses[id] == types.Object(p) {
					used[id] = true
					a, b := off(y)
					es = append(es, inlEdit{a, b, v.Name})
				}
			}
		case *ast.StarExpr:
			if id, ok := unparen(y.X).(*ast.Ident); ok && c.x.TypesInfo.Uses[id] == types.Object(p) && !used[id] {
				used[id] = true
				a, b := off(y)
				es = append(es, inlEdit{a, b, v.Name})
			}
		case *ast.SelectorExpr:
			if id, ok := y.X.(*ast.Ident); ok && c.x.TypesInfo.Uses[id] == types.Object(p) {
				used[id] = true
				a, b := off(id)
				es = append(es, inlEdit{a, b, v.Name})
			}
		case *ast.UnaryExpr:
			if id, ok := unparen(y.X).(*ast.Ident); ok && y.Op == token.AND && c.x.TypesInfo.Uses[id] == types.Object(p) {
				good = false
			}
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if id, ok := unparen(l).(*ast.Ident); ok && c.x.TypesInfo.Uses[id] == types.Object(p) {
					good = false
				}
			}
		}
		return true
	})
	return es, good
}

// innermost scope at a position.
func (il *inliner) innermost(x *packages.Package, pos token.Pos) *types.Scope {
	if s := x.Types.Scope().Innermost(pos); s != nil {
		return s
	}
	return x.Types.Scope()
}

// inlineAll repeats until nothing is left to put back.
func inlineAll(cfg *packages.Config, ps []*packages.Package, over map[string][]byte) []*packages.Package {
	changed := false
	for round := 1; round <= 8; round++ {
		next := inlineNew(ps, over, round)
		if next == nil {
			break
		}
		qs := loadOver(cfg, next)
		if qs == nil {
			break
		}
		ps, over, changed = qs, next, true
	}
	if os.Getenv("CHK_INLINED") != "" {
		for f, b := range over {
			os.WriteFile(os.Getenv("CHK_INLINED")+"/"+strings.ReplaceAll(strings.TrimPrefix(f, cfg.Dir+"/"), "/", "_"), b, 0o644)
		}
	}
	if !changed {
		return nil
	}
	return ps
}

// loadOver loads the rewritten tree; imports no longer used are dropped.
func loadOver(cfg *packages.Config, over map[string][]byte) []*packages.Package {
	for try := 0; try < 3; try++ {
		c2 := *cfg
		c2.Overlay = over
		qs, err := packages.Load(&c2, "./...")
		if err != nil {
			return nil
		}
		bad, fixed := false, false
		for _, x := range qs {
			for _, e := range x.Errors {
				bad = true
				if os.Getenv("CHK_INLINED") != "" {
					fmt.Fprintln(os.Stderr, "inline:", e)
				}
				if !strings.Contains(e.Msg, "imported and not used") && !strings.Contains(e.Msg, "imported as") {
					continue
				}
				var file string
				var line int
				parts := strings.Split(e.Pos, ":")
				if len(parts) < 2 {
					continue
				}
				file = parts[0]
				fmt.Sscan(parts[1], &line)
				src, ok := over[file]
				if !ok {
					src, _ = os.ReadFile(file)
				}
				ls := strings.Split(string(src), "\n")
				if line < 1 || line > len(ls) {
					continue
				}
				l := ls[line-1]
				i := strings.Index(l, `"`)
				if i < 0 {
					continue
				}
				pre := ""
				if strings.HasPrefix(strings.TrimSpace(l), "import") {
					pre = "import "
				}
				ls[line-1] = pre + "_ " + l[i:]
				over[file] = []byte(strings.Join(ls, "\n"))
				fixed = true
			}
		}
		if !bad {
			return qs
		}
		if !fixed {
			return nil
		}
	}
	return nil
}
