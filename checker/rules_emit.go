package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

func init() {
	reg("C38", "abstract interpretation of the generator for an arbitrary main and sub service of two methods each (names, packages and encodings of argument and result arbitrary): the text every path emits, with a placeholder for each unknown, is parsed and type checked against the library's packages, and its client methods, interfaces and dispatcher entries are compared with the methods registered", c38)
}

const c38stub = `package PKG
type InT struct{}
func (*InT) Marshal() ([]byte, error) { return nil, nil }
func (*InT) Unmarshal([]byte) error { return nil }
type OutT struct{}
func (*OutT) Marshal() ([]byte, error) { return nil, nil }
func (*OutT) Unmarshal([]byte) error { return nil }
func (*OutT) SetError(error) {}
`

type emitImporter struct {
	p    *Program
	stub map[string]*types.Package
}

func (im *emitImporter) Import(path string) (*types.Package, error) {
	if path == "stub/in" || path == "stub/out" {
		if im.stub[path] == nil {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, "", strings.Replace(c38stub, "PKG", path[5:], 1), 0)
			if err != nil {
				return nil, err
			}
			p, err := (&types.Config{}).Check(path, fset, []*ast.File{f}, nil)
			if err != nil {
				return nil, err
			}
			im.stub[path] = p
		}
		return im.stub[path], nil
	}
	var r *types.Package
	packages.Visit(im.p.Pkgs, nil, func(x *packages.Package) {
		if x.PkgPath == path {
			r = x.Types
		}
	})
	if r == nil {
		return nil, &types.Error{Msg: "no package " + path}
	}
	return r, nil
}

func c38(c *Check) {
	fn := c.fn("codegen.Generator.Generate")
	const fnP, fnUnexp = "codegen.Generator.P", "codegen.unexport"
	fSvc, fName := c.field("codegen", "Generator", "services"), c.field("codegen", "Generator", "serviceName")
	fRPC, fErr := c.field("codegen", "Generator", "rpcCmd"), c.field("codegen", "Generator", "errCmd")
	if fn == nil || c.fn(fnP) == nil || fSvc == nil || fName == nil || fRPC == nil || fErr == nil {
		return
	}
	g := vSym("g", fn.Params[0].Type())
	str := types.Typ[types.String]
	svcT := fSvc.Type().Underlying().(*types.Map)
	inner := svcT.Elem()
	methT := inner.Underlying().(*types.Map).Elem()
	empty := vConst(constant.MakeString(""))
	NS := vSym("#ns", str)
	names := []*V{vSym("#name1", str), vSym("#name2", str)}
	meth := []*V{vSym("#method1", methT), vSym("#method2", methT)}
	mains, subs := vSym("#main", inner), vSym("#sub", inner)
	vArgs := func(name string) func(t types.Type, a ...*V) *V {
		return func(t types.Type, a ...*V) *V {
			for i := range a {
				a[i] = sym(a[i])
			}
			return vPure(name, t, a...)
		}
	}
	pures := map[string]func(args []*V) *V{}
	one := func(suffix, name string, t types.Type) {
		pures[suffix] = func(args []*V) *V { return vArgs(name)(t, args[:1]...) }
	}
	typeSl := types.NewSlice(types.NewInterfaceType(nil, nil))
	ins, outs := vSym("#ins", typeSl), vSym("#outs", typeSl)
	pures["util.FuncInputTypes"] = func([]*V) *V { return ins }
	pures["util.FuncOutputTypes"] = func([]*V) *V { return outs }
	one("reflect.Type.PkgPath", "pkg", str)
	one("reflect.Type.Name", "tname", str)
	one("strconv.Quote", "quote", str)
	one(fnUnexp, "unexport", str)
	one("RegisterUniquePackageName", "alias", str)
	one("filepath.Base", "pkgname", str)
	one("strings.ToLower", "lower", str)
	one("reflect.PtrTo", "ptr", nil)
	one("reflect.PointerTo", "ptr", nil)
	pures["reflect.Type.Implements"] = func(a []*V) *V { return vArgs("impl")(types.Typ[types.Bool], a[0], a[1]) }
	pure := func(name string, args []*V) *V {
		for k, f := range pures {
			if strings.HasSuffix(name, k) {
				return f(args)
			}
		}
		return nil
	}
	texts := map[string]bool{}
	im := &emitImporter{c.p, map[string]*types.Package{}}
	cfg := Config{NoKill: true, KeepPre: true, Exact: true, Concrete: true, Opaque: opaqueSet(fnP, fnUnexp),
		PureCall: func(string) bool { return true },
		Result: func(s *State, name string, args []*V) *V {
			if name == "fmt.Sprintf" {
				return sprintf(s, args)
			}
			return pure(name, args)
		},
		Range: func(s *State, m *V) (ks, vs []*V, ok bool) {
			switch {
			case m.typ != nil && types.Identical(m.typ, fSvc.Type()):
				return []*V{empty, NS}, []*V{mains, subs}, true
			case strip(m) == mains || strip(m) == subs:
				return names, meth, true
			}
			mon := s.mons[0].(*M)
			for i := 0; i < mon.n["pkgs"]; i++ {
				if mon.t["map"+itoa(i)] == sym(m) {
					ks, vs, ok = append(ks, mon.t["path"+itoa(i)]), append(vs, mon.t["alias"+itoa(i)]), true
				}
			}
			return ks, vs, ok
		}}
	init := func(s *State) {
		svc := s.load(vField(g, fSvc), fSvc.Type())
		s.mem[vMapEl(svc, empty)] = mains
		s.mem[vMapEl(svc, NS)] = subs
		for i := range names {
			s.mem[vMapEl(mains, names[i])] = meth[i]
			s.mem[vMapEl(subs, names[i])] = meth[i]
		}
		s.facts.assume(vEq(NS, empty), false)
		s.facts.assume(vEq(names[0], names[1]), false)
	}
	c.exploreInit(cfg, fn, []*V{g}, nil, init, newM("emit", func(m *M, s *State, e *Event) {
		ofIn := func(v *V) int { // which of the two types a question is about
			v = sym(v)
			if v.k == KLoad && v.args[0].k == KIdx {
				switch i, ok := v.args[0].args[1].intC(); {
				case v.args[0].args[0] == ins && ok && i == 1:
					return 1
				case v.args[0].args[0] == outs && ok && i == 0:
					return 2
				}
			}
			return 0
		}
		switch {
		case e.Kind == EvMapUpdate && shortType(e.Addr.typ) == "map[string]string":
			n := itoa(m.n["pkgs"])
			m.t["map"+n], m.t["path"+n], m.t["alias"+n] = sym(e.Addr), sym(e.Args[0]), sym(e.Val)
			m.n["pkgs"]++
		case e.Kind == EvMapLookup && shortType(e.Addr.typ) == "map[string]string":
			have := false
			for i := 0; i < m.n["pkgs"]; i++ {
				have = have || m.t["path"+itoa(i)] == sym(e.Args[0]) && m.t["map"+itoa(i)] == sym(e.Addr)
			}
			if have != (e.Op == "hit") {
				s.dead = true
			}
		case e.Kind == EvCall && e.Name == fnP:
			render := func(raw *V) string {
				quote := raw.k == KIface && raw.typ != nil && strings.HasSuffix(shortType(raw.typ), "GoImportPath")
				text := m.leaf(s, stripConv(sym(raw)), g, fName, fRPC, fErr, NS, names, ofIn)
				if quote {
					return strconv.Quote(text)
				}
				return text
			}
			text := ""
			n, _ := vLen(strip(e.Args[1])).intC()
			for i := int64(0); i < n; i++ {
				var x *V
				if sl := sym(e.Args[1]); e.Pre != nil {
					x = e.Pre[vIdx(sl, vInt(i))]
				}
				if x == nil {
					text += "UNKNOWN_"
					continue
				}
				text += render(x)
			}
			if m.t["text"] != nil {
				text = constant.StringVal(m.t["text"].c) + text
			}
			m.t["text"] = vConst(constant.MakeString(text + "\n"))
		case e.Kind == EvReturn:
			text := ""
			if m.t["text"] != nil {
				text = constant.StringVal(m.t["text"].c)
			}
			// a type without package is a basic one: it marshals nothing itself; results are named types
			inPkg, outPkg := m.unnamed(s, ins, 1), m.unnamed(s, outs, 0)
			if outPkg == 1 {
				return
			}
			if inPkg == 1 && strings.Contains(text, "input.Unmarshal(") {
				return
			}
			c.ob("program", "path "+itoa(len(texts)))
			c.at("program", e.In)
			if texts[text] {
				return
			}
			texts[text] = true
			c.emitted(text, im, func(k, format string, a ...interface{}) { c.bad("program", k, e.In, s, format, a...) })
		}
	}))
	if len(texts) < 6 {
		c.report("program", "paths", c.p.pos(fn.Pos()), "not every kind of service was seen: "+itoa(len(texts)), nil)
	}
}

// unnamed: whether the package of a type is known empty.
func (m *M) unnamed(s *State, list *V, i int64) int {
	el := mk(KLoad, 0, nil, 0, list.typ.(*types.Slice).Elem(), nil, vIdx(list, vInt(i)))
	return s.facts.eval(vEq(vPure("pkg", types.Typ[types.String], el), vConst(constant.MakeString(""))))
}

// leaf is the text standing for one value emitted.
func (m *M) leaf(s *State, l, g *V, fName, fRPC, fErr *types.Var, NS *V, names []*V, which func(*V) int) string {
	if l.k == KConst && l.c != nil {
		if l.c.Kind() == constant.String {
			return constant.StringVal(l.c)
		}
		return l.c.String()
	}
	arg := func(i int) string {
		return m.leaf(s, stripConv(sym(l.args[i])), g, fName, fRPC, fErr, NS, names, which)
	}
	switch {
	case l.k == KBin && l.op == token.ADD && len(l.args) == 2, l.k == KPure && l.aux == "concat":
		text := ""
		for i := range l.args {
			text += arg(i)
		}
		return text
	case l.k == KSlice && len(l.args) >= 3:
		x := arg(0)
		lo, ok := l.args[1].intC()
		hi, ok2 := int64(len(x)), true
		if !l.args[2].isNilC() {
			if n, ok := l.args[2].intC(); ok {
				hi = n
			} else if l.args[2] != vLen(l.args[0]) {
				ok2 = false
			}
		}
		if ok && ok2 && 0 <= lo && lo <= hi && int(hi) <= len(x) {
			return x[lo:hi]
		}
		return "UNKNOWN_"
	}
	if l.k == KPure && len(l.args) == 1 {
		switch l.aux {
		case "quote":
			return strconv.Quote(arg(0))
		case "lower":
			return strings.ToLower(arg(0))
		case "unexport":
			x := arg(0)
			return strings.ToLower(x[:1]) + x[1:]
		case "pkgname":
			return "gen"
		case "pkg":
			return [3]string{"UNKNOWN_", "stub/in", "stub/out"}[which(l.args[0])]
		case "tname":
			w := which(l.args[0])
			if w == 1 && s.facts.eval(vEq(vPure("pkg", types.Typ[types.String], sym(l.args[0])), vConst(constant.MakeString("")))) == 1 {
				return "string"
			}
			return [3]string{"UNKNOWN_", "InT", "OutT"}[w]
		}
	}
	for i := 0; i < m.n["pkgs"]; i++ {
		if m.t["alias"+itoa(i)] == l {
			return "alias" + itoa(i)
		}
	}
	switch {
	case l == NS:
		return "Sub"
	case l == names[0]:
		return "First"
	case l == names[1]:
		return "Second"
	case l == sym(s.load(vField(g, fName), fName.Type())):
		return "Svc"
	case l == sym(s.load(vField(g, fRPC), fRPC.Type())):
		return "101"
	case l == sym(s.load(vField(g, fErr), fErr.Type())):
		return "102"
	}
	return "UNKNOWN_"
}

// emitted judges one program emitted.
func (c *Check) emitted(text string, im *emitImporter, bad func(k, format string, a ...interface{})) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", text, 0)
	line := func(p token.Pos) string {
		ls := strings.Split(text, "\n")
		if n := fset.Position(p).Line; n >= 1 && n <= len(ls) {
			return strings.TrimSpace(ls[n-1])
		}
		return ""
	}
	if err != nil {
		n := 0
		if x := strings.SplitN(err.Error(), ":", 2); len(x) == 2 {
			n, _ = strconv.Atoi(x[0])
		}
		src := ""
		if ls := strings.Split(text, "\n"); n >= 1 && n <= len(ls) {
			src = strings.TrimSpace(ls[n-1])
		}
		bad("syntax", "the program emitted for a service is no Go: %v: %q", err, src)
		return
	}
	fails := 0
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	tc := types.Config{Importer: im, Error: func(err error) {
		fails++
		if te, ok := err.(types.Error); ok && fails < 6 {
			bad("types "+te.Msg, "the program emitted for a service does not compile: %s: %q", te.Msg, line(te.Pos))
		}
	}}
	pkg, _ := tc.Check("gen", fset, []*ast.File{f}, info)
	if fails > 0 || pkg == nil {
		return
	}
	// what a caller can reach
	iface := func(name string, want ...string) {
		o, _ := pkg.Scope().Lookup(name).(*types.TypeName)
		if o == nil {
			bad("missing "+name, "no %s is emitted", name)
			return
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			bad("missing "+name, "%s is no interface", name)
			return
		}
		for _, w := range want {
			found := false
			for i := 0; i < it.NumMethods(); i++ {
				found = found || it.Method(i).Name() == w
			}
			if !found {
				bad("missing "+name+" "+w, "%s has no method %s", name, w)
			}
		}
	}
	iface("SvcClient", "First", "Second", "SubClient")
	iface("SvcService", "First", "Second")
	iface("SvcSubClient", "First", "Second")
	iface("SvcServiceMux", "Register", "RegisterSub", "Mux")
	cv := func(x ast.Expr) string {
		if tv := info.Types[x]; tv.Value != nil && tv.Value.Kind() == constant.String {
			return constant.StringVal(tv.Value)
		}
		return "?"
	}
	sent, served := map[string]int{}, map[string]int{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		recv := ""
		if fd.Recv != nil && len(fd.Recv.List) == 1 {
			t := fd.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); ok {
				recv = id.Name
			}
		}
		caseOf := map[ast.Node]string{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if cc, ok := n.(*ast.CaseClause); ok && len(cc.List) == 1 {
				ast.Inspect(cc, func(y ast.Node) bool { caseOf[y] = cv(cc.List[0]); return true })
			}
			return true
		})
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				se, ok := x.Fun.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				fn, ok := info.Uses[se.Sel].(*types.Func)
				if !ok || fn.Pkg() == nil || !strings.HasSuffix(fn.Pkg().Path(), "qrpc/codegen") {
					return true
				}
				if fn.Name() == "Request" && len(x.Args) == 4 {
					want := ""
					if strings.Contains(recv, "Sub") {
						want = "Sub"
					}
					if cv(x.Args[1]) != want || cv(x.Args[2]) != fd.Name.Name {
						bad("reaches "+recv, "%s.%s asks for method %q of service %q", recv, fd.Name.Name, cv(x.Args[2]), cv(x.Args[1]))
					}
					sent[cv(x.Args[1])+"."+cv(x.Args[2])]++
				}
				for i, want := range map[string][]string{"NewClient": {"101", "102"}, "NewServiceHandler": {"102"}}[fn.Name()] {
					if tv := info.Types[x.Args[i]]; tv.Value == nil || tv.Value.String() != want {
						bad("command "+fn.Name(), "%s gets another command than the generator was made with", fn.Name())
					}
				}
			case *ast.AssignStmt:
				if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
					return true
				}
				ix, ok := x.Lhs[0].(*ast.IndexExpr)
				if !ok {
					return true
				}
				key, ok := ix.Index.(*ast.CallExpr)
				fl, ok2 := x.Rhs[0].(*ast.FuncLit)
				if !ok || !ok2 || len(key.Args) != 2 {
					return true
				}
				ns, name := cv(key.Args[0]), cv(key.Args[1])
				served[ns+"."+name]++
				if (ns == "") != (fd.Name.Name == "Register") || ns != caseOf[x] {
					bad("dispatch place", "%s.%s is registered by %s for %q", ns, name, fd.Name.Name, caseOf[x])
				}
				calls := 0
				ast.Inspect(fl, func(n ast.Node) bool {
					ce, ok := n.(*ast.CallExpr)
					if !ok {
						return true
					}
					se, ok := ce.Fun.(*ast.SelectorExpr)
					if !ok {
						return true
					}
					if sl := info.Selections[se]; sl != nil {
						if nt, ok := types.Unalias(sl.Recv()).(*types.Named); ok && nt.Obj().Pkg() == pkg {
							calls++
							want := "SvcService"
							if ns != "" {
								want = "SvcSubClient"
							}
							if se.Sel.Name != name || nt.Obj().Name() != want {
								bad("dispatch method", "%s.%s is served by %s.%s", ns, name, nt.Obj().Name(), se.Sel.Name)
							}
						}
					}
					return true
				})
				if calls != 1 {
					bad("dispatch method", "%s.%s calls %d methods", ns, name, calls)
				}
			}
			return true
		})
	}
	for _, k := range []string{".First", ".Second", "Sub.First", "Sub.Second"} {
		if sent[k] != 1 {
			bad("client "+k, "method %s is asked for by %d client methods", k, sent[k])
		}
		if served[k] != 1 {
			bad("server "+k, "method %s is registered %d times", k, served[k])
		}
	}
}

// sprintf is the text a format with simple verbs gives (nil: unknown).
func sprintf(s *State, args []*V) *V {
	f := sym(args[0])
	if f.k != KConst || f.c == nil || f.c.Kind() != constant.String || len(args) < 2 {
		return nil
	}
	str := types.Typ[types.String]
	var parts []*V
	lit := func(x string) {
		if x != "" {
			parts = append(parts, vConst(constant.MakeString(x)))
		}
	}
	rest, i := constant.StringVal(f.c), int64(0)
	for {
		p := strings.IndexByte(rest, '%')
		if p < 0 || p+1 >= len(rest) {
			lit(rest)
			return vPure("concat", str, parts...)
		}
		lit(rest[:p])
		verb := rest[p+1]
		rest = rest[p+2:]
		if verb == '%' {
			lit("%")
			continue
		}
		x := s.mem[vIdx(sym(args[1]), vInt(i))]
		i++
		if x == nil {
			return nil
		}
		switch verb {
		case 's', 'v', 'd':
			parts = append(parts, sym(x))
		case 'q':
			parts = append(parts, vPure("quote", str, sym(x)))
		default:
			return nil
		}
	}
}
