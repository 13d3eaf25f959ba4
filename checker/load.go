package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type checked and SSA built tree under analysis.
type Program struct {
	Dir        string
	Module     string
	Pkgs       []*packages.Package
	SSA        *ssa.Program
	Fset       *token.FileSet
	Funcs      []*ssa.Function // every function of the module with a body
	byName     map[string]*ssa.Function
	lockStored map[*types.Var]bool
	heldEntry  map[*ssa.Function]bool
	callers    map[*ssa.Function][]*ssa.Function
	orig       *origins
	Renamed    []string
}

func loadProgram(dir string, inline bool) (*Program, error) {
	os.Setenv("GOFLAGS", "-mod=readonly")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, byName: map[string]*ssa.Function{}, lockStored: map[*types.Var]bool{}, heldEntry: map[*ssa.Function]bool{}}
	for _, x := range ps {
		for _, e := range x.Errors {
			return nil, fmt.Errorf("%s: %s", e.Pos, e.Msg)
		}
		if x.Module != nil {
			p.Module = x.Module.Path
		}
	}
	over, notes := unrename(ps)
	if len(over) > 0 {
		if qs := loadOver(cfg, over); qs != nil {
			ps = qs
			p.Renamed = notes
		} else {
			over = nil
		}
	}
	if inline {
		qs := inlineAll(cfg, ps, over)
		if qs == nil {
			return nil, fmt.Errorf("nothing to put in place")
		}
		ps = qs
		p.Renamed = append(p.Renamed, "decided on the tree with functions the rules do not know put back into their callers")
	}
	p.Pkgs = ps
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA, p.Fset = prog, prog.Fset
	inMod := map[string]bool{}
	for _, x := range ps {
		inMod[x.PkgPath] = true
		for _, n := range x.Types.Scope().Names() {
			tn, ok := x.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				regStruct(st)
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		pk := pkgOf(fn)
		if pk == nil || !inMod[pk.Pkg.Path()] || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Parent() == nil && !strings.HasPrefix(fn.Synthetic, "package init") && fn.Syntax() == nil {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, fn := range p.Funcs {
		if p.byName[fnName(fn)] == nil || pkgOf(fn).Pkg.Path() == p.Module {
			p.byName[fnName(fn)] = fn
		}
	}
	for _, fn := range p.Funcs { // structs of other modules
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct); ok {
						regStruct(st)
					}
				}
			}
		}
	}
	p.lockScan()
	return p, nil
}

func regStruct(st *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		if fieldOwner[st.Field(i)] != nil {
			continue
		}
		fieldOwner[st.Field(i)] = st
		if s2, ok := st.Field(i).Type().(*types.Struct); ok {
			regStruct(s2)
		}
	}
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
	}
	return nil
}

func (p *Program) inModule(fn *ssa.Function) bool {
	pk := pkgOf(fn)
	if pk == nil {
		return false
	}
	return pk.Pkg.Path() == p.Module || strings.HasPrefix(pk.Pkg.Path(), p.Module+"/")
}

func (p *Program) inModulePkg(pk *ssa.Package) bool {
	return pk.Pkg.Path() == p.Module || strings.HasPrefix(pk.Pkg.Path(), p.Module+"/")
}

var fnNames = map[*ssa.Function]string{}

// fnName is "pkg.Func", "pkg.Type.Method" or "parent$n".
func fnName(fn *ssa.Function) string {
	if n, ok := fnNames[fn]; ok {
		return n
	}
	var n string
	if fn.Parent() != nil {
		// name is parent.name$n already for SSA anonymous functions
		i := strings.LastIndex(fn.Name(), "$")
		n = fnName(fn.Parent()) + fn.Name()[max(i, 0):]
	} else {
		pk := ""
		var obj types.Object = fn.Object()
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg.Name()
		} else if obj != nil && obj.Pkg() != nil {
			pk = obj.Pkg().Name()
		}
		n = pk + "." + fn.Name()
		if r := fn.Signature.Recv(); r != nil {
			n = pk + "." + typeBase(r.Type()) + "." + fn.Name()
		}
	}
	fnNames[fn] = n
	return n
}

func typeBase(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Alias:
		return x.Obj().Name()
	}
	return "struct"
}

func typeFull(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	switch x := t.(type) {
	case *types.Named:
		if x.Obj().Pkg() == nil {
			return x.Obj().Name()
		}
		return x.Obj().Pkg().Name() + "." + x.Obj().Name()
	case *types.Alias:
		return typeFull(types.Unalias(t))
	}
	return types.TypeString(t, shortQual)
}

func (p *Program) posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	pos := in.Pos()
	if !pos.IsValid() {
		if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					pos = r.Pos()
					break
				}
			}
		}
	}
	if !pos.IsValid() {
		switch x := in.(type) {
		case *ssa.If:
			if ci, ok := x.Cond.(ssa.Instruction); ok {
				pos = ci.Pos()
			}
		}
	}
	if !pos.IsValid() && in.Parent() != nil {
		// nearest instruction before in the block
		if b := in.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					pos = x.Pos()
				}
				if x == in && pos.IsValid() {
					break
				}
			}
		}
		if !pos.IsValid() {
			pos = in.Parent().Pos()
		}
	}
	return p.pos(pos)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// fnIn finds a function in the package with the given path suffix.
func (p *Program) fnIn(suffix, name string) *ssa.Function {
	for _, fn := range p.Funcs {
		pk := pkgOf(fn).Pkg.Path()
		if (suffix == "" && pk == p.Module || suffix != "" && pk == p.Module+"/"+suffix) && fnName(fn) == name {
			return fn
		}
	}
	return nil
}

func (p *Program) fn(name string) *ssa.Function { return p.byName[name] }

// pkg finds a package of the module by its path suffix ("" is the root package).
func (p *Program) pkg(suffix string) *types.Package {
	for _, x := range p.Pkgs {
		if suffix == "" && x.PkgPath == p.Module || suffix != "" && x.PkgPath == p.Module+"/"+suffix {
			return x.Types
		}
	}
	return nil
}

func (p *Program) typ(pkg, name string) types.Type {
	pk := p.pkg(pkg)
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// field finds a field of a named struct type.
func (p *Program) field(pkg, typ, name string) *types.Var {
	t := p.typ(pkg, typ)
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// ---- which fields are written under a lock

func isLockCall(in ssa.Instruction) int { // +1 lock, -1 unlock
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return 0
	}
	if _, isDefer := in.(*ssa.Defer); isDefer {
		return 0
	}
	if _, isGo := in.(*ssa.Go); isGo {
		return 0
	}
	fn := c.Common().StaticCallee()
	if fn == nil {
		return 0
	}
	switch lockOp(fn) {
	case "Lock", "RLock":
		return 1
	case "Unlock", "RUnlock":
		return -1
	}
	return 0
}

// lockOp names a mutex method or "".
func lockOp(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		switch typeFull(r.Type()) {
		case "sync.Mutex", "sync.RWMutex":
			switch fn.Name() {
			case "Lock", "RLock", "Unlock", "RUnlock", "TryLock", "TryRLock":
				return fn.Name()
			}
		}
	}
	return ""
}

// heldIn computes for each block whether a lock may be held at its start.
func heldIn(fn *ssa.Function, entry bool) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{}
	if len(fn.Blocks) == 0 {
		return in
	}
	in[fn.Blocks[0]] = entry
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			h := in[b]
			for _, x := range b.Instrs {
				switch isLockCall(x) {
				case 1:
					h = true
				case -1:
					h = false
				}
			}
			if h {
				for _, t := range b.Succs {
					if !in[t] {
						in[t] = true
						ch = true
					}
				}
			}
		}
	}
	return in
}

func (p *Program) lockScan() {
	for ch := true; ch; {
		ch = false
		for _, fn := range p.Funcs {
			in := heldIn(fn, p.heldEntry[fn])
			for _, b := range fn.Blocks {
				h := in[b]
				for _, x := range b.Instrs {
					switch isLockCall(x) {
					case 1:
						h = true
						continue
					case -1:
						h = false
						continue
					}
					if !h {
						continue
					}
					switch y := x.(type) {
					case *ssa.Store:
						if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
							p.lockStored[derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)] = true
						}
					case *ssa.Call:
						if c := y.Call.StaticCallee(); c != nil && p.inModule(c) && !p.heldEntry[c] {
							p.heldEntry[c] = true
							ch = true
						}
					}
				}
			}
		}
	}
}
