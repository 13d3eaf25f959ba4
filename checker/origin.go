package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// origin is where a value may come from: flow-insensitive, over the whole module.
type origin struct {
	v     ssa.Value
	via   *types.Var // the last field it was loaded from
	param bool       // given by a caller outside the module
}

type origins struct {
	p       *Program
	fields  map[*types.Var][]ssa.Value // values stored into a field
	globals map[*ssa.Global][]ssa.Value
	allocs  map[ssa.Value][]ssa.Value // values stored into a local
	calls   map[*ssa.Function][]ssa.CallInstruction
	escapes map[*ssa.Function]bool // used as a value
	binds   map[*ssa.FreeVar][]ssa.Value
	bound   map[*ssa.Function][]ssa.Value  // receivers of method values
	closed  map[*types.Var][]*ssa.Function // functions which close a channel kept in the field
	sent    map[*types.Var]bool
	called  map[*types.Var][]*ssa.Function // functions which call a function kept in the field
}

// libFuncs are the functions of the library itself, without tests and tools.
func (p *Program) libFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.Funcs {
		path := pkgOf(fn).Pkg.Path()
		if path == p.Module || !hasPrefixAny(path, p.Module+"/test", p.Module+"/tool") {
			r = append(r, fn)
		}
	}
	return r
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, x := range ps {
		if len(s) >= len(x) && s[:len(x)] == x {
			return true
		}
	}
	return false
}

func fieldOfAddr(v ssa.Value) *types.Var {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return structOfPtr(x.X.Type()).Field(x.Field)
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp: // element of a slice kept in a field
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Program) origins() *origins {
	if p.orig != nil {
		return p.orig
	}
	o := &origins{p: p, fields: map[*types.Var][]ssa.Value{}, globals: map[*ssa.Global][]ssa.Value{}, allocs: map[ssa.Value][]ssa.Value{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, escapes: map[*ssa.Function]bool{}, binds: map[*ssa.FreeVar][]ssa.Value{}, bound: map[*ssa.Function][]ssa.Value{}, closed: map[*types.Var][]*ssa.Function{}, sent: map[*types.Var]bool{}, called: map[*types.Var][]*ssa.Function{}}
	p.orig = o
	store := func(addr, val ssa.Value) {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			f := structOfPtr(a.X.Type()).Field(a.Field)
			o.fields[f] = append(o.fields[f], val)
		case *ssa.Global:
			o.globals[a] = append(o.globals[a], val)
		case *ssa.Alloc, *ssa.FreeVar:
			o.allocs[a.(ssa.Value)] = append(o.allocs[a.(ssa.Value)], val)
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					store(x.Addr, x.Val)
				case *ssa.Send:
					if f := chanField(x.Chan); f != nil {
						o.sent[f] = true
					}
				case *ssa.Select:
					for _, st := range x.States {
						if f := chanField(st.Chan); f != nil && st.Dir == types.SendOnly {
							o.sent[f] = true
						}
					}
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					if h := origFn(p, g); h != g && len(x.Bindings) == 1 {
						o.bound[h] = append(o.bound[h], x.Bindings[0])
						continue
					}
					for i, y := range x.Bindings {
						o.binds[g.FreeVars[i]] = append(o.binds[g.FreeVars[i]], y)
					}
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					cc := call.Common()
					if g := cc.StaticCallee(); g != nil {
						o.calls[origFn(p, g)] = append(o.calls[origFn(p, g)], call)
						if fnName(g) == "atomic.StorePointer" {
							if f := fieldOfAddr(cc.Args[0]); f != nil {
								o.fields[f] = append(o.fields[f], cc.Args[1])
							}
						}
					} else if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "close" {
							if f := chanField(cc.Args[0]); f != nil {
								o.closed[f] = append(o.closed[f], fn)
							}
						}
					} else if !cc.IsInvoke() {
						if f := chanField(cc.Value); f != nil {
							o.called[f] = append(o.called[f], fn)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if call, ok := in.(ssa.CallInstruction); !ok || call.Common().Value != *op {
							o.escapes[origFn(p, g)] = true
						}
					}
				}
			}
		}
	}
	return o
}

// origFn: the function a thunk or bound method stands for.
func origFn(p *Program, g *ssa.Function) *ssa.Function {
	if g.Synthetic != "" && g.Object() != nil {
		if h := p.SSA.FuncValue(g.Object().(*types.Func)); h != nil {
			return h
		}
	}
	return g
}

// chanField: the field the value was loaded from directly.
func chanField(v ssa.Value) *types.Var {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return structOfPtr(fa.X.Type()).Field(fa.Field)
			}
			return nil
		case *ssa.Field:
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
				return st.Field(x.Field)
			}
			return nil
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return nil
		}
	}
}

// of gives everything the value may be.
func (o *origins) of(v ssa.Value) []origin {
	seen := map[ssa.Value]bool{}
	var out []origin
	var rec func(v ssa.Value, via *types.Var)
	var content func(addr ssa.Value, via *types.Var)
	// content: what may be stored at the address
	content = func(addr ssa.Value, via *types.Var) {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			f := structOfPtr(a.X.Type()).Field(a.Field)
			if len(o.fields[f]) == 0 {
				out = append(out, origin{v: addr, via: f})
			}
			for _, x := range o.fields[f] {
				rec(x, f)
			}
		case *ssa.Global:
			if len(o.globals[a]) == 0 {
				out = append(out, origin{v: addr, via: via})
			}
			for _, x := range o.globals[a] {
				rec(x, via)
			}
		case *ssa.Alloc:
			for _, x := range o.allocs[a] {
				rec(x, via)
			}
			// closures may store too
			for fv, bs := range o.binds {
				for _, b := range bs {
					if b == ssa.Value(a) {
						for _, x := range o.allocs[fv] {
							rec(x, via)
						}
					}
				}
			}
		case *ssa.FreeVar:
			for _, b := range o.binds[a] {
				if al, ok := b.(*ssa.Alloc); ok && seen[al] {
					continue
				}
				seen[b] = true
				content(b, via)
			}
		case *ssa.Convert:
			content(a.X, via)
		case *ssa.ChangeType:
			content(a.X, via)
		default:
			// a pointer from elsewhere: what it may point to
			n := len(out)
			rec(addr, via)
			ptrs := append([]origin(nil), out[n:]...)
			out = out[:n]
			for _, x := range ptrs {
				switch x.v.(type) {
				case *ssa.Alloc, *ssa.FieldAddr, *ssa.Global:
					content(x.v, x.via)
				case *ssa.Const:
				default:
					out = append(out, x)
				}
			}
		}
	}
	rec = func(v ssa.Value, via *types.Var) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, via)
			}
		case *ssa.ChangeType:
			rec(x.X, via)
		case *ssa.Convert:
			rec(x.X, via)
		case *ssa.MakeInterface:
			rec(x.X, via)
		case *ssa.ChangeInterface:
			rec(x.X, via)
		case *ssa.TypeAssert:
			rec(x.X, via)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				content(x.X, via)
				return
			}
			out = append(out, origin{v: v, via: via})
		case *ssa.Field:
			st := x.X.Type().Underlying().(*types.Struct)
			f := st.Field(x.Field)
			if len(o.fields[f]) == 0 {
				out = append(out, origin{v: v, via: f})
			}
			for _, y := range o.fields[f] {
				rec(y, f)
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if g := call.Common().StaticCallee(); g != nil && o.p.inModule(g) && g.Blocks != nil {
					o.results(g, x.Index, func(r ssa.Value) { rec(r, via) })
					return
				}
			}
			out = append(out, origin{v: v, via: via})
		case *ssa.Call:
			if g := x.Common().StaticCallee(); g != nil && fnName(g) == "atomic.LoadPointer" {
				content(x.Call.Args[0], via)
				return
			}
			if g := x.Common().StaticCallee(); g != nil && o.p.inModule(g) && g.Blocks != nil {
				o.results(g, 0, func(r ssa.Value) { rec(r, via) })
				return
			}
			out = append(out, origin{v: v, via: via})
		case *ssa.Parameter:
			fn := x.Parent()
			idx := -1
			for i, p := range fn.Params {
				if p == x {
					idx = i
				}
			}
			calls := o.calls[fn]
			for _, call := range calls {
				if a := call.Common().Args; idx >= 0 && idx < len(a) {
					rec(a[idx], via)
				}
			}
			if idx == 0 {
				for _, b := range o.bound[fn] {
					rec(b, via)
				}
			}
			isBound := idx == 0 && len(o.bound[fn]) > 0
			if len(calls) == 0 && !isBound || o.escapes[fn] && !isBound || exportedFn(fn) {
				out = append(out, origin{v: v, via: via, param: true})
			}
		case *ssa.FreeVar:
			for _, b := range o.binds[x] {
				rec(b, via)
			}
		default:
			out = append(out, origin{v: v, via: via})
		}
	}
	rec(v, nil)
	return out
}

func (o *origins) results(g *ssa.Function, idx int, on func(ssa.Value)) {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && idx < len(r.Results) {
				on(r.Results[idx])
			}
		}
	}
}

// exportedFn: code outside the module can call it directly.
func exportedFn(fn *ssa.Function) bool {
	if fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}
