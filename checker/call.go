package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *State) evalCall(cc *ssa.CallCommon) (*V, []*V) {
	callee := s.val(cc.Value)
	var args []*V
	for _, a := range cc.Args {
		args = append(args, s.val(a))
	}
	return callee, args
}

func (ex *Explorer) call(s *State, in *ssa.Call, cc *ssa.CallCommon, kind frameKind) bool {
	callee, args := s.evalCall(cc)
	if s.dead {
		return true
	}
	return ex.invoke(s, in, cc, callee, args, kind)
}

// finish places the result of a call that was not inlined.
func (ex *Explorer) finish(s *State, in ssa.Instruction, kind frameKind, res *V) {
	if kind == fkDefer {
		return
	}
	if c, ok := in.(*ssa.Call); ok {
		s.set(c, res)
	}
}

// fork pushes an alternative outcome of a modelled call.
func (ex *Explorer) fork(s *State, f func(o *State)) {
	o := s.clone()
	f(o)
	if !o.dead {
		ex.local = append(ex.local, o)
	}
}

func ifaceName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		if x.Obj().Pkg() == nil {
			return x.Obj().Name()
		}
		return x.Obj().Pkg().Name() + "." + x.Obj().Name()
	}
	return "iface"
}

// invoke performs a call; true when the state must not be continued by the caller.
func (ex *Explorer) invoke(s *State, in ssa.Instruction, cc *ssa.CallCommon, callee *V, args []*V, kind frameKind) bool {
	ex.Sites[in] = true
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(s, in, b.Name(), cc, args, kind)
	}
	if cc.IsInvoke() {
		recv := callee
		if recv.k == KIface {
			fn := ex.prog.SSA.LookupMethod(recv.typ, cc.Method.Pkg(), cc.Method.Name())
			if fn != nil {
				return ex.static(s, in, cc, fn, nil, append([]*V{recv.args[0]}, args...), kind)
			}
		}
		name := ifaceName(cc.Value.Type()) + "." + cc.Method.Name()
		if name == "context.Context."+cc.Method.Name() {
			return ex.ctxMethod(s, in, cc.Method.Name(), recv, args, kind)
		}
		if ex.cfg.Impls != nil {
			if fns := ex.cfg.Impls(cc.Value.Type(), cc.Method); len(fns) > 0 {
				for _, fn := range fns[1:] {
					o := s.clone()
					if !ex.static(o, in, cc, fn, nil, append([]*V{recv}, args...), kind) {
						ex.local = append(ex.local, o)
					}
				}
				return ex.static(s, in, cc, fns[0], nil, append([]*V{recv}, args...), kind)
			}
		}
		return ex.opaque(s, in, cc, EvCall, name, nil, recv, append([]*V{recv}, args...), kind)
	}
	switch callee.k {
	case KFunc:
		return ex.static(s, in, cc, callee.aux.(*ssa.Function), nil, args, kind)
	case KClosure:
		return ex.static(s, in, cc, callee.aux.(*ssa.Function), callee.args, args, kind)
	case KPure:
		if callee.aux == "cancel" {
			s.facts.assume(vPure("isdone", types.Typ[types.Bool], callee.args[0]), true)
			ex.emit(s, &Event{Kind: EvCall, In: in, Name: "cancel", Args: []*V{callee.args[0]}, Deferred: kind == fkDefer})
			ex.finish(s, in, kind, vNil())
			return s.dead
		}
	}
	if s.facts.eval(vIsNil(callee)) == 1 {
		// nil function: run time panic
		s.top().unwinding, s.top().panicking = true, true
		return false
	}
	return ex.opaque(s, in, cc, EvUser, "user", nil, callee, args, kind)
}

func (s *State) onStack(fn *ssa.Function) bool {
	for _, f := range s.fr {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (ex *Explorer) static(s *State, in ssa.Instruction, cc *ssa.CallCommon, fn *ssa.Function, free, args []*V, kind frameKind) bool {
	// bodies
	inline := len(fn.Blocks) > 0 && (ex.prog.inModule(fn) || fn.Pkg == nil && fn.Synthetic != "")
	if inline && ex.cfg.Opaque != nil && ex.cfg.Opaque(fn) {
		inline = false
	}
	if inline && (s.onStack(fn) || len(s.fr) >= ex.cfg.MaxDepth) {
		inline = false
	}
	if inline {
		ex.push(s, in, fn, free, args, kind)
		ex.emit(s, &Event{Kind: EvEnter, In: in, Fn: fn, Name: fnName(fn), Args: args, Deferred: kind == fkDefer})
		return s.dead
	}
	if ok, stop := ex.model(s, in, cc, fn, args, kind); ok {
		return stop
	}
	return ex.opaque(s, in, cc, EvCall, fnName(fn), fn, nil, args, kind)
}

func (ex *Explorer) push(s *State, in ssa.Instruction, fn *ssa.Function, free, args []*V, kind frameKind) {
	ex.Funcs[fn] = true
	f := &Frame{fn: fn, ctx: getCtx(s.top().ctx, in, fn), env: map[ssa.Value]*V{}, kind: kind, blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = vSym("?"+p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		} else {
			f.env[p] = vSym("?"+p.Name(), p.Type())
		}
	}
	s.fr = append(s.fr, f)
}

var purePkgs = map[string]bool{"zap": true, "fmt": true, "time": true, "errors": true, "strconv": true, "runtime": true, "reflect": true, "strings": true, "debug": true, "math": true, "os": true, "log": true, "logger": true, "types": true, "filepath": true, "zapcore": true, "atomic": true, "ast": true, "parser": true, "token": true, "unicode": true, "build": true, "context": true}

// opaque performs a call whose body is not looked at.
func (ex *Explorer) opaque(s *State, in ssa.Instruction, cc *ssa.CallCommon, ek EvKind, name string, fn *ssa.Function, callee *V, args []*V, kind frameKind) bool {
	sig := cc.Signature()
	if fn != nil {
		sig = fn.Signature
	}
	e := &Event{Kind: ek, In: in, Fn: fn, Name: name, Args: args, Val: callee, Deferred: kind == fkDefer}
	pk := name
	if i := strings.Index(pk, "."); i >= 0 {
		pk = pk[:i]
	}
	pure := purePkgs[pk] || ex.cfg.PureCall != nil && ex.cfg.PureCall(name)
	// the event is shown before its effects, with results attached
	if ex.cfg.KeepPre {
		e.Pre = make(map[*V]*V, len(s.mem))
		for a, v := range s.mem {
			e.Pre[a] = v
		}
	}
	if !pure {
		for _, a := range args {
			s.havocArg(a, in)
		}
		s.killShared(in)
	}
	// the new result may take the name of an older one the arguments refer to
	s.hold = append([]*V{callee}, args...)
	rs := sig.Results()
	var res *V
	switch rs.Len() {
	case 0:
		res = vNil()
	case 1:
		res = ex.opaqueRes(s, in, name, 0, rs.At(0).Type(), args)
	default:
		var t []*V
		for i := 0; i < rs.Len(); i++ {
			t = append(t, ex.opaqueRes(s, in, name, i, rs.At(i).Type(), args))
		}
		res = mk(KTuple, 0, nil, 0, rs, nil, t...)
	}
	e.Val, e.Args, args = s.hold[0], s.hold[1:], s.hold[1:]
	s.hold = nil
	if ex.cfg.Result != nil {
		if r := ex.cfg.Result(s, name, args); r != nil {
			res = r
		}
	}
	e.Res = res
	if ex.cfg.UserPanics != nil && ex.cfg.UserPanics(e) {
		ex.fork(s, func(o *State) {
			o.note(in, "%s panics", name)
			e2 := *e
			e2.Op = "panic"
			ex.emit(o, &e2)
			o.top().unwinding, o.top().panicking = true, true
		})
	}
	ex.emit(s, e)
	if s.dead {
		return true
	}
	ex.finish(s, in, kind, res)
	return s.dead
}

func (ex *Explorer) opaqueRes(s *State, in ssa.Instruction, name string, i int, t types.Type, args []*V) *V {
	n := int64(i)
	switch name {
	case "errors.New", "fmt.Errorf", "fmt.Sprintf", "bytes.NewBuffer", "bytes.NewReader", "time.NewTimer", "time.NewTicker", "bufio.NewReader":
		n += 1000000
	case "reflect.TypeOf", "reflect.ValueOf", "strings.Contains", "strings.HasPrefix", "strings.Split", "strings.TrimSuffix":
		return vPure(fmt.Sprint(name), t, args...)
	}
	return s.siteFresh(in, n, t, "ret")
}

// havocArg forgets what an opaque callee may modify through an argument.
func (s *State) havocArg(a *V, in ssa.Instruction) {
	v := strip(a)
	switch v.k {
	case KSlice, KApp:
		r := rootOf(v)
		o := objOf(r)
		any := o.k == KAlloc || o.k == KStale && o.args[0].k == KAlloc // known to be zero otherwise
		for k := range s.mem {
			if k.k == KIdx && k.args[0] == r {
				any = true
			}
		}
		if any {
			// elements before the slice stay
			keep := map[*V]*V{}
			if _, off := rootOff(v); off != nil {
				if lo, ok := off.intC(); ok {
					for k, x := range s.mem {
						if k.k == KIdx && k.args[0] == r {
							if i, ok := k.args[1].intC(); ok && i < lo {
								keep[k] = x
							}
						}
					}
				}
			}
			s.havoc(r, in)
			for k, x := range keep {
				s.mem[k] = x
			}
		}
	case KAlloc, KField, KStale, KFresh:
		any := false
		for k := range s.mem {
			if k == v || objContains(k, v) {
				any = true
			}
		}
		if any {
			s.havoc(v, in)
		} else if v.k == KAlloc || v.k == KStale || v.k == KField {
			s.havoc(v, in)
		}
	}
}

// spawn starts a goroutine.
// true: its body has been entered as a call, to be run in place.
func (ex *Explorer) spawn(s *State, in ssa.Instruction, cc *ssa.CallCommon, callee *V, args []*V, wg *V) bool {
	e := &Event{Kind: EvGo, In: in, Val: callee, Args: args, Addr: wg}
	var fn *ssa.Function
	var free []*V
	if !cc.IsInvoke() || wg != nil {
		if callee.k == KFunc || callee.k == KClosure {
			fn = callee.aux.(*ssa.Function)
			free = callee.args
		}
	} else if callee.k == KIface {
		fn = ex.prog.SSA.LookupMethod(callee.typ, cc.Method.Pkg(), cc.Method.Name())
		args = append([]*V{callee.args[0]}, args...)
	}
	if fn != nil {
		e.Fn, e.Name = fn, fnName(fn)
	}
	ex.emit(s, e)
	if s.dead || fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if ex.cfg.InlineGo != nil && ex.cfg.InlineGo(e) {
		ex.push(s, in, fn, free, args, fkIgnore)
		ex.emit(s, &Event{Kind: EvEnter, In: in, Fn: fn, Name: fnName(fn), Op: "go", Args: args})
		return true
	}
	if ex.cfg.FollowGo != nil && ex.cfg.FollowGo(e) {
		o := s.clone()
		ex.threads++
		o.thread = ex.threads
		f := &Frame{fn: fn, ctx: getCtx(s.top().ctx, in, fn), env: map[ssa.Value]*V{}, kind: fkRoot, blk: fn.Blocks[0]}
		for i, p := range fn.Params {
			if i < len(args) {
				f.env[p] = args[i]
			}
		}
		for i, p := range fn.FreeVars {
			if i < len(free) {
				f.env[p] = free[i]
			}
		}
		o.fr = []*Frame{f}
		o.locks = nil
		o.trav = nil
		ex.Funcs[fn] = true
		o.note(in, "goroutine %s", e.Name)
		ex.emit(o, &Event{Kind: EvSpawned, In: in, Fn: fn, Name: e.Name, Addr: wg, Args: args})
		if !o.dead {
			ex.enqueue(o)
		}
	}
	return false
}

func (ex *Explorer) builtin(s *State, in ssa.Instruction, name string, cc *ssa.CallCommon, args []*V, kind frameKind) bool {
	switch name {
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Chan); ok {
			// changes at any time
			var v *V
			if _, isV := in.(ssa.Value); isV {
				v = s.siteFresh(in, 0, types.Typ[types.Int], "chanlen")
				s.facts.iv[v] = ival{0, full.hi}
				delete(s.facts.ne, v)
			} else {
				v = vInt(0)
			}
			ex.finish(s, in, kind, v)
			return false
		}
		ex.finish(s, in, kind, vLen(args[0]))
	case "cap":
		if args[0].k == KFresh {
			if c, ok := s.mem[vPure("chancap", nil, args[0])]; ok {
				ex.finish(s, in, kind, c)
				return false
			}
		}
		ex.finish(s, in, kind, mk(KCap, 0, nil, 0, types.Typ[types.Int], nil, args[0]))
	case "append":
		return ex.appendB(s, in, cc, args, kind)
	case "copy":
		dst, src := args[0], args[1]
		r, off := rootOff(dst)
		if off == nil {
			off = vInt(0)
		}
		n := vLen(src)
		if iv := s.facts.interval(n); ex.cfg.Exact && iv.lo == iv.hi {
			n = vInt(iv.lo)
		}
		if c, ok := n.intC(); ok && c <= 64 && !isBasic(cc.Args[1].Type(), types.IsString) {
			var vs []*V
			et := elemType(cc.Args[0].Type())
			for i := int64(0); i < c; i++ {
				vs = append(vs, s.load(vIdx(src, vInt(i)), et))
			}
			for i, v := range vs {
				s.mem[vIdx(dst, vInt(int64(i)))] = v
			}
		} else {
			lo, lok := off.intC()
			for k := range s.mem {
				if k.k == KIdx && k.args[0] == r {
					if i, ok := k.args[1].intC(); ok && lok && i < lo {
						continue
					}
					delete(s.mem, k)
				}
			}
			s.mem[vPure("copied", nil, r, off)] = src
		}
		cnt := s.siteFresh(in, 0, types.Typ[types.Int], "copied")
		s.facts.iv[cnt] = ival{0, full.hi}
		ex.emit(s, &Event{Kind: EvCopy, In: in, Args: args, Res: cnt})
		ex.finish(s, in, kind, cnt)
	case "close":
		ex.emit(s, &Event{Kind: EvClose, In: in, Ch: args[0], Deferred: kind == fkDefer})
		ex.finish(s, in, kind, vNil())
	case "delete":
		m, k := args[0], args[1]
		el := vMapEl(m, k)
		old := s.mem[el]
		var mt types.Type
		if t, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			mt = t.Elem()
		}
		if old == nil && mt != nil {
			old = mk(KLoad, 0, nil, 0, mt, nil, el)
		}
		// entries with other symbolic keys may be the same key
		for a := range s.mem {
			if a.k == KMapEl && a.args[0] == m && a != el && s.facts.eval(vEq(a.args[1], el.args[1])) != 0 {
				delete(s.mem, a)
			}
		}
		s.mem[el] = absent
		var nm []memb
		for _, x := range s.memb {
			if x.cont == m && (x.elem == old || x.elem == strip(k)) {
				continue
			}
			nm = append(nm, x)
		}
		s.memb = nm
		ex.emit(s, &Event{Kind: EvMapDelete, In: in, Addr: m, Args: []*V{k}, Val: old})
		ex.finish(s, in, kind, vNil())
	case "panic":
		s.top().unwinding, s.top().panicking = true, true
	case "print", "println":
		ex.finish(s, in, kind, vNil())
	case "recover":
		res := vNil()
		f := s.top()
		if n := len(s.fr); f.kind == fkDefer && n >= 2 && s.fr[n-2].unwinding && s.fr[n-2].panicking {
			s.fr[n-2].panicking = false
			res = s.siteFresh(in, 1000000, nil, "recovered")
		}
		if kind == fkDefer { // defer recover() itself does not stop a panic
			return false
		}
		ex.emit(s, &Event{Kind: EvCall, In: in, Name: "recover", Res: res})
		ex.finish(s, in, kind, res)
	case "min", "max":
		ex.finish(s, in, kind, vPure(name, cc.Value.Type(), args...))
	case "ssa:wrapnilchk":
		ex.finish(s, in, kind, args[0])
	case "clear":
		s.havocArg(args[0], in)
		ex.finish(s, in, kind, vNil())
	default:
		ex.err = fmt.Errorf("builtin %s", name)
		return true
	}
	return s.dead
}

func elemType(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	case *types.Pointer:
		return elemType(x.Elem())
	}
	return types.Typ[types.Byte]
}

func (ex *Explorer) appendB(s *State, in ssa.Instruction, cc *ssa.CallCommon, args []*V, kind frameKind) bool {
	base := args[0]
	if len(args) < 2 {
		ex.finish(s, in, kind, base)
		return false
	}
	src := args[1]
	et := elemType(cc.Args[0].Type())
	isStr := isBasic(cc.Args[1].Type(), types.IsString)
	n, nok := vLen(src).intC()
	if isStr {
		nok = false
	} else if iv := s.facts.interval(vLen(src)); !nok && ex.cfg.Exact && iv.lo == iv.hi {
		n, nok = iv.lo, true
	}
	var vals []*V
	if nok && n <= 32 {
		for i := int64(0); i < n; i++ {
			a := vIdx(src, vInt(i))
			v := s.load(a, et)
			s.mem[a] = v
			vals = append(vals, v)
		}
	}
	L := vLen(base)
	Lc, Lok := L.intC()
	root, off := rootOff(base)
	var res *V
	if base.isNilC() || s.facts.nilEval(base) == 1 {
		root = s.fresh(mk(KAlloc, 0, getSite(s.top().ctx, in, "append"), 0, cc.Args[0].Type(), nil))
		s.dropMem(root)
		off, Lc, Lok = nil, 0, true
	}
	bt, plain := et.Underlying().(*types.Basic)
	plain = plain && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int8)
	if Lok && nok && n <= 32 && Lc+n <= 64 && plain {
		if off == nil {
			off = vInt(0)
		}
		for i, v := range vals {
			s.mem[mk(KIdx, 0, nil, 0, nil, nil, root, vBin(token.ADD, off, vInt(Lc+int64(i)), types.Typ[types.Int]))] = v
		}
		res = mk(KSlice, 0, nil, 0, nil, nil, root, off, vBin(token.ADD, off, vInt(Lc+n), types.Typ[types.Int]))
	} else {
		cont := vPure("cat", nil, s.content(base), s.content(src))
		res = mk(KApp, 0, getSite(s.top().ctx, in, ""), 0, cc.Args[0].Type(), nil, root)
		if s.made[res] {
			cont = subst(cont, res, vStale(res), map[*V]*V{})
		}
		lo := int64(n)
		if b := s.facts.interval(L).lo; b > 0 && b < 1<<40 {
			lo += b
		}
		if lo > 4 {
			lo = 4 // enough to be non-empty; keeps loops finite
		}
		res = s.fresh(res)
		hi := full.hi
		if ex.cfg.Exact && (base.isNilC() || s.facts.nilEval(base) == 1) && n <= 4 {
			hi = n
		}
		if nok && (lo > 0 || hi == 0) {
			s.facts.iv[vLen(res)] = ival{lo, hi}
		}
		if termDepth(cont) < 12 && plain {
			s.mem[vPure("content", nil, res)] = cont
		} else {
			delete(s.mem, vPure("content", nil, res))
		}
	}
	s.addMemb(base, res, vals...)
	if !nok { // append(a, b...): members of b too
		for _, m := range append([]memb(nil), s.memb...) {
			if m.cont == src && !s.hasMemb(res, m.elem) {
				s.memb = append(s.memb, memb{res, m.elem})
			}
		}
	}
	ex.emit(s, &Event{Kind: EvAppend, In: in, Args: []*V{base, src}, Val: nil, Res: res, Cases: nil, Addr: nil, Ch: nil, Op: fmt.Sprint(len(vals))})
	ex.finish(s, in, kind, res)
	return s.dead
}

// content describes the bytes of a slice value as a concatenation.
func (s *State) content(v *V) *V {
	switch v.k {
	case KApp, KStale:
		if c, ok := s.mem[vPure("content", nil, v)]; ok {
			return c
		}
	case KSlice:
		if x := v.args[0]; x.k == KApp || x.k == KStale {
			if c, ok := s.mem[vPure("content", nil, x)]; ok {
				// a suffix that starts at a segment boundary
				if lo, ok := v.args[1].intC(); ok && v.args[2].isNilC() {
					segs := segments(c)
					for i, g := range segs {
						if lo == 0 {
							r := g
							for _, y := range segs[i+1:] {
								r = vPure("cat", nil, r, y)
							}
							return r
						}
						n, ok := vLen(g).intC()
						if !ok || n > lo {
							break
						}
						lo -= n
					}
				}
				return vPure("sub", nil, c, v.args[1], v.args[2])
			}
		}
	}
	return v
}

// segments flattens a concatenation.
func segments(c *V) []*V {
	if c.k == KPure && c.aux == "cat" {
		return append(segments(c.args[0]), segments(c.args[1])...)
	}
	return []*V{c}
}

// ---- contexts

func doneOf(ctx *V) *V {
	c := strip(ctx)
	for c.k == KPure && c.aux == "ctx.value" {
		c = strip(c.args[0])
	}
	return vPure("done", nil, c)
}

func (s *State) ctxDone(ctx *V) bool {
	c := doneOf(ctx).args[0]
	for {
		if s.facts.eval(vPure("isdone", types.Typ[types.Bool], c)) == 1 {
			return true
		}
		if c.k == KPure && (c.aux == "ctx.child" || c.aux == "ctx.value") {
			c = strip(c.args[0])
			continue
		}
		return false
	}
}

// ctxDerives: cancelling base ends ctx.
func ctxDerives(ctx, base *V) bool {
	ctx, base = strip(ctx), strip(base)
	for {
		if ctx == base || doneOf(ctx) == doneOf(base) {
			return true
		}
		if ctx.k == KPure && (ctx.aux == "ctx.child" || ctx.aux == "ctx.value") {
			ctx = strip(ctx.args[0])
			continue
		}
		return false
	}
}

func (ex *Explorer) ctxMethod(s *State, in ssa.Instruction, m string, ctx *V, args []*V, kind frameKind) bool {
	switch m {
	case "Done":
		ex.finish(s, in, kind, doneOf(ctx))
	case "Err":
		r := vPure("ErrVal", nil, doneOf(ctx).args[0])
		if !s.ctxDone(ctx) {
			r = s.siteFresh(in, 0, types.Universe.Lookup("error").Type(), "ctxerr")
		}
		ex.emit(s, &Event{Kind: EvCall, In: in, Name: "context.Err", Args: []*V{ctx}, Res: r})
		ex.finish(s, in, kind, r)
	case "Value":
		ex.finish(s, in, kind, s.ctxValue(ctx, args[0]))
	case "Deadline":
		ex.finish(s, in, kind, mk(KTuple, 0, nil, 0, nil, nil, s.siteFresh(in, 0, nil, "ret"), s.siteFresh(in, 1, types.Typ[types.Bool], "ret")))
	}
	return s.dead
}

func (s *State) ctxValue(ctx, key *V) *V {
	c := strip(ctx)
	for {
		if c.isNilC() {
			return vNil() // beyond the root
		}
		if c.k == KPure && c.aux == "ctx.value" {
			switch {
			case sameKey(c.args[1], key):
				return c.args[2]
			case s.facts.eval(vEq(c.args[1], key)) == 0 || bothKeys(c.args[1], key):
				c = strip(c.args[0])
				continue
			}
			return vPure("ctxval", nil, c, key)
		}
		if c.k == KPure && c.aux == "ctx.child" {
			c = strip(c.args[0])
			continue
		}
		return vPure("ctxval", nil, c, key)
	}
}

func sameKey(a, b *V) bool { return strip(a) == strip(b) }

// bothKeys: context keys held in package level variables or constants are pairwise different.
func bothKeys(a, b *V) bool {
	ok := func(v *V) bool {
		v = strip(v)
		return v.isConst() || v.k == KLoad && v.args[0].k == KGlobal || v.k == KGlobal
	}
	return ok(a) && ok(b)
}

// ---- models of library functions

func (ex *Explorer) model(s *State, in ssa.Instruction, cc *ssa.CallCommon, fn *ssa.Function, args []*V, kind frameKind) (bool, bool) {
	name := fnName(fn)
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	done := func(res *V) (bool, bool) {
		if !s.dead {
			ex.finish(s, in, kind, res)
		}
		return true, s.dead
	}
	switch pk {
	case "sync":
		if op := lockOp(fn); op != "" {
			switch op {
			case "Lock", "RLock":
				m := "w"
				if op == "RLock" {
					m = "r"
				}
				s.killShared(in)
				ex.emit(s, &Event{Kind: EvLock, In: in, Addr: args[0], Op: m})
				s.locks = append(s.locks, lockHeld{args[0], m == "r"})
				return done(vNil())
			case "Unlock", "RUnlock":
				m := "w"
				if op == "RUnlock" {
					m = "r"
				}
				found := false
				for i := len(s.locks) - 1; i >= 0; i-- {
					if s.locks[i].addr == args[0] && s.locks[i].read == (m == "r") {
						s.locks = append(append([]lockHeld(nil), s.locks[:i]...), s.locks[i+1:]...)
						found = true
						break
					}
				}
				e := &Event{Kind: EvUnlock, In: in, Addr: args[0], Op: m, Deferred: kind == fkDefer, Val: vBool(found)}
				ex.emit(s, e)
				s.killShared(in)
				return done(vNil())
			case "TryLock", "TryRLock":
				ex.fork(s, func(o *State) { ex.finish(o, in, kind, vBool(false)) })
				ex.emit(s, &Event{Kind: EvLock, In: in, Addr: args[0], Op: "w"})
				s.locks = append(s.locks, lockHeld{args[0], op == "TryRLock"})
				return done(vBool(true))
			}
		}
		switch name {
		case "sync.Once.Do":
			k := vPure("once", nil, args[0])
			if s.mem[k] != nil {
				return done(vNil())
			}
			ex.fork(s, func(o *State) {
				o.note(in, "once already done")
				o.mem[k] = vBool(true)
				ex.finish(o, in, kind, vNil())
			})
			s.mem[k] = vBool(true)
			kd := fkIgnore
			if kind == fkDefer {
				kd = fkDefer
			}
			c := args[1]
			if c.k == KFunc || c.k == KClosure {
				f2 := c.aux.(*ssa.Function)
				ex.push(s, in, f2, c.args, nil, kd)
				ex.emit(s, &Event{Kind: EvEnter, In: in, Fn: f2, Name: fnName(f2), Op: "once", Addr: args[0]})
				return true, s.dead
			}
			ex.emit(s, &Event{Kind: EvUser, In: in, Name: "user", Val: c})
			return done(vNil())
		case "sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Wait":
			ex.emit(s, &Event{Kind: EvCall, In: in, Fn: fn, Name: name, Args: args, Deferred: kind == fkDefer})
			if strings.HasSuffix(name, "Wait") {
				s.killShared(in)
			}
			return done(vNil())
		case "sync.WaitGroup.Go":
			if ex.spawn(s, in, cc, args[1], nil, args[0]) {
				return true, s.dead
			}
			return done(vNil())
		case "sync.Pool.Get":
			r := s.siteFresh(in, 1000000, nil, "poolget")
			ex.emit(s, &Event{Kind: EvCall, In: in, Fn: fn, Name: name, Args: args, Res: r})
			return done(r)
		case "sync.Pool.Put":
			ex.emit(s, &Event{Kind: EvCall, In: in, Fn: fn, Name: name, Args: args, Deferred: kind == fkDefer})
			return done(vNil())
		case "sync.Map.Load", "sync.Map.LoadAndDelete", "sync.Map.LoadOrStore", "sync.Map.Store", "sync.Map.Delete", "sync.Map.Swap", "sync.Map.CompareAndDelete", "sync.Map.CompareAndSwap", "sync.Map.Clear":
			return true, ex.syncMap(s, in, fn.Name(), args, kind)
		case "sync.Map.Range":
			return true, ex.syncMapRange(s, in, args, kind)
		}
	case "sync/atomic":
		return ex.atomic(s, in, fn, args, kind)
	case "context":
		errT := types.Universe.Lookup("error").Type()
		_ = errT
		switch fn.Name() {
		case "Background", "TODO":
			return done(vPure("ctx.value", nil, vNil(), vNil(), vNil()))
		case "WithCancel", "WithTimeout", "WithDeadline", "WithCancelCause":
			fr := s.siteFresh(in, 1000000, nil, "ctx")
			c := vPure("ctx.child", nil, strip(args[0]), fr)
			cancel := vPure("cancel", nil, c)
			ex.emit(s, &Event{Kind: EvCall, In: in, Fn: fn, Name: name, Args: args, Res: c})
			return done(mk(KTuple, 0, nil, 0, nil, nil, c, cancel))
		case "WithValue":
			return done(vPure("ctx.value", nil, strip(args[0]), args[1], args[2]))
		}
	case "encoding/binary":
		if strings.Contains(name, "bigEndian.") || strings.Contains(name, "littleEndian.") {
			if r, ok := ex.endian(s, fn, args, strings.Contains(name, "bigEndian.")); ok {
				return done(r)
			}
		}
	case "github.com/zhiqiangxu/util":
		if fn.Name() == "GoFunc" {
			if ex.spawn(s, in, cc, args[1], nil, args[0]) {
				return true, s.dead
			}
			return done(vNil())
		}
	}
	return false, false
}

func (ex *Explorer) endian(s *State, fn *ssa.Function, args []*V, big bool) (*V, bool) {
	w := 0
	switch {
	case strings.HasSuffix(fn.Name(), "16"):
		w = 2
	case strings.HasSuffix(fn.Name(), "32"):
		w = 4
	case strings.HasSuffix(fn.Name(), "64"):
		w = 8
	}
	if w == 0 {
		return nil, false
	}
	var ut types.Type
	switch w {
	case 2:
		ut = types.Typ[types.Uint16]
	case 4:
		ut = types.Typ[types.Uint32]
	default:
		ut = types.Typ[types.Uint64]
	}
	bt := types.Typ[types.Uint8]
	byteOf := func(v *V, i int) *V { // i-th byte on the wire
		sh := 8 * (w - 1 - i)
		if !big {
			sh = 8 * i
		}
		return simplifyBits(vConv(vBin(token.SHR, v, vInt(int64(sh)), ut), ut, bt))
	}
	switch {
	case strings.HasPrefix(fn.Name(), "PutUint"):
		for i := 0; i < w; i++ {
			s.mem[vIdx(args[1], vInt(int64(i)))] = byteOf(args[2], i)
		}
		return vNil(), true
	case strings.HasPrefix(fn.Name(), "AppendUint"):
		n, ok := vLen(args[1]).intC()
		if !ok {
			return nil, false
		}
		root, off := rootOff(args[1])
		if off == nil {
			off = vInt(0)
		}
		for i := 0; i < w; i++ {
			s.mem[mk(KIdx, 0, nil, 0, nil, nil, root, vBin(token.ADD, off, vInt(n+int64(i)), types.Typ[types.Int]))] = byteOf(args[2], i)
		}
		return mk(KSlice, 0, nil, 0, nil, nil, root, off, vBin(token.ADD, off, vInt(n+int64(w)), types.Typ[types.Int])), true
	case strings.HasPrefix(fn.Name(), "Uint"):
		var bs []*V
		for i := 0; i < w; i++ {
			j := i
			if !big {
				j = w - 1 - i
			}
			a := vIdx(args[1], vInt(int64(j)))
			v := s.load(a, bt)
			s.mem[a] = v
			bs = append(bs, v)
		}
		return simplifyBits(vPure("be", ut, bs...)), true
	}
	return nil, false
}

func (ex *Explorer) atomic(s *State, in ssa.Instruction, fn *ssa.Function, args []*V, kind frameKind) (bool, bool) {
	op := fn.Name()
	switch {
	case strings.HasPrefix(op, "Add"):
		op = "add"
	case strings.HasPrefix(op, "Load"):
		op = "load"
	case strings.HasPrefix(op, "Store"):
		op = "store"
	case strings.HasPrefix(op, "CompareAndSwap"):
		op = "cas"
	case strings.HasPrefix(op, "Swap"):
		op = "swap"
	case strings.HasPrefix(op, "And"), strings.HasPrefix(op, "Or"):
		op = "bitop"
	default:
		return false, false
	}
	var rt types.Type
	if r := fn.Signature.Results(); r.Len() == 1 {
		rt = r.At(0).Type()
	}
	e := &Event{Kind: EvAtomic, In: in, Fn: fn, Op: op, Addr: args[0], Args: args[1:], Field: fieldVar(args[0]), Deferred: kind == fkDefer}
	if op == "cas" {
		ex.fork(s, func(o *State) {
			o.note(in, "compare-and-swap fails")
			e2 := *e
			e2.Res = vBool(false)
			ex.emit(o, &e2)
			if !o.dead {
				ex.finish(o, in, kind, e2.Res)
			}
		})
		e.Res = vBool(true)
	} else if rt != nil {
		e.Res = s.siteFresh(in, 0, rt, "atomic")
	} else {
		e.Res = vNil()
	}
	ex.emit(s, e)
	if s.dead {
		return true, true
	}
	if fn.Name() == "StorePointer" && len(args) == 2 {
		s.store(stripConv(args[0]), stripConv(args[1]))
	}
	ex.finish(s, in, kind, e.Res)
	return true, s.dead
}

func (ex *Explorer) syncMap(s *State, in ssa.Instruction, op string, args []*V, kind frameKind) bool {
	m := args[0]
	var k *V
	if len(args) > 1 {
		k = args[1]
	}
	hit := func(st *State) *V {
		el := vMapEl(m, k)
		if v, ok := st.mem[el]; ok && v != absent && ex.cfg.NoKill {
			return v
		}
		v := mk(KFresh, 0, getSite(st.top().ctx, in, "mapval"), 1000000, nil, nil)
		return st.fresh(v)
	}
	ev := func(st *State, op string, val, res *V) {
		e := &Event{Kind: EvMapUpdate, In: in, Addr: m, Args: []*V{k}, Val: val, Res: res, Op: op, Deferred: kind == fkDefer}
		switch op {
		case "Delete", "CompareAndDelete":
			e.Kind = EvMapDelete
		case "hit", "miss":
			e.Kind = EvMapLookup
		case "del-hit", "del-miss":
			e.Kind = EvMapDelete
		}
		ex.emit(st, e)
	}
	tup := func(a, b *V) *V { return mk(KTuple, 0, nil, 0, nil, nil, a, b) }
	switch op {
	case "Load":
		ex.fork(s, func(o *State) {
			o.note(in, "map miss")
			ev(o, "miss", nil, vNil())
			if !o.dead {
				ex.finish(o, in, kind, tup(vNil(), vBool(false)))
			}
		})
		for _, e := range s.membersOf(m) {
			e := e
			if isPos(e) {
				continue
			}
			ex.fork(s, func(o *State) {
				ev(o, "hit", nil, e)
				if !o.dead {
					ex.finish(o, in, kind, tup(e, vBool(true)))
				}
			})
		}
		v := hit(s)
		ev(s, "hit", nil, v)
		if !s.dead {
			ex.finish(s, in, kind, tup(v, vBool(true)))
		}
		return s.dead
	case "LoadAndDelete":
		ex.fork(s, func(o *State) {
			ev(o, "del-miss", nil, vNil())
			if !o.dead {
				ex.finish(o, in, kind, tup(vNil(), vBool(false)))
			}
		})
		v := hit(s)
		ev(s, "del-hit", v, v)
		if !s.dead {
			ex.finish(s, in, kind, tup(v, vBool(true)))
		}
		return s.dead
	case "LoadOrStore":
		ex.fork(s, func(o *State) {
			o.note(in, "stored new map entry")
			o.addMemb(m, m, args[2])
			o.mem[vMapEl(m, k)] = args[2]
			ev(o, "LoadOrStore", args[2], args[2])
			if !o.dead {
				ex.finish(o, in, kind, tup(args[2], vBool(false)))
			}
		})
		v := hit(s)
		ev(s, "hit", nil, v)
		if !s.dead {
			ex.finish(s, in, kind, tup(v, vBool(true)))
		}
		return s.dead
	case "Store", "Swap":
		s.addMemb(m, m, args[2])
		s.mem[vMapEl(m, k)] = args[2]
		ev(s, "Store", args[2], nil)
		if s.dead {
			return true
		}
		if op == "Swap" {
			ex.finish(s, in, kind, tup(s.siteFresh(in, 0, nil, "old"), s.siteFresh(in, 1, types.Typ[types.Bool], "oldok")))
		} else {
			ex.finish(s, in, kind, vNil())
		}
		return s.dead
	case "Delete", "CompareAndDelete":
		delete(s.mem, vMapEl(m, k))
		if op == "Delete" {
			ev(s, op, nil, nil)
		} else {
			ev(s, op, args[2], nil)
		}
		if !s.dead {
			r := vNil()
			if op != "Delete" {
				r = s.siteFresh(in, 0, types.Typ[types.Bool], "ok")
			}
			ex.finish(s, in, kind, r)
		}
		return s.dead
	}
	ev(s, op, nil, nil)
	if !s.dead {
		ex.finish(s, in, kind, s.siteFresh(in, 0, types.Typ[types.Bool], "ok"))
	}
	return s.dead
}

func (ex *Explorer) syncMapRange(s *State, in ssa.Instruction, args []*V, kind frameKind) bool {
	m, f := args[0], args[1]
	if f.k != KFunc && f.k != KClosure || kind == fkDefer {
		ex.emit(s, &Event{Kind: EvUser, In: in, Name: "user", Val: f})
		ex.finish(s, in, kind, vNil())
		return s.dead
	}
	fn := f.aux.(*ssa.Function)
	if s.travOf(m) == nil {
		s.startTrav(m, true)
	}
	tv := s.travOf(m)
	endOK := true
	for _, e := range s.membersOf(m) {
		if isPos(e) {
			continue
		}
		if tv != nil && !tv.has(e) {
			endOK = false
			e := e
			ex.fork(s, func(o *State) {
				ot := o.travOf(m)
				ot.seen = append(ot.seen, e)
				k := o.siteFresh(in, 1, nil, "key")
				ex.emit(o, &Event{Kind: EvNext, In: in, Addr: m, Args: []*V{k}, Val: e})
				ex.push(o, in, fn, f.args, []*V{k, e}, fkRange)
			})
		}
	}
	if endOK {
		ex.fork(s, func(o *State) {
			for i := range o.trav {
				if o.trav[i].cont == m {
					o.trav = append(append([]trav(nil), o.trav[:i]...), o.trav[i+1:]...)
					break
				}
			}
			ex.emit(o, &Event{Kind: EvCall, In: in, Name: "sync.Map.Range.all", Args: []*V{m}, Res: vNil()})
			ex.finish(o, in, kind, vNil())
		})
	}
	k := s.siteFresh(in, 1, nil, "key")
	v := s.siteFresh(in, 1000002, nil, "elem")
	ex.emit(s, &Event{Kind: EvNext, In: in, Addr: m, Args: []*V{k}, Val: v})
	ex.push(s, in, fn, f.args, []*V{k, v}, fkRange)
	return s.dead
}
