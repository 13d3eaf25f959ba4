package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow-sensitive, interprocedural lock sets over the whole module: which locks are (certainly, possibly) held at each
// instruction, for every way of getting there.

type held struct {
	must, write bool
	f           *types.Var // the field (or nil: a variable) holding the mutex
	owner       string     // the type of the structure it is in
}

type lockState struct {
	l map[string]held
	d map[*ssa.Defer]bool // deferred calls; true: on every path
}

func newLockState() *lockState { return &lockState{map[string]held{}, map[*ssa.Defer]bool{}} }

func (s *lockState) clone() *lockState {
	r := newLockState()
	for k, v := range s.l {
		r.l[k] = v
	}
	for k, v := range s.d {
		r.d[k] = v
	}
	return r
}

// join merges another path into the state; true when it changed.
func (s *lockState) join(o *lockState) bool {
	ch := false
	for k, v := range s.l {
		w, ok := o.l[k]
		n := v
		n.must = v.must && ok && w.must
		if ok {
			n.write = v.write && w.write
		}
		if n != v {
			s.l[k] = n
			ch = true
		}
	}
	for k, w := range o.l {
		if _, ok := s.l[k]; !ok {
			w.must = false
			s.l[k] = w
			ch = true
		}
	}
	for d, v := range s.d {
		if v && !o.d[d] {
			s.d[d] = false
			ch = true
		}
	}
	for d := range o.d {
		if _, ok := s.d[d]; !ok {
			s.d[d] = false
			ch = true
		}
	}
	return ch
}

// lockEff: what a call does to the locks.
type lockEff struct {
	acq map[string]held
	rel map[string]bool
	use map[string]bool // taken on the way; true: for writing
}

func (e *lockEff) equal(o *lockEff) bool {
	if len(e.acq) != len(o.acq) || len(e.rel) != len(o.rel) {
		return false
	}
	for k, v := range e.acq {
		if o.acq[k] != v {
			return false
		}
	}
	for k := range e.rel {
		if !o.rel[k] {
			return false
		}
	}
	if len(e.use) != len(o.use) {
		return false
	}
	for k, w := range e.use {
		if v, ok := o.use[k]; !ok || v != w {
			return false
		}
	}
	return true
}

type excuse struct {
	in   ssa.Instruction
	lock *types.Var
}

type locksets struct {
	values       map[*ssa.Function]bool // used somewhere, other than by being called through an interface
	ifaceMethods map[string]bool
	excused      map[excuse]bool
	p            *Program
	o            *origins
	fns          []*ssa.Function
	eff          map[*ssa.Function]*lockEff
	entry        map[*ssa.Function]*lockState
	at           map[ssa.Instruction]*lockState // state before the instruction
	roots        map[*ssa.Function]string       // functions started by nobody here, and goroutines
	by           map[*ssa.Function]map[string]bool
	spawn        map[*ssa.Function][]*ssa.Function // goroutine -> functions starting it
	user         map[ssa.Instruction]string        // calls of code of the user
	double       []lockFault
	order        map[[2]*types.Var]ssa.Instruction
	cells        map[ssa.Value]ssa.Value
	canons       map[ssa.Value]string
	ctor         map[*ssa.Function]bool
	pub          map[ssa.Value][]ssa.Instruction
	fresh        map[*ssa.Parameter]bool
}

type lockFault struct {
	in  ssa.Instruction
	key string
}

// cell: the only value ever stored in a variable.
func (l *locksets) cell(v ssa.Value) ssa.Value {
	if r, ok := l.cells[v]; ok {
		return r
	}
	l.cells[v] = nil
	var vals []ssa.Value
	switch a := v.(type) {
	case *ssa.Alloc:
		vals = append(vals, l.o.allocs[a]...)
		for fv, bs := range l.o.binds {
			for _, b := range bs {
				if b == ssa.Value(a) {
					vals = append(vals, l.o.allocs[fv]...)
				}
			}
		}
		// its address must not go anywhere else
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == ssa.Value(a) {
					return nil
				}
			case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
			default:
				return nil
			}
		}
	}
	if len(vals) == 1 {
		l.cells[v] = vals[0]
		return vals[0]
	}
	return nil
}

// canon names a value so that equal names mean equal values.
func (l *locksets) canon(v ssa.Value) string {
	if s, ok := l.canons[v]; ok {
		return s
	}
	l.canons[v] = fmt.Sprintf("V%p;", v)
	s := l.canon1(v)
	l.canons[v] = s
	return s
}

func (l *locksets) canon1(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return fmt.Sprintf("P%p;", x)
	case *ssa.FreeVar:
		if bs := l.o.binds[x]; len(bs) == 1 {
			return l.canon(bs[0])
		}
	case *ssa.Alloc:
		return fmt.Sprintf("A%p;", x)
	case *ssa.Global:
		return "G" + x.String() + ";"
	case *ssa.Const:
		return x.String() + ";"
	case *ssa.FieldAddr:
		return l.canon(x.X) + "." + structOfPtr(x.X.Type()).Field(x.Field).Name() + ";"
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return l.canon(x.X) + "." + st.Field(x.Field).Name() + ";"
		}
	case *ssa.IndexAddr:
		return l.canon(x.X) + "[" + l.canon(x.Index) + "]"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := x.X
			if fv, ok := a.(*ssa.FreeVar); ok {
				if bs := l.o.binds[fv]; len(bs) == 1 {
					a = bs[0]
				}
			}
			if w := l.cell(a); w != nil {
				return l.canon(w)
			}
			if _, ok := a.(*ssa.FieldAddr); ok {
				return "*" + l.canon(a)
			}
			if _, ok := a.(*ssa.Global); ok {
				return "*" + l.canon(a)
			}
		}
	case *ssa.ChangeType:
		return l.canon(x.X)
	case *ssa.Convert:
		return l.canon(x.X)
	case *ssa.MakeInterface:
		return l.canon(x.X)
	case *ssa.ChangeInterface:
		return l.canon(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return l.canon(x.X)
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && shortType(x.Call.Value.Type()) == "context.Context" && x.Call.Method.Name() == "Value" {
			return "value(" + l.canon(x.Call.Value) + l.canon(x.Call.Args[0]) + ")"
		}
		if g := x.Call.StaticCallee(); g != nil && l.p.inModule(g) && g.Blocks != nil {
			var rs []ssa.Value
			l.o.results(g, 0, func(r ssa.Value) { rs = append(rs, r) })
			if len(rs) == 1 && g.Signature.Results().Len() == 1 {
				return l.back(l.canon(rs[0]), x, g)
			}
		}
	case *ssa.Phi:
		s := ""
		for _, e := range x.Edges {
			c := l.canon(e)
			if s != "" && c != s {
				s = ""
				break
			}
			s = c
		}
		if s != "" {
			return s
		}
	}
	return fmt.Sprintf("V%p;", v)
}

// into renames a caller's key for a callee, back the other way.
func (l *locksets) into(key string, call ssa.CallInstruction, g *ssa.Function) string {
	args := callArgs(call)
	type pair struct{ from, to string }
	var ps []pair
	for i, a := range args {
		if i < len(g.Params) {
			if _, ok := a.(*ssa.Const); ok {
				continue
			}
			ps = append(ps, pair{l.canon(a), fmt.Sprintf("P%p;", g.Params[i])})
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return len(ps[i].from) > len(ps[j].from) })
	for _, p := range ps {
		key = strings.ReplaceAll(key, p.from, p.to)
	}
	return key
}

func (l *locksets) back(key string, call ssa.CallInstruction, g *ssa.Function) string {
	for i, a := range callArgs(call) {
		if i < len(g.Params) {
			key = strings.ReplaceAll(key, fmt.Sprintf("P%p;", g.Params[i]), l.canon(a))
		}
	}
	return key
}

func callArgs(call ssa.CallInstruction) []ssa.Value {
	cc := call.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func ownerOf(a ssa.Value) string {
	if fa, ok := a.(*ssa.FieldAddr); ok {
		if n := namedOf(fa.X.Type()); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}

var lockOps = map[string]string{"sync.Mutex.Lock": "W", "sync.RWMutex.Lock": "W", "sync.RWMutex.RLock": "R", "sync.Mutex.Unlock": "U", "sync.RWMutex.Unlock": "U", "sync.RWMutex.RUnlock": "U"}

// targets: the module functions a call may run before it returns; user: it may run code of the user.
func (l *locksets) targets(call ssa.CallInstruction) (gs []*ssa.Function, user string) {
	cc := call.Common()
	add := func(g *ssa.Function) {
		g = origFn(l.p, g)
		if l.p.inModule(g) && g.Blocks != nil {
			gs = append(gs, g)
		}
	}
	dyn := func(v ssa.Value) {
		if f := chanField(v); f != nil && f.Exported() {
			// whoever makes the structure sets the field
			user = "the user's " + f.Name()
		}
		for _, x := range l.o.of(v) {
			switch y := x.v.(type) {
			case *ssa.Function:
				add(y)
			case *ssa.MakeClosure:
				add(y.Fn.(*ssa.Function))
			case *ssa.Const:
			case *ssa.Extract, *ssa.Call:
				// functions of the libraries, like a cancel function, unless kept for the user
				if _, isSig := y.Type().Underlying().(*types.Signature); !isSig {
					user = "a function given by the user"
				}
			default:
				user = "a function given by the user"
				if x.via != nil {
					user = "the user's " + x.via.Name()
				}
			}
		}
	}
	if g := cc.StaticCallee(); g != nil {
		if l.p.inModule(g) && g.Blocks != nil {
			add(g)
			return
		}
		switch fnName(g) {
		case "util.GoFunc", "time.AfterFunc", "sync.WaitGroup.Go":
			return // not before it returns
		}
		for _, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok && hasPrefixAny(fnName(g), "sync.", "sort.", "strings.", "filepath.", "bytes.") {
				dyn(a)
			}
		}
		return
	}
	if cc.IsInvoke() {
		n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), l.p.Module) {
			return
		}
		it := n.Underlying().(*types.Interface)
		for _, fn := range l.fns {
			r := fn.Signature.Recv()
			if r == nil || fn.Object() == nil || fn.Name() != cc.Method.Name() || fn.Synthetic != "" {
				continue
			}
			if types.Implements(r.Type(), it) {
				gs = append(gs, fn)
			}
		}
		switch n.Obj().Name() {
		case "Handler", "CompressorCodec", "SubFunc", "Service", "OverlayNetwork":
			user = "the user's " + n.Obj().Name()
		}
		return
	}
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		dyn(cc.Value)
	}
	return
}

// started: the functions a go statement (or its like) starts.
func (l *locksets) started(call ssa.CallInstruction) []*ssa.Function {
	var v ssa.Value
	cc := call.Common()
	if _, ok := call.(*ssa.Go); ok {
		if g := cc.StaticCallee(); g != nil {
			return []*ssa.Function{origFn(l.p, g)}
		}
		if cc.IsInvoke() {
			return nil
		}
		v = cc.Value
	} else if g := cc.StaticCallee(); g != nil {
		switch fnName(g) {
		case "util.GoFunc", "sync.WaitGroup.Go":
			v = cc.Args[1]
		case "time.AfterFunc":
			v = cc.Args[1]
		}
	}
	if v == nil {
		return nil
	}
	var r []*ssa.Function
	for _, x := range l.o.of(v) {
		switch y := x.v.(type) {
		case *ssa.Function:
			r = append(r, origFn(l.p, y))
		case *ssa.MakeClosure:
			r = append(r, origFn(l.p, y.Fn.(*ssa.Function)))
		}
	}
	return r
}

// run analyses one function from the entry state.
func (l *locksets) run(fn *ssa.Function, entry *lockState, on func(in ssa.Instruction, s *lockState, ran bool)) (exit *lockState, rel, use map[string]bool) {
	rel, use = map[string]bool{}, map[string]bool{}
	in := map[*ssa.BasicBlock]*lockState{}
	if len(fn.Blocks) == 0 {
		return nil, rel, use
	}
	in[fn.Blocks[0]] = entry.clone()
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	apply := func(s *lockState, call ssa.CallInstruction) {
		if g := call.Common().StaticCallee(); g != nil {
			if op := lockOps[fnName(g)]; op != "" {
				a := call.Common().Args[0]
				k := l.canon(a)
				switch op {
				case "W", "R":
					if !rel[k] {
						use[k] = use[k] || op == "W"
					}
					s.l[k] = held{must: true, write: op == "W", f: fieldOfAddr(a), owner: ownerOf(a)}
				default:
					if _, ok := s.l[k]; !ok {
						rel[k] = true
					}
					delete(s.l, k)
				}
				return
			}
		}
		gs, _ := l.targets(call)
		for i, g := range gs {
			e := l.eff[g]
			if e == nil {
				continue
			}
			for k, w := range e.use {
				if k = l.back(k, call, g); !rel[k] && len(k) < 400 {
					use[k] = use[k] || w
				}
			}
			for k := range e.rel {
				k = l.back(k, call, g)
				if _, ok := s.l[k]; !ok {
					rel[k] = true
				}
				delete(s.l, k)
			}
			for k, v := range e.acq {
				v.must = v.must && len(gs) == 1 && i == 0
				s.l[l.back(k, call, g)] = v
			}
		}
	}
	pass := func(b *ssa.BasicBlock, s *lockState, on func(ssa.Instruction, *lockState, bool)) *lockState {
		for _, i := range b.Instrs {
			if on != nil {
				_, later := i.(*ssa.Defer)
				on(i, s, !later)
			}
			switch x := i.(type) {
			case *ssa.Defer:
				s.d[x] = true
			case *ssa.Go:
			case *ssa.RunDefers:
				var ds []*ssa.Defer
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						if d, ok := i.(*ssa.Defer); ok {
							if _, ok := s.d[d]; ok {
								ds = append(ds, d)
							}
						}
					}
				}
				for j := len(ds) - 1; j >= 0; j-- {
					if on != nil {
						on(ds[j], s, true)
					}
					apply(s, ds[j])
				}
			case *ssa.Call:
				apply(s, x)
			}
		}
		return s
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := pass(b, in[b].clone(), nil)
		for _, t := range b.Succs {
			if in[t] == nil {
				in[t] = s.clone()
				work = append(work, t)
			} else if in[t].join(s) {
				work = append(work, t)
			}
		}
	}
	for _, b := range fn.Blocks {
		if in[b] == nil {
			continue
		}
		s := pass(b, in[b].clone(), on)
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if exit == nil {
				exit = s
			} else {
				exit.join(s)
			}
		}
	}
	return exit, rel, use
}

// lockAnalysis analyses the library.
func (p *Program) lockAnalysis() *locksets {
	l := &locksets{p: p, o: p.origins(), fns: p.libFuncs(), eff: map[*ssa.Function]*lockEff{}, entry: map[*ssa.Function]*lockState{}, at: map[ssa.Instruction]*lockState{},
		roots: map[*ssa.Function]string{}, by: map[*ssa.Function]map[string]bool{}, spawn: map[*ssa.Function][]*ssa.Function{}, user: map[ssa.Instruction]string{}, order: map[[2]*types.Var]ssa.Instruction{}, cells: map[ssa.Value]ssa.Value{}, canons: map[ssa.Value]string{}, ctor: map[*ssa.Function]bool{}, pub: map[ssa.Value][]ssa.Instruction{}, fresh: map[*ssa.Parameter]bool{}}
	// effects, bottom up
	for round := 0; round < 8; round++ {
		ch := false
		for _, fn := range l.fns {
			exit, rel, use := l.run(fn, newLockState(), nil)
			e := &lockEff{acq: map[string]held{}, rel: rel, use: use}
			if exit != nil {
				e.acq = exit.l
			}
			if l.eff[fn] == nil || !l.eff[fn].equal(e) {
				l.eff[fn] = e
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	// who runs what
	callees := map[*ssa.Function][]*ssa.Function{}
	called := map[*ssa.Function]bool{}
	for _, fn := range l.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range l.started(call) {
					l.spawn[g] = append(l.spawn[g], fn)
				}
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				gs, user := l.targets(call)
				if user != "" {
					l.user[in] = user
				}
				for _, g := range gs {
					called[g] = true
				}
				callees[fn] = append(callees[fn], gs...)
			}
		}
	}
	reach := func(root *ssa.Function, on func(*ssa.Function)) {
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			on(f)
			for _, g := range callees[f] {
				rec(g)
			}
		}
		rec(root)
	}
	for _, fn := range l.fns {
		switch {
		case len(l.spawn[fn]) > 0:
			class := "go " + fnName(fn)
			reach(fn, func(f *ssa.Function) {
				switch fnName(f) {
				case fnReadC, fnReadS:
					class = "reader"
				case fnWriteC:
					class = "writer"
				case fnLoop:
					class = "loop"
				case fnServe:
					class = "serve"
				}
			})
			l.roots[fn] = class
		case fn.Name() == "init" && fn.Synthetic != "":
			continue
		case fn.Synthetic != "":
			continue
		case partOnly(fn):
			continue
		case !exportedFn(fn) && fn.Parent() == nil && !called[fn] && !l.mentioned(fn):
			continue // nothing runs it
		case exportedFn(fn) && fn.Parent() == nil || !called[fn]:
			l.roots[fn] = "api"
		}
	}
	for root, class := range l.roots {
		class := class
		reach(root, func(f *ssa.Function) {
			if l.by[f] == nil {
				l.by[f] = map[string]bool{}
			}
			l.by[f][class] = true
		})
	}
	// states on entry, top down
	work := []*ssa.Function{}
	for _, fn := range l.fns {
		if l.roots[fn] != "" {
			l.entry[fn] = newLockState()
			work = append(work, fn)
		}
	}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		fn := work[0]
		work = work[1:]
		l.run(fn, l.entry[fn], func(in ssa.Instruction, s *lockState, ran bool) {
			call, ok := in.(ssa.CallInstruction)
			if !ok || !ran {
				return
			}
			if _, ok := in.(*ssa.Go); ok {
				return
			}
			gs, _ := l.targets(call)
			for _, g := range gs {
				t := newLockState()
				for k, v := range s.l {
					t.l[l.into(k, call, g)] = v
				}
				if l.entry[g] == nil {
					l.entry[g] = t
					work = append(work, g)
				} else if l.entry[g].join(t) {
					work = append(work, g)
				}
			}
		})
	}
	// what holds where
	for _, fn := range l.fns {
		if l.entry[fn] == nil {
			continue
		}
		l.run(fn, l.entry[fn], func(in ssa.Instruction, s *lockState, ran bool) {
			if !ran {
				return
			}
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil {
					if op := lockOps[fnName(g)]; op == "W" || op == "R" {
						{
							a := call.Common().Args[0]
							k := l.canon(a)
							if h, ok := s.l[k]; ok && h.must && (h.write || op == "W") {
								l.double = append(l.double, lockFault{in, k})
							}
							if f := fieldOfAddr(a); f != nil {
								for k2, h := range s.l {
									if h.f != nil && (h.f != f || k2 != k) {
										l.order[[2]*types.Var{h.f, f}] = in
									}
								}
							}
						}
					}
				}
			}
			if call, ok := in.(ssa.CallInstruction); ok && len(s.l) > 0 {
				if _, isGo := in.(*ssa.Go); !isGo {
					gs, _ := l.targets(call)
					for _, g := range gs {
						if e := l.eff[g]; e != nil {
							for k, w := range e.use {
								k = l.back(k, call, g)
								if h, ok := s.l[k]; ok && h.must && (h.write || w) {
									l.double = append(l.double, lockFault{in, k})
								}
							}
						}
					}
				}
			}
			if old := l.at[in]; old != nil {
				old.join(s)
			} else {
				l.at[in] = s.clone()
			}
		})
	}
	return l
}

// partOnly: a method of a part of a connection users cannot call.
func partOnly(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	n := namedOf(r.Type())
	if n == nil {
		return false
	}
	open, ok := partTypes[n.Obj().Name()]
	if !ok {
		return false
	}
	for _, m := range open {
		if m == fn.Name() {
			return false
		}
	}
	return true
}

// mentioned: the function is used as a value, or may be called through an interface.
func (l *locksets) mentioned(fn *ssa.Function) bool {
	if l.values == nil {
		l.values = map[*ssa.Function]bool{}
		for _, f := range l.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [16]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						switch g := (*o).(type) {
						case *ssa.Function:
							l.values[origFn(l.p, g)] = true
						}
					}
				}
			}
		}
		l.ifaceMethods = map[string]bool{}
		for _, x := range l.p.Pkgs {
			for _, o := range x.TypesInfo.Defs {
				if f, ok := o.(*types.Func); ok {
					if r := f.Type().(*types.Signature).Recv(); r != nil && types.IsInterface(r.Type()) {
						l.ifaceMethods[f.Name()] = true
					}
				}
			}
		}
	}
	return l.values[fn] || fn.Signature.Recv() != nil && l.ifaceMethods[fn.Name()] || fn.Name() == "main"
}
