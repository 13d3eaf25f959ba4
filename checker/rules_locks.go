package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C30", "interprocedural lock sets over every function of the library (must and may, per way of entry): pairwise conflict check of all accesses to the fields of the shared structures (common lock in the right mode, atomic on both sides, one goroutine class, fork/join, or construction before publication), lock balance on every return, locks held at user callbacks and at blocking channel operations, double locking, lock order; escape and join dataflow of variables captured by goroutines; path exploration of the connection cycle for the fork/join fields", c30)
}

// access: one use of a field of a shared structure.
type access struct {
	fn      *ssa.Function
	in      ssa.Instruction
	f       *types.Var
	owner   *types.Named
	base    ssa.Value
	load    ssa.Instruction // of the map or slice, for its content
	write   bool
	atomic  bool
	content bool // of the map or slice kept in the field
}

var sharedTypes = [][2]string{
	{"", "Connection"}, {"", "serveconn"}, {"", "ConnectionInfo"}, {"", "Server"}, {"", "ServeMux"}, {"", "Stream"}, {"", "ConnStreams"}, {"", "defaultAPI"}, {"", "Reader"}, {"", "Writer"}, {"", "defaultFrameReader"}, {"", "response"}, {"", "throttle"},
	{"channel", "clientSender"}, {"channel", "clientReceiver"}, {"channel", "serveSender"}, {"channel", "serveReceiver"}, {"channel", "clientTransport"},
	{"ws/server", "qrpcOverWS"},
}

// partTypes are parts of a connection: what users can reach of them are the methods listed.
var partTypes = map[string][]string{
	"Reader": {"SetReadTimeout"}, "Writer": nil, "defaultFrameReader": {"SetReadTimeout"}, "Stream": {"IsSelfClosed", "Done", "ID"}, "ConnStreams": nil,
}

// apart: fields whose use is settled by something else than a lock.
var apart = map[string]string{
	"ConnectionInfo.anything":             "documented: no synchronization (caller guaranteed)",
	"serveconn.cachedRequests":            "only used by the writer whose turn it is: see C34",
	"serveconn.cachedBuffs":               "only used by the writer whose turn it is: see C34",
	"clientSender.firstFrame":             "only used by the one receiver of a pipe: see C28",
	"serveReceiver.hasReceivedFirstFrame": "only used by the one receiver of a pipe: see C28",
}

// servedTypes: what serving a connection may still set up before it starts the goroutines of the connection.
var servedTypes = map[string]bool{"serveconn": true, "Reader": true, "Writer": true, "defaultFrameReader": true, "defaultFrameWriter": true}

// setup: functions documented to run before a server serves, or while packages are initialised.
var setup = map[string]bool{"qrpc.Server.ListenAll": true, "qrpc.SetLogger": true}

// accesses lists every use of the fields of the given types in the library.
func (l *locksets) accesses(shared map[*types.Named]bool) []access {
	var out []access
	on := func(x access) { out = append(out, x) }
	for _, fn := range l.fns {
		fn := fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					n := namedOf(x.X.Type())
					if n == nil || !shared[n] {
						continue
					}
					l.uses(x, access{fn: fn, f: structOfPtr(x.X.Type()).Field(x.Field), owner: n, base: x.X}, on)
				case *ssa.UnOp, *ssa.Store:
					// the structure as a whole
					p, w := ssa.Value(nil), false
					if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
						p = u.X
					} else if st, ok := x.(*ssa.Store); ok {
						p, w = st.Addr, true
					}
					if p == nil {
						continue
					}
					n, _ := types.Unalias(p.Type().Underlying().(*types.Pointer).Elem()).(*types.Named)
					if n == nil || !shared[n] {
						continue
					}
					st, _ := n.Underlying().(*types.Struct)
					for i := 0; st != nil && i < st.NumFields(); i++ {
						if !isSyncType(st.Field(i).Type()) {
							on(access{fn: fn, in: in, f: st.Field(i), owner: n, base: p, write: w})
						}
					}
				}
			}
		}
	}
	return out
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isSyncType(t types.Type) bool {
	s := shortType(t)
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "atomic.")
}

func syncPtr(v ssa.Value) bool {
	p, ok := v.Type().Underlying().(*types.Pointer)
	return ok && isSyncType(p.Elem())
}

// uses follows the address of a field.
func (l *locksets) uses(addr ssa.Value, a access, on func(access)) {
	if syncPtr(addr) {
		return
	}
	for _, r := range *addr.Referrers() {
		a := a
		a.in = r
		switch x := r.(type) {
		case *ssa.Store:
			a.write = x.Addr == addr || !a.content
			on(a)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				continue
			}
			on(a)
			l.contents(x, a, on)
		case *ssa.FieldAddr:
			l.uses(x, a, on)
		case *ssa.IndexAddr:
			if x.X == addr {
				l.uses(x, a, on)
			}
		case *ssa.Convert:
			l.uses(x, a, on)
		case *ssa.ChangeType:
			l.uses(x, a, on)
		case *ssa.Slice: // of an array
			if x.X == addr {
				a.write = true
				on(a)
			}
		case ssa.CallInstruction:
			a.write = true
			if g := x.Common().StaticCallee(); g != nil && strings.HasPrefix(fnName(g), "atomic.") {
				a.atomic = true
				a.write = !strings.HasPrefix(fnName(g), "atomic.Load")
			}
			on(a)
		case *ssa.MakeClosure, *ssa.Phi, *ssa.MakeInterface, *ssa.Return:
			a.write = true
			on(a)
		}
	}
}

// contents follows a map or slice read from a field.
func (l *locksets) contents(v ssa.Value, a access, on func(access)) {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return
	}
	if in, ok := v.(ssa.Instruction); ok && !a.content {
		a.load = in
	}
	a.content = true
	for _, r := range *v.Referrers() {
		a := a
		a.in = r
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				a.write = true
				on(a)
			}
		case *ssa.Lookup:
			on(a)
		case *ssa.Range:
			for _, n := range *x.Referrers() {
				a.in = n
				on(a)
			}
		case *ssa.IndexAddr:
			if x.X == v {
				l.uses(x, a, on)
			}
		case *ssa.Slice:
			l.contents(x, a, on)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap":
					if _, ok := v.Type().Underlying().(*types.Map); ok {
						on(a)
					}
				case "append", "delete", "copy", "clear":
					a.write = x.Call.Args[0] == v
					on(a)
				}
			}
		}
	}
}

// after tells whether b may run after a, in the same function.
func after(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, t := range x.Succs {
			if t == b.Block() {
				return true
			}
			if !seen[t] {
				seen[t] = true
				if rec(t) {
					return true
				}
			}
		}
		return false
	}
	return rec(a.Block())
}

// dominates: whenever b runs, a ran before.
func dominates(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// rootVal: the allocation or parameter a pointer stands for.
func (l *locksets) rootVal(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.Parameter:
			return v
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Call:
			// a constructor's result is only known to its caller
			if g := x.Call.StaticCallee(); g != nil && l.p.inModule(g) && l.constructs(g) {
				return x
			}
			return nil
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			w := l.cell(x.X)
			if w == nil {
				// an embedded structure of something fresh
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					if r := l.storedIn(fa); r != nil {
						v = r
						continue
					}
				}
				return nil
			}
			v = w
		default:
			return nil
		}
	}
	return nil
}

// storedIn: the only value this function stored in the field of the same structure, before.
func (l *locksets) storedIn(fa *ssa.FieldAddr) ssa.Value {
	f := structOfPtr(fa.X.Type()).Field(fa.Field)
	var r ssa.Value
	n := 0
	for _, b := range fa.Parent().Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.FieldAddr); ok && structOfPtr(g.X.Type()).Field(g.Field) == f {
					n++
					if l.canon(g.X) == l.canon(fa.X) && dominates(in, fa) {
						r = st.Val
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return r
}

// constructs: the function returns a structure it made and told nobody about.
func (l *locksets) constructs(g *ssa.Function) bool {
	if r, ok := l.ctor[g]; ok {
		return r
	}
	l.ctor[g] = false
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) == 0 {
				continue
			}
			n++
			switch v := l.rootVal(r.Results[0]).(type) {
			case *ssa.Alloc, *ssa.Call:
				for _, p := range l.publications(v.(ssa.Value)) {
					if after(p, r) {
						return false
					}
				}
			default:
				return false
			}
		}
	}
	l.ctor[g] = n > 0
	return n > 0
}

// publications: the instructions by which others may learn of the structure.
func (l *locksets) publications(root ssa.Value) []ssa.Instruction {
	if r, ok := l.pub[root]; ok {
		return r
	}
	l.pub[root] = nil
	var fn *ssa.Function
	switch x := root.(type) {
	case *ssa.Parameter:
		fn = x.Parent()
	case ssa.Instruction:
		fn = x.Parent()
	default:
		return nil
	}
	// everything this function makes that refers to the root
	tied := map[ssa.Value]bool{root: true}
	has := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		if tied[v] {
			return true
		}
		r := l.rootVal(v)
		return r != nil && tied[r]
	}
	for ch := true; ch; {
		ch = false
		add := func(v ssa.Value) {
			if v != nil && !tied[v] {
				tied[v] = true
				ch = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if has(x.Val) {
						if r := l.rootVal(x.Addr); r != nil {
							if _, ok := r.(*ssa.Parameter); !ok {
								add(r)
							}
						}
					}
				case *ssa.MakeClosure:
					for _, y := range x.Bindings {
						if has(y) {
							add(x)
						}
					}
				case *ssa.MakeInterface:
					if has(x.X) {
						add(x)
					}
				case *ssa.Call:
					// what a library function makes of it, like a context
					if g := x.Call.StaticCallee(); g == nil || !l.p.inModule(g) {
						for _, a := range callArgs(x) {
							if has(a) {
								add(x)
							}
						}
					}
				case *ssa.Extract:
					if has(x.Tuple) {
						add(x)
					}
				}
			}
		}
	}
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if has(x.Val) {
					r := l.rootVal(x.Addr)
					if r == nil || !has(r) {
						out = append(out, in)
					}
				}
			case *ssa.Send:
				if has(x.X) {
					out = append(out, in)
				}
			case *ssa.MapUpdate:
				if has(x.Value) || has(x.Key) {
					out = append(out, in)
				}
			case ssa.CallInstruction:
				cc := x.Common()
				any := -1
				for i, a := range callArgs(x) {
					if has(a) {
						any = i
					}
				}
				if _, ok := in.(*ssa.Go); ok {
					if any >= 0 || has(cc.Value) {
						out = append(out, in)
					}
					continue
				}
				if any < 0 && !(cc.StaticCallee() == nil && has(cc.Value)) {
					continue
				}
				if len(l.started(x)) > 0 {
					out = append(out, in)
					continue
				}
				g := cc.StaticCallee()
				switch {
				case g == nil:
					if _, ok := cc.Value.(*ssa.Builtin); !ok && !cc.IsInvoke() {
						out = append(out, in)
					}
				case l.p.inModule(g) && g.Blocks != nil:
					for i, a := range callArgs(x) {
						if has(a) && i < len(g.Params) && len(l.publications(g.Params[i])) > 0 {
							out = append(out, in)
							break
						}
					}
				default:
					switch fnName(g) {
					case "sync.Map.Store", "sync.Map.LoadOrStore", "sync.Map.Swap", "sync.Map.CompareAndSwap", "atomic.Value.Store", "atomic.StorePointer":
						for _, a := range cc.Args[1:] {
							if has(a) {
								// unless kept in the structure itself
								if r := l.rootVal(cc.Args[0]); r == nil || !has(r) {
									out = append(out, in)
								}
								break
							}
						}
					}
				}
			}
		}
	}
	l.pub[root] = out
	return out
}

// freshAt: nobody else knows the structure v points to, when in runs.
func (l *locksets) freshAt(v ssa.Value, in ssa.Instruction) bool {
	r := l.rootVal(v)
	if r == nil {
		return false
	}
	if ri, ok := r.(ssa.Instruction); ok && ri.Parent() != in.Parent() {
		return false
	}
	if p, ok := r.(*ssa.Parameter); ok {
		if p.Parent() != in.Parent() || !l.freshParam(p) {
			return false
		}
	}
	for _, p := range l.publications(r) {
		if p != in && after(p, in) {
			return false
		}
	}
	return true
}

// freshParam: every caller gives a structure nobody else knows.
func (l *locksets) freshParam(p *ssa.Parameter) bool {
	if r, ok := l.fresh[p]; ok {
		return r
	}
	l.fresh[p] = false
	fn := p.Parent()
	if l.roots[fn] != "" || l.o.escapes[fn] || len(l.o.calls[fn]) == 0 {
		return false
	}
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	for _, call := range l.o.calls[fn] {
		if _, ok := call.(*ssa.Call); !ok {
			return false
		}
		if as := callArgs(call); idx >= len(as) || !l.freshAt(as[idx], call) {
			return false
		}
	}
	l.fresh[p] = true
	return true
}

// common: a lock of the structure both accesses run under.
func (l *locksets) common(a, b access) bool {
	sa, sb := l.at[a.in], l.at[b.in]
	if sa == nil || sb == nil {
		return false
	}
	ba, bb := l.canon(a.base), l.canon(b.base)
	for ka, ha := range sa.l {
		if !ha.must || ha.f == nil || a.write && !ha.write {
			continue
		}
		for kb, hb := range sb.l {
			if !hb.must || hb.f != ha.f || b.write && !hb.write {
				continue
			}
			// the same lock of the same structure, as far as can be told
			if strings.HasPrefix(ka, ba) == strings.HasPrefix(kb, bb) || a.fn.Parent() != nil || b.fn.Parent() != nil {
				return true
			}
		}
	}
	return false
}

// swapped: the map or slice was taken out of the field under the lock before.
func (l *locksets) swapped(a access) bool {
	if !a.content || a.load == nil {
		return false
	}
	sl := l.at[a.load]
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || structOfPtr(fa.X.Type()).Field(fa.Field) != a.f || l.canon(fa.X) != l.canon(a.base) {
				continue
			}
			if st.Val == a.load.(ssa.Value) || !dominates(a.load, in) || !dominates(in, a.in) {
				continue
			}
			// no way out of the critical section between the load and the store
			ss := l.at[in]
			if sl == nil || ss == nil {
				continue
			}
			for k, h := range sl.l {
				if g, ok := ss.l[k]; ok && h.must && g.must && h.write && g.write && !l.unlockedBetween(a.load, in, k) {
					return true
				}
			}
		}
	}
	return false
}

// unlockedBetween: the lock may be released on the way from a to b.
func (l *locksets) unlockedBetween(a, b ssa.Instruction, key string) bool {
	for _, blk := range a.Parent().Blocks {
		for _, in := range blk.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !after(a, in) || !after(in, b) {
				continue
			}
			if g := call.Call.StaticCallee(); g != nil {
				if lockOps[fnName(g)] == "U" && l.canon(call.Call.Args[0]) == key {
					return true
				}
				if e := l.eff[origFn(l.p, g)]; e != nil {
					for k := range e.rel {
						if l.back(k, call, g) == key {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// sealed: the list is read after a flag was set under the lock, and it only changes under the lock while the flag is not set.
func (l *locksets) sealed(r access, all []access) bool {
	for _, b := range r.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !dominates(in, r.in) {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || l.canon(fa.X) != l.canon(r.base) {
				continue
			}
			flag := structOfPtr(fa.X.Type()).Field(fa.Field)
			if k, ok := st.Val.(*ssa.Const); !ok || k.Value == nil || k.Value.String() != "true" {
				continue
			}
			var lock *types.Var
			if s := l.at[in]; s != nil {
				for _, h := range s.l {
					if h.must && h.write {
						lock = h.f
					}
				}
			}
			if lock == nil {
				continue
			}
			ok = true
			for _, w := range all {
				if w.f == r.f && w.write && !l.guarded(w, flag, lock) {
					ok = false
				}
				if w.f == flag && w.write && !l.freshAt(w.base, w.in) {
					// never cleared
					if st, isSt := w.in.(*ssa.Store); !isSt {
						ok = false
					} else if k, isK := st.Val.(*ssa.Const); !isK || k.Value == nil || k.Value.String() != "true" {
						ok = false
					}
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// detached: on every path the map or slice was taken out of the field in the critical section it was read in.
func (c *Check) detached(l *locksets, a, other access) bool {
	if !a.content || a.load == nil {
		return false
	}
	var lock *types.Var
	if s := l.at[other.in]; s != nil {
		for _, h := range s.l {
			if h.must && h.f != nil {
				lock = h.f
			}
		}
	}
	if lock == nil {
		return false
	}
	if r, ok := l.excused[excuse{a.in, lock}]; ok {
		return r
	}
	hits, ok := 0, true
	c.quietly(func(q *Check) {
		q.explore(Config{NoKill: true}, a.fn, nil, nil, newM("detached", func(m *M, s *State, e *Event) {
			locked := s.lockedBy(lock, true)
			switch {
			case e.Kind == EvLoad && e.In == a.load:
				m.n["read"], m.n["replaced"], m.n["taken"] = b2i(locked), 0, 0
			case e.Kind == EvStore && e.Field == a.f && m.n["read"] == 1 && locked:
				m.n["replaced"] = 1
			case e.Kind == EvUnlock && m.n["read"] == 1 && lastField(e.Addr) == lock:
				m.n["taken"] = m.n["replaced"]
				m.n["read"] = 0
			}
			if e.In == a.in && e.Kind != EvBranch {
				hits++
				if m.n["taken"] == 0 && !(m.n["read"] == 1 && locked) {
					ok = false
				}
			}
		}))
		ok = ok && len(q.vs) == 0
	})
	if l.excused == nil {
		l.excused = map[excuse]bool{}
	}
	l.excused[excuse{a.in, lock}] = ok && hits > 0
	return ok && hits > 0
}

// sealedPath: as sealed, on every path.
func (c *Check) sealedPath(l *locksets, r access, all []access) bool {
	if r.write || r.atomic {
		return false
	}
	at := r.in
	if r.content {
		at = r.load
	}
	if at == nil {
		return false
	}
	seen := map[*types.Var]bool{}
	for _, w := range all {
		flag := w.f
		if w.owner != r.owner || seen[flag] || !isBasic(flag.Type(), types.IsBoolean) {
			continue
		}
		seen[flag] = true
		var lock *types.Var
		ok := true
		for _, x := range all {
			if x.f != flag || !x.write || l.freshAt(x.base, x.in) {
				continue
			}
			st, isSt := x.in.(*ssa.Store)
			if !isSt {
				ok = false
				continue
			}
			if k, isK := st.Val.(*ssa.Const); !isK || k.Value == nil || k.Value.String() != "true" {
				ok = false
			}
			if s := l.at[x.in]; s != nil {
				for _, h := range s.l {
					if h.must && h.write && h.f != nil {
						lock = h.f
					}
				}
			}
		}
		if !ok || lock == nil {
			continue
		}
		for _, x := range all {
			if x.f == r.f && x.write && !l.guarded(x, flag, lock) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		hits := 0
		c.quietly(func(q *Check) {
			q.explore(Config{NoKill: true}, r.fn, nil, nil, newM("sealed", func(m *M, s *State, e *Event) {
				switch {
				case e.Kind == EvStore && e.Field == flag && e.Val.isTrue() && s.lockedBy(lock, true):
					m.n["set"] = 1
				case e.Kind == EvLoad && e.In == at:
					hits++
					if m.n["set"] == 0 {
						ok = false
					}
				}
			}))
			ok = ok && len(q.vs) == 0
		})
		if ok && hits > 0 {
			return true
		}
	}
	return false
}

// quietly explores without reporting.
func (c *Check) quietly(f func(q *Check)) {
	q := &Check{p: c.p, id: c.id, tier: c.tier, seen: map[string]bool{}, obs: map[string]map[string]bool{}, funcs: c.funcs, sites: map[ssa.Instruction]bool{}}
	f(q)
	c.states += q.states
	c.paths += q.paths
	c.explor += q.explor
}

// guarded: the write only happens where the flag was found unset in the same critical section.
func (l *locksets) guarded(w access, flag, lock *types.Var) bool {
	if l.freshAt(w.base, w.in) {
		return true
	}
	s := l.at[w.in]
	if s == nil {
		return false
	}
	key := ""
	for k, h := range s.l {
		if h.f == lock && h.must && h.write {
			key = k
		}
	}
	if key == "" {
		return false
	}
	for _, b := range w.fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := iff.Cond, false
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, !neg
				continue
			}
			break
		}
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		if fa, ok := u.X.(*ssa.FieldAddr); !ok || structOfPtr(fa.X.Type()).Field(fa.Field) != flag {
			continue
		}
		unset := b.Succs[1]
		if neg {
			unset = b.Succs[0]
		}
		if len(unset.Preds) == 1 && (unset == w.in.Block() || unset.Dominates(w.in.Block())) {
			if s := l.at[u]; s != nil && s.l[key].must && !l.unlockedBetween(u, w.in, key) {
				return true
			}
		}
	}
	return false
}

// classes of goroutines which exist once per connection at a time, and whom they start.
var onlyOne = map[string]bool{"reader": true, "writer": true, "loop": true, "serve": true}

func c30(c *Check) {
	l := c.p.lockAnalysis()
	if os.Getenv("CHK_LOCKS") != "" {
		l.dump(c)
	}
	c30fields(c, l)
	c30locks(c, l)
	c30locals(c, l)
	c30globals(c, l)
}

// c30globals: package variables.
func c30globals(c *Check, l *locksets) {
	by := map[*ssa.Global][]access{}
	content := map[*ssa.Global][]access{}
	for _, fn := range l.fns {
		if fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#") || len(l.by[fn]) == 0 || l.setupOnly(fn, 0) || strings.HasSuffix(pkgOf(fn).Pkg.Path(), "/codegen") {
			continue // the generator runs in one goroutine
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !l.p.inModulePkg(g.Pkg) || syncPtr(g) {
						continue
					}
					a := access{fn: fn, in: in, base: g}
					on := func(a access) {
						if a.content {
							content[g] = append(content[g], a)
						} else {
							by[g] = append(by[g], a)
						}
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							a.write = true
							on(a)
						}
					case *ssa.UnOp:
						on(a)
						l.contents(x, a, on)
					case *ssa.FieldAddr:
						l.uses(x, a, on)
					case *ssa.IndexAddr:
						l.uses(x, a, on)
					case ssa.CallInstruction:
						if f := x.Common().StaticCallee(); f != nil && strings.HasPrefix(fnName(f), "atomic.") {
							a.atomic = true
							a.write = !strings.HasPrefix(fnName(f), "atomic.Load")
							on(a)
						}
					}
				}
			}
		}
	}
	for _, m := range []map[*ssa.Global][]access{by, content} {
		for g, as := range m {
			for i, a := range as {
				for _, b := range as[i:] {
					if !a.write && !b.write || a.atomic && b.atomic {
						continue
					}
					c.ob("globals", g.Name()+" "+c.p.posOf(a.in)+" "+c.p.posOf(b.in))
					if !l.commonLocal(a, b) {
						w, o := a, b
						if !w.write {
							w, o = b, a
						}
						c.report("race", g.Name(), c.p.posOf(w.in), fmt.Sprintf("the package variable %s is changed here and used at %s without a common lock", g.Name(), c.p.posOf(o.in)), nil)
					}
				}
			}
		}
	}
}

func (l *locksets) classes(fn *ssa.Function) []string {
	var r []string
	for k := range l.by[fn] {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// setupOnly: only runs while a server is set up.
func (l *locksets) setupOnly(fn *ssa.Function, depth int) bool {
	if setup[fnName(fn)] {
		return true
	}
	if depth > 5 || l.roots[fn] != "" || len(l.o.calls[fn]) == 0 {
		return false
	}
	for _, call := range l.o.calls[fn] {
		if !l.setupOnly(call.Parent(), depth+1) {
			return false
		}
	}
	return true
}

func c30fields(c *Check, l *locksets) {
	shared := map[*types.Named]bool{}
	for _, s := range sharedTypes {
		t := c.p.typ(s[0], s[1])
		if t == nil {
			c.report("anchor", s[1], "?", "type "+s[1]+" the property rests on does not exist", nil)
			continue
		}
		shared[t.(*types.Named)] = true
	}
	all := l.accesses(shared)
	type key struct {
		f       *types.Var
		content bool
	}
	by := map[key][]access{}
	own := map[*types.Var]*types.Named{}
	for _, a := range all {
		if _, isChan := a.f.Type().Underlying().(*types.Chan); isChan && a.content {
			continue
		}
		own[a.f] = a.owner
		c.funcs[a.fn] = true
		if l.freshAt(a.base, a.in) {
			c.ob("construction", fnName(a.fn)+" "+a.f.Name())
			continue
		}
		if l.at[a.in] == nil || len(l.by[a.fn]) == 0 {
			continue // never runs
		}
		if l.setupOnly(a.fn, 0) {
			c.ob("setup", fnName(a.fn)+" "+a.f.Name())
			continue
		}
		by[key{a.f, a.content}] = append(by[key{a.f, a.content}], a)
	}
	c.forked = map[*types.Var]bool{}
	served := map[*types.Var]bool{}
	var ks []key
	for k := range by {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].f.Pos() < ks[j].f.Pos() })
	for _, k := range ks {
		name := own[k.f].Obj().Name() + "." + k.f.Name()
		c.ob("fields", name)
		if why := apart[name]; why != "" {
			c.ob("elsewhere", name+": "+why)
			continue
		}
		as := by[k]
		for i, a := range as {
			for j := i; j < len(as); j++ {
				b := as[j]
				if !a.write && !b.write || a.atomic && b.atomic {
					continue
				}
				c.ob("conflicts", c.p.posOf(a.in)+" "+c.p.posOf(b.in)+" "+name)
				if l.common(a, b) || l.swapped(a) || l.swapped(b) {
					continue
				}
				if !a.write && !a.atomic && l.sealed(a, all) || !b.write && !b.atomic && l.sealed(b, all) {
					continue
				}
				if c.detached(l, a, b) || c.detached(l, b, a) || c.sealedPath(l, a, all) || c.sealedPath(l, b, all) {
					continue
				}
				w, o := a, b
				if !w.write {
					w, o = b, a
				}
				bad := ""
				for _, x := range l.classes(w.fn) {
					for _, y := range l.classes(o.fn) {
						switch {
						case x == y && onlyOne[x] && x != "api":
						case own[k.f].Obj().Name() == "Connection" && (x == "loop" && y != "api" || y == "loop" && x != "api" && !o.write):
							c.forked[k.f] = true
							if x != "loop" {
								// written by a goroutine the loop waits for
								c.ob("joined", name)
							}
						case servedTypes[own[k.f].Obj().Name()] && x == "serve" && y != "api":
							served[k.f] = true
						default:
							bad = x + " and " + y
						}
					}
				}
				if bad != "" {
					how := func(x access) string {
						s := "read"
						if x.write {
							s = "written"
						}
						if x.atomic {
							s += " atomically"
						}
						if st := l.at[x.in]; st != nil {
							var ns []string
							for _, h := range st.l {
								if h.must && h.f != nil {
									ns = append(ns, h.f.Name())
								}
							}
							sort.Strings(ns)
							if len(ns) > 0 {
								s += " under " + strings.Join(ns, ", ")
							}
						}
						return s + " at " + c.p.posOf(x.in)
					}
					what := name
					if k.content {
						what = "the content of " + name
					}
					c.report("race", name, c.p.posOf(w.in), fmt.Sprintf("%s is %s and %s without a common lock (%s)", what, how(w), how(o), bad), nil)
				}
			}
		}
	}
	for _, n := range []string{"Connection", "serveconn", "Server", "ServeMux", "Stream", "clientSender", "serveSender"} {
		found := false
		for f := range own {
			found = found || own[f].Obj().Name() == n
		}
		if !found {
			c.report("fields", n, "?", "no field of "+n+" is used", nil)
		}
	}
	// what the loop hands over to the goroutines of a connection only changes while they do not run
	c.sub(func(rule, k string) bool {
		return rule == "fork-join" || rule == "cycle" && (k == "unwaited" || k == "late group" || k == "coverage")
	}, c25cycle)
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnCloseS, fnReadS, "qrpc.serveconn.instrument", "qrpc.serveconn.handleRequestPanic")}, c.serveRoot(), nil, nil, newM("serve", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvGo:
			m.n["go"] = 1
			c.at("handed", e.In)
		case e.Kind == EvStore && served[e.Field] && m.n["go"] == 1:
			c.bad("fork-join", ownerName(c.p, e.Field)+"."+e.Field.Name(), e.In, s, "the field is changed while goroutines of the connection that use it without synchronisation may run")
		}
	}))
}

// exempt: a pipe's sender keeps its lock for the length of a message.
func pipeLock(h held) bool {
	return h.f != nil && h.f.Pkg() != nil && strings.HasSuffix(h.f.Pkg().Path(), "/channel") || h.f != nil && h.f.Name() == "RWMutex" && h.owner == "clientSender"
}

// answer: the channel has room for the one answer it is made for (that there is only one is decided by C08 and C09).
func (l *locksets) answer(ch ssa.Value) bool {
	n := 0
	for _, o := range l.o.of(ch) {
		if k, ok := o.v.(*ssa.Const); ok && k.IsNil() {
			continue
		}
		mk, ok := o.v.(*ssa.MakeChan)
		if !ok || o.via == nil || o.via.Name() != "result" && o.via.Name() != "Frame" {
			return false
		}
		if k, ok := mk.Size.(*ssa.Const); !ok || k.Int64() < 1 {
			return false
		}
		n++
	}
	return n > 0
}

func c30locks(c *Check, l *locksets) {
	for _, fn := range l.fns {
		if l.roots[fn] == "" {
			continue
		}
		c.ob("balance", fnName(fn))
		e := l.eff[fn]
		for _, h := range e.acq {
			n := "a lock"
			if h.f != nil {
				n = h.f.Name()
			}
			c.report("balance", fnName(fn)+" keeps", c.p.pos(fn.Pos()), fmt.Sprintf("%s may return with %s locked", fnName(fn), n), nil)
		}
		for range e.rel {
			c.report("balance", fnName(fn)+" releases", c.p.pos(fn.Pos()), fnName(fn)+" unlocks a lock it may not hold", nil)
		}
	}
	show := func(s *lockState, what string) string {
		var r []string
		for _, h := range s.l {
			if pipeLock(h) {
				continue
			}
			if h.owner == "defaultAPI" && what == "the user's OverlayNetwork" {
				continue // an API dials one connection at a time
			}
			n := "a lock"
			if h.f != nil {
				n = h.owner + "." + h.f.Name()
			}
			r = append(r, n)
		}
		sort.Strings(r)
		return strings.Join(r, ", ")
	}
	for _, fn := range l.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s := l.at[in]
				if s == nil {
					continue
				}
				what := ""
				switch x := in.(type) {
				case *ssa.Send:
					if !l.answer(x.Chan) {
						what = "a send"
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						what = "a receive"
					}
				case *ssa.Select:
					if x.Blocking {
						what = "a select"
					}
				case *ssa.Call, *ssa.Defer:
					if u := l.user[in]; u != "" {
						what = u
					} else if g := x.(ssa.CallInstruction).Common().StaticCallee(); g != nil {
						switch fnName(g) {
						case "sync.WaitGroup.Wait", "sync.Cond.Wait", "time.Sleep":
							what = fnName(g)
						}
					}
				}
				if what == "" {
					continue
				}
				c.at("held", in)
				if n := show(s, what); n != "" {
					c.report("held", fnName(fn)+" "+what, c.p.posOf(in), fmt.Sprintf("%s may be locked during %s", n, what), nil)
				}
			}
		}
	}
	for _, fn := range l.fns {
		for _, b := range fn.Blocks {
			in := b.Instrs[len(b.Instrs)-1]
			if _, ok := in.(*ssa.Panic); !ok {
				continue
			}
			s := l.at[in]
			if s == nil {
				continue
			}
			c.at("panic", in)
			for k, h := range s.l {
				if l.takenBy(fn, k) && !l.deferred(fn, s, k) {
					n := "a lock"
					if h.f != nil {
						n = h.f.Name()
					}
					c.report("panic", fnName(fn), c.p.posOf(in), fmt.Sprintf("%s may panic with %s locked: it is never unlocked, the panic of a handler is recovered", fnName(fn), n), nil)
				}
			}
		}
	}
	for _, d := range l.double {
		c.report("double", fnName(d.in.Parent()), c.p.posOf(d.in), "the lock is taken while it is held already: it waits for ever", nil)
	}
	// order
	next := map[*types.Var]map[*types.Var]ssa.Instruction{}
	for k, in := range l.order {
		c.at("order", in)
		if next[k[0]] == nil {
			next[k[0]] = map[*types.Var]ssa.Instruction{}
		}
		next[k[0]][k[1]] = in
	}
	for a := range next {
		seen := map[*types.Var]bool{}
		var rec func(x *types.Var) bool
		rec = func(x *types.Var) bool {
			for y := range next[x] {
				if y == a {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if rec(y) {
						return true
					}
				}
			}
			return false
		}
		if rec(a) {
			for _, in := range next[a] {
				c.report("order", a.Name(), c.p.posOf(in), "locks are taken in different orders: two goroutines can wait for each other for ever", nil)
				break
			}
		}
	}
	c.floor("balance")
	c.floor("held")
}

// takenBy: the function itself takes the lock.
func (l *locksets) takenBy(fn *ssa.Function, key string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil {
					if op := lockOps[fnName(g)]; (op == "W" || op == "R") && l.canon(call.Call.Args[0]) == key {
						return true
					}
				}
			}
		}
	}
	return false
}

// deferred: a deferred call unlocks it.
func (l *locksets) deferred(fn *ssa.Function, s *lockState, key string) bool {
	for d := range s.d {
		if g := d.Call.StaticCallee(); g != nil {
			if lockOps[fnName(g)] == "U" && l.canon(d.Call.Args[0]) == key {
				return true
			}
		}
		gs, _ := l.targets(d)
		for _, g := range gs {
			if e := l.eff[g]; e != nil {
				for k := range e.rel {
					if l.back(k, d, g) == key {
						return true
					}
				}
			}
		}
	}
	return false
}

// c30locals: variables shared with goroutines.
func c30locals(c *Check, l *locksets) {
	for _, fn := range l.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range l.started(call) {
					if g.Parent() == nil {
						continue
					}
					l.captured(c, fn, in, g)
				}
			}
		}
	}
}

// captured compares how a goroutine and its starter use the variables they share.
func (l *locksets) captured(c *Check, fn *ssa.Function, at ssa.Instruction, g *ssa.Function) {
	for _, fv := range g.FreeVars {
		bs := l.o.binds[fv]
		if len(bs) != 1 {
			continue
		}
		al, ok := bs[0].(*ssa.Alloc)
		if !ok || al.Parent() != fn {
			continue
		}
		c.ob("captured", fnName(g)+" "+fv.Name())
		var mine, its []access
		l.uses(fv, access{fn: g, base: al}, func(a access) { its = append(its, a) })
		for _, r := range *al.Referrers() {
			// given away while the goroutine still uses it
			u, ok := r.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			switch u.Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				for _, q := range *u.Referrers() {
					if _, ok := q.(*ssa.Return); ok && l.together(at, q, al) {
						mine = append(mine, access{fn: fn, in: q, base: al, write: true, content: true})
					}
				}
			}
		}
		l.uses(al, access{fn: fn, base: al}, func(a access) {
			if _, ok := a.in.(*ssa.MakeClosure); ok {
				return
			}
			if l.together(at, a.in, al) {
				mine = append(mine, a)
			}
		})
		// other goroutines with the same variable
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, h := range l.started(call) {
					if !l.together(at, in, al) {
						continue
					}
					for _, fv2 := range h.FreeVars {
						if bs := l.o.binds[fv2]; len(bs) == 1 && bs[0] == ssa.Value(al) {
							l.uses(fv2, access{fn: h, base: al}, func(a access) { mine = append(mine, a) })
						}
					}
				}
			}
		}
		for _, a := range its {
			for _, b := range mine {
				if a.content != b.content || !a.write && !b.write || a.atomic && b.atomic {
					continue
				}
				if l.commonLocal(a, b) {
					continue
				}
				c.report("race", fnName(g)+" "+fv.Name(), c.p.posOf(a.in), fmt.Sprintf("the variable %s is used here and at %s by goroutines running at the same time, without a common lock", fv.Name(), c.p.posOf(b.in)), nil)
			}
		}
	}
}

func (l *locksets) commonLocal(a, b access) bool {
	sa, sb := l.at[a.in], l.at[b.in]
	if sa == nil || sb == nil {
		return false
	}
	for k, h := range sa.l {
		if strings.HasPrefix(k, "A") && !l.outside(k, a.fn) && !l.outside(k, b.fn) {
			continue // every goroutine has its own
		}
		if g, ok := sb.l[k]; ok && h.must && g.must && (!a.write || h.write) && (!b.write || g.write) {
			return true
		}
	}
	return false
}

// outside: the lock is no variable of the goroutine itself.
func (l *locksets) outside(key string, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && strings.HasPrefix(key, fmt.Sprintf("A%p;", al)) {
				return false
			}
		}
	}
	return true
}

// together: the use may come after the start, of the same variable, without waiting for the goroutine.
func (l *locksets) together(start, use, al ssa.Instruction) bool {
	isWait := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			return g != nil && fnName(g) == "sync.WaitGroup.Wait"
		case *ssa.UnOp:
			return x.Op == token.ARROW
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int) bool // reaches the use without waiting
	scan = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			if b.Instrs[i] == use {
				return true
			}
			if isWait(b.Instrs[i]) || b.Instrs[i] == al {
				return false
			}
		}
		for _, t := range b.Succs {
			if !seen[t] {
				seen[t] = true
				if scan(t, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range start.Block().Instrs {
		if in == start {
			return scan(start.Block(), i+1)
		}
	}
	return false
}

func (l *locksets) dump(c *Check) {
	shared := map[*types.Named]bool{}
	for _, s := range sharedTypes {
		shared[c.p.typ(s[0], s[1]).(*types.Named)] = true
	}
	by := map[string][]string{}
	for _, a := range l.accesses(shared) {
		k := a.owner.Obj().Name() + "." + a.f.Name()
		var ls []string
		if st := l.at[a.in]; st != nil {
			for _, h := range st.l {
				n := "?"
				if h.f != nil {
					n = h.f.Name()
				}
				ls = append(ls, fmt.Sprintf("%s/%v/%v", n, h.must, h.write))
			}
		} else {
			ls = append(ls, "unreached")
		}
		sort.Strings(ls)
		m := "r"
		if a.write {
			m = "w"
		}
		if a.atomic {
			m += "a"
		}
		if a.content {
			m += "c"
		}
		if l.freshAt(a.base, a.in) {
			m += "f"
		}
		by[k] = append(by[k], fmt.Sprintf("%-3s %v %s %s %s", m, ls, fnName(a.fn), c.p.posOf(a.in), strings.Join(l.classes(a.fn), ",")))
	}
	var ks []string
	for k := range by {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintln(os.Stderr, k)
		for _, x := range by[k] {
			fmt.Fprintln(os.Stderr, "   ", x)
		}
	}
	for fn, cl := range l.roots {
		fmt.Fprintln(os.Stderr, "root", fnName(fn), cl)
	}
}
