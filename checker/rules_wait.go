package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C32", "inventory of every blocking operation of the library with flow-insensitive origins of the channels and contexts it waits on (a way out by the end of the connection, stream or caller, or a channel that cannot block), no waiting for goroutines from within a close; with the rules of C06, C08, C12, C15, C18, C19, C20, C22, C25 and C31 on who ends, answers and releases what is waited for", c32)
}

// waits classifies blocking operations.
type waits struct {
	c       *Check
	o       *origins
	parents map[*types.Var]map[*types.Var]bool // end of a context -> ends of the contexts it was derived from
	orphan  map[*types.Var]string              // why a context may have no parent that ends
}

// endings says which ends a channel may stand for: fields of cancel functions or closed channels; "user", "none".
type endings struct {
	by   map[*types.Var]bool
	user bool
	none string
}

func c32(c *Check) {
	w := &waits{c: c, o: c.p.origins(), parents: map[*types.Var]map[*types.Var]bool{}, orphan: map[*types.Var]string{}}
	fRes := c.field("", "writeFrameRequest", "result")
	fRec := c.field("", "Connection", "reconnect")
	fResp := c.field("", "response", "Frame") // each gets one thing at most: C08, C13
	if fRes == nil || fRec == nil || fResp == nil {
		return
	}
	lib := c.p.libFuncs()
	// contexts first: which is derived from which
	for _, fn := range lib {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && isWith(call) {
					for _, f := range w.cancelOf(call) {
						if w.parents[f] == nil {
							w.parents[f] = map[*types.Var]bool{}
						}
						p := w.ctx(call.Call.Args[0], nil)
						for g := range p.by {
							w.parents[f][g] = true
						}
						if p.none != "" {
							w.orphan[f] = p.none
						}
					}
				}
			}
		}
	}
	// life: the end of something whose parts end on their own
	life := func(f *types.Var) bool {
		for g, ps := range w.parents {
			if ps[f] && sameOwner(c.p, f, g) {
				return true
			}
		}
		return false
	}
	for _, fn := range lib {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c.funcs[fn] = true
				switch x := in.(type) {
				case *ssa.Select:
					if x.Blocking {
						w.sel(fn, x, fRes, fRec, life)
					}
				case *ssa.Send:
					w.send(fn, x, map[*types.Var]bool{fRes: true, fResp: true})
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						w.recv(fn, x, fRes)
					}
				}
			}
		}
	}
	// closing does not wait for the goroutines which may be the ones closing
	for _, name := range []string{fnCloseS, fnCloseUn, fnCloseC, fnCloseRW, fnUntrack, "qrpc.RequestFrame.Close", "server.qrpcOverWS.Close"} {
		fn := c.fn(name)
		if fn == nil {
			continue
		}
		c.ob("close", name)
		if at := w.waitsFor(fn, map[*ssa.Function]bool{}); at != nil {
			c.bad("close", name, at, nil, "closing waits for goroutines, of which the one closing may be one")
		}
	}
	c.floor("select")
	c.floor("receive")
	c.floor("send")
	c.floor("close")
	c.sub(nil, func(c *Check) {
		for _, f := range []func(*Check){c06, c08, c12, c15, c18, c19, c20, c22, c25, c31} {
			f(c)
		}
	})
}

func isWith(call *ssa.Call) bool {
	g := call.Common().StaticCallee()
	return g != nil && (fnName(g) == "context.WithCancel" || fnName(g) == "context.WithTimeout" || fnName(g) == "context.WithDeadline" || fnName(g) == "context.WithCancelCause")
}

// cancelOf: the fields the cancel function of a derived context is kept in.
func (w *waits) cancelOf(call *ssa.Call) []*types.Var {
	var r []*types.Var
	for f, vs := range w.o.fields {
		if _, ok := f.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		for _, v := range vs {
			for _, x := range w.o.of(v) {
				if e, ok := x.v.(*ssa.Extract); ok && e.Tuple == ssa.Value(call) && e.Index == 1 {
					r = append(r, f)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

func sameOwner(p *Program, f, g *types.Var) bool {
	return f != g && ownerName(p, f) != "" && ownerName(p, f) == ownerName(p, g)
}

// ctx: by what the context ends.
func (w *waits) ctx(v ssa.Value, seen map[ssa.Value]bool) endings {
	r := endings{by: map[*types.Var]bool{}}
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return r
	}
	seen[v] = true
	for _, x := range w.o.of(v) {
		if x.param {
			r.user = true
			continue
		}
		call, _ := x.v.(*ssa.Call)
		if e, ok := x.v.(*ssa.Extract); ok {
			call, _ = e.Tuple.(*ssa.Call)
		}
		if call == nil {
			if c, ok := x.v.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			r.none = "a context of unknown origin"
			continue
		}
		g := call.Common().StaticCallee()
		switch {
		case isWith(call):
			fs := w.cancelOf(call)
			n := 0
			for _, f := range fs {
				if len(w.o.called[f]) > 0 {
					r.by[f] = true
					n++
				}
			}
			if n == 0 {
				r.none = "a context nothing ends when the connection does"
			}
		case g != nil && fnName(g) == "context.WithValue":
			r.add(w.ctx(call.Call.Args[0], seen))
		case g != nil && (fnName(g) == "context.Background" || fnName(g) == "context.TODO"):
			r.none = "a context which never ends"
		default:
			r.none = "a context of unknown origin"
		}
	}
	return r
}

func (e *endings) add(x endings) {
	for f := range x.by {
		e.by[f] = true
	}
	e.user = e.user || x.user
	if x.none != "" {
		e.none = x.none
	}
}

// ch: which ends the channel announces; none when it announces none.
func (w *waits) ch(v ssa.Value) endings {
	r := endings{by: map[*types.Var]bool{}}
	for _, x := range w.o.of(v) {
		switch y := x.v.(type) {
		case *ssa.Call:
			if y.Common().IsInvoke() && y.Common().Method.Name() == "Done" && shortType(y.Common().Value.Type()) == "context.Context" {
				r.add(w.ctx(y.Common().Value, nil))
				continue
			}
			r.none = "a channel which need not end"
		case *ssa.MakeChan:
			if x.via == nil {
				if w.closedLocal(y) {
					r.by[nil] = true
				} else {
					r.none = "a channel nobody closes"
				}
				continue
			}
			if len(w.o.closed[x.via]) > 0 && !w.o.sent[x.via] && !w.paused(x.via) {
				r.by[x.via] = true
			} else {
				r.none = "a channel the end does not close"
			}
		case *ssa.Const:
		default:
			if x.param {
				r.user = true
				continue
			}
			r.none = "a channel of unknown origin"
		}
	}
	return r
}

// paused: the channel is closed by something else than the end of a connection or of the server.
func (w *waits) paused(f *types.Var) bool {
	for _, fn := range w.o.closed[f] {
		if w.fromEnd(fn) {
			return false
		}
	}
	return true
}

// closedLocal: a channel made here which a goroutine started here closes.
func (w *waits) closedLocal(mk *ssa.MakeChan) bool {
	for _, fn := range w.c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					for _, x := range w.o.of(call.Common().Args[0]) {
						if x.v == ssa.Value(mk) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// endRoots end a connection, or the server, without waiting for its goroutines.
var endRoots = []string{fnCloseS, fnCloseUn, fnUntrack, fnShutdown, fnCloseC, fnCloseRW, "server.qrpcOverWS.Close"}

func (w *waits) fromEnd(fn *ssa.Function) bool {
	for _, root := range endRoots {
		if g := w.c.p.byName[root]; g != nil && reachesOrIs(w.c.p, g, fnName(fn)) {
			return true
		}
	}
	return false
}

func isCancel(f *types.Var) bool {
	_, ok := f.Type().Underlying().(*types.Signature)
	return ok
}

// ends: the context is ended by closing the connection, or derived from one that is.
func (w *waits) ends(f *types.Var, seen map[*types.Var]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, fn := range w.o.called[f] {
		if w.fromEnd(fn) {
			return true
		}
	}
	for g := range w.parents[f] {
		if !w.ends(g, seen) {
			return false
		}
	}
	return len(w.parents[f]) > 0 && w.orphan[f] == ""
}

// settled: the channel is closed when its stream or request ends.
func (w *waits) settled(fn *ssa.Function, v ssa.Value) bool {
	f := chanField(v)
	if f == nil {
		for _, x := range w.o.of(v) {
			if x.via == nil {
				return false
			}
			f = x.via
		}
	}
	if f == nil {
		return false
	}
	for _, g := range w.o.closed[f] {
		if w.fromEnd(g) {
			return true
		}
		// streams are ended when the goroutines reading and writing have ended
		if rel := w.c.p.byName[fnRelease]; rel != nil && reaches(w.c.p, rel, fnName(g)) {
			for _, root := range []string{fnReadS, fnReadC, fnWriteC, fnServe} {
				if r := w.c.p.byName[root]; r != nil && reachesOrIs(w.c.p, r, fnName(fn)) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// answered: a result is there already, or this function has itself seen to the requests (C08: each gets its result).
func (w *waits) answered(fn *ssa.Function, x ssa.Instruction, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && chanField(call.Call.Args[0]) == f {
				if positive(call, x.Block()) {
					return true
				}
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !w.sends(g, f, map[*ssa.Function]bool{}) {
				continue
			}
			if b != x.Block() && b.Dominates(x.Block()) {
				return true
			}
			for _, in2 := range b.Instrs[i:] {
				if in2 == x {
					return true
				}
			}
		}
	}
	return false
}

// positive: the block is only reached when the number is not zero.
func positive(n ssa.Value, b *ssa.BasicBlock) bool {
	for _, r := range *n.Referrers() {
		cmp, ok := r.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, r := range *cmp.Referrers() {
			br, ok := r.(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range br.Block().Succs {
				if len(s.Preds) == 1 && s.Dominates(b) && cmpAt(cmp, n, 0) != (i == 0) && cmpAt(cmp, n, 1) == (i == 0) {
					return true
				}
			}
		}
	}
	return false
}

// cmpAt: the outcome of the comparison when n is k.
func cmpAt(cmp *ssa.BinOp, n ssa.Value, k int64) bool {
	v := func(x ssa.Value) (constant.Value, bool) {
		if x == n {
			return constant.MakeInt64(k), true
		}
		if c, ok := x.(*ssa.Const); ok && c.Value != nil {
			return c.Value, true
		}
		return nil, false
	}
	a, ok1 := v(cmp.X)
	b, ok2 := v(cmp.Y)
	switch cmp.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return ok1 && ok2 && constant.Compare(a, cmp.Op, b)
	}
	return false
}

// sends: the function may put something into a channel kept in the field.
func (w *waits) sends(fn *ssa.Function, f *types.Var, seen map[*ssa.Function]bool) bool {
	if seen[fn] || !w.c.p.inModule(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if chanField(x.Chan) == f {
					return true
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && w.sends(g, f, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (w *waits) sel(fn *ssa.Function, x *ssa.Select, fRes, fRec *types.Var, life func(*types.Var) bool) {
	c := w.c
	name := fnName(fn)
	c.at("select", x)
	why := "it has no way out"
	for _, st := range x.States {
		if st.Dir != types.RecvOnly {
			continue
		}
		e := w.ch(st.Chan)
		for g := range e.by {
			if g != nil && isCancel(g) && !w.ends(g, map[*types.Var]bool{}) {
				e.none = "a context that does not end with the connection"
			}
		}
		switch {
		case e.none != "":
			if !strings.Contains(e.none, "need not") && !strings.Contains(e.none, "unknown origin") {
				why = "it ends with " + e.none
			}
			continue
		case len(e.by) == 0 && !e.user:
			continue
		case len(e.by) == 0:
			// the caller's own context: what is waited for has to come to an end as well
			for _, o := range x.States {
				if o != st && o.Dir == types.RecvOnly && w.settled(fn, o.Chan) {
					return
				}
			}
			why = "only the caller's context ends it"
			continue
		}
		lives := true
		for f := range e.by {
			lives = lives && f != nil && life(f)
		}
		if lives {
			// ends with the whole connection only: the result of a write committed to a connection which reconnects
			ok := false
			for _, o := range x.States {
				if f := chanField(o.Chan); o != st && o.Dir == types.RecvOnly && f == fRes {
					ok = true
				}
			}
			if !ok {
				why = "it only ends with the whole connection, not with the network connection it is for"
				continue
			}
		}
		return
	}
	c.bad("select", name+" "+w.what(x.States), x, nil, "a wait may last for ever after its connection has ended: %s", why)
}

func (w *waits) what(sts []*ssa.SelectState) string {
	var r []string
	for _, st := range sts {
		if f := chanField(st.Chan); f != nil {
			r = append(r, f.Name())
		} else {
			r = append(r, "?")
		}
	}
	return strings.Join(r, ",")
}

func (w *waits) send(fn *ssa.Function, x *ssa.Send, one map[*types.Var]bool) {
	w.c.at("send", x)
	if f := chanField(x.Chan); f != nil && !one[f] {
		w.c.bad("send", fnName(fn)+" "+f.Name(), x, nil, "a send may wait for ever: the channel may be full and nobody need receive")
		return
	}
	for _, o := range w.o.of(x.Chan) {
		if k, ok := o.v.(*ssa.Const); ok && k.IsNil() {
			continue // never sent to: C08
		}
		mk, ok := o.v.(*ssa.MakeChan)
		if ok {
			if n, isC := mk.Size.(*ssa.Const); isC && n.Value != nil {
				if v, ok := constant.Int64Val(n.Value); ok && v >= 1 {
					continue
				}
			}
		}
		name := "?"
		if f := chanField(x.Chan); f != nil {
			name = f.Name()
		}
		w.c.bad("send", fnName(fn)+" "+name, x, nil, "a send may wait for ever: nobody need receive and the channel has no room of its own")
		return
	}
}

func (w *waits) recv(fn *ssa.Function, x *ssa.UnOp, fRes *types.Var) {
	w.c.at("receive", x)
	e := w.ch(x.X)
	if e.none == "" && (len(e.by) > 0 || e.user) {
		return
	}
	f := chanField(x.X)
	switch {
	case f == fRes && w.answered(fn, x, f):
		return
	case f != fRes && w.settled(fn, x.X):
		return
	case f != nil && w.sentBy(fn, f):
		return // the turn this function took itself: C34
	}
	name := "?"
	if f != nil {
		name = f.Name()
	}
	w.c.bad("receive", fnName(fn)+" "+name, x, nil, "a receive may wait for ever after its connection has ended")
}

// sentBy: the function, one it is nested in, or one of those calling it puts something into the channel.
func (w *waits) sentBy(fn *ssa.Function, f *types.Var) bool {
	in := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if chanField(x.Chan) == f {
						return true
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly && chanField(st.Chan) == f {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for g := fn; g != nil; g = g.Parent() {
		if in(g) {
			return true
		}
		for _, h := range w.c.p.callersOf()[g] {
			for ; h != nil; h = h.Parent() {
				if in(h) {
					return true
				}
			}
		}
	}
	return false
}

// waitsFor: a place below the function which waits for goroutines.
func (w *waits) waitsFor(fn *ssa.Function, seen map[*ssa.Function]bool) ssa.Instruction {
	if fn == nil || seen[fn] || !w.c.p.inModule(fn) {
		return nil
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if _, isGo := in.(*ssa.Go); !ok || isGo {
				continue
			}
			g := call.Common().StaticCallee()
			if g == nil {
				if mc, ok := call.Common().Value.(*ssa.MakeClosure); ok {
					g = mc.Fn.(*ssa.Function)
				}
			}
			if g == nil {
				continue
			}
			if n := fnName(g); n == "sync.WaitGroup.Wait" || n == "sync.Cond.Wait" {
				return in
			}
			if at := w.waitsFor(origFn(w.c.p, g), seen); at != nil {
				return at
			}
		}
	}
	return nil
}
