package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C18", "path typestate of the end of a server connection: the winner of the untrack flag removes it and opens the gate, the winner of the closed flag (one critical section) cancels, fails pending responses and runs every registered notification once (one arbitrary notification tracked); serve closes, waits and reports once on every exit including panics; rejected connections", c18)
	reg("C19", "path typestate of binding and unbinding: ids are bound only by load-or-store, another holder is untracked as kicked, waited for and closed before the next attempt, only an entry known to be the own one is deleted, and after binding the connection is examined for having ended", c19)
	reg("C20", "path typestate of shutdown and of the serving loop: one arbitrary listener and one arbitrary shutdown function tracked, flag and registrations in one critical section, waiting last; goroutines counted before they start", c20)
}

const (
	fnUntrack   = "qrpc.Server.untrack"
	fnCloseUn   = "qrpc.serveconn.closeUntracked"
	fnBind      = "qrpc.Server.bindID"
	fnShutdown  = "qrpc.Server.Shutdown"
	fnSrvServe  = "qrpc.Server.Serve"
	fnNewConn   = "qrpc.Server.newConn"
	fnIsClosedS = "qrpc.serveconn.IsClosed"
)

func isWG(e *Event, op string, f *types.Var) bool {
	return e.Kind == EvCall && e.Name == "sync.WaitGroup."+op && lastField(e.Args[0]) == f
}

// spawnCounted: the goroutine started is counted in the wait group of that field.
func (c *Check) spawnCounted(m *M, e *Event, f *types.Var) bool {
	if lastField2(e.Addr) == f {
		return true
	}
	if e.Addr == nil && m.n["wgadd"] > 0 && e.Fn != nil {
		m.n["wgadd"]--
		return defersDone(e.Fn)
	}
	return false
}

// defersDone: the goroutine signs off with a wait group at its end.
func defersDone(f *ssa.Function) bool {
	if f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.Defer); ok {
					if g := d.Call.StaticCallee(); g != nil && fnName(g) == "sync.WaitGroup.Done" {
						return true
					}
				}
			}
		}
	}
	return false
}

func lastField2(v *V) *types.Var {
	if v == nil {
		return nil
	}
	return lastField(v)
}

// registerOrRun: a callback is either stored (before the end) or run at once (after it).
func (c *Check) registerOrRun(rule, name string, fList, fFlag *types.Var) {
	fn := c.fn(name)
	if fn == nil || fList == nil || fFlag == nil {
		return
	}
	f := vSym("#"+fn.Params[1].Name(), fn.Params[1].Type())
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	c.explore(Config{NoKill: true}, fn, []*V{recv, f}, nil, newM("reg", func(m *M, s *State, e *Event) {
		m.t["#"] = f
		ended := func() int {
			if m.t["flag"] == nil {
				return -1
			}
			return s.facts.eval(m.t["flag"])
		}
		switch {
		case e.Kind == EvLoad && e.Field == fFlag:
			m.t["flag"] = e.Val
			m.n["sec"] = b2i(len(s.locks) > 0)
		case e.Kind == EvUnlock:
			m.n["sec"] = 0
		case e.Kind == EvAppend && lastField(e.Args[0]) == fList:
			ok := false
			for _, x := range s.membersOf(e.Res) {
				ok = ok || stripConv(x) == f
			}
			if ok {
				m.t["list"] = e.Res
			}
		case e.Kind == EvStore && e.Field == fList:
			c.at(rule, e.In)
			if e.Val == m.t["list"] && e.Val != nil {
				m.n["stored"]++
			} else {
				c.bad(rule, name+" list", e.In, s, "the registered functions are replaced by %s", e.Val)
			}
			if m.n["sec"] == 0 || ended() != 0 {
				c.bad(rule, name+" section", e.In, s, "a function is registered where the end may have been processed already: it would never run")
			}
		case e.Kind == EvUser && stripConv(e.Val) == f:
			c.at(rule, e.In)
			m.n["run"]++
			if ended() != 1 {
				c.bad(rule, name+" early", e.In, s, "a function is run at registration although the end is not known to have come")
			}
			if len(s.locks) > 0 {
				c.bad(rule, name+" locked", e.In, s, "a registered function is run under a lock")
			}
		case e.Kind == EvReturn:
			if m.n["run"]+m.n["stored"] != 1 {
				c.bad(rule, name+" once", e.In, s, "a function registered is run %d times at once and stored %d times", m.n["run"], m.n["stored"])
			}
		}
	}))
	c.floor(rule)
}

// onlyIn: reports uses of a construct outside the functions analysed.
func (c *Check) elsewhere(rule, what string, f func(in ssa.Instruction) bool) {
	for _, fn := range c.p.Funcs {
		if c.funcs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if f(in) {
					c.bad(rule, fnName(fn)+" elsewhere", in, nil, "%s", what)
				}
			}
		}
	}
}

// closes: the instruction closes the channel in that field.
func closesField(in ssa.Instruction, f *types.Var) bool {
	call, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	bi, ok := call.Common().Value.(*ssa.Builtin)
	return ok && bi.Name() == "close" && loadsField(call.Common().Args[0], f)
}

func loadsField(v ssa.Value, f *types.Var) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st := structOfPtr(fa.X.Type())
	return st != nil && st.Field(fa.Field) == f
}

func c18(c *Check) {
	c18once(c)
	c18untrack(c)
	c18close(c)
	c18serve(c)
	c18new(c)
	c18accept(c)
	c.registerOrRun("notify", "qrpc.ConnectionInfo.NotifyWhenClose", c.field("", "ConnectionInfo", "closeNotify"), c.field("", "ConnectionInfo", "closed"))
	if f := c.field("", "response", "Frame"); f != nil {
		c.sub(func(rule, k string) bool { return strings.Contains(k, "serveconn") || k == "coverage" }, func(c *Check) { c12end(c, f) })
	}
}

// c18once: what the end of a connection does.
func c18once(c *Check) {
	fn := c.fn(fnCloseUn)
	fNotify, fClosed := c.field("", "ConnectionInfo", "closeNotify"), c.field("", "ConnectionInfo", "closed")
	fConn, fCancel := c.field("", "serveconn", "rwc"), c.field("", "serveconn", "cancelCtx")
	if fn == nil || fNotify == nil || fClosed == nil || fConn == nil || fCancel == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	note := vSym("#note", fNotify.Type().Underlying().(*types.Slice).Elem())
	c.explore(Config{NoKill: true}, fn, []*V{recv}, nil, newM("once", func(m *M, s *State, e *Event) {
		m.t["#"] = note
		over := func() int {
			if m.t["was"] == nil {
				return -1
			}
			return s.facts.eval(m.t["was"])
		}
		switch {
		case e.Kind == EvLoad && e.Field == fNotify && m.n["seeded"] == 0 && m.n["reset"] == 0:
			m.n["seeded"] = 1
			s.memb = append(s.memb, memb{e.Val, note})
			if len(s.locks) == 0 {
				c.bad("end-once", "list lock", e.In, s, "the registered notifications are taken without the lock")
			}
		case e.Kind == EvLoad && e.Field == fClosed && len(s.locks) > 0:
			if m.n["ended"] == 0 {
				m.t["was"], m.n["sec"] = e.Val, 1
			}
		case e.Kind == EvUnlock:
			m.n["sec"] = 0
		case e.Kind == EvStore && e.Field == fClosed:
			c.at("end-once", e.In)
			m.n["ended"]++
			if !e.Val.isTrue() {
				c.bad("end-once", "revived", e.In, s, "the connection is marked not closed")
			}
			if m.n["sec"] == 0 || over() != 0 {
				c.bad("end-once", "section", e.In, s, "the end is marked outside the critical section that found it not marked: it could be processed twice")
			}
			m.n["marksec"] = 1
		case e.Kind == EvStore && e.Field == fNotify:
			m.n["reset"] = 1
			if len(s.locks) == 0 {
				c.bad("end-once", "reset lock", e.In, s, "the registered notifications are taken away without the lock")
			}
		case e.Kind == EvUser && lastField(e.Val) == fCancel, e.Kind == EvCall && e.Name == "cancel":
			m.n["cancel"]++
		case e.Kind == EvCall && e.Name == "net.Conn.Close":
			if lastField(e.Args[0]) == fConn {
				m.n["sock"]++
			}
		case e.Kind == EvUser && e.Val == note:
			m.n["ran"]++
			c.at("notify", e.In)
			if len(s.locks) > 0 {
				c.bad("notify", "locked", e.In, s, "a notification runs under a lock")
			}
			if m.n["ended"] == 0 {
				c.bad("notify", "before", e.In, s, "a notification runs before the end is marked")
			}
		case e.Kind == EvReturn:
			c.ob("end-once", fnCloseUn)
			if m.n["sock"] == 0 {
				c.bad("end-once", "socket", e.In, s, "the connection ends and its socket is not closed")
			}
			if over() == 1 {
				if m.n["ran"] > 0 {
					c.bad("notify", "again", e.In, s, "notifications run although the end was processed before")
				}
				return
			}
			if m.n["ended"] != 1 {
				c.bad("end-once", "mark", e.In, s, "the end of the connection is marked %d times", m.n["ended"])
			}
			if m.n["cancel"] == 0 {
				c.bad("end-once", "context", e.In, s, "the connection ends and its context is not cancelled")
			}
			if m.n["ran"] != 1 || m.n["seeded"] == 0 {
				c.bad("notify", "count", e.In, s, "a registered notification runs %d times at the end of the connection", m.n["ran"])
			}
			if m.n["reset"] == 0 {
				c.bad("notify", "kept", e.In, s, "notifications that ran stay registered")
			}
		}
	}))
	c.floor("end-once")
	c.floor("notify")
	c.eachStoreOf(fClosed, func(s *State, e *Event) {
		if e.In.Parent() != fn && !c.funcs[e.In.Parent()] && !isAllocRoot(e.Addr) {
			c.bad("end-once", fnName(e.In.Parent())+" elsewhere", e.In, s, "the mark of the end is written outside the processing of the end")
		}
	})
	for _, f := range []*types.Var{fConn, fCancel} {
		f := f
		c.eachStoreOf(f, func(s *State, e *Event) {
			if !isAllocRoot(e.Addr) {
				c.bad("end-once", fnName(e.In.Parent())+" "+f.Name(), e.In, s, "the %s of a connection is replaced", f.Name())
			}
		})
	}
}

// c18untrack: leaving the active connections.
func c18untrack(c *Check) {
	fn := c.fn(fnUntrack)
	fFlag, fCh := c.field("", "serveconn", "untrack"), c.field("", "serveconn", "untrackedCh")
	fActive, fKick := c.field("", "Server", "activeConn"), c.p.field("", "ServerBinding", "OnKickCB")
	fIdx := c.field("", "serveconn", "idx")
	if fn == nil || fFlag == nil || fCh == nil || fActive == nil || fIdx == nil || fKick == nil {
		return
	}
	sc := vSym(fn.Params[1].Name(), fn.Params[1].Type())
	kicked := vSym(fn.Params[2].Name(), fn.Params[2].Type())
	c.explore(Config{NoKill: true}, fn, nil, nil, newM("untrack", func(m *M, s *State, e *Event) {
		won := func(k string) {
			if m.n["won"] != 1 {
				c.bad("untrack", k, e.In, s, "the connection is removed by somebody who did not win the right to")
			}
		}
		switch {
		case e.Kind == EvAtomic && lastField(e.Addr) == fFlag:
			switch {
			case e.Op == "cas" && e.Res.isTrue():
				if n, ok := e.Args[1].intC(); !ok || n == 0 {
					c.bad("untrack", "flag", e.In, s, "the flag is set to %s", e.Args[1])
				}
				if n, ok := e.Args[0].intC(); !ok || n != 0 {
					c.bad("untrack", "flag", e.In, s, "the flag is taken from %s", e.Args[0])
				}
				m.n["won"]++
			case e.Op == "store":
				c.bad("untrack", "flag", e.In, s, "the flag is set without looking at it: two could win")
			}
		case e.Kind == EvMapDelete && lastField(e.Addr) == fActive:
			c.at("untrack", e.In)
			won("remove")
			if strip(e.Args[0]) != sc || !c.ofIdx(s, e.Addr, sc, fIdx) {
				c.bad("untrack", "remove which", e.In, s, "%s is removed from %s", e.Args[0], e.Addr)
			} else {
				m.n["removed"]++
			}
		case e.Kind == EvUser && lastField(e.Val) == fKick:
			won("kick")
			m.n["kick"]++
			if s.facts.eval(kicked) != 1 {
				c.bad("kick-callback", "not kicked", e.In, s, "the kick callback runs for a connection that was not kicked")
			}
			if m.n["opened"] > 0 {
				c.bad("kick-callback", "late", e.In, s, "others go on before the kick callback ran")
			}
			c.at("kick-callback", e.In)
		case e.Kind == EvClose && lastField(e.Ch) == fCh:
			won("open")
			m.n["opened"]++
			if m.n["removed"] == 0 {
				c.bad("untrack", "open before", e.In, s, "waiters go on before the connection is removed")
			}
		case e.Kind == EvReturn:
			c.ob("untrack", "result")
			ok, ch := e.Args[0], e.Args[1]
			if lastField(ch) != fCh {
				c.bad("untrack", "channel", e.In, s, "the channel to wait on is %s", ch)
			}
			if s.facts.eval(ok) != m.n["won"] {
				c.bad("untrack", "result", e.In, s, "the result is %s, the flag was won %d times", ok, m.n["won"])
			}
			if m.n["won"] == 0 {
				return
			}
			if m.n["removed"] != 1 {
				c.bad("untrack", "kept", e.In, s, "the connection stays among the active ones")
			}
			if m.n["opened"] != 1 {
				c.bad("untrack", "gate", e.In, s, "the gate for the others waiting is opened %d times", m.n["opened"])
			}
			cb := s.facts.eval(kicked) != 0
			if cb && m.n["kick"] != 1 && !c.knownNilField(s, fKick) {
				c.bad("kick-callback", "count", e.In, s, "the kick callback of a kicked connection runs %d times", m.n["kick"])
			}
		}
	}))
	c.floor("untrack")
	c.floor("kick-callback")
	c.elsewhere("untrack", "the gate of a connection is opened outside its removal", func(in ssa.Instruction) bool { return closesField(in, fCh) })
}

// knownNilField: a value read from that field is known to be nil.
func (c *Check) knownNilField(s *State, f *types.Var) bool {
	for t, b := range s.facts.b {
		if b && t.k == KNil && lastField(t.args[0]) == f {
			return true
		}
		if b && t.k == KEq && (lastField(t.args[0]) == f && t.args[1].isNilC() || lastField(t.args[1]) == f && t.args[0].isNilC()) {
			return true
		}
	}
	return false
}

// ofIdx: the address is the element of the connection's listener.
func (c *Check) ofIdx(s *State, addr, sc *V, fIdx *types.Var) bool {
	want := s.load(vField(sc, fIdx), fIdx.Type())
	for v := addr; v != nil; {
		switch v.k {
		case KIdx:
			return stripConv(v.args[1]) == want
		case KField, KLoad:
			v = v.args[0]
		default:
			return false
		}
	}
	return false
}

// c18close: the public close.
func c18close(c *Check) {
	fn := c.fn(fnCloseS)
	if fn == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnUntrack, fnCloseUn)}, fn, []*V{recv}, nil, newM("close", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvCall && e.Name == fnUntrack:
			c.at("close", e.In)
			m.n["untrack"]++
			if strip(e.Args[1]) != recv || !e.Args[2].isFalse() {
				c.bad("close", "who", e.In, s, "closing removes %s (kicked: %s)", e.Args[1], e.Args[2])
			}
			m.t["ok"], m.t["ch"] = e.Res.args[0], e.Res.args[1]
		case e.Kind == EvRecv && m.t["ch"] != nil && e.Ch == m.t["ch"]:
			m.n["waited"] = 1
		case e.Kind == EvCall && e.Name == fnCloseUn:
			m.n["closed"]++
			if strip(e.Args[0]) != recv {
				c.bad("close", "other", e.In, s, "another connection is closed")
			}
			if m.n["untrack"] == 0 || m.n["waited"] == 0 && s.facts.eval(m.t["ok"]) != 1 {
				c.bad("close", "order", e.In, s, "the connection is closed before it is known to be removed from the active ones")
			}
		case e.Kind == EvReturn:
			c.ob("close", "end")
			if m.n["closed"] == 0 {
				c.bad("close", "end", e.In, s, "closing returns without the connection being closed")
			}
		}
	}))
	c.floor("close")
}

// c18serve: the serving goroutine.
func c18serve(c *Check) {
	fn := c.fn(fnServe)
	fWG, fCh := c.field("", "serveconn", "wg"), c.field("", "serveconn", "readFrameCh")
	fOnClose := c.field("", "ServerLifecycleCallbacks", "OnClose")
	if fn == nil || fWG == nil || fCh == nil || fOnClose == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	fConn := c.field("", "serveconn", "rwc")
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnCloseS, fnReadS, "qrpc.serveconn.handleRequestPanic", "qrpc.newFrameReaderWithMFS", "qrpc.serveconn.instrument"),
		UserPanics: func(e *Event) bool { return e.Name == evServe }}, fn, []*V{recv}, nil, newM("serve", func(m *M, s *State, e *Event) {
		if isWG(e, "Add", fWG) {
			m.n["wgadd"]++
		}
		switch {
		case mainSelect(e, fCh):
			ok := false
			for _, k := range e.Cases {
				if !k.Send && isDoneOf(s, k.Ch, "ctx") {
					ok = true
				}
			}
			c.at("serve-end", e.In)
			if !ok {
				c.bad("serve-end", "deaf", e.In, s, "the serving loop does not notice the end of its connection's context")
			}
		case e.Kind == EvRecv && isDoneOf(s, e.Ch, "ctx"):
			m.n["over"] = 1
		case e.Kind == EvGo:
			c.at("serve-goroutines", e.In)
			if !c.spawnCounted(m, e, fWG) {
				c.bad("serve-goroutines", "uncounted", e.In, s, "a goroutine of the connection is not waited for before its end is reported")
			}
			if m.n["waited"] > 0 {
				c.bad("serve-goroutines", "late", e.In, s, "a goroutine is started after the wait for all")
			}
		case e.Kind == EvCall && e.Name == fnCloseS:
			m.n["closed"] = b2i(strip(e.Args[0]) == recv)
		case isWG(e, "Wait", fWG):
			m.n["waited"]++
			if m.n["closed"] == 0 {
				c.bad("serve-end", "wait", e.In, s, "the goroutines of the connection are waited for before it is closed: they may never end")
			}
		case e.Kind == EvUser && lastField(e.Val) == fOnClose:
			m.n["told"]++
			c.at("serve-end", e.In)
			if m.n["waited"] == 0 {
				c.bad("serve-end", "told early", e.In, s, "the close callback runs before the goroutines of the connection have ended")
			}
			if lastField(e.Args[0]) != fConn || !through(e.Args[0], recv) {
				c.bad("serve-end", "told what", e.In, s, "the close callback gets %s", e.Args[0])
			}
		case e.Kind == EvPanicExit:
			c.bad("serve-end", "panic", e.In, s, "a panic leaves the serving goroutine: the process ends")
		case e.Kind == EvReturn:
			c.ob("serve-end", "return")
			switch {
			case m.n["closed"] == 0:
				c.bad("serve-end", "open", e.In, s, "serving ends and the connection is not closed")
			case m.n["waited"] == 0:
				c.bad("serve-end", "unwaited", e.In, s, "serving ends without waiting for the goroutines of the connection")
			case m.n["told"] != 1 && !c.knownNilField(s, fOnClose):
				c.bad("serve-end", "told", e.In, s, "the close callback runs %d times", m.n["told"])
			}
		}
	}))
	c.floor("serve-end")
	c.floor("serve-goroutines")
	// the reading goroutine ends the connection
	if rf := c.fn(fnReadS); rf != nil {
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnCloseS, fnReadFr, fnThrottle, "qrpc.Reader.Finalize")}, rf, nil, nil, newM("reader", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && e.Name == fnCloseS:
				m.n["closed"] = 1
			case e.Kind == EvReturn:
				c.ob("reader-end", fnReadS)
				if m.n["closed"] == 0 && !s.connDone("ctx") {
					c.bad("reader-end", fnReadS, e.In, s, "reading ends and the connection is neither closed nor known to have ended")
				}
			}
		}))
		c.floor("reader-end")
	}
	// and so does a failed write
	if wf := c.fn(fnBatchS); wf != nil {
		fUn := c.field("", "serveconn", "untrack")
		c.explore(Config{NoKill: true, Opaque: opaqueSet(fnNetBatch, fnCloseS)}, wf, nil, nil, newM("writer", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvCall && e.Name == fnNetBatch:
				m.t["err"] = e.Res.args[1]
			case e.Kind == EvCall && e.Name == fnCloseS:
				m.n["closed"] = 1
			case e.Kind == EvAtomic && lastField(e.Addr) == fUn && e.Op == "load":
				m.t["un"] = e.Res
			case e.Kind == EvReturn:
				c.ob("writer-end", fnBatchS)
				if v := m.t["err"]; v == nil || s.facts.nilEval(v) != 0 || m.n["closed"] > 0 {
					return
				}
				if u := m.t["un"]; u == nil || s.facts.eval(vEq(u, vInt(0))) != 0 {
					c.bad("writer-end", fnBatchS, e.In, s, "writing failed and the connection is neither closed nor known to be closing")
				}
			}
		}))
		c.floor("writer-end")
	}
}

// isDoneOf: the channel is the done channel of a context of the connection.
func isDoneOf(s *State, ch *V, field string) bool {
	ch = strip(ch)
	return ch != nil && ch.k == KPure && ch.aux == "done" && ctxOfConn(s, ch.args[0], field)
}

// c18new: a new connection is among the active ones and its context is the one its end cancels.
func c18new(c *Check) {
	fn := c.fn(fnNewConn)
	fActive, fIdx := c.field("", "Server", "activeConn"), c.field("", "serveconn", "idx")
	fCtx, fCancel, fConn := c.field("", "serveconn", "ctx"), c.field("", "serveconn", "cancelCtx"), c.field("", "serveconn", "rwc")
	fCI := c.p.field("", "ConnectionInfo", "serveconn")
	if fn == nil || fActive == nil || fIdx == nil || fCtx == nil || fCancel == nil || fConn == nil {
		return
	}
	ctx := vSym(fn.Params[1].Name(), fn.Params[1].Type())
	rwc := vSym(fn.Params[2].Name(), fn.Params[2].Type())
	_ = fCI
	c.explore(Config{NoKill: true}, fn, nil, nil, newM("new", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvMapUpdate && lastField(e.Addr) == fActive:
			m.t["active"], m.t["map"] = strip(e.Args[0]), e.Addr
		case e.Kind == EvReturn:
			c.at("new-connection", e.In)
			sc := strip(e.Args[0])
			if m.t["active"] != sc || !c.ofIdx(s, m.t["map"], sc, fIdx) {
				c.bad("new-connection", "active", e.In, s, "a new connection is not among the active ones of its listener")
			}
			if strip(s.load(vField(sc, fConn), fConn.Type())) != rwc {
				c.bad("new-connection", "socket", e.In, s, "the new connection has another socket than the one accepted")
			}
			x := strip(s.load(vField(sc, fCtx), fCtx.Type()))
			child := (*V)(nil)
			for x != nil && x.k == KPure && (x.aux == "ctx.value" || x.aux == "ctx.child") {
				if x.aux == "ctx.child" && child == nil {
					child = x
				}
				x = strip(x.args[0])
			}
			if x != ctx {
				c.bad("new-connection", "context", e.In, s, "the context of a new connection does not end with the one of its listener")
			}
			cc := s.load(vField(sc, fCancel), fCancel.Type())
			if child == nil || cc.k != KPure || cc.aux != "cancel" || cc.args[0] != child {
				c.bad("new-connection", "cancel", e.In, s, "the end of a connection cancels %s, not its context", cc)
			}
		}
	}))
	c.floor("new-connection")
}

// c18accept: every accepted connection is served or, when rejected, closed and reported.
func c18accept(c *Check) {
	fn := c.fn(fnSrvServe)
	fAccept, fOnClose := c.field("", "ServerLifecycleCallbacks", "OnAccept"), c.field("", "ServerLifecycleCallbacks", "OnClose")
	fWG := c.field("", "Server", "wg")
	if fn == nil || fAccept == nil || fOnClose == nil || fWG == nil {
		return
	}
	idx := vSym(fn.Params[2].Name(), fn.Params[2].Type())
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnNewConn, fnServe, fnThrottle, "qrpc.Server.trackListener"), FollowGo: func(*Event) bool { return true }}, fn, nil, nil, newM("accept", func(m *M, s *State, e *Event) {
		if isWG(e, "Add", fWG) {
			m.n["wgadd"]++
		}
		end := func() {
			if m.t["rw"] == nil || m.t["aerr"] != nil && s.facts.nilEval(m.t["aerr"]) == 0 || m.n["thread"] == 1 {
				return
			}
			rejected := m.t["rej"] != nil && s.facts.nilEval(m.t["rej"]) == 0
			c.ob("accepted", fnSrvServe)
			switch {
			case rejected && m.n["go"] > 0:
				c.bad("accepted", "rejected served", e.In, s, "a rejected connection is served")
			case rejected && m.n["closed"] == 0:
				c.bad("accepted", "rejected open", e.In, s, "a rejected connection is not closed")
			case rejected && m.n["told"] != 1 && !c.knownNilField(s, fOnClose):
				c.bad("accepted", "rejected told", e.In, s, "the close of a rejected connection is reported %d times", m.n["told"])
			case !rejected && m.n["go"] != 1 && m.n["closed"] == 0:
				c.bad("accepted", "lost", e.In, s, "an accepted connection is served %d times and not closed", m.n["go"])
			case !rejected && m.t["rej"] == nil && !c.knownNilField(s, fAccept):
				c.bad("accepted", "unasked", e.In, s, "a connection is served without asking the accept callback")
			case !rejected && m.t["rej"] != nil && s.facts.nilEval(m.t["rej"]) != 1:
				c.bad("accepted", "ignored", e.In, s, "a connection is served although the accept callback may have rejected it")
			case !rejected && m.n["told"] > 0:
				c.bad("accepted", "told", e.In, s, "the close of a connection is reported when it is accepted")
			}
		}
		switch {
		case e.Kind == EvSpawned:
			m.n["thread"] = 1
		case e.Kind == EvCall && e.Name == fnNewConn:
			m.t["sc"] = e.Res
			if strip(e.Args[2]) != m.t["rw"] || strip(e.Args[3]) != idx {
				c.bad("accepted", "socket", e.In, s, "a connection is made of %s for listener %s", e.Args[2], e.Args[3])
			}
		case e.Kind == EvCall && e.Name == fnServe:
			m.n["served"]++
			if e.Args[0] != m.t["sc"] {
				c.bad("accepted", "serve", e.In, s, "another connection than the one accepted is served")
			}
		case e.Kind == EvThreadEnd:
			c.ob("accepted", "goroutine")
			if m.n["served"] != 1 {
				c.bad("accepted", "unserved", e.In, s, "an accepted connection is served %d times", m.n["served"])
			}
		case m.n["thread"] == 1:
		case e.Kind == EvCall && strings.HasSuffix(e.Name, ".Accept") && len(e.Res.args) == 2:
			end()
			for k := range m.n {
				m.n[k] = 0
			}
			m.t["rej"] = nil
			m.t["rw"], m.t["aerr"] = strip(e.Res.args[0]), e.Res.args[1]
		case e.Kind == EvUser && lastField(e.Val) == fAccept:
			m.t["rej"] = e.Res
			if strip(e.Args[0]) != m.t["rw"] {
				c.bad("accepted", "asked", e.In, s, "the accept callback is asked about %s", e.Args[0])
			}
		case e.Kind == EvUser && lastField(e.Val) == fOnClose:
			m.n["told"]++
		case e.Kind == EvCall && e.Name == "net.Conn.Close" && strip(e.Args[0]) == m.t["rw"]:
			m.n["closed"]++
		case e.Kind == EvGo:
			m.n["go"]++
			c.at("accepted", e.In)
			if !c.spawnCounted(m, e, fWG) {
				c.bad("accepted", "uncounted", e.In, s, "the goroutine of a connection is not waited for by Shutdown")
			}
		case e.Kind == EvReturn:
			end()
		}
	}))
	c.floor("accepted")
}

func c19(c *Check) {
	fIds := c.field("", "Server", "id2Conn")
	fIdx := c.field("", "serveconn", "idx")
	fFlag, fCh := c.field("", "serveconn", "untrack"), c.field("", "serveconn", "untrackedCh")
	fID := c.field("", "ConnectionInfo", "id")
	fn := c.fn(fnBind)
	if fIds == nil || fIdx == nil || fFlag == nil || fCh == nil || fID == nil || fn == nil {
		return
	}
	sc := vSym(fn.Params[1].Name(), fn.Params[1].Type())
	id := vSym(fn.Params[2].Name(), fn.Params[2].Type())
	scT := fn.Params[1].Type()
	is := func(s *State, v, x *V) int {
		if v == nil {
			return -1
		}
		v = strip(v)
		if v == x {
			return 1
		}
		if r := s.facts.eval(vEq(vAssert(v, scT), x)); r >= 0 {
			return r
		}
		return s.facts.eval(vEq(v, x))
	}
	// removal of a binding, in bindID and untrack alike
	removal := func(rule string, me *V) func(m *M, s *State, e *Event) {
		return func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvMapLookup && lastField(e.Addr) == fIds:
				m.t["curkey"], m.t["cur"] = strip(e.Args[0]), nil
				if e.Op == "hit" {
					m.t["cur"] = e.Res
				}
			case e.Kind == EvMapDelete && lastField(e.Addr) == fIds:
				c.at(rule, e.In)
				if !c.ofIdx(s, e.Addr, me, fIdx) {
					c.bad(rule, "listener", e.In, s, "a binding of another listener is removed: %s", e.Addr)
				}
				if e.Op == "CompareAndDelete" {
					if strip(e.Val) != me {
						c.bad(rule, "other", e.In, s, "the binding of %s is removed", e.Val)
					}
				} else if m.t["cur"] == nil || m.t["curkey"] != strip(e.Args[0]) || is(s, m.t["cur"], me) != 1 {
					c.bad(rule, "other", e.In, s, "a binding is removed which is not known to be the connection's own")
				}
				m.t["removed"] = strip(e.Args[0])
			}
		}
	}
	rem := removal("unbind", sc)
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnUntrack, fnCloseUn)}, fn, nil, nil, newM("bind", func(m *M, s *State, e *Event) {
		settled := func(what string) {
			if m.t["victim"] != nil && m.n["ended"] == 0 {
				c.bad("bind", what, e.In, s, "the other connection holding the id was not ended first")
			}
		}
		switch {
		case e.Kind == EvMapUpdate && lastField(e.Addr) == fIds:
			c.at("bind", e.In)
			if e.Op != "LoadOrStore" {
				c.bad("bind", "overwrite", e.In, s, "a binding is written without looking whether the id is held (%s)", e.Op)
			}
			settled("order")
			if strip(e.Args[0]) != id || strip(e.Val) != sc || !c.ofIdx(s, e.Addr, sc, fIdx) {
				c.bad("bind", "what", e.In, s, "%s is bound to %s in %s", e.Args[0], e.Val, e.Addr)
			}
			m.n["bound"]++
			m.n["live"] = 0
			m.t["removed"], m.t["cur"] = nil, nil
			return
		case e.Kind == EvMapLookup && lastField(e.Addr) == fIds && m.n["bound"] == 0:
			settled("order")
			if e.Op == "hit" && is(s, e.Res, sc) != 1 {
				m.t["holder"] = strip(e.Res)
			}
			if !c.ofIdx(s, e.Addr, sc, fIdx) || strip(e.Args[0]) != id {
				c.bad("bind", "listener", e.In, s, "the holder of %s is looked up in %s", e.Args[0], e.Addr)
			}
			m.t["curkey"], m.t["cur"] = strip(e.Args[0]), e.Res
			return
		case e.Kind == EvCall && e.Name == fnUntrack:
			v := stripAssert(e.Args[1])
			c.at("kick", e.In)
			if v == sc || v != m.t["holder"] || is(s, v, sc) == 1 || is(s, v, sc) < 0 {
				c.bad("kick", "who", e.In, s, "%s is kicked, the id is held by %s", e.Args[1], showT(m.t["holder"]))
			}
			if !e.Args[2].isTrue() {
				c.bad("kick", "silent", e.In, s, "a connection is ended for its id without counting as kicked")
			}
			m.t["victim"], m.t["ok"], m.t["ch"] = v, e.Res.args[0], e.Res.args[1]
			m.n["waited"], m.n["ended"], m.n["kicked"] = 0, 0, 1
		case e.Kind == EvRecv && m.t["ch"] != nil && e.Ch == m.t["ch"]:
			m.n["waited"] = 1
		case e.Kind == EvCall && e.Name == fnCloseUn:
			if stripAssert(e.Args[0]) != m.t["victim"] {
				c.bad("kick", "closed", e.In, s, "%s is closed, the connection kicked is %s", e.Args[0], showT(m.t["victim"]))
			}
			if m.n["waited"] == 0 && s.facts.eval(m.t["ok"]) != 1 {
				c.bad("kick", "order", e.In, s, "a kicked connection is closed before its removal is known to be over")
			}
			m.n["ended"] = 1
		case e.Kind == EvAtomic && lastField(e.Addr) == fFlag && e.Op == "load" && through(e.Addr, sc):
			m.t["flag"] = e.Res
			m.n["live"] = 1
		case e.Kind == EvRecv && lastField(e.Ch) == fCh && through(e.Ch, sc):
			m.n["gone"] = 1
		case e.Kind == EvMapDelete && lastField(e.Addr) == fIds && m.n["bound"] > 0 && m.n["gone"] == 0:
			c.bad("unbind", "race", e.In, s, "an ended connection's binding is removed while its removal may still be going on")
		case e.Kind == EvReturn:
			c.ob("bind", "result")
			settled("result")
			k := s.facts.eval(e.Args[0])
			if k != m.n["kicked"] {
				c.bad("kick", "reported", e.In, s, "the binding reports kick=%s, %d connections were kicked", e.Args[0], m.n["kicked"])
			}
			own := m.n["bound"] == 0 && is(s, m.t["cur"], sc) == 1
			if m.n["bound"] == 0 && !own {
				c.bad("bind", "unbound", e.In, s, "binding returns although the id may be held by another connection")
			}
			if m.n["bound"] > 0 && m.n["live"] == 0 {
				c.bad("bind", "ended", e.In, s, "whether the connection has ended is not examined after binding: the binding would stay for ever")
			}
			if m.n["bound"] > 0 && m.n["live"] == 1 && s.facts.eval(vEq(m.t["flag"], vInt(0))) != 1 {
				other := m.t["cur"] != nil && m.t["curkey"] == id && is(s, m.t["cur"], sc) == 0
				missing := m.t["curkey"] == id && m.t["cur"] == nil && m.n["gone"] == 1
				if m.t["removed"] != id && !other && !missing {
					c.bad("bind", "kept", e.In, s, "a connection that has ended keeps the binding")
				}
			}
		}
		rem(m, s, e)
	}))
	c.floor("bind")
	c.floor("kick")
	// untrack removes the own binding
	if un := c.fn(fnUntrack); un != nil {
		me := vSym(un.Params[1].Name(), un.Params[1].Type())
		rem := removal("unbind", me)
		c.explore(Config{NoKill: true}, un, nil, nil, newM("unbind", func(m *M, s *State, e *Event) {
			switch {
			case e.Kind == EvAtomic && lastField(e.Addr) == fFlag && e.Op == "cas" && e.Res.isTrue():
				m.n["won"] = 1
			case e.Kind == EvLoad && e.Field == fID:
				if m.n["won"] == 1 {
					m.t["id"] = e.Val
				}
			case e.Kind == EvMapUpdate && lastField(e.Addr) == fIds:
				c.bad("bind", "overwrite", e.In, s, "a binding is written outside bindID")
			case e.Kind == EvReturn && m.n["won"] == 1:
				c.ob("unbind", "end")
				v := m.t["id"]
				switch {
				case v == nil:
					c.bad("unbind", "unread", e.In, s, "the id is not read after the connection is marked as ending: a binding made in between stays")
				case s.facts.eval(vEq(v, vConst(constant.MakeString("")))) == 1:
				case m.t["removed"] == strip(v):
				case m.t["curkey"] == strip(v) && (m.t["cur"] == nil || is(s, m.t["cur"], me) == 0):
				default:
					c.bad("unbind", "kept", e.In, s, "a connection ends and its binding may stay")
				}
			}
			rem(m, s, e)
		}))
	}
	c.floor("unbind")
	// the kick callback, the removal
	c.sub(func(rule, k string) bool { return rule == "kick-callback" || rule == "untrack" }, c18untrack)
	// who else changes bindings
	for _, f := range c.p.Funcs {
		if c.funcs[f] || !mentionsField(f, fIds) {
			continue
		}
		c.explore(Config{NoKill: true, MaxDepth: 1}, f, nil, nil, newM("who", func(m *M, s *State, e *Event) {
			if (e.Kind == EvMapUpdate || e.Kind == EvMapDelete) && lastField(e.Addr) == fIds {
				c.bad("bind", fnName(f)+" elsewhere", e.In, s, "bindings are changed outside binding and removal")
			}
		}))
	}
	c19set(c, fID)
	c19lookup(c, fIds)
}

func stripAssert(v *V) *V {
	v = strip(v)
	for v != nil && (v.k == KAssert || v.k == KIface) {
		v = strip(v.args[0])
	}
	return v
}

func mentionsField(fn *ssa.Function, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if st := structOfPtr(fa.X.Type()); st != nil && st.Field(fa.Field) == f {
					return true
				}
			}
		}
	}
	return false
}

// c19set: binding twice or an empty id is refused.
func c19set(c *Check, fID *types.Var) {
	fn := c.fn("qrpc.ConnectionInfo.SetID")
	if fn == nil {
		return
	}
	id := vSym(fn.Params[1].Name(), fn.Params[1].Type())
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	fSC := c.p.field("", "ConnectionInfo", "serveconn")
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnBind)}, fn, nil, nil, newM("set", func(m *M, s *State, e *Event) {
		switch {
		case e.Kind == EvLoad && e.Field == fID && len(s.locks) > 0:
			m.t["old"], m.n["sec"] = e.Val, 1
		case e.Kind == EvUnlock:
			m.n["sec"] = 0
		case e.Kind == EvStore && e.Field == fID:
			c.at("set-id", e.In)
			m.n["set"]++
			if e.Val != id {
				c.bad("set-id", "value", e.In, s, "the id is set to %s", e.Val)
			}
			if m.n["sec"] == 0 || s.facts.eval(vEq(m.t["old"], vConst(constant.MakeString("")))) != 1 || !s.lockedW() {
				c.bad("set-id", "twice", e.In, s, "the id is set where it may be set already")
			}
			if s.facts.eval(vEq(id, vConst(constant.MakeString("")))) != 0 {
				c.bad("set-id", "empty", e.In, s, "an empty id is accepted")
			}
		case e.Kind == EvCall && e.Name == fnBind:
			m.n["bind"]++
			m.t["k"], m.t["o"] = e.Res.args[0], e.Res.args[1]
			if m.n["set"] == 0 {
				c.bad("set-id", "order", e.In, s, "the id is bound before the connection knows it: its end would not remove the binding")
			}
			if e.Args[2] != id || lastField(e.Args[1]) != fSC || !through(e.Args[1], recv) {
				c.bad("set-id", "bind", e.In, s, "%s is bound to %s", e.Args[2], e.Args[1])
			}
			if len(s.locks) > 0 {
				c.bad("set-id", "locked", e.In, s, "other connections are kicked under the lock of this one")
			}
		case e.Kind == EvReturn:
			c.ob("set-id", "return")
			if m.n["bind"] != 1 || m.n["set"] != 1 {
				c.bad("set-id", "unbound", e.In, s, "setting the id sets it %d and binds it %d times", m.n["set"], m.n["bind"])
			} else if e.Args[0] != m.t["k"] {
				c.bad("set-id", "result", e.In, s, "setting the id reports kick=%s", e.Args[0])
			}
		}
	}))
	c.floor("set-id")
	c.eachStoreOf(fID, func(s *State, e *Event) {
		if !c.funcs[e.In.Parent()] && !isAllocRoot(e.Addr) {
			c.bad("set-id", fnName(e.In.Parent())+" elsewhere", e.In, s, "the id of a connection is changed elsewhere")
		}
	})
}

func (s *State) lockedW() bool {
	for _, l := range s.locks {
		if !l.read {
			return true
		}
	}
	return false
}

// c19lookup: what an id leads to.
func c19lookup(c *Check, fIds *types.Var) {
	fCtx := c.field("", "serveconn", "ctx")
	for _, name := range []string{"qrpc.Server.GetConnectionInfoByID", "qrpc.Server.WalkConnByID"} {
		name := name
		fn := c.fn(name)
		if fn == nil || fCtx == nil {
			continue
		}
		idx := vSym(fn.Params[1].Name(), fn.Params[1].Type())
		c.explore(Config{NoKill: true}, fn, nil, nil, newM("lookup", func(m *M, s *State, e *Event) {
			from := func(v *V) bool { return m.t["sc"] != nil && v != nil && contains(v, m.t["sc"]) }
			switch {
			case e.Kind == EvMapLookup && lastField(e.Addr) == fIds:
				c.at("lookup", e.In)
				m.t["sc"] = nil
				if e.Op == "hit" {
					m.t["sc"] = strip(e.Res)
				}
				if a := e.Addr; a.k != KIdx || a.args[1] != idx {
					c.bad("lookup", name+" listener", e.In, s, "the id is looked up in %s", e.Addr)
				}
				if name == "qrpc.Server.GetConnectionInfoByID" && strip(e.Args[0]) != vSym(fn.Params[2].Name(), fn.Params[2].Type()) {
					c.bad("lookup", name+" key", e.In, s, "the id looked up is %s", e.Args[0])
				}
			case e.Kind == EvUser && name == "qrpc.Server.WalkConnByID":
				if !from(e.Args[1]) {
					c.bad("lookup", name, e.In, s, "the connection visited is %s", e.Args[1])
				}
			case e.Kind == EvReturn && name == "qrpc.Server.GetConnectionInfoByID":
				r := e.Args[0]
				if m.t["sc"] == nil {
					if s.facts.nilEval(r) != 1 {
						c.bad("lookup", name, e.In, s, "an unknown id leads to %s", r)
					}
				} else if !from(r) {
					c.bad("lookup", name, e.In, s, "the id leads to %s", r)
				}
			}
		}))
	}
	c.floor("lookup")
}

func c20(c *Check) {
	fDone, fMu := c.field("", "Server", "done"), c.field("", "Server", "mu")
	fCh, fLns, fFns := c.field("", "Server", "doneChan"), c.field("", "Server", "listeners"), c.field("", "Server", "shutdownFunc")
	fWG := c.field("", "Server", "wg")
	fn := c.fn(fnShutdown)
	if fDone == nil || fMu == nil || fCh == nil || fLns == nil || fFns == nil || fWG == nil || fn == nil {
		return
	}
	recv := vSym(fn.Params[0].Name(), fn.Params[0].Type())
	ln := vSym("#ln", fLns.Type().Underlying().(*types.Slice).Elem())
	f := vSym("#f", fFns.Type().Underlying().(*types.Slice).Elem())
	for _, some := range []bool{true, false} {
		c20shutdown(c, fn, recv, ln, f, some, fDone, fMu, fCh, fLns, fFns, fWG)
	}
	c.floor("shutdown")
	c.floor("shutdown-func")
	c.elsewhere("shutdown", "the end of the server is announced elsewhere", func(in ssa.Instruction) bool { return closesField(in, fCh) })
	c.registerOrRun("shutdown-func", "qrpc.Server.OnShutdown", fFns, fDone)
	c.eachStoreOf(fDone, func(s *State, e *Event) {
		if !c.funcs[e.In.Parent()] {
			c.bad("shutdown", fnName(e.In.Parent())+" elsewhere", e.In, s, "the mark of the shutdown is written elsewhere")
		}
	})
	c20serve(c, fDone, fMu, fCh, fLns, fWG)
	c.sub(func(rule, k string) bool { return rule == "accepted" }, c18accept)
	c.sub(func(rule, k string) bool {
		return rule == "new-connection" || rule == "serve-goroutines" || k == "deaf" || k == "unwaited"
	}, func(c *Check) { c18new(c); c18serve(c) })
}

// c20shutdown: one call of Shutdown; some: with one arbitrary listener and one arbitrary function registered.
func c20shutdown(c *Check, fn *ssa.Function, recv, ln, f *V, some bool, fDone, fMu, fCh, fLns, fFns, fWG *types.Var) {
	c.exploreInit(Config{NoKill: true}, fn, []*V{recv}, nil, func(s *State) {
		if some {
			s.memb = append(s.memb, memb{s.load(vField(recv, fLns), fLns.Type()), ln}, memb{s.load(vField(recv, fFns), fFns.Type()), f})
			s.facts.assume(vNot(vIsNil(ln)), true)
		}
	}, newM("shutdown", func(m *M, s *State, e *Event) {
		m.t["#l"], m.t["#f"] = ln, f
		over := func() int {
			if m.t["was"] == nil {
				return -1
			}
			return s.facts.eval(m.t["was"])
		}
		if e.Kind == EvCall && e.Name == "net.Listener.Close" && s.facts.nilEval(e.Args[0]) != 0 && strip(e.Args[0]) != ln {
			c.bad("shutdown", "no listener", e.In, s, "a listener is closed which need not exist: shutting down a server that never listened would panic")
		}
		switch {
		case e.Kind == EvLoad && e.Field == fDone && s.lockedBy(fMu, true) && m.n["done"] == 0:
			m.t["was"], m.n["sec"] = e.Val, 1
		case e.Kind == EvUnlock && lastField(e.Addr) == fMu:
			m.n["sec"] = 0
		case e.Kind == EvCall && strings.HasSuffix(e.Name, ".Close") && strip(e.Args[0]) == ln:
			c.at("shutdown", e.In)
			m.n["closed"]++
			if !s.lockedBy(fMu, true) {
				c.bad("shutdown", "listener lock", e.In, s, "listeners are closed without the lock: one registered meanwhile would be missed")
			}
			m.t["lerr"] = e.Res
		case e.Kind == EvStore && e.Field == fDone:
			c.at("shutdown", e.In)
			m.n["done"]++
			if !e.Val.isTrue() || m.n["sec"] == 0 || over() != 0 {
				c.bad("shutdown", "flag", e.In, s, "the shutdown is marked (%s) outside the critical section that found it not marked", e.Val)
			}
		case e.Kind == EvClose && lastField(e.Ch) == fCh:
			c.at("shutdown", e.In)
			m.n["told"]++
			if m.n["done"] == 0 {
				c.bad("shutdown", "told", e.In, s, "the end is announced by somebody who did not mark it")
			}
		case e.Kind == EvUser && e.Val == f:
			c.at("shutdown-func", e.In)
			m.n["ran"]++
			if m.n["done"] == 0 {
				c.bad("shutdown-func", "early", e.In, s, "shutdown functions run before the shutdown is marked: one registered meanwhile would be lost")
			}
			if len(s.locks) > 0 {
				c.bad("shutdown-func", "locked", e.In, s, "shutdown functions run under a lock")
			}
		case e.Kind == EvUser:
			if len(s.locks) > 0 {
				c.bad("shutdown-func", "locked", e.In, s, "shutdown functions run under a lock")
			}
		case isWG(e, "Wait", fWG):
			m.n["waited"]++
			if m.n["done"] == 0 && over() != 1 || m.n["done"] > 0 && m.n["told"] == 0 {
				c.bad("shutdown", "wait", e.In, s, "connections are waited for before they are told to end")
			}
			if len(s.locks) > 0 {
				c.bad("shutdown", "wait locked", e.In, s, "connections are waited for under a lock")
			}
		case e.Kind == EvReturn:
			c.ob("shutdown", "return")
			if over() == 1 {
				if m.n["waited"] == 0 {
					c.bad("shutdown", "second", e.In, s, "a second call does not wait")
				}
				if m.n["closed"]+m.n["told"]+m.n["ran"] > 0 {
					c.bad("shutdown", "again", e.In, s, "a second call closes listeners or runs functions again")
				}
				return
			}
			if s.facts.nilEval(e.Args[0]) == 0 && m.n["done"] == 0 {
				return // a listener could not be closed
			}
			switch {
			case some && m.n["closed"] != 1:
				c.bad("shutdown", "listeners", e.In, s, "a listener being served is closed %d times", m.n["closed"])
			case m.n["done"] != 1 || m.n["told"] != 1:
				c.bad("shutdown", "unmarked", e.In, s, "the shutdown is marked %d and announced %d times", m.n["done"], m.n["told"])
			case some && m.n["ran"] != 1:
				c.bad("shutdown-func", "count", e.In, s, "a registered shutdown function runs %d times", m.n["ran"])
			case m.n["waited"] == 0:
				c.bad("shutdown", "unwaited", e.In, s, "shutdown returns without waiting for the connections")
			}
		}
	}))
}

// c20serve: the serving loop.
func c20serve(c *Check, fDone, fMu, fCh, fLns, fWG *types.Var) {
	fn := c.fn(fnSrvServe)
	if fn == nil {
		return
	}
	ln := vSym(fn.Params[1].Name(), fn.Params[1].Type())
	idx := vSym(fn.Params[2].Name(), fn.Params[2].Type())
	c.explore(Config{NoKill: true, Opaque: opaqueSet(fnNewConn, fnServe)}, fn, nil, nil, newM("loop", func(m *M, s *State, e *Event) {
		mine := func(a *V) bool { return a.k == KIdx && a.args[1] == idx && lastField(a.args[0]) == fLns }
		switch {
		case e.Kind == EvLoad && e.Field == fDone && s.lockedBy(fMu, false):
			m.t["was"], m.n["sec"] = e.Val, 1
		case e.Kind == EvUnlock && lastField(e.Addr) == fMu:
			m.n["sec"] = 0
		case e.Kind == EvStore && mine(e.Addr):
			c.at("listener", e.In)
			if !s.lockedBy(fMu, true) {
				c.bad("listener", "lock", e.In, s, "a listener is registered or forgotten without the lock")
			}
			if s.facts.nilEval(e.Val) == 1 {
				m.n["tracked"] = 0
				m.n["forgot"] = 1
				return
			}
			if strip(e.Val) != ln {
				c.bad("listener", "which", e.In, s, "the listener registered is %s", e.Val)
			}
			if m.n["sec"] == 0 || s.facts.eval(m.t["was"]) != 0 {
				c.bad("listener", "late", e.In, s, "a listener is registered where the shutdown may be over: nobody would close it")
			}
			m.n["tracked"] = 1
		case isWG(e, "Add", fWG):
			m.n["added"]++
			if m.n["sec"] == 0 || s.facts.eval(m.t["was"]) != 0 {
				if m.n["added"] == 1 {
					c.bad("listener", "count", e.In, s, "the serving loop is counted where a shutdown may be waiting already")
				}
			}
		case isWG(e, "Done", fWG):
			m.n["added"]--
			m.n["over"] = 1
		case e.Kind == EvCall && strings.HasSuffix(e.Name, ".Accept"):
			c.at("serve-loop", e.In)
			if m.n["tracked"] == 0 || m.n["added"] == 0 {
				c.bad("serve-loop", "untracked", e.In, s, "connections are accepted on a listener a shutdown does not know or wait for")
			}
			if m.t["err"] != nil && s.facts.nilEval(m.t["err"]) != 1 && m.n["asked"] == 0 {
				c.bad("serve-loop", "blind", e.In, s, "after a failed accept the loop goes on without looking for a shutdown")
			}
			if e.Res != nil && len(e.Res.args) == 2 {
				m.t["err"] = e.Res.args[1]
			}
			m.n["asked"] = 0
		case e.Kind == EvSelect && !e.Blocking:
			for _, k := range e.Cases {
				if !k.Send && lastField(k.Ch) == fCh {
					m.n["asked"] = 1
				}
			}
		case e.Kind == EvRecv && lastField(e.Ch) == fCh:
			if m.t["err"] != nil && m.n["asked"] == 1 {
				m.n["quit"] = 1
			}
		case e.Kind == EvGo:
			if m.n["over"] == 1 || m.n["added"] == 0 {
				c.bad("serve-loop", "goroutine", e.In, s, "a connection's goroutine is started where a shutdown may not be waiting any more")
			}
			if e.Addr == nil && m.n["added"] > 1 {
				m.n["added"]-- // the count of the connection, which its goroutine gives back
			}
		case e.Kind == EvCall && e.Name == "context.WithCancel":
			m.t["ctx"] = e.Res
		case e.Kind == EvCall && e.Name == "cancel":
			m.n["cancelled"] = 1
		case e.Kind == EvCall && e.Name == "net.Listener.Close" || e.Kind == EvCall && strings.HasSuffix(e.Name, "Listener.Close"):
			if strip(e.Args[0]) == ln {
				m.n["closed"]++
			}
		case e.Kind == EvReturn:
			c.ob("serve-loop", "return")
			if c.errName(e.Args[0]) != "ErrServerClosed" {
				c.bad("serve-loop", "error", e.In, s, "serving returns %s", e.Args[0])
			}
			if m.n["closed"] == 0 {
				c.bad("serve-loop", "open", e.In, s, "serving returns and its listener stays open")
			}
			if m.n["tracked"] == 1 || m.n["added"] != 0 {
				c.bad("serve-loop", "kept", e.In, s, "serving returns and stays registered (listener %d, count %d)", m.n["tracked"], m.n["added"])
			}
			if m.n["forgot"] == 1 && m.n["cancelled"] == 0 {
				c.bad("serve-loop", "connections", e.In, s, "serving returns and its connections are not told to end")
			}
			if m.n["forgot"] == 1 && m.n["quit"] == 0 {
				c.bad("serve-loop", "quits", e.In, s, "serving ends although no shutdown was noticed")
			}
		}
	}))
	c.floor("serve-loop")
	c.floor("listener")
}
